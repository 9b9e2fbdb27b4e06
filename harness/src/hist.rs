//! Native model-based histories on one thread (C01 C02 C03 C09 C10 C11 C14).
use crate::engine::{guarded, Outcome};
use crate::ffi::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::c_void;

pub type V = u128;
pub fn mask(size: usize) -> V {
    if size >= 16 { !0 } else { (1u128 << (8 * size)) - 1 }
}

/// A value, possibly relative to the cell's current content (so that comparisons come close to succeeding).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum VS {
    Cur,
    Lit(#[serde(with = "hex")] V),
    Flip(u8),
    Byte(u8, u8),
    LowHalf(#[serde(with = "hex")] V),
    HighHalf(#[serde(with = "hex")] V),
    Not,
    Rot(u8),
    Add(i8),
    Neighbour,
}
pub mod hex {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{v:#x}"))
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<u128, D::Error> {
        let s = String::deserialize(d)?;
        u128::from_str_radix(s.trim_start_matches("0x"), 16).map_err(serde::de::Error::custom)
    }
}
impl VS {
    pub fn get(&self, cur: V, size: usize, neigh: V) -> V {
        let bits = 8 * size as u32;
        let m = mask(size);
        let hm = mask(size) >> (bits / 2);
        (match *self {
            VS::Cur => cur,
            VS::Lit(v) => v,
            VS::Flip(b) => cur ^ (1 << (b as u32 % bits)),
            VS::Byte(i, v) => {
                let sh = 8 * (i as u32 % size as u32);
                (cur & !(0xff << sh)) | ((v as V) << sh)
            }
            VS::LowHalf(v) => (cur & !hm) | (v & hm),
            VS::HighHalf(v) => (cur & hm) | ((v & hm) << (bits / 2)),
            VS::Not => !cur,
            VS::Rot(r) => {
                let r = r as u32 % bits;
                if r == 0 { cur } else { (cur << r) | ((cur & m) >> (bits - r)) }
            }
            VS::Add(d) => cur.wrapping_add(d as i128 as u128),
            VS::Neighbour => neigh,
        }) & m
    }
}
pub fn lit() -> BoxedStrategy<V> {
    prop_oneof![
        3 => any::<u128>(),
        2 => any::<u8>().prop_map(|b| b as u128),
        2 => any::<u8>().prop_map(|b| u128::from_ne_bytes([b; 16])),
        2 => (0u32..128).prop_map(|b| 1u128 << b),
        1 => (0u32..128).prop_map(|b| !(1u128 << b)),
        1 => (0u32..129).prop_map(|b| if b == 128 { !0 } else { (1u128 << b) - 1 }),
        2 => prop::sample::select(vec![
            0u128, !0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
            0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_ffff, 1 << 127, !0 >> 1,
            0x7ff0_0000_0000_0001, 0xfff0_0000_0000_0001, 0x7ff4_0000_0000_0000, 0x7ff8_0000_0000_0000, // NaNs
            0x7f80_0001, 0xffa0_0000, 0x3ff0_0000_0000_0000, 0x0000_0001_0000_0000, 0xffff_ffff_0000_0000,
            0x0010_0000_0000_0000, 0x001f_ffff_ffff_ffff, 0x0020_0000_0000_0001, 0x43e0_0000_0000_0001,
            0xffff_ffff_ffff_ffff_0000_0000_0000_0000, 0x1_0000_0000_0000_0000,
        ]),
        1 => any::<u64>().prop_map(|x| (x as u128) | (x as u128) << 64),
        1 => any::<u32>().prop_map(|x| (x as u128) * 0x1_00000001_00000001_00000001),
    ]
    .boxed()
}
pub fn vs() -> BoxedStrategy<VS> {
    prop_oneof![
        4 => lit().prop_map(VS::Lit),
        2 => Just(VS::Cur),
        2 => any::<u8>().prop_map(VS::Flip),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| VS::Byte(a, b)),
        1 => lit().prop_map(VS::LowHalf),
        1 => lit().prop_map(VS::HighHalf),
        1 => Just(VS::Not),
        1 => any::<u8>().prop_map(VS::Rot),
        1 => any::<i8>().prop_map(VS::Add),
        1 => Just(VS::Neighbour),
    ]
    .boxed()
}
/// expected values: mostly equal or nearly equal
pub fn vs_exp() -> BoxedStrategy<VS> {
    prop_oneof![
        6 => Just(VS::Cur),
        5 => any::<u8>().prop_map(VS::Flip),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| VS::Byte(a, b)),
        2 => lit().prop_map(VS::LowHalf),
        2 => lit().prop_map(VS::HighHalf),
        1 => Just(VS::Not),
        1 => any::<u8>().prop_map(VS::Rot),
        1 => any::<i8>().prop_map(VS::Add),
        2 => lit().prop_map(VS::Lit),
        1 => Just(VS::Neighbour),
    ]
    .boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ret {
    None,
    Some(VS),
    Panic,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct FuStep {
    /// writes done by the closure itself to the same atomic before it returns: (through atomic store?, value)
    pub interfere: Vec<(bool, VS)>,
    pub ret: Ret,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Load { fl: u8, o: u8 },
    Store { fl: u8, o: u8, v: VS },
    Swap { fl: u8, o: u8, v: VS },
    Cas { fl: u8, weak: bool, s: u8, f: u8, exp: VS, new: VS },
    Fu { fl: u8, s: u8, f: u8, script: Vec<FuStep> },
    Extract(u8),
    Inject(u8, VS),
    Ctor(u8, VS),
    Debug,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Hist {
    pub ty: u8,
    /// 0 start of mapped memory, 1 end of mapped memory, n >= 2: slot (n-2) of a cache line in the middle
    pub place: u8,
    pub bg: u64,
    pub init: VS,
    pub ops: Vec<Op>,
}

pub const ONAMES: [&str; 5] = ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"];
pub fn ok_load(o: u8) -> bool { matches!(o, 0 | 2 | 4) }
pub fn ok_store(o: u8) -> bool { matches!(o, 0 | 1 | 4) }

// ---- memory the cells live in: [guard][2 pages][guard], and a read-only page
pub struct Arena {
    pub lo: *mut u8,
    pub hi: *mut u8,
    pub ro: *mut u8,
    pub ro_file: *mut u8,
}
pub fn arena() -> &'static Arena {
    static mut A: Option<Arena> = None;
    unsafe {
        let a = &mut *(&raw mut A);
        if a.is_none() {
            let anon = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS;
            let p = libc::mmap(std::ptr::null_mut(), 4 * 4096, libc::PROT_NONE, anon, -1, 0) as *mut u8;
            libc::mprotect(p.add(4096).cast(), 2 * 4096, libc::PROT_READ | libc::PROT_WRITE);
            // shared mapping seen twice: writable at ro_file, read-only at ro
            let fd = libc::memfd_create(c"ro".as_ptr(), 0);
            libc::ftruncate(fd, 4096);
            let w = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            let base = libc::mmap(std::ptr::null_mut(), 3 * 4096, libc::PROT_NONE, anon, -1, 0) as *mut u8;
            let r = libc::mmap(base.add(4096).cast(), 4096, libc::PROT_READ, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
            assert!(w != libc::MAP_FAILED && r != libc::MAP_FAILED);
            *a = Some(Arena { lo: p.add(4096), hi: p.add(3 * 4096), ro: r.cast(), ro_file: w.cast() });
        }
        a.as_ref().unwrap()
    }
}
pub fn place_at(place: u8, size: usize) -> *mut u8 {
    let a = arena();
    unsafe {
        match place {
            0 => a.lo,
            1 => a.hi.sub(size),
            n => a.lo.add(1024 + ((n as usize - 2) * size) % 192),
        }
    }
}
pub fn bg_fill(p: *mut u8, n: usize, bg: u64) {
    for i in 0..n {
        let b = match bg % 4 {
            0 => 0,
            1 => 0xff,
            _ => {
                let mut x = bg.wrapping_add(i as u64).wrapping_mul(0x9e3779b97f4a7c15);
                x ^= x >> 29;
                x = x.wrapping_mul(0xbf58476d1ce4e5b9);
                (x >> 56) as u8
            }
        };
        unsafe { p.add(i).write_volatile(b) };
    }
}
pub fn get(p: *const u8, size: usize) -> V {
    let mut b = [0u8; 16];
    for i in 0..size {
        b[i] = unsafe { p.add(i).read_volatile() };
    }
    u128::from_le_bytes(b)
}
pub fn put(p: *mut u8, size: usize, v: V) {
    let b = v.to_le_bytes();
    for i in 0..size {
        unsafe { p.add(i).write_volatile(b[i]) };
    }
}

struct FuCtx<'a> {
    script: &'a [FuStep],
    trace: Vec<(V, V, V, Ret, V)>, // arg, memory at entry, memory after interference, what was returned, next
    at: *mut u8,
    size: usize,
    neigh: V,
    t: &'a TypeOps,
}
unsafe extern "C" fn fu_cb(ctx: *mut c_void, prev: *const u8, next: *mut u8) -> u32 {
    let c = &mut *(ctx as *mut FuCtx);
    let arg = get(prev, c.size);
    let m0 = get(c.at, c.size);
    let step = c.script.get(c.trace.len()).cloned();
    if let Some(s) = &step {
        for (atomic, v) in &s.interfere {
            let cur = get(c.at, c.size);
            let v = v.get(cur, c.size, c.neigh).to_le_bytes();
            if *atomic {
                (c.t.fl[0].store)(c.at, 4, v.as_ptr());
            } else {
                put(c.at, c.size, u128::from_le_bytes(v));
            }
        }
    }
    let m1 = get(c.at, c.size);
    let ret = step.map(|s| s.ret).unwrap_or(Ret::Some(VS::Add(1)));
    // beyond any plausible number of retries: stop, the trace oracle reports it
    let ret = if c.trace.len() > 200 { Ret::None } else { ret };
    let n = if let Ret::Some(v) = &ret { v.get(arg, c.size, c.neigh) } else { 0 };
    c.trace.push((arg, m0, m1, ret.clone(), n));
    match ret {
        Ret::None => 0,
        Ret::Some(_) => {
            let b = n.to_le_bytes();
            std::ptr::copy_nonoverlapping(b.as_ptr(), next, c.size);
            1
        }
        Ret::Panic => 2,
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stat {
    pub cas_ok: u32,
    pub cas_fail: u32,
    pub panics: u32,
    pub retries: u32,
    pub writes: u32,
    pub reads: u32,
    pub none: u32,
}

/// What is compared: `values` results and cell contents, `outside` the bytes around the cell.
#[derive(Clone, Copy)]
pub struct Check {
    pub values: bool,
    pub outside: bool,
}

fn exec(t: &TypeOps, h: &Hist, ck: Check) -> Result<Stat, String> {
    let mut st = Stat::default();
    let size = t.size as usize;
    let p = place_at(h.place, size);
    let a = arena();
    let lo = (p as usize - 64).max(a.lo as usize) as *mut u8;
    let hi = (p as usize + size + 64).min(a.hi as usize) as *mut u8;
    let n = hi as usize - lo as usize;
    bg_fill(lo, n, h.bg);
    let neigh = if h.place == 1 { get(unsafe { p.sub(size) }, size) } else { get(unsafe { p.add(size) }, size) };
    let mut cur = h.init.get(0, size, neigh);
    put(p, size, cur);
    let off = p as usize - lo as usize;
    let mut before = vec![0u8; n];
    let snap = |b: &mut Vec<u8>| unsafe { std::ptr::copy_nonoverlapping(lo, b.as_mut_ptr(), n) };
    snap(&mut before);
    // results are written to buffers with their own canaries
    let mut out = [0u8; 48];
    let name = t.name().to_string();
    for (i, op) in h.ops.iter().enumerate() {
        out = [0xA5; 48];
        let outp = unsafe { out.as_mut_ptr().add(16) };
        let ctx = |what: String| Err(format!("{name} op #{i} {op:?}: {what}"));
        let oval = |o: &[u8; 48]| get(o[16..].as_ptr(), size);
        let pre = cur;
        unsafe {
            match op {
                Op::Load { fl, o } => {
                    let r = (t.fl[*fl as usize].load)(p, *o as u32, outp);
                    let exp_panic = *fl >= 4 && !ok_load(*o);
                    st.reads += 1;
                    if exp_panic { st.panics += 1 }
                    if (r == 2) != exp_panic {
                        return ctx(format!("load with {} {}", ONAMES[*o as usize], if r == 2 { "panicked" } else { "was accepted" }));
                    }
                    if r == 0 && ck.values && oval(&out) != cur {
                        return ctx(format!("returned {:#x}, cell holds {cur:#x}", oval(&out)));
                    }
                }
                Op::Store { fl, o, v } => {
                    let v = v.get(cur, size, neigh);
                    let b = v.to_le_bytes();
                    let r = (t.fl[*fl as usize].store)(p, *o as u32, b.as_ptr());
                    let exp_panic = *fl >= 4 && !ok_store(*o);
                    st.writes += 1;
                    if exp_panic { st.panics += 1 }
                    if (r == 2) != exp_panic {
                        return ctx(format!("store with {} {}", ONAMES[*o as usize], if r == 2 { "panicked" } else { "was accepted" }));
                    }
                    if !exp_panic { cur = v; }
                }
                Op::Swap { fl, o, v } => {
                    let v = v.get(cur, size, neigh);
                    let b = v.to_le_bytes();
                    let r = (t.fl[*fl as usize].swap)(p, *o as u32, b.as_ptr(), outp);
                    st.writes += 1;
                    if r != 0 {
                        return ctx(format!("swap with {} panicked", ONAMES[*o as usize]));
                    }
                    if ck.values && oval(&out) != cur {
                        return ctx(format!("returned {:#x}, cell held {cur:#x}", oval(&out)));
                    }
                    cur = v;
                }
                Op::Cas { fl, weak, s, f, exp, new } => {
                    if !t.has_cas() { continue; }
                    let e = exp.get(cur, size, neigh);
                    let nv = new.get(cur, size, neigh);
                    let (eb, nb) = (e.to_le_bytes(), nv.to_le_bytes());
                    let fun = if *weak { t.fl[*fl as usize].casw } else { t.fl[*fl as usize].cas };
                    let r = fun(p, *s as u32 | (*f as u32) << 8, eb.as_ptr(), nb.as_ptr(), outp);
                    let exp_panic = *fl >= 4 && !ok_load(*f);
                    if exp_panic { st.panics += 1 }
                    if (r == 2) != exp_panic {
                        return ctx(format!("orderings ({}, {}) {}", ONAMES[*s as usize], ONAMES[*f as usize], if r == 2 { "panicked" } else { "were accepted" }));
                    }
                    if !exp_panic {
                        let ok = r == 1;
                        if r > 1 { return ctx(format!("status {r}")); }
                        if ok { st.cas_ok += 1 } else { st.cas_fail += 1 }
                        if ck.values {
                            if ok && e != cur {
                                return ctx(format!("succeeded although the cell held {cur:#x} and {e:#x} was expected"));
                            }
                            if !ok && e == cur && !*weak {
                                return ctx(format!("failed although the cell held the expected {e:#x}"));
                            }
                            if oval(&out) != cur {
                                return ctx(format!("returned previous value {:#x}, cell held {cur:#x} (expected {e:#x}, {})", oval(&out), if ok { "Ok" } else { "Err" }));
                            }
                        }
                        if ok { cur = nv; }
                        let mem = get(p, size);
                        if ck.values && mem != cur {
                            return ctx(format!("{} but the cell holds {mem:#x} instead of {cur:#x}", if ok { "succeeded" } else { "failed" }));
                        }
                    }
                }
                Op::Fu { fl, s, f, script } => {
                    if !t.has_cas() { continue; }
                    let mut c = FuCtx { script, trace: vec![], at: p, size, neigh, t };
                    let r = (t.fl[*fl as usize].fu)(p, *s as u32 | (*f as u32) << 8, fu_cb, (&raw mut c).cast(), outp);
                    let exp_panic = *fl >= 4 && !ok_load(*f);
                    if exp_panic { st.panics += 1 }
                    if (r == 2) != exp_panic {
                        return ctx(format!("fetch_update orderings ({}, {}) {}", ONAMES[*s as usize], ONAMES[*f as usize], if r == 2 { "panicked" } else { "were accepted" }));
                    }
                    if exp_panic {
                        if !c.trace.is_empty() {
                            return ctx("rejected fetch_update called its closure".into());
                        }
                    } else {
                        let mut want = pre;
                        let last = c.trace.len().wrapping_sub(1);
                        if c.trace.is_empty() {
                            return ctx("fetch_update never called its closure".into());
                        }
                        if c.trace.len() > 200 {
                            return ctx("fetch_update keeps retrying without interference".into());
                        }
                        let mut fin = pre;
                        for (k, (arg, m0, m1, ret, nx)) in c.trace.iter().enumerate() {
                            if ck.values && *m0 != want {
                                return ctx(format!("closure call {k}: cell held {m0:#x}, should be {want:#x}"));
                            }
                            if ck.values && *arg != *m0 {
                                return ctx(format!("closure call {k} got {arg:#x}, cell held {m0:#x}"));
                            }
                            want = *m1;
                            if k < last {
                                if ck.values && !matches!(ret, Ret::Some(_)) {
                                    return ctx(format!("closure call {k} returned {ret:?} but was called again"));
                                }
                                st.retries += 1;
                                continue;
                            }
                            fin = *m1;
                            match ret {
                                Ret::None => {
                                    st.none += 1;
                                    if ck.values && (r != 0 || oval(&out) != *arg) {
                                        return ctx(format!("closure returned None for {arg:#x}: result status {r} value {:#x}, want Err({arg:#x})", oval(&out)));
                                    }
                                }
                                Ret::Panic => {
                                    if r != 3 {
                                        return ctx(format!("closure panic did not propagate (status {r})"));
                                    }
                                }
                                Ret::Some(_) => {
                                    if ck.values && (r != 1 || oval(&out) != *arg) {
                                        return ctx(format!("result status {r} value {:#x}, want Ok({arg:#x})", oval(&out)));
                                    }
                                    if ck.values && arg != m1 {
                                        return ctx(format!("stored although the cell changed from {arg:#x} to {m1:#x} during the closure"));
                                    }
                                    fin = *nx;
                                }
                            }
                        }
                        cur = fin;
                    }
                }
                Op::Extract(k) => {
                    let q = (t.extract)(*k as u32, p, outp);
                    if ck.values && (q != p as usize || oval(&out) != cur) {
                        return ctx(format!("address {q:#x} (cell at {p:p}) value {:#x}, cell held {cur:#x}", oval(&out)));
                    }
                }
                Op::Inject(k, v) => {
                    let v = v.get(cur, size, neigh);
                    let b = v.to_le_bytes();
                    let q = (t.inject)(*k as u32, p, b.as_ptr());
                    cur = v;
                    if ck.values && q != p as usize {
                        return ctx(format!("address {q:#x} (cell at {p:p})"));
                    }
                }
                Op::Ctor(k, v) => {
                    let v = v.get(cur, size, neigh);
                    let b = v.to_le_bytes();
                    (t.ctor)(*k as u32, b.as_ptr(), p);
                    cur = v;
                }
                Op::Debug => {
                    let mut b1 = [0u8; 512];
                    let n1 = (t.debug)(p, b1.as_mut_ptr(), 512);
                    // the same text whatever the contents
                    put(p, size, !cur & mask(size));
                    let mut b2 = [0u8; 512];
                    let n2 = (t.debug)(p, b2.as_mut_ptr(), 512);
                    put(p, size, cur);
                    if ck.values && (n1 != n2 || b1 != b2) {
                        return ctx("Debug output depends on the contents".into());
                    }
                    if n1 == 0 {
                        return ctx("empty Debug output".into());
                    }
                }
            }
        }
        let mem = get(p, size);
        if ck.values && mem != cur {
            return ctx(format!("cell holds {mem:#x}, should hold {cur:#x}"));
        }
        if ck.values {
            for (j, &b) in out.iter().enumerate() {
                if (j < 16 || j >= 16 + size) && b != 0xA5 {
                    return ctx("wrote outside the result buffer".into());
                }
            }
        }
        if ck.outside {
            let now = unsafe { std::slice::from_raw_parts(lo, n) };
            for j in 0..n {
                if (j < off || j >= off + size) && now[j] != before[j] {
                    return ctx(format!("changed the byte at offset {} from the cell: {:#x} -> {:#x}", j as isize - off as isize, before[j], now[j]));
                }
            }
        }
        // keep going from what memory really holds when values are not this check's business
        if !ck.values {
            cur = mem;
        }
    }
    let _ = out;
    Ok(st)
}
pub fn describe(o: Outcome) -> String {
    match o {
        Outcome::Fault { sig, addr, ip_off, .. } => format!("fault: signal {sig} at address {addr:#x}, instruction {ip_off}"),
        Outcome::Budget { thread, call, steps } => {
            format!("thread {thread} call {call} has not completed after {steps} of its own instructions")
        }
        Outcome::Abi { thread, call, what } => format!("thread {thread} call {call}: {what}"),
        Outcome::Timeout => "endless loop on one thread (CPU time limit)".into(),
        Outcome::Done => "done".into(),
    }
}
pub fn run(tab: &[TypeOps], h: &Hist, ck: Check) -> Result<Stat, String> {
    let t = &tab[h.ty as usize];
    match guarded(|| exec(t, h, ck)) {
        Ok(r) => r,
        Err(o) => Err(describe(o)),
    }
}

// ---- C14: the same history through methods and through raw functions
pub fn run_diff(tab: &[TypeOps], h: &Hist) -> Result<Stat, String> {
    let t = &tab[h.ty as usize];
    let r = guarded(|| -> Result<Stat, String> {
        let mut st = Stat::default();
        let size = t.size as usize;
        let pa = place_at(2 + 64 / size.max(1) as u8 % 12, size);
        let pb = place_at(h.place, size);
        let pa = if pa == pb { place_at(2, size) } else { pa };
        let pa = if pa == pb { place_at(3, size) } else { pa };
        let init = h.init.get(0, size, h.bg as V);
        put(pa, size, init);
        put(pb, size, init);
        for (i, op) in h.ops.iter().enumerate() {
            let cur = get(pa, size);
            let mut oa = [0u8; 16];
            let mut ob = [0u8; 16];
            let (mut ra, mut rb) = (0, 0);
            let nb = h.bg as V & mask(size);
            unsafe {
                match op {
                    Op::Load { fl, o } => {
                        let k = (*fl & 1) as usize;
                        ra = (t.fl[k].load)(pa, *o as u32, oa.as_mut_ptr());
                        rb = (t.fl[2 + k].load)(pb, *o as u32, ob.as_mut_ptr());
                        st.reads += 1;
                    }
                    Op::Store { fl, o, v } => {
                        let k = (*fl & 1) as usize;
                        let v = v.get(cur, size, nb).to_le_bytes();
                        ra = (t.fl[k].store)(pa, *o as u32, v.as_ptr());
                        rb = (t.fl[2 + k].store)(pb, *o as u32, v.as_ptr());
                        st.writes += 1;
                    }
                    Op::Swap { fl, o, v } => {
                        let k = (*fl & 1) as usize;
                        let v = v.get(cur, size, nb).to_le_bytes();
                        ra = (t.fl[k].swap)(pa, *o as u32, v.as_ptr(), oa.as_mut_ptr());
                        rb = (t.fl[2 + k].swap)(pb, *o as u32, v.as_ptr(), ob.as_mut_ptr());
                        st.writes += 1;
                    }
                    Op::Cas { fl, weak, s, f, exp, new } => {
                        if !t.has_cas() { continue; }
                        let k = (*fl & 1) as usize;
                        let e = exp.get(cur, size, nb).to_le_bytes();
                        let n = new.get(cur, size, nb).to_le_bytes();
                        let o = *s as u32 | (*f as u32) << 8;
                        let g = |x: &Flavor| if *weak { x.casw } else { x.cas };
                        ra = g(&t.fl[k])(pa, o, e.as_ptr(), n.as_ptr(), oa.as_mut_ptr());
                        rb = g(&t.fl[2 + k])(pb, o, e.as_ptr(), n.as_ptr(), ob.as_mut_ptr());
                        if *weak && ra != rb {
                            // one of them failed spuriously: retry both until they agree or one is wrong for good
                            for _ in 0..100 {
                                if ra == 0 { ra = g(&t.fl[k])(pa, o, e.as_ptr(), n.as_ptr(), oa.as_mut_ptr()); }
                                if rb == 0 { rb = g(&t.fl[2 + k])(pb, o, e.as_ptr(), n.as_ptr(), ob.as_mut_ptr()); }
                                if ra == rb { break; }
                            }
                        }
                        if ra == 1 { st.cas_ok += 1 } else { st.cas_fail += 1 }
                    }
                    _ => {}
                }
            }
            if ra != rb || oa != ob {
                return Err(format!("{} op #{i} {op:?} on {cur:#x}: method gives ({ra}, {:#x}), raw function ({rb}, {:#x})", t.name(), get(oa.as_ptr(), size), get(ob.as_ptr(), size)));
            }
            let (ma, mb) = (get(pa, size), get(pb, size));
            if ma != mb {
                return Err(format!("{} op #{i} {op:?} on {cur:#x}: method leaves {ma:#x}, raw function {mb:#x}", t.name()));
            }
        }
        Ok(st)
    });
    match r {
        Ok(r) => r,
        Err(o) => Err(describe(o)),
    }
}

// ---- C03: loads from read-only memory
pub fn run_ro(tab: &[TypeOps], ty: u8, slot: u16, fl: u8, o: u8, v: V) -> Result<(), String> {
    let t = &tab[ty as usize];
    let size = t.size as usize;
    if size > std::mem::size_of::<usize>() {
        return Ok(());
    }
    let off = (slot as usize * size) % 4096;
    let a = arena();
    put(unsafe { a.ro_file.add(off) }, size, v);
    let r = guarded(|| {
        let mut out = [0u8; 16];
        unsafe { (t.fl[fl as usize].load)(a.ro.add(off), o as u32, out.as_mut_ptr()) };
        get(out.as_ptr(), size)
    });
    match r {
        Ok(x) if x == v & mask(size) => Ok(()),
        Ok(x) => Err(format!("{} load({}) from read-only memory at page offset {off} returned {x:#x}, memory holds {:#x}", t.name(), ONAMES[o as usize], v & mask(size))),
        Err(e) => Err(format!("{} load({}) from read-only memory at page offset {off}: {}", t.name(), ONAMES[o as usize], describe(e))),
    }
}

// ---- strategies
pub fn o_load() -> impl Strategy<Value = u8> { prop::sample::select(vec![0u8, 2, 4]) }
pub fn o_store() -> impl Strategy<Value = u8> { prop::sample::select(vec![0u8, 1, 4]) }
pub fn o_any() -> impl Strategy<Value = u8> { 0u8..5 }

#[derive(Clone, Copy)]
pub struct Weights {
    pub load: u32,
    pub store: u32,
    pub swap: u32,
    pub cas: u32,
    pub fu: u32,
    pub api: u32,
    pub any_ord: bool,
    pub raw: bool,
    pub api_debug: u32,
}
fn fu_script(panics: bool) -> BoxedStrategy<Vec<FuStep>> {
    let ret = prop_oneof![
        2 => Just(Ret::None),
        8 => vs().prop_map(Ret::Some),
        if panics { 2 } else { 0 } => Just(Ret::Panic),
    ];
    let step = (
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec((any::<bool>(), vs()), 1..3)],
        ret,
    )
        .prop_map(|(interfere, ret)| FuStep { interfere, ret });
    prop::collection::vec(step, 0..4).boxed()
}
pub fn op(w: Weights) -> BoxedStrategy<Op> {
    // flavors: 0/1 methods, 2/3 raw, 4/5 methods that may panic
    let fl = move || -> BoxedStrategy<u8> {
        if w.any_ord { (4u8..6).boxed() } else if w.raw { (0u8..4).boxed() } else { (0u8..2).boxed() }
    };
    let ol = move || if w.any_ord { o_any().boxed() } else { o_load().boxed() };
    let os = move || if w.any_ord { o_any().boxed() } else { o_store().boxed() };
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    if w.load > 0 { v.push((w.load, (fl(), ol()).prop_map(|(fl, o)| Op::Load { fl, o }).boxed())); }
    if w.store > 0 { v.push((w.store, (fl(), os(), vs()).prop_map(|(fl, o, v)| Op::Store { fl, o, v }).boxed())); }
    if w.swap > 0 { v.push((w.swap, (fl(), o_any(), vs()).prop_map(|(fl, o, v)| Op::Swap { fl, o, v }).boxed())); }
    if w.cas > 0 {
        v.push((w.cas, (fl(), any::<bool>(), o_any(), ol(), vs_exp(), vs())
            .prop_map(|(fl, weak, s, f, exp, new)| Op::Cas { fl, weak, s, f, exp, new }).boxed()));
    }
    if w.fu > 0 {
        // closures that panic need the catching flavors
        let a = (fl(), o_any(), ol(), fu_script(false)).prop_map(|(fl, s, f, script)| Op::Fu { fl, s, f, script });
        let b = (4u8..6, o_any(), ol(), fu_script(true)).prop_map(|(fl, s, f, script)| Op::Fu { fl, s, f, script });
        v.push((w.fu, prop_oneof![a, b].boxed()));
    }
    if w.api > 0 {
        v.push((w.api, (0u8..5).prop_map(Op::Extract).boxed()));
        v.push((w.api, (0u8..4, vs()).prop_map(|(k, v)| Op::Inject(k, v)).boxed()));
        v.push((w.api, (0u8..5, vs()).prop_map(|(k, v)| Op::Ctor(k, v)).boxed()));
    }
    if w.api_debug > 0 { v.push((w.api_debug, Just(Op::Debug).boxed())); }
    proptest::strategy::Union::new_weighted(v).boxed()
}
pub fn types(tab: &[TypeOps], need_cas: bool) -> BoxedStrategy<u8> {
    let v: Vec<u8> = (0..tab.len() as u8)
        .filter(|&i| tab[i as usize].has_ls() && (!need_cas || tab[i as usize].has_cas()))
        .collect();
    prop::sample::select(v).boxed()
}
pub fn hist(tab: &[TypeOps], w: Weights, len: usize, edges: bool, need_cas: bool) -> BoxedStrategy<Hist> {
    let place = if edges { prop_oneof![2 => 0u8..2, 3 => 2u8..26].boxed() } else { (2u8..26).boxed() };
    (types(tab, need_cas), place, any::<u64>(), vs(), prop::collection::vec(op(w), 1..=len))
        .prop_map(|(ty, place, bg, init, ops)| Hist { ty, place, bg, init, ops })
        .boxed()
}
/// Tables without compare-exchange cannot run Cas/Fu.
pub fn any_cas(tab: &[TypeOps]) -> bool {
    tab.iter().any(|t| t.has_cas())
}
