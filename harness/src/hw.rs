//! Generated litmus programs and contention runs on real cores (C05 C06 C07 C08).
use crate::ffi::*;
use crate::hist::{self, get, mask, put, V};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum LOp {
    Load { x: u8, fl: u8, o: u8 },
    Store { x: u8, fl: u8, o: u8 },
    Swap { x: u8, fl: u8, o: u8 },
    /// expects `exp`: 0 the initial value, n the value written by the n-th writing op of the program
    Cas { x: u8, fl: u8, weak: bool, s: u8, f: u8, exp: u8 },
    /// fetch_update; stores when `some`, otherwise a read
    Fu { x: u8, fl: u8, s: u8, f: u8, some: bool },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Litmus {
    /// type of each location
    pub tys: Vec<u8>,
    pub threads: Vec<Vec<LOp>>,
    /// per-thread spin before starting, per iteration modulo
    pub delay: Vec<u8>,
    pub same_line: bool,
}
impl LOp {
    pub fn x(&self) -> u8 {
        match self {
            LOp::Load { x, .. } | LOp::Store { x, .. } | LOp::Swap { x, .. } | LOp::Cas { x, .. } | LOp::Fu { x, .. } => *x,
        }
    }
    pub fn writes(&self) -> bool {
        !matches!(self, LOp::Load { .. } | LOp::Fu { some: false, .. })
    }
}
/// Value written by op number `id` (program-wide): every byte distinct from other ops' bytes.
pub fn wval(id: usize, size: usize) -> V {
    let b = (id as u8 + 1) * 0x11;
    u128::from_ne_bytes([b; 16]) & mask(size)
}
pub struct Prog {
    pub ids: Vec<Vec<usize>>,
}
pub fn number(l: &Litmus) -> Prog {
    let mut n = 0;
    Prog {
        ids: l
            .threads
            .iter()
            .map(|t| {
                t.iter()
                    .map(|_| {
                        n += 1;
                        n - 1
                    })
                    .collect()
            })
            .collect(),
    }
}
fn exp_val(e: u8, size: usize) -> V {
    if e == 0 { 0 } else { wval(e as usize - 1, size) }
}
/// Outcome: for every op a result (value, and 1<<127-ish success bit kept separately), then final memory.
pub type Outc = Vec<(V, bool)>;

/// All outcomes some interleaving of the operations can produce.
pub fn sc_outcomes(l: &Litmus, sizes: &[usize]) -> HashSet<Outc> {
    let p = number(l);
    let total: usize = l.threads.iter().map(|t| t.len()).sum();
    let mut res = HashSet::new();
    let mut seen: HashSet<(Vec<usize>, Vec<V>, Outc)> = HashSet::new();
    let mut st = vec![(vec![0usize; l.threads.len()], vec![0 as V; l.tys.len()], vec![(0, false); total])];
    while let Some((pc, mem, out)) = st.pop() {
        if !seen.insert((pc.clone(), mem.clone(), out.clone())) {
            continue;
        }
        let mut any = false;
        for t in 0..l.threads.len() {
            if pc[t] >= l.threads[t].len() {
                continue;
            }
            any = true;
            let id = p.ids[t][pc[t]];
            let op = &l.threads[t][pc[t]];
            let x = op.x() as usize;
            let size = sizes[x];
            let mut pc2 = pc.clone();
            pc2[t] += 1;
            let cur = mem[x];
            let mut go = |nv: V, r: (V, bool)| {
                let mut m = mem.clone();
                m[x] = nv;
                let mut o = out.clone();
                o[id] = r;
                st.push((pc2.clone(), m, o));
            };
            match op {
                LOp::Load { .. } => go(cur, (cur, true)),
                LOp::Store { .. } => go(wval(id, size), (0, true)),
                LOp::Swap { .. } => go(wval(id, size), (cur, true)),
                LOp::Cas { exp, weak, .. } => {
                    let e = exp_val(*exp, size);
                    if e == cur {
                        go(wval(id, size), (cur, true));
                        if *weak {
                            go(cur, (cur, false));
                        }
                    } else {
                        go(cur, (cur, false));
                    }
                }
                LOp::Fu { some, .. } => {
                    if *some {
                        go(wval(id, size), (cur, true));
                    } else {
                        go(cur, (cur, false));
                    }
                }
            }
        }
        if !any {
            let mut o = out;
            o.extend(mem.iter().map(|&m| (m, true)));
            res.insert(o);
        }
    }
    res
}

struct FuC {
    val: [u8; 16],
    size: usize,
    some: bool,
}
unsafe extern "C" fn fu_cb(c: *mut std::ffi::c_void, _p: *const u8, n: *mut u8) -> u32 {
    let c = &*(c as *const FuC);
    if c.some {
        std::ptr::copy_nonoverlapping(c.val.as_ptr(), n, c.size);
        1
    } else {
        0
    }
}
#[derive(Clone)]
struct Bound {
    f: usize,
    kind: u8,
    addr: usize,
    o: u32,
    val: [u8; 16],
    exp: [u8; 16],
    size: usize,
    some: bool,
}
#[repr(align(128))]
struct Flag(AtomicU64);

fn alloc(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        std::ptr::write_bytes(p as *mut u8, 0, n);
        p.cast()
    }
}
pub fn pin(cpus: &[usize], i: usize) {
    if cpus.is_empty() {
        return;
    }
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[i % cpus.len()], &mut s);
        libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
    }
}
#[inline]
fn spin_until(f: &AtomicU64, v: u64, stop: &AtomicBool) -> bool {
    let mut n = 0u32;
    while f.load(Acquire) != v {
        std::hint::spin_loop();
        n += 1;
        if n > 20_000 {
            if stop.load(Relaxed) {
                return false;
            }
            std::thread::yield_now();
            n = 0;
        }
    }
    true
}
pub struct LitRes {
    pub iters: u64,
    pub outcomes: HashMap<Outc, u64>,
}
/// Runs `iters` iterations (fewer when `limit` elapses first).
pub fn run_litmus(tab: &'static [TypeOps], l: &Litmus, iters: u64, limit: Duration, cpus: &[usize]) -> LitRes {
    const SETS: usize = 32;
    let sizes: Vec<usize> = l.tys.iter().map(|&t| tab[t as usize].size as usize).collect();
    let p = number(l);
    let nl = l.tys.len();
    let stride = 1024usize;
    let mem = alloc(SETS * stride * 4);
    // locations of set s
    let loc = move |s: usize, x: usize, same: bool| -> usize {
        let base = mem as usize + s * stride * 2;
        if same { base + x * 16 } else { base + x * 256 }
    };
    let nt = l.threads.len();
    let total: usize = l.threads.iter().map(|t| t.len()).sum();
    let results: Arc<Vec<Flag>> = Arc::new((0..total * 4).map(|_| Flag(AtomicU64::new(0))).collect());
    let epoch: Arc<Flag> = Arc::new(Flag(AtomicU64::new(0)));
    let done: Arc<Vec<Flag>> = Arc::new((0..nt).map(|_| Flag(AtomicU64::new(0))).collect());
    let stop = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for t in 0..nt {
        let mut per: Vec<Vec<Bound>> = vec![];
        for s in 0..SETS {
            per.push(
                l.threads[t]
                    .iter()
                    .enumerate()
                    .map(|(i, op)| {
                        let id = p.ids[t][i];
                        let x = op.x() as usize;
                        let ty = &tab[l.tys[x] as usize];
                        let size = sizes[x];
                        let (f, kind, o, exp, some) = match op {
                            LOp::Load { fl, o, .. } => (ty.fl[*fl as usize].load as usize, 0, *o as u32, 0, false),
                            LOp::Store { fl, o, .. } => (ty.fl[*fl as usize].store as usize, 1, *o as u32, 0, false),
                            LOp::Swap { fl, o, .. } => (ty.fl[*fl as usize].swap as usize, 2, *o as u32, 0, false),
                            LOp::Cas { fl, weak, s, f, exp, .. } => (
                                if *weak { ty.fl[*fl as usize].casw as usize } else { ty.fl[*fl as usize].cas as usize },
                                3, *s as u32 | (*f as u32) << 8, *exp, false,
                            ),
                            LOp::Fu { fl, s, f, some, .. } => (ty.fl[(*fl & 1) as usize].fu as usize, 4, *s as u32 | (*f as u32) << 8, 0, *some),
                        };
                        Bound { f, kind, addr: loc(s, x, l.same_line), o, val: wval(id, size).to_le_bytes(), exp: exp_val(exp, size).to_le_bytes(), size, some }
                    })
                    .collect(),
            );
        }
        let (epoch, done, stop, results) = (epoch.clone(), done.clone(), stop.clone(), results.clone());
        let first_id = p.ids[t].first().copied().unwrap_or(0);
        let delay = l.delay.get(t).copied().unwrap_or(0) as u64;
        let cpus = cpus.to_vec();
        hs.push(std::thread::spawn(move || {
            pin(&cpus, t);
            let mut fus: Vec<FuC> = per[0].iter().map(|b| FuC { val: b.val, size: b.size, some: b.some }).collect();
            let mut outs = vec![[0u8; 16]; per[0].len()];
            let mut oks = vec![0u32; per[0].len()];
            let mut e = 0u64;
            loop {
                e += 1;
                if !spin_until(&epoch.0, e, &stop) || stop.load(Relaxed) {
                    return;
                }
                if delay > 0 {
                    for _ in 0..(e.wrapping_mul(0x9e3779b97f4a7c15) >> 40) % (delay + 1) {
                        std::hint::spin_loop();
                    }
                }
                let prog = &per[(e % SETS as u64) as usize];
                for (i, b) in prog.iter().enumerate() {
                    unsafe {
                        let p = b.addr as *mut u8;
                        let out = outs[i].as_mut_ptr();
                        oks[i] = match b.kind {
                            0 => std::mem::transmute::<usize, unsafe extern "C" fn(*const u8, u32, *mut u8) -> u32>(b.f)(p, b.o, out),
                            1 => std::mem::transmute::<usize, unsafe extern "C" fn(*mut u8, u32, *const u8) -> u32>(b.f)(p, b.o, b.val.as_ptr()),
                            2 => std::mem::transmute::<usize, unsafe extern "C" fn(*mut u8, u32, *const u8, *mut u8) -> u32>(b.f)(p, b.o, b.val.as_ptr(), out),
                            3 => std::mem::transmute::<usize, unsafe extern "C" fn(*mut u8, u32, *const u8, *const u8, *mut u8) -> u32>(b.f)(p, b.o, b.exp.as_ptr(), b.val.as_ptr(), out),
                            _ => std::mem::transmute::<usize, unsafe extern "C" fn(*mut u8, u32, Cb, *mut std::ffi::c_void, *mut u8) -> u32>(b.f)(p, b.o, fu_cb, (&raw mut fus[i]).cast(), out),
                        };
                    }
                }
                for (i, b) in prog.iter().enumerate() {
                    let v = if b.kind == 1 { 0 } else { get(outs[i].as_ptr(), b.size) };
                    let ok = if b.kind >= 3 { oks[i] == 1 } else { true };
                    let r = &results[(first_id + i) * 4..];
                    r[0].0.store(v as u64, Relaxed);
                    r[1].0.store((v >> 64) as u64, Relaxed);
                    r[2].0.store(ok as u64, Relaxed);
                }
                done[t].0.store(e, Release);
            }
        }));
    }
    let mut res = LitRes { iters: 0, outcomes: HashMap::new() };
    let t0 = Instant::now();
    pin(cpus, nt);
    let mut e = 0u64;
    let mut hung = false;
    'outer: while res.iters < iters {
        e += 1;
        let mut slow: Option<Instant> = None;
        let s = (e % SETS as u64) as usize;
        for x in 0..nl {
            put(loc(s, x, l.same_line) as *mut u8, sizes[x], 0);
        }
        epoch.0.store(e, Release);
        for d in done.iter() {
            let mut n = 0u32;
            while d.0.load(Acquire) != e {
                std::hint::spin_loop();
                n += 1;
                if n > 20_000 {
                    n = 0;
                    std::thread::yield_now();
                    // (a busy machine may take milliseconds for each round)
                    if slow.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(60) {
                        // an operation does not return: not this engine's verdict
                        hung = true;
                        break 'outer;
                    }
                }
            }
        }
        let mut o: Outc = (0..total)
            .map(|i| {
                let r = &results[i * 4..];
                (r[0].0.load(Relaxed) as u128 | (r[1].0.load(Relaxed) as u128) << 64, r[2].0.load(Relaxed) == 1)
            })
            .collect();
        for x in 0..nl {
            o.push((get(loc(s, x, l.same_line) as *const u8, sizes[x]), true));
        }
        *res.outcomes.entry(o).or_insert(0) += 1;
        res.iters += 1;
        if (res.iters % 4096 == 0 || slow.is_some()) && t0.elapsed() > limit {
            break;
        }
    }
    stop.store(true, Relaxed);
    epoch.0.store(u64::MAX, Release);
    if !hung {
        for h in hs {
            let _ = h.join();
        }
        unsafe { libc::munmap(mem.cast(), SETS * stride * 4) };
    } else {
        eprintln!("litmus run hung");
        std::process::exit(4);
    }
    res
}
pub fn show(l: &Litmus, tab: &[TypeOps]) -> String {
    let p = number(l);
    let mut s = String::new();
    for (t, ops) in l.threads.iter().enumerate() {
        s += &format!("T{t}: ");
        for (i, op) in ops.iter().enumerate() {
            let x = op.x() as usize;
            let size = tab[l.tys[x] as usize].size as usize;
            s += &format!("#{} {}:{} {op:?} writes {:#x}; ", p.ids[t][i], ["X", "Y", "Z"][x], tab[l.tys[x] as usize].name(), if op.writes() { wval(p.ids[t][i], size) } else { 0 });
        }
    }
    s
}
/// C08: every observed outcome is sequentially consistent.
pub fn check_sc(tab: &'static [TypeOps], l: &Litmus, iters: u64, limit: Duration, cpus: &[usize]) -> Result<(u64, usize, usize), String> {
    let sizes: Vec<usize> = l.tys.iter().map(|&t| tab[t as usize].size as usize).collect();
    let allowed = sc_outcomes(l, &sizes);
    let r = run_litmus(tab, l, iters, limit, cpus);
    for (o, n) in &r.outcomes {
        if !allowed.contains(o) {
            return Err(format!("outcome {o:x?} ({n} of {} runs) is not explained by any interleaving of {}", r.iters, show(l, tab)));
        }
    }
    Ok((r.iters, r.outcomes.len(), allowed.len()))
}

// ---- contention
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Contend {
    pub ty: u8,
    /// slot inside a 64-byte line; other threads' unrelated cells share the line when `neighbours`
    pub slot: u8,
    pub neighbours: bool,
    /// what each thread does: 0 increments by compare_exchange, 1 by compare_exchange_weak, 2 by fetch_update,
    /// 3 swaps tokens (all threads must then use 3)
    pub kinds: Vec<(u8, u8, u8, u8)>, // kind, flavor, success ordering, failure ordering
    pub iters: u32,
}
struct IncC {
    size: usize,
}
unsafe extern "C" fn inc_cb(c: *mut std::ffi::c_void, p: *const u8, n: *mut u8) -> u32 {
    let size = (*(c as *const IncC)).size;
    let v = get(p, size);
    let b = inc(v, size).to_le_bytes();
    std::ptr::copy_nonoverlapping(b.as_ptr(), n, size);
    1
}
/// Injective step whose result changes every half of the value.
fn inc(v: V, size: usize) -> V {
    match size {
        1 => v.wrapping_add(1) & 0xff,
        _ => {
            // both halves count
            let hb = size as u32 * 4;
            let hm = (1u128 << hb) - 1;
            let lo = (v & hm).wrapping_add(1) & hm;
            let hi = ((v >> hb) & hm).wrapping_add(1) & hm;
            lo | hi << hb
        }
    }
}
fn count(v: V, size: usize) -> (u64, bool) {
    match size {
        1 => (v as u64, true),
        _ => {
            let hb = size as u32 * 4;
            let hm = (1u128 << hb) - 1;
            (((v & hm) as u64), (v & hm) == (v >> hb) & hm)
        }
    }
}
pub fn check_contend(tab: &'static [TypeOps], c: &Contend, cpus: &[usize]) -> Result<u64, String> {
    let t = &tab[c.ty as usize];
    let size = t.size as usize;
    let m = alloc(4096);
    let off = 64 + (c.slot as usize * size) % 64;
    let addr = m as usize + off;
    let go = Arc::new(AtomicU64::new(0));
    let n = c.kinds.len() as u64;
    let swaps = c.kinds.iter().all(|k| k.0 == 3);
    let mut hs = vec![];
    for (ti, &(kind, fl, s, f)) in c.kinds.iter().enumerate() {
        let go = go.clone();
        let cpus = cpus.to_vec();
        let iters = c.iters as u64;
        let o = s as u32 | (f as u32) << 8;
        let fo = t.fl[fl as usize];
        hs.push(std::thread::spawn(move || -> Result<(HashMap<V, i64>, u64), String> {
            pin(&cpus, ti);
            let p = addr as *mut u8;
            let mut hist: HashMap<V, i64> = HashMap::new();
            go.fetch_add(1, SeqCst);
            while go.load(Acquire) < n {
                std::hint::spin_loop();
            }
            let mut fails = 0u64;
            let mut cc = IncC { size };
            for i in 0..iters {
                let mut out = [0u8; 16];
                unsafe {
                    match kind {
                        3 => {
                            let tok = ((i * n + ti as u64 + 1) as u128 | ((i * n + ti as u64 + 1) as u128) << 64) & mask(size);
                            let b = tok.to_le_bytes();
                            (fo.swap)(p, s as u32, b.as_ptr(), out.as_mut_ptr());
                            *hist.entry(tok).or_insert(0) += 1;
                            *hist.entry(get(out.as_ptr(), size)).or_insert(0) -= 1;
                        }
                        2 => {
                            (fo.fu)(p, o, inc_cb, (&raw mut cc).cast(), out.as_mut_ptr());
                        }
                        _ => {
                            (fo.load)(p, 0, out.as_mut_ptr());
                            loop {
                                let v = get(out.as_ptr(), size);
                                let (e, nv) = (v.to_le_bytes(), inc(v, size).to_le_bytes());
                                let g = if kind == 1 { fo.casw } else { fo.cas };
                                if g(p, o, e.as_ptr(), nv.as_ptr(), out.as_mut_ptr()) == 1 {
                                    break;
                                }
                                fails += 1;
                                if fails > iters * 100_000 {
                                    return Err("compare-exchange keeps failing".into());
                                }
                            }
                        }
                    }
                }
            }
            Ok((hist, fails))
        }));
    }
    let mut tot: HashMap<V, i64> = HashMap::new();
    let mut contention = 0;
    let mut err = None;
    for h in hs {
        match h.join().unwrap() {
            Ok((hi, f)) => {
                contention += f;
                for (k, v) in hi {
                    *tot.entry(k).or_insert(0) += v;
                }
            }
            Err(e) => err = Some(e),
        }
    }
    let fin = get(addr as *const u8, size);
    unsafe { libc::munmap(m.cast(), 4096) };
    if let Some(e) = err {
        return Err(format!("{}: {e}", t.name()));
    }
    if swaps {
        // initial 0 was put once; the final content is still inside
        *tot.entry(0).or_insert(0) += 1;
        *tot.entry(fin).or_insert(0) -= 1;
        if let Some((k, v)) = tot.iter().find(|(_, v)| **v != 0) {
            return Err(format!("{}: {} threads x {} swaps: value {k:#x} was {} {} time(s)", t.name(), c.kinds.len(), c.iters, if *v > 0 { "lost" } else { "returned too often, by" }, v.abs()));
        }
        return Ok(1);
    }
    let want = c.kinds.len() as u64 * c.iters as u64;
    let (got, halves) = count(fin, size);
    let hb = if size == 1 { 8 } else { size as u32 * 4 };
    let want_m = if hb >= 64 { want } else { want & ((1 << hb) - 1) };
    if got != want_m || !halves {
        return Err(format!("{}: {} threads x {} increments leave {fin:#x} (count {got}, expected {want_m})", t.name(), c.kinds.len(), c.iters));
    }
    Ok(contention)
}

/// C05 on real cores: writers alternate whole patterns, readers must only see those.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct TearCase {
    pub ty: u8,
    pub slot: u8,
    /// per thread: 0 store, 1 swap, 2 CAS-chain, 3 load, 4 failing CAS, 5 fetch_update; flavor; ordering
    pub roles: Vec<(u8, u8, u8)>,
    /// number of distinct patterns: few make a value come back while an operation runs
    pub palette: u8,
    pub iters: u32,
}
pub fn check_tear(tab: &'static [TypeOps], c: &TearCase, cpus: &[usize]) -> Result<u64, String> {
    let t = &tab[c.ty as usize];
    let size = t.size as usize;
    let m = alloc(4096);
    let addr = m as usize + 64 + (c.slot as usize * size) % 64;
    let pat = move |k: u8| u128::from_ne_bytes([k.wrapping_mul(0x11); 16]) & mask(size);
    let whole = move |v: V| {
        let b = v & 0xff;
        v == u128::from_ne_bytes([b as u8; 16]) & mask(size) && b % 0x11 == 0
    };
    let n = c.roles.len() as u64;
    let go = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for (ti, &(role, fl, o)) in c.roles.iter().enumerate() {
        let go = go.clone();
        let cpus = cpus.to_vec();
        let iters = c.iters;
        let c_pal = c.palette.max(1) as u64;
        let fo = t.fl[fl as usize];
        let has_cas = t.has_cas();
        hs.push(std::thread::spawn(move || -> Result<u64, String> {
            pin(&cpus, ti);
            let p = addr as *mut u8;
            go.fetch_add(1, SeqCst);
            while go.load(Acquire) < n {
                std::hint::spin_loop();
            }
            let mut changes = 0;
            let mut last = 0;
            for i in 0..iters {
                let mut out = [0u8; 16];
                let v = pat(((i as u64 * (2 * ti as u64 + 1) + ti as u64) % c_pal + 1) as u8).to_le_bytes();
                let lo = [0u32, 2, 4][o as usize % 3];
                let so = [0u32, 1, 4][o as usize % 3];
                unsafe {
                    match role {
                        0 => {
                            (fo.store)(p, so, v.as_ptr());
                            continue;
                        }
                        1 => { (fo.swap)(p, o as u32, v.as_ptr(), out.as_mut_ptr()); }
                        2 if has_cas => {
                            (fo.load)(p, 0, out.as_mut_ptr());
                            let e = out;
                            (fo.casw)(p, o as u32 | lo << 8, e.as_ptr(), v.as_ptr(), out.as_mut_ptr());
                        }
                        4 if has_cas => {
                            let e = [0x37u8; 16];
                            if (fo.cas)(p, o as u32 | lo << 8, e.as_ptr(), v.as_ptr(), out.as_mut_ptr()) == 1 {
                                return Err("compare_exchange matched a value that was never stored".into());
                            }
                        }
                        5 if has_cas => {
                            let mut f = FuC { val: v, size, some: i % 3 != 0 };
                            (fo.fu)(p, o as u32 | lo << 8, fu_cb, (&raw mut f).cast(), out.as_mut_ptr());
                        }
                        _ => { (fo.load)(p, lo, out.as_mut_ptr()); }
                    }
                }
                let r = get(out.as_ptr(), size);
                if !whole(r) {
                    return Err(format!("obtained {r:#x}, which was never stored as a whole"));
                }
                if r != last {
                    changes += 1;
                    last = r;
                }
            }
            Ok(changes)
        }));
    }
    let mut ch = 0;
    let mut err = None;
    for h in hs {
        match h.join().unwrap() {
            Ok(x) => ch += x,
            Err(e) => err = Some(e),
        }
    }
    let fin = get(addr as *const u8, size);
    unsafe { libc::munmap(m.cast(), 4096) };
    if let Some(e) = err {
        return Err(format!("{}: {e}", t.name()));
    }
    if !whole(fin) {
        return Err(format!("{}: final content {fin:#x} was never stored as a whole", t.name()));
    }
    Ok(ch)
}

// ---- strategies
fn lop(nloc: u8, x: Option<u8>, kinds: &'static [u8], sc: bool) -> BoxedStrategy<LOp> {
    let loc = match x {
        Some(x) => Just(x).boxed(),
        None => (0..nloc).boxed(),
    };
    (loc, prop::sample::select(kinds), 0u8..4, hist::o_any(), hist::o_load(), hist::o_store(), any::<bool>(), 0u8..7)
        .prop_map(move |(x, k, fl, o, ol, os, weak, exp)| {
            let (o, ol, os) = if sc { (4, 4, 4) } else { (o, ol, os) };
            match k {
                0 => LOp::Load { x, fl, o: ol },
                1 => LOp::Store { x, fl, o: os },
                2 => LOp::Swap { x, fl, o },
                3 => LOp::Cas { x, fl, weak, s: o, f: ol, exp },
                4 => LOp::Cas { x, fl, weak: false, s: o, f: ol, exp: 0 },
                5 => LOp::Fu { x, fl, s: o, f: ol, some: true },
                _ => LOp::Fu { x, fl, s: o, f: ol, some: false },
            }
        })
        .boxed()
}
const W_CAS: &[u8] = &[1, 1, 1, 1, 1, 2, 4, 5];
const R_CAS: &[u8] = &[0, 0, 0, 0, 0, 3, 6];
const W_NO: &[u8] = &[1, 1, 1, 2];
const R_NO: &[u8] = &[0];
const A_CAS: &[u8] = &[0, 0, 1, 1, 2, 3, 4, 5, 6];
const A_NO: &[u8] = &[0, 1, 2];
/// Store-buffering, R, 2+2W and random programs; every operation SeqCst.
pub fn litmus_sc(tab: &[TypeOps]) -> BoxedStrategy<Litmus> {
    let cas = hist::any_cas(tab);
    let (w, r, a) = if cas { (W_CAS, R_CAS, A_CAS) } else { (W_NO, R_NO, A_NO) };
    let tys: Vec<(u32, BoxedStrategy<u8>)> = (0..tab.len() as u8)
        .filter(|&i| tab[i as usize].has_ls())
        .map(|i| (if tab[i as usize].size as usize > std::mem::size_of::<usize>() { 2 } else { 1 }, Just(i).boxed()))
        .collect();
    let ty = proptest::strategy::Union::new_weighted(tys);
    let sb = (lop(2, Some(0), w, true), lop(2, Some(1), r, true), lop(2, Some(1), w, true), lop(2, Some(0), r, true))
        .prop_map(|(a, b, c, d)| vec![vec![a, b], vec![c, d]]);
    let rr = (lop(2, Some(0), w, true), lop(2, Some(1), w, true), lop(2, Some(1), w, true), lop(2, Some(0), r, true))
        .prop_map(|(a, b, c, d)| vec![vec![a, b], vec![c, d]]);
    let sb3 = (lop(3, Some(0), w, true), lop(3, Some(1), r, true), lop(3, Some(1), w, true), lop(3, Some(2), r, true), lop(3, Some(2), w, true), lop(3, Some(0), r, true))
        .prop_map(|(a, b, c, d, e, f)| vec![vec![a, b], vec![c, d], vec![e, f]]);
    let iriw = (lop(2, Some(0), w, true), lop(2, Some(1), w, true), lop(2, Some(0), r, true), lop(2, Some(1), r, true), lop(2, Some(1), r, true), lop(2, Some(0), r, true))
        .prop_map(|(a, b, c, d, e, f)| vec![vec![a], vec![b], vec![c, d], vec![e, f]]);
    let rnd = prop::collection::vec(prop::collection::vec(lop(2, None, a, true), 1..4), 2..4);
    let shapes = prop_oneof![6 => sb, 1 => rr, 1 => sb3, 1 => iriw, 2 => rnd];
    (shapes, prop::collection::vec(ty, 3..=3), prop::collection::vec(prop_oneof![Just(0u8), 0u8..20, 0u8..80], 4..=4), prop::bool::weighted(0.15))
        .prop_map(|(threads, tys, delay, same_line)| Litmus { tys, threads, delay, same_line })
        .boxed()
}
/// The canonical store-buffering programs, one per type (run on every seed).
pub fn litmus_fixed(tab: &[TypeOps]) -> Vec<Litmus> {
    let mut v = vec![];
    for i in 0..tab.len() as u8 {
        if !tab[i as usize].has_ls() {
            continue;
        }
        for fl in [0u8, 3] {
            for k in 0..3 {
                if k == 2 && !tab[i as usize].has_cas() {
                    continue;
                }
                let w = |x: u8| match k {
                    0 => LOp::Store { x, fl, o: 4 },
                    1 => LOp::Swap { x, fl, o: 4 },
                    _ => LOp::Cas { x, fl, weak: false, s: 4, f: 4, exp: 0 },
                };
                if k > 0 && fl == 3 {
                    continue;
                }
                v.push(Litmus {
                    tys: vec![i, i, i],
                    threads: vec![vec![w(0), LOp::Load { x: 1, fl, o: 4 }], vec![w(1), LOp::Load { x: 0, fl, o: 4 }]],
                    delay: vec![0, 0],
                    same_line: false,
                });
            }
        }
    }
    v
}
/// C07: message passing with relaxed data and a release/acquire flag.
pub fn litmus_mp(tab: &[TypeOps]) -> BoxedStrategy<Litmus> {
    let cas = hist::any_cas(tab);
    let tys: Vec<u8> = (0..tab.len() as u8).filter(|&i| tab[i as usize].has_ls()).collect();
    let rel = prop::sample::select(vec![1u8, 4]);
    let relx = prop::sample::select(vec![1u8, 3, 4]);
    let acq = prop::sample::select(vec![2u8, 4]);
    let acqx = prop::sample::select(vec![2u8, 3, 4]);
    let w = (rel, relx, 0u8..4, 0u8..if cas { 4 } else { 2 }, hist::o_load()).prop_map(|(o, ox, fl, k, f)| match k {
        0 => LOp::Store { x: 1, fl, o },
        1 => LOp::Swap { x: 1, fl, o: ox },
        2 => LOp::Cas { x: 1, fl, weak: false, s: ox, f, exp: 0 },
        _ => LOp::Fu { x: 1, fl, s: ox, f, some: true },
    });
    let r = (acq, acqx, 0u8..4, 0u8..if cas { 4 } else { 2 }).prop_map(|(o, ox, fl, k)| match k {
        0 => LOp::Load { x: 1, fl, o },
        1 => LOp::Swap { x: 1, fl, o: ox },
        2 => LOp::Cas { x: 1, fl, weak: false, s: 0, f: o, exp: 0x7f },
        _ => LOp::Fu { x: 1, fl, s: 0, f: o, some: false },
    });
    let d = (0u8..4).prop_map(|fl| LOp::Store { x: 0, fl, o: 0 });
    let e = (0u8..4).prop_map(|fl| LOp::Load { x: 0, fl, o: 0 });
    (d, w, r, e, prop::collection::vec(prop::sample::select(tys), 3..=3), prop::collection::vec(0u8..60, 4..=4))
        .prop_map(|(d, w, r, e, tys, delay)| Litmus { tys, threads: vec![vec![d, w], vec![r, e]], delay, same_line: false })
        .boxed()
}
/// The only forbidden outcome: flag seen, data not.
pub fn check_mp(tab: &'static [TypeOps], l: &Litmus, iters: u64, limit: Duration, cpus: &[usize]) -> Result<(u64, usize), String> {
    let sizes: Vec<usize> = l.tys.iter().map(|&t| tab[t as usize].size as usize).collect();
    let r = run_litmus(tab, l, iters, limit, cpus);
    let flag = wval(1, sizes[1]);
    for (o, n) in &r.outcomes {
        if o[2].0 == flag && o[3].0 != wval(0, sizes[0]) {
            return Err(format!("flag {:#x} was seen but data {:#x} read ({n} of {} runs): {}", o[2].0, o[3].0, r.iters, show(l, tab)));
        }
    }
    Ok((r.iters, r.outcomes.len()))
}
pub fn contend(tab: &[TypeOps], iters: u32) -> BoxedStrategy<Contend> {
    let cas = hist::any_cas(tab);
    let k = (0u8..if cas { 3 } else { 0 }.max(1), 0u8..4, hist::o_any(), hist::o_load());
    let inc = (hist::types(tab, cas), prop::collection::vec(k, 2..5)).prop_map(|(ty, k)| (ty, k));
    let sw = (hist::types(tab, false), prop::collection::vec((Just(3u8), 0u8..4, hist::o_any(), hist::o_load()), 2..5));
    let base = if cas { prop_oneof![3 => inc, 1 => sw].boxed() } else { sw.boxed() };
    (base, 0u8..64)
        .prop_map(move |((ty, kinds), slot)| {
            // fetch_update only through methods
            let kinds = kinds.into_iter().map(|(k, fl, s, f)| if k == 2 { (k, fl & 1, s, f) } else { (k, fl, s, f) }).collect();
            Contend { ty, slot, neighbours: false, kinds, iters }
        })
        .boxed()
}
pub fn tear(tab: &[TypeOps], iters: u32) -> BoxedStrategy<TearCase> {
    let tys: Vec<(u32, BoxedStrategy<u8>)> = (0..tab.len() as u8)
        .filter(|&i| tab[i as usize].has_ls())
        .map(|i| (if tab[i as usize].size as usize >= std::mem::size_of::<usize>() { 3 } else { 1 }, Just(i).boxed()))
        .collect();
    let w = (0u8..3, 0u8..4, 0u8..5);
    let r = (1u8..6, 0u8..4, 0u8..5);
    (proptest::strategy::Union::new_weighted(tys), 0u8..64, prop::collection::vec(w, 1..4), prop::collection::vec(r, 1..3), prop::sample::select(vec![2u8, 2, 3, 4, 15]))
        .prop_map(move |(ty, slot, mut a, b, palette)| {
            a.extend(b);
            let roles = a.into_iter().map(|(r, fl, o)| if r == 5 { (r, fl & 1, o) } else { (r, fl, o) }).collect();
            TearCase { ty, slot, roles, palette, iters }
        })
        .boxed()
}
