//! Concurrent histories under an instruction-level scheduler (C03 C05 C06 C10 C13 C15).
use crate::engine::*;
use crate::ffi::*;
use crate::hist::{self, get, lit, mask, place_at, put, V};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::ffi::c_void;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum SOp {
    Load { fl: u8, o: u8 },
    Store { fl: u8, o: u8, v: u8 },
    Swap { fl: u8, o: u8, v: u8 },
    Cas { fl: u8, weak: bool, s: u8, f: u8, exp: u8, new: u8 },
    /// kind 0: x+pool[k]  1: x^pool[k]  2: pool[k] (constant)  3: None if x==pool[k] else x+1
    Fu { fl: u8, s: u8, f: u8, kind: u8, k: u8 },
    /// plain write of one neighbouring byte: distance (before/after the cell) and value
    Poke { after: bool, d: u8, v: u8 },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pub ty: u8,
    pub place: u8,
    pub bg: u64,
    #[serde(with = "hexvec")]
    pub pool: Vec<V>,
    pub init: u8,
    pub threads: Vec<Vec<SOp>>,
    pub sched: Vec<(u8, u32)>,
    pub garbage: u64,
}
mod hexvec {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &[u128], s: S) -> Result<S::Ok, S::Error> {
        v.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u128>, D::Error> {
        Vec::<String>::deserialize(d)?
            .iter()
            .map(|s| u128::from_str_radix(s.trim_start_matches("0x"), 16).map_err(serde::de::Error::custom))
            .collect()
    }
}

#[repr(C)]
struct FuState {
    kind: u32,
    size: u32,
    k: [u8; 16],
    calls: u32,
    next: [[u8; 16]; 32],
    args: [[u8; 16]; 32],
}
#[inline(never)]
unsafe extern "C" fn fu_cb(ctx: *mut c_void, prev: *const u8, next: *mut u8) -> u32 {
    let c = &mut *(ctx as *mut FuState);
    let n = c.size as usize;
    let mut a = [0u8; 16];
    std::ptr::copy_nonoverlapping(prev, a.as_mut_ptr(), n);
    let slot = (c.calls as usize) & 31;
    c.args[slot] = a;
    c.calls += 1;
    let x = u128::from_le_bytes(a);
    let k = u128::from_le_bytes(c.k);
    let r = match fu_fn(c.kind as u8, x, k, n) {
        None => return 0,
        Some(v) => v.to_le_bytes(),
    };
    c.next[slot] = r;
    std::ptr::copy_nonoverlapping(r.as_ptr(), next, n);
    1
}
#[inline(always)]
pub fn fu_fn(kind: u8, x: V, k: V, size: usize) -> Option<V> {
    let m = mask(size);
    match kind {
        0 => Some(x.wrapping_add(k) & m),
        1 => Some((x ^ k) & m),
        2 => Some(k & m),
        _ => if x & m == k & m { None } else { Some(x.wrapping_add(1) & m) },
    }
}
#[inline(never)]
unsafe extern "C" fn poke(p: *mut u8, v: u32) -> u32 {
    p.write_volatile(v as u8);
    0
}

struct Slot {
    val: [u8; 16],
    exp: [u8; 16],
    out: [u8; 16],
    fu: FuState,
}
/// One completed operation of the concurrent history.
#[derive(Clone, Debug)]
pub struct Rec {
    pub inv: u64,
    pub resp: u64,
    pub op: SOp,
    pub thread: usize,
    pub ok: bool,
    pub out: V,
    pub args: Vec<V>,
}
pub struct Ran {
    pub outcome: Outcome,
    pub recs: Vec<Rec>,
    pub log: Vec<Change>,
    pub base: usize,
    pub off: usize,
    pub size: usize,
    pub init: V,
    pub fin: V,
    pub preempt: u64,
    pub switches: u64,
    pub steps: Vec<Vec<u64>>,
    pub fu_nexts: Vec<V>,
    pub t_name: String,
    pub total: u64,
}
impl Case {
    pub fn pv(&self, i: u8, size: usize) -> V {
        self.pool[i as usize % self.pool.len()] & mask(size)
    }
}
pub fn exec(tab: &[TypeOps], c: &Case, check_abi: bool, budget: u64) -> Ran {
    let t = &tab[c.ty as usize];
    let size = t.size as usize;
    let p = place_at(c.place.max(2), size);
    let base = (p as usize & !63) as *mut u8;
    let off = p as usize - base as usize;
    hist::bg_fill(base, 64, c.bg);
    let init = c.pv(c.init, size);
    put(p, size, init);
    let mut e = Engine::new(c.threads.len());
    e.single = true;
    e.sched = c.sched.clone();
    e.budget = budget;
    e.check_abi = check_abi;
    e.garbage = c.garbage;
    e.watch = Some((base, 64));
    let mut slots: Vec<Vec<Box<Slot>>> = vec![];
    for (ti, ops) in c.threads.iter().enumerate() {
        let mut sl = vec![];
        for op in ops {
            let mut s = Box::new(Slot {
                val: [0; 16],
                exp: [0; 16],
                out: [0; 16],
                fu: FuState { kind: 0, size: size as u32, k: [0; 16], calls: 0, next: [[0; 16]; 32], args: [[0; 16]; 32] },
            });
            let out = s.out.as_mut_ptr() as usize;
            let pp = p as usize;
            match op {
                SOp::Load { fl, o } => {
                    e.add(ti, t.fl[*fl as usize].load as usize, [pp, *o as usize, out, 0, 0]);
                }
                SOp::Store { fl, o, v } => {
                    s.val = c.pv(*v, size).to_le_bytes();
                    e.add(ti, t.fl[*fl as usize].store as usize, [pp, *o as usize, s.val.as_ptr() as usize, 0, 0]);
                }
                SOp::Swap { fl, o, v } => {
                    s.val = c.pv(*v, size).to_le_bytes();
                    e.add(ti, t.fl[*fl as usize].swap as usize, [pp, *o as usize, s.val.as_ptr() as usize, out, 0]);
                }
                SOp::Cas { fl, weak, s: so, f, exp, new } => {
                    s.val = c.pv(*new, size).to_le_bytes();
                    s.exp = c.pv(*exp, size).to_le_bytes();
                    let fun = if *weak { t.fl[*fl as usize].casw } else { t.fl[*fl as usize].cas };
                    e.add(ti, fun as usize, [pp, *so as usize | (*f as usize) << 8, s.exp.as_ptr() as usize, s.val.as_ptr() as usize, out]);
                }
                SOp::Fu { fl, s: so, f, kind, k } => {
                    s.fu.kind = *kind as u32;
                    s.fu.k = c.pv(*k, size).to_le_bytes();
                    let ctx = (&raw mut s.fu) as usize;
                    e.add(ti, t.fl[*fl as usize].fu as usize, [pp, *so as usize | (*f as usize) << 8, fu_cb as *const () as usize, ctx, out]);
                }
                SOp::Poke { after, d, v } => {
                    let q = poke_at(off, size, *after, *d);
                    e.add(ti, poke as *const () as usize, [base as usize + q, *v as usize, 0, 0, 0]);
                }
            }
            sl.push(s);
        }
        slots.push(sl);
    }
    let outcome = e.run();
    let mut recs = vec![];
    let mut nexts = vec![];
    let mut steps = vec![];
    for (ti, ops) in c.threads.iter().enumerate() {
        steps.push(e.vts[ti].rec.iter().map(|r| r.steps).collect());
        for (k, op) in ops.iter().enumerate() {
            let r = &e.vts[ti].rec[k];
            let s = &slots[ti][k];
            let mut args = vec![];
            if let SOp::Fu { .. } = op {
                for i in 0..s.fu.calls.min(32) as usize {
                    args.push(get(s.fu.args[i].as_ptr(), size));
                    nexts.push(get(s.fu.next[i].as_ptr(), size));
                }
            }
            recs.push(Rec {
                inv: r.inv,
                resp: if r.done { r.resp } else { u64::MAX },
                op: op.clone(),
                thread: ti,
                ok: r.ret == 1,
                out: get(s.out.as_ptr(), size),
                args,
            });
        }
    }
    Ran {
        outcome,
        recs,
        log: std::mem::take(&mut e.log),
        base: base as usize,
        off,
        size,
        init,
        fin: get(p, size),
        preempt: e.preempt_mid,
        switches: e.switches,
        steps,
        fu_nexts: nexts,
        t_name: t.name().to_string(),
        total: e.total,
    }
}
/// Offset within the line of a poked byte, never inside the cell.
pub fn poke_at(off: usize, size: usize, after: bool, d: u8) -> usize {
    let (b, a) = (off, 64 - off - size);
    if (after && a > 0) || b == 0 {
        if a == 0 { off - 1 } else { off + size + d as usize % a.min(16) }
    } else {
        off - 1 - d as usize % b.min(16)
    }
}
fn img_val(img: &[u8; 64], off: usize, size: usize) -> V {
    get(img[off..].as_ptr(), size)
}

/// Sequential specification: value after the op, if its observed result is explained by value `v`.
fn apply(c: &Case, r: &Rec, v: V, size: usize) -> Option<V> {
    match &r.op {
        SOp::Load { .. } => (r.out == v).then_some(v),
        SOp::Store { v: x, .. } => Some(c.pv(*x, size)),
        SOp::Swap { v: x, .. } => (r.out == v).then(|| c.pv(*x, size)),
        SOp::Cas { weak, exp, new, .. } => {
            if r.out != v {
                return None;
            }
            let e = c.pv(*exp, size);
            if r.ok { (e == v).then(|| c.pv(*new, size)) } else { (e != v || *weak).then_some(v) }
        }
        SOp::Fu { kind, k, .. } => {
            if r.out != v {
                return None;
            }
            match fu_fn(*kind, v, c.pv(*k, size), size) {
                Some(n) => r.ok.then_some(n),
                None => (!r.ok).then_some(v),
            }
        }
        SOp::Poke { .. } => Some(v),
    }
}
pub fn linearizable(c: &Case, recs: &[Rec], init: V, fin: Option<V>, size: usize) -> bool {
    let recs: Vec<&Rec> = recs.iter().filter(|r| !matches!(r.op, SOp::Poke { .. })).collect();
    let n = recs.len();
    let mut seen: HashSet<(u32, V)> = HashSet::new();
    let mut stack = vec![(0u32, init)];
    while let Some((m, v)) = stack.pop() {
        if !seen.insert((m, v)) {
            continue;
        }
        if m == (1u32 << n) - 1 {
            if fin.is_none() || fin == Some(v) {
                return true;
            }
            continue;
        }
        let min_resp = (0..n).filter(|i| m >> i & 1 == 0).map(|i| recs[i].resp).min().unwrap();
        for i in 0..n {
            if m >> i & 1 == 0 && recs[i].inv < min_resp {
                if let Some(nv) = apply(c, recs[i], v, size) {
                    stack.push((m | 1 << i, nv));
                }
            }
        }
    }
    false
}
pub fn show(c: &Case, r: &Ran) -> String {
    let mut s = format!("{} initially {:#x}:", r.t_name, r.init);
    for x in &r.recs {
        let d = match &x.op {
            SOp::Load { o, .. } => format!("load({}) -> {:#x}", hist::ONAMES[*o as usize], x.out),
            SOp::Store { v, o, .. } => format!("store({:#x}, {})", c.pv(*v, r.size), hist::ONAMES[*o as usize]),
            SOp::Swap { v, .. } => format!("swap({:#x}) -> {:#x}", c.pv(*v, r.size), x.out),
            SOp::Cas { weak, exp, new, .. } => format!(
                "compare_exchange{}({:#x}, {:#x}) -> {}({:#x})",
                if *weak { "_weak" } else { "" }, c.pv(*exp, r.size), c.pv(*new, r.size), if x.ok { "Ok" } else { "Err" }, x.out
            ),
            SOp::Fu { kind, k, .. } => format!("fetch_update(kind {kind}, {:#x}) -> {}({:#x}) closure args {:x?}", c.pv(*k, r.size), if x.ok { "Ok" } else { "Err" }, x.out, x.args),
            SOp::Poke { .. } => "poke".into(),
        };
        s += &format!(" T{}[{}..{}] {d};", x.thread, x.inv, if x.resp == u64::MAX { "never".into() } else { x.resp.to_string() });
    }
    s + &format!(" final {:#x}", r.fin)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Oracle {
    Outside,
    Tear,
    Lin,
    Fu,
    Abi,
    Progress,
}
pub fn check(tab: &[TypeOps], c: &Case, o: Oracle) -> Result<Ran, String> {
    let r = exec(tab, c, o == Oracle::Abi, 400_000);
    match &r.outcome {
        Outcome::Done => {}
        x => return Err(format!("{} [{}]", hist::describe(x.clone()), show(c, &r))),
    }
    let (off, size) = (r.off, r.size);
    match o {
        Oracle::Outside => {
            let mut want = [0u8; 64];
            // replay: background plus pokes in the order in which they hit memory
            let mut cur: Option<[u8; 64]> = None;
            for ch in &r.log {
                if let Some(w) = cur {
                    want = w;
                } else {
                    want.copy_from_slice(&ch.before);
                }
                let op = &c.threads[ch.thread as usize][ch.call as usize];
                let allowed = match op {
                    SOp::Poke { after, d, .. } => {
                        let q = poke_at(off, size, *after, *d);
                        q..q + 1
                    }
                    _ => off..off + size,
                };
                for j in 0..64 {
                    if !allowed.contains(&j) && ch.img[j] != want[j] {
                        return Err(format!(
                            "{:?} changed the byte at offset {} from the cell ({:#x} -> {:#x}) at step {}: {}",
                            op, j as isize - off as isize, want[j], ch.img[j], ch.step, show(c, &r)
                        ));
                    }
                }
                cur = Some(ch.img);
            }
            // a neighbour's last written byte is still there
            let mut last: std::collections::HashMap<usize, (u64, u8)> = Default::default();
            for x in &r.recs {
                if let SOp::Poke { after, d, v } = &x.op {
                    let q = poke_at(off, size, *after, *d);
                    let e = last.entry(q).or_insert((0, 0));
                    if x.resp >= e.0 {
                        *e = (x.resp, *v);
                    }
                }
            }
            let pokers = c.threads.iter().filter(|t| t.iter().any(|o| matches!(o, SOp::Poke { .. }))).count();
            if pokers == 1 {
                for (q, (_, v)) in last {
                    let now = unsafe { *((r.base + q) as *const u8) };
                    if now != v {
                        return Err(format!("neighbour's write of {v:#x} at offset {} was lost (now {now:#x}): {}", q as isize - off as isize, show(c, &r)));
                    }
                }
            }
        }
        Oracle::Tear => {
            let mut ok: HashSet<V> = c.pool.iter().map(|v| v & mask(size)).collect();
            ok.extend(r.fu_nexts.iter().copied());
            for ch in &r.log {
                let v = img_val(&ch.img, off, size);
                if !ok.contains(&v) {
                    return Err(format!("after step {} (thread {}) another thread would see {v:#x}, which was never stored: {}", ch.step, ch.thread, show(c, &r)));
                }
            }
            for x in &r.recs {
                if matches!(x.op, SOp::Store { .. } | SOp::Poke { .. }) {
                    continue;
                }
                if !ok.contains(&x.out) {
                    return Err(format!("thread {} obtained {:#x}, which was never stored: {}", x.thread, x.out, show(c, &r)));
                }
            }
        }
        Oracle::Lin => {
            if !linearizable(c, &r.recs, r.init, Some(r.fin), size) {
                return Err(format!("not linearizable: {}", show(c, &r)));
            }
        }
        Oracle::Fu => {
            // value history of the cell
            let mut hist_v: Vec<(u64, V, u8, u8)> = vec![(0, r.init, 255, 0)];
            for ch in &r.log {
                let v = img_val(&ch.img, off, size);
                if v != hist_v.last().unwrap().1 {
                    hist_v.push((ch.step, v, ch.thread, ch.call));
                }
            }
            for x in &r.recs {
                if let SOp::Fu { kind, k, .. } = &x.op {
                    if x.args.is_empty() {
                        return Err(format!("closure never called: {}", show(c, &r)));
                    }
                    if x.args.len() < 32 && *x.args.last().unwrap() != x.out {
                        return Err(format!("result is not the last closure argument: {}", show(c, &r)));
                    }
                    let expect = fu_fn(*kind, x.out, c.pv(*k, size), size);
                    if expect.is_some() != x.ok {
                        return Err(format!("Ok/Err does not match the closure: {}", show(c, &r)));
                    }
                    for a in &x.args {
                        let held = hist_v.iter().enumerate().any(|(i, (s, v, _, _))| {
                            let end = hist_v.get(i + 1).map(|h| h.0).unwrap_or(u64::MAX);
                            v == a && *s <= x.resp && end >= x.inv
                        });
                        if !held {
                            return Err(format!("closure was given {a:#x}, which the cell did not hold during the call: {}", show(c, &r)));
                        }
                    }
                }
            }
            if !linearizable(c, &r.recs, r.init, Some(r.fin), size) {
                return Err(format!("not one atomic step: {}", show(c, &r)));
            }
        }
        Oracle::Abi | Oracle::Progress => {}
    }
    Ok(r)
}

/// C15: thread 0 is stopped after `k` instructions of its first operation; the others must complete.
pub fn check_freeze(tab: &[TypeOps], c: &Case, k: u32, bound: u64) -> Result<Ran, String> {
    let mut c2 = c.clone();
    // solo reference
    let mut solo = c.clone();
    solo.threads.remove(0);
    solo.sched = vec![];
    let s = exec(tab, &solo, false, 400_000);
    if s.outcome != Outcome::Done {
        return Err(format!("alone: {} [{}]", hist::describe(s.outcome.clone()), show(&solo, &s)));
    }
    let n = c.threads.len() as u8;
    c2.sched = vec![(0, k)];
    for t in 1..n {
        c2.sched.push((t, u32::MAX));
    }
    let r = exec(tab, &c2, false, k as u64 + s.total + bound);
    if let Outcome::Budget { thread, call, steps } = r.outcome {
        if thread != 0 {
            return Err(format!(
                "with thread 0 stopped after {k} of its instructions, thread {thread} call {call} does not complete ({steps} instructions so far; {} for all calls without the stopped thread): {}",
                s.total, show(&c2, &r)
            ));
        }
    }
    // then the stopped thread completes too
    let r = exec(tab, &c2, false, 400_000);
    match &r.outcome {
        Outcome::Done => Ok(r),
        x => Err(format!("{} [{}]", hist::describe(x.clone()), show(&c2, &r))),
    }
}

// ---- strategies
#[derive(Clone, Copy)]
pub struct Mix {
    pub load: u32,
    pub store: u32,
    pub swap: u32,
    pub cas: u32,
    pub fu: u32,
}
fn sop(m: Mix) -> BoxedStrategy<SOp> {
    let fl = || 0u8..4;
    let fm = || 0u8..2;
    let ix = || 0u8..6;
    let mut v: Vec<(u32, BoxedStrategy<SOp>)> = vec![];
    if m.load > 0 { v.push((m.load, (fl(), hist::o_load()).prop_map(|(fl, o)| SOp::Load { fl, o }).boxed())); }
    if m.store > 0 { v.push((m.store, (fl(), hist::o_store(), ix()).prop_map(|(fl, o, v)| SOp::Store { fl, o, v }).boxed())); }
    if m.swap > 0 { v.push((m.swap, (fl(), hist::o_any(), ix()).prop_map(|(fl, o, v)| SOp::Swap { fl, o, v }).boxed())); }
    if m.cas > 0 {
        v.push((m.cas, (fl(), any::<bool>(), hist::o_any(), hist::o_load(), ix(), ix())
            .prop_map(|(fl, weak, s, f, exp, new)| SOp::Cas { fl, weak, s, f, exp, new }).boxed()));
    }
    if m.fu > 0 {
        v.push((m.fu, (fm(), hist::o_any(), hist::o_load(), 0u8..4, ix())
            .prop_map(|(fl, s, f, kind, k)| SOp::Fu { fl, s, f, kind, k }).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
fn pool() -> BoxedStrategy<Vec<V>> {
    // a base value and near relatives: differing in one bit, one half, everything
    (lit(), lit(), any::<u8>(), 2usize..7)
        .prop_map(|(a, b, bit, n)| {
            let h = |s: u32| ((1u128 << s) - 1) * { let mut r = 0u128; let mut i = 0; while i < 128 { r |= 1 << i; i += 2 * s; } r };
            let mut v = vec![a, b, a ^ (1 << (bit % 128)), (a & h(32)) | (b & !h(32)), (a & h(4)) | (b & !h(4)), !a];
            v.truncate(n);
            v
        })
        .boxed()
}
pub fn sched(threads: usize) -> BoxedStrategy<Vec<(u8, u32)>> {
    let n = threads as u8;
    prop_oneof![
        // dense: switches every few instructions
        3 => prop::collection::vec((0u8..n, 1u32..8), 0..40),
        // sparse: a few preemptions anywhere within an operation
        4 => prop::collection::vec((0u8..n, prop_oneof![1u32..12, 1u32..60]), 0..10),
        // wide: reaches unoptimised code
        2 => prop::collection::vec((0u8..n, prop_oneof![1u32..30, 1u32..300]), 0..10),
        1 => prop::collection::vec((0u8..n, Just(1u32)), 0..200),
    ]
    .boxed()
}
pub fn case(tab: &[TypeOps], m: Mix, nthreads: std::ops::RangeInclusive<usize>, per: usize, total: usize) -> BoxedStrategy<Case> {
    let need_cas = m.load + m.store + m.swap == 0;
    let m = if hist::any_cas(tab) { m } else { Mix { cas: 0, fu: 0, ..m } };
    // types without compare-exchange in a table that has it for others do not occur in this crate on x86
    // wide types are where the delicate code is: weight them
    let tys: Vec<(u32, BoxedStrategy<u8>)> = (0..tab.len() as u8)
        .filter(|&i| tab[i as usize].has_ls() && (!need_cas || tab[i as usize].has_cas()))
        .map(|i| (if tab[i as usize].size as usize > std::mem::size_of::<usize>() { 5 } else { 1 }, Just(i).boxed()))
        .collect();
    let ty = proptest::strategy::Union::new_weighted(tys);
    nthreads
        .prop_flat_map(move |n| {
            (
                prop::collection::vec(prop::collection::vec(sop(m), 1..=per), n..=n),
                sched(n),
            )
        })
        .prop_flat_map(move |x| (Just(x), ty.clone(), 2u8..14, any::<u64>(), pool(), 0u8..6, any::<u64>()))
        .prop_map(move |((mut threads, sched), ty, place, bg, pool, init, garbage)| {
            // bound the number of operations (the linearizability search is exponential)
            let mut left = total;
            for t in threads.iter_mut() {
                let k = t.len().min(left.max(1));
                t.truncate(k);
                left = left.saturating_sub(k);
            }
            Case { ty, place, bg, pool, init, threads, sched, garbage }
        })
        .boxed()
}
/// Adds one thread of neighbour writes.
pub fn with_pokes(s: BoxedStrategy<Case>) -> BoxedStrategy<Case> {
    (s, prop::collection::vec((any::<bool>(), 0u8..8, any::<u8>()), 1..12))
        .prop_map(|(mut c, p)| {
            c.threads.push(p.into_iter().map(|(after, d, v)| SOp::Poke { after, d, v }).collect());
            let n = c.threads.len() as u8;
            // spread some of the schedule onto the poking thread
            for (i, s) in c.sched.iter_mut().enumerate() {
                if i % 2 == 1 {
                    *s = (n - 1, s.1.min(12));
                }
            }
            c
        })
        .boxed()
}
