//! The generated checks: strategy + oracle + classification per part, run by proptest.
use crate::ffi::*;
use crate::{hist, hw, step};
use proptest::prelude::*;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::time::Duration;

pub struct Job {
    pub tab: &'static [TypeOps],
    pub part: String,
    pub cases: u32,
    pub seed: u64,
    pub cpus: String,
}
#[derive(Default)]
struct Acc {
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
}
/// What an evaluated case says about itself.
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<(&'static str, u64)>,
    pub note: String,
}
fn drive<C: Clone + Debug + Serialize + Hash + 'static>(
    job: &Job,
    strat: BoxedStrategy<C>,
    shrink: u32,
    f: impl Fn(&C) -> Result<Info, String>,
) -> Value {
    let acc = RefCell::new(Acc::default());
    let failed = RefCell::new(None::<String>);
    let last_msg = RefCell::new(String::new());
    let mut cfg = Config::default();
    cfg.cases = job.cases;
    cfg.failure_persistence = None;
    cfg.rng_seed = RngSeed::Fixed(job.seed);
    cfg.max_shrink_iters = shrink;
    cfg.max_shrink_time = 60_000;
    cfg.verbose = 0;
    let mut runner = TestRunner::new(cfg);
    let r = runner.run(&strat, |c| {
        trace(&c);
        let res = f(&c);
        let mut a = acc.borrow_mut();
        if failed.borrow().is_none() {
            a.evals += 1;
            if let Ok(i) = &res {
                if i.nontrivial {
                    let mut h = DefaultHasher::new();
                    c.hash(&mut h);
                    let fresh = a.nontrivial.insert(h.finish());
                    if fresh && (a.samples.len() < 2 || a.nontrivial.len() == 1000) {
                        a.samples.push(json!({"case": c, "note": i.note}));
                    }
                }
                for (k, n) in &i.classes {
                    *a.classes.entry(k.to_string()).or_insert(0) += n;
                }
            }
        }
        match res {
            Ok(_) => Ok(()),
            Err(m) => {
                *failed.borrow_mut() = Some(m.clone());
                *last_msg.borrow_mut() = m.clone();
                Err(TestCaseError::fail(m))
            }
        }
    });
    let a = acc.into_inner();
    let failure = match r {
        Ok(()) => Value::Null,
        Err(TestError::Fail(why, c)) => json!({"message": why.message(), "case": c}),
        Err(TestError::Abort(why)) => {
            eprintln!("aborted: {}", why.message());
            std::process::exit(5)
        }
    };
    json!({
        "part": job.part, "evaluations": a.evals, "distinct_nontrivial": a.nontrivial.len(),
        "classes": a.classes, "samples": a.samples, "failure": failure,
    })
}
/// For a run that dies: leaves the case being evaluated in a file.
fn trace<C: Serialize>(c: &C) {
    if let Ok(f) = std::env::var("HARNESS_TRACE") {
        let _ = std::fs::write(f, serde_json::to_string(c).unwrap());
    }
}
fn histjob(job: &Job, strat: BoxedStrategy<hist::Hist>, ck: hist::Check, nt: fn(&hist::Stat) -> bool) -> Value {
    drive(job, strat, 4000, |h| {
        let s = hist::run(job.tab, h, ck)?;
        Ok(Info {
            nontrivial: nt(&s),
            classes: vec![
                ("cas_success", s.cas_ok as u64),
                ("cas_failure", s.cas_fail as u64),
                ("rejected_ordering", s.panics as u64),
                ("fetch_update_retries", s.retries as u64),
                ("fetch_update_none", s.none as u64),
                ("writes", s.writes as u64),
                ("loads", s.reads as u64),
            ],
            note: String::new(),
        })
    })
}
fn stepinfo(r: &step::Ran) -> Info {
    Info {
        nontrivial: r.preempt > 0,
        classes: vec![("preemptions_inside_an_operation", r.preempt), ("instructions", r.total)],
        note: String::new(),
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Freeze {
    case: step::Case,
    k: u32,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Ro {
    ty: u8,
    slot: u16,
    fl: u8,
    o: u8,
    #[serde(with = "hist::hex")]
    v: u128,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Layout {
    ty: u8,
}
const BOTH: hist::Check = hist::Check { values: true, outside: false };
const OUT: hist::Check = hist::Check { values: false, outside: true };
const ALLW: hist::Weights =
    hist::Weights { load: 4, store: 4, swap: 4, cas: 5, fu: 2, api: 1, any_ord: false, raw: true, api_debug: 0 };

fn mixes() -> step::Mix {
    step::Mix { load: 3, store: 3, swap: 3, cas: 4, fu: 2 }
}
fn cpus(job: &Job) -> Vec<usize> {
    job.cpus.split(',').filter_map(|s| s.parse().ok()).collect()
}
fn iters() -> u64 {
    std::env::var("HW_ITERS").ok().and_then(|s| s.parse().ok()).unwrap_or(20_000)
}
fn limit() -> Duration {
    Duration::from_millis(std::env::var("HW_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(2_000))
}

/// Layout, auto traits and constants of one type (C11).
fn layout(tab: &[TypeOps], ty: u8) -> Result<(), String> {
    let t = &tab[ty as usize];
    let n = t.name();
    if t.amu_size != t.size {
        return Err(format!("{n}: size {} instead of {}", t.amu_size, t.size));
    }
    if t.amu_align != t.size {
        return Err(format!("{n}: alignment {} instead of {}", t.amu_align, t.size));
    }
    if t.arr_stride != t.size {
        return Err(format!("{n}: array stride {}", t.arr_stride));
    }
    for (i, name) in ["Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe"].iter().enumerate() {
        if t.auto_traits >> i & 1 == 0 {
            return Err(format!("{n}: not {name}"));
        }
    }
    for k in 0..4 {
        let p = (t.stat)(k);
        if p as usize % t.size as usize != 0 {
            return Err(format!("{n}: static {k} at misaligned {p:p}"));
        }
        let v = hist::get(p, t.size as usize);
        if v != 0x5a {
            return Err(format!("{n}: static {k} holds {v:#x}"));
        }
        if k == 2 {
            let s = t.size as usize;
            let v1 = unsafe { hist::get(p.add(s), s) };
            let v2 = unsafe { hist::get(p.add(2 * s), s) };
            if v1 != !0x5a & hist::mask(s) || v2 != 0x5a {
                return Err(format!("{n}: static array holds {v1:#x} {v2:#x}"));
            }
        }
    }
    Ok(())
}

/// Every ordering combination of every operation, exhaustively (C09).
fn orderings(tab: &'static [TypeOps]) -> Vec<hist::Hist> {
    use hist::{Op, VS};
    let mut v = vec![];
    for ty in 0..tab.len() as u8 {
        let t = &tab[ty as usize];
        if !t.has_ls() {
            continue;
        }
        for fl in 4..6u8 {
            for o in 0..5u8 {
                let mut ops = vec![Op::Load { fl, o }, Op::Store { fl, o, v: VS::Not }, Op::Swap { fl, o, v: VS::Rot(3) }];
                if t.has_cas() {
                    for f in 0..5u8 {
                        for weak in [false, true] {
                            ops.push(Op::Cas { fl, weak, s: o, f, exp: VS::Cur, new: VS::Not });
                            ops.push(Op::Cas { fl, weak, s: o, f, exp: VS::Flip(0), new: VS::Not });
                        }
                        for ret in [hist::Ret::None, hist::Ret::Some(VS::Not)] {
                            ops.push(Op::Fu { fl, s: o, f, script: vec![hist::FuStep { interfere: vec![], ret }] });
                        }
                    }
                }
                for op in ops {
                    v.push(hist::Hist { ty, place: 2, bg: 2, init: VS::Lit(0x0102030405060708090a0b0c0d0e0f10), ops: vec![op] });
                }
            }
        }
    }
    v
}

/// Every single-preemption schedule of short operation pairs (C05/C06): thread 0 is interrupted after k
/// instructions, thread 1 runs its operations, thread 0 resumes.
fn sweep(job: &Job, o: step::Oracle) -> Value {
    use step::SOp;
    let tab = job.tab;
    let mut evals = 0u64;
    let mut nt = 0u64;
    let mut samples = vec![];
    let budget = job.cases as u64;
    let mut kinds: Vec<SOp> = vec![];
    for fl in [0u8, 3] {
        kinds.push(SOp::Load { fl, o: 4 });
        kinds.push(SOp::Store { fl, o: 0, v: 1 });
        kinds.push(SOp::Store { fl, o: 4, v: 1 });
        kinds.push(SOp::Swap { fl, o: 4, v: 1 });
        kinds.push(SOp::Cas { fl, weak: false, s: 4, f: 4, exp: 0, new: 1 });
        kinds.push(SOp::Cas { fl, weak: true, s: 3, f: 2, exp: 2, new: 1 });
    }
    kinds.push(SOp::Fu { fl: 0, s: 4, f: 4, kind: 0, k: 1 });
    let others: Vec<Vec<SOp>> = vec![
        vec![SOp::Store { fl: 0, o: 4, v: 2 }],
        vec![SOp::Swap { fl: 0, o: 4, v: 2 }, SOp::Swap { fl: 0, o: 4, v: 0 }],
        vec![SOp::Cas { fl: 0, weak: false, s: 4, f: 4, exp: 0, new: 2 }],
        vec![SOp::Cas { fl: 0, weak: false, s: 4, f: 4, exp: 1, new: 0 }, SOp::Load { fl: 0, o: 4 }],
        vec![SOp::Load { fl: 0, o: 4 }],
    ];
    let pool = vec![
        0x1111_1111_1111_1111_2222_2222_2222_2222u128,
        0x3333_3333_3333_3333_2222_2222_2222_2244,
        0x1111_1111_5511_1111_6666_6666_2222_2277,
    ];
    'types: for ty in 0..tab.len() as u8 {
        let t = &tab[ty as usize];
        if !t.has_ls() {
            continue;
        }
        for a in &kinds {
            for b in &others {
                if !t.has_cas() && std::iter::once(a).chain(b).any(|x| matches!(x, SOp::Cas { .. } | SOp::Fu { .. })) {
                    continue;
                }
                let mut c = step::Case {
                    ty, place: 2, bg: 7, pool: pool.clone(), init: 0,
                    threads: vec![vec![a.clone()], b.clone()],
                    sched: vec![], garbage: 99,
                };
                let n = match step::check(tab, &c, o) {
                    Ok(r) => r.steps[0][0],
                    Err(m) => return json!({"part": job.part, "evaluations": evals + 1, "distinct_nontrivial": nt, "classes": {}, "samples": samples, "failure": {"message": m, "case": c}}),
                };
                // unoptimised code takes many instructions per operation: sample its preemption points evenly
                let stride = (n / 160).max(1);
                let mut k = job.seed % stride;
                while k < n {
                    c.sched = vec![(0, k as u32), (1, u32::MAX)];
                    evals += 1;
                    trace(&c);
                    match step::check(tab, &c, o) {
                        Ok(r) => {
                            if r.preempt > 0 {
                                nt += 1;
                                if samples.len() < 1 { samples.push(json!({"case": c})); }
                            }
                        }
                        Err(m) => return json!({"part": job.part, "evaluations": evals, "distinct_nontrivial": nt, "classes": {}, "samples": samples, "failure": {"message": m, "case": c}}),
                    }
                    k += stride;
                    if evals >= budget {
                        break 'types;
                    }
                }
            }
        }
    }
    json!({"part": job.part, "evaluations": evals, "distinct_nontrivial": nt, "classes": {}, "samples": samples, "failure": Value::Null})
}
/// A-B-A: another thread changes the value and changes it back at two points of one operation.
fn aba(job: &Job, o: step::Oracle) -> Value {
    use step::SOp;
    let tab = job.tab;
    let mut st = job.seed;
    // splitmix64
    let mut rnd = move |n: usize| {
        st = st.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = st;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        ((z ^ (z >> 31)) % n as u64) as usize
    };
    let (mut evals, mut nt) = (0u64, 0u64);
    let mut samples = vec![];
    let kinds = |fl: u8| {
        vec![
            SOp::Load { fl, o: 2 },
            SOp::Load { fl, o: 4 },
            SOp::Store { fl, o: 1, v: 1 },
            SOp::Store { fl, o: 4, v: 1 },
            SOp::Swap { fl, o: 3, v: 1 },
            SOp::Cas { fl, weak: false, s: 3, f: 2, exp: 0, new: 1 },
            SOp::Cas { fl, weak: true, s: 4, f: 4, exp: 2, new: 1 },
            SOp::Fu { fl: fl & 1, s: 4, f: 4, kind: 0, k: 1 },
        ]
    };
    let pool = vec![
        0x1111_1111_1111_1111_2222_2222_2222_2222u128,
        0x3333_3333_3333_3333_4444_4444_2222_2244,
        0x1111_1111_5511_1111_6666_6666_2222_2277,
    ];
    let wide: Vec<u8> = (0..tab.len() as u8).filter(|&i| tab[i as usize].has_ls() && tab[i as usize].size as usize > std::mem::size_of::<usize>()).collect();
    let all: Vec<u8> = (0..tab.len() as u8).filter(|&i| tab[i as usize].has_ls()).collect();
    let mut lens: std::collections::HashMap<String, (u64, u64)> = Default::default();
    while evals < job.cases as u64 {
        let ty = if !wide.is_empty() && rnd(8) > 0 { wide[rnd(wide.len())] } else { all[rnd(all.len())] };
        let t = &tab[ty as usize];
        let ks = kinds(rnd(4) as u8);
        let a = ks[rnd(ks.len())].clone();
        let b = match rnd(3) {
            0 => vec![SOp::Store { fl: 0, o: 1, v: 2 }, SOp::Store { fl: 0, o: 1, v: 0 }],
            1 => vec![SOp::Swap { fl: 0, o: 4, v: 2 }, SOp::Store { fl: 0, o: 4, v: 0 }],
            _ => vec![SOp::Cas { fl: 0, weak: false, s: 4, f: 4, exp: 0, new: 2 }, SOp::Cas { fl: 0, weak: false, s: 4, f: 4, exp: 2, new: 0 }],
        };
        if !t.has_cas() && std::iter::once(&a).chain(&b).any(|x| matches!(x, SOp::Cas { .. } | SOp::Fu { .. })) {
            evals += 1;
            continue;
        }
        let mut c = step::Case { ty, place: 2, bg: 7, pool: pool.clone(), init: 0, threads: vec![vec![a], b], sched: vec![], garbage: 99 };
        let key = format!("{c:?}");
        trace(&c);
        evals += 1;
        let fail = |m: String, c: &step::Case, evals, nt, samples: &Vec<Value>| json!({"part": job.part, "evaluations": evals, "distinct_nontrivial": nt, "classes": {}, "samples": samples, "failure": {"message": m, "case": c}});
        let (n, m1) = match lens.get(&key) {
            Some(x) => *x,
            None => match step::check(tab, &c, o) {
                Ok(r) => {
                    lens.insert(key, (r.steps[0][0], r.steps[1][0]));
                    (r.steps[0][0], r.steps[1][0])
                }
                Err(m) => return fail(m, &c, evals, nt, &samples),
            },
        };
        let (mut k1, mut k2) = (rnd(n.max(1) as usize) as u64, rnd(n.max(1) as usize) as u64);
        // close pairs more often: the window inside a retry loop is short
        if rnd(2) == 0 { k2 = k1 + rnd(6) as u64 }
        if k2 < k1 { std::mem::swap(&mut k1, &mut k2) }
        c.sched = vec![(0, k1 as u32), (1, m1 as u32), (0, (k2 - k1) as u32), (1, u32::MAX)];
        trace(&c);
        match step::check(tab, &c, o) {
            Ok(r) => {
                if r.preempt > 0 {
                    nt += 1;
                    if samples.is_empty() { samples.push(json!({"case": c})) }
                }
            }
            Err(m) => return fail(m, &c, evals, nt, &samples),
        }
    }
    json!({"part": job.part, "evaluations": evals, "distinct_nontrivial": nt, "classes": {}, "samples": samples, "failure": Value::Null})
}
fn listed<C: Clone + Debug + Serialize + Hash>(job: &Job, cases: Vec<C>, f: impl Fn(&C) -> Result<Info, String>) -> Value {
    let mut nt = HashSet::new();
    let mut ev = 0;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    for c in &cases {
        ev += 1;
        trace(c);
        match f(c) {
            Ok(i) => {
                if i.nontrivial {
                    let mut h = DefaultHasher::new();
                    c.hash(&mut h);
                    nt.insert(h.finish());
                    if samples.len() < 1 {
                        samples.push(json!({"case": c, "note": i.note}));
                    }
                }
                for (k, n) in &i.classes {
                    *classes.entry(k.to_string()).or_insert(0) += n;
                }
            }
            Err(m) => {
                return json!({"part": job.part, "evaluations": ev, "distinct_nontrivial": nt.len(), "classes": classes, "samples": samples, "failure": {"message": m, "case": c}})
            }
        }
    }
    json!({"part": job.part, "evaluations": ev, "distinct_nontrivial": nt.len(), "classes": classes, "samples": samples, "failure": Value::Null})
}
fn plain(nontrivial: bool) -> Info {
    Info { nontrivial, classes: vec![], note: String::new() }
}
fn hwinfo(iters: u64, outcomes: usize, allowed: usize) -> Info {
    Info {
        nontrivial: outcomes > 1,
        classes: vec![("litmus_iterations", iters), ("outcomes_seen", outcomes as u64), ("outcomes_allowed", allowed as u64)],
        note: format!("{outcomes} distinct outcomes seen in {iters} runs"),
    }
}

pub fn run(job: &Job) -> Value {
    let tab = job.tab;
    let cas = hist::any_cas(tab);
    let w = |mut w: hist::Weights| {
        if !cas {
            w.cas = 0;
            w.fu = 0;
        }
        w
    };
    match job.part.as_str() {
        "hist" => histjob(job, hist::hist(tab, w(ALLW), 12, true, false), BOTH, |s| s.writes + s.cas_ok > 0),
        "cas" => {
            if !cas {
                return empty(job);
            }
            let w = hist::Weights { load: 0, store: 0, swap: 0, cas: 1, fu: 0, api: 0, any_ord: false, raw: true, api_debug: 0 };
            histjob(job, hist::hist(tab, w, 8, true, true), BOTH, |s| s.cas_ok > 0 && s.cas_fail > 0)
        }
        "outside" => histjob(job, hist::hist(tab, w(ALLW), 8, true, false), OUT, |s| s.writes + s.cas_ok > 0),
        "readonly" => {
            let s = (hist::types(tab, false), any::<u16>(), 0u8..4, hist::o_load(), hist::lit())
                .prop_map(|(ty, slot, fl, o, v)| Ro { ty, slot, fl, o, v })
                .boxed();
            drive(job, s, 1000, |c| {
                hist::run_ro(tab, c.ty, c.slot, c.fl, c.o, c.v)?;
                Ok(plain(tab[c.ty as usize].size as usize <= std::mem::size_of::<usize>()))
            })
        }
        "outside_step" => {
            let s = step::with_pokes(step::case(tab, mixes(), 1..=2, 3, 4));
            drive(job, s, 3000, |c| step::check(tab, c, step::Oracle::Outside).map(|r| stepinfo(&r)))
        }
        "tear_step" => {
            let s = step::case(tab, step::Mix { load: 5, store: 4, swap: 2, cas: 2, fu: 1 }, 2..=3, 3, 6);
            drive(job, s, 3000, |c| step::check(tab, c, step::Oracle::Tear).map(|r| stepinfo(&r)))
        }
        "lin_step" => {
            let s = step::case(tab, mixes(), 2..=3, 3, 7);
            drive(job, s, 3000, |c| step::check(tab, c, step::Oracle::Lin).map(|r| stepinfo(&r)))
        }
        "tear_sweep" => sweep(job, step::Oracle::Tear),
        "tear_aba" => aba(job, step::Oracle::Tear),
        "lin_aba" => aba(job, step::Oracle::Lin),
        "lin_sweep" => sweep(job, step::Oracle::Lin),
        "fu_step" => {
            if !cas {
                return empty(job);
            }
            // thread 0 always runs fetch_update
            let s = (step::case(tab, step::Mix { load: 0, store: 0, swap: 0, cas: 0, fu: 1 }, 1..=2, 2, 3),
                     step::case(tab, step::Mix { load: 1, store: 3, swap: 2, cas: 2, fu: 0 }, 1..=1, 4, 4))
                .prop_map(|(mut a, b)| {
                    a.threads.extend(b.threads);
                    let n = a.threads.len() as u8;
                    for (i, s) in a.sched.iter_mut().enumerate() {
                        if i % 2 == 1 {
                            s.0 = n - 1;
                        }
                    }
                    a
                })
                .boxed();
            drive(job, s, 3000, |c| {
                let r = step::check(tab, c, step::Oracle::Fu)?;
                let mut i = stepinfo(&r);
                let retries: u64 = r.recs.iter().map(|x| x.args.len().saturating_sub(1) as u64).sum();
                i.classes.push(("fetch_update_retries", retries));
                Ok(i)
            })
        }
        "fu" => {
            if !cas {
                return empty(job);
            }
            let w = hist::Weights { load: 1, store: 1, swap: 1, cas: 1, fu: 8, api: 0, any_ord: false, raw: false, api_debug: 0 };
            histjob(job, hist::hist(tab, w, 4, false, true), BOTH, |s| s.retries + s.none > 0)
        }
        "orders_all" => listed(job, orderings(tab), |h| {
            let s = hist::run(tab, h, BOTH)?;
            Ok(Info { nontrivial: true, classes: vec![("rejected_ordering", s.panics as u64)], note: String::new() })
        }),
        "orders" => {
            let w = w(hist::Weights { load: 3, store: 3, swap: 2, cas: 4, fu: 3, api: 0, any_ord: true, raw: false, api_debug: 0 });
            histjob(job, hist::hist(tab, w, 6, false, false), BOTH, |s| s.panics > 0)
        }
        "api" => {
            let w = w(hist::Weights { load: 1, store: 1, swap: 1, cas: 1, fu: 0, api: 6, any_ord: false, raw: false, api_debug: 2 });
            histjob(job, hist::hist(tab, w, 12, true, false), BOTH, |_| true)
        }
        "layout" => listed(job, (0..tab.len() as u8).map(|ty| Layout { ty }).collect(), |l| layout(tab, l.ty).map(|_| plain(true))),
        "rawdiff" => {
            let w = w(hist::Weights { load: 3, store: 3, swap: 3, cas: 5, fu: 0, api: 0, any_ord: false, raw: true, api_debug: 0 });
            drive(job, hist::hist(tab, w, 8, true, false), 4000, |h| {
                let s = hist::run_diff(tab, h)?;
                Ok(plain(s.writes + s.cas_ok + s.cas_fail > 0))
            })
        }
        "abi_step" => {
            let s = step::case(tab, mixes(), 1..=1, 4, 4);
            drive(job, s, 3000, |c| {
                let r = step::check(tab, c, step::Oracle::Abi)?;
                Ok(Info { nontrivial: true, classes: vec![("instructions", r.total)], note: String::new() })
            })
        }
        "freeze" => {
            let s = (step::case(tab, mixes(), 2..=2, 2, 4), prop_oneof![3 => 0u32..40, 2 => 0u32..250, 1 => 0u32..1200])
                .prop_map(|(case, k)| Freeze { case, k })
                .boxed();
            drive(job, s, 2000, |c| {
                let r = step::check_freeze(tab, &c.case, c.k, 3000)?;
                Ok(stepinfo(&r))
            })
        }
        "progress" => {
            let s = step::case(tab, mixes(), 2..=3, 3, 7);
            drive(job, s, 2000, |c| step::check(tab, c, step::Oracle::Progress).map(|r| stepinfo(&r)))
        }
        "hw_sc" => {
            let cp = cpus(job);
            let mut v = listed(job, hw::litmus_fixed(tab), |l| hw::check_sc(tab, l, iters() * 3, limit(), &cp).map(|(a, b, c)| hwinfo(a, b, c)));
            if v["failure"].is_null() {
                let d = drive(job, hw::litmus_sc(tab), 40, |l| hw::check_sc(tab, l, iters(), limit(), &cp).map(|(a, b, c)| hwinfo(a, b, c)));
                v = merge(v, d);
            }
            v
        }
        "hw_mp" => {
            let cp = cpus(job);
            drive(job, hw::litmus_mp(tab), 40, |l| hw::check_mp(tab, l, iters(), limit(), &cp).map(|(a, b)| hwinfo(a, b, 0)))
        }
        "hw_contend" => {
            let cp = cpus(job);
            drive(job, hw::contend(tab, iters() as u32), 40, |c| {
                let n = hw::check_contend(tab, c, &cp)?;
                Ok(Info { nontrivial: n > 0, classes: vec![("failed_attempts", n), ("operations", c.iters as u64 * c.kinds.len() as u64)], note: String::new() })
            })
        }
        "hw_tear" => {
            let cp = cpus(job);
            drive(job, hw::tear(tab, iters() as u32), 40, |c| {
                let n = hw::check_tear(tab, c, &cp)?;
                Ok(Info { nontrivial: n > 0, classes: vec![("value_changes_seen", n), ("operations", c.iters as u64 * c.roles.len() as u64)], note: String::new() })
            })
        }
        p => panic!("unknown part {p}"),
    }
}
fn empty(job: &Job) -> Value {
    json!({"part": job.part, "evaluations": 0, "distinct_nontrivial": 0, "classes": {}, "samples": [], "failure": Value::Null})
}
fn merge(a: Value, b: Value) -> Value {
    let mut classes = a["classes"].as_object().unwrap().clone();
    for (k, v) in b["classes"].as_object().unwrap() {
        let x = classes.get(k).and_then(|x| x.as_u64()).unwrap_or(0);
        classes.insert(k.clone(), json!(x + v.as_u64().unwrap()));
    }
    let mut s = a["samples"].as_array().unwrap().clone();
    s.extend(b["samples"].as_array().unwrap().clone());
    json!({"part": a["part"], "evaluations": a["evaluations"].as_u64().unwrap() + b["evaluations"].as_u64().unwrap(),
        "distinct_nontrivial": a["distinct_nontrivial"].as_u64().unwrap() + b["distinct_nontrivial"].as_u64().unwrap(),
        "classes": classes, "samples": s, "failure": b["failure"]})
}
fn one<C: DeserializeOwned>(c: Value, f: impl FnOnce(&C) -> Result<(), String>) -> Value {
    let c: C = serde_json::from_value(c).unwrap();
    match f(&c) {
        Ok(()) => json!({"failure": Value::Null}),
        Err(m) => json!({"failure": {"message": m}}),
    }
}
pub fn replay(job: &Job, c: Value) -> Value {
    let tab = job.tab;
    let st = |c: Value, o| one::<step::Case>(c, |c| step::check(tab, c, o).map(|_| ()));
    let hi = |c: Value, k| one::<hist::Hist>(c, |c| hist::run(tab, c, k).map(|_| ()));
    let cp = cpus(job);
    match job.part.as_str() {
        "outside" => hi(c, OUT),
        "hist" | "cas" | "fu" | "orders" | "orders_all" | "api" => hi(c, BOTH),
        "readonly" => one::<Ro>(c, |c| hist::run_ro(tab, c.ty, c.slot, c.fl, c.o, c.v)),
        "layout" => one::<Layout>(c, |l| layout(tab, l.ty)),
        "rawdiff" => one::<hist::Hist>(c, |h| hist::run_diff(tab, h).map(|_| ())),
        "outside_step" => st(c, step::Oracle::Outside),
        "tear_step" | "tear_sweep" | "tear_aba" => st(c, step::Oracle::Tear),
        "lin_step" | "lin_sweep" | "lin_aba" => st(c, step::Oracle::Lin),
        "fu_step" => st(c, step::Oracle::Fu),
        "abi_step" => st(c, step::Oracle::Abi),
        "progress" => st(c, step::Oracle::Progress),
        "freeze" => one::<Freeze>(c, |c| step::check_freeze(tab, &c.case, c.k, 3000).map(|_| ())),
        "hw_sc" => one::<hw::Litmus>(c, |l| hw::check_sc(tab, l, 3_000_000, Duration::from_secs(20), &cp).map(|_| ())),
        "hw_mp" => one::<hw::Litmus>(c, |l| hw::check_mp(tab, l, 3_000_000, Duration::from_secs(20), &cp).map(|_| ())),
        "hw_contend" => one::<hw::Contend>(c, |c| (0..20).try_for_each(|_| hw::check_contend(tab, c, &cp).map(|_| ()))),
        "hw_tear" => one::<hw::TearCase>(c, |c| (0..20).try_for_each(|_| hw::check_tear(tab, c, &cp).map(|_| ()))),
        p => panic!("unknown part {p}"),
    }
}
