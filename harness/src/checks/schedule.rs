//! C05 schedules, C25 sanitizers.
use super::{
    gen::{constraints, rfe, system, table, violated, Case, Opt},
    Check,
};
use crate::{
    conv::{el, fe},
    mon::{guard, hash_of, mix, Ctx, Record, Rng},
    refs::{
        field::{bitrev, dft, Fe},
        merkle::{seq, RefTree, H},
        stark::{prove as ref_prove, verify as ref_verify, Ex, Faults},
    },
};
use std::{
    collections::{BTreeMap, HashSet},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Mutex, OnceLock,
    },
    time::Duration,
};
use zkp_hash::Hash;
use zkp_merkle_tree::{Tree, VectorCommitment};
use zkp_primefield::{Fft, FieldElement};
use zkp_stark::{prove, verify};

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C05",
        run:     c05,
        rule:    "a case is one workload (proof, commitment, transform) run on one pool under noise, compared with the sequential result; distinct by workload and pool; the number of distinct leaf-to-thread assignments seen is reported as schedules",
        assumes: &["schedules are sampled: pools of 1 to 16 threads, delays injected in leaves and in the pools' queues, concurrent provers"],
    });
    v.push(Check {
        id:      "C25",
        run:     c25,
        rule:    "a case is one case of the workloads of the other checks, run under a sanitizer (or with overflow and debug assertions); distinct by input",
        assumes: &["AddressSanitizer and ThreadSanitizer (standard library instrumented too) report what they detect on the executed paths only"],
    });
}

fn pool(n: usize) -> &'static rayon::ThreadPool {
    static POOLS: OnceLock<Mutex<BTreeMap<usize, &'static rayon::ThreadPool>>> = OnceLock::new();
    let mut m = POOLS.get_or_init(Default::default).lock().unwrap();
    m.entry(n).or_insert_with(|| {
        Box::leak(Box::new(
            rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(16 << 20).build().expect("pool"),
        ))
    })
}

/// Disturbs the schedule while alive: busy threads outside, sleeping tasks
/// inside the pool.
struct Noise {
    stop: std::sync::Arc<AtomicBool>,
    join: Vec<std::thread::JoinHandle<()>>,
}

impl Noise {
    fn new(seed: u64, threads: usize, inside: Option<&'static rayon::ThreadPool>) -> Noise {
        let stop = std::sync::Arc::new(AtomicBool::new(false));
        let mut join = vec![];
        for t in 0..threads {
            let stop = stop.clone();
            let mut r = Rng::new(seed ^ t as u64);
            join.push(std::thread::spawn(move || {
                while !stop.load(SeqCst) {
                    match r.below(3) {
                        0 => std::thread::yield_now(),
                        1 => std::thread::sleep(Duration::from_micros(r.below(80) as u64)),
                        _ => {
                            let mut x = r.u64();
                            for _ in 0..r.below(2000) {
                                x = mix(x);
                            }
                            std::hint::black_box(x);
                        }
                    }
                }
            }));
        }
        if let Some(p) = inside {
            let stop = stop.clone();
            let mut r = Rng::new(seed ^ 0x77);
            join.push(std::thread::spawn(move || {
                while !stop.load(SeqCst) {
                    let us = r.below(60) as u64;
                    p.spawn(move || std::thread::sleep(Duration::from_micros(us)));
                    std::thread::sleep(Duration::from_micros(20 + r.below(200) as u64));
                }
            }));
        }
        Noise { stop, join }
    }
}

impl Drop for Noise {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        for j in self.join.drain(..) {
            let _ = j.join();
        }
    }
}

fn made(case: &Case) -> Result<Vec<u8>, String> {
    let con = constraints(&case.sys);
    let t = table(&case.cols);
    match guard(|| prove(&con, &t)) {
        Ok(Ok(p)) => Ok(p.as_bytes().to_vec()),
        o => Err(format!("{:?}", o.map(|r| r.map(|_| ())))),
    }
}

fn same(rec: &mut Record, what: &str, case: &Case, pool: usize, first: &Result<Vec<u8>, String>, got: &Result<Vec<u8>, String>) {
    rec.eval(&(what, pool, case.sys.show()));
    rec.event(&format!("pool of {}", pool));
    rec.check(got == first, what, || {
        let place = match (first, got) {
            (Ok(a), Ok(b)) => format!("first difference at byte {:?} of {}", a.iter().zip(b).position(|(x, y)| x != y), a.len()),
            _ => format!("{:?}", got.as_ref().err()),
        };
        format!("pool of {}: {} on {}", pool, place, case.sys.show())
    });
}

/// Leaves that record which thread hashed them, with delays.
struct Leaves {
    salt:  u64,
    n:     usize,
    delay: bool,
    log:   Vec<AtomicU64>,
}

impl Leaves {
    fn new(salt: u64, n: usize, delay: bool) -> Leaves {
        Leaves { salt, n, delay, log: (0..n).map(|_| AtomicU64::new(u64::MAX)).collect() }
    }
}

fn leaf_value(salt: u64, i: usize) -> Fe {
    let v = mix(salt ^ mix(i as u64 + 1));
    Fe([v, v.rotate_left(11), mix(v), v >> 6])
}

impl VectorCommitment for Leaves {
    type Leaf = FieldElement;

    fn len(&self) -> usize {
        self.n
    }

    fn leaf(&self, i: usize) -> FieldElement {
        let t = rayon::current_thread_index().map_or(99, |x| x as u64);
        self.log[i].store(t, SeqCst);
        if self.delay {
            match mix(self.salt ^ i as u64 ^ 0xdead) % 61 {
                0 => std::thread::sleep(Duration::from_micros(50)),
                1..=4 => std::thread::yield_now(),
                _ => {}
            }
        }
        el(leaf_value(self.salt, i))
    }
}

fn c05(ctx: &Ctx) {
    let schedules: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let sizes = [2, 3, 4, 5, 7, 8, 16];

    ctx.cases("proofs on pools", 2, ctx.n(60, 1500), |rng, _, rec| {
        let o = Opt { log_n: (1, 8), max_dom: 4096, pow: 9, cols: 4, queries: 20, ..Opt::small() };
        let case = system(rng, &o);
        let first = pool(1).install(|| made(&case));
        rec.check(first.is_ok(), "prove fails", || format!("{:?} on {}", first, case.sys.show()));
        for _ in 0..3 {
            let k = *rng.pick(&sizes);
            let noise = if rng.chance(1, 2) { Some(Noise::new(rng.u64(), rng.below(6), Some(pool(k)))) } else { None };
            let got = pool(k).install(|| made(&case));
            drop(noise);
            same(rec, "proof depends on the pool", &case, k, &first, &got);
        }
        // Outside any pool
        let got = made(&case);
        same(rec, "proof depends on the pool", &case, 0, &first, &got);
    });

    // Work that different threads finish at different times
    ctx.cases("hard proof of work on pools", 1, ctx.n(40, 600), |rng, ix, rec| {
        let o = Opt { log_n: (1, 3), max_dom: 64, ..Opt::tiny() };
        let mut case = system(rng, &o);
        case.sys.pow = [10, 12, 13, 14, 15, 16, 17][ix as usize % 7];
        let first = pool(1).install(|| made(&case));
        rec.check(first.is_ok(), "prove fails", || format!("{:?} on {}", first, case.sys.show()));
        for k in sizes {
            let noise = if rng.chance(1, 3) { Some(Noise::new(rng.u64(), rng.below(6), None)) } else { None };
            let got = pool(k).install(|| made(&case));
            drop(noise);
            same(rec, "proof depends on the pool", &case, k, &first, &got);
        }
    });

    // Long enough for every parallel section to split: transforms above 1024,
    // shifted copies above 1024 per chunk
    ctx.cases("larger proofs on pools", 1, ctx.n(10, 120), |rng, _, rec| {
        let o = Opt { log_n: (10, 12), max_dom: 1 << 14, pow: 12, cols: 3, degree: 4, queries: 30, ..Opt::small() };
        let case = system(rng, &o);
        let first = pool(1).install(|| made(&case));
        rec.check(first.is_ok(), "prove fails", || format!("{:?} on {}", first, case.sys.show()));
        for k in [*rng.pick(&sizes), 8] {
            let noise = Noise::new(rng.u64(), rng.below(6), Some(pool(k)));
            let got = pool(k).install(|| made(&case));
            drop(noise);
            same(rec, "proof depends on the pool", &case, k, &first, &got);
        }
        if let Ok(b) = &first {
            let r = ref_verify(&case.sys, b);
            rec.check(r.is_ok(), "sequential proof is invalid", || format!("{:?} on {}", r, case.sys.show()));
        }
    });

    // The constraint evaluation splits only above 65536 points
    ctx.cases("chunked evaluation", 1, ctx.n(2, 24), |rng, ix, rec| {
        let case = huge(rng, ix);
        rec.event(&format!("evaluation points {}", case.sys.n * case.sys.parts()));
        let first = pool(1).install(|| made(&case));
        rec.check(first.is_ok(), "prove fails", || format!("{:?} on {}", first, case.sys.show()));
        let got = pool(8).install(|| made(&case));
        same(rec, "proof depends on the pool", &case, 8, &first, &got);
        if let Ok(b) = &first {
            let r = ref_verify(&case.sys, b);
            rec.check(r.is_ok(), "sequential proof is invalid", || format!("{:?} on {}", r, case.sys.show()));
        }
    });

    ctx.cases("concurrent proofs", 1, ctx.n(16, 400), |rng, _, rec| {
        let o = Opt { log_n: (2, 9), max_dom: 4096, pow: 9, ..Opt::small() };
        let cases: Vec<Case> = (0..rng.range(3, 8)).map(|_| system(rng, &o)).collect();
        let first: Vec<_> = cases.iter().map(|c| pool(1).install(|| made(c))).collect();
        let k = *rng.pick(&sizes);
        let nested = rng.chance(1, 2);
        let slots: Vec<Mutex<Vec<Result<Vec<u8>, String>>>> = cases.iter().map(|_| Mutex::new(vec![])).collect();
        let times = rng.range(1, 2);
        if nested {
            // All inside one pool: proofs steal each other's work
            pool(k).scope(|s| {
                for (i, c) in cases.iter().enumerate() {
                    for _ in 0..times {
                        let slot = &slots[i];
                        s.spawn(move |_| {
                            let r = made(c);
                            slot.lock().unwrap().push(r);
                        });
                    }
                }
            });
        } else {
            std::thread::scope(|s| {
                for (i, c) in cases.iter().enumerate() {
                    let slot = &slots[i];
                    s.spawn(move || {
                        for _ in 0..times {
                            let r = if i % 2 == 0 { pool(k).install(|| made(c)) } else { made(c) };
                            slot.lock().unwrap().push(r);
                        }
                    });
                }
            });
        }
        rec.event(if nested { "nested concurrent rounds" } else { "threaded concurrent rounds" });
        for (i, s) in slots.iter().enumerate() {
            for got in s.lock().unwrap().iter() {
                same(rec, "proof depends on concurrent proofs", &cases[i], k, &first[i], got);
            }
        }
    });

    // Nothing a process did earlier shows in a later proof
    ctx.cases("histories", 4, ctx.n(40, 1000), |rng, _, rec| {
        let a = system(rng, &Opt::small());
        let first = made(&a);
        let con = constraints(&a.sys);
        for _ in 0..rng.range(1, 5) {
            match rng.below(5) {
                0 => {
                    let b = system(rng, &Opt::small());
                    let _ = made(&b);
                    rec.event("history: other proof");
                }
                1 => {
                    let b = first.clone().unwrap_or_default();
                    let _ = guard(|| verify(&con, &zkp_stark::Proof::from_bytes(b)));
                    rec.event("history: verification");
                }
                2 => {
                    let k = rng.below(2000);
                    let b = rng.bytes(k);
                    let _ = guard(|| verify(&con, &zkp_stark::Proof::from_bytes(b)));
                    rec.event("history: hostile verification");
                }
                3 => {
                    // Unsatisfied trace: proving fails or panics
                    let mut b = a.clone();
                    let (j, r) = (rng.below(b.sys.cols), rng.below(b.sys.n));
                    b.cols[j][r] = b.cols[j][r].add(Fe::one());
                    if !violated(&b, &b.cols).is_empty() {
                        let _ = made(&b);
                        rec.event("history: failed proof");
                    }
                }
                _ => {
                    let _ = ref_prove(&a.sys, &a.cols, &Faults::default());
                }
            }
        }
        let again = made(&a);
        same(rec, "proof depends on the history", &a, 0, &first, &again);
    });

    ctx.cases("commitments", 2, ctx.n(60, 1500), |rng, _, rec| {
        let n = 1 << rng.range(0, 11);
        let salt = rng.u64();
        let hashes: Vec<H> = (0..n).map(|i| seq(&[leaf_value(salt, i).bytes()])).collect();
        let want = RefTree::new(hashes).root();
        for _ in 0..4 {
            let k = *rng.pick(&[1, 2, 3, 4, 5, 7, 8, 16]);
            let skip = rng.below(4);
            let delay = rng.chance(2, 3);
            rec.eval(&(n, salt, k, skip));
            let got = guard(|| {
                pool(k).install(|| {
                    let t = Tree::from_leaves_skip_layers(Leaves::new(salt, n, delay), skip).map_err(|e| format!("{:?}", e))?;
                    let who: Vec<u64> = t.leaves().log.iter().map(|x| x.load(SeqCst)).collect();
                    let root: Hash = t.commitment().hash().clone();
                    Ok::<_, String>((root, who))
                })
            });
            match got {
                Ok(Ok((root, who))) => {
                    rec.check(root.as_bytes() == want, "commitment depends on the schedule", || {
                        format!("{} leaves, pool of {}, skip {}", n, k, skip)
                    });
                    let used: HashSet<u64> = who.iter().copied().collect();
                    rec.event(&format!("threads taking part {}", used.len()));
                    schedules.lock().unwrap().insert(hash_of(&(n, k, who)));
                }
                o => rec.violation("commitment fails", format!("{:?}", o.map(|r| r.map(|_| ())))),
            }
        }
    });

    ctx.cases("transforms", 2, ctx.n(40, 800), |rng, _, rec| {
        let n = 1_usize << rng.range(8, 13);
        let c: Vec<Fe> = (0..n).map(|_| rfe(rng)).collect();
        let s = rfe(rng);
        let f = |g: &(dyn Fn(&mut Vec<FieldElement>) + Sync)| {
            let mut v: Vec<FieldElement> = c.iter().map(|x| el(*x)).collect();
            g(&mut v);
            v.iter().map(fe).collect::<Vec<_>>()
        };
        let nat = dft(&c, Fe::root(n));
        let want: Vec<Fe> = (0..n).map(|i| nat[bitrev(n, i)]).collect();
        let shifted = |v: &mut Vec<FieldElement>| {
            let src = v.clone();
            v.clone_shifted(&src, &el(s));
        };
        let first = pool(1).install(|| f(&shifted));
        for _ in 0..3 {
            let k = *rng.pick(&sizes);
            let noise = if rng.chance(1, 2) { Some(Noise::new(rng.u64(), 3, Some(pool(k)))) } else { None };
            rec.eval(&(n, k, &c));
            let got = pool(k).install(|| f(&|v| v.fft()));
            rec.check(got == want, "transform depends on the schedule", || format!("fft of {} in a pool of {}", n, k));
            let got = pool(k).install(|| f(&shifted));
            rec.check(got == first, "transform depends on the schedule", || format!("clone_shifted of {} in a pool of {}", n, k));
            drop(noise);
            rec.events_n("transforms", 2);
        }
    });

    ctx.cases("summary", 1, 1, |_, _, rec| {
        rec.events_n("distinct leaf-to-thread assignments", schedules.lock().unwrap().len() as u64);
    });
}

fn longest(e: &Ex) -> usize {
    match e {
        Ex::Poly(p, a) => p.len().max(longest(a)),
        Ex::Claim(_, _, a) | Ex::Neg(a) | Ex::Inv(a) | Ex::Exp(a, _) => longest(a),
        Ex::Add(a, b) | Ex::Mul(a, b) => longest(a).max(longest(b)),
        _ => 0,
    }
}

/// Constraint evaluation domain of at least 2^17 points.
pub fn huge(rng: &mut Rng, ix: u64) -> Case {
    loop {
        let o = Opt {
            log_n: (15, 17),
            cols: 2,
            degree: 4,
            max_dom: 1 << 18,
            pow: 4,
            queries: 8,
            claims: ix % 2 == 0,
            ..Opt::small()
        };
        let mut case = system(rng, &o);
        let points = case.sys.n * case.sys.parts();
        let long = case.sys.cons.iter().map(longest).chain(case.sys.claims.iter().map(Vec::len)).max().unwrap_or(0);
        // Polynomials are evaluated naively at every point
        if points >= 1 << 17 && points <= 1 << 18 && case.sys.cons.len() >= 2 && long <= 64 {
            case.sys.blowup = case.sys.parts().max(2);
            return case;
        }
    }
}

/// Panics that mean undefined or unintended arithmetic, not a refused input.
fn memory_fault(text: &str) -> bool {
    [
        "overflow",
        "out of bounds",
        "out of range",
        "unsafe precondition",
        "misaligned",
        "index out",
        "copy_nonoverlapping",
        "null pointer",
        "uninit",
    ]
    .iter()
    .any(|m| text.contains(m))
}

fn c25(ctx: &Ctx) {
    let of = |id: &str| super::all().into_iter().find(|c| c.id == id).expect("known").run;
    let list: &[&str] = match ctx.profile.as_str() {
        "tsan" => &["C05", "C24", "C06", "C21", "C10", "C23", "C01"],
        _ => &[
            "C23", "C24", "C10", "C20", "C21", "C01", "C02", "C03", "C27", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15",
            "C16", "C17", "C18", "C19", "C22", "C06", "C26",
        ],
    };
    for id in list {
        (of(id))(ctx);
        let mut t = ctx.total.lock().unwrap();
        // What the workload computes is judged by its own check
        t.violations.retain(|v| memory_fault(&v.detail) || memory_fault(&v.key));
        t.event(&format!("workload {}", id));
    }
}
