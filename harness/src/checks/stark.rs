//! C01-C04, C06: prover and verifier against an independent implementation.
use super::{
    gen::{constraints, fri_layout, params, rfe, rnz, system, table, violated, Case, Opt},
    Check,
};
use crate::{
    conv::hex,
    mon::{guard, Ctx, Record, Rng},
    refs::{
        field::Fe,
        stark::{self as rf, pow_bits, prove as ref_prove, verify as ref_verify, Ex, Faults, Nonce, System},
    },
};
use zkp_stark::{prove, verify, Constraints, Proof, TraceTable};

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id: "C01",
        run: c01,
        rule: "a case is one generated constraint system with a satisfying trace and a parameter set; distinct by system text, sizes and parameters",
        assumes: &["generated traces satisfy the constraints (confirmed per case by an independent row evaluator)", "parameters within the documented domain: power-of-two sizes, non-empty FRI layout with entries 1..4, blowup at least the constraint degree"],
    });
    v.push(Check {
        id: "C02",
        run: c02,
        rule: "a case is one dishonest proof (fault kind x position x system) offered to verify; distinct by system, fault and resulting bytes",
        assumes: &["Keccak collisions and accidental algebraic coincidences (probability below 2^-200) do not occur"],
    });
    v.push(Check {
        id: "C03",
        run: c03,
        rule: "a case is one byte string offered as proof for one system; distinct by string",
        assumes: &["constraint systems are well-formed; only the proof bytes are hostile"],
    });
    v.push(Check {
        id: "C04",
        run: c04,
        rule: "a case is one honest proof compared byte for byte with the reference prover's; distinct by bytes",
        assumes: &["the reference prover implements the documented protocol; it was written from the documentation and agrees with the StarkWare test vectors through the repository's own pinned digests"],
    });
    v.push(Check {
        id: "C06",
        run: c06,
        rule: "a case is one proof-of-work search (transcript x difficulty x thread count) or one forged nonce; distinct by challenge, difficulty, threads and nonce",
        assumes: &["difficulties up to 20 bits are searched"],
    });
}

pub fn verdict(c: &Constraints, bytes: &[u8]) -> Result<Result<(), String>, String> {
    let p = Proof::from_bytes(bytes.to_vec());
    guard(|| verify(c, &p).map_err(|e| format!("{:?}", e)))
}

/// Offers a proof; the verdict must be the reference verifier's.
pub fn judge(rec: &mut Record, what: &str, sys: &System, c: &Constraints, bytes: &[u8]) -> bool {
    let want = ref_verify(sys, bytes);
    rec.eval(&(sys.show(), what, bytes));
    match want {
        Ok(()) => rec.event("accepted"),
        Err(e) => rec.event(&format!("rejected at: {}", e)),
    }
    match verdict(c, bytes) {
        Err(p) => {
            rec.violation(
                &format!("verify panics ({})", want.err().unwrap_or("valid")),
                format!("{}: {} for {} proof {}", what, p, sys.show(), hex(bytes)),
            );
            false
        }
        Ok(got) => rec.check(got.is_ok() == want.is_ok(), &format!("verdict ({})", want.err().unwrap_or("valid")), || {
            format!(
                "{}: verify says {:?}, should be {:?} for {} proof {}",
                what,
                got,
                want,
                sys.show(),
                hex(bytes)
            )
        }),
    }
}

fn shape(rec: &mut Record, case: &Case) {
    let s = &case.sys;
    rec.event(&format!("rows {}", s.n));
    rec.event(&format!("degree {}", s.degree()));
    rec.event(&format!("blowup {}", s.blowup));
    rec.event(&format!("fri layers {}", s.fri.len()));
    for k in &s.fri {
        rec.event(&format!("fri fold {}", k));
    }
    if !s.claims.is_empty() {
        rec.event("with claim polynomials");
    }
    if case.cons.iter().any(|c| !super::gen::poles(&c.num).is_empty()) {
        rec.event("with inverses inside");
    }
    let a = s.args();
    if a.iter().any(|x| x.1 < 0) {
        rec.event("with negative offset");
    }
    if a.iter().any(|x| x.1.unsigned_abs() >= s.n) {
        rec.event("with offset beyond the table");
    }
}

/// Honest run: prove, verify, reference verify.
fn honest(rec: &mut Record, case: &Case, strict: bool) -> Option<Vec<u8>> {
    let s = &case.sys;
    let con = constraints(s);
    let t = table(&case.cols);
    rec.eval(&s.show());
    shape(rec, case);
    rec.sample("system", || s.show());
    match guard(|| prove(&con, &t)) {
        Err(p) => {
            rec.violation("prove panics", format!("{} on {}", p, s.show()));
            None
        }
        Ok(Err(e)) => {
            rec.violation("prove fails", format!("{:?} on {}", e, s.show()));
            None
        }
        Ok(Ok(p)) => {
            rec.event("proofs");
            let b = p.as_bytes().to_vec();
            match guard(|| verify(&con, &p)) {
                Ok(Ok(())) => {}
                o => rec.violation("honest proof rejected", format!("{:?} on {}", o, s.show())),
            }
            if strict {
                let r = ref_verify(s, &b);
                rec.check(r.is_ok(), "reference rejects honest proof", || format!("{:?} on {}", r, s.show()));
            }
            Some(b)
        }
    }
}

fn sane(case: &Case) {
    let v = violated(case, &case.cols);
    assert!(v.is_empty(), "generator made an unsatisfied system: {:?} {}", v, case.sys.show());
}

fn c01(ctx: &Ctx) {
    ctx.cases("small systems", 4, ctx.n(600, 12000), |rng, _, rec| {
        let case = system(rng, &Opt::small());
        sane(&case);
        honest(rec, &case, true);
    });
    ctx.cases("many columns", 4, ctx.n(40, 800), |rng, _, rec| {
        let o = Opt { cols: 20, log_n: (1, 4), max_dom: 256, ..Opt::small() };
        let case = system(rng, &o);
        honest(rec, &case, true);
    });
    ctx.cases("one system, all layouts", 4, ctx.n(12, 200), |rng, _, rec| {
        let o = Opt { log_n: (3, 5), degree: 3, ..Opt::small() };
        let mut case = system(rng, &o);
        let log_n = case.sys.n.trailing_zeros() as usize;
        // Every composition of every total
        let mut lays = vec![];
        compositions(log_n, &mut vec![], &mut lays);
        for l in lays {
            case.sys.fri = l;
            honest(rec, &case, true);
        }
        for b in 1..=5 {
            if (1 << b) >= case.sys.parts() {
                case.sys.blowup = 1 << b;
                case.sys.fri = fri_layout(rng, log_n);
                honest(rec, &case, true);
            }
        }
        for q in [1, 2, 3, 4, 5, 31, 32, 33, 100] {
            case.sys.queries = q;
            honest(rec, &case, true);
        }
    });
    ctx.cases("larger systems", 2, ctx.n(24, 300), |rng, _, rec| {
        let o = Opt { log_n: (6, 10), degree: 4, max_dom: 1 << 13, cols: 3, pow: 10, queries: 40, ..Opt::small() };
        let case = system(rng, &o);
        honest(rec, &case, true);
    });
    // Defaults of the constructors
    ctx.cases("default parameters", 2, ctx.n(20, 120), |rng, ix, rec| {
        let o = Opt { log_n: (1, 11), degree: 2, max_dom: 1 << 12, cols: 2, ..Opt::small() };
        let mut case = system(rng, &o);
        let exprs = case.sys.cons.iter().map(super::gen::to_r).collect();
        let dim = (case.sys.n, case.sys.cols);
        let mut con = if ix % 2 == 0 {
            Constraints::from_expressions(dim, case.sys.seed.clone(), exprs).unwrap()
        } else {
            let q = rng.range(1, 30);
            Constraints::from_expressions_detailed(
                dim,
                case.sys.seed.clone(),
                exprs,
                if rng.chance(1, 2) { Some(case.sys.blowup) } else { None },
                Some(rng.below(8)),
                if rng.chance(1, 2) { Some(q) } else { None },
                if rng.chance(1, 2) { Some(case.sys.fri.clone()) } else { None },
            )
            .unwrap()
        };
        if !case.sys.claims.is_empty() {
            con.add_claim_polynomials(case.sys.claims.iter().map(|p| super::gen::dense(p)).collect());
        }
        case.sys.blowup = con.blowup;
        case.sys.pow = con.pow_bits;
        case.sys.queries = con.num_queries;
        case.sys.fri = con.fri_layout.clone();
        let t = table(&case.cols);
        rec.eval(&case.sys.show());
        match guard(|| prove(&con, &t)) {
            Ok(Ok(p)) => {
                rec.event("proofs");
                let r = ref_verify(&case.sys, p.as_bytes());
                rec.check(r.is_ok(), "reference rejects honest proof", || format!("{:?} on {}", r, case.sys.show()));
                let v = verdict(&con, p.as_bytes());
                rec.check(v == Ok(Ok(())), "honest proof rejected", || format!("{:?} on {}", v, case.sys.show()));
            }
            o => rec.violation("prove fails", format!("{:?} on {}", o, case.sys.show())),
        }
    });
    // Large domains: parallel chunks of the constraint evaluation (more than
    // 65536 points), large transforms
    ctx.cases("large domain", 1, ctx.n(2, 10), |rng, ix, rec| {
        let case = large(rng, ix);
        honest(rec, &case, true);
        rec.event("domain over 65536 points");
    });
    ctx.cases("large generated systems", 1, if ctx.thorough { 12 } else { 1 }, |rng, ix, rec| {
        honest(rec, &super::schedule::huge(rng, ix), false);
        rec.event("domain over 65536 points");
    });
}

fn compositions(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if !cur.is_empty() {
        out.push(cur.clone());
    }
    for k in 1..=n.min(4) {
        cur.push(k);
        compositions(n - k, cur, out);
        cur.pop();
    }
}

/// A degree 3 or 4 recurrence with periodic columns over 2^15 rows.
pub fn large(rng: &mut Rng, ix: u64) -> Case {
    let log_n = 15;
    let n = 1 << log_n;
    let g = Fe::root(n);
    let d = if ix % 2 == 0 { 4 } else { 3 };
    let per = Ex::Poly((0..8).map(|_| rfe(rng)).collect(), Box::new(Ex::X.exp(n / 512)));
    let k = rnz(rng);
    let f = Ex::T(0, 0).exp(d).add(per.clone()).add(Ex::C(k));
    let f2 = Ex::T(0, 0).mul(Ex::T(0, -3)).add(Ex::X);
    let mut a = vec![Fe::ZERO; n];
    a[0] = rfe(rng);
    // Value of the periodic polynomial
    let mut x = Fe::one();
    let mut xs = Vec::with_capacity(n);
    for _ in 0..n {
        xs.push(x);
        x = x.mul(g);
    }
    let zero = |_: usize, _: isize| Fe::ZERO;
    let tab: Vec<Fe> = (0..512).map(|r| per.eval(xs[r], &zero, &[]).unwrap()).collect();
    for r in 0..n - 1 {
        a[r + 1] = rf::fpow(a[r], d).add(tab[r % 512]).add(k);
    }
    let b: Vec<Fe> = (0..n).map(|r| a[r].mul(a[(r + n - 3) % n]).add(xs[r])).collect();
    let last = b[n - 2];
    let cons = vec![
        Ex::T(0, 1).sub(f).mul(Ex::X.sub(Ex::C(fpowi(g, n - 1)))).div(Ex::X.exp(n).sub(rf::c(1))),
        Ex::T(1, 0).sub(f2).div(Ex::X.exp(n).sub(rf::c(1))),
        Ex::T(1, 0).sub(Ex::C(last)).div(Ex::X.sub(Ex::C(fpowi(g, n - 2)))),
    ];
    let sys = System {
        n,
        cols: 2,
        seed: rng.bytes(8),
        cons,
        claims: vec![],
        blowup: 4,
        pow: 4,
        queries: 20,
        fri: vec![3, 3, 4, 2],
    };
    Case { sys, cols: vec![a, b], cons: vec![] }
}

fn fpowi(g: Fe, e: usize) -> Fe {
    rf::fpow(g, e)
}

// ----------------------------------------------------------------------- C04

fn c04(ctx: &Ctx) {
    let one = |rec: &mut Record, case: &Case| {
        let s = &case.sys;
        let made = match ref_prove(s, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        assert!(!made.improper, "reference: improper for {}", s.show());
        let con = constraints(s);
        shape(rec, case);
        rec.sample("system", || s.show());
        match guard(|| prove(&con, &table(&case.cols))) {
            Ok(Ok(p)) => {
                rec.eval(&p.as_bytes());
                rec.events_n("bytes compared", made.bytes.len() as u64);
                let got = p.as_bytes();
                rec.check(got == &made.bytes[..], "proof bytes", || {
                    let at = got.iter().zip(&made.bytes).position(|(a, b)| a != b).unwrap_or(got.len().min(made.bytes.len()));
                    let part = made.parts.iter().find(|x| x.1 <= at && at < x.1 + x.2).map(|x| x.0.clone());
                    format!(
                        "first difference at byte {} in {:?} (lengths {} {}) for {}",
                        at,
                        part,
                        got.len(),
                        made.bytes.len(),
                        s.show()
                    )
                });
            }
            o => rec.violation("prove fails", format!("{:?} on {}", o.map(|r| r.map(|_| ())), s.show())),
        }
        judge(rec, "reference-made", s, &con, &made.bytes);
        rec.event("reference proofs offered");
    };
    ctx.cases("small systems", 4, ctx.n(500, 10000), |rng, _, rec| {
        one(rec, &system(rng, &Opt::small()));
    });
    ctx.cases("medium systems", 4, ctx.n(40, 600), |rng, _, rec| {
        let o = Opt { log_n: (5, 8), degree: 4, max_dom: 1 << 11, cols: 5, pow: 9, queries: 45, ..Opt::small() };
        one(rec, &system(rng, &o));
    });
    ctx.cases("tiny systems, many queries", 4, ctx.n(150, 2000), |rng, _, rec| {
        let o = Opt { queries: 60, ..Opt::tiny() };
        one(rec, &system(rng, &o));
    });
    ctx.cases("many columns", 4, ctx.n(12, 300), |rng, _, rec| {
        let o = Opt { cols: 80, log_n: (1, 4), max_dom: 128, ..Opt::small() };
        one(rec, &system(rng, &o));
    });
    // Larger transforms: the reference prover is quasi-linear
    ctx.cases("large systems", 4, ctx.n(6, 40), |rng, _, rec| {
        let o = Opt { log_n: (9, 11), degree: 2, max_dom: 1 << 13, cols: 2, pow: 8, queries: 30, ..Opt::small() };
        one(rec, &system(rng, &o));
    });
    // Above 65536 points the prover evaluates constraints in chunks
    ctx.cases("chunked evaluation", 2, if ctx.thorough { 12 } else { 2 }, |rng, ix, rec| {
        one(rec, &large(rng, ix));
        rec.event("domain over 65536 points");
    });
}

// ----------------------------------------------------------------------- C02

/// Every single deviation at every step, for one system.
fn attacks(rng: &mut Rng, case: &Case) -> Vec<(&'static str, Faults)> {
    let s = &case.sys;
    let d = Faults::default;
    let mut v: Vec<(&'static str, Faults)> = vec![];
    let h = |rng: &mut Rng| {
        let mut x = [0; 32];
        x.copy_from_slice(&rng.bytes(32));
        for b in &mut x[20..] {
            *b = 0;
        }
        x
    };
    v.push(("honest", d()));
    v.push(("forged trace root", Faults { trace_root: Some(h(rng)), ..d() }));
    v.push(("forged constraint root", Faults { constraint_root: Some(h(rng)), ..d() }));
    for k in 0..s.fri.len() {
        v.push(("forged fri root", Faults { fri_root: Some((k, h(rng))), ..d() }));
        v.push(("unrelated fri layer", Faults { fri_replace: Some(k), ..d() }));
        let alpha = rnz(rng);
        v.push(("wrong folding coefficient", Faults { fri_alpha: Some((k, alpha)), ..d() }));
        for keep in [false, true] {
            let (pos, df) = (rng.below(s.domain()), rnz(rng));
            v.push(("changed fri value", Faults { fri_patch: Some((k, pos, df, keep)), ..d() }));
        }
    }
    let na = s.args().len();
    for _ in 0..2 {
        let (k, df) = (rng.below(na), rnz(rng));
        v.push(("wrong trace value at z", Faults { oods_trace: Some((k, df)), ..d() }));
        let fix = rng.below(s.parts());
        v.push(("wrong trace value at z, equation kept", Faults { oods_trace: Some((k, df)), oods_fix: Some(fix), ..d() }));
        let (k, df) = (rng.below(s.parts()), rnz(rng));
        v.push(("wrong constraint value at z", Faults { oods_constraint: Some((k, df)), ..d() }));
        if s.parts() > 1 {
            let f = (k + 1) % s.parts();
            v.push(("two wrong constraint values at z", Faults { oods_constraint: Some((k, df)), oods_fix: Some(f), ..d() }));
        }
        let (c, p, df) = (rng.below(s.cols), rng.below(s.domain()), rnz(rng));
        v.push(("one changed trace value", Faults { trace_patch: vec![(c, p, df)], ..d() }));
        let (c, p, df) = (rng.below(s.parts()), rng.below(s.domain()), rnz(rng));
        v.push(("one changed constraint value", Faults { constraint_patch: vec![(c, p, df)], ..d() }));
        let (c, df) = (rng.below(s.cols), rnz(rng));
        v.push(("trace of degree n", Faults { trace_extra: Some((c, s.n, df)), ..d() }));
        let deg = rng.range(s.n, s.domain() - 1);
        v.push(("trace of too high degree", Faults { trace_extra: Some((c, deg, df)), ..d() }));
        let c = rng.below(s.parts());
        v.push(("constraint part of degree n", Faults { constraint_extra: Some((c, s.n, df)), ..d() }));
        let (k, df) = (rng.below(64), rnz(rng));
        v.push(("wrong last layer", Faults { last_patch: Some((k, df)), ..d() }));
    }
    v.push(("last layer fitted elsewhere", Faults { last_shift: true, trace_extra: Some((0, s.n, rnz(rng))), ..d() }));
    if s.pow > 0 {
        v.push(("too little work", Faults { nonce: Nonce::Weak, ..d() }));
        v.push(("arbitrary nonce", Faults { nonce: Nonce::Value(rng.u64()), ..d() }));
    }
    v.push(("second nonce", Faults { nonce: Nonce::Second, ..d() }));
    v.push(("queries before proof of work", Faults { stale_queries: true, ..d() }));
    let mut q: Vec<usize> = (0..s.queries).map(|_| rng.below(s.domain())).collect();
    q.sort_unstable();
    v.push(("chosen queries", Faults { forced_queries: Some(q), ..d() }));
    v.push(("non-canonical trace", Faults { alias: "trace", ..d() }));
    v.push(("non-canonical constraint", Faults { alias: "constraint", ..d() }));
    v.push(("non-canonical value at z", Faults { alias: "oods_trace[0]", ..d() }));
    v.push(("non-canonical constraint value at z", Faults { alias: "oods_constraint[0]", ..d() }));
    v.push(("non-canonical last layer", Faults { alias: "last_layer", ..d() }));
    v
}

fn c02(ctx: &Ctx) {
    ctx.cases("protocol deviations", 8, ctx.n(160, 4000), |rng, _, rec| {
        let o = Opt { max_dom: 128, log_n: (1, 4), queries: 10, pow: 5, ..Opt::small() };
        let case = system(rng, &o);
        let con = constraints(&case.sys);
        for (what, f) in attacks(rng, &case) {
            if let Some(m) = ref_prove(&case.sys, &case.cols, &f) {
                let want = ref_verify(&case.sys, &m.bytes);
                rec.event(&format!("attack: {} -> {}", what, want.err().unwrap_or("accepted")));
                judge(rec, what, &case.sys, &con, &m.bytes);
            }
        }
    });
    ctx.cases("protocol deviations, larger", 8, ctx.n(8, 300), |rng, _, rec| {
        let o = Opt { max_dom: 1 << 11, log_n: (4, 8), cols: 12, queries: 50, pow: 9, degree: 3, ..Opt::small() };
        let case = system(rng, &o);
        let con = constraints(&case.sys);
        let mut all = attacks(rng, &case);
        // The reference prover is slow here: some of them
        rng.shuffle(&mut all);
        all.truncate(24);
        for (what, f) in all {
            if let Some(m) = ref_prove(&case.sys, &case.cols, &f) {
                let want = ref_verify(&case.sys, &m.bytes);
                rec.event(&format!("attack: {} -> {}", what, want.err().unwrap_or("accepted")));
                judge(rec, what, &case.sys, &con, &m.bytes);
            }
        }
    });
    // A trace violating one constraint at one row, everything else as honest
    // as it can be
    ctx.cases("violating traces", 8, ctx.n(220, 5000), |rng, _, rec| {
        let o = Opt { max_dom: 256, log_n: (1, 4), queries: 10, pow: 3, ..Opt::small() };
        let case = system(rng, &o);
        let con = constraints(&case.sys);
        for _ in 0..4 {
            let mut cols = case.cols.clone();
            let (c, r) = (rng.below(case.sys.cols), rng.below(case.sys.n));
            cols[c][r] = cols[c][r].add(rnz(rng));
            let bad = violated(&case, &cols);
            let f = Faults::default();
            let m = match ref_prove(&case.sys, &cols, &f) {
                Some(m) => m,
                None => continue,
            };
            // The quotient is a polynomial of the right degree iff no row is violated.
            if m.improper == bad.is_empty() {
                rec.event("oracles differ (double root)");
                continue;
            }
            rec.event(if bad.is_empty() { "trace still satisfying" } else { "violating trace" });
            judge(rec, "violating trace", &case.sys, &con, &m.bytes);
            if !bad.is_empty() {
                // The forger also fixes the out of domain equation
                let i = rng.below(case.sys.parts());
                if let Some(m) = ref_prove(&case.sys, &cols, &Faults { oods_fix: Some(i), ..f }) {
                    judge(rec, "violating trace, equation forged", &case.sys, &con, &m.bytes);
                }
                // The repository's prover must not produce an acceptable proof
                let t = table(&cols);
                let r = guard(|| prove(&con, &t));
                rec.check(!matches!(r, Ok(Ok(_))), "prover returned a proof for a false statement", || {
                    format!("{:?} {}", bad, case.sys.show())
                });
                rec.event("false statement refused by prove");
            }
        }
    });
    // Proof of one statement used for another
    ctx.cases("other statements", 8, ctx.n(200, 4000), |rng, _, rec| {
        let o = Opt { max_dom: 128, log_n: (1, 4), queries: 8, pow: 4, ..Opt::small() };
        let case = system(rng, &o);
        let m = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        for _ in 0..6 {
            let mut s = case.sys.clone();
            let what = match rng.below(9) {
                0 => {
                    if s.seed.is_empty() {
                        s.seed.push(0);
                    } else {
                        let i = rng.below(s.seed.len());
                        s.seed[i] ^= 1 << rng.below(8);
                    }
                    "other seed"
                }
                1 => {
                    s.seed.push(0);
                    "longer seed"
                }
                2 => {
                    s.pow = rng.below(8);
                    "other difficulty"
                }
                3 => {
                    s.queries = rng.range(1, 10);
                    "other query count"
                }
                4 => {
                    s.fri = fri_layout(rng, s.n.trailing_zeros() as usize);
                    "other layout"
                }
                5 => {
                    let k = rng.below(s.cons.len());
                    s.cons.swap(0, k);
                    "constraints reordered"
                }
                6 => {
                    let k = rng.below(s.cons.len());
                    s.cons[k] = tweak(rng, &s.cons[k]);
                    "changed constant"
                }
                7 => {
                    if s.claims.is_empty() {
                        continue;
                    }
                    let k = rng.below(s.claims.len());
                    let j = rng.below(s.claims[k].len());
                    // Keep the degree within the declared bound
                    if s.claims[k][j].is_zero() {
                        continue;
                    }
                    s.claims[k][j] = s.claims[k][j].add(rnz(rng));
                    "changed claim"
                }
                _ => {
                    let mut t = s.clone();
                    params(rng, &mut t, &o);
                    s = t;
                    "other parameters"
                }
            };
            rec.event(what);
            judge(rec, what, &s, &constraints(&s), &m.bytes);
        }
    });
    mutations(ctx);
    // Column and row order in the proof
    ctx.cases("swapped parts", 8, ctx.n(80, 2000), |rng, _, rec| {
        let case = system(rng, &Opt::tiny());
        let con = constraints(&case.sys);
        let m = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        for _ in 0..20 {
            let mut b = m.bytes.clone();
            let (x, y) = (rng.pick(&m.parts).clone(), rng.pick(&m.parts).clone());
            if x.2 != y.2 || x.1 == y.1 {
                continue;
            }
            for i in 0..x.2 {
                b.swap(x.1 + i, y.1 + i);
            }
            judge(rec, "swapped parts", &case.sys, &con, &b);
        }
        // Conflicting copies of a repeated query
        for w in m.queries.windows(2).enumerate().filter(|(_, w)| w[0] == w[1]) {
            for name in ["trace_row", "constraint_row"] {
                for off in 0..2 {
                    let (at, len) = m.part(&format!("{}[{}]", name, w.0 + off)).unwrap();
                    let mut b = m.bytes.clone();
                    let i = at + 8 + rng.below(len - 8) / 32 * 32;
                    b[i.min(at + len - 1)] ^= 1;
                    rec.event("conflicting copies of a query");
                    judge(rec, "conflicting copies", &case.sys, &con, &b);
                }
            }
        }
    });
}

/// Changes one constant of an expression.
pub fn tweak(rng: &mut Rng, e: &Ex) -> Ex {
    fn count(e: &Ex) -> usize {
        match e {
            Ex::C(_) => 1,
            Ex::Add(a, b) | Ex::Mul(a, b) => count(a) + count(b),
            Ex::Neg(a) | Ex::Inv(a) | Ex::Exp(a, _) | Ex::Poly(_, a) | Ex::Claim(_, _, a) => count(a),
            _ => 0,
        }
    }
    fn go(e: &Ex, k: &mut isize, df: Fe) -> Ex {
        let mut b = |a: &Ex| Box::new(go(a, k, df));
        match e {
            Ex::C(v) => {
                *k -= 1;
                if *k == -1 {
                    Ex::C(v.add(df))
                } else {
                    e.clone()
                }
            }
            Ex::Add(x, y) => {
                let x = b(x);
                Ex::Add(x, b(y))
            }
            Ex::Mul(x, y) => {
                let x = b(x);
                Ex::Mul(x, b(y))
            }
            Ex::Neg(a) => Ex::Neg(b(a)),
            Ex::Inv(a) => Ex::Inv(b(a)),
            Ex::Exp(a, n) => Ex::Exp(b(a), *n),
            Ex::Poly(p, a) => Ex::Poly(p.clone(), b(a)),
            Ex::Claim(i, n, a) => Ex::Claim(*i, *n, b(a)),
            o => o.clone(),
        }
    }
    let n = count(e);
    if n == 0 {
        return e.clone().add(rf::c(5).div(Ex::X.exp(1)));
    }
    go(e, &mut (rng.below(n) as isize), rfe(rng).mul(Fe::int(2)).add(Fe::int(3)))
}

/// Single byte changes of honest proofs: every byte of small proofs.
fn mutations(ctx: &Ctx) {
    ctx.cases("every byte changed", 8, ctx.n(8, 120), |rng, _, rec| {
        let mut case;
        let mut m;
        loop {
            case = system(rng, &Opt { queries: 3, ..Opt::tiny() });
            m = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
                Some(m) => m,
                None => continue,
            };
            if m.bytes.len() < 2200 {
                break;
            }
        }
        let con = constraints(&case.sys);
        for i in 0..m.bytes.len() {
            let mut b = m.bytes.clone();
            b[i] ^= 1 << rng.below(8);
            judge(rec, "byte changed", &case.sys, &con, &b);
        }
        for (_, _, _) in &m.parts {
            rec.event("parts mutated exhaustively");
        }
    });
    ctx.cases("random changes", 8, ctx.n(60, 2000), |rng, _, rec| {
        let case = system(rng, &Opt { max_dom: 256, ..Opt::small() });
        let con = constraints(&case.sys);
        let m = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        for _ in 0..20 {
            let mut b = m.bytes.clone();
            for _ in 0..rng.range(1, 3) {
                // choose a part first so that small parts are hit as often
                let p = rng.pick(&m.parts);
                let i = p.1 + rng.below(p.2);
                b[i] ^= rng.range(1, 255) as u8;
            }
            judge(rec, "bytes changed", &case.sys, &con, &b);
        }
    });
}

// ----------------------------------------------------------------------- C03

fn c03(ctx: &Ctx) {
    ctx.cases("every truncation", 8, ctx.n(10, 200), |rng, _, rec| {
        let case = system(rng, &Opt { queries: 4, ..Opt::tiny() });
        let con = constraints(&case.sys);
        let m = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        let n = m.bytes.len().min(4000);
        for i in 0..n {
            judge(rec, "truncated", &case.sys, &con, &m.bytes[..i]);
        }
        judge(rec, "truncated by one", &case.sys, &con, &m.bytes[..m.bytes.len() - 1]);
        judge(rec, "complete", &case.sys, &con, &m.bytes);
        rec.events_n("truncation points", n as u64);
    });
    ctx.cases("truncated at part borders", 8, ctx.n(60, 1500), |rng, _, rec| {
        let case = system(rng, &Opt::small());
        let con = constraints(&case.sys);
        let m = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        let step = 1 + m.parts.len() / 40;
        for p in m.parts.iter().step_by(step) {
            judge(rec, "truncated", &case.sys, &con, &m.bytes[..p.1]);
            // A part dropped from the middle
            let mut b = m.bytes.clone();
            b.drain(p.1..p.1 + p.2);
            judge(rec, "part removed", &case.sys, &con, &b);
        }
        for k in [1, 7, 8, 31, 32, 33, 1000] {
            let mut b = m.bytes.clone();
            b.extend(rng.bytes(k));
            judge(rec, "extended", &case.sys, &con, &b);
            let mut b = m.bytes.clone();
            b.extend(vec![0; k]);
            judge(rec, "extended by zeros", &case.sys, &con, &b);
        }
        judge(rec, "doubled", &case.sys, &con, &[&m.bytes[..], &m.bytes[..]].concat());
    });
    ctx.cases("random bytes", 8, ctx.n(500, 20000), |rng, _, rec| {
        let case = system(rng, &Opt { pow: 2, ..Opt::small() });
        let con = constraints(&case.sys);
        for _ in 0..8 {
            let n = match rng.below(4) {
                0 => rng.below(64),
                1 => rng.below(1000),
                _ => rng.below(8000),
            };
            let mut b = rng.bytes(n);
            match rng.below(5) {
                0 => b.iter_mut().for_each(|x| *x = 0),
                1 => b.iter_mut().for_each(|x| *x = 0xff),
                2 => {
                    // elements in range
                    for w in b.chunks_mut(32) {
                        w[0] &= 7;
                    }
                }
                _ => {}
            }
            judge(rec, "random", &case.sys, &con, &b);
        }
    });
    // Valid up to the proof of work (so that the rest is parsed), then garbage
    ctx.cases("valid prefix, hostile rest", 8, ctx.n(150, 4000), |rng, _, rec| {
        let case = system(rng, &Opt { max_dom: 256, ..Opt::small() });
        let con = constraints(&case.sys);
        let m = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        for _ in 0..10 {
            let p = rng.pick(&m.parts);
            let mut b = m.bytes.clone();
            let from = p.1;
            for x in &mut b[from..] {
                *x = match rng.below(3) {
                    0 => 0,
                    1 => 0xff,
                    _ => rng.u64() as u8,
                };
            }
            match rng.below(3) {
                0 => b.truncate(from + rng.below(p.2 + 1)),
                1 => b.extend(rng.bytes(50)),
                _ => {}
            }
            judge(rec, "hostile rest", &case.sys, &con, &b);
            // Non-canonical encoding of each part
            let mut b = m.bytes.clone();
            let p = rng.pick(&m.parts);
            if p.2 >= 32 {
                let k = p.1 + rng.below(p.2 / 32) * 32;
                match rng.below(3) {
                    0 => b[k..k + 32].iter_mut().for_each(|x| *x = 0xff),
                    1 => {
                        let x = rf::alias_bytes(&Fe::ZERO.bytes());
                        b[k..k + 32].copy_from_slice(&x);
                    }
                    _ => {
                        if Fe::from_wire(&b[k..k + 32]).canonical() {
                            let x = rf::alias_bytes(&b[k..k + 32]);
                            b[k..k + 32].copy_from_slice(&x);
                        }
                    }
                }
                judge(rec, "non-canonical", &case.sys, &con, &b);
            }
        }
        for a in ["trace", "constraint", "oods_trace[0]", "oods_constraint[0]", "last_layer"] {
            if let Some(m) = ref_prove(&case.sys, &case.cols, &Faults { alias: a, ..Faults::default() }) {
                judge(rec, "committed non-canonical", &case.sys, &con, &m.bytes);
            }
        }
    });
}

// ----------------------------------------------------------------------- C06

fn pow_case(rng: &mut Rng, pow: usize) -> Case {
    let mut case = system(rng, &Opt { cols: 2, queries: 3, claims: false, ..Opt::tiny() });
    case.sys.pow = pow;
    case
}

fn c06(ctx: &Ctx) {
    // The reference proof has the smallest nonce by exhaustive search; the
    // transcript before it does not depend on the difficulty.
    ctx.cases("smallest nonce", 2, ctx.n(160, 2500), |rng, ix, rec| {
        let threads = [1, 2, 3, 5, 8, 16, 13, 32][(ix % 8) as usize];
        let pow = match rng.below(6) {
            0 => 0,
            1 => rng.range(1, 3),
            _ => rng.range(3, if ctx.thorough { 14 } else { 12 }),
        };
        let case = pow_case(rng, pow);
        let made = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        let con = constraints(&case.sys);
        let t = table(&case.cols);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        let (at, _) = made.part("nonce").unwrap();
        for _ in 0..3 {
            let r = guard(|| pool.install(|| prove(&con, &t)));
            match r {
                Ok(Ok(p)) => {
                    let b = p.as_bytes();
                    let mut w = [0; 8];
                    w.copy_from_slice(&b[at..at + 8]);
                    let nonce = u64::from_be_bytes(w);
                    rec.eval(&(made.challenge, pow, threads));
                    rec.event(&format!("searches with {} threads", threads));
                    rec.event(&format!("difficulty {}", pow));
                    rec.check(nonce == made.nonce && b[..at] == made.bytes[..at], "nonce is not the smallest", || {
                        format!(
                            "nonce {} (work {}), smallest {} for difficulty {} with {} threads; {}",
                            nonce,
                            pow_bits(&made.challenge, nonce),
                            made.nonce,
                            pow,
                            threads,
                            case.sys.show()
                        )
                    });
                }
                o => rec.violation("prove fails", format!("{:?} on {}", o.map(|r| r.map(|_| ())), case.sys.show())),
            }
        }
    });
    // Exact difficulty: nonces with known amount of work
    ctx.cases("forged nonces", 8, ctx.n(300, 6000), |rng, _, rec| {
        let pow = rng.range(1, 12);
        let case = pow_case(rng, pow);
        let con = constraints(&case.sys);
        let base = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        // First nonce of each exact amount of work
        let mut want = vec![];
        for bits in 0..=(pow + 2) {
            if let Some(k) = (0..40000_u64).find(|k| pow_bits(&base.challenge, *k) == bits) {
                want.push((bits, k));
            }
        }
        let hi = rng.u64();
        want.push((pow_bits(&base.challenge, hi), hi));
        // the largest nonces that work
        if let Some(k) = (0..4000_u64).map(|k| u64::MAX - k).find(|k| pow_bits(&base.challenge, *k) >= pow) {
            want.push((pow_bits(&base.challenge, k), k));
        }
        for (bits, k) in want {
            let m = ref_prove(&case.sys, &case.cols, &Faults { nonce: Nonce::Value(k), ..Faults::default() }).unwrap();
            rec.event(&format!("work {} of required {}", if bits >= pow { "at least" } else { "less than" }, "difficulty"));
            if bits + 1 == pow {
                rec.event("one bit short");
            }
            if bits == pow {
                rec.event("exactly enough");
            }
            let ok = ref_verify(&case.sys, &m.bytes).is_ok();
            assert_eq!(ok, bits >= pow);
            judge(rec, "nonce", &case.sys, &con, &m.bytes);
        }
        // Work done for another difficulty does not count
        let mut s = case.sys.clone();
        s.pow = pow + 1;
        judge(rec, "proof for a lower difficulty", &s, &constraints(&s), &base.bytes);
        s.pow = pow - 1;
        judge(rec, "proof for a higher difficulty", &s, &constraints(&s), &base.bytes);
    });
    // Large difficulties
    ctx.cases("high difficulty", 1, ctx.n(3, 20), |rng, ix, rec| {
        let pow = if ctx.thorough { rng.range(15, 20) } else { 15 };
        let case = pow_case(rng, pow);
        let made = match ref_prove(&case.sys, &case.cols, &Faults::default()) {
            Some(m) => m,
            None => return,
        };
        let pool = rayon::ThreadPoolBuilder::new().num_threads(2 + 5 * (ix as usize % 3)).build().unwrap();
        let (con, t): (Constraints, TraceTable) = (constraints(&case.sys), table(&case.cols));
        let p = guard(|| pool.install(|| prove(&con, &t)));
        rec.eval(&(made.challenge, pow));
        match p {
            Ok(Ok(p)) => {
                rec.check(p.as_bytes() == &made.bytes[..], "nonce is not the smallest", || case.sys.show());
                rec.event(&format!("difficulty {}", pow));
            }
            o => rec.violation("prove fails", format!("{:?}", o.map(|r| r.map(|_| ())))),
        }
    });
}
