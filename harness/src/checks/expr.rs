//! C07 constraint checker, C08 algebraic meaning of expressions.
use super::{
    gen::{constraints, dense, rfe, rnz, reshape, substituted, system, table, to_r, violated, Case, Opt},
    Check,
};
use crate::{
    conv::{el, fe},
    mon::{guard, hash_of, Ctx, Record, Rng},
    refs::{
        field::{dft, horner, idft, Fe},
        stark::{c, fpow, poly_degree, Columns, Ex},
    },
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
};
use zkp_primefield::{fft::permute_index, FieldElement};
use zkp_stark::{
    check_constraints, Constraints, DensePolynomial, Provable, RationalExpression as R, TraceTable, Verifiable,
};

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C07",
        run:     c07,
        rule:    "a case is a random constraint system with a trace that has 0..4 corrupted cells; distinct by constraints, trace and the (row, constraint) judged",
        assumes: &["constraints are single fractions with simple zeros in the denominator, as the checker's documentation asks for"],
    });
    v.push(Check {
        id:      "C08",
        run:     c08,
        rule:    "a case is a random expression with a random point and trace assignment, or a random polynomial/table; distinct by expression and point",
        assumes: &["expressions have no pole at the evaluated point"],
    });
}

// ---------------------------------------------------------------------- C07

struct Fixed<'a> {
    constraints: &'a Constraints,
}

impl Verifiable for Fixed<'_> {
    fn constraints(&self) -> Constraints {
        self.constraints.clone()
    }
}

impl Provable<&TraceTable> for Fixed<'_> {
    fn trace(&self, witness: &TraceTable) -> TraceTable {
        witness.clone()
    }
}

fn corrupt(rng: &mut Rng, cols: &Columns) -> Columns {
    let mut out = cols.clone();
    let (m, n) = (cols.len(), cols[0].len());
    let k = *rng.pick(&[0, 1, 1, 1, 1, 2, 4]);
    for _ in 0..k {
        let (j, r) = (rng.below(m), *rng.pick(&[0, n - 1, rng.clone().below(n), rng.clone().below(n)]));
        out[j][r] = match rng.below(4) {
            0 => Fe::ZERO,
            1 => out[j][r].add(Fe::one()),
            2 => out[j][(r + 1) % n],
            _ => rfe(rng),
        };
    }
    out
}

fn judge07(rng: &mut Rng, rec: &mut Record, case: &Case, cols: &Columns) {
    let bad = violated(case, cols);
    let mut cons = constraints(&case.sys);
    cons.substitute();
    let t = table(cols);
    let got = check_constraints(&cons, &t);
    rec.eval(&(case.sys.show(), hash_of(cols), 0_usize));
    let want = bad.first().map_or(Ok(()), |v| Err(*v));
    rec.event(if bad.is_empty() { "trace satisfies" } else { "trace violates" });
    rec.check(got == want, "check_constraints", || {
        format!("reported {:?}, expected {:?} (all violations {:?}) for {}", got, want, bad, case.sys.show())
    });
    let fixed = Fixed { constraints: &cons };
    let whole = fixed.check(&t);
    rec.check(whole == want, "Provable::check", || format!("reported {:?}, expected {:?} for {}", whole, want, case.sys.show()));
    let n = case.sys.n;
    for r in 0..n {
        for k in 0..case.cons.len() {
            // All of them for small systems, else a sample and all the violated ones.
            let is_bad = bad.contains(&(r, k));
            if n * case.cons.len() > 60 && !is_bad && !rng.chance(1, 4) {
                continue;
            }
            let got = fixed.check_specified(&t, r, k).is_ok();
            rec.eval(&(case.sys.show(), hash_of(cols), 1 + r, k));
            rec.event(if is_bad { "single cell check: violated" } else { "single cell check: fine" });
            rec.check(got != is_bad, "check_specified", || {
                format!(
                    "row {} constraint {}: checker says {}, expected {} for {}",
                    r,
                    k,
                    if got { "holds" } else { "violated" },
                    if is_bad { "violated" } else { "holds" },
                    case.sys.show()
                )
            });
        }
    }
}

fn c07(ctx: &Ctx) {
    for (name, inv, count) in [("polynomial", false, ctx.n(900, 30_000)), ("inverses", true, ctx.n(600, 20_000))] {
        ctx.cases(&format!("check/{}", name), 8, count, |rng, _, rec| {
            let mut o = Opt::small();
            o.inv = inv;
            o.log_n = (1, if rng.chance(1, 6) { 6 } else { 3 });
            let case = system(rng, &o);
            for v in 0..4 {
                let cols = if v == 0 { case.cols.clone() } else { corrupt(rng, &case.cols) };
                judge07(rng, rec, &case, &cols);
            }
            rec.sample("system", || case.sys.show());
        });
    }
    // Every cell of small tables, one at a time
    ctx.cases("every-cell", 8, ctx.n(150, 4_000), |rng, _, rec| {
        let mut o = Opt::tiny();
        o.inv = rng.chance(1, 3);
        let case = system(rng, &o);
        for j in 0..case.sys.cols {
            for r in 0..case.sys.n {
                let mut cols = case.cols.clone();
                cols[j][r] = cols[j][r].add(rnz(rng));
                judge07(rng, rec, &case, &cols);
                rec.event("single corrupted cell");
            }
        }
    });
    // The value returned by check is that of the function
    ctx.cases("value", 8, ctx.n(4_000, 200_000), |rng, _, rec| {
        let e = { let d = rng.range(1, 5); wild(rng, d, 0) };
        let (x, asg) = point(rng, &e);
        let want = e.eval(x, &asg.get(), &[]);
        let r = to_r(&e);
        let (v, ok) = r.check(&el(x), &|i, j| el(asg.at(i, j)));
        rec.eval(&(e.show(), x.0));
        match want {
            Some(w) => {
                rec.event("regular point");
                rec.check(ok && fe(&v) == w, "RationalExpression::check", || {
                    format!("check = ({:?}, {}), value is {:x?} for {}", v, ok, w.0, e.show())
                });
            }
            None => rec.event("singular point, not judged"),
        }
    });
}

// ---------------------------------------------------------------------- C08

/// Random expression using every node type.
fn wild(rng: &mut Rng, depth: usize, claims: usize) -> Ex {
    if depth == 0 || rng.chance(1, 8) {
        return match rng.below(6) {
            0 => Ex::X,
            1 => Ex::C(rfe(rng)),
            2 => c(rng.below(4) as u64),
            _ => Ex::T(rng.below(4), rng.below(9) as isize - 4),
        };
    }
    match rng.below(10 + usize::from(claims > 0)) {
        0 | 1 => wild(rng, depth - 1, claims).add(wild(rng, depth - 1, claims)),
        2 => wild(rng, depth - 1, claims).sub(wild(rng, depth - 1, claims)),
        3 | 4 => wild(rng, depth - 1, claims).mul(wild(rng, depth - 1, claims)),
        5 => wild(rng, depth - 1, claims).neg(),
        6 => wild(rng, depth - 1, claims).inv(),
        7 => {
            let e = *rng.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 16, 33]);
            wild(rng, depth - 1, claims).exp(e)
        }
        8 => wild(rng, depth - 1, claims).div(wild(rng, depth - 1, claims)),
        9 => Ex::Poly(rpoly(rng, 4), Box::new(wild(rng, depth - 1, claims))),
        _ => Ex::Claim(rng.below(claims), 16, Box::new(wild(rng, depth - 1, claims))),
    }
}

/// Power-of-two length, with leading zeros often.
fn rpoly(rng: &mut Rng, max_log: usize) -> Vec<Fe> {
    let n = 1_usize << rng.below(max_log + 1);
    let top = rng.below(n + 1);
    (0..n).map(|i| if i < top { rfe(rng) } else { Fe::ZERO }).collect()
}

pub struct Assign(BTreeMap<(usize, isize), Fe>);

impl Assign {
    fn at(&self, i: usize, j: isize) -> Fe {
        self.0[&(i, j)]
    }

    fn get(&self) -> impl Fn(usize, isize) -> Fe + '_ {
        move |i, j| self.0[&(i, j)]
    }
}

fn point(rng: &mut Rng, e: &Ex) -> (Fe, Assign) {
    let mut s = BTreeSet::new();
    e.args(&mut s);
    (rfe(rng), Assign(s.into_iter().map(|a| (a, rfe(rng))).collect()))
}

// Formal fractions, without cancellation.
type P = Vec<Fe>;

fn padd(a: &P, b: &P) -> P {
    (0..a.len().max(b.len()))
        .map(|i| a.get(i).copied().unwrap_or(Fe::ZERO).add(b.get(i).copied().unwrap_or(Fe::ZERO)))
        .collect()
}

fn pmul(a: &P, b: &P) -> P {
    let mut r = vec![Fe::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if x.is_zero() {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j].add(x.mul(*y));
        }
    }
    trim(r)
}

fn trim(mut a: P) -> P {
    let d = poly_degree(&a);
    a.truncate(d + 1);
    a
}

fn ppow(a: &P, e: usize) -> P {
    (0..e).fold(vec![Fe::one()], |r, _| pmul(&r, a))
}

fn formal(e: &Ex, t: &dyn Fn(usize, isize) -> P) -> (P, P) {
    let one = || vec![Fe::one()];
    match e {
        Ex::X => (vec![Fe::ZERO, Fe::one()], one()),
        Ex::C(v) => (vec![*v], one()),
        Ex::T(i, j) => (t(*i, *j), one()),
        Ex::Poly(p, a) => {
            let (n, d) = formal(a, t);
            let k = poly_degree(p);
            let num = (0..=k).fold(vec![Fe::ZERO], |r, i| {
                padd(&r, &pmul(&vec![p[i]], &pmul(&ppow(&n, i), &ppow(&d, k - i))))
            });
            (trim(num), ppow(&d, k))
        }
        Ex::Claim(..) => unreachable!(),
        Ex::Add(a, b) => {
            let ((an, ad), (bn, bd)) = (formal(a, t), formal(b, t));
            (trim(padd(&pmul(&an, &bd), &pmul(&bn, &ad))), pmul(&ad, &bd))
        }
        Ex::Neg(a) => {
            let (n, d) = formal(a, t);
            (n.iter().map(|v| v.neg()).collect(), d)
        }
        Ex::Mul(a, b) => {
            let ((an, ad), (bn, bd)) = (formal(a, t), formal(b, t));
            (pmul(&an, &bn), pmul(&ad, &bd))
        }
        Ex::Inv(a) => {
            let (n, d) = formal(a, t);
            (d, n)
        }
        Ex::Exp(a, e) => {
            let (n, d) = formal(a, t);
            (ppow(&n, *e), ppow(&d, *e))
        }
    }
}

/// Upper bound on the work of `formal`.
fn weight(e: &Ex, td: usize) -> usize {
    match e {
        Ex::X => 1,
        Ex::C(_) => 0,
        Ex::T(..) => td,
        Ex::Poly(p, a) => poly_degree(p) * weight(a, td),
        Ex::Claim(_, k, a) => k * weight(a, td),
        Ex::Add(a, b) | Ex::Mul(a, b) => weight(a, td) + weight(b, td),
        Ex::Neg(a) | Ex::Inv(a) => weight(a, td),
        Ex::Exp(a, k) => k * weight(a, td),
    }
}

/// Substitution of leaves, as `map` is used for.
fn subst(e: &Ex, f: &dyn Fn(&Ex) -> Ex) -> Ex {
    let b = |a: &Ex| Box::new(subst(a, f));
    match e {
        Ex::Poly(p, a) => Ex::Poly(p.clone(), b(a)),
        Ex::Claim(i, k, a) => Ex::Claim(*i, *k, b(a)),
        Ex::Add(x, y) => Ex::Add(b(x), b(y)),
        Ex::Mul(x, y) => Ex::Mul(b(x), b(y)),
        Ex::Neg(a) => Ex::Neg(b(a)),
        Ex::Inv(a) => Ex::Inv(b(a)),
        Ex::Exp(a, n) => Ex::Exp(b(a), *n),
        o => f(o),
    }
}

fn nodes(e: &Ex) -> usize {
    1 + match e {
        Ex::X | Ex::C(_) | Ex::T(..) => 0,
        Ex::Poly(_, a) | Ex::Claim(_, _, a) | Ex::Neg(a) | Ex::Inv(a) | Ex::Exp(a, _) => nodes(a),
        Ex::Add(a, b) | Ex::Mul(a, b) => nodes(a) + nodes(b),
    }
}

/// The same expression, made with the library's operators.
fn build(e: &Ex) -> R {
    match e {
        Ex::Add(a, b) => match (&**a, &**b) {
            (_, Ex::Neg(b)) => match &**b {
                Ex::C(v) => build(a) - &el(*v),
                b => build(a) - build(b),
            },
            (_, Ex::C(v)) => build(a) + el(*v),
            _ => build(a) + build(b),
        },
        Ex::Mul(a, b) => match (&**a, &**b) {
            (_, Ex::Inv(b)) => build(a) / build(b),
            (_, Ex::C(v)) if *v == Fe::int(2) => build(a) * 2,
            _ => build(a) * build(b),
        },
        Ex::Neg(a) => build(a).neg(),
        Ex::Inv(a) => build(a).inv(),
        Ex::Exp(a, n) => build(a).pow(*n),
        Ex::Poly(p, a) => R::Polynomial(dense(p), Box::new(build(a))),
        o => to_r(o),
    }
}

fn expression(rng: &mut Rng, rec: &mut Record) {
    let claims: Vec<Vec<Fe>> = (0..2).map(|_| rpoly(rng, 4)).collect();
    let e = { let d = rng.range(1, 6); wild(rng, d, 2) };
    let e0 = substituted(&e, &claims);
    let (x, asg) = point(rng, &e0);
    let dc: Vec<DensePolynomial> = claims.iter().map(|p| dense(p)).collect();
    let r = to_r(&e).substitute_claim(&dc);
    let show = e.show();
    let mut args = BTreeSet::new();
    e0.args(&mut args);
    rec.check(r.trace_arguments() == args, "trace_arguments", || show.clone());
    let want = match e0.eval(x, &asg.get(), &[]) {
        Some(w) => w,
        None => {
            rec.event("pole, not judged");
            return;
        }
    };
    let t = |i: usize, j: isize| el(asg.at(i, j));
    let ev = |r: &R| fe(&r.evaluate(&el(x), &t));
    rec.eval(&(&show, x.0));
    rec.event("expression evaluated");
    rec.sample("expression", || show.clone());
    let got = ev(&r);
    rec.check(got == want, "evaluate", || format!("{:x?} instead of {:x?} for {}", got.0, want.0, show));
    let got = ev(&build(&e0));
    rec.check(got == want, "operators", || format!("{:x?} instead of {:x?} for {}", got.0, want.0, show));
    // Sum
    let e2 = { let d = rng.range(0, 2); wild(rng, d, 0) };
    if e2.eval(x, &|_, _| Fe::int(77), &[]).is_some() {
        let parts: Vec<R> = vec![r.clone(), R::from(-5), R::from(el(x)), r.clone()];
        let k = rng.below(5);
        let s: R = parts.iter().take(k).cloned().sum();
        let w = [want, Fe::int(5).neg(), x, want].iter().take(k).fold(Fe::ZERO, |a, b| a.add(*b));
        rec.check(ev(&s) == w, "Sum", || format!("sum of {} parts of {}", k, show));
    }
    // map: identity, and replacement of leaves
    let seen = RefCell::new(0_usize);
    let same = r.map(&|n| {
        *seen.borrow_mut() += 1;
        n
    });
    rec.check(ev(&same) == want, "map identity", || show.clone());
    rec.check(*seen.borrow() == nodes(&e0), "map visits every node once", || {
        format!("{} visits for {} nodes of {}", seen.borrow(), nodes(&e0), show)
    });
    let (dc, dr) = (rng.below(3), rng.below(7) as isize - 3);
    let k = rnz(rng);
    let pw = rng.range(1, 4);
    let mapped = r.map(&|n| match n {
        R::Trace(i, j) => R::Trace(i + dc, j + dr),
        R::X => R::X.pow(pw) * R::Constant(el(k)),
        o => o,
    });
    let e1 = subst(&e0, &|n| match n {
        Ex::T(i, j) => Ex::T(i + dc, j + dr),
        Ex::X => Ex::X.exp(pw).mul(Ex::C(k)),
        o => o.clone(),
    });
    let (x1, a1) = point(rng, &e1);
    if let Some(w) = e1.eval(x1, &a1.get(), &[]) {
        let g = fe(&mapped.evaluate(&el(x1), &|i, j| el(a1.at(i, j))));
        rec.event("mapped expression evaluated");
        rec.check(g == w, "map", || format!("X -> k X^{}, columns +{}, offsets +{}: {}", pw, dc, dr, show));
    }
    // Extrinsic equality
    if weight(&e0, 1) < 4000 {
        let other = reshape(rng, e0.clone(), 3);
        // Poles at a random point have negligible probability, unless identical.
        let eq = guard(|| r.equals(&to_r(&other)));
        match eq {
            Ok(v) => {
                rec.event("equal expressions compared");
                rec.check(v, "equals rejects equal expressions", || format!("{} and {}", show, other.show()));
                rec.check(to_r(&other).equals(&r), "equals rejects equal expressions", || format!("{} and {}", show, other.show()));
            }
            Err(_) => rec.event("identical pole, not judged"),
        }
        let y = e0.clone();
        let different = match rng.below(4) {
            0 => y.add(c(1)),
            1 => y.add(Ex::X),
            2 => y.sub(Ex::T(7, 1)),
            _ => y.add(Ex::X.exp(17)),
        };
        if let Ok(v) = guard(|| r.equals(&to_r(&different))) {
            rec.event("different expressions compared");
            rec.check(!v, "equals accepts different expressions", || format!("{} and {}", show, different.show()));
        }
    }
}

fn degrees(rng: &mut Rng, rec: &mut Record) {
    let e = { let d = rng.range(1, 5); wild(rng, d, 0) };
    let td = rng.range(0, 4);
    if weight(&e, td.max(1)) > 250 {
        rec.event("degree: too large, skipped");
        return;
    }
    let mut polys: BTreeMap<(usize, isize), P> = BTreeMap::new();
    let mut s = BTreeSet::new();
    e.args(&mut s);
    for a in s {
        polys.insert(a, (0..=td).map(|_| rnz(rng).add(Fe::int(3))).collect());
    }
    let (n, d) = formal(&e, &|i, j| trim(polys[&(i, j)].clone()));
    let (gn, gd) = to_r(&e).degree(td);
    rec.eval(&(e.show(), td, "degree"));
    rec.event("degree bound judged");
    rec.check(gn >= poly_degree(&n) && gd >= poly_degree(&d), "degree is no upper bound", || {
        format!("reported ({}, {}), actual ({}, {}) with trace degree {} for {}", gn, gd, poly_degree(&n), poly_degree(&d), td, e.show())
    });
    // Trace degree: the same with X counted as a constant
    let xv = rnz(rng);
    let f = subst(&e, &|n| match n {
        Ex::X => Ex::C(xv),
        Ex::T(i, j) => Ex::T(*i, *j),
        o => o.clone(),
    });
    let lin: BTreeMap<(usize, isize), P> = polys.keys().map(|k| (*k, vec![rnz(rng), rnz(rng)])).collect();
    let (n, d) = formal(&f, &|i, j| lin[&(i, j)].clone());
    let (gn, gd) = to_r(&e).trace_degree();
    rec.check(gn >= poly_degree(&n) && gd >= poly_degree(&d), "trace_degree is no upper bound", || {
        format!("reported ({}, {}), actual ({}, {}) for {}", gn, gd, poly_degree(&n), poly_degree(&d), e.show())
    });
}

fn combination(rng: &mut Rng, rec: &mut Record) {
    let case = system(rng, &Opt::small());
    let mut cons = constraints(&case.sys);
    cons.substitute();
    let mut s0 = case.sys.clone();
    s0.cons = s0.cons.iter().map(|e| substituted(e, &case.sys.claims)).collect();
    // Substitution may only lower degrees; the bounds of the substituted
    // expressions are what combine works with.
    let coef: Vec<Fe> = (0..2 * s0.cons.len()).map(|_| rfe(rng)).collect();
    let (d, a) = (cons.degree(), cons.trace_arguments());
    rec.check(d == s0.degree(), "Constraints::degree", || format!("{} instead of {} for {}", d, s0.degree(), s0.show()));
    rec.check(a == s0.args(), "Constraints::trace_arguments", || s0.show());
    rec.check(cons.len() == s0.cons.len() && cons.expressions().len() == s0.cons.len() && cons.is_empty() == s0.cons.is_empty(), "Constraints::len", || s0.show());
    let r = cons.combine(&coef.iter().map(|v| el(*v)).collect::<Vec<_>>());
    for _ in 0..3 {
        let x = rfe(rng);
        let asg = Assign(a.iter().map(|k| (*k, rfe(rng))).collect());
        rec.eval(&(s0.show(), x.0, "combine"));
        let want = s0.combined(&coef, x, &asg.get());
        if let Some(want) = want {
            let got = fe(&r.evaluate(&el(x), &|i, j| el(asg.at(i, j))));
            rec.event("combined constraint evaluated");
            rec.check(got == want, "combine", || format!("at {:x?} for {}", x.0, s0.show()));
        }
    }
    rec.check(
        cons.trace_nrows() == s0.n && cons.trace_ncolumns() == s0.cols && cons.channel_seed() == &s0.seed[..],
        "Constraints accessors",
        || s0.show(),
    );
}

fn lengths(rng: &mut Rng, rec: &mut Record) {
    let n = match rng.below(4) {
        0 => rng.below(300),
        1 => 1_usize << rng.below(40),
        2 => (1_usize << rng.below(30)) * *rng.pick(&[3, 5, 7, 35, 15]),
        _ => (1_usize << rng.range(1, 30)) + rng.below(3) - 1,
    };
    let e = || vec![R::Trace(0, 0) / (R::X - 1)];
    let a = Constraints::from_expressions((n, 1), vec![], e());
    let (b, p, q, f) = (1_usize << rng.below(7), rng.below(30), rng.below(60), vec![rng.range(1, 4); rng.below(4)]);
    let mask = rng.below(16);
    let d = Constraints::from_expressions_detailed(
        (n, 1),
        vec![1],
        e(),
        if mask & 1 > 0 { Some(b) } else { None },
        if mask & 2 > 0 { Some(p) } else { None },
        if mask & 4 > 0 { Some(q) } else { None },
        if mask & 8 > 0 { Some(f.clone()) } else { None },
    );
    rec.eval(&("length", n, mask));
    let ok = n.is_power_of_two();
    rec.event(if ok { "power-of-two length" } else { "other length" });
    rec.check(a.is_ok() == ok && d.is_ok() == ok, "trace length validation", || {
        format!("length {}: from_expressions ok={}, detailed ok={}", n, a.is_ok(), d.is_ok())
    });
    if let (Ok(a), Ok(d)) = (a, d) {
        rec.check(!a.is_empty() && !d.is_empty(), "Constraints::is_empty", || "one constraint".into());
        let none = Constraints::from_expressions((n, 1), vec![], vec![]).unwrap();
        rec.check(none.is_empty() && none.len() == 0, "Constraints::is_empty", || "no constraint".into());
        rec.check(
            (mask & 1 == 0 || d.blowup == b)
                && (mask & 2 == 0 || d.pow_bits == p)
                && (mask & 4 == 0 || d.num_queries == q)
                && (mask & 8 == 0 || d.fri_layout == f),
            "detailed parameters",
            || format!("mask {}: {:?}", mask, (d.blowup, d.pow_bits, d.num_queries, &d.fri_layout)),
        );
        // Defaults must be usable: the layout folds within the trace length
        let log = n.trailing_zeros() as usize;
        for k in [&a, &d] {
            let l = &k.fri_layout;
            rec.check(
                mask & 8 != 0 && std::ptr::eq(k, &d)
                    || (l.iter().sum::<usize>() <= log && l.iter().all(|v| (1..=4).contains(v)) && (log == 0 || !l.is_empty())),
                "default FRI layout",
                || format!("length {}: {:?}", n, l),
            );
        }
    }
}

fn polynomial(rng: &mut Rng, rec: &mut Record) {
    let p = rpoly(rng, 8);
    let d = dense(&p);
    let x = rfe(rng);
    rec.eval(&(p.len(), poly_degree(&p), x.0));
    rec.event("polynomial");
    rec.check(d.len() == p.len() && !d.is_empty(), "DensePolynomial::len", || format!("{}", d.len()));
    rec.check(d.degree() == poly_degree(&p), "DensePolynomial::degree", || format!("{} instead of {}", d.degree(), poly_degree(&p)));
    rec.check(fe(&d.evaluate(&el(x))) == horner(&p, x), "DensePolynomial::evaluate", || format!("length {}", p.len()));
    let co: Vec<Fe> = d.coefficients().iter().map(fe).collect();
    rec.check(co == p, "DensePolynomial::coefficients", || format!("length {}", p.len()));
    let z = DensePolynomial::zeros(p.len());
    rec.check(z.coefficients().iter().all(|v| fe(v).is_zero()) && z.len() == p.len(), "DensePolynomial::zeros", || format!("{}", p.len()));
    // Equality is that of polynomials
    let mut longer = p.clone();
    longer.resize(p.len() * 2, Fe::ZERO);
    rec.check(dense(&longer) == d, "DensePolynomial equality with padding", || format!("length {}", p.len()));
    let mut q = p.clone();
    let i = rng.below(q.len());
    q[i] = q[i].add(rnz(rng));
    rec.check(dense(&q) != d, "DensePolynomial inequality", || format!("length {} coefficient {}", p.len(), i));
    // target += c (P(X) - P(z)) / (X - z)
    let (z, k) = (rfe(rng), rfe(rng));
    let t0: Vec<Fe> = p.iter().map(|_| rfe(rng)).collect();
    let mut t = dense(&t0);
    d.divide_out_point_into(&el(z), &el(k), &mut t);
    let mut want = t0;
    let mut acc = Fe::ZERO;
    for i in (0..p.len()).rev() {
        // coefficient i of the quotient is the Horner state of the coefficients above i
        want[i] = want[i].add(k.mul(acc));
        acc = acc.mul(z).add(p[i]);
    }
    let got: Vec<Fe> = t.coefficients().iter().map(fe).collect();
    rec.check(got == want, "divide_out_point_into", || format!("length {}", p.len()));
    // Low degree extension: bit-reversed evaluations on the coset 3 <w>
    let b = 1_usize << rng.below(5);
    let n = p.len() * b;
    let lde = d.low_degree_extension(b);
    let w = Fe::root(n);
    rec.check(lde.len() == n, "low_degree_extension length", || format!("{} instead of {}", lde.len(), n));
    if lde.len() == n {
        for _ in 0..8 {
            let i = rng.below(n);
            let x = Fe::int(3).mul(fpow(w, permute_index(n, i)));
            rec.check(fe(&lde[i]) == horner(&p, x), "low_degree_extension", || format!("length {} blowup {} index {}", p.len(), b, i));
        }
    }
}

fn tables(rng: &mut Rng, rec: &mut Record) {
    let n = 1_usize << rng.below(8);
    let m = rng.range(1, 6);
    let cols: Columns = (0..m).map(|_| (0..n).map(|_| rfe(rng)).collect()).collect();
    let mut t = TraceTable::new(n, m);
    rec.eval(&("table", n, m, hash_of(&cols)));
    rec.event("table");
    rec.check((0..n).all(|r| t[r].iter().all(|v| fe(v).is_zero())), "TraceTable::new is zero", || format!("{}x{}", n, m));
    let mut cells: Vec<(usize, usize)> = (0..n).flat_map(|r| (0..m).map(move |j| (r, j))).collect();
    rng.shuffle(&mut cells);
    for (r, j) in cells {
        if rng.chance(1, 2) {
            t[(r, j)] = el(cols[j][r]);
        } else {
            t[r][j] = el(cols[j][r]);
        }
    }
    let mut ok = t.num_rows() == n && t.num_columns() == m && fe(&t.generator()) == Fe::root(n);
    for r in 0..n {
        ok &= t.iter_row(r).map(fe).eq(cols.iter().map(|k| k[r]));
        ok &= t[r].len() == m && (0..m).all(|j| fe(&t[r][j]) == cols[j][r] && fe(&t[(r, j)]) == cols[j][r]);
    }
    for (j, col) in cols.iter().enumerate() {
        ok &= t.iter_column(j).map(fe).eq(col.iter().copied());
        ok &= t.column_to_mmapvec(j).iter().map(fe).eq(col.iter().copied());
    }
    rec.check(ok, "TraceTable accessors", || format!("{}x{}", n, m));
    let polys = t.interpolate();
    rec.check(polys.len() == m, "interpolate count", || format!("{}", polys.len()));
    for (p, col) in polys.iter().zip(&cols) {
        let got: Vec<Fe> = p.coefficients().iter().map(fe).collect();
        let want = idft(col, Fe::root(n));
        debug_assert_eq!(dft(&want, Fe::root(n)), *col);
        rec.check(got == want, "interpolate", || format!("{}x{}", n, m));
    }
    for bad in [(n, 0), (0, m), (n + 3, m + 3)] {
        let r = guard(|| t[bad].clone());
        rec.check(r.is_err(), "out-of-range cell", || format!("{:?} of {}x{}", bad, n, m));
        let r = guard(|| t[bad] = el(Fe::int(5)));
        rec.check(r.is_err(), "write to an out-of-range cell", || format!("{:?} of {}x{}", bad, n, m));
    }
    let same = (0..n).all(|r| (0..m).all(|j| fe(&t[(r, j)]) == cols[j][r]));
    rec.check(same, "refused write changed the table", || format!("{}x{}", n, m));
    let _: FieldElement = t.generator();
}

fn c08(ctx: &Ctx) {
    ctx.cases("expressions", 8, ctx.n(8_000, 400_000), |rng, _, rec| expression(rng, rec));
    ctx.cases("degrees", 8, ctx.n(8_000, 300_000), |rng, _, rec| degrees(rng, rec));
    ctx.cases("combine", 8, ctx.n(600, 20_000), |rng, _, rec| combination(rng, rec));
    ctx.cases("lengths", 8, ctx.n(2_000, 20_000), |rng, _, rec| lengths(rng, rec));
    ctx.cases("polynomials", 8, ctx.n(1_000, 30_000), |rng, _, rec| polynomial(rng, rec));
    ctx.cases("tables", 8, ctx.n(400, 10_000), |rng, _, rec| tables(rng, rec));
}
