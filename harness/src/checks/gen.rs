//! Random satisfiable constraint systems with satisfying traces.
use crate::{
    conv::{el, fe},
    mon::Rng,
    refs::{
        field::{idft, Fe},
        stark::{c, fpow, Columns, Ex, System},
    },
};
use zkp_primefield::FieldElement;
use zkp_stark::{Constraints, DensePolynomial, RationalExpression as R, TraceTable};

// -------------------------------------------------------------- conversions

pub fn dense(p: &[Fe]) -> DensePolynomial {
    DensePolynomial::new(&p.iter().map(|v| el(*v)).collect::<Vec<_>>())
}

pub fn to_r(e: &Ex) -> R {
    match e {
        Ex::X => R::X,
        Ex::C(v) => R::Constant(el(*v)),
        Ex::T(a, b) => R::Trace(*a, *b),
        Ex::Poly(p, a) => R::Polynomial(dense(p), Box::new(to_r(a))),
        Ex::Claim(i, k, a) => R::ClaimPolynomial(*i, *k, Box::new(to_r(a)), None),
        Ex::Add(a, b) => R::Add(Box::new(to_r(a)), Box::new(to_r(b))),
        Ex::Neg(a) => R::Neg(Box::new(to_r(a))),
        Ex::Mul(a, b) => R::Mul(Box::new(to_r(a)), Box::new(to_r(b))),
        Ex::Inv(a) => R::Inv(Box::new(to_r(a))),
        Ex::Exp(a, n) => R::Exp(Box::new(to_r(a)), *n),
    }
}

pub fn constraints(s: &System) -> Constraints {
    let mut r =
        Constraints::from_expressions((s.n, s.cols), s.seed.clone(), s.cons.iter().map(to_r).collect()).expect("valid size");
    r.blowup = s.blowup;
    r.pow_bits = s.pow;
    r.num_queries = s.queries;
    r.fri_layout = s.fri.clone();
    if !s.claims.is_empty() {
        r.add_claim_polynomials(s.claims.iter().map(|p| dense(p)).collect());
    }
    r
}

pub fn table(cols: &Columns) -> TraceTable {
    let mut t = TraceTable::new(cols[0].len(), cols.len());
    for (j, col) in cols.iter().enumerate() {
        for (i, v) in col.iter().enumerate() {
            t[(i, j)] = el(*v);
        }
    }
    t
}

#[allow(dead_code)]
pub fn columns(t: &TraceTable) -> Columns {
    (0..t.num_columns())
        .map(|j| (0..t.num_rows()).map(|i| fe(&t[(i, j)])).collect())
        .collect()
}

pub fn rfe(rng: &mut Rng) -> Fe {
    match rng.below(12) {
        0 => Fe::ZERO,
        1 => Fe::one(),
        2 => Fe::one().neg(),
        3 => Fe::int(rng.below(100) as u64),
        _ => fe(&FieldElement::from(crate::conv::u([rng.u64(), rng.u64(), rng.u64(), rng.u64() >> 6]))),
    }
}

pub fn rnz(rng: &mut Rng) -> Fe {
    loop {
        let v = rfe(rng);
        if !v.is_zero() {
            return v;
        }
    }
}

/// One constraint, kept as a fraction for oracles: holds at a row unless the
/// denominator vanishes there and the numerator does not.
#[derive(Clone)]
pub struct Con {
    pub num: Ex,
    pub den: Ex,
    /// What is given to the system.
    pub ex:  Ex,
}

#[derive(Clone)]
pub struct Case {
    pub sys:  System,
    pub cols: Columns,
    pub cons: Vec<Con>,
}

pub struct Opt {
    pub log_n:     (usize, usize),
    pub cols:      usize,
    pub degree:    usize,
    pub max_dom:   usize,
    pub pow:       usize,
    pub queries:   usize,
    pub claims:    bool,
    pub far:       bool,
    /// Inverses inside the bodies: such systems can be checked row by row, but
    /// not proven (the quotients are no polynomials).
    pub inv:       bool,
    /// Sometimes inverses inside the constraints, multiplied out again.
    pub clear:     bool,
}

impl Opt {
    pub fn small() -> Opt {
        Opt { log_n: (1, 5), cols: 4, degree: 5, max_dom: 512, pow: 6, queries: 12, claims: true, far: true, inv: false, clear: true }
    }

    pub fn tiny() -> Opt {
        Opt { log_n: (1, 3), cols: 3, degree: 3, max_dom: 64, pow: 4, queries: 6, claims: true, far: true, inv: false, clear: true }
    }
}

thread_local! {
    static INVERSES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static CLEAR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The highest degree of a few attempts.
fn body(rng: &mut Rng, args: &[(usize, isize)], deg: usize, n: usize, depth: usize) -> Ex {
    let tries = *rng.pick(&[1, 1, 3, 8]);
    let mut best = term(rng, args, deg, n, depth);
    let rank = |e: &Ex| {
        let (a, b) = e.degree(0, 1);
        a.saturating_sub(b)
    };
    for _ in 1..tries {
        if rank(&best) >= deg {
            break;
        }
        let e = term(rng, args, deg, n, depth);
        if rank(&e) > rank(&best) {
            best = e;
        }
    }
    best
}

/// Random expression in the given cells with trace degree at most `deg`.
fn term(rng: &mut Rng, args: &[(usize, isize)], deg: usize, n: usize, depth: usize) -> Ex {
    if INVERSES.with(|v| v.get()) && rng.chance(1, 5) {
        let e = if rng.chance(1, 2) { rng.range(1, 3) } else { 1 << rng.below(n.trailing_zeros() as usize + 1) };
        return match rng.below(3) {
            0 => Ex::X.exp(e).inv(),
            1 => Ex::X.exp(e).sub(Ex::C(rfe(rng).mul(Fe::int(0x1234_5678_9abc)))).inv(),
            _ => Ex::C(rnz(rng)).inv(),
        };
    }
    if depth == 0 || rng.chance(1, 6) {
        return match rng.below(if deg > 0 && !args.is_empty() { 8 } else { 3 }) {
            0 => Ex::C(rfe(rng)),
            1 => Ex::X.exp(if rng.chance(2, 3) { rng.below(4) } else { n >> rng.range(1, 5) }),
            2 => {
                // Periodic polynomial
                let m = 1 << rng.below(n.trailing_zeros() as usize + 1);
                let len = 1 << rng.below(1 + (m as usize).trailing_zeros().min(3) as usize);
                let p: Vec<Fe> = (0..len).map(|_| rfe(rng)).collect();
                let x = if rng.chance(1, 4) { Ex::X.mul(Ex::C(rnz(rng))) } else { Ex::X };
                Ex::Poly(p, Box::new(x.exp(n / m)))
            }
            _ => {
                let a = rng.pick(args);
                Ex::T(a.0, a.1)
            }
        };
    }
    match rng.below(8) {
        0 | 1 => term(rng, args, deg, n, depth - 1).add(term(rng, args, deg, n, depth - 1)),
        2 => term(rng, args, deg, n, depth - 1).sub(term(rng, args, deg, n, depth - 1)),
        3 | 4 => {
            let d = rng.below(deg + 1);
            term(rng, args, d, n, depth - 1).mul(term(rng, args, deg - d, n, depth - 1))
        }
        5 => {
            let e = rng.range(0, deg.max(1));
            let e = if e == 0 && rng.chance(2, 3) { 1 } else { e };
            term(rng, args, deg / e.max(1), n, depth - 1).exp(e)
        }
        6 => term(rng, args, deg, n, depth - 1).neg(),
        _ => term(rng, args, deg, n, depth - 1),
    }
}

/// Rewrites without changing the function.
pub fn reshape(rng: &mut Rng, e: Ex, odds: usize) -> Ex {
    let b = |rng: &mut Rng, a: Box<Ex>| Box::new(reshape(rng, *a, odds));
    let e = match e {
        Ex::Add(x, y) => {
            let (x, y) = (b(rng, x), b(rng, y));
            if rng.chance(1, 2) { Ex::Add(x, y) } else { Ex::Add(y, x) }
        }
        Ex::Mul(x, y) => {
            let (x, y) = (b(rng, x), b(rng, y));
            if rng.chance(1, 2) { Ex::Mul(x, y) } else { Ex::Mul(y, x) }
        }
        Ex::Neg(x) => Ex::Neg(b(rng, x)),
        Ex::Inv(x) => Ex::Inv(b(rng, x)),
        Ex::Exp(x, n) => Ex::Exp(b(rng, x), n),
        Ex::Poly(p, x) => Ex::Poly(p, b(rng, x)),
        Ex::Claim(i, k, x) => Ex::Claim(i, k, b(rng, x)),
        o => o,
    };
    if !rng.chance(1, odds) {
        return e;
    }
    match rng.below(9) {
        0 => e.neg().neg(),
        1 => e.exp(1),
        2 => e.mul(c(1)),
        3 => e.add(c(0)),
        4 => {
            let k = rfe(rng);
            e.sub(Ex::C(k)).add(Ex::C(k))
        }
        5 => {
            let k = rnz(rng);
            Ex::C(k).mul(e).mul(Ex::C(k).inv())
        }
        6 => e.mul(Ex::X.exp(0)),
        7 => match e {
            Ex::X => Ex::X.inv().inv(),
            e => e.mul(c(1).neg()).neg(),
        },
        _ => match e {
            Ex::Exp(a, n) if n >= 2 => a.clone().exp(n - 1).mul(*a),
            Ex::X => Ex::Poly(vec![Fe::ZERO, Fe::one()], Box::new(Ex::X)),
            Ex::C(v) if !v.is_zero() => Ex::C(v).inv().inv(),
            e => e,
        },
    }
}

fn at(cols: &Columns, e: &Ex, claims: &[Vec<Fe>], r: usize) -> Fe {
    let n = cols[0].len();
    let x = fpow(Fe::root(n), r);
    e.eval(x, &|c, o| cols[c][(r as isize + o).rem_euclid(n as isize) as usize], claims)
        .expect("no division")
}

/// Inverted subexpressions and their multiplicity as poles.
pub fn poles(e: &Ex) -> Vec<(Ex, usize)> {
    let join = |a: Vec<(Ex, usize)>, b: Vec<(Ex, usize)>, f: &dyn Fn(usize, usize) -> usize| {
        let mut r = a;
        for (d, k) in b {
            match r.iter_mut().find(|x| x.0 == d) {
                Some(x) => x.1 = f(x.1, k),
                None => r.push((d, k)),
            }
        }
        r
    };
    match e {
        Ex::Add(a, b) => join(poles(a), poles(b), &|x, y| x.max(y)),
        Ex::Mul(a, b) => join(poles(a), poles(b), &|x, y| x + y),
        Ex::Neg(a) => poles(a),
        Ex::Exp(a, k) => poles(a).into_iter().map(|(d, m)| (d, m * k)).filter(|x| x.1 > 0).collect(),
        Ex::Inv(a) => match &**a {
            Ex::C(_) => vec![],
            a => vec![(a.clone(), 1)],
        },
        _ => vec![],
    }
}

/// (num, den, extra numerator factor) to one expression, in various shapes.
fn fraction(rng: &mut Rng, num: Ex, keep: Option<Ex>, den: Ex) -> Con {
    let mut num = num;
    if CLEAR.with(|v| v.get()) {
        for (d, k) in poles(&num) {
            num = if rng.chance(1, 2) { num.mul(d.exp(k)) } else { d.exp(k).mul(num) };
        }
    }
    let full = match &keep {
        Some(k) => num.clone().mul(k.clone()),
        None => num.clone(),
    };
    let ex = match (rng.below(4), keep) {
        (0, Some(k)) => num.mul(k.div(den.clone())),
        (1, Some(k)) => num.div(den.clone()).mul(k),
        (2, Some(k)) => k.mul(num).div(den.clone()),
        (0, None) => den.clone().inv().mul(num),
        _ => full.clone().div(den.clone()),
    };
    Con { num: full, den, ex }
}

fn all_rows(rng: &mut Rng, n: usize) -> Ex {
    match rng.below(4) {
        0 => Ex::X.exp(n / 2).exp(2).sub(c(1)),
        1 => Ex::X.exp(n / 2).sub(c(1)).mul(Ex::X.exp(n / 2).add(c(1))),
        _ => Ex::X.exp(n).sub(c(1)),
    }
}

fn on_row(rng: &mut Rng, n: usize, r: usize) -> Ex {
    let g = Fe::root(n);
    if rng.chance(1, 3) {
        Ex::X.sub(Ex::C(g).exp(if r == 0 && rng.chance(1, 2) { n } else { r }))
    } else {
        Ex::X.sub(Ex::C(fpow(g, r)))
    }
}

pub fn fri_layout(rng: &mut Rng, log_n: usize) -> Vec<usize> {
    let total = rng.range(1, log_n);
    let mut left = total;
    let mut v = vec![];
    while left > 0 {
        let k = rng.range(1, left.min(4));
        v.push(k);
        left -= k;
    }
    v
}

/// Parameters fitting the constraints.
pub fn params(rng: &mut Rng, s: &mut System, o: &Opt) {
    let log_n = s.n.trailing_zeros() as usize;
    let lo = s.parts().max(2).trailing_zeros() as usize;
    let hi = (o.max_dom / s.n).max(1 << lo).trailing_zeros() as usize;
    let wide = if rng.chance(1, 10) { 7 } else { 3 };
    s.blowup = 1 << rng.range(lo, hi.min(lo + wide));
    s.pow = if rng.chance(1, 3) { 0 } else { rng.range(0, o.pow) };
    s.queries = rng.range(1, o.queries);
    s.fri = fri_layout(rng, log_n);
}

pub fn system(rng: &mut Rng, o: &Opt) -> Case {
    loop {
        if let Some(c) = attempt(rng, o) {
            return c;
        }
    }
}

fn attempt(rng: &mut Rng, o: &Opt) -> Option<Case> {
    let clear = o.clear && !o.inv && rng.chance(1, 4);
    INVERSES.with(|v| v.set(o.inv || clear));
    CLEAR.with(|v| v.set(clear));
    let log_n = rng.range(o.log_n.0, o.log_n.1);
    let n = 1_usize << log_n;
    let ncols = rng.range(1, o.cols);
    let g = Fe::root(n);
    let mut cols: Columns = vec![];
    let mut cons: Vec<Con> = vec![];
    let mut claims: Vec<Vec<Fe>> = vec![];
    let off = |rng: &mut Rng| -> isize {
        let far = o.far && rng.chance(1, 6);
        if far {
            match rng.below(5) {
                0 => -(n as isize),
                1 => n as isize,
                2 => n as isize + rng.below(n) as isize,
                _ => rng.range(0, 2 * n - 2) as isize - (n as isize - 1),
            }
        } else {
            rng.below(4) as isize - 1
        }
    };
    let max_deg = rng.range(1, o.degree);
    while cols.len() < ncols {
        let k = cols.len();
        let mut args: Vec<(usize, isize)> = vec![];
        for _ in 0..rng.below(4) {
            if k > 0 {
                args.push((rng.below(k), off(rng)));
            }
        }
        let depth = rng.range(1, 3);
        match rng.below(7) {
            // Free column
            0 => cols.push((0..n).map(|_| rfe(rng)).collect()),
            // Function of other cells, on all rows
            1 | 2 => {
                let f = body(rng, &args, max_deg, n, depth);
                cols.push(vec![Fe::ZERO; n]);
                let v: Vec<Fe> = (0..n).map(|r| at(&cols, &f, &claims, r)).collect();
                cols[k] = v;
                let num = if rng.chance(1, 2) { Ex::T(k, 0).sub(f) } else { f.sub(Ex::T(k, 0)) };
                let den = all_rows(rng, n);
                cons.push(fraction(rng, num, None, den));
            }
            // Forward recurrence
            3 => {
                args.push((k, 0));
                let f = body(rng, &args, max_deg, n, depth);
                cols.push(vec![Fe::ZERO; n]);
                cols[k][0] = rfe(rng);
                for r in 0..n - 1 {
                    cols[k][r + 1] = at(&cols, &f, &claims, r);
                }
                let num = Ex::T(k, 1).sub(f);
                let keep = on_row(rng, n, n - 1);
                let den = all_rows(rng, n);
                cons.push(fraction(rng, num, Some(keep), den));
            }
            // Backward recurrence
            4 => {
                args.push((k, 0));
                let f = body(rng, &args, max_deg, n, depth);
                cols.push(vec![Fe::ZERO; n]);
                cols[k][n - 1] = rfe(rng);
                for r in (1..n).rev() {
                    cols[k][r - 1] = at(&cols, &f, &claims, r);
                }
                let num = Ex::T(k, -1).sub(f);
                let keep = on_row(rng, n, 0);
                let den = all_rows(rng, n);
                cons.push(fraction(rng, num, Some(keep), den));
            }
            // Only on every (n/m)-th row
            5 => {
                let m = 1 << rng.below(log_n);
                let step = n / m;
                let ph = rng.below(step);
                if ph > 0 {
                    args.push((k, -1));
                }
                let f = body(rng, &args, max_deg, n, depth);
                cols.push((0..n).map(|_| rfe(rng)).collect());
                let mut r = ph;
                while r < n {
                    cols[k][r] = at(&cols, &f, &claims, r);
                    r += step;
                }
                let num = Ex::T(k, 0).sub(f);
                let den = Ex::X.exp(m).sub(Ex::C(fpow(g, ph * m)));
                cons.push(fraction(rng, num, None, den));
            }
            // Two coupled columns
            _ => {
                if k + 2 > ncols {
                    continue;
                }
                let a2: Vec<_> = args.iter().copied().chain(vec![(k, 0), (k + 1, 0)]).collect();
                let f1 = body(rng, &a2, max_deg, n, depth);
                let f2 = body(rng, &a2, max_deg, n, depth);
                cols.push(vec![Fe::ZERO; n]);
                cols.push(vec![Fe::ZERO; n]);
                cols[k][0] = rfe(rng);
                cols[k + 1][0] = rfe(rng);
                for r in 0..n - 1 {
                    let (a, b) = (at(&cols, &f1, &claims, r), at(&cols, &f2, &claims, r));
                    cols[k][r + 1] = a;
                    cols[k + 1][r + 1] = b;
                }
                for (j, f) in [(k, f1), (k + 1, f2)] {
                    let num = Ex::T(j, 1).sub(f);
                    let keep = on_row(rng, n, n - 1);
                    let den = all_rows(rng, n);
                    cons.push(fraction(rng, num, Some(keep), den));
                }
            }
        }
    }
    // Boundary values
    for _ in 0..rng.below(4) {
        let (j, r) = (rng.below(ncols), rng.below(n));
        let num = Ex::T(j, 0).sub(Ex::C(cols[j][r]));
        let den = on_row(rng, n, r);
        cons.push(fraction(rng, num, None, den));
    }
    // A cell seen through an offset
    if rng.chance(1, 3) {
        let (j, r) = (rng.below(ncols), rng.below(n));
        let d = off(rng);
        let v = cols[j][(r as isize + d).rem_euclid(n as isize) as usize];
        let num = Ex::T(j, d).sub(Ex::C(v));
        let den = on_row(rng, n, r);
        cons.push(fraction(rng, num, None, den));
    }
    // Claims: a polynomial agreeing with a column on a coset of rows
    if o.claims {
        for _ in 0..rng.below(3) {
            let m = 1 << rng.below(log_n + 1);
            let step = n / m;
            let ph = rng.below(step);
            let j = rng.below(ncols);
            let vals: Vec<Fe> = (0..m).map(|i| cols[j][ph + i * step]).collect();
            let mut p = idft(&vals, Fe::root(m));
            let gi = fpow(g, ph).inv().unwrap();
            let mut s = Fe::one();
            for v in &mut p {
                *v = v.mul(s);
                s = s.mul(gi);
            }
            let bound = if rng.chance(1, 3) { m } else { m - 1 };
            let num = if rng.chance(1, 2) {
                let i = claims.len();
                claims.push(p);
                Ex::T(j, 0).sub(Ex::Claim(i, bound, Box::new(Ex::X)))
            } else {
                Ex::T(j, 0).sub(Ex::Poly(p, Box::new(Ex::X)))
            };
            let den = Ex::X.exp(m).sub(Ex::C(fpow(g, ph * m)));
            cons.push(fraction(rng, num, None, den));
        }
    }
    if cons.is_empty() {
        return None;
    }
    rng.shuffle(&mut cons);
    let odds = *rng.pick(&[4, 12, 1000]);
    for k in &mut cons {
        k.ex = reshape(rng, k.ex.clone(), odds);
    }
    let mut sys = System {
        n,
        cols: ncols,
        seed: { let k = if rng.chance(1, 6) { rng.size(400) } else { rng.below(40) }; rng.bytes(k) },
        cons: cons.iter().map(|k| k.ex.clone()).collect(),
        claims,
        blowup: 2,
        pow: 0,
        queries: 1,
        fri: vec![1],
    };
    // Documented preconditions of combining constraints
    let d = sys.degree();
    if d == 0 || sys.parts() * n > o.max_dom {
        return None;
    }
    let target = d * n - 1;
    if sys.cons.iter().any(|e| {
        let (a, b) = e.degree(1, n - 1);
        a > target + b
    }) {
        return None;
    }
    params(rng, &mut sys, o);
    Some(Case { sys, cols, cons })
}

/// Replaces claims by their polynomials.
pub fn substituted(e: &Ex, claims: &[Vec<Fe>]) -> Ex {
    let b = |a: &Ex| Box::new(substituted(a, claims));
    match e {
        Ex::Claim(i, _, a) => Ex::Poly(claims[*i].clone(), b(a)),
        Ex::Poly(p, a) => Ex::Poly(p.clone(), b(a)),
        Ex::Add(x, y) => Ex::Add(b(x), b(y)),
        Ex::Mul(x, y) => Ex::Mul(b(x), b(y)),
        Ex::Neg(a) => Ex::Neg(b(a)),
        Ex::Inv(a) => Ex::Inv(b(a)),
        Ex::Exp(a, n) => Ex::Exp(b(a), *n),
        o => o.clone(),
    }
}

/// Rows (in order) and constraints violated by a trace, by the fraction oracle.
pub fn violated(case: &Case, cols: &Columns) -> Vec<(usize, usize)> {
    let n = case.sys.n;
    let g = Fe::root(n);
    let mut out = vec![];
    for r in 0..n {
        let x = fpow(g, r);
        for (k, con) in case.cons.iter().enumerate() {
            let t = |c: usize, o: isize| cols[c][(r as isize + o).rem_euclid(n as isize) as usize];
            let den = con.den.eval(x, &t, &case.sys.claims).unwrap();
            if den.is_zero() && !con.num.eval(x, &t, &case.sys.claims).unwrap().is_zero() {
                out.push((r, k));
            }
        }
    }
    out
}
