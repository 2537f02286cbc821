//! Prime fields: arithmetic (C11), utilities (C12), transforms (C10).
use super::{u256::R, Check};
use crate::{
    conv::{big, el, fe, ub},
    mon::{guard, Ctx, Record, Rng},
    refs::{
        big::Big,
        field::{base, bitrev, dft, horner, idft, scalar, Fe, Modulus},
    },
};
use num_traits::ToPrimitive;
use rand::Rng as _;
use std::sync::OnceLock;
use zkp_elliptic_curve::{Order, ScalarFieldElement};
use zkp_primefield::{
    fft::{
        fft_vec_recursive, get_twiddles, permute, permute_index, radix_sqrt, small,
        transpose_square_stretch,
    },
    geometric_series::{geometric_series, root_series},
    invert_batch, invert_batch_src_dst, Fft, FieldElement, Parameters, PrimeField, Root,
    SquareRoot,
};
use zkp_u256::{AddInline, Inv, MulInline, NegInline, One, Pow, SquareInline, SubInline, Zero, U256};

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C10",
        run:     transforms,
        rule:    "coefficient vectors of every power-of-two length up to the tier bound (zeros, sparse, dense), random cofactors, \
                  inside thread pools of 1 to 8 workers; outputs compared with a textbook recursive transform and with direct \
                  evaluation at random points; distinct = distinct (function, length, pool, vector)",
        assumes: &["reference field arithmetic and transform (self-tested against direct evaluation) are right"],
    });
    v.push(Check {
        id:      "C11",
        run:     arithmetic,
        rule:    "operands with small, near-modulus, Montgomery-special and uniform values in three fields (two shipped, one \
                  user-defined); all operator forms compared with an independent field; distinct = distinct operand tuples per field",
        assumes: &["the independent field implementation (self-tested against big integers) is right",
                   "user-defined moduli stay below 2^255, as the single-subtraction reduction requires"],
    });
    v.push(Check {
        id:      "C12",
        run:     utilities,
        rule:    "random slices for batch inversion, series with random skip/take/step_by chains, all dividing root orders, square \
                  roots of residues and non-residues, integer conversions at type boundaries; distinct = distinct inputs",
        assumes: &["the independent field implementation is right"],
    });
}

/// Scalar field of BLS12-381, standing in for a user-defined field.
pub struct Bls();
impl Parameters for Bls {
    type UInt = U256;

    // generated with exact integer arithmetic from the modulus
    const GENERATOR: U256 = U256::from_limbs(BLS.2);
    const M64: u64 = BLS.1;
    const MODULUS: U256 = U256::from_limbs(BLS.0);
    const ORDER: U256 = U256::from_limbs([BLS.0[0] - 1, BLS.0[1], BLS.0[2], BLS.0[3]]);
    const R1: U256 = U256::from_limbs(BLS.3);
    const R2: U256 = U256::from_limbs(BLS.4);
    const R3: U256 = U256::from_limbs(BLS.5);
}
type L = [u64; 4];
const BLS: (L, u64, L, L, L, L) = include!("bls.rs");

fn bls() -> &'static Modulus {
    static M: OnceLock<Modulus> = OnceLock::new();
    M.get_or_init(|| Modulus::new(Big::from_limbs(&BLS.0)))
}

macro_rules! field {
    ($name:ident, $m:expr, $m64:expr, $g:expr, $r1:expr, $r2:expr, $r3:expr, $f:expr) => {
        pub struct $name();
        impl Parameters for $name {
            type UInt = U256;

            const GENERATOR: U256 = U256::from_limbs($g);
            const M64: u64 = $m64;
            const MODULUS: U256 = U256::from_limbs($m);
            const ORDER: U256 = U256::from_limbs([$m[0] - 1, $m[1], $m[2], $m[3]]);
            const R1: U256 = U256::from_limbs($r1);
            const R2: U256 = U256::from_limbs($r2);
            const R3: U256 = U256::from_limbs($r3);
        }
        impl Custom for $name {
            const FACTORS: &'static [u64] = $f;

            fn modulus() -> &'static Modulus {
                static M: OnceLock<Modulus> = OnceLock::new();
                M.get_or_init(|| Modulus::new(Big::from_limbs(&$m)))
            }
        }
    };
}
trait Custom: Parameters<UInt = U256> {
    /// Prime factors of the group order below 1000
    const FACTORS: &'static [u64];
    fn modulus() -> &'static Modulus;
}
include!("fields.rs");

/// Runs the given generic monitor over all user-defined fields.
macro_rules! custom_fields {
    ($f:ident, $rng:expr, $rec:expr) => {
        $f::<Tiny>("97", <Tiny as Custom>::modulus(), $rng, $rec);
        $f::<Small>("31 bit", <Small as Custom>::modulus(), $rng, $rec);
        $f::<Gold>("64 bit", <Gold as Custom>::modulus(), $rng, $rec);
        $f::<TwoLimb>("128 bit", <TwoLimb as Custom>::modulus(), $rng, $rec);
        $f::<NearProth>("c + k 2^192", <NearProth as Custom>::modulus(), $rng, $rec);
        $f::<HalfProth>("1 + c 2^128 + k 2^192", <HalfProth as Custom>::modulus(), $rng, $rec);
        $f::<OneProth>("1 + c 2^64 + k 2^192", <OneProth as Custom>::modulus(), $rng, $rec);
        $f::<Ones>("just below 2^255", <Ones as Custom>::modulus(), $rng, $rec);
    };
}

/// Adversarial reduced limbs.
pub fn limbs_mod(rng: &mut Rng, m: &Modulus) -> L {
    let b = match rng.below(8) {
        0 => Big::from_u128(rng.below(5) as u128),
        1 => m.big.sub(&Big::from_u128(1 + rng.below(5) as u128)),
        2 => return m.enc(&Big::from_u128(rng.below(5) as u128)),
        3 => return m.enc(&m.big.sub(&Big::from_u128(1 + rng.below(5) as u128))),
        4 => return m.enc(&Big::from_u128(1).shl(rng.below(251))),
        _ => Big::from_limbs(&rng.limbs()),
    };
    b.rem(&m.big).limbs4()
}

pub fn rfe(rng: &mut Rng) -> Fe {
    Fe(limbs_mod(rng, base()))
}

/// Uniform-ish nonzero element.
pub fn rnz(rng: &mut Rng) -> Fe {
    loop {
        let f = rfe(rng);
        if !f.is_zero() {
            return f;
        }
    }
}

fn arithmetic(ctx: &Ctx) {
    ctx.cases("base", 8, ctx.n(400, 8000), |rng, _, rec| {
        for _ in 0..60 {
            field_ops::<zkp_primefield_proth::P>("base", base(), rng, rec);
        }
    });
    ctx.cases("scalar", 8, ctx.n(400, 8000), |rng, _, rec| {
        for _ in 0..60 {
            field_ops::<Order>("scalar", scalar(), rng, rec);
        }
    });
    ctx.cases("custom", 8, ctx.n(200, 4000), |rng, _, rec| {
        for _ in 0..60 {
            field_ops::<Bls>("custom", bls(), rng, rec);
        }
    });
    ctx.cases("other moduli", 8, ctx.n(12, 1000), |rng, _, rec| {
        for _ in 0..40 {
            custom_fields!(field_ops, rng, rec);
        }
    });
    ctx.cases("whole field", 8, 97, |rng, ix, rec| {
        let m = <Tiny as Custom>::modulus();
        for j in 0..97 {
            let (x, y) = (Big::from_u128(u128::from(ix)).limbs4(), Big::from_u128(j).limbs4());
            field_ops_on::<Tiny>("tiny", m, x, y, rng, rec);
            rec.event("pairs of the whole field of 97 elements");
        }
    });
    ctx.cases("constants", 1, 1, |_, _, rec| {
        constants::<zkp_primefield_proth::P>(base(), rec);
        constants::<Order>(scalar(), rec);
    });
}

/// The parameter type of the base field is not exported by name.
mod zkp_primefield_proth {
    pub trait HasP {
        type P;
    }
    impl<Q: zkp_primefield::Parameters> HasP for zkp_primefield::PrimeField<Q> {
        type P = Q;
    }
    pub type P = <zkp_primefield::FieldElement as HasP>::P;
}

fn constants<P: Parameters<UInt = U256>>(m: &Modulus, rec: &mut Record) {
    type F<P> = PrimeField<P>;
    rec.eval(&m.p);
    rec.check(F::<P>::modulus().as_limbs() == &m.p, "field modulus", String::new);
    rec.check(F::<P>::MODULUS.as_limbs() == &m.p, "field MODULUS", String::new);
    rec.check(big(&F::<P>::order()) == m.big.sub(&Big::one()), "field order", String::new);
    rec.check(F::<P>::one().as_montgomery().as_limbs() == &m.r1, "field one", String::new);
    rec.check(F::<P>::zero().as_montgomery().as_limbs() == &[0; 4], "field zero", String::new);
    rec.check(F::<P>::default().is_zero(), "field default", String::new);
    // the generator is a quadratic non-residue (primitive roots are)
    let g = F::<P>::generator();
    let h = m.pow(g.as_montgomery().as_limbs(), &m.big.shr(1));
    rec.check(h == m.sub(&[0; 4], &m.r1), "field generator", || format!("{:?}", g));
}

fn field_ops<P: Parameters<UInt = U256>>(name: &str, m: &Modulus, rng: &mut Rng, rec: &mut Record) {
    type F<P> = PrimeField<P>;
    let (la, lb) = (limbs_mod(rng, m), limbs_mod(rng, m));
    let lb = match rng.below(12) {
        0 => la,
        1 => m.sub(&[0; 4], &la),
        _ => lb,
    };
    field_ops_on::<P>(name, m, la, lb, rng, rec)
}

fn field_ops_on<P: Parameters<UInt = U256>>(name: &str, m: &Modulus, la: L, lb: L, rng: &mut Rng, rec: &mut Record) {
    type F<P> = PrimeField<P>;
    let wide = rng.limbs();
    let ex = rng.limbs();
    rec.eval(&(la, lb, wide, m.p));
    let f = |l: &L| F::<P>::from_montgomery(U256::from_limbs(*l));
    let (a, b) = (f(&la), f(&lb));
    let det = || format!("{}: a={:?} b={:?} wide={:?} exp={:?}", name, la, lb, wide, ex);
    let mut ok = |op: &str, got: &F<P>, want: &L| {
        if got.as_montgomery().as_limbs() != want {
            rec.violation(&format!("field {}", op), format!("{} got {:?} want {:?}", det(), got.as_montgomery().as_limbs(), want));
        }
    };
    let (sum, dif, prod) = (m.add(&la, &lb), m.sub(&la, &lb), m.mul(&la, &lb));
    ok("add vv", &(a.clone() + b.clone()), &sum);
    ok("add vr", &(a.clone() + &b), &sum);
    ok("add rv", &(&a + b.clone()), &sum);
    ok("add rr", &(&a + &b), &sum);
    ok("add inline", &a.add_inline(&b), &sum);
    ok("sub vv", &(a.clone() - b.clone()), &dif);
    ok("sub vr", &(a.clone() - &b), &dif);
    ok("sub rv", &(&a - b.clone()), &dif);
    ok("sub rr", &(&a - &b), &dif);
    ok("sub inline", &a.sub_inline(&b), &dif);
    ok("mul vv", &(a.clone() * b.clone()), &prod);
    ok("mul vr", &(a.clone() * &b), &prod);
    ok("mul rv", &(&a * b.clone()), &prod);
    ok("mul rr", &(&a * &b), &prod);
    ok("mul inline", &a.mul_inline(&b), &prod);
    let mut t = a.clone();
    t += &b;
    ok("add_assign r", &t, &sum);
    t = a.clone();
    t += b.clone();
    ok("add_assign v", &t, &sum);
    t = a.clone();
    t -= &b;
    ok("sub_assign r", &t, &dif);
    t = a.clone();
    t -= b.clone();
    ok("sub_assign v", &t, &dif);
    t = a.clone();
    t *= &b;
    ok("mul_assign r", &t, &prod);
    t = a.clone();
    t *= b.clone();
    ok("mul_assign v", &t, &prod);
    let neg = m.sub(&[0; 4], &la);
    ok("neg v", &-a.clone(), &neg);
    ok("neg r", &-&a, &neg);
    t = a.clone();
    t.neg_assign();
    ok("neg_assign", &t, &neg);
    let sq = m.mul(&la, &la);
    ok("square", &a.square(), &sq);
    t = a.clone();
    t.square_assign();
    ok("square_assign", &t, &sq);
    let dbl = m.add(&la, &la);
    ok("double", &a.double(), &dbl);
    ok("triple", &a.triple(), &m.add(&dbl, &la));
    let list = [a.clone(), b.clone(), a.clone()];
    ok("Sum v", &list.iter().cloned().sum::<F<P>>(), &m.add(&sum, &la));
    ok("Sum r", &list.iter().sum::<F<P>>(), &m.add(&sum, &la));
    ok("Sum empty", &list[..0].iter().sum::<F<P>>(), &[0; 4]);
    ok("Product v", &list.iter().cloned().product::<F<P>>(), &m.mul(&prod, &la));
    ok("Product r", &list.iter().product::<F<P>>(), &m.mul(&prod, &la));
    ok("Product empty", &list[..0].iter().product::<F<P>>(), &m.r1);
    // inverses and quotients
    match b.inv() {
        Some(i) => {
            ok("inv", &(&i * &b), &m.r1);
            let q = m.mul(&la, i.as_montgomery().as_limbs());
            ok("div rr", &(&a / &b), &q);
            ok("div vv", &(a.clone() / b.clone()), &q);
            ok("div vr", &(a.clone() / &b), &q);
            ok("div rv", &(&a / b.clone()), &q);
            t = a.clone();
            t /= &b;
            ok("div_assign r", &t, &q);
            t = a.clone();
            t /= b.clone();
            ok("div_assign v", &t, &q);
        }
        None => ok("inv none", &b, &[0; 4]),
    }
    let mut answered = vec![];
    if lb == [0; 4] {
        ok("inv zero", &b.inv().unwrap_or_else(F::<P>::zero), &[0; 4]);
        if rng.chance(1, 8) {
            answered = vec![
                guard(|| &a / &b).is_ok(),
                guard(|| a.clone() / &b).is_ok(),
                guard(|| a.clone() / b.clone()).is_ok(),
                guard(|| &a / b.clone()).is_ok(),
                guard(|| {
                    let mut t = a.clone();
                    t /= &b;
                })
                .is_ok(),
            ];
        }
    }
    // powers
    let e = Big::from_limbs(&ex).shr(if rng.chance(1, 2) { rng.below(256) } else { 192 + rng.below(64) });
    ok("pow U256", &a.pow(&ub(&e)), &m.pow(&la, &e));
    let e64 = e.low_u128() as u64;
    let p64 = m.pow(&la, &Big::from_u128(u128::from(e64)));
    ok("pow usize", &a.pow(e64 as usize), &p64);
    ok("pow &u64", &a.pow(&e64), &p64);
    let es = match rng.below(20) {
        0 => isize::MIN,
        1 => -1,
        2 => isize::MAX,
        _ => (e64 >> rng.below(64)) as isize,
    };
    let mag = m.pow(&la, &Big::from_u128(u128::from(es.unsigned_abs() as u64)));
    match a.pow(es) {
        Some(v) if es >= 0 => ok("pow isize", &v, &mag),
        Some(v) => ok("pow isize", &v, &m.inv(&mag).unwrap_or([0; 4])),
        None => ok("pow isize none", &f(&m.add(&la, &[u64::from(es >= 0), 0, 0, 0])), &[0; 4]),
    }
    // integer views
    ok("from_uint_reduce", &F::<P>::from_uint_reduce(&U256::from_limbs(wide)), &m.enc(&Big::from_limbs(&wide)));
    ok("From<U256>", &F::<P>::from(U256::from_limbs(wide)), &m.enc(&Big::from_limbs(&wide)));
    let x = m.dec(&la);
    ok("from_uint", &F::<P>::from_uint(&ub(&x)), &la);
    let uint = a.to_uint();
    let u2: U256 = (&a).into();
    let u3: U256 = a.clone().into();
    let mut is = |op: &str, good: bool| {
        rec.check(good, &format!("field {}", op), det);
    };
    is("division by zero is refused", !answered.contains(&true));
    is("to_uint", big(&uint) == x && u2 == uint && u3 == uint);
    is("eq", (a == b) == (la == lb));
    is("is_zero", a.is_zero() == (la == [0; 4]));
    is("is_one", a.is_one() == (la == m.r1));
    is("hash", crate::mon::hash_of(&a) == crate::mon::hash_of(&f(&la)));
    // algebraic closure of what users see: chained expression
    let lhs = (&a + &b) * (&a - &b);
    is("difference of squares", lhs == &a.square() - &b.square());
    rec.sample(name, det);
    rec.event("field operand pairs (about 50 operations each)");
}

// ------------------------------------------------------------------------ C12

fn utilities(ctx: &Ctx) {
    ctx.cases("batch inversion", 8, ctx.n(300, 4000), |rng, ix, rec| {
        let n = if ix < 40 { ix as usize } else { rng.range(0, 700) };
        let v: Vec<Fe> = (0..n).map(|_| rnz(rng)).collect();
        rec.eval(&v);
        let e: Vec<FieldElement> = v.iter().map(|x| el(*x)).collect();
        let r = invert_batch(&e);
        let mut d: Vec<FieldElement> = (0..n).map(|_| el(rfe(rng))).collect();
        invert_batch_src_dst(&e, &mut d);
        rec.check(r.len() == n && r == d, "invert_batch variants", || format!("n={}", n));
        let one = Fe::one();
        rec.check(v.iter().zip(&r).all(|(x, y)| x.mul(fe(y)) == one), "invert_batch", || format!("n={} {:?}", n, v));
        if n > 0 {
            // one zero must not produce a silently wrong table
            let mut z = e.clone();
            z[rng.below(n)] = FieldElement::zero();
            rec.check(guard(|| invert_batch(&z)).is_err(), "invert_batch with zero", || format!("n={}", n));
        }
        let s: Vec<ScalarFieldElement> = (0..n.min(20))
            .map(|_| ScalarFieldElement::from_montgomery(U256::from_limbs(limbs_mod(rng, scalar()))))
            .filter(|x| !x.is_zero())
            .collect();
        let r = invert_batch(&s);
        rec.check(s.iter().zip(&r).all(|(x, y)| (x * y).is_one()), "invert_batch scalar", || format!("{:?}", s));
        rec.event("batches inverted");
    });
    ctx.cases("series", 8, ctx.n(600, 8000), |rng, _, rec| series(rng, rec));
    ctx.cases("roots", 8, ctx.n(200, 1000), |rng, ix, rec| roots(rng, ix, rec));
    ctx.cases("sqrt", 8, ctx.n(64, 1500), |rng, _, rec| {
        sqrt::<zkp_primefield_proth::P>(base(), rng, rec);
        for _ in 0..5 {
            sqrt::<Order>(scalar(), rng, rec);
            sqrt::<Bls>(bls(), rng, rec);
        }
    });
    ctx.cases("other moduli", 8, ctx.n(20, 1000), |rng, _, rec| {
        custom_fields!(utility, rng, rec);
    });
    ctx.cases("integers", 8, ctx.n(200, 4000), |rng, _, rec| {
        for _ in 0..50 {
            integers(rng, rec);
        }
    });
    ctx.cases("sampling", 8, ctx.n(40, 400), |rng, _, rec| {
        let mut seen = std::collections::HashSet::new();
        let base_half = ub(&base().big.shr(1));
        let mut high = 0;
        for _ in 0..100 {
            let x: FieldElement = R(rng).gen();
            let y: ScalarFieldElement = R(rng).gen();
            // as_montgomery is debug-asserted reduced; judge it in release too
            rec.check(base().is_reduced(&x.uint.as_limbs()), "sampled element reduced", || format!("{:?}", x.uint));
            rec.check(scalar().is_reduced(&y.uint.as_limbs()), "sampled scalar reduced", || format!("{:?}", y.uint));
            high += usize::from(x.to_uint() > base_half);
            seen.insert(*x.uint.as_limbs());
            rec.eval(x.uint.as_limbs());
        }
        rec.check(seen.len() == 100, "sampling variety", || format!("{}", seen.len()));
        // Both halves of the field; 10 or fewer of 100 has probability 1e-17
        rec.check(high > 10 && high < 90, "sampling covers the field", || format!("{} of 100 above the middle", high));
    });
}

/// Roots, square roots and batch inversion in a user-defined field.
fn utility<P: Custom>(name: &str, m: &Modulus, rng: &mut Rng, rec: &mut Record) {
    type F<P> = PrimeField<P>;
    for _ in 0..4 {
        sqrt::<P>(m, rng, rec);
    }
    let v: Vec<F<P>> = (0..rng.range(0, 20))
        .map(|_| F::<P>::from_montgomery(U256::from_limbs(limbs_mod(rng, m))))
        .filter(|x| !x.is_zero())
        .collect();
    let r = invert_batch(&v);
    rec.check(v.len() == r.len() && v.iter().zip(&r).all(|(x, y)| m.mul(x.uint.as_limbs(), y.uint.as_limbs()) == m.r1), "invert_batch", || {
        format!("{}: {:?}", name, v)
    });
    // An order made of factors of the group order, and perhaps something else
    let mut n = 1_u64;
    for _ in 0..rng.range(0, 5) {
        n = n.saturating_mul(*rng.pick(P::FACTORS));
    }
    if rng.chance(1, 5) {
        n = n.saturating_mul(rng.range(2, 7) as u64);
    }
    if n > u64::from(u32::MAX) {
        return;
    }
    rec.eval(&(n, m.p));
    let order = m.big.sub(&Big::one());
    let divides = order.rem(&Big::from_u128(u128::from(n))).is_zero();
    for r in [F::<P>::root(n as usize), F::<P>::root(&U256::from(n))] {
        match r {
            None => {
                rec.check(!divides, "root missing", || format!("{}: order {}", name, n));
            }
            Some(r) => {
                let r = r.uint.as_limbs();
                let at = |e: u64| m.pow(r, &Big::from_u128(u128::from(e)));
                let good = divides && at(n) == m.r1 && prime_factors(n).iter().all(|q| at(n / q) != m.r1);
                rec.check(good, "root order", || format!("{}: order {}", name, n));
            }
        }
    }
    rec.event(if divides { "custom root order present" } else { "custom root order absent" });
}

fn series(rng: &mut Rng, rec: &mut Record) {
    let (b, s) = (rfe(rng), rnz(rng));
    if rng.chance(1, 4) {
        // Without an end
        let k = match rng.below(3) {
            0 => rng.range(0, 40),
            1 => (rng.u64() >> rng.below(64)) as usize,
            _ => rng.range(0, 1 << 40),
        };
        let st = rng.range(1, 9);
        let g = geometric_series(&el(b), &el(s));
        let m = base();
        let want = |e: u128| Fe(m.mul(&b.0, &m.pow(&s.0, &Big::from_u128(e))));
        rec.eval(&(b, s, k, st));
        rec.check(fe(&g.at(k)) == want(k as u128), "series at, far", || format!("{:?} {:?} at {}", b, s, k));
        if k < usize::MAX / 2 {
            let got: Vec<Fe> = g.skip(k).step_by(st).take(4).map(|x| fe(&x)).collect();
            let exp: Vec<Fe> = (0..4).map(|i| want(k as u128 + (i * st) as u128)).collect();
            rec.check(got == exp, "unbounded series", || format!("{:?} {:?} skip {} step {}", b, s, k, st));
        }
        rec.event("unbounded series observed");
        return;
    }
    let n = rng.range(0, 60);
    let mut g = geometric_series(&el(b), &el(s)).take(n);
    // model: plain vector
    let mut model: Vec<Fe> = vec![];
    let mut c = b;
    for _ in 0..n {
        model.push(c);
        c = c.mul(s);
    }
    let mut trace = format!("take({})", n);
    for _ in 0..rng.range(0, 5) {
        match rng.below(4) {
            0 => {
                let k = if rng.chance(1, 6) { rng.range(0, n + 3) } else { rng.range(0, model.len()) };
                trace += &format!(".skip({})", k);
                g = g.skip(k);
                model = model.into_iter().skip(k).collect();
            }
            1 => {
                let k = rng.range(0, n + 2);
                trace += &format!(".take({})", k);
                g = g.take(k);
                model.truncate(k);
            }
            2 => {
                let k = rng.range(1, 7);
                trace += &format!(".step_by({})", k);
                g = g.step_by(k);
                model = model.into_iter().step_by(k).collect();
            }
            _ => {
                let k = rng.range(0, 3);
                trace += &format!(" next*{}", k);
                for _ in 0..k {
                    let got = g.next().map(|x| fe(&x));
                    let want = if model.is_empty() { None } else { Some(model.remove(0)) };
                    rec.check(got == want, "series next", || trace.clone());
                }
            }
        }
    }
    rec.eval(&(b, s, trace.clone()));
    rec.check(g.size_hint() == (model.len(), Some(model.len())), "series size_hint", || {
        format!("{}: {:?} instead of {}", trace, g.size_hint(), model.len())
    });
    for i in 0..model.len().min(10) {
        rec.check(fe(&g.at(i)) == model[i], "series at", || format!("{} at {}", trace, i));
    }
    let got: Vec<Fe> = g.map(|x| fe(&x)).collect();
    rec.check(got == model, "series items", || format!("{}: {} items instead of {}", trace, got.len(), model.len()));
    rec.event("series chains observed");
    rec.sample("series", || trace);
}

fn roots(rng: &mut Rng, ix: u64, rec: &mut Record) {
    // base field: orders 2^k * odd part divisors of 2^192 * (2^59 + 17)
    let odd: [u64; 4] = [1, 5, 7, 98_714_381];
    let k = (ix % 64) as u32;
    let mut n = 1_u64 << k;
    let o = *rng.pick(&odd);
    if let Some(x) = n.checked_mul(o) {
        n = x;
    }
    let n = match rng.below(8) {
        0 => rng.u64() >> rng.below(63),
        1 => 3_u64 << (k % 60),
        _ => n,
    };
    if n == 0 {
        return;
    }
    rec.eval(&n);
    let order = base().big.sub(&Big::one());
    let divides = order.rem(&Big::from_u128(u128::from(n))).is_zero();
    let judge = |r: Option<FieldElement>, rec: &mut Record| match r {
        None => {
            rec.check(!divides, "root missing", || format!("order {}", n));
        }
        Some(r) => {
            let r = fe(&r);
            let good = divides && r.pow(n) == Fe::one() && prime_factors(n).iter().all(|q| r.pow(n / q) != Fe::one());
            rec.check(good, "root order", || format!("order {} root {:?}", n, r));
        }
    };
    judge(FieldElement::root(n as usize), rec);
    judge(FieldElement::root(&U256::from(n)), rec);
    // big power-of-two orders through the U256 interface
    let kk = rng.range(1, 195);
    let o = Big::pow2(kk);
    match FieldElement::root(&ub(&o)) {
        None => {
            rec.check(kk > 192, "root missing (2^k)", || format!("2^{}", kk));
        }
        Some(r) => {
            let mut x = fe(&r);
            for _ in 0..kk - 1 {
                x = x.mul(x);
            }
            rec.check(kk <= 192 && x == Fe::one().neg(), "root order (2^k)", || format!("2^{}", kk));
        }
    }
    if divides && n <= 4096 {
        let r = Fe::from(FieldElement::root(n as usize).unwrap());
        let got: Vec<Fe> = root_series::<FieldElement>(n as usize).map(|x| fe(&x)).collect();
        let mut c = Fe::one();
        let mut good = got.len() == n as usize;
        for x in &got {
            good &= *x == c;
            c = c.mul(r);
        }
        rec.check(good, "root_series", || format!("order {}", n));
        rec.event("root series observed");
    }
    rec.event("root orders judged");
}

impl From<FieldElement> for Fe {
    fn from(x: FieldElement) -> Fe {
        fe(&x)
    }
}

fn prime_factors(mut n: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut p = 2;
    while p * p <= n && p < 1 << 21 {
        if n % p == 0 {
            v.push(p);
            while n % p == 0 {
                n /= p;
            }
        }
        p += 1;
    }
    if n > 1 {
        v.push(n);
    }
    v
}

fn sqrt<P: Parameters<UInt = U256>>(m: &Modulus, rng: &mut Rng, rec: &mut Record) {
    let l = limbs_mod(rng, m);
    let l = if rng.chance(1, 2) { m.mul(&l, &l) } else { l };
    rec.eval(&(l, m.p));
    let a = PrimeField::<P>::from_montgomery(U256::from_limbs(l));
    let qr = l == [0; 4] || m.pow(&l, &m.big.shr(1)) == m.r1;
    rec.check(a.is_quadratic_residue() == qr, "is_quadratic_residue", || format!("{:?}", l));
    match a.square_root() {
        None => {
            rec.check(!qr, "square_root none", || format!("{:?}", l));
            rec.event("non-residues");
        }
        Some(r) => {
            let r = r.as_montgomery().as_limbs();
            rec.check(qr && m.mul(r, r) == l, "square_root", || format!("{:?}", l));
            rec.event("square roots");
        }
    }
}

fn integers(rng: &mut Rng, rec: &mut Record) {
    let v = u128::from(rng.limb()) | u128::from(rng.limb()) << 64;
    let v = match rng.below(12) {
        0 => 1 << 127,
        1 => u128::MAX,
        2 => 1 << 63,
        3 => 1 << 31,
        4 => 1 << 15,
        5 => 1 << 7,
        _ => v >> rng.below(128),
    };
    rec.eval(&v);
    let m = base();
    let want = |x: i128| {
        if x >= 0 {
            Fe(m.enc(&Big::from_u128(x as u128)))
        } else {
            Fe(m.enc(&Big::from_u128(x.unsigned_abs()))).neg()
        }
    };
    let det = || format!("v={}", v);
    macro_rules! conv {
        ($($t:ident)*) => { $( {
            let x = v as $t;
            rec.check(fe(&FieldElement::from(x)) == want(x as i128), concat!("from ", stringify!($t)), det);
            let y = scalar().enc(&Big::from_u128((x as i128).unsigned_abs()));
            let y = if (x as i128) < 0 { scalar().sub(&[0; 4], &y) } else { y };
            rec.check(ScalarFieldElement::from(x).as_montgomery().as_limbs() == &y, concat!("scalar from ", stringify!($t)), det);
        } )* }
    }
    conv!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize i128);
    rec.check(fe(&FieldElement::from(v)) == Fe(m.enc(&Big::from_u128(v))), "from u128", det);
    // back
    let x = v as i128;
    let f = FieldElement::from(v);
    rec.check(f.to_u128() == Some(v), "to_u128", det);
    rec.check(f.to_u64() == u64::try_from(v).ok(), "to_u64", det);
    rec.check(f.to_u32() == u32::try_from(v).ok(), "to_u32", det);
    rec.check(f.to_i128() == i128::try_from(v).ok(), "to_i128", det);
    let f = el(want(x));
    rec.check(f.to_i128() == Some(x), "to_i128 signed", || format!("{} gives {:?}", x, f.to_i128()));
    rec.check(f.to_i64() == i64::try_from(x).ok(), "to_i64 signed", || format!("{}", x));
    let big_one = rfe(rng);
    let d = m.dec(&big_one.0);
    rec.check(
        el(big_one).to_u128() == if d.bits() <= 128 { Some(d.low_u128()) } else { None },
        "to_u128 wide",
        || format!("{:?}", big_one),
    );
}

// ------------------------------------------------------------------------ C10

fn pools() -> Vec<rayon::ThreadPool> {
    [1, 2, 3, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect()
}

pub fn vec_fe(rng: &mut Rng, n: usize) -> Vec<Fe> {
    let style = rng.below(5);
    (0..n)
        .map(|i| match style {
            0 => {
                if rng.below(20) == 0 {
                    rfe(rng)
                } else {
                    Fe::ZERO
                }
            }
            1 => Fe::int(i as u64),
            _ => rfe(rng),
        })
        .collect()
}

fn transforms(ctx: &Ctx) {
    let pools = pools();
    let top = if ctx.thorough { 18 } else { 14 };
    ctx.cases("fft", 4, ctx.n(180, 1500), |rng, ix, rec| {
        let k = if ix <= top { ix } else { (rng.below(20) as u64).min(rng.below(12) as u64) };
        let n = 1_usize << k;
        let c = vec_fe(rng, n);
        let p = rng.below(pools.len());
        let root = Fe::root(n);
        let natural = dft(&c, root);
        let perm = |v: &[Fe]| (0..v.len()).map(|i| v[bitrev(v.len(), i)]).collect::<Vec<_>>();
        let toe = |v: &[Fe]| v.iter().map(|x| el(*x)).collect::<Vec<_>>();
        let tof = |v: &[FieldElement]| v.iter().map(fe).collect::<Vec<_>>();
        let det = |f: &str| format!("{} n={} pool={} first={:?}", f, n, p, c[0]);
        rec.eval(&(n, p, &c));
        let sq = n > 1;
        let mut run = |f: &str, want: &[Fe], g: &mut (dyn FnMut(&mut Vec<FieldElement>) + Send)| {
            let mut v = toe(&c);
            pools[p].install(|| g(&mut v));
            let got = tof(&v);
            rec.check(got == want, f, || det(f));
            rec.event(&format!("transform {}", f));
        };
        run("fft", &perm(&natural), &mut |v| v.fft());
        run("fft_root", &perm(&natural), &mut |v| v.fft_root(&el(root)));
        if sq {
            run("radix_sqrt", &perm(&natural), &mut |v| radix_sqrt(v, &el(root)));
        }
        let tw: Vec<FieldElement> = get_twiddles(&el(root), n);
        run("fft_vec_recursive", &perm(&natural), &mut |v| fft_vec_recursive(v, &tw, 0, 1, 1));
        run("ifft", &perm(&idft(&c, root)), &mut |v| v.ifft());
        let s = rnz(rng);
        let mut shifted = vec![];
        let mut pw = Fe::one();
        for x in &c {
            shifted.push(x.mul(pw));
            pw = pw.mul(s);
        }
        run("fft_cofactor", &perm(&dft(&shifted, root)), &mut |v| v.fft_cofactor(&el(s)));
        run("clone_shifted", &shifted, &mut |v| {
            let src = v.clone();
            for x in v.iter_mut() {
                *x = FieldElement::zero();
            }
            v.clone_shifted(&src, &el(s));
        });
        // evaluating on a coset and interpolating back gives the polynomial
        run("coset round trip", &c, &mut |v| {
            v.fft_cofactor(&el(s));
            permute(v);
            v.ifft();
            permute(v);
            let si = el(s).inv().unwrap();
            let mut w = FieldElement::one();
            for x in v.iter_mut() {
                *x *= &w;
                w *= &si;
            }
        });
        // ifft_cofactor: what the name promises on permuted order
        let it = idft(&c, root);
        let itp = perm(&it);
        let si = s.inv().unwrap();
        let mut pw = Fe::one();
        let want: Vec<Fe> = itp
            .iter()
            .map(|x| {
                let r = x.mul(pw);
                pw = pw.mul(si);
                r
            })
            .collect();
        run("ifft_cofactor", &want, &mut |v| v.ifft_cofactor(&el(s)));
        run("permute", &perm(&c), &mut |v| permute(v));
        // scalar and spot evaluation
        let i = rng.below(n);
        let spot = horner(&c, root.pow(i as u64));
        rec.check(spot == natural[i], "reference spot", || det("reference"));
        rec.check(permute_index(n, i) == bitrev(n, i), "permute_index", || format!("{} {}", n, i));
        if rng.chance(1, 4) {
            rec.sample("fft", || det("fft"));
        }
    });
    ctx.cases("clone_shifted lengths", 4, ctx.n(60, 600), |rng, _, rec| {
        let n = rng.range(0, 9000);
        let m = match rng.below(3) {
            0 => n,
            _ => rng.range(0, 9000),
        };
        let c = vec_fe(rng, n);
        let s = rfe(rng);
        let p = rng.below(pools.len());
        rec.eval(&(n, m, p, s));
        let src: Vec<FieldElement> = c.iter().map(|x| el(*x)).collect();
        let mut dst = vec![el(Fe::int(77)); m];
        pools[p].install(|| dst.clone_shifted(&src, &el(s)));
        let mut pw = Fe::one();
        let mut good = true;
        for (i, d) in dst.iter().enumerate() {
            let want = if i < n { c[i].mul(pw) } else { Fe::int(77) };
            good &= fe(d) == want;
            pw = pw.mul(s);
        }
        rec.check(good, "clone_shifted", || format!("source {} destination {} pool {}", n, m, p));
    });
    ctx.cases("generic field", 4, ctx.n(24, 60), |rng, ix, rec| {
        // the transform is generic: run it over a user-defined field
        type F = PrimeField<Bls>;
        let n = 1_usize << (ix % 12);
        let m = bls();
        let c: Vec<L> = (0..n).map(|_| limbs_mod(rng, m)).collect();
        rec.eval(&c);
        let mut v: Vec<F> = c.iter().map(|l| F::from_montgomery(U256::from_limbs(*l))).collect();
        v.fft();
        let root = *F::root(n).unwrap().as_montgomery().as_limbs();
        for _ in 0..8 {
            let i = rng.below(n);
            let x = m.pow(&root, &Big::from_u128(i as u128));
            let want = c.iter().rev().fold([0; 4], |a, b| m.add(&m.mul(&a, &x), b));
            rec.check(v[bitrev(n, i)].as_montgomery().as_limbs() == &want, "fft generic", || format!("n={} i={}", n, i));
        }
        v = c.iter().map(|l| F::from_montgomery(U256::from_limbs(*l))).collect();
        v.fft();
        permute(&mut v);
        v.ifft();
        permute(&mut v);
        rec.check(v.iter().zip(&c).all(|(a, b)| a.as_montgomery().as_limbs() == b), "ifft generic", || format!("n={}", n));
    });
    ctx.cases("kernels", 4, ctx.n(200, 2000), |rng, _, rec| kernels(rng, rec));
}

fn kernels(rng: &mut Rng, rec: &mut Record) {
    // transpose of size x size stretches
    let size = 2 * rng.range(1, 40);
    let stretch = rng.range(1, 2);
    let v: Vec<u32> = (0..size * size * stretch).map(|_| rng.u64() as u32).collect();
    let mut t = v.clone();
    transpose_square_stretch(&mut t, size, stretch);
    let mut good = true;
    for r in 0..size {
        for c in 0..size {
            for s in 0..stretch {
                good &= t[(r * size + c) * stretch + s] == v[(c * size + r) * stretch + s];
            }
        }
    }
    rec.eval(&(size, stretch, v[0]));
    rec.check(good, "transpose_square_stretch", || format!("size {} stretch {}", size, stretch));
    // butterflies with offset and stride leave everything else alone
    let (off, stride) = (rng.below(4), rng.range(4, 9));
    for k in 1..=3_usize {
        let n = 1 << k;
        let c = vec_fe(rng, off + n * stride + 3);
        let mut v: Vec<FieldElement> = c.iter().map(|x| el(*x)).collect();
        let tw = get_twiddles(&el(Fe::root(n)), n);
        match k {
            1 => small::radix_2(&mut v, off, stride),
            2 => small::radix_4(&mut v, &tw, off, stride),
            _ => small::radix_8(&mut v, &tw, off, stride),
        }
        let sub: Vec<Fe> = (0..n).map(|i| c[off + i * stride]).collect();
        let d = dft(&sub, Fe::root(n));
        let mut want = c.clone();
        for i in 0..n {
            want[off + i * stride] = d[bitrev(n, i)];
        }
        let got: Vec<Fe> = v.iter().map(fe).collect();
        rec.check(got == want, "radix kernel", || format!("radix {} offset {} stride {}", n, off, stride));
    }
    // several interleaved transforms at once
    let count = 1 << rng.range(0, 9);
    let n = 1 << rng.range(0, 5);
    let c = vec_fe(rng, count * n);
    let mut v: Vec<FieldElement> = c.iter().map(|x| el(*x)).collect();
    fft_vec_recursive(&mut v, &get_twiddles(&el(Fe::root(n)), n), 0, count, count);
    let mut good = true;
    for j in 0..count {
        let sub: Vec<Fe> = (0..n).map(|i| c[j + i * count]).collect();
        let d = dft(&sub, Fe::root(n));
        for i in 0..n {
            good &= fe(&v[j + i * count]) == d[bitrev(n, i)];
        }
    }
    rec.check(good, "fft_vec_recursive batch", || format!("count {} size {}", count, n));
    let tw = el(rfe(rng));
    let c = [rfe(rng), rfe(rng)];
    let mut v = [el(c[0]), el(c[1])];
    small::radix_2_twiddle(&mut v, &tw, 0, 1);
    let t = c[1].mul(fe(&tw));
    rec.check(fe(&v[0]) == c[0].add(t) && fe(&v[1]) == c[0].sub(t), "radix_2_twiddle", || format!("{:?}", c));
    rec.event("kernel rounds");
}
