//! C17 group law, C18 scalar multiplication, C19 ECDSA.
use super::Check;
use crate::{
    conv::{el, fe},
    mon::{Ctx, Record, Rng},
    refs::{
        big::Big,
        curve::{generator, Pt},
        field::{scalar, Fe},
        keccak::sha3_256,
    },
};
use std::sync::OnceLock;
use zkp_elliptic_curve::{
    base_mul, double_base_mul, double_mul, mul, window_table_affine, Affine, Jacobian, ScalarFieldElement, GENERATOR,
};
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};
use zkp_u256::U256;

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C17",
        run:     group,
        rule:    "pairs of curve points (random multiples of the generator, with equal, opposite, doubled and infinite \
                  relations, Jacobian coordinates rescaled at random) pushed through every addition, subtraction, \
                  negation, doubling, comparison and conversion; distinct = operands and relation",
        assumes: &["reference affine chord-and-tangent law with independently implemented field arithmetic"],
    });
    v.push(Check {
        id:      "C18",
        run:     scalars,
        rule:    "scalar multiplications by every implementation, scalars biased to window carries, order boundaries and \
                  sparse/dense bit patterns, points including infinity and mutually related ones; distinct = scalar, point",
        assumes: &["reference double-and-add over the reference group law"],
    });
    v.push(Check {
        id:      "C19",
        run:     ecdsa,
        rule:    "signatures made by the library, by the reference, crafted for extreme r, and mutated; verdicts compared \
                  with a reference verifier; distinct = key, digest, signature",
        assumes: &["reference SHA3 and curve arithmetic; forging without knowing the key is not attempted"],
    });
}

pub fn aff(p: &Pt) -> Affine {
    match *p {
        Pt::O => Affine::Zero,
        Pt::P(x, y) => Affine::new(el(x), el(y)),
    }
}

pub fn pt(a: &Affine) -> Pt {
    match a {
        Affine::Zero => Pt::O,
        Affine::Point { x, y } => Pt::P(fe(x), fe(y)),
    }
}

fn jpt(j: &Jacobian) -> Pt {
    let (x, y, z) = (fe(&j.x), fe(&j.y), fe(&j.z));
    match z.inv() {
        None => Pt::O,
        Some(i) => {
            let i2 = i.mul(i);
            Pt::P(x.mul(i2), y.mul(i2).mul(i))
        }
    }
}

/// Jacobian form with a random scale.
fn jac(rng: &mut Rng, p: &Pt) -> Jacobian {
    match *p {
        Pt::O => {
            if rng.chance(1, 2) {
                Jacobian::ZERO
            } else {
                // Any x, y with y^2 = x^3 represents infinity.
                let t = rand_fe(rng);
                Jacobian { x: el(t.mul(t)), y: el(t.mul(t).mul(t)), z: el(Fe::ZERO) }
            }
        }
        Pt::P(x, y) => {
            let z = if rng.chance(1, 3) { Fe::one() } else { rand_fe(rng) };
            let z2 = z.mul(z);
            Jacobian { x: el(x.mul(z2)), y: el(y.mul(z2).mul(z)), z: el(z) }
        }
    }
}

fn rand_fe(rng: &mut Rng) -> Fe {
    loop {
        let f = crate::checks::field::rfe(rng);
        if !f.is_zero() {
            return f;
        }
    }
}

/// Reference table of 2^i G.
fn table() -> &'static Vec<Pt> {
    static T: OnceLock<Vec<Pt>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![generator()];
        for i in 0..255 {
            let p: Pt = v[i];
            v.push(p.add(&p));
        }
        v
    })
}

fn base(k: &Big) -> Pt {
    let k = k.rem(&scalar().big);
    let t = table();
    let mut r = Pt::O;
    for i in 0..k.bits() {
        if k.bit(i) {
            r = r.add(&t[i]);
        }
    }
    r
}

fn rand_point(rng: &mut Rng) -> Pt {
    match rng.below(10) {
        0 => Pt::O,
        1 => generator(),
        2 => base(&Big::from_u128(rng.below(40) as u128)),
        3 => base(&scalar().big.sub(&Big::from_u128(1 + rng.below(40) as u128))),
        _ => base(&Big::from_limbs(&rng.limbs())),
    }
}

fn group(ctx: &Ctx) {
    ctx.cases("pairs", 8, ctx.n(600, 8000), |rng, _, rec| {
        let mut p = rand_point(rng);
        for _ in 0..6 {
            let (rel, q) = match rng.below(7) {
                0 => ("equal", p),
                1 => ("opposite", p.neg()),
                2 => ("double", p.add(&p)),
                3 => ("minus-double", p.add(&p).neg()),
                4 => ("infinity", Pt::O),
                _ => ("other", rand_point(rng)),
            };
            pair(rng, rec, &p, &q, rel);
            p = p.add(&q);
            if rng.chance(1, 4) {
                p = rand_point(rng);
            }
        }
    });
    ctx.cases("off-curve", 8, ctx.n(400, 5000), |rng, _, rec| {
        let (x, y) = (crate::checks::field::rfe(rng), crate::checks::field::rfe(rng));
        let want = Pt::P(x, y).on_curve();
        rec.eval(&("off", x, y));
        let a = Affine::new(el(x), el(y));
        rec.check(a.is_on_curve() == want, "affine is_on_curve", || format!("{:?}", a));
        let j = jac(rng, &Pt::P(x, y));
        rec.check(j.is_on_curve() == want, "jacobian is_on_curve", || format!("{:?}", j));
        // Near misses: a real point with one coordinate disturbed.
        if let Pt::P(x, y) = rand_point(rng) {
            for q in [Pt::P(x, y.add(Fe::one())), Pt::P(x.add(Fe::one()), y), Pt::P(y, x), Pt::P(x, y.neg())] {
                let want = q.on_curve();
                rec.event(if want { "on_curve" } else { "off_curve" });
                let a = aff(&q);
                rec.check(a.is_on_curve() == want, "affine is_on_curve", || format!("{:?}", a));
                let j = jac(rng, &q);
                rec.check(j.is_on_curve() == want, "jacobian is_on_curve", || format!("{:?}", j));
            }
        }
        rec.check(Affine::Zero.is_on_curve(), "infinity on curve", String::new);
        rec.check(pt(&GENERATOR) == generator(), "generator", || format!("{:?}", GENERATOR));
    });
}

fn pair(rng: &mut Rng, rec: &mut Record, p: &Pt, q: &Pt, rel: &str) {
    rec.eval(&(p, q));
    rec.event(rel);
    rec.sample(rel, || format!("P={:?} Q={:?}", p, q));
    let (a, b) = (aff(p), aff(q));
    let sum = p.add(q);
    let dif = p.add(&q.neg());
    let what = || format!("{} P={:?} Q={:?}", rel, p, q);
    macro_rules! a {
        ($n:expr, $e:expr, $w:expr) => {{
            let e: Affine = $e;
            rec.check(pt(&e) == $w, $n, || format!("{}: got {:?}", what(), e));
        }};
    }
    macro_rules! j {
        ($n:expr, $e:expr, $w:expr) => {{
            let e: Jacobian = $e;
            rec.check(jpt(&e) == $w, $n, || format!("{}: got {:?}", what(), e));
            let back = Affine::from(&e);
            rec.check(pt(&back) == $w, "jacobian to affine", || format!("{}: got {:?}", what(), back));
        }};
    }
    a!("affine add", &a + &b, sum);
    a!("affine add", a.clone() + b.clone(), sum);
    a!("affine add", &a + b.clone(), sum);
    a!("affine add", a.clone() + &b, sum);
    a!("affine sub", &a - &b, dif);
    a!("affine sub", a.clone() - b.clone(), dif);
    a!("affine sub", &a - b.clone(), dif);
    a!("affine sub", a.clone() - &b, dif);
    a!("affine neg", -&a, p.neg());
    a!("affine double", a.double(), p.add(p));
    a!(
        "affine assign",
        {
            let mut t = a.clone();
            t += &b;
            t -= &a;
            t.neg_assign();
            t.double_assign();
            t
        },
        q.neg().add(&q.neg())
    );
    rec.check((a == b) == (p == q), "affine eq", what);
    let (k, l) = (jac(rng, p), jac(rng, q));
    j!("jacobian add", &k + &l, sum);
    j!("jacobian add", k.clone() + l.clone(), sum);
    j!("jacobian add", &k + l.clone(), sum);
    j!("jacobian add", k.clone() + &l, sum);
    j!("jacobian sub", &k - &l, dif);
    j!("jacobian sub", k.clone() - l.clone(), dif);
    j!("jacobian sub", &k - l.clone(), dif);
    j!("jacobian sub", k.clone() - &l, dif);
    j!("jacobian neg", -&k, p.neg());
    j!("jacobian double", k.double(), p.add(p));
    j!("mixed add", &k + &b, sum);
    j!(
        "mixed add",
        {
            let mut t = k.clone();
            t += &b;
            t
        },
        sum
    );
    j!(
        "mixed sub",
        {
            let mut t = k.clone();
            t -= &b;
            t
        },
        dif
    );
    j!(
        "jacobian assign",
        {
            let mut t = k.clone();
            t += &l;
            t -= &k;
            t.neg_assign();
            t.double_assign();
            t
        },
        q.neg().add(&q.neg())
    );
    j!("affine to jacobian", Jacobian::from(&a), *p);
    j!("affine to jacobian", Jacobian::from(a.clone()), *p);
    rec.check((k == l) == (p == q), "jacobian eq", what);
    let k2 = jac(rng, p);
    rec.check(k == k2, "jacobian eq rescaled", what);
    rec.check(a.is_on_curve() && k.is_on_curve(), "is_on_curve", what);
    let xy = a.as_coordinates().map(|(x, y)| (fe(x), fe(y)));
    rec.check(
        xy == match *p {
            Pt::O => None,
            Pt::P(x, y) => Some((x, y)),
        } && a.x().map(fe) == xy.map(|t| t.0)
            && a.y().map(fe) == xy.map(|t| t.1)
            && a.clone().into_coordinates().map(|(x, y)| (fe(&x), fe(&y))) == xy,
        "coordinates",
        what,
    );
}

pub fn sc(k: &Big) -> ScalarFieldElement {
    // Through the Montgomery form, so that the conversions under test are not
    // part of the oracle.
    ScalarFieldElement::from_montgomery(U256::from_limbs(scalar().enc(&k.rem(&scalar().big))))
}

pub fn scb(s: &ScalarFieldElement) -> Big {
    scalar().dec(s.as_montgomery().as_limbs())
}

fn rand_scalar(rng: &mut Rng) -> Big {
    let n = &scalar().big;
    let k = match rng.below(9) {
        0 => Big::from_u128(rng.below(300) as u128),
        1 => n.sub(&Big::from_u128(1 + rng.below(300) as u128)),
        2 => Big::pow2(rng.below(252)),
        3 => Big::pow2(rng.below(252)).sub(&Big::one()),
        4 => {
            // Window-shaped: digits at stride 5 or 7 from a small alphabet.
            let w = *rng.pick(&[4_usize, 5, 6, 7, 8]);
            let mut k = Big::zero();
            let d = [0, 1, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << (w - 1)) + 1, (1 << w) - 1];
            for _ in 0..(252 / w) {
                k = k.shl(w).add(&Big::from_u128(*rng.pick(&d)));
            }
            k
        }
        5 => n.shr(1).add(&Big::from_u128(rng.below(3) as u128)),
        _ => Big::from_limbs(&rng.limbs()),
    };
    k.rem(n)
}

fn scalars(ctx: &Ctx) {
    // Exhaustive small and boundary scalars for the generator.
    ctx.cases("boundary", 8, ctx.n(256, 1024), |_, ix, rec| {
        let n = &scalar().big;
        let i = Big::from_u128(u128::from(ix));
        let mut tab = vec![Affine::Zero; 32];
        window_table_affine(&GENERATOR, &mut tab);
        let mut ks = vec![i.clone(), n.sub(&i).rem(n)];
        if ix < 252 {
            ks.push(Big::pow2(ix as usize));
            ks.push(n.sub(&Big::pow2(ix as usize)));
        }
        for k in ks {
            let want = base(&k);
            let s = sc(&k);
            rec.eval(&("boundary", &k));
            let g = aff(&generator());
            rec.check(jpt(&mul(&g, &s)) == want, "wnaf mul", || format!("k={}", k.to_hex()));
            rec.check(jpt(&base_mul(&tab, &s)) == want, "base_mul", || format!("k={}", k.to_hex()));
            rec.check(pt(&(&g * &s)) == want, "affine mul", || format!("k={}", k.to_hex()));
        }
    });
    ctx.cases("random", 8, ctx.n(200, 4000), |rng, _, rec| {
        let p = rand_point(rng);
        let q = match rng.below(6) {
            0 => p,
            1 => p.neg(),
            2 => p.add(&p),
            3 => {
                let mut t = p;
                for _ in 0..rng.below(16) {
                    t = t.add(&p);
                }
                t
            }
            _ => rand_point(rng),
        };
        let k = rand_scalar(rng);
        let l = match rng.below(5) {
            0 => k.clone(),
            1 => scalar().big.sub(&k).rem(&scalar().big),
            _ => rand_scalar(rng),
        };
        rec.eval(&(&p, &q, &k, &l));
        rec.sample("random", || format!("P={:?} k={} l={}", p, k.to_hex(), l.to_hex()));
        let (a, b, s, t) = (aff(&p), aff(&q), sc(&k), sc(&l));
        let kp = p.mul(&k);
        let lq = q.mul(&l);
        let both = kp.add(&lq);
        let what = || format!("P={:?} Q={:?} k={} l={}", p, q, k.to_hex(), l.to_hex());
        rec.check(jpt(&mul(&a, &s)) == kp, "wnaf mul", what);
        rec.check(pt(&(&a * &s)) == kp, "affine mul", what);
        rec.check(pt(&(a.clone() * s.clone())) == kp, "affine mul", what);
        rec.check(pt(&(a.clone() * &s)) == kp, "affine mul", what);
        rec.check(pt(&(&a * s.clone())) == kp, "affine mul", what);
        let mut m = a.clone();
        m *= &s;
        m *= s.clone();
        rec.check(pt(&m) == kp.mul(&k), "affine mul assign", what);
        let j = jac(rng, &p);
        rec.check(jpt(&(&j * &s)) == kp, "jacobian mul", what);
        rec.check(jpt(&(j.clone() * s.clone())) == kp, "jacobian mul", what);
        let mut m = j.clone();
        m *= &s;
        rec.check(jpt(&m) == kp, "jacobian mul assign", what);
        rec.check(jpt(&double_mul(&a, &s, &b, &t)) == both, "double_mul", what);
        let mut tab = vec![Affine::Zero; 32];
        window_table_affine(&a, &mut tab);
        let mut odd = p;
        for (i, e) in tab.iter().enumerate() {
            rec.check(pt(e) == odd, "window table", || format!("{} entry {}", what(), i));
            odd = odd.add(&p).add(&p);
        }
        rec.check(jpt(&base_mul(&tab, &s)) == kp, "base_mul", what);
        rec.check(jpt(&double_base_mul(&tab, &s, &b, &t)) == both, "double_base_mul", what);
        let len = rng.range(1, 40);
        let mut tab = vec![Affine::Zero; len];
        window_table_affine(&b, &mut tab);
        let mut odd = q;
        for e in &tab {
            rec.check(pt(e) == odd, "window table", || format!("{} len {}", what(), len));
            odd = odd.add(&q).add(&q);
        }
    });
}

// -------------------------------------------------------------------- ECDSA

/// None: no k found on the first tries (not reachable in practice).
fn ref_sign(d: &Big, digest: &Big) -> Option<(Big, Big)> {
    let n = scalar();
    for nonce in 0..8_u64 {
        let mut nb = [0; 32];
        nb[24..].copy_from_slice(&nonce.to_be_bytes());
        let h = sha3_256(&[&be32(d), &be32(digest), &nb]);
        let k = from_be(&h).rem(&n.big);
        if k.is_zero() {
            continue;
        }
        if let Pt::P(x, _) = base(&k) {
            let r = crate::refs::field::base().dec(&x.0).rem(&n.big);
            if r.is_zero() {
                continue;
            }
            let s = r.mul(d).add(digest).rem(&n.big);
            if s.is_zero() {
                continue;
            }
            let w = k.mul(&inv_n(&s)).rem(&n.big);
            return Some((r, w));
        }
    }
    None
}

pub fn inv_n(s: &Big) -> Big {
    let n = scalar();
    n.dec(&n.inv(&n.enc(s)).unwrap())
}

pub fn be32(b: &Big) -> [u8; 32] {
    let l = b.limbs4();
    let mut r = [0; 32];
    for i in 0..4 {
        r[8 * (3 - i)..8 * (4 - i)].copy_from_slice(&l[i].to_be_bytes());
    }
    r
}

pub fn from_be(b: &[u8]) -> Big {
    let mut l = [0_u64; 4];
    for i in 0..4 {
        l[3 - i] = u64::from_be_bytes([
            b[8 * i],
            b[8 * i + 1],
            b[8 * i + 2],
            b[8 * i + 3],
            b[8 * i + 4],
            b[8 * i + 5],
            b[8 * i + 6],
            b[8 * i + 7],
        ]);
    }
    Big::from_limbs(&l)
}

fn ref_verify(q: &Pt, digest: &Big, r: &Big, w: &Big) -> bool {
    let n = &scalar().big;
    if r.is_zero() || w.is_zero() || *q == Pt::O || !q.on_curve() {
        return false;
    }
    let u1 = digest.mul(w).rem(n);
    let u2 = r.mul(w).rem(n);
    match base(&u1).add(&q.mul(&u2)) {
        Pt::O => false,
        Pt::P(x, _) => crate::refs::field::base().dec(&x.0).rem(n) == *r,
    }
}

fn sqrt_point(rng: &mut Rng, mut x: Big) -> (Pt, Big) {
    // Smallest x' >= x on the curve: Tonelli-Shanks over p = 1 mod 2^192.
    let p = crate::refs::field::base();
    loop {
        let xe = Fe(p.enc(&x));
        let rhs = xe.mul(xe).mul(xe).add(xe).add(crate::refs::curve::beta());
        if let Some(y) = crate::refs::field::sqrt(rhs) {
            let y = if rng.chance(1, 2) { y } else { y.neg() };
            return (Pt::P(xe, y), x);
        }
        x = x.add(&Big::one());
    }
}

fn ecdsa(ctx: &Ctx) {
    ctx.cases("sign", 8, ctx.n(250, 4000), |rng, _, rec| {
        let n = &scalar().big;
        let mut d = rand_scalar(rng);
        if d.is_zero() {
            d = Big::one();
        }
        let digest = rand_scalar(rng);
        rec.eval(&("sign", &d, &digest));
        rec.sample("sign", || format!("d={} digest={}", d.to_hex(), digest.to_hex()));
        let key = PrivateKey::from(sc(&d));
        let pubkey = PublicKey::from(&key);
        let q = base(&d);
        let what = || format!("d={} digest={}", d.to_hex(), digest.to_hex());
        rec.check(scb(key.as_scalar_field_element()) == d, "private key", what);
        rec.check(pt(pubkey.as_affine()) == q, "public key", what);
        let z = sc(&digest);
        let sig = key.sign(&z);
        let (r, w) = ref_sign(&d, &digest).unwrap();
        rec.check(
            scb(sig.r()) == r && scb(sig.w()) == w,
            "sign differs from the deterministic specification",
            what,
        );
        rec.check(key.sign(&z) == sig, "sign is not a function", what);
        rec.check(pubkey.verify(&z, &sig), "own signature rejected", what);
        rec.event("signed");
        // Mutations, judged by the reference verifier.
        let (r, w) = (scb(sig.r()), scb(sig.w()));
        let one = Big::one();
        let neg = |x: &Big| n.sub(x).rem(n);
        let (other, _) = (base(&rand_scalar(rng)), ());
        let cases: Vec<(Pt, Big, Big, Big)> = vec![
            (q, digest.add(&one).rem(n), r.clone(), w.clone()),
            (q, digest.clone(), r.add(&one).rem(n), w.clone()),
            (q, digest.clone(), r.clone(), w.add(&one).rem(n)),
            (q, digest.clone(), r.clone(), neg(&w)),
            (q, digest.clone(), neg(&r), w.clone()),
            (q, neg(&digest), r.clone(), w.clone()),
            (q, digest.clone(), w.clone(), r.clone()),
            (q.neg(), digest.clone(), r.clone(), w.clone()),
            (other, digest.clone(), r.clone(), w.clone()),
            (q, digest.clone(), r.clone(), inv_n(&w)),
            (q, digest.clone(), Big::zero(), w.clone()),
            (q, digest.clone(), r.clone(), Big::zero()),
            (q, Big::zero(), r.clone(), w.clone()),
            (Pt::O, digest.clone(), r.clone(), w.clone()),
            (q, digest.clone(), rand_scalar(rng), rand_scalar(rng)),
            (q, digest.add(&Big::pow2(rng.below(251))).rem(n), r.clone(), w.clone()),
        ];
        for (i, (q, z, r, w)) in cases.into_iter().enumerate() {
            judge(rec, i, &q, &z, &r, &w);
        }
    });
    ctx.cases("crafted", 8, ctx.n(120, 2000), |rng, ix, rec| {
        // A valid (key, digest, signature) triple around a chosen point R,
        // including x(R) >= n, where r is the reduced coordinate.
        let n = &scalar().big;
        let p = &crate::refs::field::base().big;
        let start = match ix % 5 {
            0 => n.add(&Big::from_u128(rng.below(1000) as u128)),
            1 => p.sub(&Big::from_u128(2000 + rng.below(1000) as u128)),
            2 => Big::from_u128(1 + rng.below(1000) as u128),
            3 => n.sub(&Big::from_u128(1 + rng.below(3) as u128)),
            _ => Big::from_limbs(&rng.limbs()).rem(p),
        };
        let (rp, x) = sqrt_point(rng, start);
        let r = x.rem(n);
        if r.is_zero() {
            return;
        }
        rec.event(if x.lt(n) { "x(R) < n" } else { "x(R) >= n" });
        let w = rand_scalar(rng);
        if w.is_zero() {
            return;
        }
        let z = rand_scalar(rng);
        let u1 = z.mul(&w).rem(n);
        let u2 = r.mul(&w).rem(n);
        let q = rp.add(&base(&u1).neg()).mul(&inv_n(&u2));
        judge(rec, 100, &q, &z, &r, &w);
        // Off-curve keys
        if let Pt::P(x, y) = q {
            judge(rec, 101, &Pt::P(x, y.add(Fe::one())), &z, &r, &w);
            judge(rec, 102, &Pt::P(y, x), &z, &r, &w);
        }
    });
}

fn judge(rec: &mut Record, i: usize, q: &Pt, z: &Big, r: &Big, w: &Big) {
    let want = ref_verify(q, z, r, w);
    rec.eval(&(q, z, r, w));
    rec.event(if want { "expected accept" } else { "expected reject" });
    let what = || format!("case {} Q={:?} z={} r={} w={}", i, q, z.to_hex(), r.to_hex(), w.to_hex());
    let key = PublicKey::from(aff(q));
    let sig = Signature::new(sc(r), sc(w));
    match crate::mon::guard(|| key.verify(&sc(z), &sig)) {
        Ok(got) => {
            rec.check(
                got == want,
                if want { "valid signature rejected" } else { "invalid signature accepted" },
                what,
            );
        }
        Err(m) => rec.violation("verify panics", format!("{}: {}", what(), m)),
    }
}

