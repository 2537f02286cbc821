//! U256: ring / bit / comparison semantics (C13), division family and modular
//! arithmetic (C14).
use super::Check;
use crate::{
    conv::{big, u, ub},
    mon::{Ctx, Record, Rng},
    refs::big::Big,
};
use num_traits::{FromPrimitive, MulAdd, MulAddAssign, ToPrimitive};
use rand::{distributions::Distribution, Rng as _, RngCore};
use zkp_u256::{
    adc, div_2_1, mac, msb, sbb, to_montgomery_const, AddFullInline, AddInline, Binary, Bounded,
    DivRem, Inv, InvMod, Montgomery, MontgomeryParameters, MulFullInline, MulInline, NegInline,
    One, Pow, SquareFullInline, SquareInline, SubFromFullInline, SubFromInline, SubFullInline,
    SubInline, Zero, GCD, U256,
};

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C13",
        run:     ring,
        rule:    "operand tuples drawn from carry-chain, power-of-two, run-of-ones, short and uniform shapes; \
                  every operator form is evaluated and compared with schoolbook big integers; distinct = distinct operand tuples",
        assumes: &["the reference big integer (base 2^32 schoolbook, self-tested) is right",
                   "default feature set; the optional inline-assembly back end is not built"],
    });
    v.push(Check {
        id:      "C14",
        run:     division,
        rule:    "dividends built as q*d+r with adversarial q, d and r in {0, d-1, random}; gcd operands built from continued \
                  fractions with chosen partial quotients; Montgomery inputs reduced; results checked by multiplying back; \
                  distinct = distinct operand tuples",
        assumes: &["the reference big integer is right",
                   "Montgomery moduli are odd and below 2^255 (what the code's final single subtraction requires)"],
    });
}

fn m256(b: &Big) -> Big {
    b.low(256)
}

/// Adapter giving rand's traits on our recorded random stream.
pub struct R<'a>(pub &'a mut Rng);

impl RngCore for R<'_> {
    fn next_u32(&mut self) -> u32 {
        self.0.u64() as u32
    }

    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }

    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.0.u64() as u8;
        }
    }

    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

fn ring(ctx: &Ctx) {
    ctx.cases("ops", 8, ctx.n(400, 12_000), |rng, _, rec| {
        for _ in 0..100 {
            ring_one(rng, rec);
        }
    });
    ctx.cases("limbs", 8, ctx.n(40, 400), |rng, _, rec| {
        for _ in 0..2000 {
            limb_ops(rng, rec);
        }
    });
    ctx.cases("sampling", 8, ctx.n(40, 600), |rng, _, rec| sampling(rng, rec));
    ctx.cases("primitive", 4, ctx.n(20, 200), |rng, _, rec| {
        for _ in 0..50 {
            let shape = |rng: &mut Rng| rng.u64() & (if rng.chance(1, 2) { u64::MAX } else { rng.u64() }) >> rng.below(64);
            let (a, b) = (shape(rng), shape(rng));
            let v = (u128::from(a) << if rng.chance(1, 2) { 64 } else { 0 }) | u128::from(b);
            rec.eval(&("primitive", v));
            primitive(rng, rec, v as u8, v as u8 as u128, 8, "u8");
            primitive(rng, rec, v as u16, v as u16 as u128, 16, "u16");
            primitive(rng, rec, v as u32, v as u32 as u128, 32, "u32");
            primitive(rng, rec, v as u64, v as u64 as u128, 64, "u64");
            primitive(rng, rec, v as usize, v as usize as u128, 64, "usize");
            primitive(rng, rec, v, v, 128, "u128");
        }
    });
}

fn ring_one(rng: &mut Rng, rec: &mut Record) {
    let (la, lb) = (rng.limbs(), rng.limbs());
    let lb = if rng.chance(1, 12) { la } else { lb };
    let s = rng.limb();
    let sh = match rng.below(4) {
        0 => rng.below(300),
        1 => 64 * rng.below(6),
        2 => (64 * rng.below(5) + rng.below(3)).saturating_sub(1),
        _ => rng.below(64),
    };
    let sh = if rng.chance(1, 60) { usize::MAX - rng.below(3) } else { sh };
    rec.eval(&(la, lb, s, sh));
    let (a, b) = (u(la), u(lb));
    let (x, y) = (big(&a), big(&b));
    let mut ok = |name: &str, got: &U256, want: &Big| {
        let w = m256(want);
        if got.as_limbs() != &w.limbs4() {
            rec.violation(
                &format!("u256 {}", name),
                format!("a={:?} b={:?} s={} sh={}: got {:?}, expected {}", la, lb, s, sh, got, w.to_hex()),
            );
        }
    };
    let two = Big::pow2(256);
    let sum = x.add(&y);
    let dif = x.add(&two).sub(&y);
    let rdif = y.add(&two).sub(&x);
    let prod = x.mul(&y);
    let bs = Big::from_u128(u128::from(s));

    // all reference/value forms
    ok("add vv", &(a.clone() + b.clone()), &sum);
    ok("add vr", &(a.clone() + &b), &sum);
    ok("add rv", &(&a + b.clone()), &sum);
    ok("add rr", &(&a + &b), &sum);
    ok("add inline", &a.add_inline(&b), &sum);
    ok("sub vv", &(a.clone() - b.clone()), &dif);
    ok("sub vr", &(a.clone() - &b), &dif);
    ok("sub rv", &(&a - b.clone()), &dif);
    ok("sub rr", &(&a - &b), &dif);
    ok("sub inline", &a.sub_inline(&b), &dif);
    ok("mul vv", &(a.clone() * b.clone()), &prod);
    ok("mul vr", &(a.clone() * &b), &prod);
    ok("mul rv", &(&a * b.clone()), &prod);
    ok("mul rr", &(&a * &b), &prod);
    ok("mul inline", &MulInline::<&U256>::mul_inline(&a, &b), &prod);
    let mut t = a.clone();
    t += &b;
    ok("add_assign r", &t, &sum);
    let mut t = a.clone();
    t += b.clone();
    ok("add_assign v", &t, &sum);
    let mut t = a.clone();
    t -= &b;
    ok("sub_assign r", &t, &dif);
    let mut t = a.clone();
    t -= b.clone();
    ok("sub_assign v", &t, &dif);
    let mut t = a.clone();
    t *= &b;
    ok("mul_assign r", &t, &prod);
    let mut t = a.clone();
    t *= b.clone();
    ok("mul_assign v", &t, &prod);
    let mut t = a.clone();
    AddInline::add_assign_inline(&mut t, &b);
    ok("add_assign_inline", &t, &sum);
    let mut t = a.clone();
    SubInline::sub_assign_inline(&mut t, &b);
    ok("sub_assign_inline", &t, &dif);
    let mut t = a.clone();
    MulInline::<&U256>::mul_assign_inline(&mut t, &b);
    ok("mul_assign_inline", &t, &prod);

    // u64 scalars
    let sp = x.mul(&bs);
    ok("mul u64 v", &(a.clone() * s), &sp);
    ok("mul u64 r", &(&a * s), &sp);
    ok("u64 mul v", &(s * a.clone()), &sp);
    ok("u64 mul r", &(s * &a), &sp);
    let mut t = a.clone();
    t *= s;
    ok("mul_assign u64", &t, &sp);
    ok("mul_inline u64", &MulInline::<u64>::mul_inline(&a, s), &sp);
    let (lo, hi) = MulFullInline::<u64>::mul_full_inline(&a, s);
    ok("mul_full u64", &lo, &sp);
    ok("mul_full u64 hi", &U256::from(hi), &sp.shr(256));

    // full products and squares
    let (lo, hi) = MulFullInline::<&U256>::mul_full(&a, &b);
    ok("mul_full lo", &lo, &prod);
    ok("mul_full hi", &hi, &prod.shr(256));
    let sq = x.mul(&x);
    let (lo, hi) = a.square_full();
    ok("square_full lo", &lo, &sq);
    ok("square_full hi", &hi, &sq.shr(256));
    ok("square", &SquareInline::square(&a), &sq);
    let mut t = a.clone();
    t.square_assign();
    ok("square_assign", &t, &sq);
    let mut t = a.clone();
    let hi = t.square_full_assign();
    ok("square_full_assign lo", &t, &sq);
    ok("square_full_assign hi", &hi, &sq.shr(256));

    // carries and borrows
    let (lo, c) = a.add_full(&b);
    ok("add_full", &lo, &sum);
    ok("add_full carry", &U256::from(c), &sum.shr(256));
    let (lo, c) = a.sub_full(&b);
    let borrow = Big::from_u128(u128::from(x.lt(&y)));
    ok("sub_full", &lo, &dif);
    ok("sub_full borrow", &U256::from(c), &borrow);
    let mut t = a.clone();
    let c = t.sub_from_full_assign(&b);
    ok("sub_from_full", &t, &rdif);
    ok("sub_from_full borrow", &U256::from(c), &Big::from_u128(u128::from(y.lt(&x))));
    let mut t = a.clone();
    t.sub_from_assign(&b);
    ok("sub_from", &t, &rdif);
    ok("neg v", &-a.clone(), &two.sub(&x));
    ok("neg r", &-&a, &two.sub(&x));
    let mut t = a.clone();
    NegInline::neg_assign(&mut t);
    ok("neg_assign", &t, &two.sub(&x));

    // remaining members of the operator traits
    ok("AddInline::add", &AddInline::add(&a, &b), &sum);
    let mut t = a.clone();
    AddInline::add_assign(&mut t, &b);
    ok("AddInline::add_assign", &t, &sum);
    ok("SubInline::sub", &SubInline::sub(&a, &b), &dif);
    let mut t = a.clone();
    SubInline::sub_assign(&mut t, &b);
    ok("SubInline::sub_assign", &t, &dif);
    ok("MulInline::mul", &MulInline::<&U256>::mul(&a, &b), &prod);
    let mut t = a.clone();
    MulInline::<&U256>::mul_assign(&mut t, &b);
    ok("MulInline::mul_assign", &t, &prod);
    ok("MulInline::mul u64", &MulInline::<u64>::mul(&a, s), &sp);
    let mut t = a.clone();
    MulInline::<u64>::mul_assign(&mut t, s);
    ok("MulInline::mul_assign u64", &t, &sp);
    let mut t = a.clone();
    let c = t.add_full_assign(&b);
    ok("add_full_assign", &t, &sum);
    ok("add_full_assign carry", &U256::from(c), &sum.shr(256));
    let mut t = a.clone();
    let c = t.add_full_assign_inline(&b);
    ok("add_full_assign_inline", &t, &sum);
    ok("add_full_assign_inline carry", &U256::from(c), &sum.shr(256));
    let mut t = a.clone();
    let c = t.sub_full_assign(&b);
    ok("sub_full_assign", &t, &dif);
    ok("sub_full_assign borrow", &U256::from(c), &borrow);
    let mut t = a.clone();
    let c = t.sub_full_assign_inline(&b);
    ok("sub_full_assign_inline", &t, &dif);
    ok("sub_full_assign_inline borrow", &U256::from(c), &borrow);
    let mut t = a.clone();
    let hi = MulFullInline::<&U256>::mul_full_assign_inline(&mut t, &b);
    ok("mul_full_assign_inline", &t, &prod);
    ok("mul_full_assign_inline hi", &hi, &prod.shr(256));
    let mut t = a.clone();
    let hi = MulFullInline::<u64>::mul_full_assign_inline(&mut t, s);
    ok("mul_full_assign_inline u64", &t, &sp);
    ok("mul_full_assign_inline u64 hi", &U256::from(hi), &sp.shr(256));
    let (lo, hi) = MulFullInline::<u64>::mul_full(&a, s);
    ok("mul_full u64 lo", &lo, &sp);
    ok("mul_full u64 hi'", &U256::from(hi), &sp.shr(256));
    ok("NegInline::neg", &NegInline::neg(&a), &two.sub(&x));
    let mut t = a.clone();
    t.neg_assign_inline();
    ok("neg_assign_inline", &t, &two.sub(&x));
    let mut t = a.clone();
    t.square_assign_inline();
    ok("square_assign_inline", &t, &sq);
    let mut t = a.clone();
    let hi = t.square_full_assign_inline();
    ok("square_full_assign_inline", &t, &sq);
    ok("square_full_assign_inline hi", &hi, &sq.shr(256));
    let mut t = a.clone();
    let c = t.sub_from_full_assign_inline(&b);
    ok("sub_from_full_assign_inline", &t, &rdif);
    ok("sub_from_full_assign_inline borrow", &U256::from(c), &Big::from_u128(u128::from(y.lt(&x))));

    // fused, powers, folds
    ok("mul_add", &MulAdd::mul_add(&a, &b, &a), &prod.add(&x));
    let mut t = a.clone();
    t.mul_add_assign(&b, &a);
    ok("mul_add_assign", &t, &prod.add(&x));
    let e = if s > 1 << 20 { s >> 44 } else { s };
    let mut want = Big::one();
    let mut base = x.clone();
    let mut k = e;
    while k > 0 {
        if k & 1 == 1 {
            want = m256(&want.mul(&base));
        }
        base = m256(&base.mul(&base));
        k >>= 1;
    }
    ok("pow", &(&a).pow(e), &want);
    let list = vec![a.clone(), b.clone(), U256::from(s)];
    let n = e as usize % 4;
    let (mut ws, mut wp) = (Big::zero(), Big::one());
    for l in list.iter().take(n) {
        ws = ws.add(&big(l));
        wp = m256(&wp.mul(&big(l)));
    }
    ok("Sum", &list.iter().take(n).cloned().sum::<U256>(), &ws);
    ok("Product", &list.iter().take(n).cloned().product::<U256>(), &wp);

    // bits
    let zip = |f: fn(u64, u64) -> u64| Big::from_limbs(&[f(la[0], lb[0]), f(la[1], lb[1]), f(la[2], lb[2]), f(la[3], lb[3])]);
    ok("and", &(&a & &b), &zip(|p, q| p & q));
    ok("and vv", &(a.clone() & b.clone()), &zip(|p, q| p & q));
    ok("or", &(&a | &b), &zip(|p, q| p | q));
    ok("or vr", &(a.clone() | &b), &zip(|p, q| p | q));
    ok("xor", &(&a ^ &b), &zip(|p, q| p ^ q));
    ok("xor rv", &(&a ^ b.clone()), &zip(|p, q| p ^ q));
    ok("not", &!a.clone(), &two.sub(&Big::one()).sub(&x));
    let cap = sh.min(1000);
    ok("shl", &(a.clone() << sh), &if cap >= 256 { Big::zero() } else { x.shl(cap) });
    ok("shr", &(a.clone() >> sh), &x.shr(cap));
    let mut t = a.clone();
    t <<= sh;
    ok("shl_assign", &t, &if cap >= 256 { Big::zero() } else { x.shl(cap) });
    let mut t = a.clone();
    t >>= sh;
    ok("shr_assign", &t, &x.shr(cap));
    ok("and u64", &U256::from(&a & s), &Big::from_u128(u128::from(la[0] & s)));

    // conversions
    ok("from u128", &U256::from(x.low_u128()), &Big::from_u128(x.low_u128()));
    let i = x.low_u128() as i128;
    let iw = |v: i128| if v >= 0 { Big::from_u128(v as u128) } else { two.sub(&Big::from_u128(v.unsigned_abs())) };
    ok("from i128", &U256::from(i), &iw(i));
    ok("from i64", &U256::from(i as i64), &iw(i128::from(i as i64)));
    ok("from i32", &U256::from(i as i32), &iw(i128::from(i as i32)));
    ok("from i16", &U256::from(i as i16), &iw(i128::from(i as i16)));
    ok("from i8", &U256::from(i as i8), &iw(i128::from(i as i8)));
    ok("from isize", &U256::from(i as isize), &iw(i as isize as i128));
    ok("from u64", &U256::from(s), &bs);
    ok("from u32", &U256::from(s as u32), &Big::from_u128(u128::from(s as u32)));
    ok("from u16", &U256::from(s as u16), &Big::from_u128(u128::from(s as u16)));
    ok("from u8", &U256::from(s as u8), &Big::from_u128(u128::from(s as u8)));
    ok("from usize", &U256::from(s as usize), &bs);
    ok("from bool", &U256::from(s & 1 == 1), &Big::from_u128(u128::from(s & 1)));
    ok("from_i64", &U256::from_i64(i as i64).unwrap_or(U256::MAX), &iw(i128::from(i as i64)));
    ok("from_u64", &U256::from_u64(s).unwrap_or(U256::MAX), &bs);
    ok("from_i32", &U256::from_i32(i as i32).unwrap_or(U256::MAX), &iw(i128::from(i as i32)));
    ok("from_u8", &U256::from_u8(s as u8).unwrap_or(U256::MAX), &Big::from_u128(u128::from(s as u8)));
    let mut t = a.clone();
    let li = rng_limb_index(s);
    t.set_limb(li, s);
    let mut lw = la;
    lw[li] = s;
    ok("set_limb", &t, &Big::from_limbs(&lw));

    // scalar-valued observations
    let mut is = |name: &str, good: bool| {
        if !good {
            rec.violation(&format!("u256 {}", name), format!("a={:?} b={:?} s={} sh={}", la, lb, s, sh));
        }
    };
    is("cmp", a.cmp(&b) == x.cmp(&y));
    is("partial_cmp", a.partial_cmp(&b) == Some(x.cmp(&y)));
    is("eq", (a == b) == (x == y));
    is("lt", (a < b) == x.lt(&y));
    is("cmp swapped", b.cmp(&a) == y.cmp(&x));
    is("is_zero", a.is_zero() == x.is_zero());
    is("is_one", a.is_one() == (x == Big::one()));
    is("min/max", U256::min_value() == U256::zero() && U256::max_value() == !U256::zero() && U256::one() == U256::from(1_u64));
    is("leading_zeros", Binary::leading_zeros(&a) == 256 - x.bits());
    let tz = (0..256).find(|i| x.bit(*i)).unwrap_or(256);
    is("trailing_zeros", Binary::trailing_zeros(&a) == tz);
    let ones = (0..256).filter(|i| x.bit(*i)).count();
    is("count_ones", Binary::count_ones(&a) == ones);
    is("count_zeros", Binary::count_zeros(&a) == 256 - ones);
    is("bits", a.bits() == x.bits());
    is("most_significant_bit", a.most_significant_bit() == x.bits().checked_sub(1));
    is("num_bits", U256::num_bits() == 256);
    for i in [sh.min(600), sh % 256, 0, 63, 64, 255, 256] {
        is("bit", Binary::bit(&a, i) == (i < 256 && x.bit(i)));
    }
    is("limb", (0..6).all(|i| a.limb(i) == *la.get(i).unwrap_or(&0)));
    is("as_u64", a.as_u64() == la[0] && a.as_usize() == la[0] as usize && a.as_u32() == la[0] as u32);
    is("as_small", a.as_u16() == la[0] as u16 && a.as_u8() == la[0] as u8 && a.as_i8() == la[0] as i8 && a.as_i16() == la[0] as i16);
    is("as_signed", a.as_i32() == la[0] as i32 && a.as_i64() == la[0] as i64 && a.as_isize() == la[0] as isize);
    is("as_u128", a.as_u128() == x.low_u128() && a.as_i128() == x.low_u128() as i128);
    let fits = |n: usize| x.bits() <= n;
    is("to_u128", a.to_u128() == if fits(128) { Some(x.low_u128()) } else { None });
    is("to_i128", a.to_i128() == if fits(127) { Some(x.low_u128() as i128) } else { None });
    is("to_u64", a.to_u64() == if fits(64) { Some(la[0]) } else { None });
    is("to_i64", a.to_i64() == if fits(63) { Some(la[0] as i64) } else { None });
    is("to_u32", a.to_u32() == if fits(32) { Some(la[0] as u32) } else { None });
    is("to_u8", a.to_u8() == if fits(8) { Some(la[0] as u8) } else { None });
    is("to_usize", a.to_usize() == if fits(64) { Some(la[0] as usize) } else { None });
    // Hash and equality agree
    is("hash", crate::mon::hash_of(&a) == crate::mon::hash_of(&u(la)));
    rec.event("operator evaluations (x100)");
    rec.sample("ring", || format!("a={:?} b={:?} s={} shift={}", la, lb, s, sh));
}

/// `Binary` of the primitive integers, from the list of their bits.
fn primitive<T: Binary + Copy + PartialEq + std::fmt::Debug>(rng: &mut Rng, rec: &mut Record, x: T, v: u128, bits: usize, name: &str) {
    let b: Vec<bool> = (0..bits).map(|i| v >> i & 1 == 1).collect();
    let as_bits = |t: T| (0..bits).map(|i| t.bit(i)).collect::<Vec<bool>>();
    let ones = b.iter().filter(|v| **v).count();
    let top = b.iter().rposition(|v| *v);
    let low = b.iter().position(|v| *v);
    let n = rng.below(bits);
    let mut rot = b.clone();
    rot.rotate_right(n);
    let mut back = b.clone();
    back.rotate_left(n);
    let ok = T::num_bits() == bits
        && as_bits(x) == b
        && x.count_ones() == ones
        && x.count_zeros() == bits - ones
        && x.leading_zeros() == top.map_or(bits, |i| bits - 1 - i)
        && x.trailing_zeros() == low.unwrap_or(bits)
        && x.bits() == top.map_or(0, |i| i + 1)
        && x.most_significant_bit() == top
        && as_bits(x.rotate_left(n)) == rot
        && as_bits(x.rotate_right(n)) == back;
    rec.check(ok, "Binary of a primitive integer", || format!("{} {:?}, rotated by {}", name, x, n));
}

fn rng_limb_index(s: u64) -> usize {
    (s % 4) as usize
}

fn limb_ops(rng: &mut Rng, rec: &mut Record) {
    let (a, b, c, d) = (rng.limb(), rng.limb(), rng.limb(), rng.limb());
    rec.eval(&(a, b, c, d));
    let w = |x: u64| u128::from(x);
    let mut is = |name: &str, good: bool| {
        if !good {
            rec.violation(&format!("limb {}", name), format!("{} {} {} {}", a, b, c, d));
        }
    };
    let (r, k) = adc(a, b, c);
    is("adc", (w(k) << 64 | w(r)) == w(a) + w(b) + w(c));
    let cb = c & 1;
    let (r, k) = sbb(a, b, cb);
    is("sbb", k <= 1 && w(a) + (w(k) << 64) == w(b) + w(cb) + w(r));
    let (r, k) = mac(a, b, c, d);
    is("mac", Big::from_limbs(&[r, k]) == Big::from_u128(w(b)).mul(&Big::from_u128(w(c))).add(&Big::from_u128(w(a) + w(d))));
    let (r, k) = msb(a, b, c, d);
    is(
        "msb",
        Big::from_u128(w(a)).add(&Big::from_limbs(&[0, k]))
            == Big::from_u128(w(b) * w(c)).add(&Big::from_u128(w(d))).add(&Big::from_u128(w(r))),
    );
    if a < d {
        let (q, r) = div_2_1(b, a, d);
        is("div_2_1", r < d && w(q) * w(d) + w(r) == (w(a) << 64 | w(b)));
    }
}

fn sampling(rng: &mut Rng, rec: &mut Record) {
    let (l, h) = (u(rng.limbs()), u(rng.limbs()));
    let (l, h) = if l < h { (l, h) } else { (h, l) };
    if l == h {
        return;
    }
    rec.eval(&(*l.as_limbs(), *h.as_limbs()));
    let mut seen = std::collections::HashSet::new();
    for _ in 0..40 {
        let x = R(rng).gen_range(l.clone(), h.clone());
        rec.check(x >= l && x < h, "u256 gen_range", || format!("{:?} not in [{:?}, {:?})", x, l, h));
        seen.insert(*x.as_limbs());
    }
    let d = rand::distributions::Uniform::new_inclusive(l.clone(), h.clone());
    for _ in 0..40 {
        let x = d.sample(&mut R(rng));
        rec.check(x >= l && x <= h, "u256 inclusive", || format!("{:?} not in [{:?}, {:?}]", x, l, h));
    }
    if (&h - &l).bits() > 60 {
        rec.check(seen.len() == 40, "u256 gen_range variety", || format!("{} distinct of 40", seen.len()));
    }
    // Small ranges reach every value.
    let n = rng.range(1, 9) as u64;
    let base = if big(&l).add(&Big::from_u128(u128::from(n))).bits() > 256 { U256::ZERO } else { l };
    let mut hit = vec![0; n as usize];
    for _ in 0..400 {
        let x = R(rng).gen_range(base.clone(), &base + U256::from(n));
        let k = (&x - &base).as_u64() as usize;
        if k < hit.len() {
            hit[k] += 1;
        } else {
            rec.violation("u256 gen_range", format!("{:?} outside [{:?}, +{})", x, base, n));
        }
    }
    rec.check(hit.iter().all(|c| *c > 0), "u256 gen_range reaches all", || format!("{:?}", hit));
    rec.event("samplers observed");
}

// ------------------------------------------------------------------------ C14

macro_rules! params {
    ($name:ident, $m:expr, $m64:expr, $r1:expr, $r2:expr, $r3:expr) => {
        struct $name;
        impl MontgomeryParameters for $name {
            type UInt = U256;

            const M64: u64 = $m64;
            const MODULUS: U256 = U256::from_limbs($m);
            const R1: U256 = U256::from_limbs($r1);
            const R2: U256 = U256::from_limbs($r2);
            const R3: U256 = U256::from_limbs($r3);
        }
    };
}
include!("moduli.rs");

fn division(ctx: &Ctx) {
    ctx.cases("divrem", 8, ctx.n(300, 10_000), |rng, _, rec| {
        for _ in 0..100 {
            divrem(rng, rec);
        }
    });
    ctx.cases("gcd", 8, ctx.n(300, 8000), |rng, _, rec| {
        for _ in 0..40 {
            gcd(rng, rec);
        }
    });
    ctx.cases("montgomery", 8, ctx.n(120, 3000), |rng, _, rec| {
        for _ in 0..40 {
            mont::<Base>(rng, rec);
            mont::<Scalar>(rng, rec);
            mont::<Bn254>(rng, rec);
            mont::<M25519>(rng, rec);
            mont::<Secp>(rng, rec);
            mont::<Proth2>(rng, rec);
        }
    });
}

fn divrem(rng: &mut Rng, rec: &mut Record) {
    // n = q*d + r with adversarial pieces, plus unconstrained pairs.
    let mut d = Big::from_limbs(&rng.limbs());
    let n = if rng.chance(1, 3) || d.is_zero() {
        Big::from_limbs(&rng.limbs())
    } else {
        d = d.shr(rng.below(200));
        if d.is_zero() {
            d = Big::one();
        }
        let room = 256 - d.bits().min(256);
        let q = Big::from_limbs(&rng.limbs()).low(room);
        let r = match rng.below(4) {
            0 => Big::zero(),
            1 => d.sub(&Big::one()),
            2 => Big::from_limbs(&rng.limbs()).rem(&d),
            _ => Big::one().rem(&d),
        };
        m256(&q.mul(&d).add(&r))
    };
    // The classical add-back operands: divisor 2^k*b-1 like shapes
    let d = if rng.chance(1, 8) {
        Big::from_limbs(&[rng.limb(), rng.limb(), 1 << 63, 0]).shr(64 * rng.below(3))
    } else {
        d
    };
    let (a, b) = (ub(&n), ub(&d));
    rec.eval(&(*a.as_limbs(), *b.as_limbs()));
    let det = || format!("n={} d={}", n.to_hex(), d.to_hex());
    match a.div_rem(&b) {
        None => {
            rec.check(d.is_zero(), "div_rem none", det);
            rec.event("division by zero reported");
        }
        Some((q, r)) => {
            let (q, r) = (big(&q), big(&r));
            rec.check(!d.is_zero() && r.lt(&d) && q.mul(&d).add(&r) == n, "div_rem", || {
                format!("{} gave q={} r={}", det(), q.to_hex(), r.to_hex())
            });
            rec.check(big(&(&a / &b)) == q && big(&(a.clone() / b.clone())) == q, "div op", det);
            rec.check(big(&(&a % &b)) == r && big(&(a.clone() % &b)) == r, "rem op", det);
            let (mut t, mut s) = (a.clone(), a.clone());
            t /= &b;
            s %= &b;
            rec.check(big(&t) == q && big(&s) == r, "div_assign", det);
        }
    }
    let s = if rng.chance(1, 2) { d.low(64) } else { Big::from_u128(u128::from(rng.limb())) };
    let s64 = s.low_u128() as u64;
    match DivRem::<u64>::div_rem(&a, s64) {
        None => {
            rec.check(s64 == 0, "div_rem u64 none", det);
        }
        Some((q, r)) => {
            let ok = s64 != 0 && r < s64 && big(&q).mul(&s).add(&Big::from_u128(u128::from(r))) == n;
            rec.check(ok, "div_rem u64", || format!("{} / {}", n.to_hex(), s64));
        }
    }
    // 512 by n
    let c = u(rng.limbs());
    if !d.is_zero() {
        let got = big(&a.mulmod(&c, &b));
        let want = n.mul(&big(&c)).rem(&d);
        rec.check(got == want, "mulmod", || format!("{} * {:?} mod {}", n.to_hex(), c, d.to_hex()));
    }
    // inverse mod 2^256
    match (&a).inv() {
        None => {
            rec.check(!n.bit(0), "inv 2^256 none", det);
        }
        Some(i) => {
            rec.check(n.bit(0) && m256(&big(&i).mul(&n)) == Big::one(), "inv 2^256", det);
        }
    }
    rec.event("divisions judged");
    rec.sample("divrem", det);
}

/// Two numbers with a chosen quotient sequence.
fn with_quotients(rng: &mut Rng) -> (Big, Big) {
    let g = match rng.below(4) {
        0 => Big::from_limbs(&[rng.limb() | 1]),
        1 => Big::from_limbs(&rng.limbs()).shr(rng.below(256)),
        _ => Big::one(),
    };
    let g = if g.is_zero() { Big::one() } else { g };
    let (mut a, mut b) = (g, Big::zero());
    let style = rng.below(4);
    loop {
        let q = match (style, rng.below(20)) {
            (0, _) => Big::one(),
            (_, 0) => Big::from_limbs(&rng.limbs()).shr(rng.below(250)),
            (1, _) => Big::from_u128(rng.range(1, 3) as u128),
            (2, _) => Big::from_u128(u128::from(rng.limb()) + 1),
            (_, _) => Big::from_u128(u128::from(rng.u64() >> rng.below(63)) + 1),
        };
        let q = if q.is_zero() { Big::one() } else { q };
        let next = q.mul(&a).add(&b);
        if next.bits() > 256 {
            break;
        }
        b = a;
        a = next;
        if rng.chance(1, 150) {
            break;
        }
    }
    (a, b)
}

fn gcd(rng: &mut Rng, rec: &mut Record) {
    let (x, y) = match rng.below(3) {
        0 => (Big::from_limbs(&rng.limbs()), Big::from_limbs(&rng.limbs())),
        _ => with_quotients(rng),
    };
    let (x, y) = if rng.chance(1, 2) { (y, x) } else { (x, y) };
    let (a, b) = (ub(&x), ub(&y));
    rec.eval(&(*a.as_limbs(), *b.as_limbs()));
    let want = x.gcd(&y);
    let det = || format!("a={} b={}", x.to_hex(), y.to_hex());
    let g = U256::gcd(&a, &b);
    rec.check(big(&g) == want, "gcd", det);
    let (g, s, t, even) = U256::gcd_extended(&a, &b);
    // even: g = s a - t b, else g = t b - s a
    let (sa, tb) = (big(&s).mul(&x), big(&t).mul(&y));
    let bez = if even { sa == tb.add(&big(&g)) } else { tb == sa.add(&big(&g)) };
    rec.check(big(&g) == want && bez, "gcd_extended", || {
        format!("{} gave g={:?} s={:?} t={:?} even={}", det(), g, s, t, even)
    });
    // inverse modulo y (modulus at least 2)
    if y.bits() > 1 {
        match a.inv_mod(&b) {
            None => {
                rec.check(want != Big::one(), "inv_mod none", det);
                rec.event("inv_mod: no inverse");
            }
            Some(i) => {
                let ok = big(&i).lt(&y) && big(&i).mul(&x).rem(&y) == Big::one();
                rec.check(ok, "inv_mod", || format!("{} gave {:?}", det(), i));
                rec.event("inv_mod: inverse");
            }
        }
    }
    rec.sample("gcd", det);
}

fn reduced(rng: &mut Rng, m: &Big) -> Big {
    match rng.below(6) {
        0 => Big::from_u128(rng.below(4) as u128),
        1 => m.sub(&Big::from_u128(1 + rng.below(4) as u128)),
        _ => Big::from_limbs(&rng.limbs()).rem(m),
    }
}

fn mont<M: MontgomeryParameters<UInt = U256>>(rng: &mut Rng, rec: &mut Record) {
    let m = big(&M::MODULUS);
    let (x, y) = (reduced(rng, &m), reduced(rng, &m));
    let (a, b) = (ub(&x), ub(&y));
    rec.eval(&(*a.as_limbs(), *b.as_limbs(), *M::MODULUS.as_limbs()));
    let det = || format!("mod {}: x={} y={}", m.to_hex(), x.to_hex(), y.to_hex());
    let r = Big::pow2(256).rem(&m);
    // got == want  <=>  got reduced and got * R == want * R (mod m); avoids inverting R
    let mut is = |name: &str, got: &U256, want_times_r: &Big| {
        let g = big(got);
        let good = g.lt(&m) && g.mul(&r).rem(&m) == want_times_r.rem(&m);
        rec.check(good, &format!("montgomery {}", name), || format!("{} gave {:?}", det(), got));
    };
    is("mul_redc", &a.mul_redc::<M>(&b), &x.mul(&y));
    is("square_redc", &a.square_redc::<M>(), &x.mul(&x));
    is("mul_mod", &Montgomery::mul_mod::<M>(&a, &b), &x.mul(&y).mul(&r));
    is("to_montgomery", &a.to_montgomery::<M>(), &x.mul(&r).mul(&r));
    is("from_montgomery", &a.from_montgomery::<M>(), &x);
    is("to_montgomery_const", &to_montgomery_const(&a, &M::MODULUS, M::M64, &M::R2), &x.mul(&r).mul(&r));
    // redc of a double width value below m * 2^256
    is("redc", &U256::redc::<M>(&b, &a), &x.shl(256).add(&y));
    let wide = Big::from_limbs(&rng.limbs());
    is("redc wide", &U256::redc::<M>(&ub(&wide), &a), &x.shl(256).add(&wide));
    let over = x.add(&y);
    is("reduce_1", &ub(&over).reduce_1::<M>(), &over.mul(&r));
    match a.inv_redc::<M>() {
        None => {
            rec.check(x.gcd(&m) != Big::one(), "montgomery inv_redc none", det);
        }
        Some(i) => {
            // i = x^-1 R^2  <=>  i * x = R^2
            let ok = big(&i).lt(&m) && big(&i).mul(&x).rem(&m) == r.mul(&r).rem(&m);
            rec.check(ok, "montgomery inv_redc", det);
        }
    }
    rec.event("montgomery operand pairs");
    rec.sample("montgomery", det);
}
