//! Independent prime field arithmetic (CIOS Montgomery over 4x64 limbs, all
//! constants derived from the modulus with `Big`).
use super::big::Big;
use std::sync::OnceLock;

pub type L = [u64; 4];

pub struct Modulus {
    pub p:   L,
    pub big: Big,
    n0:      u64,
    pub r1:  L,
    pub r2:  L,
}

fn geq(a: &L, b: &L) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}

fn sub4(a: &L, b: &L) -> (L, bool) {
    let mut r = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (t, b1) = a[i].overflowing_sub(b[i]);
        let (t, b2) = t.overflowing_sub(u64::from(br));
        r[i] = t;
        br = b1 | b2;
    }
    (r, br)
}

fn add4(a: &L, b: &L) -> (L, bool) {
    let mut r = [0; 4];
    let mut c = false;
    for i in 0..4 {
        let (t, c1) = a[i].overflowing_add(b[i]);
        let (t, c2) = t.overflowing_add(u64::from(c));
        r[i] = t;
        c = c1 | c2;
    }
    (r, c)
}

impl Modulus {
    /// `p` odd, below 2^255.
    pub fn new(big: Big) -> Self {
        let p = big.limbs4();
        // Newton iteration for p^-1 mod 2^64
        let mut inv = 1_u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2_u64.wrapping_sub(p[0].wrapping_mul(inv)));
        }
        Modulus {
            p,
            n0: inv.wrapping_neg(),
            r1: Big::pow2(256).rem(&big).limbs4(),
            r2: Big::pow2(512).rem(&big).limbs4(),
            big,
        }
    }

    pub fn is_reduced(&self, a: &L) -> bool {
        !geq(a, &self.p)
    }

    pub fn add(&self, a: &L, b: &L) -> L {
        let (s, c) = add4(a, b);
        debug_assert!(!c);
        if geq(&s, &self.p) {
            sub4(&s, &self.p).0
        } else {
            s
        }
    }

    pub fn sub(&self, a: &L, b: &L) -> L {
        let (d, br) = sub4(a, b);
        if br {
            add4(&d, &self.p).0
        } else {
            d
        }
    }

    pub fn mul(&self, a: &L, b: &L) -> L {
        let mut t = [0_u64; 6];
        for i in 0..4 {
            let mut c = 0_u128;
            for j in 0..4 {
                c += u128::from(t[j]) + u128::from(a[j]) * u128::from(b[i]);
                t[j] = c as u64;
                c >>= 64;
            }
            c += u128::from(t[4]);
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(self.n0);
            let mut c = (u128::from(t[0]) + u128::from(m) * u128::from(self.p[0])) >> 64;
            for j in 1..4 {
                c += u128::from(t[j]) + u128::from(m) * u128::from(self.p[j]);
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += u128::from(t[4]);
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, &self.p) {
            sub4(&r, &self.p).0
        } else {
            r
        }
    }

    pub fn pow(&self, a: &L, e: &Big) -> L {
        let mut r = self.r1;
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }

    pub fn inv(&self, a: &L) -> Option<L> {
        if *a == [0; 4] {
            None
        } else {
            Some(self.pow(a, &self.big.sub(&Big::from_u128(2))))
        }
    }

    /// Montgomery form of an integer.
    pub fn enc(&self, v: &Big) -> L {
        self.mul(&v.rem(&self.big).limbs4(), &self.r2)
    }

    /// Integer of a Montgomery form.
    pub fn dec(&self, a: &L) -> Big {
        Big::from_limbs(&self.mul(a, &[1, 0, 0, 0]))
    }
}

/// The STARK base field.
pub fn base() -> &'static Modulus {
    static M: OnceLock<Modulus> = OnceLock::new();
    M.get_or_init(|| {
        // 2^251 + 17 * 2^192 + 1
        Modulus::new(
            Big::pow2(251)
                .add(&Big::from_u128(17).shl(192))
                .add(&Big::one()),
        )
    })
}

/// The field of the curve order.
pub fn scalar() -> &'static Modulus {
    static M: OnceLock<Modulus> = OnceLock::new();
    M.get_or_init(|| {
        Modulus::new(Big::from_hex(
            "800000000000010ffffffffffffffffb781126dcae7b2321e66a241adc64d2f",
        ))
    })
}

/// Element of the base field, in Montgomery form.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Fe(pub L);

impl Fe {
    pub const ZERO: Fe = Fe([0; 4]);

    pub fn one() -> Fe {
        Fe(base().r1)
    }

    pub fn int(v: u64) -> Fe {
        Fe(base().enc(&Big::from_u128(u128::from(v))))
    }

    pub fn add(self, o: Fe) -> Fe {
        Fe(base().add(&self.0, &o.0))
    }

    pub fn sub(self, o: Fe) -> Fe {
        Fe(base().sub(&self.0, &o.0))
    }

    pub fn neg(self) -> Fe {
        Fe::ZERO.sub(self)
    }

    pub fn mul(self, o: Fe) -> Fe {
        Fe(base().mul(&self.0, &o.0))
    }

    pub fn inv(self) -> Option<Fe> {
        base().inv(&self.0).map(Fe)
    }

    pub fn pow(self, e: u64) -> Fe {
        Fe(base().pow(&self.0, &Big::from_u128(u128::from(e))))
    }

    pub fn powi(self, e: i64) -> Fe {
        if e < 0 {
            self.inv().unwrap().pow(e.unsigned_abs())
        } else {
            self.pow(e as u64)
        }
    }

    pub fn is_zero(self) -> bool {
        self == Fe::ZERO
    }

    /// Montgomery big endian bytes (the wire format).
    pub fn bytes(self) -> [u8; 32] {
        let mut r = [0; 32];
        for i in 0..4 {
            r[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        r
    }

    pub fn from_wire(b: &[u8]) -> Fe {
        let mut l = [0; 4];
        for i in 0..4 {
            let mut w = [0; 8];
            w.copy_from_slice(&b[8 * i..8 * i + 8]);
            l[3 - i] = u64::from_be_bytes(w);
        }
        Fe(l)
    }

    pub fn canonical(self) -> bool {
        base().is_reduced(&self.0)
    }

    /// Generator of the subgroup of the given (power of two) order, as the
    /// system defines it: 3^((p-1)/order).
    pub fn root(order: usize) -> Fe {
        assert!(order.is_power_of_two() && order.trailing_zeros() <= 192);
        let e = base()
            .big
            .sub(&Big::one())
            .shr(order.trailing_zeros() as usize);
        Fe(base().pow(&Fe::int(3).0, &e))
    }
}

pub fn batch_inv(v: &[Fe]) -> Option<Vec<Fe>> {
    let mut acc = Fe::one();
    let mut pre = Vec::with_capacity(v.len());
    for x in v {
        pre.push(acc);
        acc = acc.mul(*x);
    }
    let mut inv = acc.inv()?;
    let mut out = vec![Fe::ZERO; v.len()];
    for i in (0..v.len()).rev() {
        out[i] = inv.mul(pre[i]);
        inv = inv.mul(v[i]);
    }
    Some(out)
}

/// Values at root^0, root^1, ... in natural order. Plain recursive radix 2.
pub fn dft(coeffs: &[Fe], root: Fe) -> Vec<Fe> {
    let n = coeffs.len();
    if n == 1 {
        return coeffs.to_vec();
    }
    let even: Vec<Fe> = coeffs.iter().step_by(2).copied().collect();
    let odd: Vec<Fe> = coeffs.iter().skip(1).step_by(2).copied().collect();
    let r2 = root.mul(root);
    let (e, o) = (dft(&even, r2), dft(&odd, r2));
    let mut out = vec![Fe::ZERO; n];
    let mut w = Fe::one();
    for i in 0..n / 2 {
        let t = w.mul(o[i]);
        out[i] = e[i].add(t);
        out[i + n / 2] = e[i].sub(t);
        w = w.mul(root);
    }
    out
}

pub fn idft(values: &[Fe], root: Fe) -> Vec<Fe> {
    let n = Fe::int(values.len() as u64).inv().unwrap();
    let mut r = dft(values, root.inv().unwrap());
    for x in &mut r {
        *x = x.mul(n);
    }
    r
}

pub fn bitrev(size: usize, i: usize) -> usize {
    let bits = size.trailing_zeros();
    let mut r = 0;
    for b in 0..bits {
        if i >> b & 1 == 1 {
            r |= 1 << (bits - 1 - b);
        }
    }
    r
}

pub fn horner(c: &[Fe], x: Fe) -> Fe {
    c.iter().rev().fold(Fe::ZERO, |a, b| a.mul(x).add(*b))
}

pub fn selftest() {
    for m in [base(), scalar()] {
        let a = Big::from_hex("6d1c0ab3cf7a2d1b1f0e0c7788aa55443322110ffeeddccbbaa998877665544").rem(&m.big);
        let b = m.big.sub(&Big::from_u128(12345));
        let (x, y) = (m.enc(&a), m.enc(&b));
        assert_eq!(m.dec(&x), a);
        assert_eq!(m.dec(&m.mul(&x, &y)), a.mul(&b).rem(&m.big));
        assert_eq!(m.dec(&m.add(&x, &y)), a.add(&b).rem(&m.big));
        assert_eq!(m.dec(&m.sub(&x, &y)), a.add(&m.big).sub(&b).rem(&m.big));
        assert_eq!(m.mul(&x, &m.inv(&x).unwrap()), m.r1);
    }
    assert_eq!(
        base().big.to_hex(),
        "800000000000011000000000000000000000000000000000000000000000001"
    );
    let c: Vec<Fe> = (0..16).map(|i| Fe::int(i * i * 77 + 5)).collect();
    let g = Fe::root(16);
    assert_eq!(g.pow(16), Fe::one());
    assert_ne!(g.pow(8), Fe::one());
    let v = dft(&c, g);
    for (i, x) in v.iter().enumerate() {
        assert_eq!(*x, horner(&c, g.pow(i as u64)));
    }
    assert_eq!(idft(&v, g), c);
}

/// Square root in the base field, p - 1 = 2^192 * odd (Tonelli-Shanks).
pub fn sqrt(a: Fe) -> Option<Fe> {
    if a.is_zero() {
        return Some(a);
    }
    let m = base();
    let q = m.big.sub(&Big::one()).shr(192);
    let half = m.big.sub(&Big::one()).shr(1);
    if Fe(m.pow(&a.0, &half)) != Fe::one() {
        return None;
    }
    // 3 is a generator, hence a non-residue.
    let mut c = Fe(m.pow(&Fe::int(3).0, &q));
    let mut t = Fe(m.pow(&a.0, &q));
    let mut r = Fe(m.pow(&a.0, &q.add(&Big::one()).shr(1)));
    let mut e = 192;
    while t != Fe::one() {
        let mut i = 0;
        let mut u = t;
        while u != Fe::one() {
            u = u.mul(u);
            i += 1;
        }
        let mut b = c;
        for _ in 0..e - i - 1 {
            b = b.mul(b);
        }
        r = r.mul(b);
        c = b.mul(b);
        t = t.mul(c);
        e = i;
    }
    assert_eq!(r.mul(r), a);
    Some(r)
}
