//! Arbitrary precision unsigned integers, little endian base 2^32, normalised
//! (no leading zero limbs). Division is bit-by-bit long division: slow, and
//! shares no algorithm with the code under test.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Big(pub Vec<u32>);

impl Big {
    pub fn zero() -> Self {
        Big(vec![])
    }

    pub fn one() -> Self {
        Big(vec![1])
    }

    fn norm(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }

    pub fn from_u128(v: u128) -> Self {
        Big((0..4).map(|i| (v >> (32 * i)) as u32).collect()).norm()
    }

    pub fn from_limbs(l: &[u64]) -> Self {
        let mut v = Vec::with_capacity(l.len() * 2);
        for x in l {
            v.push(*x as u32);
            v.push((*x >> 32) as u32);
        }
        Big(v).norm()
    }

    pub fn from_hex(s: &str) -> Self {
        let mut r = Big::zero();
        for c in s.chars() {
            r = r.shl(4).add(&Big::from_u128(u128::from(c.to_digit(16).unwrap())));
        }
        r
    }

    pub fn pow2(n: usize) -> Self {
        Big::one().shl(n)
    }

    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }

    /// Low 256 bits.
    pub fn limbs4(&self) -> [u64; 4] {
        let g = |i: usize| u64::from(*self.0.get(i).unwrap_or(&0));
        [
            g(0) | g(1) << 32,
            g(2) | g(3) << 32,
            g(4) | g(5) << 32,
            g(6) | g(7) << 32,
        ]
    }

    pub fn low_u128(&self) -> u128 {
        let l = self.limbs4();
        u128::from(l[0]) | u128::from(l[1]) << 64
    }

    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(l) => self.0.len() * 32 - l.leading_zeros() as usize,
        }
    }

    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).map_or(false, |l| (l >> (i % 32)) & 1 == 1)
    }

    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0
            .len()
            .cmp(&o.0.len())
            .then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }

    pub fn lt(&self, o: &Big) -> bool {
        self.cmp(o) == Ordering::Less
    }

    pub fn add(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0_u64;
        for i in 0..n {
            let t = u64::from(*self.0.get(i).unwrap_or(&0))
                + u64::from(*o.0.get(i).unwrap_or(&0))
                + c;
            r.push(t as u32);
            c = t >> 32;
        }
        r.push(c as u32);
        Big(r).norm()
    }

    /// Panics when the result would be negative.
    pub fn sub(&self, o: &Big) -> Big {
        assert!(!self.lt(o), "Big::sub underflow");
        let mut r = Vec::with_capacity(self.0.len());
        let mut b = 0_i64;
        for i in 0..self.0.len() {
            let mut t = i64::from(self.0[i]) - i64::from(*o.0.get(i).unwrap_or(&0)) - b;
            b = 0;
            if t < 0 {
                t += 1 << 32;
                b = 1;
            }
            r.push(t as u32);
        }
        assert_eq!(b, 0);
        Big(r).norm()
    }

    pub fn mul(&self, o: &Big) -> Big {
        let mut r = vec![0_u32; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0_u64;
            for (j, b) in o.0.iter().enumerate() {
                let t = u64::from(r[i + j]) + u64::from(*a) * u64::from(*b) + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        Big(r).norm()
    }

    pub fn shl(&self, n: usize) -> Big {
        let (w, s) = (n / 32, n % 32);
        let mut r = vec![0_u32; w];
        let mut c = 0_u64;
        for l in &self.0 {
            let t = (u64::from(*l) << s) | c;
            r.push(t as u32);
            c = t >> 32;
        }
        r.push(c as u32);
        Big(r).norm()
    }

    pub fn shr(&self, n: usize) -> Big {
        let (w, s) = (n / 32, n % 32);
        if w >= self.0.len() {
            return Big::zero();
        }
        let mut r = vec![];
        for i in w..self.0.len() {
            let hi = u64::from(*self.0.get(i + 1).unwrap_or(&0));
            let t = (u64::from(self.0[i]) | hi << 32) >> s;
            r.push(t as u32);
        }
        Big(r).norm()
    }

    /// Low `n` bits.
    pub fn low(&self, n: usize) -> Big {
        let mut r = self.0.clone();
        let (w, s) = (n / 32, n % 32);
        if r.len() > w {
            r.truncate(w + 1);
            r[w] &= ((1_u64 << s) - 1) as u32;
        }
        Big(r).norm()
    }

    pub fn divrem(&self, d: &Big) -> Option<(Big, Big)> {
        if d.is_zero() {
            return None;
        }
        let mut q = vec![0_u32; self.0.len()];
        let mut r = Big::zero();
        for i in (0..self.bits()).rev() {
            // r = 2 r + bit
            let mut c = u32::from(self.bit(i));
            for l in &mut r.0 {
                let n = *l >> 31;
                *l = (*l << 1) | c;
                c = n;
            }
            if c > 0 {
                r.0.push(c);
            }
            if !r.lt(d) {
                r = r.sub(d);
                q[i / 32] |= 1 << (i % 32);
            }
        }
        Some((Big(q).norm(), r))
    }

    pub fn rem(&self, d: &Big) -> Big {
        self.divrem(d).unwrap().1
    }

    pub fn gcd(&self, o: &Big) -> Big {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }

    pub fn modpow(&self, e: &Big, m: &Big) -> Big {
        let mut r = Big::one().rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(self).rem(m);
            }
        }
        r
    }

    pub fn to_hex(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = format!("{:x}", self.0.last().unwrap());
        for l in self.0.iter().rev().skip(1) {
            s += &format!("{:08x}", l);
        }
        s
    }

    pub fn to_dec(&self) -> String {
        let ten9 = Big::from_u128(1_000_000_000);
        let mut parts = vec![];
        let mut x = self.clone();
        while !x.is_zero() {
            let (q, r) = x.divrem(&ten9).unwrap();
            parts.push(r.low_u128());
            x = q;
        }
        if parts.is_empty() {
            return "0".into();
        }
        let mut s = parts.pop().unwrap().to_string();
        for p in parts.iter().rev() {
            s += &format!("{:09}", p);
        }
        s
    }
}

pub fn selftest() {
    let a = Big::from_hex("123456789abcdef00112233445566778899aabbccddeeff0deadbeefcafebabe");
    let b = Big::from_hex("fedcba98765432100ff00ff0");
    let (q, r) = a.divrem(&b).unwrap();
    assert!(r.lt(&b));
    assert_eq!(q.mul(&b).add(&r), a);
    assert_eq!(a.shl(77).shr(77), a);
    assert_eq!(a.add(&b).sub(&b), a);
    assert_eq!(
        Big::from_u128(1 << 100).to_dec(),
        "1267650600228229401496703205376"
    );
    assert_eq!(Big::from_hex(&a.to_hex()), a);
    // Fermat: 2^(p-1) = 1 mod p
    let p = Big::from_u128((1 << 61) - 1);
    assert_eq!(
        Big::from_u128(2).modpow(&p.sub(&Big::one()), &p),
        Big::one()
    );
    assert_eq!(Big::from_u128(48).gcd(&Big::from_u128(36)), Big::from_u128(12));
}
