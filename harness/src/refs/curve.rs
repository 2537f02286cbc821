//! Short Weierstrass curve y^2 = x^3 + x + beta over the base field, affine
//! textbook formulas.
use super::{big::Big, field::Fe};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pt {
    O,
    P(Fe, Fe),
}

pub fn beta() -> Fe {
    Fe(Big::from_hex("13931651774247fab8a1e002a41f9476725f2237aab9006359ddd67b59a21ca").limbs4())
}

pub fn generator() -> Pt {
    Pt::P(
        Fe(Big::from_hex("33840300bf6cec10429bf5184041c7b51a9bf65d4403deac9019623cf0273dd").limbs4()),
        Fe(Big::from_hex("5a0e71610f55329fbd89a97cf4b33ad0939e3442869bbe7569d0da34235308a").limbs4()),
    )
}

impl Pt {
    pub fn on_curve(&self) -> bool {
        match *self {
            Pt::O => true,
            Pt::P(x, y) => y.mul(y) == x.mul(x).mul(x).add(x).add(beta()),
        }
    }

    pub fn neg(&self) -> Pt {
        match *self {
            Pt::O => Pt::O,
            Pt::P(x, y) => Pt::P(x, y.neg()),
        }
    }

    pub fn add(&self, o: &Pt) -> Pt {
        match (*self, *o) {
            (Pt::O, q) => q,
            (p, Pt::O) => p,
            (Pt::P(x1, y1), Pt::P(x2, y2)) => {
                let l = if x1 == x2 {
                    if y1 != y2 || y1.is_zero() {
                        return Pt::O;
                    }
                    let xx = x1.mul(x1);
                    xx.add(xx)
                        .add(xx)
                        .add(Fe::one())
                        .mul(y1.add(y1).inv().unwrap())
                } else {
                    y2.sub(y1).mul(x2.sub(x1).inv().unwrap())
                };
                let x3 = l.mul(l).sub(x1).sub(x2);
                Pt::P(x3, l.mul(x1.sub(x3)).sub(y1))
            }
        }
    }

    pub fn mul(&self, k: &Big) -> Pt {
        let mut r = Pt::O;
        for i in (0..k.bits()).rev() {
            r = r.add(&r);
            if k.bit(i) {
                r = r.add(self);
            }
        }
        r
    }
}

pub fn selftest() {
    let g = generator();
    assert!(g.on_curve());
    let n = &super::field::scalar().big;
    assert_eq!(g.mul(n), Pt::O);
    assert_eq!(
        g.mul(&Big::from_u128(5)).add(&g.mul(&Big::from_u128(7))),
        g.mul(&Big::from_u128(12))
    );
}
