//! Conversions between the types under test and the reference types. They go
//! through limbs only.
use crate::refs::{big::Big, field::Fe};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

pub fn u(l: [u64; 4]) -> U256 {
    U256::from_limbs(l)
}

pub fn ub(b: &Big) -> U256 {
    U256::from_limbs(b.limbs4())
}

pub fn big(x: &U256) -> Big {
    Big::from_limbs(x.as_limbs())
}

pub fn fe(x: &FieldElement) -> Fe {
    Fe(*x.as_montgomery().as_limbs())
}

pub fn el(x: Fe) -> FieldElement {
    FieldElement::from_montgomery(U256::from_limbs(x.0))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
