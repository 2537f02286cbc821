use crate::mon::Ctx;

pub mod codec;
pub mod component;
pub mod curve;
mod literals;
pub mod macros;
pub mod memory;
pub mod merkle;
pub mod field;
mod expr;
pub mod gen;
pub mod size;
mod schedule;
mod solidity;
pub mod stark;
pub mod u256;

pub struct Check {
    pub id:      &'static str,
    pub run:     fn(&Ctx),
    /// How cases are made and what counts as distinct.
    pub rule:    &'static str,
    pub assumes: &'static [&'static str],
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    u256::register(&mut v);
    field::register(&mut v);
    curve::register(&mut v);
    memory::register(&mut v);
    merkle::register(&mut v);
    macros::register(&mut v);
    codec::register(&mut v);
    component::register(&mut v);
    expr::register(&mut v);
    size::register(&mut v);
    solidity::register(&mut v);
    schedule::register(&mut v);
    stark::register(&mut v);
    v
}
