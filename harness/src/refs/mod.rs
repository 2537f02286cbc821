//! Independent reference implementations: nothing in here calls the code
//! under test. They are deliberately simple, and are themselves checked
//! against each other by `selftest()` before every run.
pub mod big;
pub mod curve;
pub mod field;
pub mod keccak;
pub mod merkle;
pub mod stark;
pub mod yul;
