// Generated once; literal, as evaluated by the macros in the compiler.
use zkp_macros_decl::{field_element, hex, u256h};
use zkp_primefield::FieldElement;
use zkp_u256::U256;
pub fn table() -> Vec<(&'static str, U256, FieldElement, Vec<u8>)> {
    let mut v = Vec::new();
    v.push(("0000", u256h!("0000"), field_element!("0000"), hex!("0000").to_vec()));
    v.push(("0001", u256h!("0001"), field_element!("0001"), hex!("0001").to_vec()));
    v.push(("000002", u256h!("000002"), field_element!("000002"), hex!("000002").to_vec()));
    v.push(("03", u256h!("03"), field_element!("03"), hex!("03").to_vec()));
    v.push(("ff", u256h!("ff"), field_element!("ff"), hex!("ff").to_vec()));
    v.push(("0100", u256h!("0100"), field_element!("0100"), hex!("0100").to_vec()));
    v.push(("0800000000000011000000000000000000000000000000000000000000000000", u256h!("0800000000000011000000000000000000000000000000000000000000000000"), field_element!("0800000000000011000000000000000000000000000000000000000000000000"), hex!("0800000000000011000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("0800000000000011000000000000000000000000000000000000000000000001", u256h!("0800000000000011000000000000000000000000000000000000000000000001"), field_element!("0800000000000011000000000000000000000000000000000000000000000001"), hex!("0800000000000011000000000000000000000000000000000000000000000001").to_vec()));
    v.push(("0800000000000011000000000000000000000000000000000000000000000002", u256h!("0800000000000011000000000000000000000000000000000000000000000002"), field_element!("0800000000000011000000000000000000000000000000000000000000000002"), hex!("0800000000000011000000000000000000000000000000000000000000000002").to_vec()));
    v.push(("1000000000000022000000000000000000000000000000000000000000000002", u256h!("1000000000000022000000000000000000000000000000000000000000000002"), field_element!("1000000000000022000000000000000000000000000000000000000000000002"), hex!("1000000000000022000000000000000000000000000000000000000000000002").to_vec()));
    v.push(("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("8000000000000000000000000000000000000000000000000000000000000000", u256h!("8000000000000000000000000000000000000000000000000000000000000000"), field_element!("8000000000000000000000000000000000000000000000000000000000000000"), hex!("8000000000000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("00FFFFFFFFFFFFFFFF", u256h!("00FFFFFFFFFFFFFFFF"), field_element!("00FFFFFFFFFFFFFFFF"), hex!("00FFFFFFFFFFFFFFFF").to_vec()));
    v.push(("0000010000000000000000", u256h!("0000010000000000000000"), field_element!("0000010000000000000000"), hex!("0000010000000000000000").to_vec()));
    v.push(("0000ffffffffffffffffffffffffffffffff", u256h!("0000ffffffffffffffffffffffffffffffff"), field_element!("0000ffffffffffffffffffffffffffffffff"), hex!("0000ffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("000100000000000000000000000000000000", u256h!("000100000000000000000000000000000000"), field_element!("000100000000000000000000000000000000"), hex!("000100000000000000000000000000000000").to_vec()));
    v.push(("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", u256h!("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), field_element!("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), hex!("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("0001000000000000000000000000000000000000000000000000", u256h!("0001000000000000000000000000000000000000000000000000"), field_element!("0001000000000000000000000000000000000000000000000000"), hex!("0001000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("0800000000000000000000000000000000000000000000000000000000000000", u256h!("0800000000000000000000000000000000000000000000000000000000000000"), field_element!("0800000000000000000000000000000000000000000000000000000000000000"), hex!("0800000000000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("f80000000000020f00000000000000000000000000000000000000000000001f", u256h!("f80000000000020f00000000000000000000000000000000000000000000001f"), field_element!("f80000000000020f00000000000000000000000000000000000000000000001f"), hex!("f80000000000020f00000000000000000000000000000000000000000000001f").to_vec()));
    v.push(("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffb", u256h!("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffb"), field_element!("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffb"), hex!("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffb").to_vec()));
    v.push(("0001", u256h!("0001"), field_element!("0001"), hex!("0001").to_vec()));
    v.push(("000000", u256h!("000000"), field_element!("000000"), hex!("000000").to_vec()));
    v.push(("000020", u256h!("000020"), field_element!("000020"), hex!("000020").to_vec()));
    v.push(("00001F", u256h!("00001F"), field_element!("00001F"), hex!("00001F").to_vec()));
    v.push(("000400", u256h!("000400"), field_element!("000400"), hex!("000400").to_vec()));
    v.push(("000003FF", u256h!("000003FF"), field_element!("000003FF"), hex!("000003FF").to_vec()));
    v.push(("00008000", u256h!("00008000"), field_element!("00008000"), hex!("00008000").to_vec()));
    v.push(("00007FFF", u256h!("00007FFF"), field_element!("00007FFF"), hex!("00007FFF").to_vec()));
    v.push(("100000", u256h!("100000"), field_element!("100000"), hex!("100000").to_vec()));
    v.push(("0fffff", u256h!("0fffff"), field_element!("0fffff"), hex!("0fffff").to_vec()));
    v.push(("02000000", u256h!("02000000"), field_element!("02000000"), hex!("02000000").to_vec()));
    v.push(("0001ffffff", u256h!("0001ffffff"), field_element!("0001ffffff"), hex!("0001ffffff").to_vec()));
    v.push(("0040000000", u256h!("0040000000"), field_element!("0040000000"), hex!("0040000000").to_vec()));
    v.push(("3fffffff", u256h!("3fffffff"), field_element!("3fffffff"), hex!("3fffffff").to_vec()));
    v.push(("000800000000", u256h!("000800000000"), field_element!("000800000000"), hex!("000800000000").to_vec()));
    v.push(("0007FFFFFFFF", u256h!("0007FFFFFFFF"), field_element!("0007FFFFFFFF"), hex!("0007FFFFFFFF").to_vec()));
    v.push(("010000000000", u256h!("010000000000"), field_element!("010000000000"), hex!("010000000000").to_vec()));
    v.push(("FFFFFFFFFF", u256h!("FFFFFFFFFF"), field_element!("FFFFFFFFFF"), hex!("FFFFFFFFFF").to_vec()));
    v.push(("0000200000000000", u256h!("0000200000000000"), field_element!("0000200000000000"), hex!("0000200000000000").to_vec()));
    v.push(("00001fffffffffff", u256h!("00001fffffffffff"), field_element!("00001fffffffffff"), hex!("00001fffffffffff").to_vec()));
    v.push(("000004000000000000", u256h!("000004000000000000"), field_element!("000004000000000000"), hex!("000004000000000000").to_vec()));
    v.push(("03ffffffffffff", u256h!("03ffffffffffff"), field_element!("03ffffffffffff"), hex!("03ffffffffffff").to_vec()));
    v.push(("80000000000000", u256h!("80000000000000"), field_element!("80000000000000"), hex!("80000000000000").to_vec()));
    v.push(("007fffffffffffff", u256h!("007fffffffffffff"), field_element!("007fffffffffffff"), hex!("007fffffffffffff").to_vec()));
    v.push(("1000000000000000", u256h!("1000000000000000"), field_element!("1000000000000000"), hex!("1000000000000000").to_vec()));
    v.push(("000fffffffffffffff", u256h!("000fffffffffffffff"), field_element!("000fffffffffffffff"), hex!("000fffffffffffffff").to_vec()));
    v.push(("0000020000000000000000", u256h!("0000020000000000000000"), field_element!("0000020000000000000000"), hex!("0000020000000000000000").to_vec()));
    v.push(("01ffffffffffffffff", u256h!("01ffffffffffffffff"), field_element!("01ffffffffffffffff"), hex!("01ffffffffffffffff").to_vec()));
    v.push(("0000400000000000000000", u256h!("0000400000000000000000"), field_element!("0000400000000000000000"), hex!("0000400000000000000000").to_vec()));
    v.push(("3fffffffffffffffff", u256h!("3fffffffffffffffff"), field_element!("3fffffffffffffffff"), hex!("3fffffffffffffffff").to_vec()));
    v.push(("08000000000000000000", u256h!("08000000000000000000"), field_element!("08000000000000000000"), hex!("08000000000000000000").to_vec()));
    v.push(("0007FFFFFFFFFFFFFFFFFF", u256h!("0007FFFFFFFFFFFFFFFFFF"), field_element!("0007FFFFFFFFFFFFFFFFFF"), hex!("0007FFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("00000100000000000000000000", u256h!("00000100000000000000000000"), field_element!("00000100000000000000000000"), hex!("00000100000000000000000000").to_vec()));
    v.push(("ffffffffffffffffffff", u256h!("ffffffffffffffffffff"), field_element!("ffffffffffffffffffff"), hex!("ffffffffffffffffffff").to_vec()));
    v.push(("2000000000000000000000", u256h!("2000000000000000000000"), field_element!("2000000000000000000000"), hex!("2000000000000000000000").to_vec()));
    v.push(("00001fffffffffffffffffffff", u256h!("00001fffffffffffffffffffff"), field_element!("00001fffffffffffffffffffff"), hex!("00001fffffffffffffffffffff").to_vec()));
    v.push(("0000040000000000000000000000", u256h!("0000040000000000000000000000"), field_element!("0000040000000000000000000000"), hex!("0000040000000000000000000000").to_vec()));
    v.push(("03ffffffffffffffffffffff", u256h!("03ffffffffffffffffffffff"), field_element!("03ffffffffffffffffffffff"), hex!("03ffffffffffffffffffffff").to_vec()));
    v.push(("800000000000000000000000", u256h!("800000000000000000000000"), field_element!("800000000000000000000000"), hex!("800000000000000000000000").to_vec()));
    v.push(("7fffffffffffffffffffffff", u256h!("7fffffffffffffffffffffff"), field_element!("7fffffffffffffffffffffff"), hex!("7fffffffffffffffffffffff").to_vec()));
    v.push(("0010000000000000000000000000", u256h!("0010000000000000000000000000"), field_element!("0010000000000000000000000000"), hex!("0010000000000000000000000000").to_vec()));
    v.push(("000fffffffffffffffffffffffff", u256h!("000fffffffffffffffffffffffff"), field_element!("000fffffffffffffffffffffffff"), hex!("000fffffffffffffffffffffffff").to_vec()));
    v.push(("000200000000000000000000000000", u256h!("000200000000000000000000000000"), field_element!("000200000000000000000000000000"), hex!("000200000000000000000000000000").to_vec()));
    v.push(("01FFFFFFFFFFFFFFFFFFFFFFFFFF", u256h!("01FFFFFFFFFFFFFFFFFFFFFFFFFF"), field_element!("01FFFFFFFFFFFFFFFFFFFFFFFFFF"), hex!("01FFFFFFFFFFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("4000000000000000000000000000", u256h!("4000000000000000000000000000"), field_element!("4000000000000000000000000000"), hex!("4000000000000000000000000000").to_vec()));
    v.push(("3fffffffffffffffffffffffffff", u256h!("3fffffffffffffffffffffffffff"), field_element!("3fffffffffffffffffffffffffff"), hex!("3fffffffffffffffffffffffffff").to_vec()));
    v.push(("0000080000000000000000000000000000", u256h!("0000080000000000000000000000000000"), field_element!("0000080000000000000000000000000000"), hex!("0000080000000000000000000000000000").to_vec()));
    v.push(("07ffffffffffffffffffffffffffff", u256h!("07ffffffffffffffffffffffffffff"), field_element!("07ffffffffffffffffffffffffffff"), hex!("07ffffffffffffffffffffffffffff").to_vec()));
    v.push(("01000000000000000000000000000000", u256h!("01000000000000000000000000000000"), field_element!("01000000000000000000000000000000"), hex!("01000000000000000000000000000000").to_vec()));
    v.push(("ffffffffffffffffffffffffffffff", u256h!("ffffffffffffffffffffffffffffff"), field_element!("ffffffffffffffffffffffffffffff"), hex!("ffffffffffffffffffffffffffffff").to_vec()));
    v.push(("20000000000000000000000000000000", u256h!("20000000000000000000000000000000"), field_element!("20000000000000000000000000000000"), hex!("20000000000000000000000000000000").to_vec()));
    v.push(("00001fffffffffffffffffffffffffffffff", u256h!("00001fffffffffffffffffffffffffffffff"), field_element!("00001fffffffffffffffffffffffffffffff"), hex!("00001fffffffffffffffffffffffffffffff").to_vec()));
    v.push(("0400000000000000000000000000000000", u256h!("0400000000000000000000000000000000"), field_element!("0400000000000000000000000000000000"), hex!("0400000000000000000000000000000000").to_vec()));
    v.push(("0003FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", u256h!("0003FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), field_element!("0003FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), hex!("0003FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("008000000000000000000000000000000000", u256h!("008000000000000000000000000000000000"), field_element!("008000000000000000000000000000000000"), hex!("008000000000000000000000000000000000").to_vec()));
    v.push(("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", u256h!("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), field_element!("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), hex!("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("100000000000000000000000000000000000", u256h!("100000000000000000000000000000000000"), field_element!("100000000000000000000000000000000000"), hex!("100000000000000000000000000000000000").to_vec()));
    v.push(("000fffffffffffffffffffffffffffffffffff", u256h!("000fffffffffffffffffffffffffffffffffff"), field_element!("000fffffffffffffffffffffffffffffffffff"), hex!("000fffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("02000000000000000000000000000000000000", u256h!("02000000000000000000000000000000000000"), field_element!("02000000000000000000000000000000000000"), hex!("02000000000000000000000000000000000000").to_vec()));
    v.push(("0001ffffffffffffffffffffffffffffffffffff", u256h!("0001ffffffffffffffffffffffffffffffffffff"), field_element!("0001ffffffffffffffffffffffffffffffffffff"), hex!("0001ffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("40000000000000000000000000000000000000", u256h!("40000000000000000000000000000000000000"), field_element!("40000000000000000000000000000000000000"), hex!("40000000000000000000000000000000000000").to_vec()));
    v.push(("003fffffffffffffffffffffffffffffffffffff", u256h!("003fffffffffffffffffffffffffffffffffffff"), field_element!("003fffffffffffffffffffffffffffffffffffff"), hex!("003fffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("000800000000000000000000000000000000000000", u256h!("000800000000000000000000000000000000000000"), field_element!("000800000000000000000000000000000000000000"), hex!("000800000000000000000000000000000000000000").to_vec()));
    v.push(("07ffffffffffffffffffffffffffffffffffffff", u256h!("07ffffffffffffffffffffffffffffffffffffff"), field_element!("07ffffffffffffffffffffffffffffffffffffff"), hex!("07ffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("00010000000000000000000000000000000000000000", u256h!("00010000000000000000000000000000000000000000"), field_element!("00010000000000000000000000000000000000000000"), hex!("00010000000000000000000000000000000000000000").to_vec()));
    v.push(("ffffffffffffffffffffffffffffffffffffffff", u256h!("ffffffffffffffffffffffffffffffffffffffff"), field_element!("ffffffffffffffffffffffffffffffffffffffff"), hex!("ffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("00200000000000000000000000000000000000000000", u256h!("00200000000000000000000000000000000000000000"), field_element!("00200000000000000000000000000000000000000000"), hex!("00200000000000000000000000000000000000000000").to_vec()));
    v.push(("001FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", u256h!("001FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), field_element!("001FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), hex!("001FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("0004000000000000000000000000000000000000000000", u256h!("0004000000000000000000000000000000000000000000"), field_element!("0004000000000000000000000000000000000000000000"), hex!("0004000000000000000000000000000000000000000000").to_vec()));
    v.push(("03ffffffffffffffffffffffffffffffffffffffffff", u256h!("03ffffffffffffffffffffffffffffffffffffffffff"), field_element!("03ffffffffffffffffffffffffffffffffffffffffff"), hex!("03ffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("000080000000000000000000000000000000000000000000", u256h!("000080000000000000000000000000000000000000000000"), field_element!("000080000000000000000000000000000000000000000000"), hex!("000080000000000000000000000000000000000000000000").to_vec()));
    v.push(("7fffffffffffffffffffffffffffffffffffffffffff", u256h!("7fffffffffffffffffffffffffffffffffffffffffff"), field_element!("7fffffffffffffffffffffffffffffffffffffffffff"), hex!("7fffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("1000000000000000000000000000000000000000000000", u256h!("1000000000000000000000000000000000000000000000"), field_element!("1000000000000000000000000000000000000000000000"), hex!("1000000000000000000000000000000000000000000000").to_vec()));
    v.push(("0fffffffffffffffffffffffffffffffffffffffffffff", u256h!("0fffffffffffffffffffffffffffffffffffffffffffff"), field_element!("0fffffffffffffffffffffffffffffffffffffffffffff"), hex!("0fffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("0000020000000000000000000000000000000000000000000000", u256h!("0000020000000000000000000000000000000000000000000000"), field_element!("0000020000000000000000000000000000000000000000000000"), hex!("0000020000000000000000000000000000000000000000000000").to_vec()));
    v.push(("000001ffffffffffffffffffffffffffffffffffffffffffffff", u256h!("000001ffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("000001ffffffffffffffffffffffffffffffffffffffffffffff"), hex!("000001ffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("00400000000000000000000000000000000000000000000000", u256h!("00400000000000000000000000000000000000000000000000"), field_element!("00400000000000000000000000000000000000000000000000"), hex!("00400000000000000000000000000000000000000000000000").to_vec()));
    v.push(("3fffffffffffffffffffffffffffffffffffffffffffffff", u256h!("3fffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("3fffffffffffffffffffffffffffffffffffffffffffffff"), hex!("3fffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("0008000000000000000000000000000000000000000000000000", u256h!("0008000000000000000000000000000000000000000000000000"), field_element!("0008000000000000000000000000000000000000000000000000"), hex!("0008000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("07ffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("07ffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("07ffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("07ffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("000100000000000000000000000000000000000000000000000000", u256h!("000100000000000000000000000000000000000000000000000000"), field_element!("000100000000000000000000000000000000000000000000000000"), hex!("000100000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("0000ffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("0000ffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("0000ffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("0000ffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("2000000000000000000000000000000000000000000000000000", u256h!("2000000000000000000000000000000000000000000000000000"), field_element!("2000000000000000000000000000000000000000000000000000"), hex!("2000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("00001fffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("00001fffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("00001fffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("00001fffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("0000040000000000000000000000000000000000000000000000000000", u256h!("0000040000000000000000000000000000000000000000000000000000"), field_element!("0000040000000000000000000000000000000000000000000000000000"), hex!("0000040000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("03ffffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("03ffffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("03ffffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("03ffffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("00800000000000000000000000000000000000000000000000000000", u256h!("00800000000000000000000000000000000000000000000000000000"), field_element!("00800000000000000000000000000000000000000000000000000000"), hex!("00800000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", u256h!("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), field_element!("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), hex!("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("10000000000000000000000000000000000000000000000000000000", u256h!("10000000000000000000000000000000000000000000000000000000"), field_element!("10000000000000000000000000000000000000000000000000000000"), hex!("10000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("00000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", u256h!("00000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), field_element!("00000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), hex!("00000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("000200000000000000000000000000000000000000000000000000000000", u256h!("000200000000000000000000000000000000000000000000000000000000"), field_element!("000200000000000000000000000000000000000000000000000000000000"), hex!("000200000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", u256h!("01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), field_element!("01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), hex!("01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("004000000000000000000000000000000000000000000000000000000000", u256h!("004000000000000000000000000000000000000000000000000000000000"), field_element!("004000000000000000000000000000000000000000000000000000000000"), hex!("004000000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("080000000000000000000000000000000000000000000000000000000000", u256h!("080000000000000000000000000000000000000000000000000000000000"), field_element!("080000000000000000000000000000000000000000000000000000000000"), hex!("080000000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("07ffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("07ffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("07ffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("07ffffffffffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("01000000000000000000000000000000000000000000000000000000000000", u256h!("01000000000000000000000000000000000000000000000000000000000000"), field_element!("01000000000000000000000000000000000000000000000000000000000000"), hex!("01000000000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("0000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("0000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("0000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("0000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("0020000000000000000000000000000000000000000000000000000000000000", u256h!("0020000000000000000000000000000000000000000000000000000000000000"), field_element!("0020000000000000000000000000000000000000000000000000000000000000"), hex!("0020000000000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("0400000000000000000000000000000000000000000000000000000000000000", u256h!("0400000000000000000000000000000000000000000000000000000000000000"), field_element!("0400000000000000000000000000000000000000000000000000000000000000"), hex!("0400000000000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("03ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("03ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("03ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("03ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("8000000000000000000000000000000000000000000000000000000000000000", u256h!("8000000000000000000000000000000000000000000000000000000000000000"), field_element!("8000000000000000000000000000000000000000000000000000000000000000"), hex!("8000000000000000000000000000000000000000000000000000000000000000").to_vec()));
    v.push(("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", u256h!("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), field_element!("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), hex!("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("d23f0824128b2f330c5c7fd0a6a3a4506513270e269e0d37f2a74de452e6b438", u256h!("d23f0824128b2f330c5c7fd0a6a3a4506513270e269e0d37f2a74de452e6b438"), field_element!("d23f0824128b2f330c5c7fd0a6a3a4506513270e269e0d37f2a74de452e6b438"), hex!("d23f0824128b2f330c5c7fd0a6a3a4506513270e269e0d37f2a74de452e6b438").to_vec()));
    v.push(("36F675CC81E74EF5E8E25D940ED904759531985D5D9DC9F81818E811892F902B", u256h!("36F675CC81E74EF5E8E25D940ED904759531985D5D9DC9F81818E811892F902B"), field_element!("36F675CC81E74EF5E8E25D940ED904759531985D5D9DC9F81818E811892F902B"), hex!("36F675CC81E74EF5E8E25D940ED904759531985D5D9DC9F81818E811892F902B").to_vec()));
    v.push(("8D116ECE1738F7D93D9C172411E20B8F6B0D549B6F03675A1600A35A099950D8", u256h!("8D116ECE1738F7D93D9C172411E20B8F6B0D549B6F03675A1600A35A099950D8"), field_element!("8D116ECE1738F7D93D9C172411E20B8F6B0D549B6F03675A1600A35A099950D8"), hex!("8D116ECE1738F7D93D9C172411E20B8F6B0D549B6F03675A1600A35A099950D8").to_vec()));
    v.push(("a170b33839263059f28c105d1fb17c2390c192cfd3ac94af0f21ddb66cad4a26", u256h!("a170b33839263059f28c105d1fb17c2390c192cfd3ac94af0f21ddb66cad4a26"), field_element!("a170b33839263059f28c105d1fb17c2390c192cfd3ac94af0f21ddb66cad4a26"), hex!("a170b33839263059f28c105d1fb17c2390c192cfd3ac94af0f21ddb66cad4a26").to_vec()));
    v.push(("0CB1E29C658CDA1495E60AF593BD04CF0FD630F1F29D0DA9953F48F1A09F76B5", u256h!("0CB1E29C658CDA1495E60AF593BD04CF0FD630F1F29D0DA9953F48F1A09F76B5"), field_element!("0CB1E29C658CDA1495E60AF593BD04CF0FD630F1F29D0DA9953F48F1A09F76B5"), hex!("0CB1E29C658CDA1495E60AF593BD04CF0FD630F1F29D0DA9953F48F1A09F76B5").to_vec()));
    v.push(("6b4cb2424a23d5962217beaddbc496cb8e81973e0becd7b03898d190f9ebdacc", u256h!("6b4cb2424a23d5962217beaddbc496cb8e81973e0becd7b03898d190f9ebdacc"), field_element!("6b4cb2424a23d5962217beaddbc496cb8e81973e0becd7b03898d190f9ebdacc"), hex!("6b4cb2424a23d5962217beaddbc496cb8e81973e0becd7b03898d190f9ebdacc").to_vec()));
    v.push(("ae97ba94d0eda82f8f6d05584ef8aa38922766581e27a1c08a6a63ec24ede6a4", u256h!("ae97ba94d0eda82f8f6d05584ef8aa38922766581e27a1c08a6a63ec24ede6a4"), field_element!("ae97ba94d0eda82f8f6d05584ef8aa38922766581e27a1c08a6a63ec24ede6a4"), hex!("ae97ba94d0eda82f8f6d05584ef8aa38922766581e27a1c08a6a63ec24ede6a4").to_vec()));
    v.push(("18f135d25f557203301850c5a38fd547923a736994e3bf911a61dbe22e44158b", u256h!("18f135d25f557203301850c5a38fd547923a736994e3bf911a61dbe22e44158b"), field_element!("18f135d25f557203301850c5a38fd547923a736994e3bf911a61dbe22e44158b"), hex!("18f135d25f557203301850c5a38fd547923a736994e3bf911a61dbe22e44158b").to_vec()));
    v.push(("7f15052434b9b5df9e7769b10f4205b4907a70c31012f037b64ce4228c38fb29", u256h!("7f15052434b9b5df9e7769b10f4205b4907a70c31012f037b64ce4228c38fb29"), field_element!("7f15052434b9b5df9e7769b10f4205b4907a70c31012f037b64ce4228c38fb29"), hex!("7f15052434b9b5df9e7769b10f4205b4907a70c31012f037b64ce4228c38fb29").to_vec()));
    v.push(("ec66a78795e761d17731af10506bf2efc6f877186d76b07e881ed162ae2eb154", u256h!("ec66a78795e761d17731af10506bf2efc6f877186d76b07e881ed162ae2eb154"), field_element!("ec66a78795e761d17731af10506bf2efc6f877186d76b07e881ed162ae2eb154"), hex!("ec66a78795e761d17731af10506bf2efc6f877186d76b07e881ed162ae2eb154").to_vec()));
    v.push(("C7A2EA20B2F14C942E05319ACB5C74273F98E2774CBD87AD5C90A9587403E430", u256h!("C7A2EA20B2F14C942E05319ACB5C74273F98E2774CBD87AD5C90A9587403E430"), field_element!("C7A2EA20B2F14C942E05319ACB5C74273F98E2774CBD87AD5C90A9587403E430"), hex!("C7A2EA20B2F14C942E05319ACB5C74273F98E2774CBD87AD5C90A9587403E430").to_vec()));
    v.push(("57ee05cde00902c77ebff206867347214cdd2055930d6eaf14f4733f3e7d1bfb", u256h!("57ee05cde00902c77ebff206867347214cdd2055930d6eaf14f4733f3e7d1bfb"), field_element!("57ee05cde00902c77ebff206867347214cdd2055930d6eaf14f4733f3e7d1bfb"), hex!("57ee05cde00902c77ebff206867347214cdd2055930d6eaf14f4733f3e7d1bfb").to_vec()));
    v.push(("830e07bc1e398f1012bd4acefaecbd389be4bcfc49b64a0872e6cc3ababced20", u256h!("830e07bc1e398f1012bd4acefaecbd389be4bcfc49b64a0872e6cc3ababced20"), field_element!("830e07bc1e398f1012bd4acefaecbd389be4bcfc49b64a0872e6cc3ababced20"), hex!("830e07bc1e398f1012bd4acefaecbd389be4bcfc49b64a0872e6cc3ababced20").to_vec()));
    v.push(("6bf46c697d2caf82eeeacbe226e875555790f82ec1d3fcff2a3af4d46b0a18e8", u256h!("6bf46c697d2caf82eeeacbe226e875555790f82ec1d3fcff2a3af4d46b0a18e8"), field_element!("6bf46c697d2caf82eeeacbe226e875555790f82ec1d3fcff2a3af4d46b0a18e8"), hex!("6bf46c697d2caf82eeeacbe226e875555790f82ec1d3fcff2a3af4d46b0a18e8").to_vec()));
    v.push(("ca02135e92b1d3f28ede0d7ac3baea9e13deef86ab1031d0f646e1f40a097c97", u256h!("ca02135e92b1d3f28ede0d7ac3baea9e13deef86ab1031d0f646e1f40a097c97"), field_element!("ca02135e92b1d3f28ede0d7ac3baea9e13deef86ab1031d0f646e1f40a097c97"), hex!("ca02135e92b1d3f28ede0d7ac3baea9e13deef86ab1031d0f646e1f40a097c97").to_vec()));
    v.push(("7f26144b98289fcd59a54a7bb1fee08f571242425051c1ccd17f9acae01f5057", u256h!("7f26144b98289fcd59a54a7bb1fee08f571242425051c1ccd17f9acae01f5057"), field_element!("7f26144b98289fcd59a54a7bb1fee08f571242425051c1ccd17f9acae01f5057"), hex!("7f26144b98289fcd59a54a7bb1fee08f571242425051c1ccd17f9acae01f5057").to_vec()));
    v.push(("451ABD81F1D69ED617F5E837D70820FE119A72D174C9DF6ACC011CDD9474031B", u256h!("451ABD81F1D69ED617F5E837D70820FE119A72D174C9DF6ACC011CDD9474031B"), field_element!("451ABD81F1D69ED617F5E837D70820FE119A72D174C9DF6ACC011CDD9474031B"), hex!("451ABD81F1D69ED617F5E837D70820FE119A72D174C9DF6ACC011CDD9474031B").to_vec()));
    v.push(("4f426dcbb394fb36bb2d420f0f88080b10a3d6b2aa05e11ab2715945795e8229", u256h!("4f426dcbb394fb36bb2d420f0f88080b10a3d6b2aa05e11ab2715945795e8229"), field_element!("4f426dcbb394fb36bb2d420f0f88080b10a3d6b2aa05e11ab2715945795e8229"), hex!("4f426dcbb394fb36bb2d420f0f88080b10a3d6b2aa05e11ab2715945795e8229").to_vec()));
    v.push(("b774eb5248db40af72158370d269a9a5ae658f33fe3b890b93f448b3a5aa3c81", u256h!("b774eb5248db40af72158370d269a9a5ae658f33fe3b890b93f448b3a5aa3c81"), field_element!("b774eb5248db40af72158370d269a9a5ae658f33fe3b890b93f448b3a5aa3c81"), hex!("b774eb5248db40af72158370d269a9a5ae658f33fe3b890b93f448b3a5aa3c81").to_vec()));
    v.push(("5AFFB2297631A992F0CE583505C6AF0758D5563DAB2CD31EE315128862C33A4F", u256h!("5AFFB2297631A992F0CE583505C6AF0758D5563DAB2CD31EE315128862C33A4F"), field_element!("5AFFB2297631A992F0CE583505C6AF0758D5563DAB2CD31EE315128862C33A4F"), hex!("5AFFB2297631A992F0CE583505C6AF0758D5563DAB2CD31EE315128862C33A4F").to_vec()));
    v.push(("49952399C4AAEAC137DC76FB0F17A3007E62AA0A1DF9FD789C6539382B0537E6", u256h!("49952399C4AAEAC137DC76FB0F17A3007E62AA0A1DF9FD789C6539382B0537E6"), field_element!("49952399C4AAEAC137DC76FB0F17A3007E62AA0A1DF9FD789C6539382B0537E6"), hex!("49952399C4AAEAC137DC76FB0F17A3007E62AA0A1DF9FD789C6539382B0537E6").to_vec()));
    v.push(("7f1b103cdf1582b0eab477d26415479c65dc9f503f63af83bd0561e6211c70cf", u256h!("7f1b103cdf1582b0eab477d26415479c65dc9f503f63af83bd0561e6211c70cf"), field_element!("7f1b103cdf1582b0eab477d26415479c65dc9f503f63af83bd0561e6211c70cf"), hex!("7f1b103cdf1582b0eab477d26415479c65dc9f503f63af83bd0561e6211c70cf").to_vec()));
    v.push(("230D977EE22571594720771F8CA8181166D2287672FDF2022A96FB1A14A0F9E7", u256h!("230D977EE22571594720771F8CA8181166D2287672FDF2022A96FB1A14A0F9E7"), field_element!("230D977EE22571594720771F8CA8181166D2287672FDF2022A96FB1A14A0F9E7"), hex!("230D977EE22571594720771F8CA8181166D2287672FDF2022A96FB1A14A0F9E7").to_vec()));
    v.push(("fc891b4a6a50df4db4d66a3a47469a4d8cdb305fdd2e16096e36aab0d1bc52d9", u256h!("fc891b4a6a50df4db4d66a3a47469a4d8cdb305fdd2e16096e36aab0d1bc52d9"), field_element!("fc891b4a6a50df4db4d66a3a47469a4d8cdb305fdd2e16096e36aab0d1bc52d9"), hex!("fc891b4a6a50df4db4d66a3a47469a4d8cdb305fdd2e16096e36aab0d1bc52d9").to_vec()));
    v.push(("153E7C2A26A2C0BD3B1287FFF52DDF5D616499C9E25A7605AEC6F0245BD86D40", u256h!("153E7C2A26A2C0BD3B1287FFF52DDF5D616499C9E25A7605AEC6F0245BD86D40"), field_element!("153E7C2A26A2C0BD3B1287FFF52DDF5D616499C9E25A7605AEC6F0245BD86D40"), hex!("153E7C2A26A2C0BD3B1287FFF52DDF5D616499C9E25A7605AEC6F0245BD86D40").to_vec()));
    v.push(("d4c28c2e7c26847f0316909e3bbbe9eaa8948c893b61867626bb7dbd2d1c9af0", u256h!("d4c28c2e7c26847f0316909e3bbbe9eaa8948c893b61867626bb7dbd2d1c9af0"), field_element!("d4c28c2e7c26847f0316909e3bbbe9eaa8948c893b61867626bb7dbd2d1c9af0"), hex!("d4c28c2e7c26847f0316909e3bbbe9eaa8948c893b61867626bb7dbd2d1c9af0").to_vec()));
    v.push(("88DAF4016B4013EF254B0C4E010C4759482C9CBC43435CC52EAE05CF96D0CC5F", u256h!("88DAF4016B4013EF254B0C4E010C4759482C9CBC43435CC52EAE05CF96D0CC5F"), field_element!("88DAF4016B4013EF254B0C4E010C4759482C9CBC43435CC52EAE05CF96D0CC5F"), hex!("88DAF4016B4013EF254B0C4E010C4759482C9CBC43435CC52EAE05CF96D0CC5F").to_vec()));
    v.push(("dbf4a8b2b0c4312d20203626f3fe39c0519088f590fbbd119c1caaf75e8766ed", u256h!("dbf4a8b2b0c4312d20203626f3fe39c0519088f590fbbd119c1caaf75e8766ed"), field_element!("dbf4a8b2b0c4312d20203626f3fe39c0519088f590fbbd119c1caaf75e8766ed"), hex!("dbf4a8b2b0c4312d20203626f3fe39c0519088f590fbbd119c1caaf75e8766ed").to_vec()));
    v.push(("74e69a5d0dd27a65bd628881ad1b72dba7abe1c29e1a8ef4f341e07a83f73f16", u256h!("74e69a5d0dd27a65bd628881ad1b72dba7abe1c29e1a8ef4f341e07a83f73f16"), field_element!("74e69a5d0dd27a65bd628881ad1b72dba7abe1c29e1a8ef4f341e07a83f73f16"), hex!("74e69a5d0dd27a65bd628881ad1b72dba7abe1c29e1a8ef4f341e07a83f73f16").to_vec()));
    v.push(("8F2C6EC8CC4169A3AE3A2B7FDFE01893F3AED0B6C7AC1491DEF88334E647CB8F", u256h!("8F2C6EC8CC4169A3AE3A2B7FDFE01893F3AED0B6C7AC1491DEF88334E647CB8F"), field_element!("8F2C6EC8CC4169A3AE3A2B7FDFE01893F3AED0B6C7AC1491DEF88334E647CB8F"), hex!("8F2C6EC8CC4169A3AE3A2B7FDFE01893F3AED0B6C7AC1491DEF88334E647CB8F").to_vec()));
    v.push(("66836886a260cd0b7b45145c1a81682c64e50cad66237a0465e7e4236472f1a3", u256h!("66836886a260cd0b7b45145c1a81682c64e50cad66237a0465e7e4236472f1a3"), field_element!("66836886a260cd0b7b45145c1a81682c64e50cad66237a0465e7e4236472f1a3"), hex!("66836886a260cd0b7b45145c1a81682c64e50cad66237a0465e7e4236472f1a3").to_vec()));
    v.push(("1C2442F9298CB3A570CCEC313571810AFC132D0D113DB17D30CBC97D0FEF7928", u256h!("1C2442F9298CB3A570CCEC313571810AFC132D0D113DB17D30CBC97D0FEF7928"), field_element!("1C2442F9298CB3A570CCEC313571810AFC132D0D113DB17D30CBC97D0FEF7928"), hex!("1C2442F9298CB3A570CCEC313571810AFC132D0D113DB17D30CBC97D0FEF7928").to_vec()));
    v.push(("895fd7b326b94c7f9118bb16000f49c81a358ca00d75985d99c94309570dc195", u256h!("895fd7b326b94c7f9118bb16000f49c81a358ca00d75985d99c94309570dc195"), field_element!("895fd7b326b94c7f9118bb16000f49c81a358ca00d75985d99c94309570dc195"), hex!("895fd7b326b94c7f9118bb16000f49c81a358ca00d75985d99c94309570dc195").to_vec()));
    v.push(("353C631CDFD43F371200339D068739FA9D1DE2A05D158A2FF2EE4E4519F9919C", u256h!("353C631CDFD43F371200339D068739FA9D1DE2A05D158A2FF2EE4E4519F9919C"), field_element!("353C631CDFD43F371200339D068739FA9D1DE2A05D158A2FF2EE4E4519F9919C"), hex!("353C631CDFD43F371200339D068739FA9D1DE2A05D158A2FF2EE4E4519F9919C").to_vec()));
    v.push(("9a2ef80f58ee8571f4998d7c4093f6dea268aa872607679d6050914a9d33a01c", u256h!("9a2ef80f58ee8571f4998d7c4093f6dea268aa872607679d6050914a9d33a01c"), field_element!("9a2ef80f58ee8571f4998d7c4093f6dea268aa872607679d6050914a9d33a01c"), hex!("9a2ef80f58ee8571f4998d7c4093f6dea268aa872607679d6050914a9d33a01c").to_vec()));
    v.push(("fa529ba3fe3bfada7cf20724d953ee261d87cec31f7296ab7961fd925d39d0a8", u256h!("fa529ba3fe3bfada7cf20724d953ee261d87cec31f7296ab7961fd925d39d0a8"), field_element!("fa529ba3fe3bfada7cf20724d953ee261d87cec31f7296ab7961fd925d39d0a8"), hex!("fa529ba3fe3bfada7cf20724d953ee261d87cec31f7296ab7961fd925d39d0a8").to_vec()));
    v.push(("bfeaa1551a28f7b324e4e25a15fc899e4fd58dbe7bdc968b7afb2c68774b15d7", u256h!("bfeaa1551a28f7b324e4e25a15fc899e4fd58dbe7bdc968b7afb2c68774b15d7"), field_element!("bfeaa1551a28f7b324e4e25a15fc899e4fd58dbe7bdc968b7afb2c68774b15d7"), hex!("bfeaa1551a28f7b324e4e25a15fc899e4fd58dbe7bdc968b7afb2c68774b15d7").to_vec()));
    v.push(("842E7FC229540A6EB12AA1F6D42FDDBB7A86F7A243C71B9ABD87A86557B6FB7E", u256h!("842E7FC229540A6EB12AA1F6D42FDDBB7A86F7A243C71B9ABD87A86557B6FB7E"), field_element!("842E7FC229540A6EB12AA1F6D42FDDBB7A86F7A243C71B9ABD87A86557B6FB7E"), hex!("842E7FC229540A6EB12AA1F6D42FDDBB7A86F7A243C71B9ABD87A86557B6FB7E").to_vec()));
    v.push(("B0A844E52587BE6B5C9BCF35873BE078F3B7A50DF373CA533488F87605E999F3", u256h!("B0A844E52587BE6B5C9BCF35873BE078F3B7A50DF373CA533488F87605E999F3"), field_element!("B0A844E52587BE6B5C9BCF35873BE078F3B7A50DF373CA533488F87605E999F3"), hex!("B0A844E52587BE6B5C9BCF35873BE078F3B7A50DF373CA533488F87605E999F3").to_vec()));
    v.push(("a49636a2fa7f0eab4c4f9b0687322e25c215a82a06ec41adea0575438b0d590b", u256h!("a49636a2fa7f0eab4c4f9b0687322e25c215a82a06ec41adea0575438b0d590b"), field_element!("a49636a2fa7f0eab4c4f9b0687322e25c215a82a06ec41adea0575438b0d590b"), hex!("a49636a2fa7f0eab4c4f9b0687322e25c215a82a06ec41adea0575438b0d590b").to_vec()));
    v.push(("E883A1D45DE0099784B5A81842D87208D86F40F6B239F3C7174C77A2DD02DE92", u256h!("E883A1D45DE0099784B5A81842D87208D86F40F6B239F3C7174C77A2DD02DE92"), field_element!("E883A1D45DE0099784B5A81842D87208D86F40F6B239F3C7174C77A2DD02DE92"), hex!("E883A1D45DE0099784B5A81842D87208D86F40F6B239F3C7174C77A2DD02DE92").to_vec()));
    v.push(("80B0C08BC77024208AA4248C8857F9A43908F227C59DB9165B0EE76F2AC34446", u256h!("80B0C08BC77024208AA4248C8857F9A43908F227C59DB9165B0EE76F2AC34446"), field_element!("80B0C08BC77024208AA4248C8857F9A43908F227C59DB9165B0EE76F2AC34446"), hex!("80B0C08BC77024208AA4248C8857F9A43908F227C59DB9165B0EE76F2AC34446").to_vec()));
    v.push(("c2216b02fc241d0bc9d488b1cfbf33609cfc865239194242a2eddbbd5464ecc2", u256h!("c2216b02fc241d0bc9d488b1cfbf33609cfc865239194242a2eddbbd5464ecc2"), field_element!("c2216b02fc241d0bc9d488b1cfbf33609cfc865239194242a2eddbbd5464ecc2"), hex!("c2216b02fc241d0bc9d488b1cfbf33609cfc865239194242a2eddbbd5464ecc2").to_vec()));
    v.push(("cda6c6fdbd68516766934036d17e44973d4882a5ce5b2a9231f51707da45e18a", u256h!("cda6c6fdbd68516766934036d17e44973d4882a5ce5b2a9231f51707da45e18a"), field_element!("cda6c6fdbd68516766934036d17e44973d4882a5ce5b2a9231f51707da45e18a"), hex!("cda6c6fdbd68516766934036d17e44973d4882a5ce5b2a9231f51707da45e18a").to_vec()));
    v.push(("fd56a926076b3e36bb2313f55b06258e7e26f36a8483f8b8332dd3313a0b9965", u256h!("fd56a926076b3e36bb2313f55b06258e7e26f36a8483f8b8332dd3313a0b9965"), field_element!("fd56a926076b3e36bb2313f55b06258e7e26f36a8483f8b8332dd3313a0b9965"), hex!("fd56a926076b3e36bb2313f55b06258e7e26f36a8483f8b8332dd3313a0b9965").to_vec()));
    v.push(("9aea6429b1491e243192b7044259405278e4b98d4787f93bca44eb860726e25c", u256h!("9aea6429b1491e243192b7044259405278e4b98d4787f93bca44eb860726e25c"), field_element!("9aea6429b1491e243192b7044259405278e4b98d4787f93bca44eb860726e25c"), hex!("9aea6429b1491e243192b7044259405278e4b98d4787f93bca44eb860726e25c").to_vec()));
    v.push(("597a1ecffcf00fecb91ee9e5efe09f07cefe2a1f727d83495822cb77f4de2c08", u256h!("597a1ecffcf00fecb91ee9e5efe09f07cefe2a1f727d83495822cb77f4de2c08"), field_element!("597a1ecffcf00fecb91ee9e5efe09f07cefe2a1f727d83495822cb77f4de2c08"), hex!("597a1ecffcf00fecb91ee9e5efe09f07cefe2a1f727d83495822cb77f4de2c08").to_vec()));
    v.push(("785729763a12917c1a26f88938703800149e259b5d58c705f979d04af47aebdd", u256h!("785729763a12917c1a26f88938703800149e259b5d58c705f979d04af47aebdd"), field_element!("785729763a12917c1a26f88938703800149e259b5d58c705f979d04af47aebdd"), hex!("785729763a12917c1a26f88938703800149e259b5d58c705f979d04af47aebdd").to_vec()));
    v.push(("9c3a23cde67a9b75fc3947249fc2d0a17b8f2ab53451d0135675f6ad325b55dd", u256h!("9c3a23cde67a9b75fc3947249fc2d0a17b8f2ab53451d0135675f6ad325b55dd"), field_element!("9c3a23cde67a9b75fc3947249fc2d0a17b8f2ab53451d0135675f6ad325b55dd"), hex!("9c3a23cde67a9b75fc3947249fc2d0a17b8f2ab53451d0135675f6ad325b55dd").to_vec()));
    v.push(("a4a45effccb573d95810d60ea72991b9e8c147437abec539007d1034d726c86b", u256h!("a4a45effccb573d95810d60ea72991b9e8c147437abec539007d1034d726c86b"), field_element!("a4a45effccb573d95810d60ea72991b9e8c147437abec539007d1034d726c86b"), hex!("a4a45effccb573d95810d60ea72991b9e8c147437abec539007d1034d726c86b").to_vec()));
    v.push(("b6246771c845007063771407e8e727891eb20109a91c2439d5ab8b4d15b40aeb", u256h!("b6246771c845007063771407e8e727891eb20109a91c2439d5ab8b4d15b40aeb"), field_element!("b6246771c845007063771407e8e727891eb20109a91c2439d5ab8b4d15b40aeb"), hex!("b6246771c845007063771407e8e727891eb20109a91c2439d5ab8b4d15b40aeb").to_vec()));
    v.push(("a2c68e45ca04c79f6f15b6ad2db3997fe39639be7a605a91330698a1c0093492", u256h!("a2c68e45ca04c79f6f15b6ad2db3997fe39639be7a605a91330698a1c0093492"), field_element!("a2c68e45ca04c79f6f15b6ad2db3997fe39639be7a605a91330698a1c0093492"), hex!("a2c68e45ca04c79f6f15b6ad2db3997fe39639be7a605a91330698a1c0093492").to_vec()));
    v.push(("7691b06f6555abfeb8c9817af8be8831f237e45acd02c5e116353d03551fd8f9", u256h!("7691b06f6555abfeb8c9817af8be8831f237e45acd02c5e116353d03551fd8f9"), field_element!("7691b06f6555abfeb8c9817af8be8831f237e45acd02c5e116353d03551fd8f9"), hex!("7691b06f6555abfeb8c9817af8be8831f237e45acd02c5e116353d03551fd8f9").to_vec()));
    v.push(("fe3c9c8f2b855c1f28aaca51b98c67c215bd448ff26149edbe4c5ce666c1494e", u256h!("fe3c9c8f2b855c1f28aaca51b98c67c215bd448ff26149edbe4c5ce666c1494e"), field_element!("fe3c9c8f2b855c1f28aaca51b98c67c215bd448ff26149edbe4c5ce666c1494e"), hex!("fe3c9c8f2b855c1f28aaca51b98c67c215bd448ff26149edbe4c5ce666c1494e").to_vec()));
    v.push(("a7e6529bce76e9f477216e9ee7a46309973f798626b1cffc070d710920859634", u256h!("a7e6529bce76e9f477216e9ee7a46309973f798626b1cffc070d710920859634"), field_element!("a7e6529bce76e9f477216e9ee7a46309973f798626b1cffc070d710920859634"), hex!("a7e6529bce76e9f477216e9ee7a46309973f798626b1cffc070d710920859634").to_vec()));
    v.push(("effddeeaa842bc19796f74adfaf55496988af3fbd39630d69c9011ef256badf9", u256h!("effddeeaa842bc19796f74adfaf55496988af3fbd39630d69c9011ef256badf9"), field_element!("effddeeaa842bc19796f74adfaf55496988af3fbd39630d69c9011ef256badf9"), hex!("effddeeaa842bc19796f74adfaf55496988af3fbd39630d69c9011ef256badf9").to_vec()));
    v.push(("cca2a92b03a56cc1057a40b22188287e8c5c715f8c74fc1e27e9e06f59b44e92", u256h!("cca2a92b03a56cc1057a40b22188287e8c5c715f8c74fc1e27e9e06f59b44e92"), field_element!("cca2a92b03a56cc1057a40b22188287e8c5c715f8c74fc1e27e9e06f59b44e92"), hex!("cca2a92b03a56cc1057a40b22188287e8c5c715f8c74fc1e27e9e06f59b44e92").to_vec()));
    v.push(("23a5ef88ef02090bbfdefc1586ce03f91a4f44f9a6511445b9f3635cf88c422b", u256h!("23a5ef88ef02090bbfdefc1586ce03f91a4f44f9a6511445b9f3635cf88c422b"), field_element!("23a5ef88ef02090bbfdefc1586ce03f91a4f44f9a6511445b9f3635cf88c422b"), hex!("23a5ef88ef02090bbfdefc1586ce03f91a4f44f9a6511445b9f3635cf88c422b").to_vec()));
    v.push(("072a98d23606defcdfb85c0dd37ee91531dec4f4df2a8b79fc8e80b36f0e2289", u256h!("072a98d23606defcdfb85c0dd37ee91531dec4f4df2a8b79fc8e80b36f0e2289"), field_element!("072a98d23606defcdfb85c0dd37ee91531dec4f4df2a8b79fc8e80b36f0e2289"), hex!("072a98d23606defcdfb85c0dd37ee91531dec4f4df2a8b79fc8e80b36f0e2289").to_vec()));
    v.push(("537409029620bf0dc38084a03d93fd4c804c25d64affdcd13678bc8d40783f0a", u256h!("537409029620bf0dc38084a03d93fd4c804c25d64affdcd13678bc8d40783f0a"), field_element!("537409029620bf0dc38084a03d93fd4c804c25d64affdcd13678bc8d40783f0a"), hex!("537409029620bf0dc38084a03d93fd4c804c25d64affdcd13678bc8d40783f0a").to_vec()));
    v.push(("BD6B881AE8F6E0BD0F977044218E0B7BD58DCDB46B4468068B5AB3EE4265BB31", u256h!("BD6B881AE8F6E0BD0F977044218E0B7BD58DCDB46B4468068B5AB3EE4265BB31"), field_element!("BD6B881AE8F6E0BD0F977044218E0B7BD58DCDB46B4468068B5AB3EE4265BB31"), hex!("BD6B881AE8F6E0BD0F977044218E0B7BD58DCDB46B4468068B5AB3EE4265BB31").to_vec()));
    v.push(("844a7034e77ffe48d0a6ec179556585ea997f351754a09cde5cfedfa5a9196f0", u256h!("844a7034e77ffe48d0a6ec179556585ea997f351754a09cde5cfedfa5a9196f0"), field_element!("844a7034e77ffe48d0a6ec179556585ea997f351754a09cde5cfedfa5a9196f0"), hex!("844a7034e77ffe48d0a6ec179556585ea997f351754a09cde5cfedfa5a9196f0").to_vec()));
    v.push(("26DEBFDB8825AE562179B37D806C10B5E0CFAB4CEAEFC4D2D3BF6D016BAE4B5B", u256h!("26DEBFDB8825AE562179B37D806C10B5E0CFAB4CEAEFC4D2D3BF6D016BAE4B5B"), field_element!("26DEBFDB8825AE562179B37D806C10B5E0CFAB4CEAEFC4D2D3BF6D016BAE4B5B"), hex!("26DEBFDB8825AE562179B37D806C10B5E0CFAB4CEAEFC4D2D3BF6D016BAE4B5B").to_vec()));
    v.push(("9bca3cb72ee0289dc6c91b9270ac06acdf70301704c9d78d82b3359986048719", u256h!("9bca3cb72ee0289dc6c91b9270ac06acdf70301704c9d78d82b3359986048719"), field_element!("9bca3cb72ee0289dc6c91b9270ac06acdf70301704c9d78d82b3359986048719"), hex!("9bca3cb72ee0289dc6c91b9270ac06acdf70301704c9d78d82b3359986048719").to_vec()));
    v.push(("9e7d6b377936d536243d35702c1eea1f265974a7cc966f46c6aa7d550101b811", u256h!("9e7d6b377936d536243d35702c1eea1f265974a7cc966f46c6aa7d550101b811"), field_element!("9e7d6b377936d536243d35702c1eea1f265974a7cc966f46c6aa7d550101b811"), hex!("9e7d6b377936d536243d35702c1eea1f265974a7cc966f46c6aa7d550101b811").to_vec()));
    v.push(("87ddaeb784b28054aead44b0537390e50fcf31ca8e752fdf1ece615db9a6442e", u256h!("87ddaeb784b28054aead44b0537390e50fcf31ca8e752fdf1ece615db9a6442e"), field_element!("87ddaeb784b28054aead44b0537390e50fcf31ca8e752fdf1ece615db9a6442e"), hex!("87ddaeb784b28054aead44b0537390e50fcf31ca8e752fdf1ece615db9a6442e").to_vec()));
    v.push(("0E8BEC948F6F915FE21B37CA1B29FC99C6C80E2BC8C614B27B8444D18E317041", u256h!("0E8BEC948F6F915FE21B37CA1B29FC99C6C80E2BC8C614B27B8444D18E317041"), field_element!("0E8BEC948F6F915FE21B37CA1B29FC99C6C80E2BC8C614B27B8444D18E317041"), hex!("0E8BEC948F6F915FE21B37CA1B29FC99C6C80E2BC8C614B27B8444D18E317041").to_vec()));
    v.push(("73c1cd2c81f98b521905d591c5b2e75a0acd8be146e4099030f970583f9d52f9", u256h!("73c1cd2c81f98b521905d591c5b2e75a0acd8be146e4099030f970583f9d52f9"), field_element!("73c1cd2c81f98b521905d591c5b2e75a0acd8be146e4099030f970583f9d52f9"), hex!("73c1cd2c81f98b521905d591c5b2e75a0acd8be146e4099030f970583f9d52f9").to_vec()));
    v.push(("535b6a437178ba0a1038f0b5e998d0eee4ddf9b9c28ee907072235c28fcd7f40", u256h!("535b6a437178ba0a1038f0b5e998d0eee4ddf9b9c28ee907072235c28fcd7f40"), field_element!("535b6a437178ba0a1038f0b5e998d0eee4ddf9b9c28ee907072235c28fcd7f40"), hex!("535b6a437178ba0a1038f0b5e998d0eee4ddf9b9c28ee907072235c28fcd7f40").to_vec()));
    v.push(("46F5A1B4B156D1AD330C16A3831D03BF9B2BD6C0816BEE06F92E23399CCEA098", u256h!("46F5A1B4B156D1AD330C16A3831D03BF9B2BD6C0816BEE06F92E23399CCEA098"), field_element!("46F5A1B4B156D1AD330C16A3831D03BF9B2BD6C0816BEE06F92E23399CCEA098"), hex!("46F5A1B4B156D1AD330C16A3831D03BF9B2BD6C0816BEE06F92E23399CCEA098").to_vec()));
    v.push(("3f665edef10637ce81fc069e7a609683ceaf4915888564e88216858f73ccef03", u256h!("3f665edef10637ce81fc069e7a609683ceaf4915888564e88216858f73ccef03"), field_element!("3f665edef10637ce81fc069e7a609683ceaf4915888564e88216858f73ccef03"), hex!("3f665edef10637ce81fc069e7a609683ceaf4915888564e88216858f73ccef03").to_vec()));
    v.push(("ec3b96054274a3ebed84e91ef132bf2de040015ce064a11485f1115bb2fff17b", u256h!("ec3b96054274a3ebed84e91ef132bf2de040015ce064a11485f1115bb2fff17b"), field_element!("ec3b96054274a3ebed84e91ef132bf2de040015ce064a11485f1115bb2fff17b"), hex!("ec3b96054274a3ebed84e91ef132bf2de040015ce064a11485f1115bb2fff17b").to_vec()));
    v.push(("6aa8b9e0231b3e14729135bdd70a39d133dcd77ff179f2d2e48b96628f3c4be3", u256h!("6aa8b9e0231b3e14729135bdd70a39d133dcd77ff179f2d2e48b96628f3c4be3"), field_element!("6aa8b9e0231b3e14729135bdd70a39d133dcd77ff179f2d2e48b96628f3c4be3"), hex!("6aa8b9e0231b3e14729135bdd70a39d133dcd77ff179f2d2e48b96628f3c4be3").to_vec()));
    v.push(("6da79a873d9a8079abd0d7fb1292618550e40d54712ea6b36471fde41f229dd0", u256h!("6da79a873d9a8079abd0d7fb1292618550e40d54712ea6b36471fde41f229dd0"), field_element!("6da79a873d9a8079abd0d7fb1292618550e40d54712ea6b36471fde41f229dd0"), hex!("6da79a873d9a8079abd0d7fb1292618550e40d54712ea6b36471fde41f229dd0").to_vec()));
    v.push(("c6e50df2e5a3863e1f525265c8b007ee4d82feacab6286cd3672d6ae12b80aed", u256h!("c6e50df2e5a3863e1f525265c8b007ee4d82feacab6286cd3672d6ae12b80aed"), field_element!("c6e50df2e5a3863e1f525265c8b007ee4d82feacab6286cd3672d6ae12b80aed"), hex!("c6e50df2e5a3863e1f525265c8b007ee4d82feacab6286cd3672d6ae12b80aed").to_vec()));
    v.push(("40cbacd0249a45845dbe3023a906922fa4b9a9c4b753a1eef08360852789d059", u256h!("40cbacd0249a45845dbe3023a906922fa4b9a9c4b753a1eef08360852789d059"), field_element!("40cbacd0249a45845dbe3023a906922fa4b9a9c4b753a1eef08360852789d059"), hex!("40cbacd0249a45845dbe3023a906922fa4b9a9c4b753a1eef08360852789d059").to_vec()));
    v.push(("18189af4f3d74f82bf268ea03836e86577bd891ff7b103df23231e1ee2015522", u256h!("18189af4f3d74f82bf268ea03836e86577bd891ff7b103df23231e1ee2015522"), field_element!("18189af4f3d74f82bf268ea03836e86577bd891ff7b103df23231e1ee2015522"), hex!("18189af4f3d74f82bf268ea03836e86577bd891ff7b103df23231e1ee2015522").to_vec()));
    v.push(("3945336BD51B1815AAF719F3FD68373B29ACF1A57CBD1F5AE28AF60465F42986", u256h!("3945336BD51B1815AAF719F3FD68373B29ACF1A57CBD1F5AE28AF60465F42986"), field_element!("3945336BD51B1815AAF719F3FD68373B29ACF1A57CBD1F5AE28AF60465F42986"), hex!("3945336BD51B1815AAF719F3FD68373B29ACF1A57CBD1F5AE28AF60465F42986").to_vec()));
    v.push(("6bd8c67656d050cd6760136783feb17bfe7b8ae46e7836a4b4d19ec12955d6f0", u256h!("6bd8c67656d050cd6760136783feb17bfe7b8ae46e7836a4b4d19ec12955d6f0"), field_element!("6bd8c67656d050cd6760136783feb17bfe7b8ae46e7836a4b4d19ec12955d6f0"), hex!("6bd8c67656d050cd6760136783feb17bfe7b8ae46e7836a4b4d19ec12955d6f0").to_vec()));
    v.push(("5685D62404FCD5555DAF106DB8DEE081179A071E518AE4525B4B1B75321C5296", u256h!("5685D62404FCD5555DAF106DB8DEE081179A071E518AE4525B4B1B75321C5296"), field_element!("5685D62404FCD5555DAF106DB8DEE081179A071E518AE4525B4B1B75321C5296"), hex!("5685D62404FCD5555DAF106DB8DEE081179A071E518AE4525B4B1B75321C5296").to_vec()));
    v.push(("189904A10547B401BA8570C1DCA1756B7289", u256h!("189904A10547B401BA8570C1DCA1756B7289"), field_element!("189904A10547B401BA8570C1DCA1756B7289"), hex!("189904A10547B401BA8570C1DCA1756B7289").to_vec()));
    v.push(("09745C9FB9AF5084768B8C", u256h!("09745C9FB9AF5084768B8C"), field_element!("09745C9FB9AF5084768B8C"), hex!("09745C9FB9AF5084768B8C").to_vec()));
    v.push(("0efc2e6a591ce3bc0c10755c97f5f554ed", u256h!("0efc2e6a591ce3bc0c10755c97f5f554ed"), field_element!("0efc2e6a591ce3bc0c10755c97f5f554ed"), hex!("0efc2e6a591ce3bc0c10755c97f5f554ed").to_vec()));
    v.push(("0000011643fc052715850a031ad2d5f1e05b3e13f8c110fb3a828159", u256h!("0000011643fc052715850a031ad2d5f1e05b3e13f8c110fb3a828159"), field_element!("0000011643fc052715850a031ad2d5f1e05b3e13f8c110fb3a828159"), hex!("0000011643fc052715850a031ad2d5f1e05b3e13f8c110fb3a828159").to_vec()));
    v.push(("073f", u256h!("073f"), field_element!("073f"), hex!("073f").to_vec()));
    v.push(("d96c18d982d1dcec53212a8d9bc17a9262453bf4912e7a26e9", u256h!("d96c18d982d1dcec53212a8d9bc17a9262453bf4912e7a26e9"), field_element!("d96c18d982d1dcec53212a8d9bc17a9262453bf4912e7a26e9"), hex!("d96c18d982d1dcec53212a8d9bc17a9262453bf4912e7a26e9").to_vec()));
    v.push(("03ad895e8b6b263cfa5e67ec326a42343354f22d2882d1a89b37ad0c9bb6", u256h!("03ad895e8b6b263cfa5e67ec326a42343354f22d2882d1a89b37ad0c9bb6"), field_element!("03ad895e8b6b263cfa5e67ec326a42343354f22d2882d1a89b37ad0c9bb6"), hex!("03ad895e8b6b263cfa5e67ec326a42343354f22d2882d1a89b37ad0c9bb6").to_vec()));
    v.push(("00000153b97377b34e8ece7e9ee51d9212824c", u256h!("00000153b97377b34e8ece7e9ee51d9212824c"), field_element!("00000153b97377b34e8ece7e9ee51d9212824c"), hex!("00000153b97377b34e8ece7e9ee51d9212824c").to_vec()));
    v.push(("b0ccb1c51d0eba0ea8", u256h!("b0ccb1c51d0eba0ea8"), field_element!("b0ccb1c51d0eba0ea8"), hex!("b0ccb1c51d0eba0ea8").to_vec()));
    v.push(("000072986ce193c2", u256h!("000072986ce193c2"), field_element!("000072986ce193c2"), hex!("000072986ce193c2").to_vec()));
    v.push(("00000226C1", u256h!("00000226C1"), field_element!("00000226C1"), hex!("00000226C1").to_vec()));
    v.push(("0001B6639BB183E11570266B42B38755CD37880E16AC4191A26AA0AE044F1574", u256h!("0001B6639BB183E11570266B42B38755CD37880E16AC4191A26AA0AE044F1574"), field_element!("0001B6639BB183E11570266B42B38755CD37880E16AC4191A26AA0AE044F1574"), hex!("0001B6639BB183E11570266B42B38755CD37880E16AC4191A26AA0AE044F1574").to_vec()));
    v.push(("87661e110e2cb6", u256h!("87661e110e2cb6"), field_element!("87661e110e2cb6"), hex!("87661e110e2cb6").to_vec()));
    v.push(("0D5E4AE98D959C31FE8AD4A156D2A68C02F4B342742A80631F2642AA", u256h!("0D5E4AE98D959C31FE8AD4A156D2A68C02F4B342742A80631F2642AA"), field_element!("0D5E4AE98D959C31FE8AD4A156D2A68C02F4B342742A80631F2642AA"), hex!("0D5E4AE98D959C31FE8AD4A156D2A68C02F4B342742A80631F2642AA").to_vec()));
    v.push(("000f42b5a432cf86e3e7260b0f873b2114e0689f27f52c449274d2ea59679a", u256h!("000f42b5a432cf86e3e7260b0f873b2114e0689f27f52c449274d2ea59679a"), field_element!("000f42b5a432cf86e3e7260b0f873b2114e0689f27f52c449274d2ea59679a"), hex!("000f42b5a432cf86e3e7260b0f873b2114e0689f27f52c449274d2ea59679a").to_vec()));
    v.push(("0001dd4f33a715682e5f950c0ce5af69430b91ed2954ba5cf81e54dd1c0502c6", u256h!("0001dd4f33a715682e5f950c0ce5af69430b91ed2954ba5cf81e54dd1c0502c6"), field_element!("0001dd4f33a715682e5f950c0ce5af69430b91ed2954ba5cf81e54dd1c0502c6"), hex!("0001dd4f33a715682e5f950c0ce5af69430b91ed2954ba5cf81e54dd1c0502c6").to_vec()));
    v.push(("000087f54e14d571a0f096da", u256h!("000087f54e14d571a0f096da"), field_element!("000087f54e14d571a0f096da"), hex!("000087f54e14d571a0f096da").to_vec()));
    v.push(("00022d8ad8c0ac127e938005ce74721888ff4a3adf9934b3ff60", u256h!("00022d8ad8c0ac127e938005ce74721888ff4a3adf9934b3ff60"), field_element!("00022d8ad8c0ac127e938005ce74721888ff4a3adf9934b3ff60"), hex!("00022d8ad8c0ac127e938005ce74721888ff4a3adf9934b3ff60").to_vec()));
    v.push(("01FD2EF804A65651CDBDE747", u256h!("01FD2EF804A65651CDBDE747"), field_element!("01FD2EF804A65651CDBDE747"), hex!("01FD2EF804A65651CDBDE747").to_vec()));
    v.push(("03EDB92009758340", u256h!("03EDB92009758340"), field_element!("03EDB92009758340"), hex!("03EDB92009758340").to_vec()));
    v.push(("07989e9d83a4e62930803889fa6197748d118e3781728a07", u256h!("07989e9d83a4e62930803889fa6197748d118e3781728a07"), field_element!("07989e9d83a4e62930803889fa6197748d118e3781728a07"), hex!("07989e9d83a4e62930803889fa6197748d118e3781728a07").to_vec()));
    v.push(("39391dceef44c0d5", u256h!("39391dceef44c0d5"), field_element!("39391dceef44c0d5"), hex!("39391dceef44c0d5").to_vec()));
    v.push(("000A887AE2", u256h!("000A887AE2"), field_element!("000A887AE2"), hex!("000A887AE2").to_vec()));
    v.push(("0000038e0ed5a9422a8bc083117eb86c57a81100a16ea330a1a66d58b5", u256h!("0000038e0ed5a9422a8bc083117eb86c57a81100a16ea330a1a66d58b5"), field_element!("0000038e0ed5a9422a8bc083117eb86c57a81100a16ea330a1a66d58b5"), hex!("0000038e0ed5a9422a8bc083117eb86c57a81100a16ea330a1a66d58b5").to_vec()));
    v.push(("164ecadea281b62bb5f86664ae", u256h!("164ecadea281b62bb5f86664ae"), field_element!("164ecadea281b62bb5f86664ae"), hex!("164ecadea281b62bb5f86664ae").to_vec()));
    v.push(("00003ac4dafb813921", u256h!("00003ac4dafb813921"), field_element!("00003ac4dafb813921"), hex!("00003ac4dafb813921").to_vec()));
    v.push(("e1c60ad510bb0432d90dcd", u256h!("e1c60ad510bb0432d90dcd"), field_element!("e1c60ad510bb0432d90dcd"), hex!("e1c60ad510bb0432d90dcd").to_vec()));
    v.push(("00000b1f25fd4bd030679a44dd23c49caea2cf62baba958810", u256h!("00000b1f25fd4bd030679a44dd23c49caea2cf62baba958810"), field_element!("00000b1f25fd4bd030679a44dd23c49caea2cf62baba958810"), hex!("00000b1f25fd4bd030679a44dd23c49caea2cf62baba958810").to_vec()));
    v.push(("0e13e213bdaaea00a01d616f121ae3e603a63966213bca7fd644de2f0dec6823", u256h!("0e13e213bdaaea00a01d616f121ae3e603a63966213bca7fd644de2f0dec6823"), field_element!("0e13e213bdaaea00a01d616f121ae3e603a63966213bca7fd644de2f0dec6823"), hex!("0e13e213bdaaea00a01d616f121ae3e603a63966213bca7fd644de2f0dec6823").to_vec()));
    v.push(("0029ca862d6e4505f5", u256h!("0029ca862d6e4505f5"), field_element!("0029ca862d6e4505f5"), hex!("0029ca862d6e4505f5").to_vec()));
    v.push(("00002a9317", u256h!("00002a9317"), field_element!("00002a9317"), hex!("00002a9317").to_vec()));
    v.push(("99498a482cc78ef88ede10aba8b9b38185797cdedb9109618177ff", u256h!("99498a482cc78ef88ede10aba8b9b38185797cdedb9109618177ff"), field_element!("99498a482cc78ef88ede10aba8b9b38185797cdedb9109618177ff"), hex!("99498a482cc78ef88ede10aba8b9b38185797cdedb9109618177ff").to_vec()));
    v.push(("2582F0D7B153D69C", u256h!("2582F0D7B153D69C"), field_element!("2582F0D7B153D69C"), hex!("2582F0D7B153D69C").to_vec()));
    v.push(("0759", u256h!("0759"), field_element!("0759"), hex!("0759").to_vec()));
    v.push(("44df28541424", u256h!("44df28541424"), field_element!("44df28541424"), hex!("44df28541424").to_vec()));
    v.push(("07b1bd5d385e064363e5d900ed6b02", u256h!("07b1bd5d385e064363e5d900ed6b02"), field_element!("07b1bd5d385e064363e5d900ed6b02"), hex!("07b1bd5d385e064363e5d900ed6b02").to_vec()));
    v.push(("1181A0FC2325A9F8FDD208", u256h!("1181A0FC2325A9F8FDD208"), field_element!("1181A0FC2325A9F8FDD208"), hex!("1181A0FC2325A9F8FDD208").to_vec()));
    v.push(("07b9af08d180113e940bb4", u256h!("07b9af08d180113e940bb4"), field_element!("07b9af08d180113e940bb4"), hex!("07b9af08d180113e940bb4").to_vec()));
    v.push(("61B2480C55D85E8D00460D692ED654115B49156137C60E984F3E885E", u256h!("61B2480C55D85E8D00460D692ED654115B49156137C60E984F3E885E"), field_element!("61B2480C55D85E8D00460D692ED654115B49156137C60E984F3E885E"), hex!("61B2480C55D85E8D00460D692ED654115B49156137C60E984F3E885E").to_vec()));
    v.push(("00CDCDB7A7F0C99E80B5244A4767E1FA", u256h!("00CDCDB7A7F0C99E80B5244A4767E1FA"), field_element!("00CDCDB7A7F0C99E80B5244A4767E1FA"), hex!("00CDCDB7A7F0C99E80B5244A4767E1FA").to_vec()));
    v.push(("66465d2824d4589c00000000000000000000000000000000", u256h!("66465d2824d4589c00000000000000000000000000000000"), field_element!("66465d2824d4589c00000000000000000000000000000000"), hex!("66465d2824d4589c00000000000000000000000000000000").to_vec()));
    v.push(("E48E9E02A854C834000000000000000195E8C93E15A0A8AE0000000000000001", u256h!("E48E9E02A854C834000000000000000195E8C93E15A0A8AE0000000000000001"), field_element!("E48E9E02A854C834000000000000000195E8C93E15A0A8AE0000000000000001"), hex!("E48E9E02A854C834000000000000000195E8C93E15A0A8AE0000000000000001").to_vec()));
    v.push(("48bfcbcf264337988000000000000000ffffffffffffffff", u256h!("48bfcbcf264337988000000000000000ffffffffffffffff"), field_element!("48bfcbcf264337988000000000000000ffffffffffffffff"), hex!("48bfcbcf264337988000000000000000ffffffffffffffff").to_vec()));
    v.push(("811E7616C0BBE6EDE8EE65A123A9A9DA6DE2FB1FA098D691D5D5891FD329D65C", u256h!("811E7616C0BBE6EDE8EE65A123A9A9DA6DE2FB1FA098D691D5D5891FD329D65C"), field_element!("811E7616C0BBE6EDE8EE65A123A9A9DA6DE2FB1FA098D691D5D5891FD329D65C"), hex!("811E7616C0BBE6EDE8EE65A123A9A9DA6DE2FB1FA098D691D5D5891FD329D65C").to_vec()));
    v.push(("01afbc9ca9d38f8c450000000000000000", u256h!("01afbc9ca9d38f8c450000000000000000"), field_element!("01afbc9ca9d38f8c450000000000000000"), hex!("01afbc9ca9d38f8c450000000000000000").to_vec()));
    v.push(("00738e0b77d5f860c38000000000000000ffffffffffffffff", u256h!("00738e0b77d5f860c38000000000000000ffffffffffffffff"), field_element!("00738e0b77d5f860c38000000000000000ffffffffffffffff"), hex!("00738e0b77d5f860c38000000000000000ffffffffffffffff").to_vec()));
    v.push(("EEB89FF1BF8E51AA000000000000000000000000000000000000000000000001", u256h!("EEB89FF1BF8E51AA000000000000000000000000000000000000000000000001"), field_element!("EEB89FF1BF8E51AA000000000000000000000000000000000000000000000001"), hex!("EEB89FF1BF8E51AA000000000000000000000000000000000000000000000001").to_vec()));
    v.push(("800000000000000000000000000000000000000000000000", u256h!("800000000000000000000000000000000000000000000000"), field_element!("800000000000000000000000000000000000000000000000"), hex!("800000000000000000000000000000000000000000000000").to_vec()));
    v.push(("8000000000000000800000000000000000000000000000010000000000000001", u256h!("8000000000000000800000000000000000000000000000010000000000000001"), field_element!("8000000000000000800000000000000000000000000000010000000000000001"), hex!("8000000000000000800000000000000000000000000000010000000000000001").to_vec()));
    v.push(("0100000000000000010bf7a4bdc458272fffffffffffffffff", u256h!("0100000000000000010bf7a4bdc458272fffffffffffffffff"), field_element!("0100000000000000010bf7a4bdc458272fffffffffffffffff"), hex!("0100000000000000010bf7a4bdc458272fffffffffffffffff").to_vec()));
    v.push(("0001FFFFFFFFFFFFFFFF", u256h!("0001FFFFFFFFFFFFFFFF"), field_element!("0001FFFFFFFFFFFFFFFF"), hex!("0001FFFFFFFFFFFFFFFF").to_vec()));
    v.push(("008000000000000000b578909c4a7591f28000000000000000", u256h!("008000000000000000b578909c4a7591f28000000000000000"), field_element!("008000000000000000b578909c4a7591f28000000000000000"), hex!("008000000000000000b578909c4a7591f28000000000000000").to_vec()));
    v.push(("0000e4c717fdfe48ef63", u256h!("0000e4c717fdfe48ef63"), field_element!("0000e4c717fdfe48ef63"), hex!("0000e4c717fdfe48ef63").to_vec()));
    v.push(("0180000000000000008000000000000000", u256h!("0180000000000000008000000000000000"), field_element!("0180000000000000008000000000000000"), hex!("0180000000000000008000000000000000").to_vec()));
    v.push(("9a762d5421f267e2ffffffffffffffffbf5b411b24491df6", u256h!("9a762d5421f267e2ffffffffffffffffbf5b411b24491df6"), field_element!("9a762d5421f267e2ffffffffffffffffbf5b411b24491df6"), hex!("9a762d5421f267e2ffffffffffffffffbf5b411b24491df6").to_vec()));
    v.push(("8000000000000000000000000000000180000000000000000000000000000001", u256h!("8000000000000000000000000000000180000000000000000000000000000001"), field_element!("8000000000000000000000000000000180000000000000000000000000000001"), hex!("8000000000000000000000000000000180000000000000000000000000000001").to_vec()));
    v.push(("ffffffffffffffff800000000000000000000000000000018000000000000000", u256h!("ffffffffffffffff800000000000000000000000000000018000000000000000"), field_element!("ffffffffffffffff800000000000000000000000000000018000000000000000"), hex!("ffffffffffffffff800000000000000000000000000000018000000000000000").to_vec()));
    v.push(("ffffffffffffffff00000000000000010000000000000000ffffffffffffffff", u256h!("ffffffffffffffff00000000000000010000000000000000ffffffffffffffff"), field_element!("ffffffffffffffff00000000000000010000000000000000ffffffffffffffff"), hex!("ffffffffffffffff00000000000000010000000000000000ffffffffffffffff").to_vec()));
    v.push(("800000000000000063e1986964950dc20000000000000000", u256h!("800000000000000063e1986964950dc20000000000000000"), field_element!("800000000000000063e1986964950dc20000000000000000"), hex!("800000000000000063e1986964950dc20000000000000000").to_vec()));
    v.push(("FFFFFFFFFFFFFFFF0000000000000001FFFFFFFFFFFFFFFF0000000000000000", u256h!("FFFFFFFFFFFFFFFF0000000000000001FFFFFFFFFFFFFFFF0000000000000000"), field_element!("FFFFFFFFFFFFFFFF0000000000000001FFFFFFFFFFFFFFFF0000000000000000"), hex!("FFFFFFFFFFFFFFFF0000000000000001FFFFFFFFFFFFFFFF0000000000000000").to_vec()));
    v.push(("80000000000000008000000000000000ffffffffffffffffffffffffffffffff", u256h!("80000000000000008000000000000000ffffffffffffffffffffffffffffffff"), field_element!("80000000000000008000000000000000ffffffffffffffffffffffffffffffff"), hex!("80000000000000008000000000000000ffffffffffffffffffffffffffffffff").to_vec()));
    v.push(("000180000000000000000000000000000000e02f9a72e9d625c9", u256h!("000180000000000000000000000000000000e02f9a72e9d625c9"), field_element!("000180000000000000000000000000000000e02f9a72e9d625c9"), hex!("000180000000000000000000000000000000e02f9a72e9d625c9").to_vec()));
    v.push(("FFFFFFFFFFFFFFFF80000000000000000C89C0017C4EA603FFFFFFFFFFFFFFFF", u256h!("FFFFFFFFFFFFFFFF80000000000000000C89C0017C4EA603FFFFFFFFFFFFFFFF"), field_element!("FFFFFFFFFFFFFFFF80000000000000000C89C0017C4EA603FFFFFFFFFFFFFFFF"), hex!("FFFFFFFFFFFFFFFF80000000000000000C89C0017C4EA603FFFFFFFFFFFFFFFF").to_vec()));
    v.push(("00007BB1D1244D039B720000000000000001FFFFFFFFFFFFFFFF", u256h!("00007BB1D1244D039B720000000000000001FFFFFFFFFFFFFFFF"), field_element!("00007BB1D1244D039B720000000000000001FFFFFFFFFFFFFFFF"), hex!("00007BB1D1244D039B720000000000000001FFFFFFFFFFFFFFFF").to_vec()));
    v.push(("8000000000000000800000000000000035372235133e61530000000000000001", u256h!("8000000000000000800000000000000035372235133e61530000000000000001"), field_element!("8000000000000000800000000000000035372235133e61530000000000000001"), hex!("8000000000000000800000000000000035372235133e61530000000000000001").to_vec()));
    v.push(("578a60d82cb8d14c000000000000000023bc91526d6b987a8000000000000000", u256h!("578a60d82cb8d14c000000000000000023bc91526d6b987a8000000000000000"), field_element!("578a60d82cb8d14c000000000000000023bc91526d6b987a8000000000000000"), hex!("578a60d82cb8d14c000000000000000023bc91526d6b987a8000000000000000").to_vec()));
    v.push(("800000000000000000000000000000004223b8aa5e49422a0000000000000001", u256h!("800000000000000000000000000000004223b8aa5e49422a0000000000000001"), field_element!("800000000000000000000000000000004223b8aa5e49422a0000000000000001"), hex!("800000000000000000000000000000004223b8aa5e49422a0000000000000001").to_vec()));
    v.push(("470b4fad7f867d5f0000000000000000ffffffffffffffff69f446126201a9d3", u256h!("470b4fad7f867d5f0000000000000000ffffffffffffffff69f446126201a9d3"), field_element!("470b4fad7f867d5f0000000000000000ffffffffffffffff69f446126201a9d3"), hex!("470b4fad7f867d5f0000000000000000ffffffffffffffff69f446126201a9d3").to_vec()));
    v.push(("01000000000000000180de8b3eafcf0e770000000000000001", u256h!("01000000000000000180de8b3eafcf0e770000000000000001"), field_element!("01000000000000000180de8b3eafcf0e770000000000000001"), hex!("01000000000000000180de8b3eafcf0e770000000000000001").to_vec()));
    v.push(("80000000000000000000000000000000ffffffffffffffff8000000000000000", u256h!("80000000000000000000000000000000ffffffffffffffff8000000000000000"), field_element!("80000000000000000000000000000000ffffffffffffffff8000000000000000"), hex!("80000000000000000000000000000000ffffffffffffffff8000000000000000").to_vec()));
    v.push(("ed448d4eee241c43800000000000000080000000000000008000000000000000", u256h!("ed448d4eee241c43800000000000000080000000000000008000000000000000"), field_element!("ed448d4eee241c43800000000000000080000000000000008000000000000000"), hex!("ed448d4eee241c43800000000000000080000000000000008000000000000000").to_vec()));
    v.push(("0100000000000000008000000000000000", u256h!("0100000000000000008000000000000000"), field_element!("0100000000000000008000000000000000"), hex!("0100000000000000008000000000000000").to_vec()));
    v.push(("0100000000000000008000000000000000", u256h!("0100000000000000008000000000000000"), field_element!("0100000000000000008000000000000000"), hex!("0100000000000000008000000000000000").to_vec()));
    v.push(("008000000000000000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", u256h!("008000000000000000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), field_element!("008000000000000000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), hex!("008000000000000000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF").to_vec()));
    v.push(("ca5d5e7d393cbcddfffffffffffffffff18bde0e86417b60ffffffffffffffff", u256h!("ca5d5e7d393cbcddfffffffffffffffff18bde0e86417b60ffffffffffffffff"), field_element!("ca5d5e7d393cbcddfffffffffffffffff18bde0e86417b60ffffffffffffffff"), hex!("ca5d5e7d393cbcddfffffffffffffffff18bde0e86417b60ffffffffffffffff").to_vec()));
    v.push(("01ffffffffffffffff800000000000000002ad9d2b004b7fd0", u256h!("01ffffffffffffffff800000000000000002ad9d2b004b7fd0"), field_element!("01ffffffffffffffff800000000000000002ad9d2b004b7fd0"), hex!("01ffffffffffffffff800000000000000002ad9d2b004b7fd0").to_vec()));
    v.push(("01ffffffffffffffff00000000000000000000000000000001", u256h!("01ffffffffffffffff00000000000000000000000000000001"), field_element!("01ffffffffffffffff00000000000000000000000000000001"), hex!("01ffffffffffffffff00000000000000000000000000000001").to_vec()));
    v.push(("00ffffffffffffffff00000000000000018000000000000000", u256h!("00ffffffffffffffff00000000000000018000000000000000"), field_element!("00ffffffffffffffff00000000000000018000000000000000"), hex!("00ffffffffffffffff00000000000000018000000000000000").to_vec()));
    v.push(("d85bbb6bbd37929dffffffffffffffff80000000000000008000000000000000", u256h!("d85bbb6bbd37929dffffffffffffffff80000000000000008000000000000000"), field_element!("d85bbb6bbd37929dffffffffffffffff80000000000000008000000000000000"), hex!("d85bbb6bbd37929dffffffffffffffff80000000000000008000000000000000").to_vec()));
    v.push(("010000000000000001ffffffffffffffff8000000000000000", u256h!("010000000000000001ffffffffffffffff8000000000000000"), field_element!("010000000000000001ffffffffffffffff8000000000000000"), hex!("010000000000000001ffffffffffffffff8000000000000000").to_vec()));
    v
}
