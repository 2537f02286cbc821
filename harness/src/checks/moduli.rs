// Generated from the moduli themselves: R^k mod m, -m^-1 mod 2^64.
params!(Base, [0x1, 0x0, 0x0, 0x800000000000011], 0xffffffffffffffff, [0xffffffffffffffe1, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffdf0], [0xfffffd737e000401, 0x1330fffff, 0xffffffffff6f8000, 0x7ffd4ab5e008810], [0xcc7177d1406df18e, 0x7545706677ffcc06, 0xf47d84f836300018, 0x38e5f79873c0a6d]);
params!(Scalar, [0x1e66a241adc64d2f, 0xb781126dcae7b232, 0xffffffffffffffff, 0x800000000000010], 0xbb6b3c4ce8bde631, [0x51925a0bf4fca74f, 0xc75ec4b46df16bee, 0x8, 0x7fffffffffffdf1], [0x6021b3f1ea1c688d, 0x509cf64d14ce60b9, 0xbaf0ab4cf78bbabb, 0x7d9e57c2333766e], [0x81147668fddd0429, 0x1da2136eb8b3f20e, 0x1f0d9dedfedfda50, 0x1b2ba88ca1fe18a]);
params!(Bn254, [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029], 0x87d20782e4866389, [0xd35d438dc58f0d9d, 0xa78eb28f5c70b3d, 0x666ea36f7879462c, 0xe0a77c19a07df2f], [0xf32cfc5b538afa89, 0xb5e71911d44501fb, 0x47ab1eff0a417ff6, 0x6d89f71cab8351f], [0xb1cd6dafda1530df, 0x62f210e6a7283db6, 0xef7f0b0c0ada0afb, 0x20fd6e902d592544]);
params!(M25519, [0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff], 0x86bca1af286bca1b, [0x26, 0x0, 0x0, 0x0], [0x5a4, 0x0, 0x0, 0x0], [0xd658, 0x0, 0x0, 0x0]);
params!(Secp, [0x1, 0xffffffff00000000, 0xffffffffffffffff, 0xffffffff], 0xffffffffffffffff, [0xffffffff00000000, 0xffffffffffffffff, 0x0, 0x0], [0xffffffff00000001, 0xffffffff00000000, 0xfffffffe00000000, 0xffffffff], [0xffffffff00000000, 0xffffffff00000002, 0xfffffffc00000000, 0x2]);
params!(Proth2, [0x1, 0x0, 0x0, 0x7fffffffffffffff], 0xffffffffffffffff, [0xfffffffffffffffe, 0xffffffffffffffff, 0xffffffffffffffff, 0x1], [0xffffffffffffffe4, 0xffffffffffffffef, 0xfffffffffffffff7, 0x17], [0xffffffffffffff38, 0xffffffffffffff7f, 0xffffffffffffffaf, 0x97]);
