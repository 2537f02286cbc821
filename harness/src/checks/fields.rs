// Generated by tools/fields.py: (name, modulus, -m^-1 mod 2^64, generator * R, R, R^2, R^3, prime factors of m - 1 below 1000).
field!(Tiny, [0x61, 0x0, 0x0, 0x0], 0x5c5f02a3a0fd5c5f, [0xe, 0x0, 0x0, 0x0], [0x3d, 0x0, 0x0, 0x0], [0x23, 0x0, 0x0, 0x0], [0x1, 0x0, 0x0, 0x0], &[2, 3]);
field!(Small, [0x78000001, 0x0, 0x0, 0x0], 0xc7c0000077ffffff, [0x57cb5413, 0x0, 0x0, 0x0], [0x25abb864, 0x0, 0x0, 0x0], [0x169483e4, 0x0, 0x0, 0x0], [0x2f04c1cd, 0x0, 0x0, 0x0], &[2, 3, 5]);
field!(Gold, [0xffffffff00000001, 0x0, 0x0, 0x0], 0xfffffffeffffffff, [0x6fffffff9, 0x0, 0x0, 0x0], [0xffffffff, 0x0, 0x0, 0x0], [0xfffffffe00000001, 0x0, 0x0, 0x0], [0x1, 0x0, 0x0, 0x0], &[2, 3, 5, 17, 257]);
field!(NearProth, [0x4ec3def7a5, 0x0, 0x0, 0x931b7f5af06bcf7], 0xc95edd64db74e7d3, [0xffffef13eb18cb8d, 0xffffffffffffffff, 0xffffffffffffffff, 0x6517a37658d66ee], [0xfffff7b1577be199, 0xffffffffffffffff, 0xffffffffffffffff, 0x7c199168a4a11f2], [0xbcca6503db1ddf2e, 0x932105c71b9ac809, 0xbe66a555795d54b9, 0x8b1ad5b0cfb7161], [0x6ad05c1bbd08705c, 0xb0a21989351aad94, 0x2d0a56b86ba9e24, 0x1f70de3a40643c4], &[2, 661, 701]);
field!(HalfProth, [0x1, 0x0, 0xa7400, 0x9f0e09585903d97], 0xffffffffffffffff, [0xffffffffffffffb3, 0xffffffffffffffff, 0xfffffffffcdb1bff, 0x28c7306d39d7994], [0xffffffffffffffe7, 0xffffffffffffffff, 0xfffffffffefaabff, 0x77a1165f4e9fc40], [0x84e9a084720ccc4c, 0x876fe9b54bf5a5f5, 0x5cf4f253817c2ad0, 0x8b33f370d5fd946], [0x7f3bd66ab61dd9ed, 0xe2ba86e5ac8d5b7f, 0xcd8d07ed348b8d0b, 0x652881c693faf40], &[2]);
field!(OneProth, [0x1, 0xd6a19, 0x0, 0x9ac8b7d21e8ce84], 0xffffffffffffffff, [0xffffffffffffffb1, 0xfffffffffbdc4248, 0xffffffffffffffff, 0x3c0f46289284543], [0xffffffffffffffe6, 0xfffffffffea33975, 0xffffffffffffffff, 0x479d54a8e5b0697], [0x8eee32c3bb76473a, 0xad26cc2ff7b7b0d8, 0x50069b2961d82314, 0x8a90b44dd6db8c1], [0x5025b02251399ca4, 0x15efa913b569a63d, 0xb110dd0f49234a9a, 0x1055151e2beaf0c], &[2, 31]);
field!(Ones, [0xfffffffffffe6f0b, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff], 0xee30ab2687c29b5d, [0x643d4, 0x0, 0x0, 0x0], [0x321ea, 0x0, 0x0, 0x0], [0x9cffa29e4, 0x0, 0x0, 0x0], [0x1ebcb5d7bcae68, 0x0, 0x0, 0x0], &[2, 19, 37, 73]);
field!(TwoLimb, [0x3661e99c265e6a61, 0x91ef0b595162946e, 0x0, 0x0], 0x3b818671fde0465f, [0xf7d22c6afc7734b0, 0x74b153b40516c79d, 0x0, 0x0], [0x529b6423a97d1190, 0x26e5c691570797df, 0x0, 0x0], [0x38172800649d473a, 0x6f4a56402cffa1d3, 0x0, 0x0], [0x28a39b4d1b9d6227, 0x40d7e0851bddb30b, 0x0, 0x0], &[2, 5, 47]);
