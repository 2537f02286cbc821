//! Keccak-f[1600] written from the specification (FIPS 202).
const RC: [u64; 24] = [
    0x0000_0000_0000_0001, 0x0000_0000_0000_8082, 0x8000_0000_0000_808A, 0x8000_0000_8000_8000,
    0x0000_0000_0000_808B, 0x0000_0000_8000_0001, 0x8000_0000_8000_8081, 0x8000_0000_0000_8009,
    0x0000_0000_0000_008A, 0x0000_0000_0000_0088, 0x0000_0000_8000_8009, 0x0000_0000_8000_000A,
    0x0000_0000_8000_808B, 0x8000_0000_0000_008B, 0x8000_0000_0000_8089, 0x8000_0000_0000_8003,
    0x8000_0000_0000_8002, 0x8000_0000_0000_0080, 0x0000_0000_0000_800A, 0x8000_0000_8000_000A,
    0x8000_0000_8000_8081, 0x8000_0000_0000_8080, 0x0000_0000_8000_0001, 0x8000_0000_8000_8008,
];

fn f(a: &mut [u64; 25]) {
    for rc in &RC {
        let mut c = [0_u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        // rho and pi
        let (mut x, mut y) = (1, 0);
        let mut cur = a[1];
        for t in 0..24_u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            let tmp = a[nx + 5 * ny];
            a[nx + 5 * ny] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = tmp;
            x = nx;
            y = ny;
        }
        for y in 0..5 {
            let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}

fn sponge(parts: &[&[u8]], pad: u8) -> [u8; 32] {
    const RATE: usize = 136;
    let mut s = [0_u64; 25];
    let mut n = 0;
    for p in parts {
        for b in *p {
            s[n / 8] ^= u64::from(*b) << (8 * (n % 8));
            n += 1;
            if n == RATE {
                f(&mut s);
                n = 0;
            }
        }
    }
    s[n / 8] ^= u64::from(pad) << (8 * (n % 8));
    s[RATE / 8 - 1] ^= 0x80 << 56;
    f(&mut s);
    let mut out = [0; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes());
    }
    out
}

pub fn keccak256(parts: &[&[u8]]) -> [u8; 32] {
    sponge(parts, 0x01)
}

pub fn sha3_256(parts: &[&[u8]]) -> [u8; 32] {
    sponge(parts, 0x06)
}

pub fn selftest() {
    let h = |d: [u8; 32]| d.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    assert_eq!(
        h(keccak256(&[b""])),
        "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
    );
    assert_eq!(
        h(keccak256(&[b"a", b"bc"])),
        "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"
    );
    assert_eq!(
        h(sha3_256(&[b"abc"])),
        "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"
    );
}
