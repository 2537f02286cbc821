//! C20 Merkle completeness, C21 Merkle binding, C22 hashing.
use super::{curve::from_be, Check};
use crate::{
    conv::{el, hex},
    mon::{guard, Ctx, Record, Rng},
    refs::{
        field::Fe,
        keccak::keccak256,
        merkle::{mask, proof_len, root_from, seq, RefTree, H},
    },
};
use std::collections::BTreeSet;
use zkp_hash::{Hash, Hashable, MaskedKeccak};
use zkp_merkle_tree::{Commitment, Error, Proof, Tree, VectorCommitment};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C20",
        run:     complete,
        rule:    "trees of 0..2^14 leaves of every leaf type, every amount of omitted layers, built on thread pools of \
                  varying size; root, opening, size and verification compared with an independent tree; distinct = \
                  leaves, omitted layers and opened index multiset",
        assumes: &["reference Keccak and tree"],
    });
    v.push(Check {
        id:      "C21",
        run:     binding,
        rule:    "openings with forged leaves, positions, hashes, lengths, duplicates; verdict compared with recomputing \
                  the root independently; distinct = commitment, claimed leaves, hashes",
        assumes: &["Keccak collisions are not searched for"],
    });
    v.push(Check {
        id:      "C22",
        run:     hashing,
        rule:    "byte strings of every length around the Keccak rate in arbitrary chunkings, and nested sequences, hashed \
                  and compared with a reference Keccak; distinct = input",
        assumes: &["reference Keccak (self-tested on published vectors)"],
    });
}

fn h(x: &Hash) -> H {
    let mut r = [0; 32];
    r.copy_from_slice(x.as_bytes());
    r
}

struct Lazy {
    n:    usize,
    salt: u64,
}

impl VectorCommitment for Lazy {
    type Leaf = Vec<FieldElement>;

    fn len(&self) -> usize {
        self.n
    }

    fn leaf(&self, i: usize) -> Vec<FieldElement> {
        let w = 1 + (self.salt % 5) as usize;
        (0..w).map(|j| el(lazy_fe(self.salt, i, j))).collect()
    }
}

fn lazy_fe(salt: u64, i: usize, j: usize) -> Fe {
    let v = crate::mon::mix(salt ^ crate::mon::mix((i * 7 + j) as u64 + 1));
    Fe([v, v.rotate_left(17), crate::mon::mix(v), v >> 6])
}

enum Any {
    Hashes(Vec<Hash>),
    Ints(Vec<U256>),
    Fields(Vec<FieldElement>),
    Rows(Vec<Vec<FieldElement>>),
    Lazy(Lazy),
}

/// A leaf vector of random type and the hashes of its leaves.
fn leaves(rng: &mut Rng, n: usize) -> (&'static str, Any, Vec<H>) {
    let raw = |rng: &mut Rng| {
        let mut b = [0_u8; 32];
        b.copy_from_slice(&rng.bytes(32));
        b
    };
    match rng.below(5) {
        0 => {
            let v: Vec<H> = (0..n).map(|_| raw(rng)).collect();
            ("Hash", Any::Hashes(v.iter().map(|b| Hash::new(*b)).collect()), v)
        }
        1 => {
            let v: Vec<H> = (0..n).map(|_| raw(rng)).collect();
            ("U256", Any::Ints(v.iter().map(|b| U256::from_limbs(from_be(b).limbs4())).collect()), v)
        }
        2 => {
            let v: Vec<Fe> = (0..n).map(|_| super::field::rfe(rng)).collect();
            (
                "FieldElement",
                Any::Fields(v.iter().map(|f| el(*f)).collect()),
                v.iter().map(|f| f.bytes()).collect(),
            )
        }
        3 => {
            let w = rng.range(0, 6);
            let v: Vec<Vec<Fe>> = (0..n).map(|_| (0..w).map(|_| super::field::rfe(rng)).collect()).collect();
            (
                "row",
                Any::Rows(v.iter().map(|r| r.iter().map(|f| el(*f)).collect()).collect()),
                v.iter()
                    .map(|r| seq(&r.iter().map(|f| f.bytes()).collect::<Vec<_>>()))
                    .collect(),
            )
        }
        _ => {
            let l = Lazy { n, salt: rng.u64() };
            let w = 1 + (l.salt % 5) as usize;
            let hs = (0..n)
                .map(|i| seq(&(0..w).map(|j| lazy_fe(l.salt, i, j).bytes()).collect::<Vec<_>>()))
                .collect();
            ("lazy", Any::Lazy(l), hs)
        }
    }
}

fn indices(rng: &mut Rng, n: usize) -> Vec<usize> {
    match rng.below(7) {
        0 => vec![],
        1 => vec![rng.below(n)],
        2 => (0..n.min(64)).collect(),
        3 => {
            let a = rng.below(n);
            vec![a, a ^ usize::from(n > 1), a]
        }
        4 => {
            let s = rng.below(n);
            (s..n.min(s + 9)).rev().collect()
        }
        5 => vec![0, n - 1],
        _ => (0..rng.range(1, 40)).map(|_| rng.below(n)).collect(),
    }
}

fn complete(ctx: &Ctx) {
    // All index sets of small trees.
    ctx.cases("exhaustive", 8, if ctx.thorough { 5 } else { 4 }, |rng, d, rec| {
        let n = 1_usize << d;
        let (ty, any, hs) = leaves(rng, n);
        let step = if n == 16 { 7 } else { 1 };
        match any {
            Any::Hashes(v) => sets(rec, ty, v, &hs, step),
            Any::Ints(v) => sets(rec, ty, v, &hs, step),
            Any::Fields(v) => sets(rec, ty, v, &hs, step),
            Any::Rows(v) => sets(rec, ty, v, &hs, step),
            Any::Lazy(v) => sets(rec, ty, v, &hs, step),
        }
        fn sets<C: VectorCommitment>(rec: &mut Record, ty: &str, c: C, hs: &[H], step: usize)
        where
            C::Leaf: Clone,
        {
            let n = hs.len();
            let r = RefTree::new(hs.to_vec());
            let t = Tree::from_leaves(c).unwrap();
            for m in (0..(1_u32 << n)).step_by(step) {
                let idx: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
                opening(rec, ty, &t, &r, &idx, 1);
            }
        }
    });
    ctx.cases("random", 4, ctx.n(250, 4000), |rng, _, rec| {
        let n = match rng.below(10) {
            0 => 1 << rng.range(11, 14),
            1..=3 => 1 << rng.range(6, 10),
            _ => 1 << rng.below(7),
        };
        let (ty, any, hs) = leaves(rng, n);
        let depth = n.trailing_zeros() as usize;
        let skip = match rng.below(3) {
            0 => 1,
            1 => rng.range(0, depth + 2),
            _ => rng.range(0, 3),
        };
        let threads = *rng.pick(&[1, 2, 3, 8]);
        let r = RefTree::new(hs);
        let sets: Vec<Vec<usize>> = (0..4).map(|_| indices(rng, n)).collect();
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        rec.event(&format!("pool of {} threads", threads));
        match any {
            Any::Hashes(v) => go(rec, ty, v, &r, &sets, skip, &pool),
            Any::Ints(v) => go(rec, ty, v, &r, &sets, skip, &pool),
            Any::Fields(v) => go(rec, ty, v, &r, &sets, skip, &pool),
            Any::Rows(v) => go(rec, ty, v, &r, &sets, skip, &pool),
            Any::Lazy(v) => go(rec, ty, v, &r, &sets, skip, &pool),
        }
        fn go<C: VectorCommitment + Send>(
            rec: &mut Record,
            ty: &str,
            c: C,
            r: &RefTree,
            sets: &[Vec<usize>],
            skip: usize,
            pool: &rayon::ThreadPool,
        ) where
            C::Leaf: Clone,
        {
            let n = r.0[0].len();
            let t = if skip == 1 {
                let (com, t) = pool.install(|| c.commit()).unwrap();
                rec.check(h(com.hash()) == r.root() && com.size() == n, "commit", || format!("{} n={}", ty, n));
                t
            } else {
                pool.install(|| Tree::from_leaves_skip_layers(c, skip)).unwrap()
            };
            for s in sets {
                opening(rec, ty, &t, r, s, skip);
            }
            // Errors, not panics, for what can not be opened.
            for bad in [n, n + 1, 2 * n, usize::max_value(), 1 << 63] {
                let e = guard(|| t.open(&[0, bad]).err());
                rec.check(e == Ok(Some(Error::IndexOutOfRange)), "out of range", || format!("n={} i={}: {:?}", n, bad, e));
                let e = guard(|| t.commitment().proof_size(&[bad]).err());
                rec.check(e == Ok(Some(Error::IndexOutOfRange)), "out of range", || format!("n={} i={}: {:?}", n, bad, e));
            }
        }
    });
    ctx.cases("sizes", 1, ctx.n(70, 300), |_, n, rec| {
        let n = n as usize;
        let v: Vec<U256> = (0..n).map(|i| U256::from(i as u64)).collect();
        rec.eval(&("size", n));
        match guard(|| Tree::from_leaves(v.clone())) {
            Err(m) => rec.violation("tree construction panics", format!("n={}: {}", n, m)),
            Ok(Err(e)) => {
                rec.event("size refused");
                rec.check(
                    !n.is_power_of_two() && n != 0 && e == Error::NumLeavesNotPowerOfTwo,
                    "valid size refused",
                    || format!("n={} {:?}", n, e),
                );
            }
            Ok(Ok(t)) => {
                rec.check(n.is_power_of_two() || n == 0, "invalid size accepted", || format!("n={}", n));
                rec.check(t.commitment().size() == n, "size", || format!("n={}", n));
                if n == 0 {
                    let r = guard(|| t.open(&[0]).is_err());
                    rec.check(r == Ok(true), "opening an empty tree", || format!("{:?}", r));
                }
            }
        }
        let r = guard(|| Commitment::from_size_hash(n, &Hash::default()).is_ok());
        rec.check(r == Ok(n == 0 || n.is_power_of_two()), "commitment size", || format!("n={} {:?}", n, r));
    });
}

fn opening<C: VectorCommitment>(rec: &mut Record, ty: &str, t: &Tree<C>, r: &RefTree, idx: &[usize], skip: usize)
where
    C::Leaf: Clone,
{
    let n = r.0[0].len();
    rec.eval(&(r.root(), idx, skip));
    rec.event(ty);
    rec.sample(ty, || format!("n={} skip={} open {:?}", n, skip, idx));
    let what = || format!("{} n={} skip={} {:?}", ty, n, skip, idx);
    rec.check(h(t.commitment().hash()) == r.root() && t.commitment().size() == n, "root", what);
    rec.check(
        t.leaf_depth() == n.trailing_zeros() as usize && t.leaves().len() == n,
        "tree shape",
        what,
    );
    let want = r.open(idx);
    rec.check(
        t.commitment().proof_size(idx) == Ok(want.len()) && proof_len(n, idx) == want.len(),
        "proof_size",
        || format!("{}: {:?} expected {}", what(), t.commitment().proof_size(idx), want.len()),
    );
    let p = match guard(|| t.open(idx)) {
        Ok(Ok(p)) => p,
        e => {
            rec.violation("open fails", format!("{}: {:?}", what(), e.map(|x| x.err())));
            return;
        }
    };
    let got: Vec<H> = p.hashes().iter().map(h).collect();
    rec.check(got == want, "opening", || format!("{}: {:?}", what(), p.hashes()));
    let mut ls: Vec<(usize, C::Leaf)> = idx.iter().map(|&i| (i, t.leaf(i))).collect();
    for (i, l) in &ls {
        rec.check(h(&l.hash()) == r.0[0][*i], "leaf", || format!("{} leaf {}", what(), i));
    }
    let v = guard(|| p.verify(&ls));
    rec.check(v == Ok(Ok(())), "own opening rejected", || format!("{}: {:?}", what(), v));
    ls.reverse();
    if let Some(f) = ls.first().cloned() {
        ls.push(f);
    }
    let v = guard(|| p.verify(&ls));
    rec.check(v == Ok(Ok(())), "own opening rejected", || format!("{} reversed: {:?}", what(), v));
    // From its parts
    let c = Commitment::from_size_hash(n, &Hash::new(r.root())).unwrap();
    let hs: Vec<Hash> = want.iter().map(|b| Hash::new(*b)).collect();
    let v = guard(|| Proof::from_hashes(&c, idx, &hs).and_then(|p| p.verify(&ls)));
    rec.check(v == Ok(Ok(())), "transmitted opening rejected", || format!("{}: {:?}", what(), v));
}

fn binding(ctx: &Ctx) {
    ctx.cases("forge", 8, ctx.n(4000, 80000), |rng, _, rec| {
        let n = 1_usize << rng.below(9);
        let mut hs: Vec<H> = (0..n)
            .map(|_| {
                let mut b = [0; 32];
                b.copy_from_slice(&rng.bytes(32));
                b
            })
            .collect();
        if rng.chance(1, 4) {
            // Repeated leaves
            for i in 0..n {
                hs[i] = hs[i % 2.min(n)];
            }
        }
        let t = RefTree::new(hs.clone());
        let mut idx = indices(rng, n);
        if idx.is_empty() {
            idx.push(rng.below(n));
        }
        let good = t.open(&idx);
        let honest: Vec<(usize, H)> = idx.iter().map(|&i| (i, hs[i])).collect();
        judge(rec, "honest", n, &t.root(), &idx, &honest, &good);
        for _ in 0..8 {
            let (mut ls, mut hv, mut root, mut size) = (honest.clone(), good.clone(), t.root(), n);
            let mut kind = "leaf bit";
            let k = rng.below(ls.len());
            match rng.below(13) {
                0 => flip(rng, &mut ls[k].1),
                1 => {
                    kind = "leaf from elsewhere";
                    ls[k].1 = hs[rng.below(n)];
                }
                2 => {
                    kind = "sibling leaf";
                    ls[k].1 = hs[ls[k].0 ^ usize::from(n > 1)];
                }
                3 => {
                    kind = "hash bit";
                    if !hv.is_empty() {
                        let i = rng.below(hv.len());
                        flip(rng, &mut hv[i]);
                    }
                }
                4 => {
                    kind = "hashes swapped";
                    if hv.len() > 1 {
                        let (i, j) = (rng.below(hv.len()), rng.below(hv.len()));
                        hv.swap(i, j);
                    }
                }
                5 => {
                    kind = "hash dropped";
                    hv.pop();
                }
                6 => {
                    kind = "hash added";
                    hv.push(hs[rng.below(n)]);
                }
                7 => {
                    kind = "conflicting duplicate";
                    let mut d = ls[k];
                    flip(rng, &mut d.1);
                    let at = rng.below(ls.len() + 1);
                    ls.insert(at, d);
                }
                8 => {
                    kind = "root bit";
                    flip(rng, &mut root);
                }
                9 => {
                    kind = "leaf position";
                    let j = rng.below(n);
                    ls[k].0 = j;
                }
                10 => {
                    kind = "out of range";
                    ls[k].0 += n;
                }
                11 => {
                    kind = "inner node as leaf";
                    // Truncated tree: present the parent layer as leaves
                    if n > 1 {
                        size = n / 2;
                        ls = ls.iter().map(|(i, _)| (i / 2, t.0[1][i / 2])).collect();
                        let ix: Vec<usize> = ls.iter().map(|x| x.0).collect();
                        hv = RefTree(t.0[1..].to_vec()).open(&ix);
                    }
                }
                _ => {
                    kind = "two leaves swapped";
                    let j = rng.below(ls.len());
                    let (a, b) = (ls[k].1, ls[j].1);
                    ls[k].1 = b;
                    ls[j].1 = a;
                }
            }
            let ix: Vec<usize> = ls.iter().map(|x| x.0).collect();
            judge(rec, kind, size, &root, &ix, &ls, &hv);
            // Claimed index list different from the leaves' positions: only
            // soundness is specified.
            let v = guard(|| {
                let c = Commitment::from_size_hash(n, &Hash::new(t.root())).unwrap();
                let hh: Vec<Hash> = hv.iter().map(|b| Hash::new(*b)).collect();
                Proof::from_hashes(&c, &idx, &hh)
                    .and_then(|p| p.verify(&ls.iter().map(|(i, b)| (*i, Hash::new(*b))).collect::<Vec<_>>()))
            });
            match v {
                Err(m) => rec.violation("verify panics", format!("{} n={}: {}", kind, n, m)),
                Ok(Ok(())) => {
                    rec.check(
                        ls.iter().all(|(i, b)| *i < n && hs[*i] == *b),
                        "false leaf accepted",
                        || format!("{} n={} claimed {:?} given {:?}", kind, n, idx, ls),
                    );
                }
                Ok(Err(_)) => {}
            }
        }
    });
    // Every single bit of a small opening matters.
    ctx.cases("bits", 8, ctx.n(24, 200), |rng, _, rec| {
        let n = 1_usize << rng.range(1, 4);
        let hs: Vec<H> = (0..n).map(|_| mask(keccak256(&[&rng.bytes(8)]))).collect();
        let t = RefTree::new(hs.clone());
        let set: BTreeSet<usize> = (0..rng.range(1, 4)).map(|_| rng.below(n)).collect();
        let idx: Vec<usize> = set.into_iter().collect();
        let good = t.open(&idx);
        let honest: Vec<(usize, H)> = idx.iter().map(|&i| (i, hs[i])).collect();
        for bit in 0..256 * (honest.len() + good.len()) {
            let (mut ls, mut hv) = (honest.clone(), good.clone());
            let (w, b) = (bit / 256, bit % 256);
            if w < ls.len() {
                ls[w].1[b / 8] ^= 1 << (b % 8);
            } else {
                hv[w - ls.len()][b / 8] ^= 1 << (b % 8);
            }
            judge(rec, "every bit", n, &t.root(), &idx, &ls, &hv);
        }
    });
}

fn flip(rng: &mut Rng, h: &mut H) {
    let b = rng.below(256);
    h[b / 8] ^= 1 << (b % 8);
}

/// The claimed indices are those of the leaves: the verdict is determined.
fn judge(rec: &mut Record, kind: &str, n: usize, root: &H, idx: &[usize], ls: &[(usize, H)], hv: &[H]) {
    rec.eval(&(n, root, ls, hv));
    rec.event(kind);
    let want = root_from(n, ls, hv) == Some(*root);
    rec.event(if want { "expected accept" } else { "expected reject" });
    let v = guard(|| {
        let c = Commitment::from_size_hash(n, &Hash::new(*root))?;
        let hh: Vec<Hash> = hv.iter().map(|b| Hash::new(*b)).collect();
        let l: Vec<(usize, Hash)> = ls.iter().map(|(i, b)| (*i, Hash::new(*b))).collect();
        Proof::from_hashes(&c, idx, &hh)?.verify(&l)
    });
    let what = || {
        format!(
            "{} n={} leaves {:?} hashes {:?}",
            kind,
            n,
            ls.iter().map(|(i, h)| format!("{}:{}", i, hex(h))).collect::<Vec<_>>(),
            hv.iter().map(|h| hex(h)).collect::<Vec<_>>()
        )
    };
    match v {
        Err(m) => rec.violation("verify panics", format!("{}: {}", what(), m)),
        Ok(r) => {
            rec.check(
                r.is_ok() == want,
                if want { "valid opening rejected" } else { "forged opening accepted" },
                || format!("{}: {:?}", what(), r),
            );
        }
    }
}

fn hashing(ctx: &Ctx) {
    ctx.cases("keccak", 8, ctx.n(600, 6000), |rng, ix, rec| {
        let n = match ix {
            0..=419 => ix as usize,
            _ if rng.chance(1, 40) => rng.size(1 << 18),
            _ => rng.size(5000),
        };
        let data = rng.bytes(n);
        rec.eval(&("keccak", &data));
        let mut k = if rng.chance(1, 2) { MaskedKeccak::new() } else { MaskedKeccak::default() };
        let mut at = 0;
        while at < n {
            let step = match rng.below(4) {
                0 => 1,
                1 => rng.range(0, 40),
                2 => rng.range(100, 300),
                _ => n / rng.range(1, 3) + 1,
            };
            // Byte by byte would take long.
            let step = if n > 10_000 { step * 50 } else { step };
            let end = (at + step).min(n);
            k.update(&data[at..end]);
            rec.event("chunk");
            at = end;
        }
        let got = k.hash();
        rec.check(h(&got) == mask(keccak256(&[&data])), "masked keccak", || format!("{} -> {:?}", hex(&data), got));
    });
    ctx.cases("hashable", 8, ctx.n(3000, 40000), |rng, ix, rec| {
        let n = match rng.below(5) {
            _ if ix < 300 => ix as usize,
            0 => 0,
            1 => 1,
            2 if rng.chance(1, 50) => rng.size(5000),
            2 => rng.size(400),
            _ => rng.below(30),
        };
        let fs: Vec<Fe> = (0..n).map(|_| super::field::rfe(rng)).collect();
        rec.eval(&("seq", &fs));
        let els: Vec<FieldElement> = fs.iter().map(|f| el(*f)).collect();
        let hs: Vec<H> = fs.iter().map(|f| f.bytes()).collect();
        let what = || format!("{:?}", els);
        rec.check(h(&els.hash()) == seq(&hs), "Vec hash", what);
        rec.check(h(&els.as_slice().hash()) == seq(&hs), "slice hash", what);
        rec.check(h(&(&els).hash()) == seq(&hs), "reference hash", what);
        // Nested
        let w = rng.range(1, 4);
        let nested: Vec<Vec<FieldElement>> = els.chunks(w).map(|c| c.to_vec()).collect();
        let want = seq(&hs.chunks(w).map(seq).collect::<Vec<_>>());
        rec.check(h(&nested.hash()) == want, "nested hash", || format!("{} chunks of {}", what(), w));
        // U256 and Hash leaves
        let b = rng.limbs();
        let u = U256::from_limbs(b);
        let mut bytes = [0; 32];
        for i in 0..4 {
            bytes[8 * i..8 * i + 8].copy_from_slice(&b[3 - i].to_be_bytes());
        }
        rec.check(h(&u.hash()) == bytes, "U256 hash", || format!("{:?}", u));
        let hh = Hash::new(bytes);
        rec.check(hh.hash() == hh && h(&vec![hh.clone()].hash()) == bytes, "Hash hash", || format!("{:?}", hh));
        rec.check(
            h(&vec![hh.clone(), hh.clone()].hash()) == seq(&[bytes, bytes]),
            "Hash sequence",
            || format!("{:?}", hh),
        );
        rec.check(
            format!("{:?}", hh).contains(&hex(&bytes)),
            "Hash Debug",
            || format!("{:?}", hh),
        );
    });
}
