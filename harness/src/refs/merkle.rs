//! Merkle trees over masked Keccak, written recursively and independently.
use super::keccak::keccak256;
use std::collections::BTreeSet;

pub type H = [u8; 32];

pub fn mask(mut h: H) -> H {
    for b in &mut h[20..] {
        *b = 0;
    }
    h
}

pub fn node(l: &H, r: &H) -> H {
    mask(keccak256(&[l, r]))
}

/// Hash of a sequence of item hashes: identity for one item.
pub fn seq(items: &[H]) -> H {
    if items.len() == 1 {
        items[0]
    } else {
        let parts: Vec<&[u8]> = items.iter().map(|h| &h[..]).collect();
        mask(keccak256(&parts))
    }
}

/// Layers from leaves (0) to root.
#[derive(Clone)]
pub struct RefTree(pub Vec<Vec<H>>);

impl RefTree {
    pub fn new(leaves: Vec<H>) -> RefTree {
        assert!(leaves.len().is_power_of_two());
        let mut layers = vec![leaves];
        while layers.last().unwrap().len() > 1 {
            let l = layers.last().unwrap();
            let next = l.chunks(2).map(|c| node(&c[0], &c[1])).collect();
            layers.push(next);
        }
        RefTree(layers)
    }

    pub fn root(&self) -> H {
        self.0.last().unwrap()[0]
    }

    /// Decommitment: layer by layer, left to right, the siblings that can not
    /// be computed.
    pub fn open(&self, idx: &[usize]) -> Vec<H> {
        let mut out = vec![];
        let mut known: BTreeSet<usize> = idx.iter().copied().collect();
        for layer in &self.0[..self.0.len() - 1] {
            for &i in &known {
                if !known.contains(&(i ^ 1)) {
                    out.push(layer[i ^ 1]);
                }
            }
            known = known.iter().map(|i| i >> 1).collect();
        }
        out
    }
}

/// Number of sibling hashes for an index set.
pub fn proof_len(size: usize, idx: &[usize]) -> usize {
    let mut n = 0;
    let mut known: BTreeSet<usize> = idx.iter().copied().collect();
    let mut s = size;
    while s > 1 {
        n += known.iter().filter(|&&i| !known.contains(&(i ^ 1))).count();
        known = known.iter().map(|i| i >> 1).collect();
        s /= 2;
    }
    n
}

/// Recomputes the root. None when duplicates conflict or hashes run out;
/// all hashes have to be used.
pub fn root_from(size: usize, leaves: &[(usize, H)], hashes: &[H]) -> Option<H> {
    let mut known = std::collections::BTreeMap::new();
    for (i, h) in leaves {
        if *i >= size {
            return None;
        }
        if let Some(o) = known.insert(*i, *h) {
            if o != *h {
                return None;
            }
        }
    }
    let mut it = hashes.iter();
    let mut s = size;
    while s > 1 {
        let mut next = std::collections::BTreeMap::new();
        for (&i, h) in &known {
            let v = match known.get(&(i ^ 1)) {
                Some(o) if i % 2 == 0 => node(h, o),
                Some(_) => continue,
                None if i % 2 == 0 => node(h, it.next()?),
                None => node(it.next()?, h),
            };
            next.insert(i / 2, v);
        }
        known = next;
        s /= 2;
    }
    if it.next().is_some() {
        return None;
    }
    known.get(&0).copied()
}
