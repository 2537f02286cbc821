//! Independent STARK prover and verifier, written from the protocol
//! description, with fault injection at every prover step.
use super::{
    field::{batch_inv, bitrev, dft, horner, idft, Fe},
    keccak::keccak256,
    merkle::{proof_len, root_from, seq, RefTree, H},
};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------- expressions

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    X,
    C(Fe),
    T(usize, isize),
    Poly(Vec<Fe>, Box<Ex>),
    Claim(usize, usize, Box<Ex>),
    Add(Box<Ex>, Box<Ex>),
    Neg(Box<Ex>),
    Mul(Box<Ex>, Box<Ex>),
    Inv(Box<Ex>),
    Exp(Box<Ex>, usize),
}

pub fn c(v: u64) -> Ex {
    Ex::C(Fe::int(v))
}

impl Ex {
    pub fn add(self, o: Ex) -> Ex {
        Ex::Add(Box::new(self), Box::new(o))
    }

    pub fn sub(self, o: Ex) -> Ex {
        self.add(o.neg())
    }

    pub fn neg(self) -> Ex {
        Ex::Neg(Box::new(self))
    }

    pub fn mul(self, o: Ex) -> Ex {
        Ex::Mul(Box::new(self), Box::new(o))
    }

    pub fn inv(self) -> Ex {
        Ex::Inv(Box::new(self))
    }

    pub fn exp(self, e: usize) -> Ex {
        Ex::Exp(Box::new(self), e)
    }

    pub fn div(self, o: Ex) -> Ex {
        self.mul(o.inv())
    }

    /// Degrees of numerator and denominator, for X of degree `xd` and trace
    /// columns of degree `td`.
    pub fn degree(&self, xd: usize, td: usize) -> (usize, usize) {
        match self {
            Ex::X => (xd, 0),
            Ex::C(_) => (0, 0),
            Ex::T(..) => (td, 0),
            Ex::Poly(p, a) => {
                let k = poly_degree(p);
                let (n, d) = a.degree(xd, td);
                (k * n.max(d), k * d)
            }
            Ex::Claim(_, k, a) => {
                let (n, d) = a.degree(xd, td);
                (k * n.max(d), k * d)
            }
            Ex::Add(a, b) => {
                let ((an, ad), (bn, bd)) = (a.degree(xd, td), b.degree(xd, td));
                ((an + bd).max(bn + ad), ad + bd)
            }
            Ex::Neg(a) => a.degree(xd, td),
            Ex::Mul(a, b) => {
                let ((an, ad), (bn, bd)) = (a.degree(xd, td), b.degree(xd, td));
                (an + bn, ad + bd)
            }
            Ex::Inv(a) => {
                let (n, d) = a.degree(xd, td);
                (d, n)
            }
            Ex::Exp(a, e) => {
                let (n, d) = a.degree(xd, td);
                (e * n, e * d)
            }
        }
    }

    pub fn args(&self, s: &mut BTreeSet<(usize, isize)>) {
        match self {
            Ex::T(a, b) => {
                s.insert((*a, *b));
            }
            Ex::X | Ex::C(_) => {}
            Ex::Poly(_, a) | Ex::Claim(_, _, a) | Ex::Neg(a) | Ex::Inv(a) | Ex::Exp(a, _) => a.args(s),
            Ex::Add(a, b) | Ex::Mul(a, b) => {
                a.args(s);
                b.args(s);
            }
        }
    }

    /// None: division by zero.
    pub fn eval(&self, x: Fe, t: &dyn Fn(usize, isize) -> Fe, claims: &[Vec<Fe>]) -> Option<Fe> {
        Some(match self {
            Ex::X => x,
            Ex::C(v) => *v,
            Ex::T(a, b) => t(*a, *b),
            Ex::Poly(p, a) => horner(p, a.eval(x, t, claims)?),
            Ex::Claim(i, _, a) => horner(&claims[*i], a.eval(x, t, claims)?),
            Ex::Add(a, b) => a.eval(x, t, claims)?.add(b.eval(x, t, claims)?),
            Ex::Neg(a) => a.eval(x, t, claims)?.neg(),
            Ex::Mul(a, b) => a.eval(x, t, claims)?.mul(b.eval(x, t, claims)?),
            Ex::Inv(a) => a.eval(x, t, claims)?.inv()?,
            Ex::Exp(a, e) => a.eval(x, t, claims)?.pow(*e as u64),
        })
    }

    /// As `eval`, on a vector of points.
    pub fn eval_vec(&self, xs: &[Fe], t: &dyn Fn(usize, isize) -> Vec<Fe>, claims: &[Vec<Fe>]) -> Option<Vec<Fe>> {
        Some(match self {
            Ex::X => xs.to_vec(),
            Ex::C(v) => vec![*v; xs.len()],
            Ex::T(a, b) => t(*a, *b),
            Ex::Poly(p, a) => {
                let k = poly_degree(p) + 1;
                a.eval_vec(xs, t, claims)?.iter().map(|v| horner(&p[..k], *v)).collect()
            }
            Ex::Claim(i, _, a) => {
                let k = poly_degree(&claims[*i]) + 1;
                a.eval_vec(xs, t, claims)?.iter().map(|v| horner(&claims[*i][..k], *v)).collect()
            }
            Ex::Add(a, b) => zip(&a.eval_vec(xs, t, claims)?, &b.eval_vec(xs, t, claims)?, Fe::add),
            Ex::Neg(a) => a.eval_vec(xs, t, claims)?.iter().map(|v| v.neg()).collect(),
            Ex::Mul(a, b) => zip(&a.eval_vec(xs, t, claims)?, &b.eval_vec(xs, t, claims)?, Fe::mul),
            Ex::Inv(a) => batch_inv(&a.eval_vec(xs, t, claims)?)?,
            Ex::Exp(a, e) => a.eval_vec(xs, t, claims)?.iter().map(|v| fpow(*v, *e)).collect(),
        })
    }

    pub fn show(&self) -> String {
        match self {
            Ex::X => "X".into(),
            Ex::C(v) => {
                let b = super::field::base().dec(&v.0);
                if b.bits() < 32 {
                    b.to_dec()
                } else {
                    format!("c{:x}", v.0[0] & 0xffff)
                }
            }
            Ex::T(a, b) => format!("T{}[{}]", a, b),
            Ex::Poly(p, a) => format!("P{}({})", poly_degree(p), a.show()),
            Ex::Claim(i, k, a) => format!("Claim{}/{}({})", i, k, a.show()),
            Ex::Add(a, b) => format!("({}+{})", a.show(), b.show()),
            Ex::Neg(a) => format!("-{}", a.show()),
            Ex::Mul(a, b) => format!("{}*{}", a.show(), b.show()),
            Ex::Inv(a) => format!("1/{}", a.show()),
            Ex::Exp(a, e) => format!("{}^{}", a.show(), e),
        }
    }
}

pub fn fpow(v: Fe, mut e: usize) -> Fe {
    let mut r = Fe::one();
    let mut b = v;
    while e > 0 {
        if e & 1 == 1 {
            r = r.mul(b);
        }
        b = b.mul(b);
        e >>= 1;
    }
    r
}

fn zip(a: &[Fe], b: &[Fe], f: fn(Fe, Fe) -> Fe) -> Vec<Fe> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}

pub fn poly_degree(p: &[Fe]) -> usize {
    p.iter().rposition(|v| !v.is_zero()).unwrap_or(0)
}

// ------------------------------------------------------------------ system

#[derive(Clone, Debug)]
pub struct System {
    pub n:       usize,
    pub cols:    usize,
    pub seed:    Vec<u8>,
    pub cons:    Vec<Ex>,
    /// Degree bounds of claim polynomials are inside the expressions.
    pub claims:  Vec<Vec<Fe>>,
    pub blowup:  usize,
    pub pow:     usize,
    pub queries: usize,
    pub fri:     Vec<usize>,
}

pub type Columns = Vec<Vec<Fe>>;

impl System {
    pub fn domain(&self) -> usize {
        self.n * self.blowup
    }

    pub fn degree(&self) -> usize {
        self.cons
            .iter()
            .map(|e| {
                let (n, d) = e.degree(0, 1);
                n - d
            })
            .max()
            .unwrap()
    }

    pub fn parts(&self) -> usize {
        self.degree().next_power_of_two()
    }

    pub fn args(&self) -> Vec<(usize, isize)> {
        let mut s = BTreeSet::new();
        for e in &self.cons {
            e.args(&mut s);
        }
        s.into_iter().collect()
    }

    pub fn adjustments(&self) -> Vec<usize> {
        let target = self.degree() * self.n - 1;
        self.cons
            .iter()
            .map(|e| {
                let (n, d) = e.degree(1, self.n - 1);
                target + d - n
            })
            .collect()
    }

    /// Combined constraint value.
    pub fn combined(&self, coef: &[Fe], x: Fe, t: &dyn Fn(usize, isize) -> Fe) -> Option<Fe> {
        let mut r = Fe::ZERO;
        for (k, (e, adj)) in self.cons.iter().zip(self.adjustments()).enumerate() {
            let f = coef[2 * k].add(coef[2 * k + 1].mul(fpow(x, adj)));
            r = r.add(f.mul(e.eval(x, t, &self.claims)?));
        }
        Some(r)
    }

    pub fn combined_vec(&self, coef: &[Fe], xs: &[Fe], t: &dyn Fn(usize, isize) -> Vec<Fe>) -> Option<Vec<Fe>> {
        let mut r = vec![Fe::ZERO; xs.len()];
        for (k, (e, adj)) in self.cons.iter().zip(self.adjustments()).enumerate() {
            let v = e.eval_vec(xs, t, &self.claims)?;
            for i in 0..xs.len() {
                let f = coef[2 * k].add(coef[2 * k + 1].mul(fpow(xs[i], adj)));
                r[i] = r[i].add(f.mul(v[i]));
            }
        }
        Some(r)
    }

    pub fn show(&self) -> String {
        format!(
            "n={} cols={} blowup={} pow={} q={} fri={:?} claims={} seed={} [{}]",
            self.n,
            self.cols,
            self.blowup,
            self.pow,
            self.queries,
            self.fri,
            self.claims.len(),
            self.seed.len(),
            self.cons.iter().map(Ex::show).collect::<Vec<_>>().join("; ")
        )
    }
}

// -------------------------------------------------------------- transcript

#[derive(Clone)]
pub struct Coin {
    pub digest:  H,
    pub counter: u64,
}

impl Coin {
    pub fn new(seed: &[u8]) -> Coin {
        Coin { digest: keccak256(&[seed]), counter: 0 }
    }

    pub fn absorb(&mut self, data: &[u8]) {
        self.digest = keccak256(&[&self.digest, data]);
        self.counter = 0;
    }

    pub fn word(&mut self) -> H {
        let h = keccak256(&[&self.digest, &[0; 24], &self.counter.to_be_bytes()]);
        self.counter += 1;
        h
    }

    pub fn element(&mut self) -> Fe {
        loop {
            let mut h = self.word();
            h[0] &= 0x0f;
            let f = Fe::from_wire(&h);
            if f.canonical() {
                return f;
            }
        }
    }

    pub fn elements(&mut self, n: usize) -> Vec<Fe> {
        (0..n).map(|_| self.element()).collect()
    }

    pub fn challenge(&self, difficulty: usize) -> H {
        let prefix = [0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xed];
        keccak256(&[&prefix, &self.digest, &[difficulty as u8]])
    }

    pub fn indices(&mut self, count: usize, domain: usize) -> Vec<usize> {
        let mut q = vec![];
        while q.len() < count {
            let w = self.word();
            for k in 0..4 {
                let mut b = [0; 8];
                b.copy_from_slice(&w[8 * k..8 * k + 8]);
                q.push((u64::from_be_bytes(b) as usize) & (domain - 1));
            }
        }
        q.truncate(count);
        q.sort_unstable();
        q
    }
}

pub fn pow_bits(challenge: &H, nonce: u64) -> usize {
    let h = keccak256(&[challenge, &nonce.to_be_bytes()]);
    let mut n = 0;
    for b in h {
        n += b.leading_zeros() as usize;
        if b != 0 {
            break;
        }
    }
    n
}

fn leaf(values: &[Fe]) -> H {
    seq(&values.iter().map(|v| v.bytes()).collect::<Vec<_>>())
}

/// One FRI folding of a layer held in bit-reversed order.
pub fn fold_once(v: &[Fe], alpha: Fe) -> Vec<Fe> {
    let len = v.len();
    let winv = Fe::root(len).inv().unwrap();
    let mut pows = Vec::with_capacity(len / 2);
    let mut a = Fe::one();
    for _ in 0..len / 2 {
        pows.push(a);
        a = a.mul(winv);
    }
    (0..len / 2)
        .map(|j| {
            let xi = pows[bitrev(len / 2, j)];
            v[2 * j].add(v[2 * j + 1]).add(alpha.mul(xi).mul(v[2 * j].sub(v[2 * j + 1])))
        })
        .collect()
}

// ------------------------------------------------------------------ prover

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Nonce {
    Smallest,
    Second,
    /// One bit less work than required.
    Weak,
    Value(u64),
}

/// Deviations from the protocol. Each later step is carried out consistently
/// with what was actually committed, unless stated otherwise.
#[derive(Clone, Debug)]
pub struct Faults {
    pub trace_root:      Option<H>,
    pub constraint_root: Option<H>,
    pub fri_root:        Option<(usize, H)>,
    /// Changes of single committed trace values (column, leaf, difference).
    pub trace_patch:     Vec<(usize, usize, Fe)>,
    /// Adds a monomial coefficient * x^degree to the committed trace column.
    pub trace_extra:     Option<(usize, usize, Fe)>,
    pub constraint_patch: Vec<(usize, usize, Fe)>,
    pub constraint_extra: Option<(usize, usize, Fe)>,
    /// Wrong claimed value of a trace argument.
    pub oods_trace:      Option<(usize, Fe)>,
    pub oods_constraint: Option<(usize, Fe)>,
    /// Choose the claimed constraint value `i` so that the out of domain
    /// equation holds.
    pub oods_fix:        Option<usize>,
    /// Replace a FRI layer by an unrelated low degree one.
    pub fri_replace:     Option<usize>,
    /// Change one committed value of a layer, folding continues with it or not.
    pub fri_patch:       Option<(usize, usize, Fe, bool)>,
    /// Fold layer k with a wrong coefficient.
    pub fri_alpha:       Option<(usize, Fe)>,
    pub last_patch:      Option<(usize, Fe)>,
    /// Fit the last layer to the positions of the queries instead of the
    /// prefix (when there are few queries): honest otherwise.
    pub last_shift:      bool,
    pub nonce:           Nonce,
    /// Draw queries from a coin without the nonce absorbed.
    pub stale_queries:   bool,
    /// Force query positions.
    pub forced_queries:  Option<Vec<usize>>,
    /// Encode some elements non-canonically (value plus modulus), committed
    /// that way: "trace", "constraint" (first column), or the name of a part.
    pub alias:           &'static str,
}

impl Default for Faults {
    fn default() -> Self {
        Faults {
            trace_root: None,
            constraint_root: None,
            fri_root: None,
            trace_patch: vec![],
            trace_extra: None,
            constraint_patch: vec![],
            constraint_extra: None,
            oods_trace: None,
            oods_constraint: None,
            oods_fix: None,
            fri_replace: None,
            fri_patch: None,
            fri_alpha: None,
            last_patch: None,
            last_shift: false,
            nonce: Nonce::Smallest,
            stale_queries: false,
            forced_queries: None,
            alias: "",
        }
    }
}

#[derive(Clone)]
pub struct Made {
    pub bytes:   Vec<u8>,
    /// Named byte ranges in wire order.
    pub parts:   Vec<(String, usize, usize)>,
    pub queries: Vec<usize>,
    pub nonce:   u64,
    /// Challenge of the proof of work.
    pub challenge: H,
    /// True if the combined constraint was not a polynomial of the allowed
    /// degree (trace does not satisfy the constraints).
    pub improper: bool,
}

impl Made {
    pub fn part(&self, name: &str) -> Option<(usize, usize)> {
        self.parts.iter().find(|p| p.0 == name).map(|p| (p.1, p.2))
    }
}

/// The non-canonical encoding of an element.
pub fn alias_bytes(b: &[u8]) -> [u8; 32] {
    let p = super::field::base().big.limbs4();
    let v = Fe::from_wire(b).0;
    let mut r = [0_u64; 4];
    let mut carry = 0_u128;
    for i in 0..4 {
        let t = u128::from(v[i]) + u128::from(p[i]) + carry;
        r[i] = t as u64;
        carry = t >> 64;
    }
    assert_eq!(carry, 0);
    Fe(r).bytes()
}

struct Writer {
    alias: &'static str,
    coin:  Coin,
    bytes: Vec<u8>,
    parts: Vec<(String, usize, usize)>,
}

impl Writer {
    fn put(&mut self, name: &str, b: &[u8]) {
        let mut b = b.to_vec();
        if name == self.alias {
            let a = alias_bytes(&b[..32]);
            b[..32].copy_from_slice(&a);
        }
        let b = &b[..];
        self.parts.push((name.to_owned(), self.bytes.len(), b.len()));
        self.bytes.extend_from_slice(b);
        self.coin.absorb(b);
    }
}

pub fn lde(coeffs: &[Fe], blowup: usize) -> Vec<Fe> {
    let n = coeffs.len() * blowup;
    let mut c = coeffs.to_vec();
    c.resize(n, Fe::ZERO);
    let three = Fe::int(3);
    let mut s = Fe::one();
    for v in &mut c {
        *v = v.mul(s);
        s = s.mul(three);
    }
    let v = dft(&c, Fe::root(n));
    (0..n).map(|i| v[bitrev(n, i)]).collect()
}

/// Interpolates the trace columns.
pub fn interpolate(cols: &Columns) -> Vec<Vec<Fe>> {
    cols.iter().map(|v| idft(v, Fe::root(v.len()))).collect()
}

/// None: some denominator vanishes on the evaluation coset.
pub fn prove(s: &System, trace: &Columns, f: &Faults) -> Option<Made> {
    let (n, big_n) = (s.n, s.domain());
    let d = s.parts();
    let mut w = Writer { alias: f.alias, coin: Coin::new(&s.seed), bytes: vec![], parts: vec![] };
    let three = Fe::int(3);
    // x of every leaf
    let om = Fe::root(big_n);
    let mut nat = Vec::with_capacity(big_n);
    let mut x = three;
    for _ in 0..big_n {
        nat.push(x);
        x = x.mul(om);
    }
    let xs: Vec<Fe> = (0..big_n).map(|i| nat[bitrev(big_n, i)]).collect();

    // Trace
    let polys = interpolate(trace);
    let mut t_lde: Vec<Vec<Fe>> = polys.iter().map(|p| lde(p, s.blowup)).collect();
    if let Some((col, deg, co)) = f.trace_extra {
        for i in 0..big_n {
            t_lde[col][i] = t_lde[col][i].add(co.mul(fpow(xs[i], deg)));
        }
    }
    for (col, i, df) in &f.trace_patch {
        t_lde[*col][*i] = t_lde[*col][*i].add(*df);
    }
    let row = |m: &Vec<Vec<Fe>>, i: usize, name: &str| {
        let mut v = m.iter().map(|v| v[i].bytes()).collect::<Vec<_>>();
        if f.alias == name {
            v[0] = alias_bytes(&v[0]);
        }
        v
    };
    let t_tree = RefTree::new((0..big_n).map(|i| seq(&row(&t_lde, i, "trace"))).collect());
    w.put("trace_root", &f.trace_root.unwrap_or(t_tree.root()));

    // Constraints
    let coef = w.coin.elements(2 * s.cons.len());
    let m = n * d;
    let cw = Fe::root(m);
    let mut cxs = Vec::with_capacity(m);
    let mut x = three;
    for _ in 0..m {
        cxs.push(x);
        x = x.mul(cw);
    }
    let t_coset: Vec<Vec<Fe>> = polys
        .iter()
        .map(|p| {
            let mut c = p.clone();
            c.resize(m, Fe::ZERO);
            let mut sft = Fe::one();
            for v in &mut c {
                *v = v.mul(sft);
                sft = sft.mul(three);
            }
            dft(&c, cw)
        })
        .collect();
    let at = |col: usize, off: isize| -> Vec<Fe> {
        (0..m)
            .map(|i| {
                let j = (i as isize + off * d as isize).rem_euclid(m as isize) as usize;
                t_coset[col][j]
            })
            .collect()
    };
    let cv = s.combined_vec(&coef, &cxs, &at)?;
    let mut h = idft(&cv, cw);
    let tinv = three.inv().unwrap();
    let mut sft = Fe::one();
    for v in &mut h {
        *v = v.mul(sft);
        sft = sft.mul(tinv);
    }
    let hs: Vec<Vec<Fe>> = (0..d).map(|i| h.iter().skip(i).step_by(d).copied().collect()).collect();
    let mut h_lde: Vec<Vec<Fe>> = hs.iter().map(|p| lde(p, s.blowup)).collect();
    if let Some((i, deg, co)) = f.constraint_extra {
        for k in 0..big_n {
            h_lde[i][k] = h_lde[i][k].add(co.mul(fpow(xs[k], deg)));
        }
    }
    for (i, k, df) in &f.constraint_patch {
        h_lde[*i][*k] = h_lde[*i][*k].add(*df);
    }
    let h_tree = RefTree::new((0..big_n).map(|i| seq(&row(&h_lde, i, "constraint"))).collect());
    w.put("constraint_root", &f.constraint_root.unwrap_or(h_tree.root()));

    // Out of domain
    let z = w.coin.element();
    let g = Fe::root(n);
    let args = s.args();
    let points: Vec<Fe> = args.iter().map(|(_, o)| z.mul(g.powi(*o as i64))).collect();
    let mut tv: Vec<Fe> = args.iter().zip(&points).map(|((col, _), p)| horner(&polys[*col], *p)).collect();
    if let Some((col, deg, co)) = f.trace_extra {
        for (k, (a, _)) in args.iter().enumerate() {
            if *a == col {
                tv[k] = tv[k].add(co.mul(fpow(points[k], deg)));
            }
        }
    }
    if let Some((k, df)) = f.oods_trace {
        tv[k] = tv[k].add(df);
    }
    let zd = fpow(z, d);
    let mut hv: Vec<Fe> = hs.iter().map(|p| horner(p, zd)).collect();
    if let Some((i, deg, co)) = f.constraint_extra {
        hv[i] = hv[i].add(co.mul(fpow(zd, deg)));
    }
    let map: BTreeMap<(usize, isize), Fe> = args.iter().copied().zip(tv.iter().copied()).collect();
    let want = s.combined(&coef, z, &|a, b| map[&(a, b)])?;
    let value = |hv: &[Fe]| horner(hv, z);
    let improper = want != value(&hv);
    if let Some((i, df)) = f.oods_constraint {
        hv[i] = hv[i].add(df);
    }
    if let Some(i) = f.oods_fix {
        let miss = want.sub(value(&hv));
        hv[i] = hv[i].add(miss.mul(fpow(z, i).inv()?));
    }
    for (k, v) in tv.iter().enumerate() {
        w.put(&format!("oods_trace[{}]", k), &v.bytes());
    }
    for (k, v) in hv.iter().enumerate() {
        w.put(&format!("oods_constraint[{}]", k), &v.bytes());
    }
    let oc = w.coin.elements(tv.len() + hv.len());

    // DEEP composition
    let mut layer = vec![Fe::ZERO; big_n];
    for (k, (col, _)) in args.iter().enumerate() {
        let den: Vec<Fe> = xs.iter().map(|x| x.sub(points[k])).collect();
        let inv = batch_inv(&den)?;
        for i in 0..big_n {
            layer[i] = layer[i].add(oc[k].mul(t_lde[*col][i].sub(tv[k])).mul(inv[i]));
        }
    }
    let den: Vec<Fe> = xs.iter().map(|x| x.sub(zd)).collect();
    let inv = batch_inv(&den)?;
    for j in 0..d {
        for i in 0..big_n {
            layer[i] = layer[i].add(oc[args.len() + j].mul(h_lde[j][i].sub(hv[j])).mul(inv[i]));
        }
    }

    // FRI
    let mut layers = vec![];
    let mut trees = vec![];
    for (k, folds) in s.fri.iter().enumerate() {
        if f.fri_replace == Some(k) {
            let len = layer.len();
            let cs: Vec<Fe> = (0..len / s.blowup).map(|i| Fe::int(7919 + (i * i) as u64)).collect();
            let mut cc = cs;
            cc.resize(len, Fe::ZERO);
            let v = dft(&cc, Fe::root(len));
            layer = (0..len).map(|i| v[bitrev(len, i)]).collect();
        }
        let mut committed = layer.clone();
        if let Some((kk, i, df, keep)) = f.fri_patch {
            if kk == k {
                let i = i % committed.len();
                committed[i] = committed[i].add(df);
                if keep {
                    layer = committed.clone();
                }
            }
        }
        let coset = 1 << folds;
        let tree = RefTree::new(committed.chunks(coset).map(leaf).collect());
        let root = match f.fri_root {
            Some((kk, r)) if kk == k => r,
            _ => tree.root(),
        };
        w.put(&format!("fri_root[{}]", k), &root);
        let mut alpha = w.coin.element();
        if let Some((kk, df)) = f.fri_alpha {
            if kk == k {
                alpha = alpha.add(df);
            }
        }
        layers.push(committed);
        trees.push(tree);
        for _ in 0..*folds {
            layer = fold_once(&layer, alpha);
            alpha = alpha.mul(alpha);
        }
    }
    let len = layer.len();
    let nc = len / s.blowup;
    // Interpolate on a subgroup of order nc (or, shifted, on another coset)
    let sh = if f.last_shift { 1 } else { 0 };
    let vals: Vec<Fe> = (0..nc).map(|i| layer[sh * nc + bitrev(nc, i)]).collect();
    let mut last = idft(&vals, Fe::root(nc));
    if sh == 1 {
        let cof = Fe::root(len).pow(bitrev(len, nc) as u64).inv()?;
        let mut a = Fe::one();
        for v in &mut last {
            *v = v.mul(a);
            a = a.mul(cof);
        }
    }
    if let Some((i, df)) = f.last_patch {
        let i = i % nc;
        last[i] = last[i].add(df);
    }
    let lb: Vec<u8> = last.iter().flat_map(|v| v.bytes()).collect();
    w.put("last_layer", &lb);

    // Proof of work
    let challenge = w.coin.challenge(s.pow);
    let nonce = match f.nonce {
        Nonce::Smallest => (0..).find(|k| pow_bits(&challenge, *k) >= s.pow).unwrap(),
        Nonce::Second => (0..).filter(|k| pow_bits(&challenge, *k) >= s.pow).nth(1).unwrap(),
        Nonce::Weak => (0..).find(|k| pow_bits(&challenge, *k) + 1 == s.pow).unwrap_or(0),
        Nonce::Value(v) => v,
    };
    let mut stale = w.coin.clone();
    stale.counter += 1;
    w.put("nonce", &nonce.to_be_bytes());

    // Queries
    let mut q = w.coin.clone().indices(s.queries, big_n);
    if f.stale_queries {
        q = stale.indices(s.queries, big_n);
    }
    if let Some(v) = &f.forced_queries {
        q = v.clone();
    }
    for (name, m, tree) in [("trace", &t_lde, &t_tree), ("constraint", &h_lde, &h_tree)] {
        for (k, i) in q.iter().enumerate() {
            let b: Vec<u8> = row(m, *i, name).concat();
            w.put(&format!("{}_row[{}]", name, k), &b);
        }
        for (k, hsh) in tree.open(&q).iter().enumerate() {
            w.put(&format!("{}_hash[{}]", name, k), hsh);
        }
    }
    let mut prev = q.clone();
    for (k, folds) in s.fri.iter().enumerate() {
        let coset = 1 << folds;
        let known: BTreeSet<usize> = prev.iter().copied().collect();
        let next: BTreeSet<usize> = prev.iter().map(|i| i / coset).collect();
        for i in &next {
            for j in 0..coset {
                let p = i * coset + j;
                if !known.contains(&p) {
                    w.put(&format!("fri_value[{}][{}]", k, p), &layers[k][p].bytes());
                }
            }
        }
        prev = next.into_iter().collect();
        for (j, hsh) in trees[k].open(&prev).iter().enumerate() {
            w.put(&format!("fri_hash[{}][{}]", k, j), hsh);
        }
    }
    Some(Made { bytes: w.bytes, parts: w.parts, queries: q, nonce, challenge, improper })
}

// ---------------------------------------------------------------- verifier

struct Reader<'a> {
    coin: Coin,
    b:    &'a [u8],
    at:   usize,
}

impl Reader<'_> {
    fn take(&mut self, n: usize) -> Result<Vec<u8>, &'static str> {
        let s = self.b.get(self.at..self.at + n).ok_or("truncated")?.to_vec();
        self.at += n;
        self.coin.absorb(&s);
        Ok(s)
    }

    fn hash(&mut self) -> Result<H, &'static str> {
        let mut h = [0; 32];
        h.copy_from_slice(&self.take(32)?);
        Ok(h)
    }

    fn elements(&mut self, n: usize) -> Result<Vec<Fe>, &'static str> {
        let s = self.take(32 * n)?;
        let v: Vec<Fe> = s.chunks(32).map(Fe::from_wire).collect();
        if v.iter().all(|x| x.canonical()) {
            Ok(v)
        } else {
            Err("noncanonical")
        }
    }

    fn hashes(&mut self, n: usize) -> Result<Vec<H>, &'static str> {
        (0..n).map(|_| self.hash()).collect()
    }
}

/// Ok, or the step that rejects.
pub fn verify(s: &System, proof: &[u8]) -> Result<(), &'static str> {
    let (n, big_n, d) = (s.n, s.domain(), s.parts());
    let mut r = Reader { coin: Coin::new(&s.seed), b: proof, at: 0 };
    let t_root = r.hash()?;
    let coef = r.coin.elements(2 * s.cons.len());
    let h_root = r.hash()?;
    let z = r.coin.element();
    let args = s.args();
    let mut tv = vec![];
    for _ in &args {
        tv.push(r.elements(1)?[0]);
    }
    let mut hv = vec![];
    for _ in 0..d {
        hv.push(r.elements(1)?[0]);
    }
    let oc = r.coin.elements(args.len() + d);
    let mut roots = vec![];
    let mut alphas = vec![];
    let mut size = big_n;
    for k in &s.fri {
        size >>= k;
        roots.push(r.hash()?);
        alphas.push(r.coin.element());
    }
    let last = r.elements(size / s.blowup)?;
    let challenge = r.coin.challenge(s.pow);
    let mut nb = [0; 8];
    nb.copy_from_slice(&r.take(8)?);
    if pow_bits(&challenge, u64::from_be_bytes(nb)) < s.pow {
        return Err("proof of work");
    }
    let q = r.coin.clone().indices(s.queries, big_n);
    let mut rows = vec![];
    for (root, width, err) in [(t_root, s.cols, "trace opening"), (h_root, d, "constraint opening")] {
        let mut v = vec![];
        for _ in &q {
            v.push(r.elements(width)?);
        }
        let hs = r.hashes(proof_len(big_n, &q))?;
        let leaves: Vec<(usize, H)> = q.iter().copied().zip(v.iter().map(|x| leaf(x))).collect();
        if root_from(big_n, &leaves, &hs) != Some(root) {
            return Err(err);
        }
        rows.push(v);
    }
    // DEEP values at queries
    let g = Fe::root(n);
    let om = Fe::root(big_n);
    let zd = fpow(z, d);
    let mut known: BTreeMap<usize, Fe> = BTreeMap::new();
    let points: Vec<Fe> = args.iter().map(|(_, o)| z.mul(g.powi(*o as i64))).collect();
    for (k, i) in q.iter().enumerate() {
        if known.contains_key(i) {
            continue;
        }
        let x = Fe::int(3).mul(fpow(om, bitrev(big_n, *i)));
        let mut dens: Vec<Fe> = points.iter().map(|p| x.sub(*p)).collect();
        dens.push(x.sub(zd));
        let inv = batch_inv(&dens).ok_or("division")?;
        let mut v = Fe::ZERO;
        for (a, (col, _)) in args.iter().enumerate() {
            v = v.add(oc[a].mul(rows[0][k][*col].sub(tv[a])).mul(inv[a]));
        }
        for j in 0..d {
            v = v.add(oc[args.len() + j].mul(rows[1][k][j].sub(hv[j])).mul(inv[args.len()]));
        }
        known.insert(*i, v);
    }
    // FRI
    let mut len = big_n;
    for (k, folds) in s.fri.iter().enumerate() {
        let coset = 1_usize << folds;
        let next: BTreeSet<usize> = known.keys().map(|i| i / coset).collect();
        let mut leaves = vec![];
        let mut folded = BTreeMap::new();
        for i in &next {
            let mut v = vec![];
            for j in 0..coset {
                let p = i * coset + j;
                v.push(match known.get(&p) {
                    Some(x) => *x,
                    None => r.elements(1)?[0],
                });
            }
            leaves.push((*i, leaf(&v)));
            // fold this coset
            let mut l = len;
            let mut base = i * coset;
            let mut alpha = alphas[k];
            while v.len() > 1 {
                let wi = Fe::root(l).inv().unwrap();
                v = v
                    .chunks(2)
                    .enumerate()
                    .map(|(j, pr)| {
                        let xi = fpow(wi, bitrev(l, base + 2 * j));
                        pr[0].add(pr[1]).add(alpha.mul(xi).mul(pr[0].sub(pr[1])))
                    })
                    .collect();
                alpha = alpha.mul(alpha);
                base /= 2;
                l /= 2;
            }
            folded.insert(*i, v[0]);
        }
        len /= coset;
        let idx: Vec<usize> = next.iter().copied().collect();
        let hs = r.hashes(proof_len(len, &idx))?;
        if root_from(len, &leaves, &hs) != Some(roots[k]) {
            return Err("fri opening");
        }
        known = folded;
    }
    if r.at != proof.len() {
        return Err("trailing bytes");
    }
    let wl = Fe::root(len);
    for (i, v) in &known {
        if horner(&last, fpow(wl, bitrev(len, *i))) != *v {
            return Err("last layer");
        }
    }
    let map: BTreeMap<(usize, isize), Fe> = args.iter().copied().zip(tv.iter().copied()).collect();
    let want = s.combined(&coef, z, &|a, b| map[&(a, b)]).ok_or("division")?;
    if want != horner(&hv, z) {
        return Err("out of domain equation");
    }
    Ok(())
}
