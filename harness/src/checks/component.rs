//! C09 composition of components.
use super::{
    gen::{rfe, rnz, system, to_r, violated, Case, Con, Opt},
    Check,
};
use crate::{
    conv::{el, fe},
    mon::{hash_of, Ctx, Record, Rng},
    refs::{
        field::{bitrev, Fe},
        stark::{fpow, Columns, Ex},
    },
};
use std::collections::BTreeSet;
use zkp_primefield::FieldElement;
use zkp_stark::{
    check_constraints,
    component::{Component, Empty, Fold, Horizontal, PolynomialWriter, Test, Vertical},
    Constraints, RationalExpression as R, TraceTable,
};

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C09",
        run:     c09,
        rule:    "a case is a random nesting of Fold/Horizontal/Vertical over random elements; distinct by nesting, element constraints and corrupted cell",
        assumes: &["elements stacked vertically do not read past their own rows and share their constraints, as Vertical documents"],
    });
}

/// A component made of a generated constraint system; the witness is the
/// table itself.
#[derive(Clone)]
struct Elem {
    case:  Case,
    order: u64,
    /// The cell that is the claim: (column, row)
    cell:  (usize, usize),
    /// Whether the last constraint binds that cell to the claim
    bound: bool,
}

/// The constraint "the cell has this value".
fn binding(n: usize, cell: (usize, usize), v: Fe) -> Con {
    let num = Ex::T(cell.0, 0).sub(Ex::C(v));
    let den = Ex::X.sub(Ex::C(fpow(Fe::root(n), cell.1)));
    Con { ex: Ex::Mul(Box::new(num.clone()), Box::new(Ex::Inv(Box::new(den.clone())))), num, den }
}

/// Claims of compositions: the values of the elements in order.
trait Claims {
    fn values(&self) -> Vec<Fe>;
    fn change(&mut self, i: usize, by: Fe);
}

impl Claims for Fe {
    fn values(&self) -> Vec<Fe> {
        vec![*self]
    }

    fn change(&mut self, i: usize, by: Fe) {
        assert_eq!(i, 0);
        *self = self.add(by);
    }
}

impl Claims for () {
    fn values(&self) -> Vec<Fe> {
        vec![]
    }

    fn change(&mut self, _: usize, _: Fe) {
        unreachable!()
    }
}

impl<A: Claims, B: Claims> Claims for (A, B) {
    fn values(&self) -> Vec<Fe> {
        let mut v = self.0.values();
        v.extend(self.1.values());
        v
    }

    fn change(&mut self, i: usize, by: Fe) {
        let k = self.0.values().len();
        if i < k {
            self.0.change(i, by)
        } else {
            self.1.change(i - k, by)
        }
    }
}

impl<A: Claims> Claims for Vec<A> {
    fn values(&self) -> Vec<Fe> {
        self.iter().flat_map(Claims::values).collect()
    }

    fn change(&mut self, mut i: usize, by: Fe) {
        for a in self {
            let k = a.values().len();
            if i < k {
                return a.change(i, by);
            }
            i -= k;
        }
        unreachable!()
    }
}

impl Component for Elem {
    type Claim = Fe;
    type Witness = Columns;

    fn claim(&self, w: &Columns) -> Fe {
        w[self.cell.0][self.cell.1]
    }

    fn num_polynomials(&self) -> usize {
        self.case.sys.cols
    }

    fn polynomial_size(&self) -> usize {
        self.case.sys.n
    }

    fn constraints(&self, claim: &Fe) -> Vec<R> {
        let mut v: Vec<R> = self.case.sys.cons.iter().map(to_r).collect();
        if self.bound {
            v.push(to_r(&binding(self.case.sys.n, self.cell, *claim).ex));
        }
        v
    }

    fn trace<P: PolynomialWriter>(&self, trace: &mut P, w: &Columns) {
        assert_eq!(trace.num_polynomials(), self.num_polynomials(), "element sees a wrong number of polynomials");
        assert_eq!(trace.polynomial_size(), self.polynomial_size(), "element sees a wrong polynomial size");
        let (m, n) = (self.case.sys.cols, self.case.sys.n);
        let mut cells: Vec<(usize, usize)> = (0..m).flat_map(|j| (0..n).map(move |r| (j, r))).collect();
        Rng::new(self.order).shuffle(&mut cells);
        for (j, r) in cells {
            trace.write(j, r, el(w[j][r]));
        }
    }
}

/// What the composition should be, computed on its own.
#[derive(Clone)]
enum Node {
    /// Constraints (the binding of the claim included), table, claimed cell and
    /// whether it is bound
    Leaf(Case, Columns, (usize, usize), bool),
    Fold(Box<Node>, usize),
    Hor(Box<Node>, Box<Node>),
    Ver(Vec<Node>),
    Blank(usize, usize),
}

impl Node {
    /// (rows, columns)
    fn dims(&self) -> (usize, usize) {
        match self {
            Node::Leaf(_, t, ..) => (t[0].len(), t.len()),
            Node::Fold(e, k) => {
                let (r, c) = e.dims();
                (r << k, (c + (1 << k) - 1) >> k)
            }
            Node::Hor(a, b) => (a.dims().0, a.dims().1 + b.dims().1),
            Node::Ver(v) => (v[0].dims().0 * v.len(), v[0].dims().1),
            Node::Blank(r, c) => (*r, *c),
        }
    }

    /// Cells in use: (row, column, value).
    fn cells(&self) -> Vec<(usize, usize, Fe)> {
        match self {
            Node::Leaf(_, t, ..) => t
                .iter()
                .enumerate()
                .flat_map(|(j, col)| col.iter().enumerate().map(move |(r, v)| (r, j, *v)))
                .collect(),
            Node::Fold(e, k) => e
                .cells()
                .into_iter()
                .map(|(r, c, v)| {
                    let red = 1_usize << k;
                    (r * red + bitrev(red, c % red), c / red, v)
                })
                .collect(),
            Node::Hor(a, b) => {
                let off = a.dims().1;
                let mut v = a.cells();
                v.extend(b.cells().into_iter().map(|(r, c, v)| (r, c + off, v)));
                v
            }
            Node::Ver(parts) => {
                let rows = parts[0].dims().0;
                parts
                    .iter()
                    .enumerate()
                    .flat_map(|(i, p)| p.cells().into_iter().map(move |(r, c, v)| (r + i * rows, c, v)))
                    .collect()
            }
            Node::Blank(..) => vec![],
        }
    }

    fn count(&self) -> usize {
        match self {
            Node::Leaf(c, ..) => c.cons.len(),
            Node::Fold(e, _) => e.count(),
            Node::Hor(a, b) => a.count() + b.count(),
            Node::Ver(v) => v[0].count(),
            Node::Blank(..) => 0,
        }
    }

    /// Violations as (row, constraint) of the composition.
    fn bad(&self) -> Vec<(usize, usize)> {
        let mut out: Vec<(usize, usize)> = match self {
            Node::Leaf(c, t, ..) => violated(c, t),
            Node::Fold(e, k) => e.bad().into_iter().map(|(r, c)| (r << k, c)).collect(),
            Node::Hor(a, b) => {
                let off = a.count();
                a.bad().into_iter().chain(b.bad().into_iter().map(|(r, c)| (r, c + off))).collect()
            }
            Node::Ver(v) => {
                let rows = v[0].dims().0;
                v.iter().enumerate().flat_map(|(i, e)| e.bad().into_iter().map(move |(r, c)| (r + i * rows, c))).collect()
            }
            Node::Blank(..) => vec![],
        };
        out.sort_unstable();
        out
    }

    fn leaves(&mut self) -> Vec<&mut Columns> {
        match self {
            Node::Leaf(_, t, ..) => vec![t],
            Node::Fold(e, _) => e.leaves(),
            Node::Hor(a, b) => {
                let mut v = a.leaves();
                v.extend(b.leaves());
                v
            }
            Node::Ver(p) => p.iter_mut().flat_map(|e| e.leaves()).collect(),
            Node::Blank(..) => vec![],
        }
    }

    /// Elements in the order of their claims.
    fn elements(&mut self) -> Vec<&mut Node> {
        match self {
            Node::Leaf(..) => vec![self],
            Node::Fold(e, _) => e.elements(),
            Node::Hor(a, b) => {
                let mut v = a.elements();
                v.extend(b.elements());
                v
            }
            Node::Ver(p) => p.iter_mut().flat_map(|e| e.elements()).collect(),
            Node::Blank(..) => vec![],
        }
    }

    fn first(&self) -> &Case {
        match self {
            Node::Leaf(c, ..) => c,
            Node::Fold(e, _) => e.first(),
            Node::Hor(a, b) => if a.count() > 0 { a.first() } else { b.first() },
            Node::Ver(v) => v[0].first(),
            Node::Blank(..) => unreachable!(),
        }
    }

    fn show(&self) -> String {
        match self {
            Node::Leaf(_, t, ..) => format!("E{}x{}", t[0].len(), t.len()),
            Node::Fold(e, k) => format!("Fold{}({})", k, e.show()),
            Node::Hor(a, b) => format!("Hor({},{})", a.show(), b.show()),
            Node::Ver(v) => format!("Ver{}({})", v.len(), v[0].show()),
            Node::Blank(r, c) => format!("Empty{}x{}", r, c),
        }
    }
}

struct Built<C: Component> {
    comp: C,
    wit:  C::Witness,
    node: Node,
}

fn leaf(rng: &mut Rng, case: &Case) -> Built<Elem> {
    let cell = (rng.below(case.sys.cols), rng.below(case.sys.n));
    let comp = Elem { case: case.clone(), order: rng.u64(), cell, bound: true };
    let mut case = case.clone();
    case.cons.push(binding(case.sys.n, cell, case.cols[cell.0][cell.1]));
    Built { comp, wit: case.cols.clone(), node: Node::Leaf(case.clone(), case.cols, cell, true) }
}

/// An element to be stacked: nothing in its constraints depends on the claim,
/// and its values differ wherever the constraints leave the choice.
fn stacked(rng: &mut Rng, case: &Case) -> Built<Elem> {
    let mut cols = case.cols.clone();
    for j in 0..cols.len() {
        for r in 0..cols[j].len() {
            let old = cols[j][r];
            cols[j][r] = rfe(rng);
            if !violated(case, &cols).is_empty() {
                cols[j][r] = old;
            }
        }
    }
    // The same claim and constraints for the whole stack
    let cell = (case.sys.cols - 1, 0);
    Built {
        comp: Elem { case: case.clone(), order: rng.u64(), cell, bound: false },
        wit:  cols.clone(),
        node: Node::Leaf(case.clone(), cols, cell, false),
    }
}

fn fold<C: Component>(b: Built<C>, k: usize) -> Built<Fold<C>> {
    Built { comp: Fold::new(b.comp, k), wit: b.wit, node: Node::Fold(Box::new(b.node), k) }
}

fn hor<A: Component, B: Component>(a: Built<A>, b: Built<B>) -> Built<Horizontal<A, B>> {
    Built { comp: Horizontal::new(a.comp, b.comp), wit: (a.wit, b.wit), node: Node::Hor(Box::new(a.node), Box::new(b.node)) }
}

fn ver<C: Component>(v: Vec<Built<C>>) -> Built<Vertical<C>> {
    let n = v.len();
    let mut comp = None;
    let (mut wit, mut nodes) = (vec![], vec![]);
    for b in v {
        comp.get_or_insert(b.comp);
        wit.push(b.wit);
        nodes.push(b.node);
    }
    Built { comp: Vertical::new(comp.unwrap(), n), wit, node: Node::Ver(nodes) }
}

fn empty(rows: usize, cols: usize) -> Built<Empty> {
    Built { comp: Empty::new(cols, rows), wit: (), node: Node::Blank(rows, cols) }
}

/// Records every write.
struct Log {
    rows:   usize,
    cols:   usize,
    writes: Vec<(usize, usize, Fe)>,
}

impl PolynomialWriter for Log {
    fn num_polynomials(&self) -> usize {
        self.cols
    }

    fn polynomial_size(&self) -> usize {
        self.rows
    }

    fn write(&mut self, polynomial: usize, location: usize, value: FieldElement) {
        self.writes.push((location, polynomial, fe(&value)));
    }
}

fn element(rng: &mut Rng, log_n: usize, local: bool) -> Case {
    loop {
        let mut o = Opt::tiny();
        o.log_n = (log_n, log_n);
        o.cols = 5;
        o.claims = true;
        let mut case = system(rng, &o);
        // Claims become plain polynomials
        for k in &mut case.cons {
            for e in [&mut k.num, &mut k.den, &mut k.ex] {
                *e = super::gen::substituted(e, &case.sys.claims);
            }
        }
        case.sys.claims.clear();
        if local {
            // Only constraints that do not read past the element's rows
            let n = case.sys.n as isize;
            let mut keep = vec![];
            for con in &case.cons {
                let mut ok = true;
                for r in 0..n {
                    let x = fpow(Fe::root(n as usize), r as usize);
                    // On random tables the numerator must not depend on what lies outside
                    for _ in 0..3 {
                        let any: Columns = case.cols.iter().map(|c| c.iter().map(|_| rnz(rng).add(Fe::int(12345))).collect()).collect();
                        let mut value = |out: Fe| {
                            let t = |c: usize, o: isize| {
                                if (0..n).contains(&(r + o)) {
                                    any[c][(r + o) as usize]
                                } else {
                                    out.add(Fe::int(17 * c as u64 + 1000 * (r + o + 5 * n) as u64)).pow(7)
                                }
                            };
                            (con.den.eval(x, &t, &[]).unwrap().is_zero(), con.num.eval(x, &t, &[]).unwrap())
                        };
                        let ((active, v), (_, w)) = (value(rnz(rng)), value(rnz(rng).add(Fe::int(77))));
                        ok &= !active || v == w;
                    }
                }
                if ok {
                    keep.push(con.clone());
                }
            }
            case.cons = keep;
            // A column that is free
            let free = (0..n).map(|_| rfe(rng)).collect();
            case.cols.push(free);
            case.sys.cols += 1;
        }
        if !case.cons.is_empty() {
            case.sys.cons = case.cons.iter().map(|k| k.ex.clone()).collect();
            return case;
        }
    }
}

fn judge<C: Component>(rng: &mut Rng, rec: &mut Record, mut b: Built<C>, prove: bool)
where
    C::Claim: Claims,
{
    let (rows, cols) = b.node.dims();
    let show = b.node.show();
    rec.eval(&(&show, hash_of(&b.node.cells())));
    rec.event("composition");
    rec.sample("composition", || show.clone());
    rec.check(
        b.comp.polynomial_size() == rows && b.comp.num_polynomials() == cols,
        "dimensions",
        || format!("{}: {}x{} instead of {}x{}", show, b.comp.polynomial_size(), b.comp.num_polynomials(), rows, cols),
    );
    // Writes: exactly once, at distinct cells inside the table, as laid out
    let mut log = Log { rows, cols, writes: vec![] };
    b.comp.trace(&mut log, &b.wit);
    let distinct: BTreeSet<(usize, usize)> = log.writes.iter().map(|w| (w.0, w.1)).collect();
    rec.events_n("writes observed", log.writes.len() as u64);
    rec.check(distinct.len() == log.writes.len(), "a cell is written twice", || show.clone());
    rec.check(distinct.iter().all(|(r, c)| *r < rows && *c < cols), "write outside of the table", || show.clone());
    let sort = |mut v: Vec<(usize, usize, Fe)>| {
        v.sort_unstable_by_key(|a| (a.0, a.1));
        v
    };
    let (got, want) = (sort(log.writes), sort(b.node.cells()));
    rec.check(got == want, "layout", || {
        let d = got.iter().zip(&want).find(|(a, b)| a != b);
        format!("{}: {} writes, expected {}; first difference {:?}", show, got.len(), want.len(), d)
    });
    let t = b.comp.trace_table(&b.wit);
    let mut full = vec![vec![Fe::ZERO; rows]; cols];
    for (r, c, v) in &want {
        full[*c][*r] = *v;
    }
    rec.check(
        t.num_rows() == rows && t.num_columns() == cols && (0..rows).all(|r| (0..cols).all(|c| fe(&t[(r, c)]) == full[c][r])),
        "trace_table",
        || show.clone(),
    );
    // Constraints
    let claim = b.comp.claim(&b.wit);
    let want: Vec<Fe> = b
        .node
        .elements()
        .iter()
        .map(|e| if let Node::Leaf(_, t, cell, _) = e { t[cell.0][cell.1] } else { unreachable!() })
        .collect();
    rec.check(claim.values() == want, "claim of the composition", || show.clone());
    let g = b.comp.trace_generator();
    rec.check(g == R::Constant(el(Fe::root(rows))), "trace_generator", || format!("{}: {:?}", show, g));
    let expressions = b.comp.constraints(&claim);
    rec.check(expressions.len() == b.node.count(), "constraint count", || {
        format!("{}: {} instead of {}", show, expressions.len(), b.node.count())
    });
    let bad = b.node.bad();
    assert!(bad.is_empty(), "generator: honest trace violates {:?}", bad);
    let r = b.comp.check(&b.wit);
    rec.check(r == Ok(()), "honest trace fails the composed constraints", || format!("{}: {:?}", show, r));
    if expressions.is_empty() || cols == 0 {
        return;
    }
    let cons = Constraints::from_expressions((rows, cols), vec![], expressions).unwrap();
    // Corrupted cells are reported where the element's oracle says
    for round in 0..12 {
        let mut node = b.node.clone();
        let mut leaves = node.leaves();
        if leaves.is_empty() {
            break;
        }
        for _ in 0..rng.range(1, if round < 9 { 1 } else { 3 }) {
            let l = rng.below(leaves.len());
            let t = &mut leaves[l];
            let (j, r) = (rng.below(t.len()), rng.below(t[0].len()));
            let d = rnz(rng);
            t[j][r] = t[j][r].add(d);
        }
        let bad = node.bad();
        let mut table = TraceTable::new(rows, cols);
        for (r, c, v) in node.cells() {
            table[(r, c)] = el(v);
        }
        let want = bad.first().map_or(Ok(()), |v| Err(*v));
        let got = check_constraints(&cons, &table);
        rec.eval(&(&show, hash_of(&node.cells())));
        rec.event(if bad.is_empty() { "corrupted cell is unconstrained" } else { "corrupted cell violates" });
        rec.check(got == want, "composed constraints disagree with the element's", || {
            let cons: Vec<String> = node.first().cons.iter().map(|c| c.ex.show()).collect();
            format!("{}: reported {:?}, expected {:?} of {:?}; first element {:?}", show, got, want, bad, cons)
        });
    }
    // A different claim is a different statement, for exactly the element it belongs to
    let mut wrong = None;
    for i in 0..want.len() {
        let mut node = b.node.clone();
        let by = rnz(rng);
        let mut els = node.elements();
        if let Node::Leaf(case, _, cell, bound) = &mut *els[i] {
            if *bound {
                *case.cons.last_mut().unwrap() = binding(case.sys.n, *cell, want[i].add(by));
                wrong = Some((i, by));
            }
        }
        let bad = node.bad();
        let mut other = b.comp.claim(&b.wit);
        other.change(i, by);
        let cons = Constraints::from_expressions((rows, cols), vec![], b.comp.constraints(&other)).unwrap();
        let got = check_constraints(&cons, &t);
        rec.eval(&(&show, i, hash_of(&want), by.0));
        rec.event(if bad.is_empty() { "changed claim binds nothing" } else { "changed claim is violated" });
        rec.check(got == bad.first().map_or(Ok(()), |v| Err(*v)), "constraints for a changed claim", || {
            format!("{}: claim {} changed, reported {:?}, expected {:?}", show, i, got, bad)
        });
    }
    // Cells that no element owns are unconstrained
    let owned: BTreeSet<(usize, usize)> = b.node.cells().iter().map(|c| (c.0, c.1)).collect();
    let mut table = b.comp.trace_table(&b.wit);
    let mut any = false;
    for r in 0..rows {
        for c in 0..cols {
            if !owned.contains(&(r, c)) {
                table[(r, c)] = el(rfe(rng));
                any = true;
            }
        }
    }
    if any {
        rec.event("unowned cells randomised");
        let got = check_constraints(&cons, &table);
        rec.check(got == Ok(()), "cells outside of the elements are constrained", || format!("{}: {:?}", show, got));
    }
    // Precondition of combining constraints (long periods times Vertical can exceed it)
    let target = cons.degree() * rows - 1;
    let fits = cons.degree() > 0 && cons.degree() <= 16 && cons.expressions().iter().all(|e| {
        let (a, b) = e.degree(rows - 1);
        a <= target + b
    });
    if prove && rows > 1 && fits {
        match b.comp.prove(&b.wit) {
            Ok(p) => {
                rec.event("composition proven");
                let v = b.comp.verify(&claim, &p);
                rec.check(v.is_ok(), "composed proof rejected", || format!("{}: {:?}", show, v));
                if let Some((i, by)) = wrong {
                    let mut other = b.comp.claim(&b.wit);
                    other.change(i, by);
                    rec.event("proof offered for another claim");
                    let v = b.comp.verify(&other, &p);
                    rec.check(v.is_err(), "proof accepted for another claim", || format!("{}: claim {}", show, i));
                }
            }
            Err(e) => rec.violation("composition cannot be proven", format!("{}: {:?}", show, e)),
        }
    }
}

fn compose(rng: &mut Rng, ix: u64, rec: &mut Record, prove: bool) {
    let log = rng.range(1, 3);
    let k = rng.below(4);
    let size = 1 << rng.below(3);
    let kind = ix % 14;
    let local = matches!(kind, 2 | 5 | 6 | 7 | 8 | 9 | 11);
    let e = element(rng, log, local);
    match kind {
        0 => {
            let a = leaf(rng, &e);
            judge(rng, rec, fold(a, k), prove)
        }
        1 => {
            let f = element(rng, log, false);
            let (a, b) = (leaf(rng, &e), leaf(rng, &f));
            judge(rng, rec, hor(a, b), prove)
        }
        2 => {
            let v = (0..size).map(|_| stacked(rng, &e)).collect();
            judge(rng, rec, ver(v), prove)
        }
        3 => {
            let k2 = rng.below(3);
            let a = leaf(rng, &e);
            judge(rng, rec, fold(fold(a, k), k2), prove)
        }
        4 => {
            let f = element(rng, log, false);
            let (a, b) = (leaf(rng, &e), leaf(rng, &f));
            judge(rng, rec, fold(hor(a, b), k), prove)
        }
        5 => {
            let v = (0..size).map(|_| { let a = stacked(rng, &e); fold(a, k) }).collect();
            judge(rng, rec, ver(v), prove)
        }
        6 => {
            let v = (0..size).map(|_| stacked(rng, &e)).collect();
            judge(rng, rec, fold(ver(v), k), prove)
        }
        7 => {
            let f = element(rng, log, true);
            let v = (0..size)
                .map(|_| {
                    let (a, b) = (stacked(rng, &e), stacked(rng, &f));
                    hor(a, b)
                })
                .collect();
            judge(rng, rec, ver(v), prove)
        }
        8 => {
            // Different shapes side by side
            let k = 1 << rng.below(3);
            let f = element(rng, log, false);
            let v = (0..k).map(|_| stacked(rng, &e)).collect();
            let b = leaf(rng, &f);
            judge(rng, rec, hor(ver(v), fold(b, (k as usize).trailing_zeros() as usize)), prove)
        }
        9 => {
            let v = (0..2).map(|_| { let w = (0..size).map(|_| stacked(rng, &e)).collect(); ver(w) }).collect();
            judge(rng, rec, ver(v), prove)
        }
        10 => {
            let c = rng.below(3);
            let a = leaf(rng, &e);
            let z = empty(e.sys.n, c);
            judge(rng, rec, hor(z, a), prove)
        }
        11 => {
            let f = element(rng, log + 1, false);
            let v = (0..2)
                .map(|_| { let a = stacked(rng, &e); fold(a, k) })
                .collect::<Vec<_>>();
            let b = leaf(rng, &f);
            judge(rng, rec, hor(fold(b, k), ver(v)), prove)
        }
        12 => {
            let (f, g) = (element(rng, log, false), element(rng, log, false));
            let (a, b, c) = (leaf(rng, &e), leaf(rng, &f), leaf(rng, &g));
            judge(rng, rec, hor(a, hor(b, c)), prove)
        }
        _ => {
            let c = rng.range(1, 3);
            let a = leaf(rng, &e);
            let z = empty(e.sys.n, c);
            judge(rng, rec, fold(hor(a, z), k), prove)
        }
    }
}

/// The library's own test component against its documented sequence.
fn sequence(rng: &mut Rng, rec: &mut Record, prove: bool) {
    let rows = 1_usize << rng.range(usize::from(prove), 5);
    let cols = rng.range(1, 8);
    let (seed, claim, wit) = (rfe(rng), rfe(rng), rfe(rng));
    let mut x = vec![seed, wit];
    for i in 0..rows * cols {
        x.push(x[i].mul(x[i + 1]).add(claim));
    }
    let k = rng.below(4);
    let t = Test::new(rows, cols, &el(seed));
    let w = (el(claim), el(wit));
    let table = t.trace_table(&w);
    rec.eval(&("sequence", rows, cols, k, seed.0));
    rec.event("test component");
    let ok = (0..rows).all(|r| (0..cols).all(|c| fe(&table[(r, c)]) == x[r * cols + c]));
    rec.check(ok, "Test component layout", || format!("{}x{}", rows, cols));
    let f = Fold::new(t.clone(), k);
    // map_up names the cell of every element cell
    let ft = f.trace_table(&w);
    let mut seen = BTreeSet::new();
    for r in 0..rows {
        for c in 0..cols {
            let up = f.map_up(r, c);
            rec.check(seen.insert(up), "map_up is not injective", || format!("{:?}", up));
            let ok = up.0 < ft.num_rows() && up.1 < ft.num_columns() && ft[(up.0, up.1)] == table[(r, c)];
            rec.check(ok, "map_up", || format!("({}, {}) -> {:?} fold {}", r, c, up, k));
        }
    }
    // Corrupt one cell: some constraint must notice, unless nothing constrains it
    let cons = Constraints::from_expressions((rows << k, f.num_polynomials()), vec![], f.constraints(&el(claim))).unwrap();
    let i = rng.below(rows * cols);
    let mut y = x[..rows * cols].to_vec();
    y[i] = y[i].add(rnz(rng));
    let holds = y[0] == seed && (2..y.len()).all(|i| y[i] == y[i - 2].mul(y[i - 1]).add(claim));
    let mut bt = TraceTable::new(rows << k, f.num_polynomials());
    for (i, v) in y.iter().enumerate() {
        bt[f.map_up(i / cols, i % cols)] = el(*v);
    }
    let got = check_constraints(&cons, &bt);
    rec.event(if holds { "test component: change allowed" } else { "test component: change forbidden" });
    rec.check(got.is_ok() == holds, "Test component constraints", || {
        format!("{}x{} fold {}: cell {} changed, checker {:?}, sequence valid {}", rows, cols, k, i, got, holds)
    });
    if prove && rows << k > 1 {
        let p = f.prove(&w).expect("provable");
        let v = f.verify(&el(claim), &p);
        rec.check(v.is_ok(), "composed proof rejected", || format!("Test {}x{} fold {}: {:?}", rows, cols, k, v));
        let other = f.verify(&el(claim.add(Fe::one())), &p);
        let depends = rows * cols >= 3;
        rec.check(other.is_err() == depends, "claim does not matter", || format!("Test {}x{} fold {}", rows, cols, k));
        rec.event("composition proven");
    }
}

fn c09(ctx: &Ctx) {
    ctx.cases("compose", 8, ctx.n(1_400, 42_000), |rng, ix, rec| compose(rng, ix, rec, false));
    ctx.cases("compose-prove", 4, ctx.n(42, 1_400), |rng, ix, rec| compose(rng, ix, rec, true));
    ctx.cases("sequence", 8, ctx.n(500, 10_000), |rng, _, rec| sequence(rng, rec, false));
    ctx.cases("sequence-prove", 4, ctx.n(30, 600), |rng, _, rec| sequence(rng, rec, true));
}
