//! C28 generated contracts.
use super::{
    gen::{rfe, system, Opt},
    Check,
};
use crate::{
    mon::{guard, Ctx, Record, Rng},
    refs::{
        big::Big,
        field::{base, horner, Fe},
        stark::{fpow, Ex, System},
        yul::{parse, word, Machine},
    },
};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
};
use zkp_stark::{generate, Constraints, RationalExpression as R};

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C28",
        run:     c28,
        rule:    "a case is one constraint system for which contracts are generated, evaluated at several out-of-domain points; distinct by system and point",
        assumes: &[
            "systems within what the generator supports: non-negative offsets, no inverse inside an inverse, periodic polynomials in powers of X",
            "the assembly is executed by an interpreter written for this check, following the EVM's definition of the instructions",
        ],
    });
}

const NAMES: [&str; 16] = [
    "claim_a", "claim_b", "claim_c", "claim_d", "claim_e", "claim_f", "claim_g", "claim_h", "claim_i", "claim_j", "claim_k", "claim_l",
    "claim_m", "claim_n", "claim_o", "claim_p",
];

/// Limits an expression to what the generator supports.
fn limit(rng: &mut Rng, e: &Ex, inside: bool, n: usize) -> Ex {
    let mut b = |a: &Ex, inside: bool| Box::new(limit(rng, a, inside, n));
    match e {
        Ex::T(c, o) => Ex::T(*c, o.abs()),
        Ex::X => {
            if !inside && rng.chance(1, 12) {
                Ex::X.exp(*rng.pick(&[2, 4, 5, 7, 15, 16, 17, 31, 100]))
            } else {
                Ex::X
            }
        }
        Ex::C(_) => e.clone(),
        Ex::Poly(p, a) => {
            let k = a.degree(1, 0).0;
            Ex::Poly(
                p.clone(),
                Box::new(match rng.below(4) {
                    0 if k == 1 => Ex::X,
                    1 if k % 2 == 0 && k > 0 => Ex::X.exp(k / 2).exp(2),
                    2 => Ex::X.exp(1).exp(k),
                    _ => Ex::X.exp(k),
                }),
            )
        }
        Ex::Claim(i, k, a) => {
            let d = a.degree(1, 0).0;
            Ex::Claim(*i, *k, Box::new(if d == 1 { Ex::X } else { Ex::X.exp(d) }))
        }
        Ex::Add(x, y) => {
            let x = b(x, inside);
            Ex::Add(x, b(y, inside))
        }
        Ex::Mul(x, y) => {
            let x = b(x, inside);
            Ex::Mul(x, b(y, inside))
        }
        Ex::Neg(a) => Ex::Neg(b(a, inside)),
        Ex::Exp(a, k) => Ex::Exp(b(a, inside), *k),
        Ex::Inv(a) => match a.as_ref() {
            Ex::Inv(x) => *b(x, inside),
            Ex::C(v) if inside => Ex::C(v.inv().unwrap_or(Fe::one())),
            _ if inside => *b(a, true),
            _ => Ex::Inv(b(a, true)),
        },
    }
}

fn named(e: &Ex, claims: &mut Vec<Ex>) -> R {
    let mut b = |a: &Ex| Box::new(named(a, claims));
    match e {
        Ex::Add(x, y) => {
            let x = b(x);
            R::Add(x, b(y))
        }
        Ex::Mul(x, y) => {
            let x = b(x);
            R::Mul(x, b(y))
        }
        Ex::Neg(a) => R::Neg(b(a)),
        Ex::Inv(a) => R::Inv(b(a)),
        Ex::Exp(a, n) => R::Exp(b(a), *n),
        Ex::Poly(p, a) => R::Polynomial(super::gen::dense(p), b(a)),
        Ex::Claim(i, k, a) => {
            let inner = b(a);
            let at = claims.iter().position(|c| c == e).unwrap_or_else(|| {
                claims.push(e.clone());
                claims.len() - 1
            });
            R::ClaimPolynomial(*i, *k, inner, Some(NAMES[at]))
        }
        o => super::gen::to_r(o),
    }
}

struct Scratch(PathBuf);

impl Scratch {
    fn new(seed: u64) -> Scratch {
        let p = std::env::temp_dir().join(format!("ozmon-sol-{}-{:x}", std::process::id(), seed));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn plain(v: Fe) -> Big {
    base().dec(&v.0)
}

fn after<'a>(text: &'a str, key: &str) -> Option<&'a str> {
    text.find(key).map(|i| text[i + key.len()..].trim_start())
}

fn number(s: &str) -> Option<usize> {
    let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}

fn read(dir: &Path, name: &str) -> Result<String, String> {
    std::fs::read_to_string(dir.join(name)).map_err(|e| format!("{}: {}", name, e))
}

/// Numbers assigned in `result[i] = v;` within one function.
fn layout(text: &str, function: &str) -> Option<(usize, Vec<usize>)> {
    let body = after(text, function)?;
    let body = &body[..body.find("return result").unwrap_or(body.len())];
    let size = number(after(body, "new uint256[](")?)?;
    let mut v: BTreeMap<usize, usize> = BTreeMap::new();
    let mut rest = body;
    while let Some(r) = after(rest, "result[") {
        let i = number(r)?;
        let r = after(r, "] =")?;
        v.insert(i, number(r)?);
        rest = r;
    }
    if v.keys().copied().eq(0..v.len()) {
        Some((size, v.into_iter().map(|x| x.1).collect()))
    } else {
        None
    }
}

fn contracts(rng: &mut Rng, rec: &mut Record, s: &System, dir: &Path) -> Result<(), (&'static str, String)> {
    let bad = |k: &'static str| move |e: String| (k, e);
    let none = |k: &'static str, what: &str| (k, format!("{} not found", what));
    let mut claims = vec![];
    let exprs: Vec<R> = s.cons.iter().map(|e| named(e, &mut claims)).collect();
    let mut con = Constraints::from_expressions((s.n, s.cols), s.seed.clone(), exprs).expect("valid size");
    con.blowup = s.blowup;
    con.pow_bits = s.pow;
    con.num_queries = s.queries;
    match guard(|| generate(&con, dir.to_str().unwrap(), "Sys")) {
        Ok(Ok(())) => {}
        o => return Err(("generator fails", format!("{:?}", o))),
    }
    rec.event("systems generated");

    // Trace layout
    let t = read(dir, "SysTrace.sol").map_err(bad("trace contract"))?;
    let args = s.args();
    let rows: BTreeSet<usize> = args.iter().map(|a| a.1 as usize).collect();
    let rows: Vec<usize> = rows.into_iter().collect();
    let head = after(&t, "DefaultConstraintSystem(").ok_or_else(|| none("trace contract", "constructor"))?;
    let nums: Vec<Option<usize>> = head[..head.find(')').unwrap_or(0)].split(',').map(|x| number(x.trim())).collect();
    let want: Vec<Option<usize>> = [s.parts(), rows.len(), s.cols, s.blowup].iter().map(|x| Some(*x)).collect();
    if nums != want {
        return Err(("trace contract parameters", format!("{:?} should be {:?}", nums, want)));
    }
    let (size, lay) = layout(&t, "layout_col_major").ok_or_else(|| none("trace contract", "column layout"))?;
    let want: Vec<usize> =
        args.iter().flat_map(|(c, o)| vec![32 * c, 32 * rows.iter().position(|r| *r == *o as usize).unwrap()]).collect();
    if lay != want || size != want.len() {
        return Err(("column layout", format!("{} {:?} should be {:?}", size, lay, want)));
    }
    let (size, lay) = layout(&t, "layout_rows").ok_or_else(|| none("trace contract", "row layout"))?;
    if lay != rows || size != rows.len() {
        return Err(("row layout", format!("{} {:?} should be {:?}", size, lay, rows)));
    }
    rec.event("layouts compared");

    // Wrapper
    let w = read(dir, "Sys.sol").map_err(bad("wrapper"))?;
    let log2 = |v: usize| v.trailing_zeros() as usize;
    for (key, want) in [
        ("uint8 log_trace_length =", log2(s.n)),
        ("number_of_constraints:", s.cons.len()),
        ("log_blowup:", log2(s.blowup)),
        ("pow_bits:", s.pow),
        ("number_of_queries:", s.queries),
    ] {
        let got = after(&w, key).and_then(number);
        if got != Some(want) {
            return Err(("wrapper parameters", format!("{} {:?} should be {}", key, got, want)));
        }
    }
    let total = after(&w, "call_context = new uint256[](").and_then(number).ok_or_else(|| none("wrapper", "context size"))?;
    let sent = after(&w, "add(call_context, 0x20),").and_then(number).ok_or_else(|| none("wrapper", "size of the call"))?;
    let coef_at = after(&w, "uint256 current_index =").and_then(number).ok_or_else(|| none("wrapper", "coefficient offset"))?;
    let mut claim_at: BTreeMap<usize, usize> = BTreeMap::new();
    // (index, contract, exponent)
    let mut periodic: Vec<(usize, usize, usize)> = vec![];
    for line in w.lines() {
        let line = line.trim();
        if let Some(r) = after(line, "call_context[1 +") {
            let i = number(r).ok_or_else(|| none("wrapper", "public input"))?;
            let name = after(r, "This public input is named:").map(|x| x.trim().to_owned());
            let k = NAMES.iter().position(|n| Some(*n) == name.as_deref()).ok_or_else(|| none("wrapper", "public input name"))?;
            claim_at.insert(1 + i, k);
        } else if let Some(r) = after(line, "call_context[") {
            if let (Some(i), Some(k), Some(e)) =
                (number(r), after(r, "periodic_col").and_then(number), after(r, ".fpow(").and_then(number))
            {
                periodic.push((i, k, e));
            }
        }
    }
    if claim_at.len() != claims.len() {
        return Err(("public inputs", format!("{} should be {}", claim_at.len(), claims.len())));
    }
    if sent != 32 * total {
        return Err(("wrapper call size", format!("{} bytes sent of a context of {} words", sent, total)));
    }
    let code = parse(&read(dir, "SysConstraintPoly.sol").map_err(bad("constraint contract"))?).map_err(bad("constraint contract"))?;
    let mut columns = BTreeMap::new();
    for (_, k, _) in &periodic {
        if !columns.contains_key(k) {
            let p = parse(&read(dir, &format!("periodic{}.sol", k)).map_err(bad("periodic contract"))?).map_err(bad("periodic contract"))?;
            columns.insert(*k, p);
        }
    }
    rec.events_n("periodic contracts", columns.len() as u64);
    rec.events_n("public inputs", claims.len() as u64);

    // Evaluate
    for round in 0..3 {
        let x = if round == 0 { Fe::int(2 + rng.u64() % 1000) } else { rfe(rng).add(Fe::int(0x1_0000_0007)) };
        let values: BTreeMap<(usize, isize), Fe> = args.iter().map(|a| (*a, rfe(rng))).collect();
        let coef: Vec<Fe> = (0..2 * s.cons.len()).map(|_| rfe(rng)).collect();
        let want = match s.combined(&coef, x, &|a, b| values[&(a, b)]) {
            Some(v) => v,
            None => continue,
        };
        let mut ctx: BTreeMap<usize, Big> = BTreeMap::new();
        let mut put = |i: usize, v: Big| -> Result<(), (&'static str, String)> {
            if i >= total || ctx.insert(i, v).is_some() {
                return Err(("call context", format!("word {} of {} outside or used twice", i, total)));
            }
            Ok(())
        };
        put(0, plain(x))?;
        for (i, k) in &claim_at {
            let v = claims[*k].eval(x, &|_, _| Fe::ZERO, &s.claims).unwrap();
            put(*i, plain(v))?;
        }
        for (i, k, e) in &periodic {
            let xe = fpow(x, *e);
            let vars = [("x".to_owned(), plain(xe)), ("y".to_owned(), Big::zero())].iter().cloned().collect();
            let mut m = Machine::new(vec![]);
            let (_, out) = m.run(&columns[k], vars).map_err(bad("periodic contract fails"))?;
            put(*i, out["y"].clone())?;
            rec.event("periodic evaluations");
        }
        for (k, v) in coef.iter().enumerate() {
            put(coef_at + k, plain(*v))?;
        }
        for (k, a) in args.iter().enumerate() {
            put(coef_at + coef.len() + k, plain(values[a]))?;
        }
        if ctx.len() != total {
            return Err(("call context", format!("{} words filled of {}", ctx.len(), total)));
        }
        let data: Vec<u8> = ctx.values().flat_map(|v| word(v)).collect();
        let mut m = Machine::new(data);
        let (out, _) = m.run(&code, BTreeMap::new()).map_err(bad("constraint contract fails"))?;
        for (k, v) in &m.stats {
            rec.events_n(k, *v);
        }
        let out = out.ok_or_else(|| ("constraint contract fails", "returns nothing".to_owned()))?;
        rec.event("points evaluated");
        rec.eval(&(s.show(), x.0, coef.iter().map(|v| v.0).collect::<Vec<_>>()));
        if out != word(&plain(want)) {
            return Err(("constraint value", format!("{} should be {}", crate::conv::hex(&out), plain(want).to_hex())));
        }
    }
    // Each polynomial, once more, on its own
    let mut polys = vec![];
    for e in &s.cons {
        collect(e, &mut polys);
    }
    rec.events_n("distinct periodic polynomials", polys.len() as u64);
    if !polys.is_empty() && periodic.is_empty() {
        return Err(("periodic contract", "none generated".into()));
    }
    let x = rfe(rng).add(Fe::int(11));
    for (k, p) in &columns {
        let vars = [("x".to_owned(), plain(x)), ("y".to_owned(), Big::zero())].iter().cloned().collect();
        let (_, out) = Machine::new(vec![]).run(p, vars).map_err(bad("periodic contract fails"))?;
        if !polys.iter().any(|q| plain(horner(q, x)) == out["y"]) {
            return Err(("periodic contract", format!("periodic{} is none of the polynomials", k)));
        }
    }
    Ok(())
}

fn collect(e: &Ex, out: &mut Vec<Vec<Fe>>) {
    match e {
        Ex::Poly(p, _) => {
            if !out.contains(p) {
                out.push(p.clone());
            }
        }
        Ex::Add(a, b) | Ex::Mul(a, b) => {
            collect(a, out);
            collect(b, out);
        }
        Ex::Neg(a) | Ex::Inv(a) | Ex::Exp(a, _) | Ex::Claim(_, _, a) => collect(a, out),
        _ => {}
    }
}

fn supported(rng: &mut Rng, o: &Opt) -> System {
    loop {
        let mut s = system(rng, o).sys;
        s.cons = s.cons.iter().map(|e| limit(rng, e, false, s.n)).collect();
        // Preconditions of combining
        if s.cons.iter().any(|e| {
            let (a, b) = e.degree(0, 1);
            a < b
        }) {
            continue;
        }
        let d = s.degree();
        if d == 0 || d > 200 {
            continue;
        }
        let target = d * s.n - 1;
        if s.cons.iter().any(|e| {
            let (a, b) = e.degree(1, s.n - 1);
            a > target + b
        }) {
            continue;
        }
        s.pow = rng.below(40);
        s.queries = rng.range(1, 60);
        s.blowup = 1 << rng.range(1, 6);
        return s;
    }
}

fn case(rng: &mut Rng, rec: &mut Record, o: &Opt) {
    let s = supported(rng, o);
    let dir = Scratch::new(rng.u64());
    rec.eval(&s.show());
    rec.event(&format!("degree {}", s.degree()));
    rec.sample("system", || s.show());
    if let Err((k, e)) = contracts(rng, rec, &s, &dir.0) {
        rec.violation(k, format!("{} on {}", e, s.show()));
    }
}

fn c28(ctx: &Ctx) {
    ctx.cases("small systems", 8, ctx.n(500, 10000), |rng, _, rec| {
        case(rng, rec, &Opt { far: false, ..Opt::small() });
    });
    ctx.cases("far offsets", 8, ctx.n(120, 2400), |rng, _, rec| {
        case(rng, rec, &Opt { far: true, ..Opt::small() });
    });
    ctx.cases("many columns", 8, ctx.n(60, 1200), |rng, _, rec| {
        case(rng, rec, &Opt { cols: 12, ..Opt::small() });
    });
    ctx.cases("long traces", 8, ctx.n(60, 1200), |rng, _, rec| {
        case(rng, rec, &Opt { log_n: (5, 11), max_dom: 1 << 14, ..Opt::small() });
    });
}
