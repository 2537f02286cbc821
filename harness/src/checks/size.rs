//! C26 reported sizes and security, C27 export of proofs.
use super::{
    gen::{constraints, params, system, table, Case, Opt},
    Check,
};
use crate::{
    conv::hex,
    mon::{guard, Ctx, Record, Rng},
    refs::{
        merkle::proof_len,
        stark::{prove as ref_prove, Faults, System},
    },
};
use std::collections::BTreeSet;
use zkp_stark::{proof_serialize, prove, Proof};

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C26",
        run:     c26,
        rule:    "a case is one system and parameter set, either with a real proof or with a query pattern whose wire size is computed; distinct by system, parameters and pattern",
        assumes: &["the wire size computation follows the proof format, confirmed on each real proof by equality"],
    });
    v.push(Check {
        id:      "C27",
        run:     c27,
        rule:    "a case is one proof given to the exporter; distinct by proof bytes",
        assumes: &["the reference prover names the messages of a proof (its bytes equal the library's)"],
    });
}

/// Proof size for a set of query positions (sorted, duplicates allowed).
fn wire_size(s: &System, q: &[usize]) -> usize {
    let dom = s.domain();
    let mut words = 2 + s.args().len() + s.parts() + s.fri.len();
    words += s.n >> s.fri.iter().sum::<usize>();
    words += q.len() * (s.cols + s.parts());
    words += 2 * proof_len(dom, q);
    let mut prev: BTreeSet<usize> = q.iter().copied().collect();
    let mut len = dom;
    for k in &s.fri {
        let next: BTreeSet<usize> = prev.iter().map(|i| i >> k).collect();
        words += (next.len() << k) - prev.len();
        len >>= k;
        let idx: Vec<usize> = next.iter().copied().collect();
        words += proof_len(len, &idx);
        prev = next;
    }
    32 * words + 8
}

fn patterns(rng: &mut Rng, s: &System) -> Vec<Vec<usize>> {
    let dom = s.domain();
    let q = s.queries;
    let mut out = vec![];
    // Evenly spread: the fewest shared nodes
    out.push((0..q).map(|i| i * dom / q).collect::<Vec<_>>());
    out.push((0..q).map(|i| (i * dom / q + dom / 2 + 1) % dom).collect());
    // bit reversed counter
    out.push((0..q).map(|i| crate::refs::field::bitrev(dom, i % dom)).collect());
    out.push(vec![dom - 1; q]);
    out.push((0..q).map(|i| i % dom).collect());
    for _ in 0..3 {
        out.push((0..q).map(|_| rng.below(dom)).collect());
    }
    for v in &mut out {
        v.sort_unstable();
    }
    out
}

fn reported(rec: &mut Record, s: &System) -> Option<usize> {
    let con = constraints(s);
    match guard(|| con.max_proof_size()) {
        Err(p) => {
            rec.violation("max_proof_size panics", format!("{} on {}", p, s.show()));
            None
        }
        Ok(m) => Some(m),
    }
}

fn bound(rec: &mut Record, s: &System, size: usize, m: Option<usize>, what: &str) {
    if let Some(m) = m {
        rec.event("bounds compared");
        rec.check(size <= m, "proof larger than the bound", || {
            format!("{} bytes ({}), reported maximum {} on {}", size, what, m, s.show())
        });
    }
}

fn formula(rec: &mut Record, s: &System) {
    let con = constraints(s);
    let mut log = 0;
    while (1 << log) < s.blowup {
        log += 1;
    }
    let want = log * (s.queries / 2) + s.pow;
    rec.eval(&("security", s.blowup, s.queries, s.pow));
    match guard(|| con.security_bits()) {
        Err(p) => rec.violation("security_bits panics", format!("{} on {}", p, s.show())),
        Ok(b) => {
            rec.event("security levels compared");
            rec.check(b == want, "security level", || format!("reported {} should be {} for blowup {} queries {} pow {}", b, want, s.blowup, s.queries, s.pow));
        }
    }
}

fn c26(ctx: &Ctx) {
    ctx.cases("real proofs", 4, ctx.n(400, 8000), |rng, _, rec| {
        let case = system(rng, &Opt { queries: 24, ..Opt::small() });
        let s = &case.sys;
        let con = constraints(s);
        rec.eval(&(s.show(), "real"));
        if let Ok(Ok(p)) = guard(|| prove(&con, &table(&case.cols))) {
            rec.event("proofs");
            let size = p.as_bytes().len();
            let m = reported(rec, s);
            bound(rec, s, size, m, "real proof");
            if let Some(m) = ref_prove(s, &case.cols, &Faults::default()) {
                if m.bytes.len() == size {
                    // Confirms the size computation used below
                    assert_eq!(wire_size(s, &m.queries), size, "size computation");
                    rec.event("size computation confirmed");
                }
            }
        }
        formula(rec, s);
    });
    ctx.cases("query patterns", 8, ctx.n(1500, 60000), |rng, _, rec| {
        let o = Opt { log_n: (1, 9), max_dom: 1 << 14, cols: 6, ..Opt::small() };
        let mut case = system(rng, &o);
        for _ in 0..4 {
            params(rng, &mut case.sys, &o);
            case.sys.queries = *rng.pick(&[1, 2, 3, 4, 7, 8, 13, 16, 31, 45, 64, 100, 257]);
            let m = reported(rec, &case.sys);
            let name = case.sys.show();
            for q in patterns(rng, &case.sys) {
                let size = wire_size(&case.sys, &q);
                rec.eval(&(&name, &q));
                bound(rec, &case.sys, size, m, "computed");
            }
        }
    });
    // Larger tables: expressions only, no proof
    ctx.cases("long traces", 8, ctx.n(200, 4000), |rng, _, rec| {
        let mut case = system(rng, &Opt { log_n: (2, 5), ..Opt::small() });
        // Only the number of rows matters for sizes; degrees scale with it
        let log_n = rng.range(10, 24);
        case.sys.n = 1 << log_n;
        case.sys.blowup = case.sys.parts().max(2) << rng.below(4);
        case.sys.fri = super::gen::fri_layout(rng, log_n);
        case.sys.queries = rng.range(1, 120);
        let q = patterns(rng, &case.sys);
        let m = reported(rec, &case.sys);
        let name = case.sys.show();
        for q in q {
            let size = wire_size(&case.sys, &q);
            rec.eval(&(&name, &q));
            bound(rec, &case.sys, size, m, "computed");
        }
    });
    ctx.cases("security level", 4, ctx.n(4000, 100000), |rng, _, rec| {
        let mut case = SMALL.with(|s| s.borrow_mut().get_or_insert_with(|| system(rng, &Opt::tiny())).clone());
        case.sys.blowup = 1 << rng.range(0, 20);
        case.sys.queries = if rng.chance(1, 4) { rng.below(4) } else { rng.below(300) };
        case.sys.pow = rng.below(64);
        formula(rec, &case.sys);
    });
}

thread_local! {
    static SMALL: std::cell::RefCell<Option<Case>> = const { std::cell::RefCell::new(None) };
}

const KEYS: [&str; 13] = [
    "trace_commitment",
    "constraint_commitment",
    "trace_oods_values",
    "constraint_oods_values",
    "fri_commitments",
    "last_layer_coefficients",
    "pow_nonce",
    "trace_values",
    "trace_decommitment",
    "constraint_values",
    "constraint_decommitment",
    "fri_values",
    "fri_decommitments",
];

/// What the export should contain.
fn expected(m: &crate::refs::stark::Made, layers: usize) -> serde_json::Value {
    use serde_json::Value;
    let h = |a: usize, n: usize| Value::String(format!("0x{}", hex(&m.bytes[a..a + n]).trim_start_matches("0x")));
    let mut one = serde_json::Map::new();
    let mut lists: Vec<(&str, Vec<Value>)> = KEYS.iter().map(|k| (*k, vec![])).collect();
    let mut fv = vec![vec![]; layers];
    let mut fh = vec![vec![]; layers];
    for (name, a, n) in &m.parts {
        let key = if name == "trace_root" {
            one.insert("trace_commitment".into(), h(*a, *n));
            continue;
        } else if name == "constraint_root" {
            one.insert("constraint_commitment".into(), h(*a, *n));
            continue;
        } else if name == "nonce" {
            one.insert("pow_nonce".into(), h(*a, *n));
            continue;
        } else if name.starts_with("oods_trace") {
            2
        } else if name.starts_with("oods_constraint") {
            3
        } else if name.starts_with("fri_root") {
            4
        } else if name == "last_layer" {
            5
        } else if name.starts_with("trace_row") {
            7
        } else if name.starts_with("trace_hash") {
            8
        } else if name.starts_with("constraint_row") {
            9
        } else if name.starts_with("constraint_hash") {
            10
        } else {
            let inner = name.split('[').nth(1).unwrap().trim_end_matches(']');
            let k: usize = inner.parse().unwrap();
            let l = if name.starts_with("fri_value") { &mut fv } else { &mut fh };
            l[k].push(h(*a, *n));
            continue;
        };
        for k in 0..n / 32 {
            lists[key].1.push(h(a + 32 * k, 32));
        }
    }
    for (i, (k, v)) in lists.into_iter().enumerate() {
        if ![0, 1, 6, 11, 12].contains(&i) {
            one.insert(k.into(), Value::Array(v));
        }
    }
    one.insert("fri_values".into(), fv.into_iter().map(Value::Array).collect());
    one.insert("fri_decommitments".into(), fh.into_iter().map(Value::Array).collect());
    Value::Object(one)
}

/// Top level keys in textual order; None when one occurs twice.
fn key_order(text: &str) -> Vec<String> {
    text.split('"').skip(1).step_by(2).filter(|s| !s.starts_with("0x")).map(|s| s.to_owned()).collect()
}

fn export(rec: &mut Record, case: &Case) {
    let s = &case.sys;
    let con = constraints(s);
    let Some(m) = ref_prove(s, &case.cols, &Faults::default()) else { return };
    rec.eval(&(s.show(), &m.bytes));
    let mut text = String::new();
    let p = Proof::from_bytes(m.bytes.clone());
    match guard(|| proof_serialize(&con, &p, &mut text)) {
        Ok(Ok(())) => {}
        o => {
            rec.violation("export of a valid proof fails", format!("{:?} on {}", o, s.show()));
            return;
        }
    }
    rec.event("exports");
    rec.events_n("messages exported", m.parts.len() as u64);
    rec.sample("export", || format!("{} characters for {}", text.len(), s.show()));
    let v: serde_json::Value = match serde_json::from_str(&format!("{{{}}}", text)) {
        Ok(v) => v,
        Err(e) => {
            rec.violation("export is not JSON", format!("{} on {}: {}", e, s.show(), text));
            return;
        }
    };
    let want = expected(&m, s.fri.len());
    for k in KEYS {
        let empty = want[k].as_array().map_or(false, |a| a.is_empty() || a.iter().any(|x| x == &serde_json::json!([])));
        if empty {
            rec.event(&format!("empty {}", k));
        }
        rec.check(v[k] == want[k], &format!("exported {}", k), || format!("{} should be {} on {}", v[k], want[k], s.show()));
    }
    let order = key_order(&text);
    rec.check(order == KEYS, "exported keys", || format!("{:?}", order));
    // Concatenation restores the proof
    fn take(out: &mut String, v: &serde_json::Value) {
        match v {
            serde_json::Value::String(x) => out.push_str(x.trim_start_matches("0x")),
            serde_json::Value::Array(a) => a.iter().for_each(|x| take(out, x)),
            _ => out.push('?'),
        }
    }
    let mut all = String::new();
    for k in &KEYS[..11] {
        take(&mut all, &v[*k]);
    }
    for k in 0..s.fri.len() {
        take(&mut all, &v["fri_values"][k]);
        take(&mut all, &v["fri_decommitments"][k]);
    }
    rec.check(all == hex(&m.bytes).trim_start_matches("0x"), "concatenated export", || format!("differs from the proof on {}", s.show()));
}

fn c27(ctx: &Ctx) {
    ctx.cases("exports", 4, ctx.n(500, 10000), |rng, _, rec| {
        let case = system(rng, &Opt { queries: 16, ..Opt::small() });
        export(rec, &case);
    });
    // So many queries that nothing is left to decommit
    ctx.cases("dense queries", 4, ctx.n(60, 1200), |rng, _, rec| {
        let mut case = system(rng, &Opt { log_n: (1, 3), max_dom: 32, ..Opt::tiny() });
        case.sys.queries = *rng.pick(&[20, 60, 150, 400]);
        export(rec, &case);
    });
    ctx.cases("larger systems", 4, ctx.n(16, 200), |rng, _, rec| {
        let o = Opt { log_n: (6, 9), degree: 3, max_dom: 1 << 12, cols: 3, queries: 40, ..Opt::small() };
        let case = system(rng, &o);
        export(rec, &case);
    });
    // Library prover, end to end
    ctx.cases("library proofs", 4, ctx.n(100, 2000), |rng, _, rec| {
        let case = system(rng, &Opt::small());
        let con = constraints(&case.sys);
        if let Ok(Ok(p)) = guard(|| prove(&con, &table(&case.cols))) {
            let mut text = String::from("{");
            let r = guard(|| proof_serialize(&con, &p, &mut text));
            rec.eval(&(case.sys.show(), p.as_bytes()));
            rec.check(matches!(r, Ok(Ok(()))), "export of a valid proof fails", || format!("{:?} on {}", r, case.sys.show()));
            text.push('}');
            let v: Result<serde_json::Value, _> = serde_json::from_str(&text);
            rec.check(v.is_ok(), "export is not JSON", || format!("{:?}", v));
        }
    });
    // Hostile proofs are refused, not exported and not fatal
    ctx.cases("damaged proofs", 4, ctx.n(60, 1200), |rng, _, rec| {
        let case = system(rng, &Opt::tiny());
        let con = constraints(&case.sys);
        let Some(m) = ref_prove(&case.sys, &case.cols, &Faults::default()) else { return };
        let mut all: Vec<(Vec<u8>, bool)> = (0..12).map(|_| (m.bytes[..rng.below(m.bytes.len())].to_vec(), true)).collect();
        let mut long = m.bytes.clone();
        let k = rng.range(1, 40);
        long.extend(rng.bytes(k));
        all.push((long, true));
        all.push((vec![], true));
        for _ in 0..6 {
            let mut b = m.bytes.clone();
            let i = rng.below(b.len());
            b[i] ^= 1 << rng.below(8);
            all.push((b, false));
            let k = rng.below(4000);
            all.push((rng.bytes(k), false));
        }
        for (b, refuse) in all {
            rec.eval(&(case.sys.show(), &b));
            let mut text = String::new();
            match guard(|| proof_serialize(&con, &Proof::from_bytes(b.clone()), &mut text)) {
                Err(p) => rec.violation("export panics", format!("{} on {} proof {}", p, case.sys.show(), hex(&b))),
                Ok(r) => {
                    rec.event(if r.is_ok() { "damaged: exported" } else { "damaged: refused" });
                    rec.check(!refuse || r.is_err(), "export of a proof of wrong length", || format!("{} proof {}", case.sys.show(), hex(&b)));
                }
            }
        }
    });
}
