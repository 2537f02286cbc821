//! C16: compile-time literals denote the number they spell.
use super::{literals, Check};
use crate::{
    conv::{big, fe, hex},
    mon::{guard, Ctx, Record, Rng},
    refs::{
        big::Big,
        field::{self, Fe},
    },
};
use proc_macro2::{Literal, TokenStream, TokenTree};

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C16",
        run,
        rule:    "literals expanded by the compiler (fixed table) and by the macro library at run time (random and \
                  malformed strings); the value of the expansion is compared with the number spelled; distinct = literal",
        assumes: &["field literals at or above the modulus denote their residue"],
    });
}

fn ints(t: TokenStream, out: &mut Vec<u64>) {
    for x in t {
        match x {
            TokenTree::Group(g) => ints(g.stream(), out),
            TokenTree::Literal(l) => {
                let s = l.to_string().replace('_', "");
                let s = s.trim_end_matches("u64");
                let v = match s.strip_prefix("0x") {
                    Some(h) => u64::from_str_radix(h, 16),
                    None => s.parse(),
                };
                if let Ok(v) = v {
                    out.push(v);
                }
            }
            _ => {}
        }
    }
}

fn is_error(t: &TokenStream) -> bool {
    t.to_string().contains("compile_error")
}

fn bytestr(t: TokenStream) -> Option<Vec<u8>> {
    for x in t {
        match x {
            TokenTree::Group(g) => {
                if let Some(v) = bytestr(g.stream()) {
                    return Some(v);
                }
            }
            TokenTree::Literal(l) => {
                let s = l.to_string();
                let s = s.strip_prefix("b\"")?.strip_suffix('"')?.as_bytes().to_vec();
                let mut out = vec![];
                let mut i = 0;
                while i < s.len() {
                    if s[i] != b'\\' {
                        out.push(s[i]);
                        i += 1;
                        continue;
                    }
                    i += 2;
                    out.push(match s[i - 1] {
                        b'0' => 0,
                        b'n' => b'\n',
                        b'r' => b'\r',
                        b't' => b'\t',
                        b'\\' => b'\\',
                        b'"' => b'"',
                        b'\'' => b'\'',
                        b'x' => {
                            i += 2;
                            u8::from_str_radix(std::str::from_utf8(&s[i - 2..i]).unwrap(), 16).ok()?
                        }
                        _ => return None,
                    });
                }
                return Some(out);
            }
            _ => {}
        }
    }
    None
}

fn lit(s: &str) -> TokenStream {
    std::iter::once(TokenTree::Literal(Literal::string(s))).collect()
}

fn residue(v: &Big) -> Fe {
    Fe(field::base().enc(&v.rem(&field::base().big)))
}

fn run(ctx: &Ctx) {
    ctx.cases("compiled", 1, 1, |_, _, rec| {
        for (s, u, f, h) in literals::table() {
            let v = Big::from_hex(s);
            rec.eval(&s);
            rec.event("compiled literal");
            rec.sample("compiled", || s.to_owned());
            rec.check(big(&u) == v, "compiled u256h", || format!("{} -> {}", s, u));
            rec.check(fe(&f) == residue(&v), "compiled field_element", || format!("{} -> {:?}", s, f));
            rec.check(hex(&h) == s.to_lowercase(), "compiled hex", || format!("{} -> {:?}", s, h));
        }
    });
    ctx.cases("expanded", 8, ctx.n(2000, 60000), |rng, _, rec| {
        let s = input(rng);
        rec.eval(&s);
        let valid = s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit());
        let fits = valid && s.len() <= 64;
        rec.event(if fits { "number" } else if valid { "too long" } else { "malformed" });
        one(rec, &s, valid, fits);
    });
}

fn one(rec: &mut Record, s: &str, valid: bool, fits: bool) {
    match guard(|| {
        (
            zkp_macros_lib::hex(lit(s)),
            zkp_macros_lib::u256h(lit(s)),
            zkp_macros_lib::field_element(lit(s)),
        )
    }) {
        Err(m) => rec.violation("macro panics", format!("{:?}: {}", s, m)),
        Ok((h, u, f)) => {
            if valid {
                let got = bytestr(h.clone());
                rec.check(got.as_ref().map(|g| hex(g)) == Some(s.to_lowercase()), "hex", || format!("{:?} -> {}", s, h));
            } else {
                rec.check(is_error(&h), "hex accepts malformed", || format!("{:?} -> {}", s, h));
            }
            if fits {
                let v = Big::from_hex(s);
                let (mut a, mut b) = (vec![], vec![]);
                ints(u.clone(), &mut a);
                ints(f.clone(), &mut b);
                rec.check(a.len() == 4 && Big::from_limbs(&a) == v, "u256h", || format!("{:?} -> {}", s, u));
                rec.check(b.len() == 4 && b[..] == residue(&v).0, "field_element", || format!("{:?} -> {}", s, f));
            } else {
                rec.check(is_error(&u) && is_error(&f), "literal accepts malformed", || format!("{:?} -> {} {}", s, u, f));
            }
        }
    }
}

fn input(rng: &mut Rng) -> String {
    let v = Big::from_limbs(&match rng.below(4) {
        0 => field::base().big.mul(&Big::from_u128(1 + rng.below(31) as u128)).limbs4(),
        _ => rng.limbs(),
    });
    let v = if rng.chance(1, 8) && !v.is_zero() { v.sub(&Big::one()) } else { v };
    let mut s = v.to_hex();
    match rng.below(12) {
        0 => {}
        1 => s = format!("{:0>64}{}", s, "00"),
        2 => s = format!("{:0>66}", s),
        3 => {
            let at = rng.below(s.len() + 1);
            s.insert(at, *rng.pick(&['g', ' ', 'é', '-', 'x', '_']));
        }
        4 => s = format!("0x{}", s),
        5 => {
            let n = rng.below(100);
            s = hex(&rng.bytes(n));
        }
        6 => s = s.to_uppercase(),
        _ => {
            if s.len() % 2 == 1 {
                s.insert(0, '0');
            }
        }
    }
    s
}
