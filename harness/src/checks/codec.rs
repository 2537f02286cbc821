//! C15: every encoding round-trips, has its documented form, and rejects
//! malformed input with an error.
use super::{
    curve::{aff, be32, from_be, pt, sc, scb},
    Check,
};
use crate::{
    conv::{el, fe, hex},
    mon::{guard, Ctx, Record, Rng},
    refs::{
        big::Big,
        curve::{generator, Pt},
        field::{self, Fe},
    },
};
use parity_scale_codec::{Decode, Encode};
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use zkp_elliptic_curve::{Affine, ScalarFieldElement};
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};
use zkp_hash::Hash;
use zkp_primefield::FieldElement;
use zkp_u256::U256;

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C15",
        run,
        rule:    "values of every encodable type pushed through every codec and compared with an independent encoder; \
                  well-formed, mutated, truncated and hostile encodings decoded and judged against an independent \
                  decoder; distinct = type, codec and encoding",
        assumes: &["encodings taken as specified by documentation and existing tests (big-endian hex, little-endian SCALE)"],
    });
}

fn le32(b: &Big) -> Vec<u8> {
    let mut v = be32(b).to_vec();
    v.reverse();
    v
}

fn hex0x(b: &Big) -> String {
    format!("0x{}", hex(&be32(b)))
}

/// Round trip through all codecs, comparing the wire forms.
fn all_codecs<T: Serialize + DeserializeOwned + Encode + Decode + PartialEq + Debug>(
    rec: &mut Record,
    ty: &str,
    x: &T,
    json: &str,
    bin: &[u8],
    scale: &[u8],
) {
    rec.eval(&(ty, bin));
    rec.sample(ty, || json.to_owned());
    let k = |s: &str| format!("{} {}", ty, s);
    let got = serde_json::to_string(x).unwrap();
    rec.check(got == json, &k("json form"), || format!("{} instead of {}", got, json));
    let back = guard(|| serde_json::from_str::<T>(json).ok());
    rec.check(back.as_ref() == Ok(&Some(T::decode(&mut &scale[..]).unwrap())) && matches!(&back, Ok(Some(b)) if b == x), &k("json round trip"), || {
        format!("{} -> {:?}", json, back)
    });
    let v = serde_json::to_value(x).unwrap();
    let back = serde_json::from_value::<T>(v).ok();
    rec.check(back.as_ref() == Some(x), &k("json value round trip"), || format!("{} -> {:?}", json, back));
    let got = bincode::serialize(x).unwrap();
    rec.check(got == bin, &k("bincode form"), || format!("{} instead of {}", hex(&got), hex(bin)));
    let back = bincode::deserialize::<T>(bin).ok();
    rec.check(back.as_ref() == Some(x), &k("bincode round trip"), || format!("{} -> {:?}", hex(bin), back));
    let got = x.encode();
    rec.check(got == scale, &k("SCALE form"), || format!("{} instead of {}", hex(&got), hex(scale)));
    let used = x.using_encoded(|b| b.to_vec());
    rec.check(used == scale, &k("SCALE using_encoded"), || hex(&used));
    let mut buf = vec![];
    x.encode_to(&mut buf);
    rec.check(buf == scale, &k("SCALE encode_to"), || hex(&buf));
    let mut padded = scale.to_vec();
    padded.push(0x5a);
    let mut sl = &padded[..];
    let back = T::decode(&mut sl).ok();
    rec.check(back.as_ref() == Some(x) && sl.len() == 1, &k("SCALE round trip"), || format!("{} -> {:?}", hex(scale), back));
    // Truncations are errors.
    for cut in [0, 1, scale.len() / 2, scale.len() - 1].iter().copied().filter(|c| *c < scale.len()) {
        let r = guard(|| T::decode(&mut &scale[..cut]).is_err());
        rec.check(r == Ok(true), &k("SCALE truncated"), || format!("cut {} -> {:?}", cut, r));
        let r = guard(|| bincode::deserialize::<T>(&bin[..cut.min(bin.len() - 1)]).is_err());
        rec.check(r == Ok(true), &k("bincode truncated"), || format!("cut {} -> {:?}", cut, r));
    }
}

fn rbig(rng: &mut Rng) -> Big {
    match rng.below(8) {
        0 => field::base().big.add(&Big::from_u128(rng.below(4) as u128)).sub(&Big::from_u128(2)),
        1 => field::scalar().big.add(&Big::from_u128(rng.below(4) as u128)).sub(&Big::from_u128(2)),
        2 => Big::pow2(256).sub(&Big::from_u128(1 + rng.below(4) as u128)),
        3 => Big::from_u128(rng.below(300) as u128),
        _ => Big::from_limbs(&rng.limbs()),
    }
}

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

fn run(ctx: &Ctx) {
    ctx.cases("values", 8, ctx.n(8000, 100000), |rng, _, rec| {
        // U256
        let b = rbig(rng);
        let x = U256::from_limbs(b.limbs4());
        all_codecs(rec, "U256", &x, &format!("\"{}\"", hex0x(&b)), &be32(&b), &le32(&b));
        rec.check(x.to_bytes_be() == be32(&b), "U256 to_bytes_be", || b.to_hex());
        rec.check(U256::from_bytes_be(&be32(&b)) == x, "U256 from_bytes_be", || b.to_hex());
        rec.check(x.to_hex_string() == hex0x(&b), "U256 to_hex_string", || x.to_hex_string());
        rec.check(format!("{}", x) == hex(&be32(&b)), "U256 Display", || format!("{}", x));
        rec.check(format!("{:?}", x).contains(&hex(&be32(&b))), "U256 Debug", || format!("{:?}", x));
        rec.check(x.to_decimal_string() == b.to_dec(), "U256 to_decimal_string", || {
            format!("{} instead of {}", x.to_decimal_string(), b.to_dec())
        });
        for s in [b.to_dec(), format!("000{}", b.to_dec())] {
            rec.check(U256::from_decimal_str(&s) == Ok(x.clone()), "U256 from_decimal_str", || s.clone());
        }
        let h = b.to_hex();
        for s in [h.clone(), format!("0x{}", h), hex0x(&b), h.to_uppercase(), format!("{:0>64}", h)] {
            rec.check(U256::from_hex_str(&s) == x, "U256 from_hex_str", || s.clone());
        }
        // Field element
        let f = b.rem(&field::base().big);
        let e = el(Fe(field::base().enc(&f)));
        all_codecs(rec, "FieldElement", &e, &format!("\"{}\"", hex0x(&f)), &be32(&f), &le32(&f));
        // Scalar field element
        let s = b.rem(&field::scalar().big);
        let e = sc(&s);
        all_codecs(rec, "ScalarFieldElement", &e, &format!("\"{}\"", hex0x(&s)), &be32(&s), &le32(&s));
        rec.check(ScalarFieldElement::from(x.clone()) == e && e.to_uint() == U256::from_limbs(s.limbs4()), "scalar reduction", || {
            b.to_hex()
        });
        // Keys and signatures
        let key = PrivateKey::from(sc(&s));
        all_codecs(rec, "PrivateKey", &key, &format!("\"{}\"", hex0x(&s)), &be32(&s), &le32(&s));
        let w = rbig(rng).rem(&field::scalar().big);
        let sig = Signature::new(sc(&s), sc(&w));
        rec.check(scb(sig.r()) == s && scb(sig.w()) == w, "Signature accessors", || format!("{:?}", sig));
        all_codecs(
            rec,
            "Signature",
            &sig,
            &format!("{{\"r\":\"{}\",\"w\":\"{}\"}}", hex0x(&s), hex0x(&w)),
            &cat(&[&be32(&s), &be32(&w)]),
            &cat(&[&le32(&s), &le32(&w)]),
        );
        let y = rbig(rng).rem(&field::base().big);
        let q = if rng.chance(1, 8) {
            Pt::O
        } else if rng.chance(1, 8) {
            generator()
        } else {
            Pt::P(Fe(field::base().enc(&f)), Fe(field::base().enc(&y)))
        };
        let a = aff(&q);
        let (json, bin, scale) = match q {
            Pt::O => ("\"Zero\"".to_owned(), vec![0, 0, 0, 0], vec![0]),
            Pt::P(x, y) => {
                let (x, y) = (field::base().dec(&x.0), field::base().dec(&y.0));
                (
                    format!("{{\"Point\":{{\"x\":\"{}\",\"y\":\"{}\"}}}}", hex0x(&x), hex0x(&y)),
                    cat(&[&[1, 0, 0, 0], &be32(&x), &be32(&y)]),
                    cat(&[&[1], &le32(&x), &le32(&y)]),
                )
            }
        };
        all_codecs(rec, "Affine", &a, &json, &bin, &scale);
        all_codecs(rec, "PublicKey", &PublicKey::from(a), &json, &bin, &scale);
        // Hash: raw bytes
        let hb = be32(&b);
        let h = Hash::new(hb);
        rec.check(h.as_bytes() == &hb, "Hash bytes", || hex(&hb));
    });

    // Decoders against hostile input.
    ctx.cases("decimal", 8, ctx.n(30000, 400000), |rng, ix, rec| {
        let s = decimal_input(rng, ix);
        rec.eval(&("dec", &s));
        // None: malformed; Some(v): exact value
        let want: Option<Big> = if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
            None
        } else {
            let ten = Big::from_u128(10);
            Some(s.bytes().fold(Big::zero(), |a, d| a.mul(&ten).add(&Big::from_u128(u128::from(d - b'0')))))
        };
        let fits = want.as_ref().map_or(false, |w| w.bits() <= 256);
        rec.event(if fits { "decimal ok" } else { "decimal malformed" });
        match guard(|| U256::from_decimal_str(&s)) {
            Err(m) => rec.violation("from_decimal_str panics", format!("{:?}: {}", s, m)),
            Ok(r) => {
                let ok = match (&r, fits) {
                    (Ok(v), true) => *v == U256::from_limbs(want.clone().unwrap().limbs4()),
                    (Err(_), false) => true,
                    _ => false,
                };
                rec.check(ok, "from_decimal_str", || format!("{:?} -> {:?}", s, r));
            }
        }
    });
    ctx.cases("hex-json", 8, ctx.n(30000, 400000), |rng, ix, rec| {
        let s = hex_input(rng, ix);
        rec.eval(&("hex", &s));
        // Whether an empty number or a repeated prefix is a number is not
        // specified.
        if s.trim_start_matches("0x").is_empty() || s.starts_with("0x0x") {
            rec.event("hex unspecified");
            return;
        }
        let digits = s.trim_start_matches("0x");
        let valid = digits.len() <= 64 && digits.bytes().all(|b| b.is_ascii_hexdigit());
        let value = if valid { Some(Big::from_hex(digits)) } else { None };
        rec.event(if valid { "hex ok" } else { "hex malformed" });
        let json = serde_json::to_string(&s).unwrap();
        judge_json::<U256>(rec, "U256", &json, &value, |v| U256::from_limbs(v.limbs4()));
        let f = value.clone().filter(|v| v.lt(&field::base().big));
        judge_json::<FieldElement>(rec, "FieldElement", &json, &f, |v| el(Fe(field::base().enc(v))));
        let f = value.clone().filter(|v| v.lt(&field::scalar().big));
        judge_json::<ScalarFieldElement>(rec, "ScalarFieldElement", &json, &f, sc);
        judge_json::<PrivateKey>(rec, "PrivateKey", &json, &f, |v| PrivateKey::from(sc(v)));
        // The direct parser may refuse by panicking, but must not return a
        // wrong number.
        if let Ok(got) = guard(|| U256::from_hex_str(&s)) {
            rec.check(
                value.as_ref().map(|v| U256::from_limbs(v.limbs4())) == Some(got.clone()),
                "from_hex_str",
                || format!("{:?} -> {:?}", s, got),
            );
        } else {
            rec.check(!valid, "from_hex_str panics", || format!("{:?}", s));
        }
    });
    ctx.cases("binary", 8, ctx.n(30000, 400000), |rng, _, rec| {
        let b = rbig(rng);
        let (be, le) = (be32(&b), le32(&b));
        rec.eval(&("bin", be));
        let f = Some(b.clone()).filter(|v| v.lt(&field::base().big));
        let s = Some(b.clone()).filter(|v| v.lt(&field::scalar().big));
        rec.event(if f.is_some() { "below modulus" } else { "at or above modulus" });
        judge_bin::<FieldElement>(rec, "FieldElement", &be, &le, &f, |v| el(Fe(field::base().enc(v))));
        judge_bin::<ScalarFieldElement>(rec, "ScalarFieldElement", &be, &le, &s, sc);
        judge_bin::<PrivateKey>(rec, "PrivateKey", &be, &le, &s, |v| PrivateKey::from(sc(v)));
        // A point with this x coordinate
        let y = Big::from_u128(rng.u64().into());
        let want = f.clone();
        let mk = |v: &Big| Affine::new(el(Fe(field::base().enc(v))), el(Fe(field::base().enc(&y))));
        let bin = cat(&[&[1, 0, 0, 0], &be, &be32(&y)]);
        let scale = cat(&[&[1], &le, &le32(&y)]);
        judge_bin::<Affine>(rec, "Affine", &bin, &scale, &want, mk);
        judge_bin::<PublicKey>(rec, "PublicKey", &bin, &scale, &want, |v| PublicKey::from(mk(v)));
        let tag = 2 + rng.below(254) as u8;
        let bin = cat(&[&[tag, 0, 0, 0], &be, &be32(&y)]);
        let scale = cat(&[&[tag], &le, &le32(&y)]);
        judge_bin::<Affine>(rec, "Affine tag", &bin, &scale, &None, mk);
        // Arbitrary bytes: never a panic, and what decodes re-encodes to what
        // was consumed.
        let n = rng.below(80);
        let raw = rng.bytes(n);
        match guard(|| {
            let mut sl = &raw[..];
            let r = <(Affine, Signature)>::decode(&mut sl).ok();
            (r, raw.len() - sl.len())
        }) {
            Err(m) => rec.violation("decode panics", format!("{}: {}", hex(&raw), m)),
            Ok((Some(v), used)) => {
                rec.check(v.encode() == raw[..used], "decode not injective", || hex(&raw));
            }
            Ok(_) => {}
        }
        rec.check(from_be(&be) == b, "selfcheck", String::new);
        rec.check(f.map_or(true, |v| pt(&mk(&v)) != Pt::O && fe(mk(&v).x().unwrap()).canonical()), "selfcheck", String::new);
    });
}

fn judge_json<T: DeserializeOwned + PartialEq + Debug>(
    rec: &mut Record,
    ty: &str,
    json: &str,
    want: &Option<Big>,
    mk: impl Fn(&Big) -> T,
) {
    match guard(|| serde_json::from_str::<T>(json).ok()) {
        Err(m) => rec.violation(&format!("{} json deserialize panics", ty), format!("{}: {}", json, m)),
        Ok(got) => {
            rec.check(got == want.as_ref().map(mk), &format!("{} json deserialize", ty), || {
                format!("{} -> {:?}", json, got)
            });
        }
    }
}

fn judge_bin<T: DeserializeOwned + Decode + PartialEq + Debug>(
    rec: &mut Record,
    ty: &str,
    bin: &[u8],
    scale: &[u8],
    want: &Option<Big>,
    mk: impl Fn(&Big) -> T,
) {
    let want = want.as_ref().map(mk);
    match guard(|| bincode::deserialize::<T>(bin).ok()) {
        Err(m) => rec.violation(&format!("{} bincode deserialize panics", ty), format!("{}: {}", hex(bin), m)),
        Ok(got) => {
            rec.check(got == want, &format!("{} bincode deserialize", ty), || format!("{} -> {:?}", hex(bin), got));
        }
    }
    match guard(|| T::decode(&mut &scale[..]).ok()) {
        Err(m) => rec.violation(&format!("{} SCALE decode panics", ty), format!("{}: {}", hex(scale), m)),
        Ok(got) => {
            rec.check(got == want, &format!("{} SCALE decode", ty), || format!("{} -> {:?}", hex(scale), got));
        }
    }
}

fn insert_junk(rng: &mut Rng, s: &str) -> String {
    let junk = ["é", "٣", "g", " ", "-", "+", "_", "\u{0}", "𝟙", ".", "0x", "x", "½", "\n"];
    let mut v: Vec<char> = s.chars().collect();
    let at = rng.below(v.len() + 1);
    for (i, c) in rng.pick(&junk).chars().enumerate() {
        v.insert(at + i, c);
    }
    v.into_iter().collect()
}

fn decimal_input(rng: &mut Rng, ix: u64) -> String {
    let max = Big::pow2(256);
    if ix < 200 {
        // Around the limit and around floor(2^256/10)*10
        let d = Big::from_u128(u128::from(ix));
        return max.sub(&Big::from_u128(100)).add(&d).to_dec();
    }
    match rng.below(9) {
        0 => rbig(rng).to_dec(),
        1 => max.add(&rbig(rng)).to_dec(),
        2 => max.mul(&Big::from_u128(2 + rng.below(12) as u128)).add(&rbig(rng)).to_dec(),
        3 => {
            let s = rbig(rng).to_dec();
            insert_junk(rng, &s)
        }
        4 => (0..rng.below(100)).map(|_| char::from(b'0' + rng.below(10) as u8)).collect(),
        5 => format!("{}{}", max.to_dec(), rng.below(100)),
        6 => String::new(),
        7 => {
            let n = rng.below(4);
            (0..n).map(|_| char::from_u32(rng.below(0x3000) as u32).unwrap_or('a')).collect()
        }
        _ => max.add(&Big::from_u128(rng.below(200) as u128)).to_dec(),
    }
}

fn hex_input(rng: &mut Rng, ix: u64) -> String {
    let digits = |rng: &mut Rng, n: usize| -> String {
        (0..n).map(|_| *rng.pick(&['0', '1', '7', '9', 'a', 'f', 'A', 'F', 'c'])).collect()
    };
    let n = if ix < 80 { ix as usize } else { rng.below(80) };
    let base = match rng.below(6) {
        0 => rbig(rng).to_hex(),
        1 => format!("{:0>64}", rbig(rng).to_hex()),
        2 => field::base().big.add(&Big::from_u128(rng.below(3) as u128)).to_hex(),
        _ => digits(rng, n),
    };
    let s = if rng.chance(1, 2) { format!("0x{}", base) } else { base };
    if rng.chance(1, 3) {
        insert_junk(rng, &s)
    } else {
        s
    }
}
