//! Interpreter for the assembly of the generated contracts: 256 bit words,
//! byte addressed memory, call data, the modular exponentiation precompile.
use super::big::Big;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum E {
    Num(Big),
    Var(String),
    Call(String, Vec<E>),
}

#[derive(Clone, Debug)]
enum S {
    Let(Vec<String>, Option<E>),
    Set(Vec<String>, E),
    Do(E),
    If(E, Vec<S>),
    For(Vec<S>, E, Vec<S>, Vec<S>),
    Block(Vec<S>),
    Fun(String, Vec<String>, Vec<String>, Vec<S>),
}

struct P {
    t: Vec<String>,
    i: usize,
}

fn lex(src: &str) -> Vec<String> {
    let b: Vec<char> = src.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let ch = b[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && b.get(i + 1) == Some(&'*') {
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if ch.is_alphanumeric() || ch == '_' || ch == '$' || ch == '.' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$' || b[i] == '.') {
                i += 1;
            }
            out.push(b[s..i].iter().collect());
        } else if ch == ':' && b.get(i + 1) == Some(&'=') {
            out.push(":=".into());
            i += 2;
        } else if ch == '-' && b.get(i + 1) == Some(&'>') {
            out.push("->".into());
            i += 2;
        } else {
            out.push(ch.to_string());
            i += 1;
        }
    }
    out
}

type R<T> = Result<T, String>;

impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map_or("", |s| s.as_str())
    }

    fn next(&mut self) -> String {
        let s = self.peek().to_owned();
        self.i += 1;
        s
    }

    fn eat(&mut self, s: &str) -> R<()> {
        let n = self.next();
        if n == s {
            Ok(())
        } else {
            Err(format!("expected {} found {} at token {}", s, n, self.i))
        }
    }

    fn block(&mut self) -> R<Vec<S>> {
        self.eat("{")?;
        let mut v = vec![];
        while self.peek() != "}" {
            if self.peek().is_empty() {
                return Err("unclosed block".into());
            }
            v.push(self.stmt()?);
        }
        self.i += 1;
        Ok(v)
    }

    fn names(&mut self) -> Vec<String> {
        let mut v = vec![self.next()];
        while self.peek() == "," {
            self.i += 1;
            v.push(self.next());
        }
        v
    }

    fn stmt(&mut self) -> R<S> {
        match self.peek() {
            "{" => Ok(S::Block(self.block()?)),
            "let" => {
                self.i += 1;
                let n = self.names();
                if self.peek() == ":=" {
                    self.i += 1;
                    Ok(S::Let(n, Some(self.expr()?)))
                } else {
                    Ok(S::Let(n, None))
                }
            }
            "if" => {
                self.i += 1;
                Ok(S::If(self.expr()?, self.block()?))
            }
            "for" => {
                self.i += 1;
                Ok(S::For(self.block()?, self.expr()?, self.block()?, self.block()?))
            }
            "function" => {
                self.i += 1;
                let name = self.next();
                self.eat("(")?;
                let params = if self.peek() == ")" { vec![] } else { self.names() };
                self.eat(")")?;
                let rets = if self.peek() == "->" {
                    self.i += 1;
                    self.names()
                } else {
                    vec![]
                };
                Ok(S::Fun(name, params, rets, self.block()?))
            }
            _ => {
                let at = self.i;
                let first = self.next();
                if self.peek() == ":=" || self.peek() == "," {
                    self.i = at;
                    let n = self.names();
                    self.eat(":=")?;
                    return Ok(S::Set(n, self.expr()?));
                }
                if self.peek() != "(" {
                    return Err(format!("unexpected {} {}", first, self.peek()));
                }
                self.i = at;
                Ok(S::Do(self.expr()?))
            }
        }
    }

    fn expr(&mut self) -> R<E> {
        let t = self.next();
        let c0 = t.chars().next().ok_or("unexpected end")?;
        if let Some(h) = t.strip_prefix("0x") {
            if h.is_empty() || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                return Err(format!("bad literal {}", t));
            }
            return Ok(E::Num(Big::from_hex(h)));
        }
        if c0.is_ascii_digit() {
            let mut v = Big::zero();
            let ten = Big::from_u128(10);
            for c in t.chars() {
                let d = c.to_digit(10).ok_or_else(|| format!("bad literal {}", t))?;
                v = v.mul(&ten).add(&Big::from_u128(u128::from(d)));
            }
            return Ok(E::Num(v));
        }
        if !(c0.is_alphabetic() || c0 == '_' || c0 == '$') {
            return Err(format!("unexpected {}", t));
        }
        if self.peek() == "(" {
            self.i += 1;
            let mut a = vec![];
            if self.peek() != ")" {
                loop {
                    a.push(self.expr()?);
                    if self.peek() == "," {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
            }
            self.eat(")")?;
            return Ok(E::Call(t, a));
        }
        Ok(E::Var(t))
    }
}

/// One assembly program.
pub struct Program(Vec<S>);

/// The first `assembly { ... }` of a source text.
pub fn parse(source: &str) -> R<Program> {
    let t = lex(source);
    let at = t.iter().position(|s| s == "assembly").ok_or("no assembly block")?;
    let mut p = P { t, i: at + 1 };
    Ok(Program(p.block()?))
}

enum Flow {
    Next,
    Return(Vec<u8>),
    Revert,
}

type Fun = (Vec<String>, Vec<String>, Vec<S>);

pub struct Machine {
    pub calldata: Vec<u8>,
    memory:       Vec<u8>,
    funs:         BTreeMap<String, Fun>,
    steps:        u64,
    pub stats:    BTreeMap<&'static str, u64>,
}

pub fn word(b: &Big) -> [u8; 32] {
    let l = b.limbs4();
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_be_bytes());
    }
    o
}

fn unword(b: &[u8]) -> Big {
    let mut l = [0_u64; 4];
    for i in 0..4 {
        let mut x = [0; 8];
        x.copy_from_slice(&b[8 * i..8 * i + 8]);
        l[3 - i] = u64::from_be_bytes(x);
    }
    Big::from_limbs(&l)
}

type Scope = Vec<BTreeMap<String, Big>>;

impl Machine {
    pub fn new(calldata: Vec<u8>) -> Machine {
        Machine { calldata, memory: vec![], funs: BTreeMap::new(), steps: 0, stats: BTreeMap::new() }
    }

    /// Runs with the given variables; gives what the program returns, or the
    /// variables when it ends without returning.
    pub fn run(&mut self, p: &Program, vars: BTreeMap<String, Big>) -> R<(Option<Vec<u8>>, BTreeMap<String, Big>)> {
        let mut sc: Scope = vec![vars];
        match self.stmts(&p.0, &mut sc, false)? {
            Flow::Return(b) => Ok((Some(b), sc.remove(0))),
            Flow::Revert => Err("reverted".into()),
            Flow::Next => Ok((None, sc.remove(0))),
        }
    }

    fn addr(v: &Big) -> R<usize> {
        if v.bits() > 24 {
            return Err(format!("address {} out of reach", v.to_hex()));
        }
        Ok(v.low_u128() as usize)
    }

    fn grow(&mut self, end: usize) {
        if self.memory.len() < end {
            self.memory.resize(end, 0);
        }
    }

    fn stmts(&mut self, v: &[S], sc: &mut Scope, scope: bool) -> R<Flow> {
        for s in v {
            if let S::Fun(n, p, r, b) = s {
                self.funs.insert(n.clone(), (p.clone(), r.clone(), b.clone()));
            }
        }
        if scope {
            sc.push(BTreeMap::new());
        }
        let depth = sc.len();
        for s in v {
            match self.stmt(s, sc)? {
                Flow::Next => {}
                f => return Ok(f),
            }
            debug_assert_eq!(sc.len(), depth);
        }
        if scope {
            sc.pop();
        }
        Ok(Flow::Next)
    }

    fn stmt(&mut self, s: &S, sc: &mut Scope) -> R<Flow> {
        self.steps += 1;
        if self.steps > 3_000_000 {
            return Err("runs for too long".into());
        }
        match s {
            S::Fun(..) => {}
            S::Let(n, e) => {
                let v = match e {
                    Some(e) => match self.expr(e, sc)? {
                        Ok(v) => v,
                        Err(f) => return Ok(f),
                    },
                    None => vec![Big::zero(); n.len()],
                };
                if v.len() != n.len() {
                    return Err("number of values".into());
                }
                for (n, v) in n.iter().zip(v) {
                    if sc.last_mut().unwrap().insert(n.clone(), v).is_some() {
                        return Err(format!("{} declared twice", n));
                    }
                }
            }
            S::Set(n, e) => {
                let v = match self.expr(e, sc)? {
                    Ok(v) => v,
                    Err(f) => return Ok(f),
                };
                if v.len() != n.len() {
                    return Err("number of values".into());
                }
                for (n, v) in n.iter().zip(v) {
                    let slot = sc.iter_mut().rev().find_map(|m| m.get_mut(n));
                    *slot.ok_or_else(|| format!("{} not declared", n))? = v;
                }
            }
            S::Do(e) => match self.expr(e, sc)? {
                Ok(v) if v.is_empty() => {}
                Ok(_) => return Err("value dropped".into()),
                Err(f) => return Ok(f),
            },
            S::If(e, b) => match self.one(e, sc)? {
                Ok(v) => {
                    if !v.is_zero() {
                        return self.stmts(b, sc, true);
                    }
                }
                Err(f) => return Ok(f),
            },
            S::Block(b) => return self.stmts(b, sc, true),
            S::For(init, cond, post, body) => {
                sc.push(BTreeMap::new());
                match self.stmts(init, sc, false)? {
                    Flow::Next => {}
                    f => return Ok(f),
                }
                loop {
                    match self.one(cond, sc)? {
                        Ok(v) => {
                            if v.is_zero() {
                                break;
                            }
                        }
                        Err(f) => return Ok(f),
                    }
                    for b in [body, post] {
                        match self.stmts(b, sc, true)? {
                            Flow::Next => {}
                            f => return Ok(f),
                        }
                    }
                    self.steps += 1;
                    if self.steps > 3_000_000 {
                        return Err("runs for too long".into());
                    }
                }
                sc.pop();
            }
        }
        Ok(Flow::Next)
    }

    fn one(&mut self, e: &E, sc: &mut Scope) -> R<Result<Big, Flow>> {
        match self.expr(e, sc)? {
            Ok(mut v) if v.len() == 1 => Ok(Ok(v.remove(0))),
            Ok(_) => Err("one value expected".into()),
            Err(f) => Ok(Err(f)),
        }
    }

    fn expr(&mut self, e: &E, sc: &mut Scope) -> R<Result<Vec<Big>, Flow>> {
        let (name, args) = match e {
            E::Num(v) => return Ok(Ok(vec![v.clone()])),
            E::Var(n) => {
                let v = sc.iter().rev().find_map(|m| m.get(n)).ok_or_else(|| format!("{} not declared", n))?;
                return Ok(Ok(vec![v.clone()]));
            }
            E::Call(n, a) => (n, a),
        };
        // Arguments are evaluated right to left
        let mut a = vec![];
        for x in args.iter().rev() {
            match self.one(x, sc)? {
                Ok(v) => a.push(v),
                Err(f) => return Ok(Err(f)),
            }
        }
        a.reverse();
        if let Some((params, rets, body)) = self.funs.get(name).cloned() {
            if params.len() != a.len() {
                return Err(format!("{}: arguments", name));
            }
            let mut m: BTreeMap<String, Big> = params.into_iter().zip(a).collect();
            for r in &rets {
                m.insert(r.clone(), Big::zero());
            }
            let mut inner: Scope = vec![m];
            *self.stats.entry("function calls").or_default() += 1;
            return Ok(match self.stmts(&body, &mut inner, true)? {
                Flow::Next => Ok(rets.iter().map(|r| inner[0][r].clone()).collect()),
                f => Err(f),
            });
        }
        let want = match name.as_str() {
            "callvalue" | "gas" | "calldatasize" => 0,
            "mload" | "calldataload" | "iszero" | "not" => 1,
            "addmod" | "mulmod" => 3,
            "call" => 7,
            "add" | "sub" | "mul" | "div" | "mod" | "lt" | "gt" | "eq" | "and" | "or" | "xor" | "shl" | "shr" | "mstore" | "return"
            | "revert" => 2,
            _ => return Err(format!("unknown instruction {}", name)),
        };
        if a.len() != want {
            return Err(format!("{}: {} arguments", name, a.len()));
        }
        *self.stats.entry("instructions").or_default() += 1;
        let m256 = Big::pow2(256);
        let flag = |b: bool| if b { Big::one() } else { Big::zero() };
        let bits = |f: fn(u64, u64) -> u64, a: &Big, b: &Big| {
            let (x, y) = (a.limbs4(), b.limbs4());
            Big::from_limbs(&[f(x[0], y[0]), f(x[1], y[1]), f(x[2], y[2]), f(x[3], y[3])])
        };
        let r = match name.as_str() {
            "callvalue" => Big::zero(),
            "gas" => Big::from_u128(1 << 40),
            "calldatasize" => Big::from_u128(self.calldata.len() as u128),
            "mload" => {
                let p = Self::addr(&a[0])?;
                self.grow(p + 32);
                unword(&self.memory[p..p + 32])
            }
            "calldataload" => {
                let p = Self::addr(&a[0])?;
                let mut w = [0; 32];
                for (i, b) in w.iter_mut().enumerate() {
                    *b = *self.calldata.get(p + i).unwrap_or(&0);
                }
                *self.stats.entry("call data loads").or_default() += 1;
                unword(&w)
            }
            "mstore" => {
                let p = Self::addr(&a[0])?;
                self.grow(p + 32);
                self.memory[p..p + 32].copy_from_slice(&word(&a[1]));
                return Ok(Ok(vec![]));
            }
            "iszero" => flag(a[0].is_zero()),
            "not" => Big::pow2(256).sub(&Big::one()).sub(&a[0]),
            "add" => a[0].add(&a[1]).low(256),
            "sub" => a[0].add(&m256).sub(&a[1]).low(256),
            "mul" => a[0].mul(&a[1]).low(256),
            "div" => a[0].divrem(&a[1]).map_or(Big::zero(), |x| x.0),
            "mod" => a[0].divrem(&a[1]).map_or(Big::zero(), |x| x.1),
            "addmod" => a[0].add(&a[1]).divrem(&a[2]).map_or(Big::zero(), |x| x.1),
            "mulmod" => a[0].mul(&a[1]).divrem(&a[2]).map_or(Big::zero(), |x| x.1),
            "lt" => flag(a[0].lt(&a[1])),
            "gt" => flag(a[1].lt(&a[0])),
            "eq" => flag(a[0] == a[1]),
            "and" => bits(|x, y| x & y, &a[0], &a[1]),
            "or" => bits(|x, y| x | y, &a[0], &a[1]),
            "xor" => bits(|x, y| x ^ y, &a[0], &a[1]),
            "shl" if a[0].bits() < 9 => a[1].shl(a[0].low_u128() as usize).low(256),
            "shr" if a[0].bits() < 9 => a[1].shr(a[0].low_u128() as usize),
            "shl" | "shr" => Big::zero(),
            "return" => {
                let (p, n) = (Self::addr(&a[0])?, Self::addr(&a[1])?);
                self.grow(p + n);
                return Ok(Err(Flow::Return(self.memory[p..p + n].to_vec())));
            }
            "revert" => return Ok(Err(Flow::Revert)),
            "call" => {
                if a[1] != Big::from_u128(5) {
                    return Err("call to an unknown contract".into());
                }
                let (p, n, q, m) = (Self::addr(&a[3])?, Self::addr(&a[4])?, Self::addr(&a[5])?, Self::addr(&a[6])?);
                self.grow((p + n).max(q + m));
                let input = self.memory[p..p + n].to_vec();
                if n != 0xc0 || (0..3).any(|i| unword(&input[32 * i..32 * i + 32]) != Big::from_u128(32)) {
                    return Err("unexpected layout of a modular exponentiation".into());
                }
                let w = |i: usize| unword(&input[32 * i..32 * i + 32]);
                let md = w(5);
                let out = if md.is_zero() { Big::zero() } else { w(3).modpow(&w(4), &md) };
                let k = m.min(32);
                self.memory[q..q + k].copy_from_slice(&word(&out)[..k]);
                *self.stats.entry("modular exponentiations").or_default() += 1;
                Big::one()
            }
            _ => unreachable!(),
        };
        Ok(Ok(vec![r]))
    }
}

pub fn selftest() {
    let run = |src: &str, data: Vec<u8>| {
        let p = parse(src).expect("parses");
        Machine::new(data).run(&p, BTreeMap::new())
    };
    let (r, _) = run(
        "contract A { assembly { // note
            function f(a, b) -> c { c := add(a, mul(b, 3)) }
            let s := 0
            for { let i := 0 } lt(i, 5) { i := add(i, 1) } { if gt(i, 2) { s := add(s, f(i, 1)) } }
            mstore(0x20, sub(s, calldataload(32)))
            return(0x20, 0x20) } }",
        [vec![0; 32], word(&Big::from_u128(4)).to_vec()].concat(),
    )
    .unwrap();
    assert_eq!(unword(&r.unwrap()), Big::from_u128(9));
    let (_, v) = Machine::new(vec![])
        .run(
            &parse("assembly { y := addmod(sub(0, 1), 5, 7) }").unwrap(),
            [("y".to_owned(), Big::zero())].iter().cloned().collect(),
        )
        .unwrap();
    // 2^256 mod 7 = 2, so (2 - 1 + 5) mod 7
    assert_eq!(v["y"], Big::from_u128(6));
    assert!(run("assembly { revert(0, 0) }", vec![]).is_err());
}
