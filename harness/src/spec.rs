//! An independent reading of the documented language: a parser and evaluator over characters that says what
//! a document means, or where it is wrong. It shares no code with the crate under test.
use over::{types::Type, value::Value, ReferenceType};
use num_bigint::{BigInt, Sign};
use std::rc::Rc;

#[derive(Clone)]
pub enum T { Any, Null, Bool, Int, Frac, Str, Arr(Box<T>), Tup(Vec<T>), Obj }

impl T {
    pub fn text(&self) -> String {
        match self {
            T::Any => "Any".into(), T::Null => "Null".into(), T::Bool => "Bool".into(), T::Int => "Int".into(), T::Frac => "Frac".into(), T::Str => "Str".into(), T::Obj => "Obj".into(),
            T::Arr(t) => format!("Arr({})", t.text()),
            T::Tup(v) => { let mut s = String::from("Tup("); for (i, t) in v.iter().enumerate() { if i > 0 { s.push_str(", "); } s.push_str(&t.text()); } s.push(')'); s }
        }
    }
    fn int(&self) -> bool { match self { T::Int => true, _ => false } }
}

#[derive(Clone)]
pub enum V { Null, Bool(bool), Int(i64), /* more than 18 digits */ Big(bool, String), Frac(i64, i64), /* numerator, positive denominator (not reduced), an Int; never zero */ Rat(Rc<(BigInt, BigInt, bool)>), Str(String), Arr(Rc<(Vec<V>, T)>), Tup(Rc<Vec<V>>), Obj(Rc<O>), Sent(u8) }

pub struct O { pub fields: Vec<(String, V)>, pub parent: Option<Rc<O>> }

#[derive(Clone)]
pub enum Er {
    /// malformed text at this line and column of the file
    At(Option<String>, usize, usize, W),
    /// the text ended on this line
    End(Option<String>, usize),
    /// an error whose position is not claimed
    Some,
    /// behaviour that no property claims
    Amb,
}
pub type R<X> = Result<X, Er>;

/// what an error is about
#[derive(Clone)]
pub enum W {
    S(&'static str),
    /// this character
    C(&'static str, char),
    /// this name or path
    N(&'static str, String),
    T1(&'static str, T),
    T2(&'static str, T, T),
    Op1(char, T),
    Op2(char, T, T),
    /// the bracket that was expected and the one found
    Close(Option<char>, char),
    Index(String),
}
impl W {
    fn op(c: char, a: &V, b: &V) -> W {
        if c == '/' || c == '%' {
            let zero = match b { V::Int(0) | V::Frac(0, _) => true, _ => false };
            let number = match type_of(a) { T::Int | T::Frac => true, _ => false };
            // a zero of another type than the remainder takes is a matter of types
            if zero && number && (c == '/' || (type_of(a).int() && type_of(b).int())) { return W::S("numeric"); }
        }
        W::Op2(c, type_of(a), type_of(b))
    }
    /// the parts that a message about this has, in this order
    fn parts(&self) -> Vec<String> {
        match self {
            W::S(s) => vec![s.to_string()],
            W::C(s, c) => vec![if *s == "for value" || *s == "for field" { format!("character {:?} {}", c, s) } else { format!("{} character {:?}", s, c) }],
            W::N(s, n) => vec![s.to_string(), format!("\"{}\"", n)],
            W::T1(s, t) => vec![s.to_string(), t.text()],
            W::T2(s, a, b) => vec![format!("{}", s), a.text(), format!("found {}", b.text())],
            W::Op1(o, t) => vec![format!("'{}'", o), format!("type {} ", t.text())],
            // (an Int next to a Frac may count as a Frac)
            W::Op2(o, a, b) => { let mix = match (a, b) { (T::Int, T::Frac) | (T::Frac, T::Int) => true, _ => false }; if mix { vec![format!("'{}'", o)] } else { vec![format!("'{}'", o), format!("types {} and {} ", a.text(), b.text())] } }
            W::Close(e, f) => vec![format!("bracket '{}'", f), match e { Some(c) => format!("expected '{}'", c), None => "none".into() }],
            W::Index(i) => vec![format!("ndex {} ", i)],
        }
    }
}
fn contains_from(m: &[u8], w: &[u8], from: usize) -> Option<usize> {
    let mut i = from;
    while i + w.len() <= m.len() { if m[i..i + w.len()] == *w { return Some(i + w.len()); } i += 1; }
    None
}
/// Does the message say what is wrong?
pub fn says(e: &Er, msg: &str) -> bool {
    let (f, parts) = match e { Er::At(f, _, _, w) => (f, w.parts()), Er::End(f, _) => (f, vec!["Unexpected end".to_string()]), _ => return true };
    let m = msg.as_bytes();
    // (not in the path of the file)
    let mut i = match f { Some(f) => f.len() + 2, None => 0 };
    for p in &parts { match contains_from(m, p.as_bytes(), i) { Some(k) => i = k, None => return false } }
    true
}

pub const MAX: usize = 64;
/// operands beyond this are left to the checks of long numbers
const BIG: i64 = 1 << 30;

/// the least type that both fit
pub fn unify(a: &T, b: &T) -> Option<T> {
    match (a, b) {
        (T::Any, x) | (x, T::Any) => Some(x.clone()),
        (T::Arr(x), T::Arr(y)) => unify(x, y).map(|t| T::Arr(Box::new(t))),
        (T::Tup(x), T::Tup(y)) => {
            if x.len() != y.len() { return None; }
            let mut v = Vec::new();
            for i in 0..x.len() { match unify(&x[i], &y[i]) { Some(t) => v.push(t), None => return None } }
            Some(T::Tup(v))
        }
        (T::Null, T::Null) | (T::Bool, T::Bool) | (T::Int, T::Int) | (T::Frac, T::Frac) | (T::Str, T::Str) | (T::Obj, T::Obj) => Some(a.clone()),
        _ => None,
    }
}

pub fn type_of(v: &V) -> T {
    match v {
        V::Null => T::Null, V::Bool(_) => T::Bool, V::Int(_) | V::Big(..) => T::Int, V::Frac(..) => T::Frac, V::Rat(r) => if r.2 { T::Int } else { T::Frac }, V::Str(_) => T::Str,
        V::Arr(a) => T::Arr(Box::new(a.1.clone())),
        V::Tup(t) => T::Tup(t.iter().map(type_of).collect()),
        V::Obj(_) | V::Sent(_) => T::Obj,
    }
}

/// exact structural identity of a model type and a real one
pub fn teq(a: &T, b: &Type) -> bool {
    match (a, b) {
        (T::Any, Type::Any) | (T::Null, Type::Null) | (T::Bool, Type::Bool) | (T::Int, Type::Int) | (T::Frac, Type::Frac) | (T::Str, Type::Str) | (T::Obj, Type::Obj) => true,
        (T::Arr(x), Type::Arr(y)) => teq(x, y),
        (T::Tup(x), Type::Tup(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| teq(p, q)),
        _ => false,
    }
}

fn gcd(a: i64, b: i64) -> i64 { let (mut a, mut b) = (a, b); while b != 0 { let t = a.wrapping_rem(b); a = b; b = t; } if a < 0 { a.wrapping_neg() } else { a } }
pub fn frac(n: i64, d: i64) -> R<V> {
    let g = gcd(n, d);
    if g == 0 { return Err(Er::Amb); }
    let (n, d) = (n.wrapping_div(g), d.wrapping_div(g));
    Ok(if d < 0 { V::Frac(n.wrapping_neg(), d.wrapping_neg()) } else { V::Frac(n, d) })
}

/// the number that these digits are
fn long<'a>(ds: impl Iterator<Item = &'a i64>) -> BigInt {
    let mut n: BigInt = 0.into();
    let (mut part, mut by, mut k) = (0i64, 1i64, 0);
    for x in ds {
        part = part.wrapping_mul(10).wrapping_add(*x);
        by = by.wrapping_mul(10);
        k += 1;
        if k == 18 { n = n * by + part; part = 0; by = 1; k = 0; }
    }
    if k > 0 { n = n * by + part; }
    n
}
fn rat(n: BigInt, d: BigInt, int: bool) -> V {
    if n.sign() == Sign::NoSign { return if int { V::Int(0) } else { V::Frac(0, 1) }; }
    if int { if let Some(i) = num_traits::ToPrimitive::to_i64(&n) { if i > i64::MIN { return V::Int(i); } } }
    V::Rat(Rc::new((n, d, int)))
}
fn wide(v: &V) -> (BigInt, BigInt, bool) {
    match v {
        V::Int(i) => ((*i).into(), 1.into(), true),
        V::Frac(n, d) => ((*n).into(), (*d).into(), false),
        V::Big(neg, s) => { let ds: Vec<i64> = s.bytes().map(|b| b as i64 - 48).collect(); let n = long(ds.iter()); (if *neg { -n } else { n }, 1.into(), true) }
        V::Rat(r) => (r.0.clone(), r.1.clone(), r.2),
        _ => (0.into(), 1.into(), false),
    }
}

pub struct Ids(Vec<(usize, usize)>);
impl Ids {
    pub fn new() -> Self { Ids(vec![]) }
    /// one model instance for one real instance, both ways
    fn put(&mut self, model: usize, real: usize) -> bool {
        for &(m, r) in &self.0 { if m == model || r == real { return m == model && r == real; } }
        self.0.push((model, real));
        true
    }
}

pub struct Cmp { pub types: bool, pub ids: Option<Ids> }

fn int_eq(i: i64, b: &num_bigint::BigInt) -> bool { num_traits::ToPrimitive::to_i64(b) == Some(i) }

pub fn same(v: &V, x: &Value, c: &mut Cmp) -> bool {
    match (v, x) {
        (V::Null, Value::Null) => true,
        (V::Bool(a), Value::Bool(b)) => a == b,
        (V::Int(a), Value::Int(b)) => int_eq(*a, b),
        (V::Big(neg, d), Value::Int(b)) => { let t = b.to_string(); if *neg { t.len() == d.len() + 1 && t.starts_with('-') && t.ends_with(d.as_str()) } else { t == *d } }
        (V::Frac(n, d), Value::Frac(f)) => int_eq(*n, f.numer()) && int_eq(*d, f.denom()),
        (V::Rat(r), Value::Int(b)) => r.2 && r.0 == *b,
        (V::Rat(r), Value::Frac(f)) => !r.2 && f.denom().sign() == Sign::Plus && f.numer() * &r.1 == f.denom() * &r.0,
        (V::Str(a), Value::Str(b)) => a == b,
        (V::Arr(a), Value::Arr(b)) => {
            if let Some(i) = &mut c.ids { if !i.put(Rc::as_ptr(a) as *const u8 as usize, b.id()) || Rc::strong_count(a) != b.num_references() { return false; } }
            if c.types && !teq(&a.1, &b.inner_type()) { return false; }
            let r = b.values_ref();
            if a.0.len() != r.len() || b.len() != r.len() { return false; }
            for i in 0..r.len() { if !same(&a.0[i], &r[i], c) { return false; } }
            true
        }
        (V::Tup(a), Value::Tup(b)) => {
            if let Some(i) = &mut c.ids { if !i.put(Rc::as_ptr(a) as *const u8 as usize, b.id()) || Rc::strong_count(a) != b.num_references() { return false; } }
            if c.types {
                let t = b.inner_type_vec();
                if t.len() != a.len() { return false; }
                for i in 0..t.len() { if !teq(&type_of(&a[i]), &t[i]) { return false; } }
            }
            let r = b.values_ref();
            if a.len() != r.len() || b.len() != r.len() { return false; }
            for i in 0..r.len() { if !same(&a[i], &r[i], c) { return false; } }
            true
        }
        (V::Obj(a), Value::Obj(b)) => same_obj(a, b, c, 0),
        _ => false,
    }
}

/// `extra`: references to the real object that the caller holds on top of what the model holds
pub fn same_obj(a: &Rc<O>, b: &over::Obj, c: &mut Cmp, extra: usize) -> bool {
    if let Some(i) = &mut c.ids { if !i.put(Rc::as_ptr(a) as *const u8 as usize, b.id()) || Rc::strong_count(a) + extra != b.num_references() { return false; } }
    let r = b.pairs_ref();
    if a.fields.len() != r.len() || b.len() != r.len() { return false; }
    for i in 0..r.len() {
        if a.fields[i].0 != r[i].0 { return false; }
        if !same(&a.fields[i].1, &r[i].1, c) { return false; }
    }
    match (&a.parent, b.get_parent()) {
        (None, None) => !b.has_parent(),
        (Some(p), Some(q)) => b.has_parent() && same_obj(p, &q, c, 1),
        _ => false,
    }
}

/// How the files of a case look to the model.
pub struct Fs { pub ents: Vec<(String, u32, Vec<u8>)> }
impl Fs {
    pub fn none() -> Self { Fs { ents: vec![] } }
    /// canonical path of an existing file or directory
    fn canon(&self, p: &str, hops: u32) -> Option<String> {
        let mut cur = String::new();
        let parts: Vec<&str> = p.split('/').collect();
        let mut i = 0;
        while i < parts.len() {
            let c = parts[i];
            i += 1;
            if c.is_empty() || c == "." { if !self.is_dir(&cur) { return None; } continue; }
            if c == ".." {
                if !self.is_dir(&cur) { return None; }
                if let Some(k) = cur.rfind('/') { cur.truncate(k); }
                continue;
            }
            if !self.is_dir(&cur) { return None; }
            cur.push('/');
            cur.push_str(c);
            let e = self.ents.iter().find(|e| e.0 == cur)?;
            if e.1 == 2 {
                if hops > 8 { return None; }
                let t = std::str::from_utf8(&e.2).unwrap();
                let k = cur.rfind('/').unwrap();
                cur.truncate(k);
                let full = if t.starts_with('/') { t.to_string() } else { format!("{}/{}", cur, t) };
                cur = self.canon(&full, hops + 1)?;
            }
        }
        Some(cur)
    }
    fn is_dir(&self, c: &str) -> bool { c.is_empty() || self.ents.iter().any(|e| e.1 == 1 && e.0 == c) }
    fn file(&self, c: &str) -> Option<&(String, u32, Vec<u8>)> { self.ents.iter().find(|e| e.1 == 0 && e.0 == c) }
}

pub struct Ctx<'a> { pub fs: &'a Fs, pub cwd: String, pub cache: Vec<(u8, String, V)>, pub open: Vec<String> }
impl<'a> Ctx<'a> { pub fn new(fs: &'a Fs, cwd: &str) -> Self { Ctx { fs, cwd: cwd.to_string(), cache: vec![], open: vec![] } } }

struct P<'a, 'b, 'c> { c: &'a [char], i: usize, line: usize, col: usize, file: Option<String>, globals: Vec<(String, V)>, x: &'b mut Ctx<'c> }

type Sc = Vec<(String, V)>;

fn digit(c: char) -> bool { c >= '0' && c <= '9' }
fn op(c: char) -> bool { c == '+' || c == '-' || c == '*' || c == '/' || c == '%' }
fn closer(c: char) -> bool { c == ')' || c == ']' || c == '}' || c == '>' }
fn ender(c: char) -> bool { closer(c) || op(c) || c == '#' || c.is_whitespace() }
fn name_first(c: char) -> bool { c == '_' || c.is_alphabetic() }
fn name_next(c: char) -> bool { c == '_' || digit(c) || c.is_alphabetic() }
pub fn reserved(s: &str) -> bool { s == "null" || s == "true" || s == "false" || s == "Obj" || s == "Str" || s == "Arr" || s == "Tup" }

impl<'a, 'b, 'c> P<'a, 'b, 'c> {
    fn peek(&self) -> Option<char> { if self.i < self.c.len() { Some(self.c[self.i]) } else { None } }
    fn bump(&mut self) { if self.c[self.i] == '\n' { self.line += 1; self.col = 1; } else { self.col += 1; } self.i += 1; }
    fn at<X>(&self, line: usize, col: usize, w: W) -> R<X> { Err(Er::At(self.file.clone(), line, col, w)) }
    fn here<X>(&self, w: W) -> R<X> { self.at(self.line, self.col, w) }
    fn end<X>(&self) -> R<X> { Err(Er::End(self.file.clone(), self.line)) }
    /// skips layout; false at the end of the text
    fn skip(&mut self) -> bool {
        loop {
            match self.peek() {
                None => return false,
                Some('#') => loop { match self.peek() { None => return false, Some('\n') => break, Some(_) => self.bump() } },
                Some(c) if c.is_whitespace() => self.bump(),
                Some(_) => return true,
            }
        }
    }

    fn document(&mut self) -> R<Rc<O>> {
        let mut o = O { fields: vec![], parent: None };
        if !self.skip() { return Ok(Rc::new(o)); }
        while self.pair(&mut o, 1, None)? {}
        Ok(Rc::new(o))
    }

    fn pair(&mut self, o: &mut O, depth: usize, brace: Option<char>) -> R<bool> {
        let c = self.peek().unwrap();
        if closer(c) {
            if brace == Some(c) { self.bump(); return Ok(false); }
            return self.here(W::Close(brace, c));
        }
        let (fl, fc) = (self.line, self.col);
        // the name, up to ':'
        let mut name = String::new();
        let global = c == '@';
        if global { self.bump(); }
        let mut first = true;
        let mut parent = false;
        let mut closed = false;
        while let Some(c) = self.peek() {
            if c == ':' && !first { self.bump(); closed = true; break; }
            let ok = if first { name_first(c) || c == '^' } else { name_next(c) };
            if !ok { if c == '\n' { return Err(Er::Some); } return self.here(W::C("for field", c)); }
            if first && c == '^' { parent = true; }
            name.push(c);
            self.bump();
            first = false;
        }
        if global && parent { return Err(Er::Amb); }
        if global && name.is_empty() { return self.at(fl, fc, W::N("field name", "@".into())); }
        if !global && reserved(&name) { return self.at(fl, fc, W::N("field name", name)); }
        if global && reserved(&name) { return Err(Er::Amb); }
        if parent && name.len() > 1 { return self.at(fl, fc, W::N("field name", name)); }
        if global { if self.globals.iter().any(|g| g.0 == name) { return self.at(fl, fc, W::N("Duplicate global", format!("@{}", name))); } }
        else if parent { if o.parent.is_some() { return self.at(fl, fc, W::N("Duplicate field", name)); } }
        else if o.fields.iter().any(|g| g.0 == name) { return self.at(fl, fc, W::N("Duplicate field", name)); }
        let _ = closed;
        if !self.skip() { return self.end(); }
        let (vl, vc) = (self.line, self.col);
        let v = self.value(&o.fields, vl, vc, depth, brace, true, false)?;
        if let V::Sent(_) = v { return Err(Er::Amb); }
        if global { if self.globals.iter().any(|g| g.0 == name) { return self.at(fl, fc, W::N("Duplicate global", format!("@{}", name))); } self.globals.push((name, v)); }
        else if parent { match v { V::Obj(p) => o.parent = Some(p), v => return self.at(vl, vc, W::T2("mismatch", T::Obj, type_of(&v))) } }
        else { o.fields.push((name, v)); }
        if !self.skip() { return if brace.is_some() { self.end() } else { Ok(false) }; }
        Ok(true)
    }

    /// a bracketed sequence of values, or the rest of the file when `close` is None
    fn sequence(&mut self, sc: &Sc, depth: usize, close: Option<char>, arr: bool) -> R<V> {
        let mut v = Vec::new();
        let mut t = T::Any;
        loop {
            if !self.skip() { if close.is_some() { return self.end(); } break; }
            let c = self.peek().unwrap();
            if close.is_some() && closer(c) { if Some(c) == close { self.bump(); break; } return self.here(W::Close(close, c)); }
            let (l, k) = (self.line, self.col);
            let x = self.value(sc, l, k, depth, close, true, false)?;
            if let V::Sent(_) = x { return Err(Er::Amb); }
            if arr { match unify(&t, &type_of(&x)) { Some(n) => t = n, None => return self.at(l, k, W::T2("Expected", t, type_of(&x))) } }
            v.push(x);
        }
        Ok(if arr { V::Arr(Rc::new((v, t))) } else { V::Tup(Rc::new(v)) })
    }

    fn value(&mut self, sc: &Sc, line: usize, col: usize, depth: usize, brace: Option<char>, first: bool, indot: bool) -> R<V> {
        let c = self.peek().unwrap();
        let v = if c == '"' { self.string()? }
        else if c == '{' || c == '[' || c == '(' || c == '<' {
            if depth + 1 > MAX { return self.here(W::S("64")); }
            if c == '<' { self.include(sc, depth + 1)? } else {
                self.bump();
                if c == '[' { self.sequence(sc, depth + 1, Some(']'), true)? }
                else if c == '(' { self.sequence(sc, depth + 1, Some(')'), false)? }
                else {
                    if !self.skip() { return self.end(); }
                    let mut o = O { fields: vec![], parent: None };
                    while self.pair(&mut o, depth + 1, Some('}'))? {}
                    V::Obj(Rc::new(o))
                }
            }
        }
        else if c == '+' || c == '-' { self.signs(sc, depth, brace)? }
        else if digit(c) || c == '.' || c == ',' { self.number(line, col)?.0 }
        else if name_first(c) || c == '@' || c == '^' { self.name(sc, line, col, depth, indot, brace)? }
        else { return self.at(line, col, W::C("for value", c)) };
        if !first { return Ok(v); }

        // terms of a sum; products are applied as they are read
        let mut terms = vec![(v, '+', 0, 0)];
        while let Some(c) = self.peek() {
            if !op(c) { break; }
            self.bump();
            if self.peek().is_none() { return self.end(); }
            let (l, k) = (self.line, self.col);
            let w = self.value(sc, l, k, depth, brace, false, false)?;
            if c == '+' || c == '-' { terms.push((w, c, l, k)); }
            else {
                let t = terms.last_mut().unwrap();
                match binary(&t.0, &w, c)? { Some(r) => t.0 = r, None => return self.at(l, k, W::op(c, &t.0, &w)) }
            }
        }
        // the value must end here
        if let Some(c) = self.peek() {
            if !ender(c) || (closer(c) && Some(c) != brace) { return self.here(if closer(c) { W::Close(brace, c) } else { W::C("for value", c) }); }
        }
        let mut it = terms.into_iter();
        let mut a = it.next().unwrap().0;
        for (b, c, l, k) in it { match binary(&a, &b, c)? { Some(r) => a = r, None => return self.at(l, k, W::op(c, &a, &b)) } }
        Ok(a)
    }

    fn signs(&mut self, sc: &Sc, depth: usize, brace: Option<char>) -> R<V> {
        let mut ops = vec![];
        while let Some(c) = self.peek() { if c != '+' && c != '-' { break; } self.bump(); ops.push((c, self.line, self.col)); }
        if self.peek().is_none() { return self.end(); }
        let (l, k) = (self.line, self.col);
        let mut v = self.value(sc, l, k, depth, brace, false, false)?;
        while let Some((c, l, k)) = ops.pop() {
            v = match v {
                V::Sent(_) => return Err(Er::Amb),
                V::Int(i) => if c == '-' { V::Int(i.wrapping_neg()) } else { v },
                V::Big(neg, d) => V::Big(neg ^ (c == '-'), d),
                V::Rat(ref r) => if c == '-' { V::Rat(Rc::new((-&r.0, r.1.clone(), r.2))) } else { v },
                V::Frac(n, d) => if c == '-' { V::Frac(n.wrapping_neg(), d) } else { v },
                _ => return self.at(l, k, W::Op1(c, type_of(&v))),
            };
        }
        Ok(v)
    }

    /// the number and whether it was written with a point
    fn number(&mut self, line: usize, col: usize) -> R<(V, bool)> {
        let mut whole: Vec<i64> = vec![];
        let mut dec: Vec<i64> = vec![];
        let mut point = false;
        let mut amb = false;
        let mut prev = ' ';
        while let Some(c) = self.peek() {
            if ender(c) { break; }
            if digit(c) { let d = c as i64 - 48; if point { dec.push(d) } else { whole.push(d) } }
            else if c == '.' || c == ',' { if point { return self.here(W::C("for value", c)); } point = true; if prev == '_' { amb = true; } }
            else if c == '_' { if prev == '_' { return self.here(W::C("for value", c)); } if !digit(prev) { amb = true; } }
            else { return self.here(W::C("for value", c)); }
            prev = c;
            self.bump();
        }
        if prev == '_' { amb = true; }
        if whole.is_empty() && dec.is_empty() { return self.at(line, col, W::S("numeric")); }
        if amb { return Err(Er::Amb); }
        if point && whole.len() + dec.len() > 12 {
            let (n, d) = (long(whole.iter().chain(dec.iter())), long(std::iter::once(&1).chain(dec.iter().map(|_| &0))));
            return Ok((rat(n, d, false), point));
        }
        if whole.len() > 18 {
            let z = whole.iter().position(|&x| x != 0).unwrap_or(whole.len());
            if whole.len() - z > 18 { return Ok((V::Big(false, whole[z..].iter().map(|&x| (x as u8 + 48) as char).collect()), point)); }
        }
        let mut n: i64 = 0;
        let mut d: i64 = 1;
        for x in whole { n = n.wrapping_mul(10).wrapping_add(x); }
        for x in dec { n = n.wrapping_mul(10).wrapping_add(x); d = d.wrapping_mul(10); }
        Ok((if point { frac(n, d)? } else { V::Int(n) }, point))
    }

    fn string(&mut self) -> R<V> {
        self.bump();
        let mut s = String::new();
        loop {
            let c = match self.peek() { None => return self.end(), Some(c) => c };
            if c == '"' { self.bump(); return Ok(V::Str(s)); }
            if c == '\\' {
                self.bump();
                let c = match self.peek() { None => return self.end(), Some(c) => c };
                let e = if c == 'n' { '\n' } else if c == 'r' { '\r' } else if c == 't' { '\t' }
                    else if c == '\\' || c == '"' || c == '\'' || c == '$' { c }
                    else if c == '\n' { return Err(Er::Some) } else { return self.here(W::C("escape", c)) };
                s.push(e);
                self.bump();
                continue;
            }
            s.push(c);
            self.bump();
        }
    }

    fn name(&mut self, sc: &Sc, line: usize, col: usize, depth: usize, indot: bool, brace: Option<char>) -> R<V> {
        if depth > MAX { return self.here(W::S("64")); }
        let global = self.peek() == Some('@');
        if global { self.bump(); }
        let mut n = String::new();
        let mut dot = false;
        let mut at = false;
        while let Some(c) = self.peek() {
            if c == '.' {
                self.bump();
                match self.peek() {
                    None => return self.end(),
                    Some(c) => { at = c == '@'; if !(at || c == '^' || name_first(c) || digit(c) || c == '.' || c == ',') { return self.here(W::C("for value", c)); } }
                }
                dot = true;
                break;
            }
            if ender(c) { break; }
            if !name_next(c) { return self.here(W::C("for value", c)); }
            n.push(c);
            self.bump();
        }
        let v = if global {
            if n.is_empty() { return self.at(line, col, W::N("Invalid value", "@".into())); }
            match self.globals.iter().find(|g| g.0 == n) { Some(g) => g.1.clone(), None => return if reserved(&n) { Err(Er::Amb) } else { self.at(line, col, W::N("Global", format!("@{}", n))) } }
        } else if reserved(&n) {
            let token = n != "null" && n != "true" && n != "false";
            if token && brace != Some('>') { return self.at(line, col, W::N("Invalid value", n)); }
            if indot { return Err(Er::Amb); }
            if n == "null" { V::Null } else if n == "true" { V::Bool(true) } else if n == "false" { V::Bool(false) }
            else if n == "Obj" { V::Sent(0) } else if n == "Str" { V::Sent(1) } else if n == "Arr" { V::Sent(2) } else { V::Sent(3) }
        } else {
            match sc.iter().find(|g| g.0 == n) { Some(g) => g.1.clone(), None => return self.at(line, col, W::N("Variable", n)) }
        };
        if !dot { return Ok(v); }
        let (l, k) = (self.line, self.col);
        match v {
            V::Sent(_) => Err(Er::Amb),
            V::Arr(ref a) => { let i = self.index(sc, depth, indot, brace)?; self.pick(&a.0, i, l, k) }
            V::Tup(ref t) => { let i = self.index(sc, depth, indot, brace)?; self.pick(t, i, l, k) }
            V::Obj(o) => {
                if at { return self.here(W::C("for value", '@')); }
                let mut all = vec![];
                let mut cur = Some(o);
                while let Some(o) = cur { all.extend(o.fields.iter().cloned()); cur = o.parent.clone(); }
                self.name(&all, l, k, depth + 1, true, brace)
            }
            v => self.at(line, col, W::T1("dot notation", type_of(&v))),
        }
    }

    fn index(&mut self, sc: &Sc, depth: usize, indot: bool, brace: Option<char>) -> R<V> {
        let c = self.peek().unwrap();
        let (l, k) = (self.line, self.col);
        if digit(c) || c == '.' || c == ',' {
            let (v, point) = self.number(l, k)?;
            if point { return Err(Er::Amb); }
            return Ok(v);
        }
        if indot && c != '@' { return Err(Er::Amb); }
        self.name(sc, l, k, depth + 1, false, brace)
    }
    fn pick(&self, v: &Vec<V>, i: V, l: usize, k: usize) -> R<V> {
        match i {
            V::Sent(_) => Err(Er::Amb),
            V::Rat(ref r) if r.2 => self.at(l, k, W::Index(r.0.to_string())),
            V::Big(neg, d) => self.at(l, k, W::Index(format!("{}{}", if neg { "-" } else { "" }, d))),
            V::Int(i) => { if i < 0 || i as usize >= v.len() { return self.at(l, k, W::Index(i.to_string())); } Ok(v[i as usize].clone()) }
            i => self.at(l, k, W::T2("Expected", T::Int, type_of(&i))),
        }
    }

    fn include(&mut self, sc: &Sc, depth: usize) -> R<V> {
        self.bump();
        if !self.skip() { return self.end(); }
        let (mut l, mut k) = (self.line, self.col);
        let mut v = self.value(sc, l, k, depth, Some('>'), true, false)?;
        let mut kind = 0;
        match v {
            V::Str(_) => (),
            V::Sent(s) => {
                kind = s;
                if !self.skip() { return self.end(); }
                l = self.line;
                k = self.col;
                v = self.value(sc, l, k, depth, Some('>'), true, false)?;
            }
            v => return self.at(l, k, W::T1("of type", type_of(&v))),
        }
        if !self.skip() { return self.end(); }
        match self.peek() { Some('>') => (), Some(c) => return self.here(W::Close(Some('>'), c)), None => return self.end() }
        self.bump();
        let p = match v { V::Str(s) => s, v => return self.at(l, k, W::T2("Expected", T::Str, type_of(&v))) };
        // relative to the including file's directory
        let joined = match &self.file {
            Some(f) => join(&parent(f), &p),
            None => p.clone(),
        };
        let canon = |x: &Ctx, p: &str| { let abs = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", x.cwd, p) }; if p.is_empty() { None } else { x.fs.canon(&abs, 0) } };
        let full = match canon(self.x, &joined) { Some(f) => f, None => return self.at(l, k, W::N("include path", p)) };
        if self.x.fs.file(&full).is_none() { return self.at(l, k, W::N("include path", p)); }
        let me = self.file.clone().and_then(|f| canon(self.x, &f));
        if let Some(m) = &me { self.x.open.push(m.clone()); }
        if self.x.open.contains(&full) { return self.at(l, k, W::N("cyclically", p)); }
        if let Some(e) = self.x.cache.iter().find(|e| e.0 == kind && e.1 == full) {
            let v = e.2.clone();
            if me.is_some() { self.x.open.pop(); }
            return Ok(v);
        }
        let data = self.x.fs.file(&full).unwrap().2.clone();
        let text = match String::from_utf8(data) { Ok(s) => s, Err(_) => return Err(Er::Some) };
        let v = if kind == 1 { V::Str(text) } else {
            let c: Vec<char> = text.chars().collect();
            let mut q = P { c: &c, i: 0, line: 1, col: 1, file: Some(joined), globals: vec![], x: &mut *self.x };
            if kind == 0 { V::Obj(q.document()?) } else { q.sequence(&vec![], 1, None, kind == 2)? }
        };
        self.x.cache.push((kind, full, v.clone()));
        if me.is_some() { self.x.open.pop(); }
        Ok(v)
    }
}

fn parent(f: &str) -> String { match f.rfind('/') { Some(0) => "/".into(), Some(k) => f[..k].to_string(), None => String::new() } }
fn join(d: &str, p: &str) -> String { if p.starts_with('/') || d.is_empty() { p.to_string() } else if d.ends_with('/') { format!("{}{}", d, p) } else { format!("{}/{}", d, p) } }

/// None when the operands' types do not allow the operator or the divisor is zero
pub fn binary(a: &V, b: &V, o: char) -> R<Option<V>> {
    if let V::Sent(_) = a { return Err(Er::Amb); }
    if let V::Sent(_) = b { return Err(Er::Amb); }
    let small = |i: i64| i < BIG && i > -BIG;
    // small ones in machine words, others with long integers
    let fit = |v: &V| match v { V::Int(i) => small(*i), V::Frac(n, d) => small(*n) && small(*d), V::Big(..) | V::Rat(_) => false, _ => true };
    let number = |v: &V| match type_of(v) { T::Int | T::Frac => true, _ => false };
    if number(a) && number(b) && !(fit(a) && fit(b)) {
        let ((n, d, i), (m, e, j)) = (wide(a), wide(b));
        let int = i && j;
        let zero = if let V::Int(0) | V::Frac(0, _) = b { true } else { false };
        return Ok(match o {
            '+' => Some(if int { rat(n + m, d, true) } else { rat(n * &e + m * &d, d * e, false) }),
            '-' => Some(if int { rat(n - m, d, true) } else { rat(n * &e - m * &d, d * e, false) }),
            '*' => Some(rat(n * m, d * e, int)),
            '/' => if zero { None } else if m.sign() == Sign::Minus { Some(rat(-(n * e), -(d * m), false)) } else { Some(rat(n * e, d * m, false)) },
            _ => if zero || !int { None } else { Some(rat(n % m, d, true)) },
        });
    }
    Ok(match (a, b) {
        (V::Int(p), V::Int(q)) => {
            let (p, q) = (*p, *q);
            match o {
                '+' => Some(V::Int(p.wrapping_add(q))),
                '-' => Some(V::Int(p.wrapping_sub(q))),
                '*' => Some(V::Int(p.wrapping_mul(q))),
                '/' => if q == 0 { None } else { Some(frac(p, q)?) },
                _ => if q == 0 { None } else { Some(V::Int(p.wrapping_rem(q))) },
            }
        }
        (V::Int(_), V::Frac(..)) | (V::Frac(..), V::Int(_)) | (V::Frac(..), V::Frac(..)) => {
            let f = |v: &V| match v { V::Int(i) => (*i, 1), V::Frac(n, d) => (*n, *d), _ => (0, 1) };
            let ((n, d), (m, e)) = (f(a), f(b));
            match o {
                '+' => Some(frac(n.wrapping_mul(e).wrapping_add(m.wrapping_mul(d)), d.wrapping_mul(e))?),
                '-' => Some(frac(n.wrapping_mul(e).wrapping_sub(m.wrapping_mul(d)), d.wrapping_mul(e))?),
                '*' => Some(frac(n.wrapping_mul(m), d.wrapping_mul(e))?),
                '/' => if m == 0 { None } else { Some(frac(n.wrapping_mul(e), d.wrapping_mul(m))?) },
                _ => None,
            }
        }
        (V::Str(p), V::Str(q)) if o == '+' => { let mut s = p.clone(); s.push_str(q); Some(V::Str(s)) }
        (V::Arr(p), V::Arr(q)) if o == '+' => match unify(&p.1, &q.1) {
            Some(t) => { let mut v = p.0.clone(); v.extend(q.0.iter().cloned()); Some(V::Arr(Rc::new((v, t)))) }
            None => None,
        },
        _ => None,
    })
}

pub fn parse_str(c: &[char], fs: &Fs, cwd: &str) -> R<Rc<O>> {
    let mut x = Ctx::new(fs, cwd);
    P { c, i: 0, line: 1, col: 1, file: None, globals: vec![], x: &mut x }.document()
}

pub fn parse_file(path: &str, fs: &Fs, cwd: &str) -> R<Rc<O>> {
    let abs = if path.starts_with('/') { path.to_string() } else { format!("{}/{}", cwd, path) };
    let data = match fs.canon(&abs, 0).and_then(|f| fs.file(&f)) { Some(f) => f.2.clone(), None => return Err(Er::Some) };
    let text = match String::from_utf8(data) { Ok(s) => s, Err(_) => return Err(Er::Some) };
    let c: Vec<char> = text.chars().collect();
    let mut x = Ctx::new(fs, cwd);
    P { c: &c, i: 0, line: 1, col: 1, file: Some(path.to_string()), globals: vec![], x: &mut x }.document()
}

/// Reads `word` and the number after it, at the last place where it stands in the message.
fn number_after(m: &[u8], from: usize) -> Option<(usize, usize)> {
    let mut i = from;
    let mut n = 0;
    while i < m.len() && m[i] >= b'0' && m[i] <= b'9' { n = n * 10 + (m[i] - b'0') as usize; i += 1; }
    if i == from { None } else { Some((n, i)) }
}

/// Does the message name this place?
pub fn names(e: &Er, msg: &str) -> bool {
    let (file, line, col) = match e { Er::At(f, l, c, _) => (f, *l, Some(*c)), Er::End(f, l) => (f, *l, None), _ => return true };
    let m = msg.as_bytes();
    if let Some(f) = file {
        let mut p = f.clone();
        p.push(':');
        if m.len() < p.len() || &m[..p.len()] != p.as_bytes() { return false; }
    }
    let mut i = m.len();
    while i > 0 {
        i -= 1;
        if m[i] == b'l' && m.len() - i >= 5 && &m[i..i + 5] == b"line " {
            let (n, j) = match number_after(m, i + 5) { Some(x) => x, None => continue };
            if n != line { return false; }
            let c = match col { None => return true, Some(c) => c };
            // ", column N" or ", col N"
            let mut k = j;
            while k < m.len() && !(m[k] >= b'0' && m[k] <= b'9') { if k - j > 9 { return false; } k += 1; }
            return match number_after(m, k) { Some((x, _)) => x == c, None => false };
        }
    }
    false
}
