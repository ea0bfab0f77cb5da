//! Harnesses over the public API. Which operations and kinds of values are used is chosen by symbolic selectors; the
//! contents (integers, characters, indices, names) are symbolic.
use crate::docs::{deep, deep_obj, UNI};
use crate::spec::{self, teq, unify, Cmp, Ids, O, T, V};
use crate::sym;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::Zero;
use over::arr::Arr;
use over::obj::Pair;
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use over::{arr, frac, int, obj, try_arr, try_obj, tup};
use over::{Obj, OverError, ReferenceType};
use std::rc::Rc;
use std::str::FromStr;

fn pick(n: usize) -> usize { sym::choice(n as u32) as usize }

// ---------- C05: types

fn real(t: &T) -> Type {
    match t {
        T::Any => Type::Any, T::Null => Type::Null, T::Bool => Type::Bool, T::Int => Type::Int, T::Frac => Type::Frac, T::Str => Type::Str, T::Obj => Type::Obj,
        T::Arr(x) => Type::Arr(Box::new(real(x))),
        T::Tup(v) => Type::Tup(v.iter().map(real).collect()),
    }
}
fn has_any(t: &T) -> bool { match t { T::Any => true, T::Arr(x) => has_any(x), T::Tup(v) => v.iter().any(has_any), _ => false } }
fn same_t(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Any, T::Any) | (T::Null, T::Null) | (T::Bool, T::Bool) | (T::Int, T::Int) | (T::Frac, T::Frac) | (T::Str, T::Str) | (T::Obj, T::Obj) => true,
        (T::Arr(x), T::Arr(y)) => same_t(x, y),
        (T::Tup(x), T::Tup(y)) => x.len() == y.len() && (0..x.len()).all(|i| same_t(&x[i], &y[i])),
        _ => false,
    }
}
fn shown(t: &T) -> String {
    match t {
        T::Any => "Any".into(), T::Null => "Null".into(), T::Bool => "Bool".into(), T::Int => "Int".into(), T::Frac => "Frac".into(), T::Str => "Str".into(), T::Obj => "Obj".into(),
        T::Arr(x) => { let mut s = String::from("Arr("); s.push_str(&shown(x)); s.push(')'); s }
        T::Tup(v) => { let mut s = String::from("Tup("); for i in 0..v.len() { if i > 0 { s.push_str(", "); } s.push_str(&shown(&v[i])); } s.push(')'); s }
    }
}
const LEAVES: [T; 7] = [T::Any, T::Int, T::Str, T::Null, T::Bool, T::Frac, T::Obj];
/// a type of at most `depth` container levels over the first `leaves` leaf types, tuples of at most `width`
fn gen_type(depth: usize, leaves: usize, width: usize) -> T {
    let k = pick(if depth == 0 { leaves } else { leaves + 2 + width });
    if k < leaves { return LEAVES[k].clone(); }
    if k == leaves { return T::Arr(Box::new(gen_type(depth - 1, leaves, width))); }
    T::Tup((0..k - leaves - 1).map(|_| gen_type(depth - 1, leaves, width)).collect())
}
/// a long tuple or deep arrays, with one place that is not like the others
fn wide_type(n: usize, leaves: usize) -> T {
    let leaf = gen_type(0, leaves, 0);
    match pick(3) {
        0 => { let at = [0, 1, n / 2, n - 2, n - 1][pick(5)]; T::Tup((0..n).map(|i| if i == at { leaf.clone() } else { T::Int }).collect()) }
        1 => T::Tup((0..n - 1).map(|_| leaf.clone()).collect()),
        _ => { let mut t = leaf; for i in 0..n { t = if i % 3 == 2 { T::Tup(vec![T::Int, t]) } else { T::Arr(Box::new(t)) }; } t }
    }
}
fn laws(a: &T, b: &T) {
    let (x, y) = (real(a), real(b));
    sym::check(x.is(&y) == same_t(a, b), 101);
    sym::check(y.is(&x) == same_t(a, b), 102);
    sym::check(x == x.clone() && x.is(&x.clone()), 103);
    let u = unify(a, b);
    sym::check((x == y) == u.is_some(), 104);
    sym::check((y == x) == u.is_some(), 105);
    sym::check((x != y) == u.is_none(), 106);
    sym::check(x.has_any() == has_any(a), 107);
    let (m, n) = (Type::most_specific(&x, &y), Type::most_specific(&y, &x));
    match (u, m, n) {
        (Some(t), Some((p, f)), Some((q, g))) => {
            sym::reach(1);
            sym::check(teq(&t, &p), 108);
            sym::check(teq(&t, &q), 109);
            sym::check(f == has_any(&t) && g == f, 110);
            sym::check(p == x && p == y && x == p, 111);
        }
        (None, None, None) => sym::reach(2),
        _ => sym::check(false, 112),
    }
}
/// param: depth | leaves << 8 | width << 16 | three << 24
pub fn h_types(param: u64) {
    let (d, l, w) = ((param & 0xff) as usize, (param >> 8 & 0xff) as usize, (param >> 16 & 0xff) as usize);
    if param >> 25 & 1 == 1 { let (a, b) = (wide_type(w, l), wide_type(w, l)); sym::check(format!("{}", real(&a)) == shown(&a), 113); return laws(&a, &b); }
    let a = gen_type(d, l, w);
    sym::check(format!("{}", real(&a)) == shown(&a), 113);
    let b = gen_type(d, l, w);
    laws(&a, &b);
    if param >> 24 & 1 == 1 {
        // folding three, in either grouping
        let c = gen_type(d, l, w);
        let (x, y, z) = (real(&a), real(&b), real(&c));
        let l = Type::most_specific(&x, &y).and_then(|(p, _)| Type::most_specific(&p, &z));
        let r = Type::most_specific(&y, &z).and_then(|(p, _)| Type::most_specific(&x, &p));
        let u = unify(&a, &b).and_then(|t| unify(&t, &c));
        match (l, u) { (Some((p, f)), Some(t)) => sym::check(teq(&t, &p) && f == has_any(&t), 114), (None, None) => (), _ => sym::check(false, 115) }
        let v = unify(&b, &c).and_then(|t| unify(&a, &t));
        match (r, v) { (Some((p, _)), Some(t)) => sym::check(teq(&t, &p), 116), (None, None) => (), _ => sym::check(false, 117) }
    }
}

// ---------- C04: arrays

const KINDS: &[&str] = &["[]", "[1]", "[\"\"]", "[[]]", "[[1]]", "[[\"\"]]", "1", "\"\"", "null", "([] 1)", "([1] 1)", "([] [])", "([1] [])", "([] [\"\"])", "()", "{}", "1.5", "true", "([])", "[()]", "[([] 1)]"];
fn text_value(s: &str) -> Value { Obj::from_str(&format!("a: {}", s)).ok().and_then(|o| o.get("a")).unwrap() }
fn kind_type(k: usize) -> T {
    let arr = |t: T| T::Arr(Box::new(t));
    match k {
        0 => arr(T::Any), 1 => arr(T::Int), 2 => arr(T::Str), 3 => arr(arr(T::Any)), 4 => arr(arr(T::Int)), 5 => arr(arr(T::Str)), 6 => T::Int, 7 => T::Str, 8 => T::Null,
        9 => T::Tup(vec![arr(T::Any), T::Int]), 10 => T::Tup(vec![arr(T::Int), T::Int]), 11 => T::Tup(vec![arr(T::Any), arr(T::Any)]), 12 => T::Tup(vec![arr(T::Int), arr(T::Any)]),
        13 => T::Tup(vec![arr(T::Any), arr(T::Str)]), 14 => T::Tup(vec![]), 15 => T::Obj, 16 => T::Frac, 17 => T::Bool, 18 => T::Tup(vec![arr(T::Any)]), 19 => arr(T::Tup(vec![])),
        _ => arr(T::Tup(vec![arr(T::Any), T::Int])),
    }
}
/// param: elements | kinds << 8 | route << 16 (0 from_values, 1 text, 2 two arrays and `+`, 3 an included Arr file)
pub fn h_arr(param: u64) {
    let (n, kinds, route) = ((param & 0xff) as usize, (param >> 8 & 0xff) as usize, param >> 16 & 3);
    let ks: Vec<usize> = if param >> 18 & 1 == 1 {
        // many alike, and two of other kinds
        let base = [0, 1, 6, 9, 10][pick(5)];
        let (i, j) = ([0, 1, n / 2, n - 2][pick(4)], [2, n / 2 + 1, n - 1][pick(3)]);
        let (x, y) = (pick(kinds), pick(kinds));
        (0..n).map(|k| if k == i { x } else if k == j { y } else { base }).collect()
    } else { (0..n).map(|_| pick(kinds)).collect() };
    let fold = |ks: &[usize]| { let mut t = Some(T::Any); for &k in ks { t = t.and_then(|t| unify(&t, &kind_type(k))); } t };
    let vals: Vec<Value> = ks.iter().map(|&k| text_value(KINDS[k])).collect();
    for i in 0..n { sym::check(teq(&kind_type(ks[i]), &vals[i].get_type()), 121); }
    let text = |ks: &[usize]| { let mut s = String::new(); for &k in ks { s.push(' '); s.push_str(KINDS[k]); } s };
    let (want, got) = match route {
        0 => {
            let r = Arr::from_values(vals.clone());
            if let Err(e) = &r {
                // the error names the type so far and the type that does not fit
                let mut t = T::Any;
                let mut bad = None;
                for &k in &ks { match unify(&t, &kind_type(k)) { Some(u) => t = u, None => { bad = Some(kind_type(k)); break } } }
                match (e, bad) { (OverError::ArrTypeMismatch(x, y), Some(b)) => sym::check(teq(&t, x) && teq(&b, y), 122), _ => sym::check(false, 123) }
            }
            // the conversion does the same
            match (&r, <Arr as std::convert::TryFrom<Vec<Value>>>::try_from(vals.clone())) {
                (Ok(a), Ok(b)) => sym::check(a.inner_type().is(&b.inner_type()) && b.len() == n && (0..n).all(|i| deep(&b.get(i).unwrap(), &vals[i])), 129),
                (Err(a), Err(b)) => sym::check(a.to_string() == b.to_string(), 129),
                _ => sym::check(false, 129),
            }
            let t = Tup::from(vals.clone());
            let want: Vec<T> = ks.iter().map(|&k| kind_type(k)).collect();
            let inner = t.inner_type_vec();
            sym::check(t.len() == n && inner.len() == n && (0..n).all(|i| teq(&want[i], &inner[i]) && deep(&t.get(i).unwrap(), &vals[i])), 130);
            (fold(&ks), r.ok())
        }
        1 => (fold(&ks), Obj::from_str(&format!("a: [{} ]", text(&ks))).ok().map(|o| o.get_arr("a").unwrap())),
        2 => {
            let m = if n < 10 { pick(n + 1) } else { [0, 1, n / 2, n][pick(4)] };
            match (fold(&ks[..m]), fold(&ks[m..])) { (Some(_), Some(_)) => (), _ => sym::assume(false) }
            let (p, q) = (text(&ks[..m]), text(&ks[m..]));
            let direct = Obj::from_str(&format!("a: [{} ]+[{} ]", p, q));
            let named = Obj::from_str(&format!("x: [{} ] y: [{} ] a: x+y", p, q));
            sym::check(direct.is_ok() == named.is_ok(), 124);
            (unify(&fold(&ks[..m]).unwrap(), &fold(&ks[m..]).unwrap()), named.ok().map(|o| o.get_arr("a").unwrap()))
        }
        _ => {
            let f = format!("{}/f", sym::fs_base());
            sym::fs_add(&f, text(&ks).as_bytes(), 0);
            (fold(&ks), Obj::from_str("a: <Arr \"f\">").ok().map(|o| o.get_arr("a").unwrap()))
        }
    };
    match (want, got) {
        (Some(t), Some(a)) => {
            sym::reach(1);
            sym::check(a.len() == n && (0..n).all(|i| deep(&a.get(i).unwrap(), &vals[i])), 125);
            sym::check(teq(&t, &a.inner_type()), 126);
            for v in a.iter() { sym::check(v.get_type() == a.inner_type(), 127); }
        }
        (None, None) => sym::reach(2),
        _ => sym::check(false, 128),
    }
}

// ---------- values

fn ascii(n: usize) -> String { let mut s = String::new(); for _ in 0..n { let b = sym::u8(); sym::assume(b < 128); s.push(b as char); } s }
fn letter() -> String { let b = sym::u8(); sym::assume(b >= b'a' && b <= b'c'); (b as char).to_string() }
const FRACS: [(i64, i64); 6] = [(1, 2), (-3, 4), (2, 1), (0, 1), (-7, 1), (12345678901, 10)];

/// a leaf with symbolic content
fn leaf(k: usize, rich: usize) -> Value {
    match k {
        0 => Value::Null,
        1 => Value::Bool(sym::u8() & 1 == 1),
        2 => match rich { 0 => Value::Int(BigInt::from(sym::u8() as i8)), 1 => Value::Int(BigInt::from([0i64, 7, -12][pick(3)])), _ => Value::Int(BigInt::from([0i64, -1, i64::MAX, i64::MIN][pick(4)]) * BigInt::from([1i64, i64::MAX][pick(2)])) },
        3 => { let (n, d) = FRACS[pick(if rich == 1 { 3 } else { FRACS.len() })]; Value::Frac(BigRational::new(n.into(), d.into())) }
        _ => Value::Str(match rich { 0 => ascii(1), 1 => ["", "a\"", "\\$"][pick(3)].into(), _ => { let mut s = ascii(1); match pick(3) { 0 => s.push(UNI[pick(UNI.len())]), 1 => s.push_str(&ascii(2)), _ => () } s } }),
    }
}
/// any value of at most `depth` container levels
fn gen(depth: usize, rich: usize, width: usize) -> Value {
    let k = pick(if depth == 0 { 5 } else { 8 });
    if k < 5 { return leaf(k, rich); }
    let n = pick(width + 1);
    match k {
        5 => { let v: Vec<Value> = (0..n).map(|_| gen(depth - 1, rich, width)).collect(); match Arr::from_values(v) { Ok(a) => Value::Arr(a), Err(_) => { sym::assume(false); Value::Null } } }
        6 => Value::Tup(Tup::from_values((0..n).map(|_| gen(depth - 1, rich, width)).collect())),
        _ => Value::Obj(gen_obj(n, depth - 1, rich, width)),
    }
}
fn gen_obj(n: usize, depth: usize, rich: usize, width: usize) -> Obj {
    let parent = match if depth > 0 { pick(4) } else { pick(2) * 4 } {
        0 => None,
        1 => Some(gen_obj(1, depth - 1, rich.min(1), width)),
        2 => Some(obj! {}),
        3 => Some(Obj::from_pairs(vec![Pair("a".into(), Value::Null)], Some(obj! { "p" => 2 })).unwrap()),
        _ => Some(obj! { "p" => 1 }),
    };
    let pairs = (0..n).map(|i| Pair(["a", "_b", "é1"][i % 3].into(), gen(depth, rich, width))).collect();
    Obj::from_pairs(pairs, parent).unwrap()
}

// ---------- every way of looking at a container agrees (C10, C20, C23)

fn is_same(a: &Value, b: &Value) -> bool {
    match (a, b) { (Value::Arr(x), Value::Arr(y)) => x.ptr_eq(y), (Value::Tup(x), Value::Tup(y)) => x.ptr_eq(y), (Value::Obj(x), Value::Obj(y)) => x.ptr_eq(y), _ => deep(a, b) }
}
fn look_seq(v: &[Value]) { for x in v { look_value(x); } }
pub fn look_value(v: &Value) {
    match v {
        Value::Arr(a) => {
            let r = a.values_ref();
            let n = r.len();
            sym::check(a.len() == n && a.is_empty() == (n == 0) && a.iter().count() == n, 401);
            let mut k = 0;
            let mut ok = true;
            a.with_each(|x| { ok &= k < n && is_same(x, &r[k]); k += 1; });
            sym::check(ok && k == n && a.iter().zip(r).all(|(x, y)| is_same(x, y)), 402);
            for i in 0..n { sym::check(match a.get(i) { Ok(x) => is_same(&x, &r[i]), Err(_) => false }, 403); }
            for i in [n, n + 1, 1 << 32, usize::MAX] { sym::check(match a.get(i) { Err(OverError::ArrOutOfBounds(j)) => j == i, _ => false }, 404); }
            look_seq(r);
        }
        Value::Tup(a) => {
            let r = a.values_ref();
            let n = r.len();
            sym::check(a.len() == n && a.is_empty() == (n == 0) && a.iter().count() == n, 405);
            let mut k = 0;
            let mut ok = true;
            a.with_each(|x| { ok &= k < n && is_same(x, &r[k]); k += 1; });
            sym::check(ok && k == n && a.iter().zip(r).all(|(x, y)| is_same(x, y)), 406);
            for i in 0..n { sym::check(match a.get(i) { Ok(x) => is_same(&x, &r[i]), Err(_) => false }, 407); }
            for i in [n, n + 1, 1 << 32, usize::MAX] { sym::check(match a.get(i) { Err(OverError::TupOutOfBounds(j)) => j == i, _ => false }, 408); }
            let t = a.inner_type_vec();
            sym::check(t.len() == n && (0..n).all(|i| t[i].is(&r[i].get_type())), 409);
            look_seq(r);
        }
        Value::Obj(o) => look(o),
        _ => (),
    }
}
pub fn look(o: &Obj) {
    let r = o.pairs_ref();
    let n = r.len();
    sym::check(o.len() == n && o.is_empty() == (n == 0) && o.iter().count() == n, 411);
    let mut k = 0;
    let mut ok = true;
    o.with_each(|f, x| { ok &= k < n && *f == r[k].0 && is_same(x, &r[k].1); k += 1; });
    sym::check(ok && k == n && o.iter().zip(r).all(|(x, y)| x.0 == y.0 && is_same(&x.1, &y.1)), 412);
    sym::check(o.has_parent() == o.get_parent().is_some(), 413);
    // the line of ancestors, and every name in it
    let mut line = vec![o.clone()];
    while let Some(p) = line[line.len() - 1].get_parent() { line.push(p); }
    let mut names: Vec<String> = vec!["zz".into(), "".into(), "^".into()];
    for a in &line {
        for p in a.pairs_ref() {
            if names.contains(&p.0) { continue; }
            names.push(p.0.clone());
            // names that are nearly this one
            let n = names.len();
            if n < 12 { for f in [p.0.to_ascii_uppercase(), p.0.to_ascii_lowercase(), format!("{}_", p.0), format!("^{}", p.0), format!("@{}", p.0)] { if !names.contains(&f) { names.push(f); } } }
        }
    }
    for f in &names {
        sym::check(o.contains(f) == r.iter().any(|p| p.0 == *f), 414);
        let mut want: Option<(&Value, &Obj)> = None;
        for a in &line { if want.is_none() { if let Some(p) = a.pairs_ref().iter().find(|p| p.0 == *f) { want = Some((&p.1, a)); } } }
        match (want, o.get(f), o.get_with_source(f)) {
            (None, None, None) => sym::check(missing(&o.get_bool(f), f) && missing(&o.get_int(f), f) && missing(&o.get_frac(f), f) && missing(&o.get_str(f), f) && missing(&o.get_arr(f), f) && missing(&o.get_tup(f), f) && missing(&o.get_obj(f), f), 415),
            (Some((v, a)), Some(x), Some((y, s))) => {
                sym::check(is_same(v, &x) && is_same(v, &y), 416);
                sym::check(s.ptr_eq(a) && s.id() == a.id(), 417);
                macro_rules! agree { ($($m:ident),*) => { $( sym::check(o.$m(f) == v.$m(), 418); )* } }
                agree!(get_bool, get_int, get_frac, get_str, get_arr, get_tup, get_obj);
            }
            _ => sym::check(false, 419),
        }
    }
    for p in r { look_value(&p.1); }
    if let Some(p) = o.get_parent() { look(&p); }
}
/// an Obj with up to n ancestors
fn line(n: usize, kinds: usize) -> Obj {
    let mut parent = None;
    for _ in 0..pick(n + 1) { parent = Some(link(kinds, parent)); }
    link(kinds, parent)
}
fn link(kinds: usize, parent: Option<Obj>) -> Obj {
    let one = |s: &str, v: Value| vec![Pair(s.into(), v)];
    let pairs = match pick(kinds) {
        0 => vec![],
        1 => one("a", Value::from(sym::u8() & 1)),
        2 => one("b", Value::Obj(obj! {})),
        3 => one("a", Value::Null),
        4 => vec![Pair("a".into(), 1.into()), Pair("b".into(), 2.into())],
        _ => vec![Pair("b".into(), 2.into()), Pair("a".into(), 1.into())],
    };
    Obj::from_pairs(pairs, parent).unwrap()
}
/// param: depth | rich << 8 | width << 16
pub fn h_look(param: u64) {
    let (d, rich, w) = ((param & 0xff) as usize, (param >> 8 & 0xff) as usize, (param >> 16 & 0xff) as usize);
    if param >> 24 & 1 == 1 { look(&line(d, w)) } else { look(&gen_obj(pick(w + 1), d, rich, w)) }
}

// ---------- C03

fn reread(s: &str, v: &Value) {
    sym::note(s.as_bytes());
    match Obj::from_str(&format!("v: {}", s)) {
        Ok(o) => match o.get("v") { Some(w) => { sym::check(o.len() == 1 && deep(v, &w), 131); sym::check(w.get_type().is(&v.get_type()), 132); sym::check(&w == v, 133); } None => sym::check(false, 134) },
        Err(_) => sym::check(false, 135),
    }
}
/// param: depth | rich << 8 | width << 16 | what << 24 (0 Obj written, 1 values displayed)
pub fn h_write(param: u64) {
    let (d, rich, w, what) = ((param & 0xff) as usize, (param >> 8 & 0xff) as usize, (param >> 16 & 0xff) as usize, param >> 24);
    if what == 0 {
        let o = gen_obj(pick(w + 1), d, rich, w);
        let s = o.write_to_string();
        sym::note(s.as_bytes());
        match Obj::from_str(&s) {
            Ok(p) => { sym::check(deep_obj(&o, &p), 136); sym::check(o == p, 137); sym::check(p.write_to_string() == s, 138); }
            Err(_) => sym::check(false, 139),
        }
        reread(&format!("{}", o), &Value::Obj(o.clone()));
    } else {
        let v = gen(d, rich, w);
        reread(&format!("{}", v), &v);
        match &v { Value::Arr(a) => reread(&format!("{}", a), &v), Value::Tup(a) => reread(&format!("{}", a), &v), Value::Obj(a) => reread(&format!("{}", a), &v), _ => () }
    }
}
/// long strings, names and numbers. param: kind | length << 8
pub fn h_write_long(param: u64) {
    if param & 0xff == 8 { return hops((param >> 8) as usize); }
    let n = (param >> 8) as usize;
    let o = match param & 0xff {
        0 => { let mut s: String = "xy".repeat(n); s.push_str(&ascii(1)); s.push_str(&"z\n".repeat(n)); s.push_str(&ascii(1)); obj! { "a" => s.as_str() } }
        1 => {
            let v = BigInt::from(sym::u8() & 7) * (BigInt::from(1u64) << n) + BigInt::from(5);
            obj! { "a" => v.clone(), "b" => -v }
        }
        2 => {
            let d = sym::u8();
            sym::assume(d > 0 && d < 10);
            let v = BigRational::new((BigInt::from(1) << n) + BigInt::from(d), BigInt::from(d));
            obj! { "a" => v.clone(), "b" => -v }
        }
        3 => {
            // an Obj of `n` nested levels of one symbolic style
            let k = pick(4);
            let mut v: Value = Value::Int(1.into());
            for i in 1..n { v = match if k == 3 { i % 3 } else { k } { 0 => arr![v].into(), 1 => tup!(v, 2).into(), _ => obj! { "k" => v }.into() }; }
            obj! { "a" => v }
        }
        5 => {
            // any small fraction, whole, negative or zero
            let d = BigInt::from([1i64, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 25, 50, 99, 100, 125, 1000, 1_000_000_007][pick(20)]);
            let v = BigRational::new(BigInt::from(pick(2 * n + 1) as i64 - n as i64), d);
            reread(&format!("{}", Value::from(v.clone())), &Value::from(v.clone()));
            obj! { "a" => v.clone(), "b" => arr![v.clone(), -v.clone()], "c" => tup!(v, 1) }
        }
        9 => {
            // fractions around powers of ten, over powers of some numbers
            let ten = |k: usize| { let mut v = BigInt::from(1); for _ in 0..k { v = v * 10; } v };
            let k = pick(n + 1);
            let mut v = ten(k) * BigInt::from([1, 3, -1, -7][pick(4)]) + BigInt::from(pick(3) as i64 - 1);
            if pick(4) == 0 { v = v * ten(n); }
            let d = match pick(4) { 0 => ten(pick(2 * n + 1)), 1 => BigInt::from(1u64 << pick(3 * n)), 2 => BigInt::from([3, 7, 9, 99, 999, 999_999, 1001, 1_000_003][pick(8)]), _ => ten(pick(n)) * 3 };
            let v = BigRational::new(v, d);
            reread(&format!("{}", Value::from(v.clone())), &Value::from(v.clone()));
            obj! { "a" => v.clone(), "b" => tup!(v, 1) }
        }
        6 => {
            // Ints around the byte at bit `n`
            let v = BigInt::from((sym::u8() as u64) << n) - BigInt::from(pick(2) as u64);
            reread(&format!("{}", Value::from(v.clone())), &Value::from(v.clone()));
            obj! { "a" => v.clone(), "b" => -v }
        }
        7 => {
            // deeper than a text may be: written all the same
            let k = pick(4);
            let (mut v, mut want): (Value, String) = (Value::Int(1.into()), "1".into());
            for i in 0..n {
                match if k == 3 { 1 + i % 2 } else { k } {
                    0 => { v = arr![v].into(); want = format!("[{}]", want) }
                    1 => { v = tup!(v, 2).into(); want = format!("({}2)", want) }
                    _ => { v = obj! { "k" => v, "l" => true }.into(); want = format!("{{k:{}l:true}}", want) }
                }
            }
            for (s, want) in [(format!("{}", v), want.clone()), (obj! { "a" => v.clone() }.write_to_string(), format!("a:{}", want))] {
                sym::check(s.chars().filter(|c| !c.is_whitespace()).collect::<String>() == want, 138);
                if want.starts_with("a:") { match Obj::from_str(&s) { Ok(p) => sym::check(p == obj! { "a" => v.clone() }, 137), Err(_) => sym::check(n > 63, 139) } }
            }
            return;
        }
        _ => {
            // parents `n` deep
            let mut p = obj! { "a" => sym::u8() & 1 == 1 };
            for i in 1..n { p = Obj::from_pairs(vec![Pair("b".into(), (i as u32).into())], Some(p)).unwrap(); }
            p
        }
    };
    let s = o.write_to_string();
    sym::note(s.as_bytes());
    match Obj::from_str(&s) { Ok(p) => { sym::check(deep_obj(&o, &p), 136); sym::check(o == p, 137); } Err(_) => sym::check(false, 139) }
}

/// `n` parents up: which field is asked for is symbolic, and where on the way it is defined once more
fn hops(n: usize) {
    let (k, again) = ({ let k = sym::u32() as usize; sym::assume(k <= n); sym::conc(k as u64) as usize }, [0, 1, n / 2, n - 1][pick(4)]);
    let name = |i: usize| format!("f{}", i);
    let mut chain: Vec<Obj> = vec![];
    for i in 0..n {
        let mut f = vec![Pair(name(i), (i as u32).into())];
        if i == again && k != i { f.push(Pair(name(k), true.into())); }
        chain.push(Obj::from_pairs(f, chain.last().cloned()).unwrap());
    }
    let top = &chain[n - 1];
    let src = if k == n { again } else { k.max(again) };
    let want: Value = if k < n && src == k { (k as u32).into() } else { true.into() };
    sym::check(top.get(&name(k)) == Some(want.clone()), 150);
    match top.get_with_source(&name(k)) { Some((v, o)) => { sym::check(v == want, 151); sym::check(o.ptr_eq(&chain[src]) && o.id() == chain[src].id(), 152); } None => sym::check(false, 151) }
    sym::check(top.contains(&name(k)) == (src == n - 1), 153);
    sym::check(top.get("none").is_none() && top.get_with_source("none").is_none(), 154);
    let mut ids: Vec<usize> = chain.iter().map(|o| o.id()).collect();
    ids.sort();
    ids.dedup();
    sym::check(ids.len() == n, 155);
    // a second chain differs in the one place
    let at = pick(2) * (n - 1);
    let mut other: Option<Obj> = None;
    for i in 0..n {
        let f: Vec<Pair> = chain[i].iter().map(|Pair(x, v)| Pair(x.clone(), if i == at { Value::Null } else { v.clone() })).collect();
        other = Some(Obj::from_pairs(f, other).unwrap());
    }
    sym::check(&other.unwrap() != top, 156);
}

// ---------- C17

/// param: depth | rich << 8 | width << 16
pub fn h_eq(param: u64) {
    let (d, rich, w) = ((param & 0xff) as usize, (param >> 8 & 0xff) as usize, (param >> 16 & 0xff) as usize);
    let (a, b) = if param >> 24 & 2 == 2 {
        // long ones that differ in one place, or in the last one only by what follows, or not at all
        let (n, x, y) = (w, sym::u8(), sym::u8());
        let at = { let k = sym::u32() as usize; sym::assume(k <= n); sym::conc(k as u64) as usize };
        let (kind, more) = (pick(5), pick(2) == 1);
        let make = |c: u8, n: usize| -> Value {
            let v = |i: usize| -> Value { if i == at { (c as u32).into() } else { (i as u32).into() } };
            match kind {
                0 => Arr::from_values((0..n).map(v).collect()).unwrap().into(),
                1 => Tup::from_values((0..n).map(v).collect()).into(),
                2 => Obj::from_pairs((0..n).map(|i| Pair(format!("f{}", i), v(i))).collect(), None).unwrap().into(),
                3 => Obj::from_pairs((0..n).map(|i| Pair(if i == at { format!("g{}", c & 3) } else { format!("f{}", i) }, 1.into())).collect(), None).unwrap().into(),
                _ => { let mut t = vec![b'x'; n]; if at < n { t[at] = b'a' + (c & 15); } Value::Str(String::from_utf8(t).unwrap()) }
            }
        };
        let around = pick(5);
        let wrap = |v: Value| -> Value {
            match around {
                0 => v,
                1 => Tup::from_values(vec![v]).into(),
                2 => Arr::from_values(vec![v]).unwrap().into(),
                3 => Obj::from_pairs(vec![Pair("o".into(), v)], None).unwrap().into(),
                _ => match v { Value::Obj(o) => Obj::from_pairs(vec![], Some(o)).unwrap().into(), v => v },
            }
        };
        (wrap(make(x, n)), wrap(make(y, n + more as usize)))
    } else if param >> 24 & 1 == 1 { let a = line(d, w); let b = line(d, w); (Value::Obj(a), Value::Obj(b)) } else { let a = gen(d, rich, w); (a, gen(d, rich, w)) };
    let e = deep(&a, &b);
    sym::check((a == b) == e, 141);
    sym::check((b == a) == e, 142);
    sym::check((a != b) == !e, 143);
    sym::check(a == a.clone() && b == b.clone(), 144);
    sym::check((Pair("x".into(), a.clone()) == Pair("x".into(), b.clone())) == e, 145);
    sym::check(Pair("x".into(), a.clone()) != Pair("y".into(), b.clone()), 146);
    match &b {
        Value::Arr(x) => { sym::check((a == *x) == e && (*x == a) == e, 147); if let Value::Arr(y) = &a { sym::check((x == y) == e, 148); } }
        Value::Tup(x) => { sym::check((a == *x) == e && (*x == a) == e, 147); if let Value::Tup(y) = &a { sym::check((x == y) == e, 148); } }
        Value::Obj(x) => { sym::check((a == *x) == e && (*x == a) == e, 147); if let Value::Obj(y) = &a { sym::check((x == y) == e, 148); } }
        Value::Str(x) => { sym::check((a == *x) == e && (*x == a) == e, 147); let r: &str = x; sym::check((a == r) == e && (r == a) == e, 148); }
        Value::Bool(x) => sym::check((a == *x) == e && (*x == a) == e, 147),
        Value::Int(x) => sym::check((a == *x) == e && (*x == a) == e, 147),
        Value::Frac(x) => sym::check((a == *x) == e && (*x == a) == e, 147),
        Value::Null => sym::check(a.is_null() == e, 147),
    }
}
macro_rules! eqint { ($v:expr, $n:expr, $raw:expr, $id:expr, $($t:ty),*) => { $( { let x = $raw as $t; let e = $n == Some(x as i128); sym::check(($v == x) == e, $id); sym::check((x == $v) == e, $id); } )* } }
/// a Value against Rust integers. param: 0 ints, 1 other kinds
pub fn h_eqint(param: u64) {
    let raw = sym::u64();
    if param == 1 {
        let v = gen(1, 0, 1);
        if let Value::Int(_) = v { sym::assume(false); }
        eqint!(v, None::<i128>, raw, 151, usize, u8, u16, u32, u64, i8, i16, i32, i64);
        return;
    }
    let w = sym::u64();
    let hi = [0i128, -1, 1, -2, 1 << 40][pick(5)];
    let n: i128 = (hi << 64) + w as i128;
    let v = Value::Int(BigInt::from(n));
    eqint!(v, Some(n), raw, 152, usize, u8, u16, u32, u64, i8, i16, i32, i64);
    let f: Value = Value::from(raw);
    sym::check(f == raw && match &f { Value::Int(i) => *i == BigInt::from(raw), _ => false }, 153);
    let g: Value = (raw as i64).into();
    sym::check(g == raw as i64 && match &g { Value::Int(i) => *i == BigInt::from(raw as i64), _ => false }, 153);
    let h: Value = (raw as i32).into();
    sym::check(h == raw as i32 as i64, 153);
    let k: Value = (raw as u16).into();
    sym::check(k == (raw & 0xffff), 153);
    let k: Value = (raw as i8).into();
    sym::check(k == (raw as i8) as i64, 153);
    macro_rules! from_each { ($($t:ty),*) => { $( { let x = raw as $t; match Value::from(x) { Value::Int(i) => sym::check(i == BigInt::from(x as i128), 153), _ => sym::check(false, 153) } } )* } }
    from_each!(usize, u8, u16, u32, u64, i8, i16, i32, i64);
    sym::check((v == true) == false && (v == "1") == false, 154);
}

// ---------- C20

fn mismatch<X>(r: &Result<X, OverError>, want: &Type, v: &Value) -> bool { match r { Err(OverError::TypeMismatch(a, b)) => a.is(want) && b.is(&v.get_type()), _ => false } }
fn missing<X>(r: &Result<X, OverError>, f: &str) -> bool { match r { Err(OverError::FieldNotFound(s)) => s == f, _ => false } }
fn model_type(v: &Value) -> T {
    match v {
        Value::Null => T::Null, Value::Bool(_) => T::Bool, Value::Int(_) => T::Int, Value::Frac(_) => T::Frac, Value::Str(_) => T::Str, Value::Obj(_) => T::Obj,
        Value::Arr(a) => { let mut t = T::Any; for x in a.values_ref() { t = unify(&t, &model_type(x)).unwrap(); } T::Arr(Box::new(t)) }
        Value::Tup(a) => T::Tup(a.values_ref().iter().map(model_type).collect()),
    }
}
fn getters(v: &Value) {
    sym::check(teq(&model_type(v), &v.get_type()), 161);
    sym::check(v.is_null() == match v { Value::Null => true, _ => false }, 162);
    let r = v.get_bool();
    sym::check(match v { Value::Bool(x) => r == Ok(*x), _ => mismatch(&r, &Type::Bool, v) }, 163);
    let r = v.get_int();
    sym::check(match v { Value::Int(x) => r.as_ref() == Ok(x), _ => mismatch(&r, &Type::Int, v) }, 164);
    let r = v.get_frac();
    sym::check(match (v, &r) { (Value::Frac(x), Ok(y)) => x.numer() == y.numer() && x.denom() == y.denom(), (Value::Int(x), Ok(y)) => x == y.numer() && *y.denom() == BigInt::from(1), (Value::Frac(_), _) | (Value::Int(_), _) => false, _ => mismatch(&r, &Type::Frac, v) }, 165);
    let r = v.get_str();
    sym::check(match v { Value::Str(x) => r.as_ref() == Ok(x), _ => mismatch(&r, &Type::Str, v) }, 166);
    let r = v.get_arr();
    sym::check(match (v, &r) { (Value::Arr(x), Ok(y)) => x.ptr_eq(y) && x.id() == y.id(), (Value::Arr(_), _) => false, _ => mismatch(&r, &Type::Arr(Box::new(Type::Any)), v) }, 167);
    let r = v.get_tup();
    sym::check(match (v, &r) { (Value::Tup(x), Ok(y)) => x.ptr_eq(y) && x.id() == y.id(), (Value::Tup(_), _) => false, _ => mismatch(&r, &Type::Tup(vec![]), v) }, 168);
    let r = v.get_obj();
    sym::check(match (v, &r) { (Value::Obj(x), Ok(y)) => x.ptr_eq(y) && x.id() == y.id(), (Value::Obj(_), _) => false, _ => mismatch(&r, &Type::Obj, v) }, 169);
}
/// param: depth | rich << 8 | width << 16
pub fn h_getters(param: u64) {
    let (d, rich, w) = ((param & 0xff) as usize, (param >> 8 & 0xff) as usize, (param >> 16 & 0xff) as usize);
    let v = gen(d, rich, w);
    getters(&v);
    let place = pick(3);
    let own = Obj::from_pairs(if place == 0 { vec![Pair("q".into(), 1.into()), Pair("x".into(), v.clone())] } else { vec![Pair("q".into(), 1.into())] },
        if place == 0 && pick(2) == 0 { None } else { Some(Obj::from_pairs(if place == 1 { vec![Pair("x".into(), v.clone())] } else if place == 0 { vec![Pair("x".into(), "other".into())] } else { vec![] }, None).unwrap()) }).unwrap();
    if place == 2 {
        let f = letter() + "x";
        sym::check(own.get(&f).is_none() && own.get_with_source(&f).is_none(), 170);
        sym::check(missing(&own.get_bool(&f), &f) && missing(&own.get_int(&f), &f) && missing(&own.get_frac(&f), &f) && missing(&own.get_str(&f), &f), 171);
        sym::check(missing(&own.get_arr(&f), &f) && missing(&own.get_tup(&f), &f) && missing(&own.get_obj(&f), &f), 172);
        return;
    }
    macro_rules! agree { ($($m:ident),*) => { $( sym::check(own.$m("x") == v.$m(), 173); )* } }
    agree!(get_bool, get_int, get_frac, get_str, get_arr, get_tup, get_obj);
    let bad = |e: Option<OverError>| match e { Some(OverError::TypeMismatch(_, b)) => b.is(&v.get_type()), None => true, _ => false };
    sym::check(bad(own.get_bool("x").err()) && bad(own.get_int("x").err()) && bad(own.get_frac("x").err()) && bad(own.get_str("x").err()) && bad(own.get_arr("x").err()) && bad(own.get_tup("x").err()) && bad(own.get_obj("x").err()), 174);
}
/// what the errors of the API say
pub fn h_errors(_param: u64) {
    let v = gen(1, 0, 1);
    let (w, e): (Type, Option<OverError>) = match pick(7) {
        0 => (Type::Bool, v.get_bool().err()), 1 => (Type::Int, v.get_int().err()), 2 => (Type::Frac, v.get_frac().err()), 3 => (Type::Str, v.get_str().err()),
        4 => (Type::Arr(Box::new(Type::Any)), v.get_arr().err()), 5 => (Type::Tup(vec![]), v.get_tup().err()), _ => (Type::Obj, v.get_obj().err()),
    };
    if let Some(e) = e { sym::check(e.to_string() == format!("Type mismatch: expected {}, found {}", w, v.get_type()), 175); }
    let f = letter();
    sym::check(obj! { "z" => 1 }.get_int(&f).err().unwrap().to_string().contains(&f), 176);
}

// ---------- C18

fn new_t(v: &[V]) -> Option<T> { let mut t = Some(T::Any); for x in v { t = t.and_then(|t| unify(&t, &spec::type_of(x))); } t }
/// A history of `steps` operations on three handles. param: steps
pub fn h_ids(param: u64) {
    let mut real: Vec<Option<Value>> = vec![None, None, None];
    let mut model: Vec<Option<V>> = vec![None, None, None];
    let mut seen: Vec<usize> = vec![];
    { for _ in 0..36 { Arr::empty(); } let n = Arr::empty().id() as u64; sym::havoc("CUR_ID", n + 1); }
    for _ in 0..param {
        let s = pick(3);
        let (r, m): (Option<Value>, Option<V>) = match pick(7) {
            0 => (None, None),
            // another reference
            1 => { let f = pick(3); (real[f].clone(), model[f].clone()) }
            // a container of what a handle holds, if anything
            op @ 2..=4 => {
                let f = pick(3);
                let (vs, ms): (Vec<Value>, Vec<V>) = match (&real[f], &model[f]) { (Some(v), Some(m)) => (vec![v.clone(), v.clone()], vec![m.clone(), m.clone()]), _ => (vec![], vec![]) };
                // containers of nothing are made in several ways, each of which makes a new one
                let how = if vs.is_empty() { pick(3) } else { 0 };
                let (v, m) = match op {
                    2 if how > 0 => (Value::Arr([Arr::default, Arr::empty][how - 1]()), V::Arr(Rc::new((vec![], T::Any)))),
                    3 if how > 0 => (Value::Tup([Tup::default, Tup::empty][how - 1]()), V::Tup(Rc::new(vec![]))),
                    4 if how > 0 => (Value::Obj([Obj::default, Obj::empty][how - 1]()), V::Obj(Rc::new(O { fields: vec![], parent: None }))),
                    2 => { let t = new_t(&ms).unwrap(); (Value::Arr(Arr::from_values(vs).unwrap()), V::Arr(Rc::new((ms, t)))) }
                    3 => (Value::Tup(Tup::from_values(vs)), V::Tup(Rc::new(ms))),
                    _ => {
                        // an Obj whose parent is the handle, when that is an Obj
                        let (p, pm) = match (vs.first(), ms.first()) { (Some(Value::Obj(o)), Some(V::Obj(m))) => (Some(o.clone()), Some(m.clone())), _ => (None, None) };
                        let o = Obj::from_pairs(vs.iter().take(1).map(|v| Pair("f".into(), v.clone())).collect(), p).unwrap();
                        let om = O { fields: ms.iter().take(1).map(|v| ("f".to_string(), v.clone())).collect(), parent: pm };
                        (Value::Obj(o), V::Obj(Rc::new(om)))
                    }
                };
                let id = match &v { Value::Arr(a) => a.id(), Value::Tup(a) => a.id(), Value::Obj(a) => a.id(), _ => 0 };
                sym::check(!seen.contains(&id), 181);
                seen.push(id);
                (Some(v), Some(m))
            }
            // an element, a field or a parent
            5 => { let f = pick(3); match (&real[f], &model[f]) {
                (Some(Value::Arr(a)), Some(V::Arr(m))) => (a.get(0).ok(), m.0.first().cloned()),
                (Some(Value::Tup(a)), Some(V::Tup(m))) => (a.get(1).ok(), m.get(1).cloned()),
                (Some(Value::Obj(a)), Some(V::Obj(m))) => (a.get("f"), { let mut c = Some(m.clone()); let mut r = None; while let Some(o) = c { if let Some(x) = o.fields.first() { r = Some(x.1.clone()); break; } c = o.parent.clone(); } r }),
                _ => (None, None),
            } }
            _ => { let f = pick(3); match (&real[f], &model[f]) { (Some(Value::Obj(a)), Some(V::Obj(m))) => (a.get_parent().map(Value::Obj), m.parent.clone().map(V::Obj)), _ => (None, None) } }
        };
        real[s] = r;
        model[s] = m;
        let mut k = Cmp { types: true, ids: Some(Ids::new()) };
        for i in 0..3 { match (&real[i], &model[i]) { (Some(v), Some(m)) => sym::check(spec::same(m, v, &mut k), 182), (None, None) => (), _ => sym::check(false, 183) } }
    }
    let ptr = |a: &V| match a { V::Arr(x) => Rc::as_ptr(x) as *const u8 as usize, V::Tup(x) => Rc::as_ptr(x) as *const u8 as usize, V::Obj(x) => Rc::as_ptr(x) as *const u8 as usize, _ => 0 };
    for i in 0..3 { for j in 0..3 {
        let p = match (&real[i], &real[j]) { (Some(Value::Arr(a)), Some(Value::Arr(b))) => a.ptr_eq(b), (Some(Value::Tup(a)), Some(Value::Tup(b))) => a.ptr_eq(b), (Some(Value::Obj(a)), Some(Value::Obj(b))) => a.ptr_eq(b), _ => continue };
        sym::check(p == (ptr(model[i].as_ref().unwrap()) == ptr(model[j].as_ref().unwrap())), 184);
    } }
}

// ---------- C10

/// param: objects in the chain
pub fn h_parent(param: u64) {
    let n = param as usize;
    let mut objs: Vec<Obj> = vec![];
    let mut model: Vec<Vec<(String, i64)>> = vec![];
    for i in 0..n {
        let k = pick(3);
        let mut f: Vec<(String, i64)> = vec![];
        for j in 0..k { let name = letter(); for g in &f { sym::assume(g.0 != name); } f.push((name, (i * 10 + j) as i64)); }
        let pairs = f.iter().map(|(s, v)| Pair(s.clone(), (*v).into())).collect();
        let o = match objs.last() { None => Obj::from_pairs(pairs, None), Some(p) => Obj::from_pairs(pairs, Some(p.clone())) };
        objs.push(o.unwrap());
        model.push(f);
    }
    let q = letter();
    let o = &objs[n - 1];
    let mut want: Option<(i64, usize)> = None;
    for i in (0..n).rev() { if want.is_none() { if let Some(x) = model[i].iter().find(|x| x.0 == q) { want = Some((x.1, i)); } } }
    match (want, o.get(&q), o.get_with_source(&q), o.get_int(&q)) {
        (Some((v, i)), Some(a), Some((b, s)), Ok(c)) => { sym::reach(1); sym::check(a == v && b == v && c == BigInt::from(v), 191); sym::check(s.ptr_eq(&objs[i]) && s.id() == objs[i].id(), 192); }
        (None, None, None, Err(e)) => { sym::reach(2); sym::check(e == OverError::FieldNotFound(q.clone()), 193); }
        _ => sym::check(false, 194),
    }
    let own = &model[n - 1];
    sym::check(o.contains(&q) == own.iter().any(|x| x.0 == q), 195);
    sym::check(o.len() == own.len() && o.is_empty() == own.is_empty(), 196);
    let mut i = 0;
    let mut ok = true;
    o.with_each(|f, v| { ok &= i < own.len() && *f == own[i].0 && *v == own[i].1; i += 1; });
    sym::check(ok && i == own.len(), 197);
    sym::check(o.iter().count() == own.len() && o.iter().zip(own).all(|(p, m)| p.0 == m.0 && p.1 == m.1), 198);
    sym::check(o.has_parent() == (n > 1), 199);
    match o.get_parent() { Some(p) => sym::check(n > 1 && p.ptr_eq(&objs[n - 2]), 200), None => sym::check(n == 1, 200) }
}

// ---------- C19

fn well_formed(s: &[char]) -> bool { !s.is_empty() && (0..s.len()).all(|i| s[i] == '_' || s[i].is_alphabetic() || (i > 0 && s[i] >= '0' && s[i] <= '9')) }
/// param: kind | symbolic characters << 8 | first block << 16 | blocks << 32
pub fn h_field(param: u64) {
    let n = param >> 8 & 0xff;
    if param & 0xff == 10 {
        // one name among many
        let n = n as usize;
        let at = [0, 1, n / 2, n - 2, n - 1][pick(5)];
        let s: Vec<char> = ["", "^", "a b", "1a", "@a", "null", "\u{e9}", "^^", "a.b", "a:"][pick(10)].chars().chain(vec![sym::u8() as char]).collect();
        for x in &s { sym::assume((*x as u32) < 128 || *x == '\u{e9}'); }
        let name: String = s.iter().collect();
        let pairs: Vec<Pair> = (0..n).map(|i| Pair(if i == at { name.clone() } else { format!("f{}", i) }, Value::from(i))).collect();
        match Obj::from_pairs(pairs, if pick(2) == 0 { None } else { Some(Obj::empty()) }) {
            Ok(o) => sym::check(well_formed(&s) && o.len() == n && o.get(&name).map_or(false, |v| v == at), 206),
            Err(OverError::InvalidFieldName(f)) => sym::check(!well_formed(&s) && f == name, 207),
            Err(_) => sym::check(false, 207),
        }
        return;
    }
    let mut c: Vec<char> = vec![];
    match param & 0xff {
        0 => (),
        1 => { let w = ["null", "true", "false", "Obj", "Str", "Arr", "Tup"][pick(7)]; let cut = pick(2); for x in w.chars().take(w.len() - cut) { c.push(x); } }
        2 => c.push(UNI[pick(UNI.len())]),
        3 => { c.push('a'); c.push(UNI[pick(UNI.len())]); }
        // a long name with symbolic characters somewhere
        6 => {
            let at = pick(5);
            for i in 0..40 { if i == [0, 1, 15, 31, 39][at] { c.push(if pick(2) == 0 { let b = sym::u8(); sym::assume(b < 128); b as char } else { UNI[pick(UNI.len())] }); } else { c.push(if i % 3 == 2 { 'é' } else { 'b' }); } }
        }
        // a reserved word with one character replaced, added or left out, or with letters in other cases
        7 => {
            let w: Vec<char> = ["null", "true", "false", "Obj", "Str", "Arr", "Tup"][pick(7)].chars().collect();
            let at = pick(w.len() + 1);
            let how = pick(3);
            for i in 0..=w.len() {
                if i == at && how < 2 { let b = sym::u8(); sym::assume(b < 128); c.push(b as char); }
                if i < w.len() && !(i == at && how > 0) { c.push(w[i]); }
            }
        }
        8 => for x in ["null", "true", "false", "Obj", "Str", "Arr", "Tup"][pick(7)].chars() { c.push(if pick(2) == 0 { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() }); },
        // words that mean something elsewhere, here and in other languages
        9 => for x in ["Int", "Frac", "Bool", "Any", "Null", "Object", "Array", "Tuple", "String", "int", "frac", "bool", "any", "inf", "nan", "NaN", "None", "none", "nil", "self", "Self", "this", "include", "import", "let", "if", "else", "_", "__", "_0", "x_", "e", "E10", "x", "o", "parent", "super", "global", "Value", "char", "yes", "no", "on", "off", "undefined", "i", "n", "value"][pick(48)].chars() { c.push(x); },
        // any character of a range of blocks of 256, first or second
        k => {
            if k == 5 { c.push('_'); }
            let u = (param >> 16 & 0xffff) as u32 * 256 + sym::conc(sym::choice((param >> 32) as u32) as u64) as u32 * 256 + sym::u8() as u32;
            match std::char::from_u32(u) { Some(x) => c.push(x), None => { sym::assume(false); return; } }
        }
    }
    for _ in 0..n { let b = sym::u8(); sym::assume(b < 128); c.push(b as char); }
    let s: String = c.iter().collect();
    let wf = well_formed(&c);
    sym::check(Obj::is_valid_field(&s) == wf, 201);
    match Obj::from_pairs(vec![Pair("ok".into(), 1.into()), Pair(s.clone(), 2.into())], None) {
        Ok(o) => { sym::check(wf, 202); sym::check(o.len() == 2 && o.contains(&s) && (s == "ok" || o.get(&s).unwrap() == 2), 203); }
        Err(e) => { sym::check(!wf, 204); match e { OverError::InvalidFieldName(x) => sym::check(x == s, 205), _ => sym::check(false, 205) } }
    }
    if s != "^" { sym::check(try_obj! { s.as_str() => 1 }.is_ok() == wf, 206); }
    let mut doc = s.clone();
    doc.push_str(": 2 z_zz_z: 3");
    let accepted = match Obj::from_str(&doc) { Ok(o) => o.len() == 2 && o.contains(&s) && o.get(&s).map_or(false, |v| v == 2) && o.iter().next().unwrap().0 == s, Err(_) => false };
    sym::check(accepted == (wf && !spec::reserved(&s)), 207);
    if accepted {
        // the same name as a variable, and after a dot
        match Obj::from_str(&format!("{}: 2 y_yy_y: {} o_oo_o: {{{}: 3}} w_ww_w: o_oo_o.{}", s, s, s, s)) {
            Ok(o) => sym::check(o.get("y_yy_y").map_or(false, |v| v == 2) && o.get("w_ww_w").map_or(false, |v| v == 3), 208),
            Err(_) => sym::check(false, 209),
        }
    }
}

// ---------- C23

/// param: elements
pub fn h_cont(param: u64) {
    let n = param as usize;
    let e: Vec<u8> = (0..n).map(|_| sym::u8()).collect();
    let vals: Vec<Value> = e.iter().map(|&x| x.into()).collect();
    let i = sym::u64() as usize;
    let a = Arr::from_values(vals.clone()).unwrap();
    let t = Tup::from_values(vals.clone());
    let u = Arr::from_values_unchecked(vals.clone(), if n == 0 { Type::Any } else { Type::Int });
    let names: Vec<String> = (0..n).map(|k| format!("f{}", k)).collect();
    let o = Obj::from_pairs(names.iter().zip(&vals).map(|(f, v)| Pair(f.clone(), v.clone())).collect(), None).unwrap();
    sym::check(a.len() == n && t.len() == n && o.len() == n && u.len() == n, 211);
    sym::check(a.is_empty() == (n == 0) && t.is_empty() == (n == 0) && o.is_empty() == (n == 0), 212);
    match a.get(i) { Ok(v) => sym::check(i < n && v == e[i], 213), Err(x) => { sym::check(i >= n, 214); match x { OverError::ArrOutOfBounds(j) => sym::check(j == i, 215), _ => sym::check(false, 215) } } }
    match t.get(i) { Ok(v) => sym::check(i < n && v == e[i], 216), Err(x) => { sym::check(i >= n, 217); match x { OverError::TupOutOfBounds(j) => sym::check(j == i, 218), _ => sym::check(false, 218) } } }
    sym::check(a.values_ref().len() == n && t.values_ref().len() == n && o.pairs_ref().len() == n && t.inner_type_vec().len() == n, 219);
    sym::check(a.iter().count() == n && t.iter().count() == n && o.iter().count() == n, 220);
    for k in 0..n {
        sym::check(a.values_ref()[k] == e[k] && t.values_ref()[k] == e[k] && u.values_ref()[k] == e[k] && o.pairs_ref()[k].1 == e[k] && o.pairs_ref()[k].0 == names[k], 221);
        sym::check(*a.iter().nth(k).unwrap() == e[k] && *t.iter().nth(k).unwrap() == e[k] && o.iter().nth(k).unwrap().1 == e[k], 222);
        sym::check(t.inner_type_vec()[k].is(&Type::Int), 223);
        sym::check(o.get(&names[k]).unwrap() == e[k] && o.contains(&names[k]), 224);
    }
    sym::check(if n == 0 { a.inner_type().is(&Type::Any) } else { a.inner_type().is(&Type::Int) }, 225);
    let (mut p, mut q, mut r) = (vec![], vec![], vec![]);
    a.with_each(|v| p.push(v.clone()));
    t.with_each(|v| q.push(v.clone()));
    o.with_each(|f, v| { r.push((f.clone(), v.clone())) });
    sym::check(p == vals && q == vals && r.len() == n && (0..n).all(|k| r[k].0 == names[k] && r[k].1 == vals[k]), 226);
    // writing and reading keeps the order, and the first container as it was
    let big = obj! { "a" => a.clone(), "t" => t.clone(), "o" => o.clone() };
    if n <= 1 {
        match Obj::from_str(&big.write_to_string()) { Ok(b) => sym::check(deep_obj(&big, &b), 227), Err(_) => sym::check(false, 228) }
    }
    drop(big);
    sym::check(a.len() == n && (0..n).all(|k| a.values_ref()[k] == e[k]) && a.num_references() == 1, 229);
}
/// the macros against the functions
pub fn h_macros(_param: u64) {
    let (x, y) = (sym::u8(), sym::u64() as i64);
    let b = sym::u8() & 1 == 1;
    let s = ascii(1);
    sym::check(arr![x, 2].values_ref().iter().zip(vec![x as i64, 2]).all(|(v, w)| *v == w) && arr![x, 2].len() == 2, 231);
    sym::check(try_arr![y, y,].unwrap().get(1).unwrap() == y && try_arr![y].unwrap().len() == 1, 232);
    sym::check(match try_arr![x, s.as_str()] { Err(OverError::ArrTypeMismatch(Type::Int, Type::Str)) => true, _ => false }, 233);
    let t = tup!(x, s.as_str(), b, arr![]);
    sym::check(t.len() == 4 && t.get(0).unwrap() == x && t.get(1).unwrap() == s && t.get(2).unwrap() == b && t.get(3).unwrap() == arr![], 234);
    let p = obj! { "p" => y };
    let bad_parent = try_obj! { "a" => 1, "^" => x }.map(|o: Obj| o);
    let o = obj! { "a" => x, "^" => p.clone(), "b" => s.as_str(), };
    sym::check(o.len() == 2 && o.get("a").unwrap() == x && o.get("b").unwrap() == s && o.get("p").unwrap() == y && !o.contains("p") && o.get_parent().unwrap().ptr_eq(&p), 235);
    sym::check(match bad_parent { Err(OverError::TypeMismatch(Type::Obj, Type::Int)) => true, _ => false }, 236);
    sym::check(obj! {}.is_empty() && !obj! {}.has_parent() && arr![].is_empty(), 237);
    sym::check(int!(y) == BigInt::from(y) && int!(x) == BigInt::from(x), 238);
    if x % 8 > 0 { sym::assume(x < 8); let f = frac!(6, x as i32); sym::check(f.numer() * BigInt::from(x) == f.denom() * BigInt::from(6) && !f.denom().is_zero(), 239); }
    sym::check(try_obj! { "a" => 1, s.as_str() => 2 }.is_ok() == (well_formed(&s.chars().collect::<Vec<_>>())) || s == "^", 240);
    sym::check(Arr::empty().len() == 0 && Tup::empty().len() == 0 && Obj::empty().len() == 0 && Arr::default() == Arr::empty() && Tup::default() == Tup::empty() && Obj::default() == Obj::empty(), 241);
}

// ---------- C27

/// the same value again, built from nothing
fn again(v: &Value) -> Value {
    match v {
        Value::Arr(x) => Value::Arr(Arr::from_values(x.values_ref().iter().map(again).collect()).unwrap()),
        Value::Tup(x) => Value::Tup(Tup::from_values(x.values_ref().iter().map(again).collect())),
        Value::Obj(x) => Value::Obj(again_obj(x)),
        Value::Str(s) => Value::Str(s.clone()),
        x => x.clone(),
    }
}
fn again_obj(o: &Obj) -> Obj { Obj::from_pairs(o.pairs_ref().iter().map(|p| Pair(p.0.clone(), again(&p.1))).collect(), o.get_parent().map(|p| again_obj(&p))).unwrap() }
/// param: depth | rich << 8 | width << 16
pub fn h_release(param: u64) {
    let (d, rich, w) = ((param & 0xff) as usize, (param >> 8 & 0xff) as usize, (param >> 16 & 0xff) as usize);
    let g = gen_obj(pick(w + 1), d, rich, w);
    crate::docs::settled(|i| {
        let o = again_obj(&g);
        let p = Obj::from_pairs(vec![Pair(format!("n{}", i), Value::Obj(o.clone())), Pair("t".into(), tup! { o.clone(), i as i32 }.into())], Some(o.clone())).unwrap();
        let _ = (p.write_to_string(), p == p.clone(), p.get_int("zz").is_err(), p.get("t").map(|x| x.to_string()));
        for x in p.iter() { let _ = (x.0.len(), x.1.get_type()); }
        let _ = Obj::from_pairs(vec![Pair(format!("{}", i), Value::Obj(p.clone()))], None).is_err();
        let _ = Arr::from_values(vec![Value::Obj(p.clone()), Value::from(1), Value::Obj(o.clone())]).is_err();
        sym::check(p.num_references() == 1 && o.num_references() == 4, 19);
    });
}
