//! Harnesses over document texts.
use crate::spec::{self, Cmp, Er, Fs, Ids};
use crate::{sym, templates};
use num_bigint::BigInt;
use num_rational::BigRational;
use over::value::Value;
use over::Obj;
use std::str::FromStr;

pub const DIFF: u64 = 1;
pub const POS: u64 = 2;
pub const RT: u64 = 4;
pub const IDENT: u64 = 8;
pub const TYPES: u64 = 16;
/// every way of looking at the containers agrees
pub const LOOK: u64 = 32;
/// the message says what is wrong
pub const MSG: u64 = 64;

pub fn among(set: &[u8]) -> char {
    let b = sym::u8();
    let mut ok = false;
    for &c in set { ok |= b == c; }
    sym::assume(ok);
    b as char
}

pub const UNI: &[char] = &['\u{a0}', 'é', '\u{b2}', '\u{663}', 'Ⅷ', '\u{2003}', '\u{85}', '\u{2028}', '\u{200b}', '日', '😀', '\u{301}', '\u{10ffff}', '\u{3000}', '\u{feff}', '\u{ad}'];

/// one symbolic character of an alphabet
pub fn hole(k: char) -> char {
    match k {
        'a' => { let b = sym::u8(); sym::assume(b < 128); b as char }
        'd' => { let b = sym::u8(); sym::assume(b >= b'0' && b <= b'9'); b as char }
        'n' => among(b"0123456789.,_"),
        'N' => among(b"0123456789.,_ -+a\n"),
        'o' => among(b"+-*/%"),
        's' => among(b"+-"),
        'b' => among(b"{}[]()<>"),
        'B' => among(b"{}[]()<>a:1 \"#,.\n"),
        't' => among(b"{}[]()a: 1\"."),
        'i' => among(b"abc"),
        'e' => among(b"aZ_^@9:. n\n"),
        'v' => among(b"ab@.01_^: +"),
        'x' => among(b"012ab.@-"),
        'w' => among(b" \t\n\r\x0b\x0c#"),
        'l' => among(b" \n#"),
        'q' => among(b"\\\"nrtx'$a0\n# "),
        'z' => among(b"-+1{[(\"a"),
        'c' => among(b"aAbB"),
        'g' => among(b"eftlui"),
        'V' => among(b"pqslmenbto"),
        'U' => {
            // any character of some blocks of 256
            let b = [0u32, 1, 3, 6, 9, 0x16, 0x20, 0x21, 0x30, 0x4e, 0xff, 0x100, 0x1f6, 0x10ff];
            let u = b[sym::choice(b.len() as u32) as usize] * 256 + sym::u8() as u32;
            match std::char::from_u32(u) { Some(c) => c, None => { sym::assume(false); ' ' } }
        }
        'u' => UNI[sym::choice(UNI.len() as u32) as usize],
        _ => panic!("alphabet"),
    }
}
/// one of several pieces of text
fn piece(k: char) -> Option<&'static [&'static str]> {
    Some(match k {
        // elements of arrays of many types
        'E' => &["1", "-2", "1.5", "\"\"", "null", "true", "[]", "[1]", "[\"\"]", "[[]]", "[[1]]", "[[\"\"]]", "()", "(1)", "([])", "([1])", "([\"\"])", "([] [])", "([1] [])", "([] [1])", "{}", "[()]", "[([])]", "[([1])]", "v"],
        'F' => &["1", "\"\"", "[]", "[1]", "[\"\"]", "[[]]", "[[1]]", "([])", "([1])"],
        // an inherited part
        'P' => &["", "^: @p ", "^: @q ", "^: {x: 9} ", "^: @p.o ", "^: 1 ", "^: null ", "^: {^: q c: 8} "],
        // what may stand before an error
        'C' => &["", "# c\n", "#\u{e9}\u{65e5}\n\n", "k: \"\n\u{e9}\n\" ", "k: \"\\n\" ", "k: [\n1\n]\t", "\r\n", "k: 1 # [\n  ", "\u{2003}\u{85}\u{2028}", "k:\n\n1\n", "k: \"\u{1F600}\" "],
        // errors of many kinds, none of them at a newline
        'R' => &["x: ]", "x: [1 \"\"]", "x: y", "x: 1-\"\"", "1: 2", "x: 1 x: 2", "x: 1/0", "x: (1", "x: \"\\x\"", "x: @g", "^: 1", "x: 1..2", "x: 1__2", "x: -null", "x: {y: 1 y: 2}", "x: {y: }", "x: <\"none\">", "x: <1>", "x: [] y: x.0", "x: {} y: x.z", "@: 1", "@g: 1 @g: 2", "true: 1", "x: 1}", "x", "x: ", "x: \"", "x: 1+", "x: --", "x: 2 y: x.z", "x: [1] y: x.-1", "x: 1+2-\"\"*1", "x: \"a\"+1", "x: !", "x: [1}", "x: \u{e9}", "x: 1\u{e9}", "\u{2460}: 1", "x: \"\n\\q\""],
        // one token
        'T' => &["a: ", "b: ", "1", "\"s\"", "[", "]", "{", "}", "(", ")", " ", "a", "+", "-", "<", ">", "@g: ", "@g", "^: ", "null", "# c\n", ".", "a: {", "a.0"],
        'G' => &["a: 1 ", "b: a ", "c: {a: 2 } ", "@a: 3 ", "b: @a ", "a: a ", "@b: a ", "c: {@b: 4 } ", "a: @b ", "c: {b: a } ", "c: [a] ", "c: (@a) ", "b: c.a ", "^: c ", "c: {^: c } ", "b: c ", "@c: c ", "c: ({@b: 4 } @b) ", "c: [{a: a }] ", "c: {c: {b: a } } ", "a: {a: 1 b: a } ", "@a: {a: @a } "],
        'J' => &["l: [1] ", "l: {k: 1} ", "l: (1) ", "m: l ", "n: [l l] ", "n: (l m) ", "@g: l ", "m: @g ", "m: n.0 ", "n: {^: l m: l} ", "n: {l: [1]} m: n.l ", "^: l ", "m: n.l ", "n: l+l ", "n: [l]+[m] ", "n: l+[] ", "n: []+l ", "m: n "],
        'K' => &["1", "-2.5", "\"\"", "\"\\\"\\\\\n\\t$\u{e9}\"", "null", "true", "[]", "[1]", "[1 2]", "()", "(1)", "(1 null)", "{}", "{x: 1}", "{x: 1 y: {}}", "{^: {x: 1}}", "{^: {x: 1} y: 2}", "[{}]", "[{x: 1}]", "({x: 1} [])", "[[]]", "[[1] []]", "{x: []}", "{x: [1 2]}", "1/3", "-6/3", "2.0", ".5", "123456789012345678901234567890", "p"],
        // fields of an Obj
        'Q' => &["", "a: 1 ", "a: null ", "b: {} ", "a: [] ", "b: \"\" a: {b: 2} ", "c: false "],
        // after a dot
        'D' => &["@o", "o", "@x", "x", "a", "@l", "l", "t", "0", "1", "00", "1_0", "-1", "+0", "1.5", "^", "@", "null", "Obj", "(0)", "[0]", "\"a\"", "{}", "_"],
        // indices
        'I' => &["0", "1", "2", "3", "0-1", "00", "1_0", "255", "256", "257", "65535", "65536", "65537", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "0-18446744073709551616", "0-18446744073709551615", "340282366920938463463374607431768211457", "1.0", "0.5", "\"0\"", "null", "[]", "{}", "[0]"],
        'M' => &["", "x", "yy", "zzz"],
        'L' => &["", "[", "(", "{k: "],
        'Z' => &["", "0", "00", "000", "0000", "00000", "000000", "00000000"],
        'W' => &["Obj", "Str", "Arr", "Tup", "null", "Objx", "Ob", "[Str]", "(Tup)", "{x: Arr}", "-Obj", "1+Str", "Obj+1", "Str.x", "l.Str", "@Str", "<Str \"\">", "<Str", "<Obj ", "<[Str] ", "<(Obj) ", "<Arr[Str]", "<{x: Obj}", "\"no\">", "Str>", ">", "<l.Str \"\">", "\n", "o", "+", ".0"],
        'S' => &[" ", "\n", "\t\r\n", "#c\n", " # \"[{\n", "\u{2003}", "\u{85}", ""],
        _ => return None,
    })
}

pub fn fill(t: &str) -> Vec<char> {
    let mut v = vec![];
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '¶' {
            // ¶10-49«text %»: the text once for each number
            let mut num = || { let mut n = 0; while let Some(c) = it.next() { if !c.is_ascii_digit() { break; } n = n * 10 + (c as u32 - 48); } n };
            let (lo, hi) = (num(), num());
            let mut body = vec![];
            while let Some(c) = it.next() { if c == '»' { break; } body.push(c); }
            for n in lo..=hi { for &c in &body { if c == '%' { v.extend(n.to_string().chars()); } else { v.push(c); } } }
            continue;
        }
        if c != '§' { v.push(c); continue; }
        let mut k = it.next().unwrap();
        let mut n = 1;
        if k.is_ascii_digit() { n = k as u32 - 48; k = it.next().unwrap(); }
        for _ in 0..n {
            match piece(k) { Some(p) => v.extend(p[sym::choice(p.len() as u32) as usize].chars()), None => v.push(hole(k)) }
        }
    }
    v
}

pub fn roundtrip(o: &Obj) {
    let w = o.write_to_string();
    match Obj::from_str(&w) {
        Ok(p) => { sym::check(&p == o, 20); sym::check(deep_obj(&p, o), 23); sym::check(p.write_to_string() == w, 21); }
        Err(_) => sym::check(false, 22),
    }
}

/// equality of content, independent of the crate's PartialEq
pub fn deep(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Int(x), Value::Int(y)) => x == y,
        (Value::Frac(x), Value::Frac(y)) => x.numer() == y.numer() && x.denom() == y.denom(),
        (Value::Str(x), Value::Str(y)) => x == y,
        (Value::Arr(x), Value::Arr(y)) => deep_all(x.values_ref(), y.values_ref()),
        (Value::Tup(x), Value::Tup(y)) => deep_all(x.values_ref(), y.values_ref()),
        (Value::Obj(x), Value::Obj(y)) => deep_obj(x, y),
        _ => false,
    }
}
fn deep_all(x: &[Value], y: &[Value]) -> bool { x.len() == y.len() && (0..x.len()).all(|i| deep(&x[i], &y[i])) }
pub fn deep_obj(x: &Obj, y: &Obj) -> bool {
    let (p, q) = (x.pairs_ref(), y.pairs_ref());
    if p.len() != q.len() { return false; }
    for i in 0..p.len() { if p[i].0 != q[i].0 || !deep(&p[i].1, &q[i].1) { return false; } }
    match (x.get_parent(), y.get_parent()) { (None, None) => true, (Some(a), Some(b)) => deep_obj(&a, &b), _ => false }
}

pub fn note_result(r: &Result<Obj, over::OverError>) {
    match r {
        Ok(o) => { sym::reach(1); let w = o.write_to_string(); sym::note(w.as_bytes()); }
        Err(e) => { sym::reach(2); sym::note(e.to_string().as_bytes()); }
    }
}

/// compare what the crate says about a text with what the model says
pub fn compare(m: &spec::R<std::rc::Rc<spec::O>>, r: &Result<Obj, over::OverError>, asp: u64) {
    match (m, r) {
        (Err(Er::Amb), _) => sym::reach(3),
        (Ok(v), Ok(o)) => {
            sym::reach(4);
            let mut k = Cmp { types: asp & TYPES != 0, ids: if asp & IDENT != 0 { Some(Ids::new()) } else { None } };
            sym::check(spec::same_obj(v, o, &mut k, 0), 10);
            if asp & LOOK != 0 { crate::api::look(o); }
        }
        (Err(e), Err(x)) => { sym::reach(5); if asp & POS != 0 { sym::check(spec::names(e, &x.to_string()), 11); } if asp & MSG != 0 { sym::check(spec::says(e, &x.to_string()), 14); } }
        (Ok(_), Err(_)) => sym::check(asp & DIFF == 0, 12),
        (Err(_), Ok(_)) => sym::check(asp & DIFF == 0, 13),
    }
}

pub fn differential(c: &[char], asp: u64) {
    let s: String = c.iter().collect();
    let r = Obj::from_str(&s);
    note_result(&r);
    if asp & (DIFF | POS | IDENT | TYPES | LOOK | MSG) != 0 {
        let fs = Fs::none();
        let m = spec::parse_str(c, &fs, "/none");
        compare(&m, &r, asp);
    }
    if asp & RT != 0 { if let Ok(o) = &r { roundtrip(o); } }
}

/// param: template | aspects << 16
pub fn h_doc(param: u64) { differential(&fill(templates::T[(param & 0xffff) as usize].1), param >> 16); }

/// Texts that would come out otherwise if anything of an earlier parse were left behind.
fn after(k: usize) -> String {
    let nest = |n: usize, o: &str, c: &str| format!("a: {}1{}", o.repeat(n), c.repeat(n));
    match k {
        0 => nest(63, "[", "]"),
        1 => nest(63, "{k: ", "}"),
        2 => nest(64, "(", ")"),
        3 => "a: @g".into(),
        4 => "x: k y: z".into(),
        5 => "@g: 1 k: 2 o: {k: 3} y: k x: @g".into(),
        6 => "n: 1\n\n  y: ]".into(),
        7 => "l: [1] a: l b: [] c: {} @h: () e: @h".into(),
        8 => "^: {x: 1} y: 2".into(),
        9 => "a: Str".into(),
        10 => "a: \"x".into(),
        11 => "a: 1+1 b: 2*3-4".into(),
        12 => "p: {b: 1} a: p.b".into(),
        13 => "s: \"q\" t: \"\" u: 12.5 v: 1_0 w_1: [\"\\n\"] x: .5 # c".into(),
        _ => "".into(),
    }
}
pub fn ids_of(v: &Value, out: &mut Vec<usize>) {
    use over::ReferenceType;
    match v {
        Value::Arr(x) => { out.push(x.id()); for y in x.values_ref() { ids_of(y, out); } }
        Value::Tup(x) => { out.push(x.id()); for y in x.values_ref() { ids_of(y, out); } }
        Value::Obj(x) => { out.push(x.id()); for y in x.pairs_ref() { ids_of(&y.1, out); } if let Some(p) = x.get_parent() { ids_of(&Value::Obj(p), out); } }
        _ => (),
    }
}
/// nothing in one is in the other
pub fn apart(x: &Obj, y: &Obj) -> bool {
    let (mut a, mut b) = (vec![], vec![]);
    ids_of(&Value::Obj(x.clone()), &mut a);
    ids_of(&Value::Obj(y.clone()), &mut b);
    a.iter().all(|i| !b.contains(i))
}
/// Parses in a row: each gives what its text alone says, and what an earlier one gave stays as it was. param: template | repeats << 16
pub fn h_seq(param: u64) {
    let c = fill(templates::T[(param & 0xffff) as usize].1);
    let s: String = c.iter().collect();
    let t = after(sym::conc(sym::choice(15) as u64) as usize);
    let d: Vec<char> = t.chars().collect();
    let (m, n) = (spec::parse_str(&c, &Fs::none(), "/none"), spec::parse_str(&d, &Fs::none(), "/none"));
    let all = DIFF | POS | IDENT | TYPES | MSG;
    let p = Obj::from_str(&s);
    note_result(&p);
    for _ in 0..param >> 16 { let _ = Obj::from_str(&s); }
    let q = Obj::from_str(&t);
    note_result(&q);
    compare(&n, &q, all);
    let p2 = Obj::from_str(&s);
    compare(&m, &p2, all);
    let q2 = Obj::from_str(&t);
    compare(&n, &q2, all);
    compare(&m, &p, all);
    if let (Ok(a), Ok(b)) = (&p, &p2) { sym::check(apart(a, b), 15); if let Ok(o) = &q { sym::check(apart(a, o) && apart(b, o), 15); } }
    if let (Ok(a), Ok(b)) = (&q, &q2) { sym::check(apart(a, b), 15); sym::check(a.write_to_string() == b.write_to_string(), 16); }
}

/// what lives after each of three rounds must not grow from each to the next: the first may set things up once
pub fn settled<F: FnMut(usize)>(mut f: F) {
    let mut live = [0i64; 4];
    for i in 0..4 { f(i); live[i] = sym::heap_live(); }
    sym::check(!(live[1] > live[0] && live[2] > live[1] && live[3] > live[2]), 17);
}
/// Parses, looks, writes and drops texts that differ in one name. param: template
pub fn h_release(param: u64) {
    let s: String = fill(templates::T[(param & 0xffff) as usize].1).iter().collect();
    settled(|i| {
        let r = Obj::from_str(&format!("zz{}: \"{}\" {}", i, i, s));
        if i == 0 { note_result(&r); }
        if let Ok(o) = &r { let w = o.write_to_string(); sym::check(w.len() > 0 && o == o, 18); for p in o.pairs_ref() { let _ = (p.1.get_type(), p.1.get_obj(), o.get(&p.0)); } let _ = o.get("none"); }
    });
}

fn big(d: &[u8]) -> BigInt { let mut v = BigInt::from(0); for &x in d { v = v * 10 + BigInt::from(x - b'0'); } v }

/// Long literals: `whole` and `dec` digits of which some are symbolic. param: whole digits | dec digits << 8 | form << 16.
/// form 0: Int, 1: Frac with '.', 2: Frac with ','; +4: negative; +8: underscores between the digits
pub fn h_num(param: u64) {
    let (nw, nd, form) = ((param & 0xff) as usize, (param >> 8 & 0xff) as usize, param >> 16 & 0xff);
    let pos = [param >> 24 & 0xff, param >> 32 & 0xff, param >> 40 & 0xff];
    let mut d: Vec<u8> = (0..nw + nd).map(|i| b'0' + ((i as u64 * 7 + 3) % 10) as u8).collect();
    for p in pos { if (p as usize) < d.len() { let b = sym::u8(); sym::assume(b >= b'0' && b <= b'9'); d[p as usize] = b; } }
    let mut s = String::from("a: ");
    if form & 4 != 0 { s.push('-'); }
    for i in 0..nw + nd {
        if i == nw { s.push(if form & 3 == 2 { ',' } else { '.' }); }
        else if form & 8 != 0 && i > 0 && i % 3 == 0 { s.push('_'); }
        s.push(d[i] as char);
    }
    if nd == 0 && form & 3 != 0 { s.push(if form & 3 == 2 { ',' } else { '.' }); }
    let r = Obj::from_str(&s);
    note_result(&r);
    let v = match &r { Ok(o) => o.get("a"), Err(_) => None };
    let mut want = big(&d);
    if form & 4 != 0 { want = -want; }
    match v {
        Some(Value::Int(i)) => sym::check(form & 3 == 0 && i == want, 30),
        Some(Value::Frac(f)) => {
            let mut p = BigInt::from(1);
            for _ in 0..nd { p = p * 10; }
            sym::check(form & 3 != 0, 31);
            sym::check(f.numer() * &p == &want * f.denom(), 32);
            sym::check(f.denom() > &BigInt::from(0), 33);
        }
        _ => sym::check(false, 34),
    }
}

/// Exact arithmetic on long operands. param: op | digits of a << 8 | digits of b << 16 | kind << 24 (1: a Frac, 2: b Frac, 4: a negative, 8: b negative)
/// | symbolic digit positions << 32 (a) << 40 (b)
pub fn h_arith(param: u64) {
    let op = ['+', '-', '*', '/', '%'][(param & 7) as usize];
    let (na, nb, kind) = ((param >> 8 & 0xff) as usize, (param >> 16 & 0xff) as usize, param >> 24 & 0xff);
    let mk = |n: usize, seed: u64, p: usize| -> Vec<u8> {
        let mut d: Vec<u8> = if seed == 9 { b"9223372036854775807000000000000"[..n].to_vec() } else { (0..n).map(|i| b'0' + ((i as u64 * seed + 1) % 10) as u8).collect() };
        if p < n { let b = sym::u8(); sym::assume(b >= b'0' && b <= b'9'); d[p] = b; }
        d
    };
    let a = mk(na, if param >> 48 & 1 == 1 { 9 } else { 3 }, (param >> 32 & 0xff) as usize);
    let b = mk(nb, 7, (param >> 40 & 0xff) as usize);
    let txt = |d: &[u8], fr: bool, neg: bool| { let mut s = String::new(); if neg { s.push('-'); } for &c in d { s.push(c as char); } if fr { s.push_str(".5"); } s };
    let s = format!("x: {} y: {} a: x{}y b: {}{}{}", txt(&a, kind & 1 != 0, kind & 4 != 0), txt(&b, kind & 2 != 0, kind & 8 != 0), op,
        txt(&a, kind & 1 != 0, kind & 4 != 0), op, txt(&b, kind & 2 != 0, kind & 8 != 0));
    let r = Obj::from_str(&s);
    note_result(&r);
    let val = |d: &[u8], fr: bool, neg: bool| -> (BigInt, BigInt) { let mut v = big(d); let mut q = BigInt::from(1); if fr { v = v * 10 + 5; q = BigInt::from(10); } (if neg { -v } else { v }, q) };
    let (n, d) = val(&a, kind & 1 != 0, kind & 4 != 0);
    let (m, e) = val(&b, kind & 2 != 0, kind & 8 != 0);
    let zero = BigInt::from(0);
    let bad = ((op == '/' || op == '%') && m == zero) || (op == '%' && kind & 3 != 0);
    let o = match r { Ok(o) => { sym::check(!bad, 40); o } Err(_) => { sym::check(bad, 41); return } };
    let int = kind & 3 == 0 && op != '/';
    // expected value as a fraction
    let (wn, wd) = match op {
        '+' => (&n * &e + &m * &d, &d * &e),
        '-' => (&n * &e - &m * &d, &d * &e),
        '*' => (&n * &m, &d * &e),
        '/' => (&n * &e, &d * &m),
        _ => { let q = &n / &m; (&n - q * &m, BigInt::from(1)) }
    };
    for f in ["a", "b"] {
        match o.get(f) {
            Some(Value::Int(i)) => { sym::check(int, 42); sym::check(i * &wd == wn, 43); }
            Some(Value::Frac(q)) => { sym::check(!int, 44); sym::check(q.numer() * &wd == &wn * q.denom() && q.denom() > &zero, 45); }
            _ => sym::check(false, 46),
        }
    }
    let _ = BigRational::from_integer(zero);
}

/// Exact arithmetic at the edges of machine words. param: op | with Fracs << 8 | third operand << 16
const EDGE: [&str; 24] = ["0", "1", "2", "3", "10", "127", "128", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "6074000999", "9223372036854775807", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "18446744073709551617", "170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456"];
pub fn h_edges(param: u64) {
    let op = ['+', '-', '*', '/', '%'][(param & 7) as usize];
    let fr = param >> 8 & 1 == 1;
    let one = || -> (String, BigInt, BigInt) {
        let t = EDGE[sym::conc(sym::choice(EDGE.len() as u32) as u64) as usize];
        let neg = sym::conc(sym::choice(2) as u64) == 1;
        let mut v = big(t.as_bytes());
        let mut q = BigInt::from(1);
        let mut s = String::new();
        if neg { s.push('-'); }
        s.push_str(t);
        if fr && sym::conc(sym::choice(2) as u64) == 1 { s.push_str(".75"); v = v * 100 + 75; q = BigInt::from(100); }
        if neg { v = -v; }
        (s, v, q)
    };
    let (s, n, d) = one();
    let (t, m, e) = one();
    let (x, y) = (s.contains('.'), t.contains('.'));
    let r = Obj::from_str(&format!("a: {}{}{}", s, op, t));
    note_result(&r);
    let zero = BigInt::from(0);
    let bad = ((op == '/' || op == '%') && m == zero) || (op == '%' && (x || y));
    let o = match r { Ok(o) => { sym::check(!bad, 40); o } Err(_) => { sym::check(bad, 41); return } };
    let (wn, wd) = match op {
        '+' => (&n * &e + &m * &d, &d * &e),
        '-' => (&n * &e - &m * &d, &d * &e),
        '*' => (&n * &m, &d * &e),
        '/' => (&n * &e, &d * &m),
        _ => { let q = &n / &m; (&n - q * &m, BigInt::from(1)) }
    };
    match o.get("a") {
        Some(Value::Int(i)) => { sym::check(!x && !y && op != '/', 42); sym::check(i * &wd == wn, 43); }
        Some(Value::Frac(q)) => { sym::check(x || y || op == '/', 44); sym::check(q.numer() * &wd == &wn * q.denom() && q.denom() > &zero, 45); }
        _ => sym::check(false, 46),
    }
    // written and read again
    if let Ok(p) = Obj::from_str(&o.write_to_string()) { sym::check(p == o && deep_obj(&p, &o), 47); } else { sym::check(false, 47); }
}

/// Layout: the text with each `~` one space against the text with one of them (or the ends) replaced by a symbolic run.
/// param: template | run length << 16
pub const LAYOUT: &[&str] = &[
    "~a:~1~b:~[1~2~]~c:~\"# x\"~",
    "~a:~{~b:~(~1~\"y\"~)~}~@g:~-2~",
    "~a:~{~^:~{~x:~1~}~y:~[~[~]~[~3~]~]~}~z:~a.y~",
    "~a:~1.5~b:~a+2~c:~null~d:~()~e:~{~}~",
    "~a:~<~Str~\"f\"~>~b:~[~<~\"g\"~>~<~Obj~\"g\"~>~]~",
    "~@g:~[~(~1~\"x\"~)~(~2~\"#\"~)~]~^:~{~}~a:~@g~b:~a.0~c:~-1~d:~\"\"~",
];
fn run(n: u64) -> String {
    let mut f = String::new();
    match sym::choice(4) {
        0 => for _ in 0..n { f.push(among(b" \t\n\r\x0b\x0c")); },
        1 => { f.push('#'); for _ in 0..n { let b = sym::u8(); sym::assume(b < 128 && b != b'\n'); f.push(b as char); } f.push('\n'); }
        2 => { f.push(['\u{a0}', '\u{2003}', '\u{85}', '\u{2028}', '\u{3000}', '\u{1680}'][sym::choice(6) as usize]); for _ in 1..n { f.push(among(b" \t\n\r")); } }
        _ => { f.push(among(b" \t\n\r")); f.push('#'); f.push(UNI[sym::choice(UNI.len() as u32) as usize]); f.push('\n'); for _ in 1..n { f.push(among(b" \t\n\r#")); } f.push('\n'); }
    }
    f
}
pub fn h_layout(param: u64) {
    let t = LAYOUT[(param & 0xff) as usize];
    let gaps = t.chars().filter(|&c| c == '~').count() as u32;
    let g = sym::choice(gaps);
    let mut plain = String::new();
    let mut other = String::new();
    let mut i = 0;
    for c in t.chars() {
        if c == '~' { plain.push(' '); if i == g { other.push_str(&run(param >> 16)); } else { other.push(' '); } i += 1; } else { plain.push(c); other.push(c); }
    }
    sym::fs_add(&format!("{}/f", sym::fs_base()), b" te#xt ", 0);
    sym::fs_add(&format!("{}/g", sym::fs_base()), b"\n#\n x: 1", 0);
    let r = Obj::from_str(&other);
    note_result(&r);
    match (Obj::from_str(&plain), r) {
        (Ok(x), Ok(y)) => sym::check(deep_obj(&x, &y), 50),
        _ => sym::check(false, 51),
    }
}
/// a comment that runs to the end of the text, and layout-only documents
pub fn h_comment(param: u64) {
    let mut s = String::from(if param & 1 == 0 { "a: 1 #" } else { "#" });
    for _ in 0..param >> 8 { let b = sym::u8(); sym::assume(b < 128 && b != b'\n'); s.push(b as char); }
    let r = Obj::from_str(&s);
    note_result(&r);
    match r { Ok(o) => sym::check(o.len() == (param & 1 == 0) as usize, 52), Err(_) => sym::check(false, 53) }
}

/// Nesting. Which bracket stands at which level is symbolic: the first, the last two, and the rest all alike.
/// param: levels below the top | pair style << 8
pub fn h_depth(param: u64) {
    let n = (param & 0xff) as usize;
    let kinds = if param >> 8 & 1 == 1 { 4 } else { 3 };
    let pick = |n: u32| sym::conc(sym::choice(n) as u64) as u32;
    let body = pick(5);
    let (first, last, prev) = (pick(3), pick(kinds), pick(3));
    let kind: Vec<u32> = (0..n).map(|i| if i + 1 == n { last } else if i + 2 == n { prev } else if i == 0 { first } else if body == 2 { (i % 3) as u32 } else if body > 2 { body + 1 } else { body }).collect();
    let mut s = String::from("k: ");
    for (i, &k) in kind.iter().enumerate() { if k == 4 { s.push_str(&format!("{{@g{}: ", i)); } else { s.push_str(["{k: ", "[", "(", "<", "", "{^: "][k as usize]); } }
    if last == 3 { s.push_str(["Str ", "Tup ", "Arr ", "Obj ", ""][pick(5) as usize]); s.push_str("\"f\""); }
    if last != 3 { s.push_str(["1", "-1", "\"s\"", "[]"][pick(3) as usize]); }
    for &k in kind.iter().rev() { s.push(['}', ']', ')', '>'][if k > 3 { 0 } else { k as usize }]); }
    let c: Vec<char> = s.chars().collect();
    let f = format!("{}/f", sym::fs_base());
    sym::fs_add(&f, b"# text", 0);
    let r = Obj::from_str(&s);
    note_result(&r);
    let fs = Fs { ents: vec![(f, 0, b"# text".to_vec())].into_iter().chain(dirs(&sym::fs_base())).collect() };
    let m = spec::parse_str(&c, &fs, &sym::fs_base());
    compare(&m, &r, DIFF);
    // (what a parent may be is another matter)
    if body < 4 { sym::check(r.is_ok() == (n + 1 <= 64), 60); }
    if param >> 9 & 1 == 1 { if let Ok(o) = &r { roundtrip(o); } }
}
/// Openers of one level, mixed: two kinds that alternate and a last one. Nothing is closed. param: levels below the top
const OPEN: [&str; 9] = ["[", "(", "{k: ", "<", "<+", "(1-", "[-+", "<1*", "{^: "];
pub fn h_nest(param: u64) {
    let n = (param & 0xff) as usize;
    let (a, b, last) = (pick9(), pick9(), pick9());
    let build = |n: usize| { let mut s = String::from("k: "); for i in 0..n { s.push_str(if i + 1 == n { OPEN[last] } else if i % 2 == 0 { OPEN[a] } else { OPEN[b] }); } s };
    let s = build(n);
    sym::depth_reset();
    let r = Obj::from_str(&s);
    let d = sym::depth_peak();
    note_result(&r);
    let c: Vec<char> = s.chars().collect();
    compare(&spec::parse_str(&c, &Fs::none(), "/none"), &r, DIFF | POS);
    sym::check(r.is_err(), 63);
    if n > 64 && sym::is_sym() {
        sym::depth_reset();
        let _ = Obj::from_str(&build(n + 60));
        let e = sym::depth_peak();
        sym::check(e <= d + 1, 64);
    }
}
fn pick9() -> usize { sym::conc(sym::choice(9) as u64) as usize }

pub fn dirs(base: &str) -> Vec<(String, u32, Vec<u8>)> {
    let mut v = vec![];
    let b = base.as_bytes();
    for i in 1..=b.len() { if i == b.len() || b[i] == b'/' { v.push((base[..i].to_string(), 1, vec![])); } }
    v
}

fn chain(kind: u64, n: usize) -> String {
    let rep = |s: &str| s.repeat(n);
    match kind {
        0 => format!("a: {}1", rep("-")),
        1 => format!("a: {}1", rep("+-")),
        2 => format!("a: 1{}", rep("+1")),
        3 => format!("a: 1{}", rep("-2*3")),
        4 => format!("a: {{b: 1}} x: a{}", rep(".b")),
        5 => format!("a: [0] x: a{}.0", rep(".a")),
        6 => format!("a: {{b: {{}}}} x: a{}", rep(".a")),
        7 => format!("a: \"{}\"", rep("x\\n")),
        8 => format!("a: {}", rep("7")),
        9 => format!("{}a: 1", rep("# x\n")),
        10 => format!("a: [{}]", rep("1 ")),
        11 => format!("a: ({})", rep("() ")),
        12 => { let mut s = String::new(); for i in 0..n { s.push_str(&format!("a{}: 1\n", i)); } s }
        13 => format!("{}: 1", rep("a")),
        14 => format!("a: {}", rep("(")),
        _ => format!("@a: [0] x: @a{}.0", rep(".@a")),
    }
}
/// Long texts must not use more stack than short ones. param: kind
pub fn h_chain(param: u64) {
    let kind = param & 0xff;
    let work = |n: usize| -> u64 {
        sym::depth_reset();
        let r = Obj::from_str(&chain(kind, n));
        note_result(&r);
        drop(r);
        sym::depth_peak()
    };
    if sym::is_sym() {
        // which of the two lengths: both are beyond the limit of 64 levels
        let n = 70 + 60 * sym::conc(sym::choice(3) as u64) as usize;
        let a = work(70);
        let b = work(n);
        sym::check(b <= a + 1, 61);
    } else {
        let _ = sym::choice(3);
        let n = match kind { 2 | 3 => 100_000, 8 => 20_000, 12 => 3_000, _ => 1_000_000 };
        work(n);
    }
}

/// Values nested through variables: each definition wraps the one before. param: kind | op << 8 (0 parse and drop, 1 also write)
fn wrapped(kind: u64, n: usize) -> String {
    let mut s = String::from(if kind == 2 { "@v0: {}\n" } else { "v0: []\n" });
    for i in 1..n {
        s.push_str(&match kind { 0 => format!("v{}: [v{}]\n", i, i - 1), 1 => format!("v{}: (v{})\n", i, i - 1), _ => format!("@v{}: {{x: @v{}}}\n", i, i - 1) });
    }
    if kind == 2 { s.push_str(&format!("r: @v{}\n", n - 1)); }
    s
}
pub fn h_wrapped(param: u64) {
    let kind = param & 0xff;
    let work = |n: usize| -> u64 {
        sym::depth_reset();
        let r = Obj::from_str(&wrapped(kind, n));
        if let Ok(o) = &r { sym::reach(1); if param >> 8 & 1 == 1 { let _ = o.write_to_string().len(); } }
        drop(r);
        sym::depth_peak()
    };
    if sym::is_sym() {
        let n = 70 + 40 * sym::conc(sym::choice(2) as u64) as usize;
        let a = work(70);
        let b = work(n);
        sym::check(b <= a + 1, 62);
    } else {
        let _ = sym::choice(2);
        work(if kind == 2 { 60_000 } else { 8_000 });
    }
}
