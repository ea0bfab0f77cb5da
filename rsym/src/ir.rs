//! Parser for textual LLVM IR, decoding functions into an executable form.
use std::collections::HashMap;

pub const CONST_BIT: u32 = 1 << 31;
pub const GLOBAL_BASE: u64 = 0x1_0000_0000;
pub const FUNC_BASE: u64 = 0x4_0000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Float, Double, Arr(u64, Box<Ty>), Vec(u64, Box<Ty>), Struct(Vec<Ty>, bool), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.bits()).div_ceil(8).next_power_of_two().max(1),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self { Ty::Int(w) => *w as u64, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, Ty::Vec(n, t) => n * t.bits(), _ => self.size() * 8 }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let s = (*w as u64).div_ceil(8); let a = self.align(); s.div_ceil(a) * a }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => { let s = (n * t.bits()).div_ceil(8); let a = self.align(); s.div_ceil(a) * a }
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f { if !packed { let a = t.align(); o = o.div_ceil(a) * a; } o += t.size(); }
                let a = self.align();
                o.div_ceil(a) * a
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() { if !packed { let a = t.align(); o = o.div_ceil(a) * a; } if j == i { return o; } o += t.size(); }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self { Ty::Struct(f, _) => f.get(i).cloned().unwrap_or(Ty::Other), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => Ty::Other }
    }
    pub fn scalar_w(&self) -> Option<u16> {
        match self { Ty::Int(w) => Some(*w as u16), Ty::Ptr | Ty::Double => Some(64), Ty::Float => Some(32), _ => None }
    }
}

/// Constant value (thread-shareable).
#[derive(Clone, Debug, PartialEq)]
pub enum CV { C(u64), W(u128), A(Vec<CV>) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt }
#[derive(Clone, Copy, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

/// Memory shape of a loaded/stored value.
#[derive(Clone, Debug)]
pub enum Mt { Int(u16), Vec(u32, u16), Agg(Vec<(u64, Mt)>) }

pub type R = u32;

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ptr(R), Asm }

#[derive(Clone, Debug)]
pub struct Edge { pub target: u32, pub moves: Box<[(u32, R)]>, pub overlap: bool }

#[derive(Clone, Debug)]
pub enum Inst {
    Nop,
    Bin { op: BinOp, w: u16, d: u32, a: R, b: R },
    ICmp { p: Pred, w: u16, d: u32, a: R, b: R },
    Select { d: u32, c: R, a: R, b: R, w: u16 },
    Cast { op: CastOp, d: u32, a: R, from: u16, to: u16 },
    Move { d: u32, a: R },
    Gep { d: u32, base: R, off: i64, idx: Box<[(R, u16, i64)]> },
    Load { d: u32, p: R, w: u16 },
    LoadX { d: u32, p: R, mt: Box<Mt> },
    Store { v: R, p: R, w: u16 },
    StoreX { v: R, p: R, mt: Box<Mt> },
    Alloca { d: u32, off: u64 },
    AllocaDyn { d: u32, n: R, size: u64 },
    Br { e: u32 },
    CondBr { c: R, t: u32, f: u32 },
    Switch { v: R, w: u16, cases: Box<[(u64, u32)]>, def: u32 },
    Call { d: u32, callee: Callee, args: Box<[R]>, normal: u32, rw: u16 },
    Ret { v: R },
    Unreachable,
    ExtractValue { d: u32, a: R, path: Box<[u32]> },
    InsertValue { d: u32, a: R, v: R, path: Box<[u32]> },
    Rmw { op: RmwOp, d: u32, p: R, v: R, w: u16 },
    CmpXchg { d: u32, p: R, c: R, n: R, w: u16 },
    VBin { op: BinOp, w: u16, n: u32, d: u32, a: R, b: R },
    VICmp { p: Pred, w: u16, n: u32, d: u32, a: R, b: R },
    VSelect { d: u32, c: R, a: R, b: R, n: u32 },
    VCast { op: CastOp, n: u32, d: u32, a: R, from: u16, to: u16 },
    ExtractElement { d: u32, a: R, i: R },
    InsertElement { d: u32, a: R, v: R, i: R },
    Shuffle { d: u32, a: R, b: R, mask: Box<[i32]>, na: u32 },
    Bitcast { d: u32, a: R, from: Box<Ty>, to: Box<Ty> },
    FBin { op: FOp, d: u32, a: R, b: R, w: u16 },
    FCmp { p: String, d: u32, a: R, b: R, w: u16 },
    FNeg { d: u32, a: R, w: u16 },
    IToF { signed: bool, d: u32, a: R, from: u16, to: u16 },
    FToI { signed: bool, d: u32, a: R, from: u16, to: u16 },
    FConv { d: u32, a: R, from: u16, to: u16 },
    Unsupported(String),
}
pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub insts: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub frame: u64,
    pub defined: bool,
    pub ret_w: u16,
}

#[derive(Clone, Debug)]
pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub constant: bool, pub init: Vec<u8>, pub external: bool, pub tls: bool }

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub consts: Vec<CV>,
    pub global_end: u64,
    pub ninsts: usize,
    cmap: HashMap<u64, u32>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> { Id(&'a str), Loc(&'a str), Glob(&'a str), Num(&'a str), Str(&'a str), CStr(&'a str), P(u8), Meta(&'a str), Attr, Dots }

struct Lx<'a> { t: Vec<Tok<'a>>, p: usize }

fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::with_capacity(32);
    let idch = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => { i += 1; }
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let st = i + 1;
                let (s0, e0);
                if st < b.len() && b[st] == b'"' {
                    let mut j = st + 1;
                    while b[j] != b'"' { j += 1; }
                    s0 = st + 1; e0 = j; i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && idch(b[j]) { j += 1; }
                    s0 = st; e0 = j; i = j;
                }
                v.push(if c == b'%' { Tok::Loc(&s[s0..e0]) } else { Tok::Glob(&s[s0..e0]) });
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' { j += 1; }
                v.push(Tok::Str(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' { j += 1; }
                v.push(Tok::CStr(&s[i + 2..j]));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idch(b[j]) { j += 1; }
                v.push(Tok::Meta(&s[i..j]));
                i = j;
            }
            b'#' => { let mut j = i + 1; while j < b.len() && b[j].is_ascii_digit() { j += 1; } v.push(Tok::Attr); i = j; }
            b'.' if s[i..].starts_with("...") => { v.push(Tok::Dots); i += 3; }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || (b[j] == b'-' && (b[j - 1] == b'e'))) { j += 1; }
                v.push(Tok::Num(&s[i..j]));
                i = j;
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && idch(b[j]) { j += 1; }
                v.push(Tok::Id(&s[i..j]));
                i = j;
            }
            _ => { v.push(Tok::P(c)); i += 1; }
        }
    }
    v
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
        else { v.push(b[i]); i += 1; }
    }
    v
}

type PR<T> = Result<T, String>;

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self { Lx { t: lex(s), p: 0 } }
    fn peek(&self) -> Option<&Tok<'a>> { self.t.get(self.p) }
    fn next(&mut self) -> PR<Tok<'a>> { let t = self.t.get(self.p).cloned().ok_or("eol")?; self.p += 1; Ok(t) }
    fn is_p(&self, c: u8) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn is_id(&self, s: &str) -> bool { matches!(self.peek(), Some(Tok::Id(x)) if *x == s) }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.p += 1; true } else { false } }
    fn eat_id(&mut self, s: &str) -> bool { if self.is_id(s) { self.p += 1; true } else { false } }
    fn exp_p(&mut self, c: u8) -> PR<()> { if self.eat_p(c) { Ok(()) } else { Err(format!("expected {:?} got {:?}", c as char, self.peek())) } }
    fn skip_group(&mut self) -> PR<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? { Tok::P(b'(') => d += 1, Tok::P(b')') => { d -= 1; if d == 0 { return Ok(()); } } _ => {} }
        }
    }
    fn int(&mut self) -> PR<i128> {
        match self.next()? { Tok::Num(n) => n.parse::<i128>().map_err(|e| e.to_string()), t => Err(format!("int {:?}", t)) }
    }
}

struct P<'m> { m: &'m mut Module, types: HashMap<String, Ty> }

fn is_type_kw(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "opaque")
        || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl<'m> P<'m> {
    fn ty(&self, l: &mut Lx) -> PR<Ty> {
        let t = l.next()?;
        let base = match t {
            Tok::Id(s) => match s {
                "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::Float, "double" => Ty::Double,
                _ if is_type_kw(s) => if s.starts_with('i') && s != "i" { match s[1..].parse() { Ok(w) => Ty::Int(w), _ => Ty::Other } } else { Ty::Other },
                _ => return Err(format!("type? {}", s)),
            },
            Tok::Loc(n) => self.types.get(n).cloned().ok_or_else(|| format!("type %{}", n))?,
            Tok::P(b'[') => { let n = l.int()? as u64; if !l.eat_id("x") { return Err("x".into()); } let e = self.ty(l)?; l.exp_p(b']')?; Ty::Arr(n, Box::new(e)) }
            Tok::P(b'{') => Ty::Struct(self.ty_list(l, b'}')?, false),
            Tok::P(b'<') => {
                if l.eat_p(b'{') { let f = self.ty_list(l, b'}')?; l.exp_p(b'>')?; Ty::Struct(f, true) }
                else { let n = l.int()? as u64; if !l.eat_id("x") { return Err("x".into()); } let e = self.ty(l)?; l.exp_p(b'>')?; Ty::Vec(n, Box::new(e)) }
            }
            t => return Err(format!("type? {:?}", t)),
        };
        if base == Ty::Ptr && l.is_id("addrspace") { l.next()?; l.skip_group()?; }
        // function type: ret (params)
        if l.is_p(b'(') { l.skip_group()?; return Ok(Ty::Other); }
        Ok(base)
    }
    fn ty_list(&self, l: &mut Lx, end: u8) -> PR<Vec<Ty>> {
        let mut v = vec![];
        if l.eat_p(end) { return Ok(v); }
        loop { v.push(self.ty(l)?); if l.eat_p(end) { return Ok(v); } l.exp_p(b',')?; }
    }
    fn starts_type(&self, l: &Lx) -> bool {
        match l.peek() {
            Some(Tok::Id(s)) => is_type_kw(s),
            Some(Tok::P(b'[')) | Some(Tok::P(b'{')) | Some(Tok::P(b'<')) => true,
            Some(Tok::Loc(n)) => self.types.contains_key(*n),
            _ => false,
        }
    }
    // skip parameter / return attributes up to the next value or delimiter
    fn skip_attrs(&self, l: &mut Lx) -> PR<()> {
        loop {
            match l.peek() {
                Some(Tok::Id(s)) => {
                    if is_const_kw(s) { return Ok(()); }
                    let al = *s == "align";
                    l.next()?;
                    if l.is_p(b'(') { l.skip_group()?; } else if al { if let Some(Tok::Num(_)) = l.peek() { l.next()?; } }
                }
                Some(Tok::Str(_)) => { l.next()?; if l.eat_p(b'=') { l.next()?; } }
                Some(Tok::Attr) => { l.next()?; }
                _ => return Ok(()),
            }
        }
    }
    fn zero(&self, t: &Ty) -> CV {
        match t {
            Ty::Int(w) if *w > 64 => CV::W(0),
            Ty::Arr(n, e) | Ty::Vec(n, e) => CV::A(vec![self.zero(e); *n as usize]),
            Ty::Struct(f, _) => CV::A(f.iter().map(|t| self.zero(t)).collect()),
            _ => CV::C(0),
        }
    }
    /// constant of type t
    fn cval(&mut self, l: &mut Lx, t: &Ty) -> PR<CV> {
        let tok = l.next()?;
        Ok(match tok {
            Tok::Num(n) => match t {
                Ty::Double | Ty::Float => {
                    let bits = if let Some(h) = n.strip_prefix("f0x").or(n.strip_prefix("0x")) { u64::from_str_radix(h, 16).map_err(|e| e.to_string())? } else { n.parse::<f64>().map_err(|e| e.to_string())?.to_bits() };
                    if *t == Ty::Float { CV::C((f64::from_bits(bits) as f32).to_bits() as u64) } else { CV::C(bits) }
                }
                Ty::Int(w) => {
                    let v: i128 = if let Some(h) = n.strip_prefix("u0x") { u128::from_str_radix(h, 16).map_err(|e| e.to_string())? as i128 } else if let Ok(x) = n.parse::<i128>() { x } else { n.parse::<u128>().map_err(|e| e.to_string())? as i128 };
                    if *w > 64 { CV::W(v as u128 & if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 }) } else { CV::C(v as u64 & crate::expr::mask(*w as u16)) }
                }
                _ => return Err(format!("num of {:?}", t)),
            },
            Tok::CStr(s) => CV::A(unescape(s).into_iter().map(|b| CV::C(b as u64)).collect()),
            Tok::Glob(g) => CV::C(self.addr_of(g)?),
            Tok::P(b'[') | Tok::P(b'{') => {
                let end = if tok == Tok::P(b'[') { b']' } else { b'}' };
                CV::A(self.clist(l, end)?)
            }
            Tok::P(b'<') => {
                if l.eat_p(b'{') { let v = self.clist(l, b'}')?; l.exp_p(b'>')?; CV::A(v) } else { CV::A(self.clist(l, b'>')?) }
            }
            Tok::Id(s) => match s {
                "true" => CV::C(1),
                h if h.starts_with("f0x") => CV::C({ let b = u64::from_str_radix(&h[3..], 16).map_err(|e| e.to_string())?; if *t == Ty::Float && h.len() > 11 { (f64::from_bits(b) as f32).to_bits() as u64 } else { b } }),
                "false" | "null" | "none" => CV::C(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(t),
                "splat" => { l.exp_p(b'(')?; let et = self.ty(l)?; let v = self.cval(l, &et)?; l.exp_p(b')')?; match t { Ty::Vec(n, _) => CV::A(vec![v; *n as usize]), _ => return Err("splat".into()) } }
                "getelementptr" => {
                    while !l.is_p(b'(') { l.next()?; if l.is_p(b'(') && matches!(l.t.get(l.p - 1), Some(Tok::Id("inrange"))) { l.skip_group()?; } }
                    l.exp_p(b'(')?;
                    let st = self.ty(l)?;
                    l.exp_p(b',')?;
                    let bt = self.ty(l)?;
                    let mut a = self.cnum(l, &bt)?;
                    let mut cur = st;
                    let mut first = true;
                    while l.eat_p(b',') {
                        l.eat_id("inrange");
                        let it = self.ty(l)?;
                        let i = self.cnum(l, &it)?;
                        let i = crate::expr::sext64(i, it.bits() as u16);
                        if first { a = a.wrapping_add((i.wrapping_mul(cur.size() as i64)) as u64); first = false; }
                        else { a = a.wrapping_add(match &cur { Ty::Struct(..) => cur.field_off(i as usize), _ => (i.wrapping_mul(cur.elem(0).size() as i64)) as u64 }); cur = cur.elem(i as usize); }
                    }
                    l.exp_p(b')')?;
                    CV::C(a)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "ptrtoaddr" => {
                    l.exp_p(b'(')?;
                    let ft = self.ty(l)?;
                    let v = self.cnum(l, &ft)?;
                    if !l.eat_id("to") { return Err("to".into()); }
                    let tt = self.ty(l)?;
                    l.exp_p(b')')?;
                    CV::C(v & crate::expr::mask(tt.bits() as u16))
                }
                "add" | "sub" | "xor" | "mul" | "shl" => {
                    while !l.is_p(b'(') { l.next()?; }
                    l.exp_p(b'(')?;
                    let t1 = self.ty(l)?; let a = self.cnum(l, &t1)?; l.exp_p(b',')?;
                    let t2 = self.ty(l)?; let b = self.cnum(l, &t2)?; l.exp_p(b')')?;
                    let r = match s { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "mul" => a.wrapping_mul(b), _ => a << b };
                    CV::C(r & crate::expr::mask(t1.bits() as u16))
                }
                "dso_local_equivalent" | "no_cfi" => { let t2 = l.next()?; if let Tok::Glob(g) = t2 { CV::C(self.addr_of(g)?) } else { return Err("dso".into()); } }
                _ => return Err(format!("const {:?}", s)),
            },
            t => return Err(format!("const {:?}", t)),
        })
    }
    fn clist(&mut self, l: &mut Lx, end: u8) -> PR<Vec<CV>> {
        let mut v = vec![];
        if l.eat_p(end) { return Ok(v); }
        loop { let t = self.ty(l)?; v.push(self.cval(l, &t)?); if l.eat_p(end) { return Ok(v); } l.exp_p(b',')?; }
    }
    fn cnum(&mut self, l: &mut Lx, t: &Ty) -> PR<u64> { match self.cval(l, t)? { CV::C(v) => Ok(v), _ => Err("cnum".into()) } }
    fn addr_of(&mut self, g: &str) -> PR<u64> {
        if let Some(&i) = self.m.fidx.get(g) { return Ok(FUNC_BASE + 16 * i as u64); }
        if let Some(&i) = self.m.gidx.get(g) { return Ok(self.m.globals[i].addr); }
        Err(format!("unknown symbol @{}", g))
    }
    fn kreg(&mut self, c: CV) -> R {
        if let CV::C(v) = c {
            if let Some(&i) = self.m.cmap.get(&v) { return i; }
            let i = self.m.consts.len() as u32 | CONST_BIT;
            self.m.consts.push(c);
            self.m.cmap.insert(v, i);
            return i;
        }
        self.m.consts.push(c);
        (self.m.consts.len() - 1) as u32 | CONST_BIT
    }
}

fn is_const_kw(s: &str) -> bool {
    matches!(s, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "mul" | "shl" | "splat" | "asm" | "zext" | "ptrtoaddr" | "no_cfi" | "dso_local_equivalent" | "addrspacecast")
}

fn ser(cv: &CV, t: &Ty, off: usize, out: &mut [u8]) {
    match (cv, t) {
        (CV::A(v), _) => for (i, x) in v.iter().enumerate() { ser(x, &t.elem(i), off + t.field_off(i) as usize, out); },
        (CV::C(v), _) => { let n = (t.bits().div_ceil(8)) as usize; for i in 0..n.min(8) { out[off + i] = (v >> (8 * i)) as u8; } }
        (CV::W(v), _) => for i in 0..16 { out[off + i] = (v >> (8 * i)) as u8; },
    }
}

fn mt_of(t: &Ty) -> PR<Mt> {
    Ok(match t {
        Ty::Int(w) => Mt::Int(*w as u16),
        Ty::Ptr | Ty::Double => Mt::Int(64),
        Ty::Float => Mt::Int(32),
        Ty::Vec(n, e) => Mt::Vec(*n as u32, e.scalar_w().ok_or("vec elem")?),
        Ty::Struct(f, _) => Mt::Agg((0..f.len()).map(|i| Ok((t.field_off(i), mt_of(&f[i])?))).collect::<PR<Vec<_>>>()?),
        Ty::Arr(n, e) => Mt::Agg((0..*n as usize).map(|i| Ok((t.field_off(i), mt_of(e)?))).collect::<PR<Vec<_>>>()?),
        _ => return Err(format!("mt {:?}", t)),
    })
}

pub fn parse(text: &str) -> PR<Module> {
    let mut m = Module::default();
    let mut p = P { m: &mut m, types: HashMap::new() };
    // pass 1: symbols
    let lines: Vec<&str> = text.lines().collect();
    let mut gl: Vec<usize> = vec![];
    let mut fl: Vec<(u32, usize)> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('%') && l.contains(" = type ") {
            let mut x = Lx::new(l);
            if let Tok::Loc(n) = x.next()? { x.exp_p(b'=')?; x.next()?; let t = p.ty(&mut x).unwrap_or(Ty::Other); p.types.insert(n.to_string(), t); }
        } else if l.starts_with('@') { gl.push(i); }
        else if l.starts_with("define ") || l.starts_with("declare ") {
            let at = l.find('@').ok_or("fn name")?;
            let rest = &l[at + 1..];
            let name = if rest.starts_with('"') { rest[1..].split('"').next().unwrap() } else { &rest[..rest.find('(').ok_or("fn(")?] };
            let idx = p.m.funcs.len() as u32;
            p.m.fidx.insert(name.to_string(), idx);
            p.m.funcs.push(Func { name: name.to_string(), defined: l.starts_with("define "), ..Default::default() });
            if l.starts_with("define ") { fl.push((idx, i)); while lines[i] != "}" { i += 1; } }
        }
        i += 1;
    }
    // globals: sizes first, then initialisers
    let mut addr = GLOBAL_BASE + 64;
    let mut inits: Vec<(usize, Lx, Ty)> = vec![];
    for &gi in &gl {
        let mut x = Lx::new(lines[gi]);
        let name = match x.next()? { Tok::Glob(n) => n.to_string(), t => return Err(format!("{:?}", t)) };
        x.exp_p(b'=')?;
        let mut external = false;
        let mut constant = false;
        let mut alias = false;
        let mut tls = false;
        loop {
            match x.next()? {
                Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                Tok::Id("constant") => { constant = true; break; }
                Tok::Id("global") => break,
                Tok::Id("alias") => { alias = true; break; }
                Tok::Id("thread_local") => { tls = true; if x.is_p(b'(') { x.skip_group()?; } }
                Tok::Id("addrspace") => { if x.is_p(b'(') { x.skip_group()?; } }
                _ => {}
            }
        }
        if alias {
            // @a = alias <ty>, ptr @b
            let _ = p.ty(&mut x)?; x.exp_p(b',')?; let _ = p.ty(&mut x)?;
            if let Tok::Glob(g) = x.next()? {
                if let Some(&f) = p.m.fidx.get(g) { p.m.fidx.insert(name, f); } else if let Some(&g2) = p.m.gidx.get(g) { p.m.gidx.insert(name, g2); }
            }
            continue;
        }
        let t = p.ty(&mut x)?;
        let size = t.size();
        let mut align = t.align().max(8);
        if let Some(pos) = lines[gi].rfind(", align ") { if let Ok(a) = lines[gi][pos + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap_or("").parse::<u64>() { align = align.max(a); } }
        addr = (addr + align - 1) / align * align;
        let idx = p.m.globals.len();
        p.m.gidx.insert(name.clone(), idx);
        p.m.globals.push(Global { name, addr, size, constant, init: vec![], external, tls });
        addr += size + 16;
        if !external { inits.push((idx, x, t)); }
    }
    p.m.global_end = addr;
    for (idx, mut x, t) in inits {
        let cv = p.cval(&mut x, &t).map_err(|e| format!("global {}: {}", p.m.globals[idx].name, e))?;
        let mut out = vec![0u8; t.size() as usize];
        ser(&cv, &t, 0, &mut out);
        p.m.globals[idx].init = out;
    }
    for (fi, li) in fl {
        let name = p.m.funcs[fi as usize].name.clone();
        let f = parse_fn(&mut p, &lines, li).map_err(|e| format!("{}: {}", name, e))?;
        p.m.ninsts += f.insts.len();
        let old = &mut p.m.funcs[fi as usize];
        *old = Func { name, defined: true, ..f };
    }
    Ok(m)
}

struct FnCtx<'a> { regs: HashMap<&'a str, u32>, n: u32 }
impl<'a> FnCtx<'a> { fn reg(&mut self, s: &'a str) -> u32 { if let Some(&r) = self.regs.get(s) { return r; } let r = self.n; self.n += 1; self.regs.insert(s, r); r } }

fn parse_fn<'a>(p: &mut P, lines: &[&'a str], start: usize) -> PR<Func> {
    let mut f = Func::default();
    let mut c = FnCtx { regs: HashMap::new(), n: 0 };
    // header
    let mut x = Lx::new(lines[start]);
    x.next()?; // define
    // return type: skip words until a type starts
    loop {
        if p.starts_type(&x) { break; }
        match x.next()? { Tok::Id(_) => { if x.is_p(b'(') { x.skip_group()?; } else if matches!(x.t[x.p - 1], Tok::Id("align")) { x.next()?; } } Tok::Num(_) | Tok::Str(_) => {} t => return Err(format!("hdr {:?}", t)) }
    }
    let rt = p.ty_noparen(&mut x)?;
    f.ret_w = rt.scalar_w().unwrap_or(0);
    match x.next()? { Tok::Glob(_) => {} t => return Err(format!("hdr name {:?}", t)) }
    x.exp_p(b'(')?;
    let mut unnamed = 0u32;
    if !x.eat_p(b')') {
        loop {
            if x.peek() == Some(&Tok::Dots) { x.next()?; x.exp_p(b')')?; break; }
            let _t = p.ty(&mut x)?;
            p.skip_attrs(&mut x)?;
            match x.peek().cloned() {
                Some(Tok::Loc(n)) => { x.next()?; c.reg(n); if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; } }
                _ => { return Err("unnamed param".into()); }
            }
            f.nparams += 1;
            if x.eat_p(b')') { break; }
            x.exp_p(b',')?;
        }
    }
    // split into blocks
    let mut blocks: Vec<(String, Vec<(usize, String)>)> = vec![];
    let mut i = start + 1;
    let entry = unnamed.to_string();
    while lines[i] != "}" {
        let l = lines[i];
        if l.is_empty() { i += 1; continue; }
        if !l.starts_with(' ') {
            // label
            let lab = if l.starts_with('"') { l[1..].split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
            blocks.push((lab, vec![]));
            i += 1;
            continue;
        }
        if blocks.is_empty() { blocks.push((entry.clone(), vec![])); }
        // join continuation lines (switch tables, landingpad clauses, invoke "to label")
        let mut s = String::from(l.trim());
        let t = l.trim_start();
        if t.starts_with("switch ") && !l.contains(']') {
            loop { i += 1; s.push(' '); s.push_str(lines[i].trim()); if lines[i].trim().starts_with(']') { break; } }
        } else if t.contains("invoke ") && !l.contains(" unwind label ") {
            i += 1; s.push(' '); s.push_str(lines[i].trim());
        }
        let lb = blocks.len() - 1;
        blocks[lb].1.push((i, s));
        i += 1;
    }
    let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
    // phis first
    let mut phis: Vec<Vec<(u32, Vec<(usize, R)>)>> = vec![vec![]; blocks.len()];
    // leak the joined strings so that token lifetimes work simply
    let blocks: Vec<(String, Vec<&'static str>)> = blocks.into_iter().map(|(n, v)| (n, v.into_iter().map(|(_, s)| &*Box::leak(s.into_boxed_str())).collect())).collect();
    let mut c2 = FnCtx { regs: HashMap::new(), n: c.n };
    for (k, v) in c.regs { c2.regs.insert(Box::leak(k.to_string().into_boxed_str()), v); }
    let mut c = c2;
    for (bi, (_, ls)) in blocks.iter().enumerate() {
        for s in ls {
            if !s.contains(" = phi ") { continue; }
            let mut x = Lx::new(s);
            let d = match x.next()? { Tok::Loc(n) => c.reg(n), _ => return Err("phi".into()) };
            x.exp_p(b'=')?; x.next()?;
            while !p.starts_type(&x) { x.next()?; } // fast-math flags
            let t = p.ty(&mut x)?;
            let mut inc = vec![];
            loop {
                x.exp_p(b'[')?;
                let v = val(p, &mut c, &mut x, &t)?;
                x.exp_p(b',')?;
                let b = match x.next()? { Tok::Loc(n) => *bidx.get(n).ok_or_else(|| format!("phi block {}", n))?, t => return Err(format!("phi {:?}", t)) };
                x.exp_p(b']')?;
                inc.push((b, v));
                if !x.eat_p(b',') { break; }
                if !x.is_p(b'[') { break; }
            }
            phis[bi].push((d, inc));
        }
    }
    let mut starts = vec![0u32; blocks.len()];
    let mut frame = 0u64;
    for (bi, (_, ls)) in blocks.iter().enumerate() {
        starts[bi] = f.insts.len() as u32;
        for s in ls {
            if s.contains(" = phi ") { continue; }
            let r = parse_inst(p, &mut c, &mut f, s, bi, &bidx, &phis, &mut frame);
            match r {
                Ok(Some(inst)) => f.insts.push(inst),
                Ok(None) => {}
                Err(e) => {
                    let term = ["br ", "ret ", "switch ", "indirectbr ", "invoke "].iter().any(|k| s.starts_with(k));
                    let _ = term;
                    f.insts.push(Inst::Unsupported(format!("{} [{}]", s, e)));
                }
            }
        }
    }
    for e in f.edges.iter_mut() { e.target = starts[e.target as usize]; }
    f.nregs = c.n;
    f.frame = (frame + 15) / 16 * 16;
    Ok(f)
}

impl<'m> P<'m> {
    fn ty_noparen(&self, l: &mut Lx) -> PR<Ty> {
        // a type that may be followed by '(' belonging to something else
        let save = l.p;
        match self.ty(l) {
            Ok(Ty::Other) => { l.p = save; let t = l.next()?; match t { Tok::Id("void") => Ok(Ty::Void), Tok::Id("ptr") => Ok(Ty::Ptr), Tok::Id(s) if s.starts_with('i') => Ok(Ty::Int(s[1..].parse().unwrap_or(0))), _ => { l.p = save; self.ty(l) } } }
            r => r,
        }
    }
}

fn val(p: &mut P, c: &mut FnCtx<'static>, x: &mut Lx<'static>, t: &Ty) -> PR<R> {
    if let Some(Tok::Loc(n)) = x.peek().cloned() { x.next()?; return Ok(c.reg(n)); }
    let cv = p.cval(x, t)?;
    Ok(p.kreg(cv))
}

fn mk_edge(f: &mut Func, from: usize, to: usize, phis: &[Vec<(u32, Vec<(usize, R)>)>]) -> PR<u32> {
    let mut mv = vec![];
    for (d, inc) in &phis[to] {
        let (_, v) = inc.iter().find(|(b, _)| *b == from).ok_or("phi edge")?;
        if v != d { mv.push((*d, *v)); }
    }
    let overlap = mv.iter().enumerate().any(|(i, (d, _))| mv[i + 1..].iter().any(|(_, s)| s == d));
    f.edges.push(Edge { target: to as u32, moves: mv.into_boxed_slice(), overlap });
    Ok(f.edges.len() as u32 - 1)
}

fn parse_inst(p: &mut P, c: &mut FnCtx<'static>, f: &mut Func, s: &'static str, bi: usize, bidx: &HashMap<String, usize>, phis: &[Vec<(u32, Vec<(usize, R)>)>], frame: &mut u64) -> PR<Option<Inst>> {
    let mut x = Lx::new(s);
    let x = &mut x;
    let mut d = NOREG;
    if let Some(Tok::Loc(n)) = x.peek().cloned() { x.next()?; x.exp_p(b'=')?; d = c.reg(n); }
    let mut op = match x.next()? { Tok::Id(s) => s, t => return Err(format!("{:?}", t)) };
    if matches!(op, "tail" | "musttail" | "notail") { op = match x.next()? { Tok::Id(s) => s, t => return Err(format!("{:?}", t)) }; }
    let lab = |x: &mut Lx<'static>| -> PR<usize> {
        if !x.eat_id("label") { return Err("label".into()); }
        match x.next()? { Tok::Loc(n) => bidx.get(n).copied().ok_or_else(|| format!("label {}", n)), t => Err(format!("label {:?}", t)) }
    };
    macro_rules! flags { () => { while let Some(Tok::Id(s)) = x.peek() { if is_type_kw(s) { break; } x.next()?; if x.is_p(b'(') { x.skip_group()?; } } } }
    let bop = |o: &str| Some(match o {
        "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem,
        "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, _ => return None,
    });
    if let Some(o) = bop(op) {
        flags!();
        let t = p.ty(x)?;
        let a = val(p, c, x, &t)?; x.exp_p(b',')?; let b = val(p, c, x, &t)?;
        return Ok(Some(match &t {
            Ty::Vec(n, e) => Inst::VBin { op: o, w: e.scalar_w().ok_or("vw")?, n: *n as u32, d, a, b },
            _ => Inst::Bin { op: o, w: t.scalar_w().ok_or("w")?, d, a, b },
        }));
    }
    Ok(Some(match op {
        "icmp" => {
            let mut pr = "";
            while let Some(Tok::Id(s)) = x.peek().cloned() { if is_type_kw(s) { break; } x.next()?; if s != "samesign" { pr = s; } }
            let pp = match pr { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err("pred".into()) };
            let t = p.ty(x)?;
            let a = val(p, c, x, &t)?; x.exp_p(b',')?; let b = val(p, c, x, &t)?;
            match &t { Ty::Vec(n, e) => Inst::VICmp { p: pp, w: e.scalar_w().ok_or("vw")?, n: *n as u32, d, a, b }, _ => Inst::ICmp { p: pp, w: t.scalar_w().ok_or("w")?, d, a, b } }
        }
        "select" => {
            flags!();
            let t = p.ty(x)?; let cc = val(p, c, x, &t)?; x.exp_p(b',')?;
            let t1 = p.ty(x)?; let a = val(p, c, x, &t1)?; x.exp_p(b',')?;
            let t2 = p.ty(x)?; let b = val(p, c, x, &t2)?;
            if let Ty::Vec(n, _) = t { Inst::VSelect { d, c: cc, a, b, n: n as u32 } } else { Inst::Select { d, c: cc, a, b, w: t1.scalar_w().unwrap_or(0) } }
        }
        "trunc" | "zext" | "sext" => {
            flags!();
            let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.eat_id("to"); let t2 = p.ty(x)?;
            let o = match op { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, _ => CastOp::SExt };
            match (&t, &t2) {
                (Ty::Vec(n, e), Ty::Vec(_, e2)) => Inst::VCast { op: o, n: *n as u32, d, a, from: e.scalar_w().ok_or("w")?, to: e2.scalar_w().ok_or("w")? },
                _ => Inst::Cast { op: o, d, a, from: t.scalar_w().ok_or("w")?, to: t2.scalar_w().ok_or("w")? },
            }
        }
        "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.eat_id("to"); let t2 = p.ty(x)?;
            let (fw, tw) = (t.scalar_w().ok_or("w")?, t2.scalar_w().ok_or("w")?);
            if fw == tw { Inst::Move { d, a } } else if fw > tw { Inst::Cast { op: CastOp::Trunc, d, a, from: fw, to: tw } } else { Inst::Cast { op: CastOp::ZExt, d, a, from: fw, to: tw } }
        }
        "bitcast" | "addrspacecast" => {
            let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.eat_id("to"); let t2 = p.ty(x)?;
            if t.scalar_w().is_some() && t2.scalar_w().is_some() { Inst::Move { d, a } } else { Inst::Bitcast { d, a, from: Box::new(t), to: Box::new(t2) } }
        }
        "freeze" => { let t = p.ty(x)?; let a = val(p, c, x, &t)?; Inst::Move { d, a } }
        "getelementptr" => {
            flags!();
            // source element type may itself be a struct/array
            let st = p.ty(x)?; x.exp_p(b',')?;
            let bt = p.ty(x)?; let base = val(p, c, x, &bt)?;
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = st;
            let mut first = true;
            while x.eat_p(b',') {
                if matches!(x.peek(), Some(Tok::Meta(_))) { break; }
                let it = p.ty(x)?;
                let r = val(p, c, x, &it)?;
                let scale;
                if first { scale = cur.size() as i64; first = false; }
                else {
                    match &cur {
                        Ty::Struct(..) => {
                            let k = if r & CONST_BIT != 0 { match &p.m.consts[(r & !CONST_BIT) as usize] { CV::C(v) => *v as usize, _ => return Err("gep".into()) } } else { return Err("gep struct idx".into()) };
                            off += cur.field_off(k) as i64;
                            cur = cur.elem(k);
                            continue;
                        }
                        _ => { cur = cur.elem(0); scale = cur.size() as i64; }
                    }
                }
                if r & CONST_BIT != 0 {
                    if let CV::C(v) = &p.m.consts[(r & !CONST_BIT) as usize] { off = off.wrapping_add(crate::expr::sext64(*v, it.bits() as u16).wrapping_mul(scale)); continue; }
                }
                idx.push((r, it.bits() as u16, scale));
            }
            Inst::Gep { d, base, off, idx: idx.into_boxed_slice() }
        }
        "load" => {
            x.eat_id("atomic"); x.eat_id("volatile");
            let t = p.ty(x)?; x.exp_p(b',')?; let pt = p.ty(x)?; let a = val(p, c, x, &pt)?;
            match t.scalar_w() { Some(w) if w <= 64 => Inst::Load { d, p: a, w }, _ => Inst::LoadX { d, p: a, mt: Box::new(mt_of(&t)?) } }
        }
        "store" => {
            x.eat_id("atomic"); x.eat_id("volatile");
            let t = p.ty(x)?; let v = val(p, c, x, &t)?; x.exp_p(b',')?; let pt = p.ty(x)?; let a = val(p, c, x, &pt)?;
            match t.scalar_w() { Some(w) if w <= 64 => Inst::Store { v, p: a, w }, _ => Inst::StoreX { v, p: a, mt: Box::new(mt_of(&t)?) } }
        }
        "alloca" => {
            x.eat_id("inalloca");
            let t = p.ty(x)?;
            let mut align = t.align().max(1);
            let mut n: Option<R> = None;
            while x.eat_p(b',') {
                if x.eat_id("align") { align = x.int()? as u64; }
                else if matches!(x.peek(), Some(Tok::Meta(_))) { break; }
                else { let nt = p.ty(x)?; n = Some(val(p, c, x, &nt)?); }
            }
            match n {
                Some(r) if r & CONST_BIT == 0 => Inst::AllocaDyn { d, n: r, size: t.size() },
                _ => {
                    let cnt = match n { Some(r) => match &p.m.consts[(r & !CONST_BIT) as usize] { CV::C(v) => *v, _ => 1 }, None => 1 };
                    let al = align.max(8);
                    *frame = (*frame + al - 1) / al * al;
                    let off = *frame;
                    *frame += t.size() * cnt;
                    Inst::Alloca { d, off }
                }
            }
        }
        "br" => {
            if x.is_id("label") { let b = lab(x)?; let e = mk_edge(f, bi, b, phis)?; Inst::Br { e } }
            else {
                let t = p.ty(x)?; let cc = val(p, c, x, &t)?; x.exp_p(b',')?;
                let b1 = lab(x)?; x.exp_p(b',')?; let b2 = lab(x)?;
                let t = mk_edge(f, bi, b1, phis)?; let ff = mk_edge(f, bi, b2, phis)?;
                Inst::CondBr { c: cc, t, f: ff }
            }
        }
        "switch" => {
            let t = p.ty(x)?; let v = val(p, c, x, &t)?; x.exp_p(b',')?; let db = lab(x)?; x.exp_p(b'[')?;
            let def = mk_edge(f, bi, db, phis)?;
            let mut cases = vec![];
            let mut by: HashMap<usize, u32> = HashMap::new();
            by.insert(db, def);
            while !x.eat_p(b']') {
                let ct = p.ty(x)?; let k = p.cnum(x, &ct)?; x.exp_p(b',')?; let b = lab(x)?;
                let e = match by.get(&b) { Some(e) => *e, None => { let e = mk_edge(f, bi, b, phis)?; by.insert(b, e); e } };
                cases.push((k, e));
            }
            Inst::Switch { v, w: t.scalar_w().ok_or("w")?, cases: cases.into_boxed_slice(), def }
        }
        "ret" => { let t = p.ty(x)?; if t == Ty::Void { Inst::Ret { v: NOREG } } else { Inst::Ret { v: val(p, c, x, &t)? } } }
        "unreachable" => Inst::Unreachable,
        "call" | "invoke" => {
            // skip cc / return attributes
            loop {
                if p.starts_type(x) { break; }
                match x.next()? { Tok::Id(_) => { if x.is_p(b'(') { x.skip_group()?; } else if matches!(x.t[x.p - 1], Tok::Id("align")) { x.next()?; } } Tok::Num(_) | Tok::Str(_) => {} t => return Err(format!("call {:?}", t)) }
            }
            let rt0 = x.p;
            let rt = p.ty(x)?;
            let rt = if rt == Ty::Other { x.p = rt0; let t = p.ty_noparen(x)?; if x.is_p(b'(') { x.skip_group()?; } t } else { rt };
            let callee = match x.next()? {
                Tok::Glob(g) => {
                    if g.starts_with("llvm.lifetime") || g.starts_with("llvm.experimental.noalias") || g.starts_with("llvm.assume") || g.starts_with("llvm.dbg") || g.starts_with("llvm.prefetch") || g.starts_with("llvm.donothing") || g.starts_with("llvm.sideeffect") || g.starts_with("llvm.invariant.end") {
                        return Ok(None);
                    }
                    match p.m.fidx.get(g) { Some(&i) => Callee::Fn(i), None => return Err(format!("callee {}", g)) }
                }
                Tok::Loc(n) => Callee::Ptr(c.reg(n)),
                Tok::Id("asm") => { while !x.is_p(b'(') { x.next()?; } Callee::Asm }
                Tok::Id("inttoptr") | Tok::Id("null") => return Err("call const".into()),
                t => return Err(format!("callee {:?}", t)),
            };
            x.exp_p(b'(')?;
            let mut args = vec![];
            if !x.eat_p(b')') {
                loop {
                    if x.is_id("metadata") { // metadata argument
                        x.next()?;
                        while !x.is_p(b',') && !x.is_p(b')') { if x.is_p(b'(') { x.skip_group()?; } else { x.next()?; } }
                        args.push(p.kreg(CV::C(0)));
                    } else {
                        let t = p.ty(x)?; p.skip_attrs(x)?; args.push(val(p, c, x, &t)?);
                    }
                    if x.eat_p(b')') { break; }
                    x.exp_p(b',')?;
                }
            }
            let mut normal = NOREG;
            if op == "invoke" {
                while !x.is_id("to") { x.next()?; }
                x.next()?;
                let b = lab(x)?;
                normal = mk_edge(f, bi, b, phis)?;
            }
            let rw = rt.scalar_w().unwrap_or(0);
            Inst::Call { d: if rt == Ty::Void { NOREG } else { d }, callee, args: args.into_boxed_slice(), normal, rw }
        }
        "extractvalue" => {
            let t = p.ty(x)?; let a = val(p, c, x, &t)?;
            let mut path = vec![]; while x.eat_p(b',') { if let Some(Tok::Num(_)) = x.peek() { path.push(x.int()? as u32); } else { break; } }
            Inst::ExtractValue { d, a, path: path.into_boxed_slice() }
        }
        "insertvalue" => {
            let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.exp_p(b',')?; let t2 = p.ty(x)?; let v = val(p, c, x, &t2)?;
            let mut path = vec![]; while x.eat_p(b',') { if let Some(Tok::Num(_)) = x.peek() { path.push(x.int()? as u32); } else { break; } }
            Inst::InsertValue { d, a, v, path: path.into_boxed_slice() }
        }
        "atomicrmw" => {
            x.eat_id("volatile");
            let o = match x.next()? { Tok::Id(s) => match s { "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "or" => RmwOp::Or, "xor" => RmwOp::Xor, "nand" => RmwOp::Nand, "max" => RmwOp::Max, "min" => RmwOp::Min, "umax" => RmwOp::UMax, "umin" => RmwOp::UMin, _ => return Err("rmw".into()) }, _ => return Err("rmw".into()) };
            let pt = p.ty(x)?; let a = val(p, c, x, &pt)?; x.exp_p(b',')?; let t = p.ty(x)?; let v = val(p, c, x, &t)?;
            Inst::Rmw { op: o, d, p: a, v, w: t.scalar_w().ok_or("w")? }
        }
        "cmpxchg" => {
            x.eat_id("weak"); x.eat_id("volatile");
            let pt = p.ty(x)?; let a = val(p, c, x, &pt)?; x.exp_p(b',')?; let t = p.ty(x)?; let cc = val(p, c, x, &t)?; x.exp_p(b',')?; let t2 = p.ty(x)?; let n = val(p, c, x, &t2)?;
            Inst::CmpXchg { d, p: a, c: cc, n, w: t.scalar_w().ok_or("w")? }
        }
        "fence" => return Ok(None),
        "landingpad" => return Ok(None),
        "resume" => Inst::Unreachable,
        s if s == "cleanup" || s == "catch" || s == "filter" => return Ok(None),
        "extractelement" => { let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.exp_p(b',')?; let t2 = p.ty(x)?; let i = val(p, c, x, &t2)?; Inst::ExtractElement { d, a, i } }
        "insertelement" => { let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.exp_p(b',')?; let t2 = p.ty(x)?; let v = val(p, c, x, &t2)?; x.exp_p(b',')?; let t3 = p.ty(x)?; let i = val(p, c, x, &t3)?; Inst::InsertElement { d, a, v, i } }
        "shufflevector" => {
            let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.exp_p(b',')?; let t2 = p.ty(x)?; let b = val(p, c, x, &t2)?; x.exp_p(b',')?;
            let mt = p.ty(x)?;
            let mv = p.cval(x, &mt)?;
            let mask: Vec<i32> = match mv { CV::A(v) => v.iter().map(|c| match c { CV::C(k) => *k as i32, _ => -1 }).collect(), _ => return Err("mask".into()) };
            let na = match t { Ty::Vec(n, _) => n as u32, _ => return Err("shuf".into()) };
            Inst::Shuffle { d, a, b, mask: mask.into_boxed_slice(), na }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags!();
            let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.exp_p(b',')?; let b = val(p, c, x, &t)?;
            let o = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
            Inst::FBin { op: o, d, a, b, w: t.scalar_w().ok_or("fw")? }
        }
        "fneg" => { flags!(); let t = p.ty(x)?; let a = val(p, c, x, &t)?; Inst::FNeg { d, a, w: t.scalar_w().ok_or("fw")? } }
        "fcmp" => {
            let mut pr = String::new();
            while let Some(Tok::Id(s)) = x.peek().cloned() { if is_type_kw(s) { break; } x.next()?; pr = s.to_string(); }
            let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.exp_p(b',')?; let b = val(p, c, x, &t)?;
            Inst::FCmp { p: pr, d, a, b, w: t.scalar_w().ok_or("fw")? }
        }
        "uitofp" | "sitofp" => { flags!(); let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.eat_id("to"); let t2 = p.ty(x)?; Inst::IToF { signed: op == "sitofp", d, a, from: t.scalar_w().ok_or("w")?, to: t2.scalar_w().ok_or("w")? } }
        "fptoui" | "fptosi" => { flags!(); let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.eat_id("to"); let t2 = p.ty(x)?; Inst::FToI { signed: op == "fptosi", d, a, from: t.scalar_w().ok_or("w")?, to: t2.scalar_w().ok_or("w")? } }
        "fpext" | "fptrunc" => { flags!(); let t = p.ty(x)?; let a = val(p, c, x, &t)?; x.eat_id("to"); let t2 = p.ty(x)?; Inst::FConv { d, a, from: t.scalar_w().ok_or("w")?, to: t2.scalar_w().ok_or("w")? } }
        _ => return Err(format!("opcode {}", op)),
    }))
}
