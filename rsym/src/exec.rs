//! Symbolic interpreter: executes one state until it ends, forking at feasible symbolic branches.
use crate::expr::{fold, mask, sext64, Ctx, FxMap, Op, E, MULTI, NOVAR};
use crate::ir::*;
use crate::mem::{Mem, B, STACK_BASE};
use crate::vfs::Vfs;
use crate::z3::{Sat, Z3};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val { C(u64), S(E), A(Rc<Vec<Val>>), W(Rc<u128>) }

#[derive(Clone, Debug)]
struct Lin { k: i128, t: Vec<(E, i128)> }
impl Lin {
    /// self + c * o; None when it would get long or large
    fn plus(&self, o: &Lin, c: i128) -> Option<Lin> {
        let lim = 1i128 << 100;
        let mut r = Lin { k: self.k.checked_add(o.k.checked_mul(c)?)?, t: Vec::with_capacity(self.t.len() + o.t.len()) };
        if r.k.abs() > lim { return None; }
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            let (e, v) = if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { i += 1; self.t[i - 1] }
                else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { j += 1; (o.t[j - 1].0, o.t[j - 1].1.checked_mul(c)?) }
                else { i += 1; j += 1; (self.t[i - 1].0, self.t[i - 1].1.checked_add(o.t[j - 1].1.checked_mul(c)?)?) };
            if v.abs() > lim { return None; }
            if v != 0 { r.t.push((e, v)); }
        }
        if r.t.len() > 16 { return None; }
        Some(r)
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub dst: u32,
    pub normal: u32,
    pub base: u64,
    pub sp_save: u64,
}

#[derive(Clone)]
pub struct Thread { pub lower: Vec<Rc<Frame>>, pub top: Frame, pub sp: u64, pub done: bool, pub pending: bool, pub blocked: u64 }

#[derive(Clone)]
pub struct State {
    pub lower: Vec<Rc<Frame>>,
    pub top: Frame,
    pub mem: Mem,
    pub cons: Rc<Vec<E>>,
    pub known: Rc<FxMap<E, bool>>,
    pub conc: Rc<FxMap<E, u64>>,
    pub model: Rc<Vec<u64>>,
    pub model_id: u32,
    pub vars: Rc<Vec<E>>,
    pub multi_sup: u64,
    pub dom: Rc<Vec<[u64; 4]>>,          // per variable of at most 8 bits: values allowed by the single-variable constraints
    pub iv: Rc<FxMap<E, (u64, u64)>>,    // ranges of terms that follow from the path constraints
    pub dom_id: u32,
    pub notes: Rc<Vec<Vec<B>>>,
    pub reach: Rc<Vec<u32>>,
    pub vfs: Vfs,
    pub steps: u64,
    pub limit: u64,
    pub depth_peak: u32,
    pub max_depth: u32,
    pub hx: u32,
    pub hx_job: usize,
    pub param: u64,
    pub nforks: u32,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub switches: u32,
    pub max_switches: u32,
    pub errno: u64,
    pub incomplete: bool,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Violation(String, String), // kind, message
    Unsupported(String),
    Assume,
    Unknown(String),
    Steps,
}
pub type X<T> = Result<T, Stop>;

fn viol<T>(k: &str, m: String) -> X<T> { Err(Stop::Violation(k.to_string(), m)) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    None, Nop0, Panic, Abort, Trap, HashOne,
    Malloc, Calloc, Realloc, Free, PosixMemalign, Memcpy, Memset, Bcmp, Memcmp, Strlen,
    UMin, UMax, SMin, SMax, USubSat, UAddSat, Ctlz, Cttz, Ctpop, Bswap, BitRev, Fshl, Fshr, Abs, SCmp, UCmp,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO, FpToUiSat, FpToSiSat, FUn(u8), ThreadLocal, IsConst, Expect, ErrnoLoc,
    Open, Read, Write, Writev, Close, Fstat, Stat, Statx, Lseek, Realpath, Readlink, Getcwd, Getrandom, Getenv, KeyCreate, Syscall, Pause, Strerror, Mkfail,
    SymU8, SymU32, SymU64, Assume, Assert, Reach, Havoc, Conc, IsSym, Note, FsAdd, FsMode, FsGet, DepthReset, DepthPeak, HeapLive, HeapBytes, Fail, Spawn, Join, StepMark, AllOf, AnyOf, IteU, FsCount,
}

fn builtin_of(f: &Func) -> Bi {
    let n = f.name.as_str();
    let e = match n {
        "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "free" => Bi::Free, "posix_memalign" => Bi::PosixMemalign,
        "memcpy" | "memmove" => Bi::Memcpy, "memset" => Bi::Memset, "bcmp" => Bi::Bcmp, "memcmp" => Bi::Memcmp, "strlen" => Bi::Strlen,
        "__errno_location" => Bi::ErrnoLoc,
        "open64" | "open" => Bi::Open, "read" => Bi::Read, "write" => Bi::Write, "writev" => Bi::Writev, "close" => Bi::Close, "fstat64" | "fstat" => Bi::Fstat,
        "stat64" | "lstat64" => Bi::Stat, "statx" => Bi::Statx, "lseek64" | "lseek" => Bi::Lseek, "realpath" => Bi::Realpath, "readlink" => Bi::Readlink, "getcwd" => Bi::Getcwd,
        "getrandom" => Bi::Getrandom, "getenv" => Bi::Getenv, "pthread_key_create" => Bi::KeyCreate, "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" => Bi::Nop0,
        "syscall" => Bi::Syscall, "gettid" => Bi::Nop0, "abort" => Bi::Abort, "llvm.trap" => Bi::Trap, "llvm.x86.sse2.pause" => Bi::Pause, "__xpg_strerror_r" => Bi::Strerror,
        "rs_u8" => Bi::SymU8, "rs_u32" => Bi::SymU32, "rs_u64" => Bi::SymU64, "rs_assume" => Bi::Assume, "rs_assert" => Bi::Assert, "rs_reach" => Bi::Reach,
        "rs_havoc" => Bi::Havoc, "rs_conc" => Bi::Conc, "rs_is_sym" => Bi::IsSym, "rs_note" => Bi::Note, "rs_fs_add" => Bi::FsAdd, "rs_fs_mode" => Bi::FsMode, "rs_fs_get" => Bi::FsGet,
        "rs_depth_reset" => Bi::DepthReset, "rs_depth_peak" => Bi::DepthPeak, "rs_heap_live" => Bi::HeapLive, "rs_heap_bytes" => Bi::HeapBytes, "rs_fail" => Bi::Fail,
        "rs_spawn" => Bi::Spawn, "rs_join" => Bi::Join, "rs_step_limit" => Bi::StepMark, "rs_all" => Bi::AllOf, "rs_any" => Bi::AnyOf, "rs_ite" => Bi::IteU, "rs_fs_count" => Bi::FsCount,
        _ => Bi::None,
    };
    if e != Bi::None { return e; }
    if let Some(i) = n.strip_prefix("llvm.") {
        let p = |s: &str| i.starts_with(s);
        return if p("memcpy") || p("memmove") { Bi::Memcpy } else if p("memset") { Bi::Memset }
        else if p("umin.") { Bi::UMin } else if p("umax.") { Bi::UMax } else if p("smin.") { Bi::SMin } else if p("smax.") { Bi::SMax }
        else if p("usub.sat") { Bi::USubSat } else if p("uadd.sat") { Bi::UAddSat } else if p("ctlz") { Bi::Ctlz } else if p("cttz") { Bi::Cttz } else if p("ctpop") { Bi::Ctpop }
        else if p("bswap") { Bi::Bswap } else if p("bitreverse") { Bi::BitRev } else if p("fshl") { Bi::Fshl } else if p("fshr") { Bi::Fshr } else if p("abs.") { Bi::Abs }
        else if p("scmp") { Bi::SCmp } else if p("ucmp") { Bi::UCmp }
        else if p("uadd.with") { Bi::UAddO } else if p("usub.with") { Bi::USubO } else if p("umul.with") { Bi::UMulO } else if p("sadd.with") { Bi::SAddO } else if p("ssub.with") { Bi::SSubO } else if p("smul.with") { Bi::SMulO }
        else if p("fptoui.sat") { Bi::FpToUiSat } else if p("fptosi.sat") { Bi::FpToSiSat }
        else if p("log2") { Bi::FUn(0) } else if p("ceil") { Bi::FUn(1) } else if p("floor") { Bi::FUn(2) } else if p("trunc.") { Bi::FUn(3) } else if p("fabs") { Bi::FUn(4) } else if p("sqrt") { Bi::FUn(5) } else if p("log.") { Bi::FUn(6) } else if p("exp2") { Bi::FUn(7) } else if p("round.") { Bi::FUn(8) }
        else if p("threadlocal.address") || p("launder") || p("strip.inv") { Bi::ThreadLocal } else if p("is.constant") { Bi::IsConst } else if p("expect") { Bi::Expect }
        else { Bi::None };
    }
    if n.contains("9panicking9panic_fmt") || n.contains("panic_nounwind") || n.contains("rust_begin_unwind") || n.contains("begin_panic") || n.contains("rust_panic") || n.contains("panic_in_cleanup") || n.contains("__rust_start_panic") { return Bi::Panic; }
    if n.contains("handle_alloc_error") || n.contains("rust_oom") { return Bi::Abort; }
    if n.contains("11BuildHasher8hash_one") || n.contains("BuildHasher::hash_one") { return Bi::HashOne; }
    Bi::None
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub solver_ns: u64,
    pub steps: u64, pub forks: u64, pub paths: u64, pub asserts: u64, pub static_dec: u64, pub max_query_ns: u64, pub presolved: u64, pub audits: u64, pub sym_asserts: u64,
}

pub struct Eng {
    pub m: &'static Module,
    pub bi: Vec<Bi>,
    pub split: Vec<bool>,
    pub fw: Vec<u16>, // width named at the end of an intrinsic's name
    pub consts: Vec<Val>,
    pub cx: Ctx,
    pub z3: Z3,
    pub cache1: FxMap<Box<[E]>, (Sat, u64)>,
    pub cachen: FxMap<Box<[E]>, (Sat, Vec<(u32, u64)>)>,
    pub next_model: u32,
    pub next_dom: u32,
    pub prof_on: bool,
    pub prof: FxMap<String, (u64, u64)>,
    pub truth: FxMap<E, [u64; 4]>,
    pub tables: FxMap<E, Rc<Vec<u64>>>,
    pub imemo: Vec<(u32, u64, u64)>,
    lmemo: FxMap<E, (u32, Rc<Lin>)>,
    pub forked: Vec<State>,
    pub st: Stats,
    pub entered: Vec<u64>,
    pub tmp: Vec<B>,
    pub pool: Vec<Vec<Val>>,
    pub deadline: Instant,
    audit_next: u64, audit_back: u64,
    pub soft: Vec<(State, String, String)>, // violations found by asserts that do not end the path
    pub dump_every: u64,
    pub dumps: Vec<(String, bool)>,
    pub hard_unsup: FxMap<u32, u32>,
}

fn as_name_width(n: &str) -> u16 {
    for p in n.rsplit('.') { if let Some(d) = p.strip_prefix('i') { if let Ok(w) = d.parse() { return w; } } }
    64
}
fn cval(c: &CV) -> Val {
    match c { CV::C(v) => Val::C(*v), CV::W(v) => Val::W(Rc::new(*v)), CV::A(v) => Val::A(Rc::new(v.iter().map(cval).collect())) }
}

impl Eng {
    pub fn new(m: &'static Module, z3_ms: u32) -> Eng {
        let bi: Vec<Bi> = m.funcs.iter().map(builtin_of).collect();
        let fw = m.funcs.iter().map(|f| as_name_width(&f.name)).collect();
        let consts = m.consts.iter().map(cval).collect();
        Eng { split: m.funcs.iter().map(|f| f.name.contains("num_rational") && f.name.contains("reduce")).collect(), m, bi, fw, consts, cx: Ctx::new(), z3: Z3::new(z3_ms), cache1: Default::default(), cachen: Default::default(), next_model: 1, next_dom: 1, prof_on: std::env::var("RSYM_PROF").is_ok(), prof: Default::default(), truth: Default::default(), tables: Default::default(), imemo: vec![], lmemo: Default::default(), forked: vec![], st: Default::default(), entered: vec![0; m.funcs.len()], tmp: vec![], pool: vec![], deadline: Instant::now() + Duration::from_secs(1 << 20), audit_next: 0, audit_back: 0, soft: vec![], dump_every: 0, dumps: vec![], hard_unsup: Default::default() }
    }

    pub fn base_mem(&self) -> Mem {
        let mut mem = Mem::new();
        let mut cr = vec![];
        for g in &self.m.globals {
            if g.size == 0 && !g.external { continue; }
            mem.map(g.addr, g.size.max(1));
            if g.external { mem.poke(g.addr, &vec![0u8; g.size.max(1) as usize]); } else { mem.poke(g.addr, &g.init); }
            if g.constant { cr.push((g.addr, g.addr + g.size)); }
        }
        cr.sort();
        mem.const_ranges = Rc::new(cr);
        mem
    }

    pub fn initial(&mut self, mem: &Mem, entry: u32, hx: u32, param: u64, limit: u64, max_depth: u32) -> State {
        let f = &self.m.funcs[entry as usize];
        let mut mem = mem.clone();
        let errno = mem.alloc(16, 16);
        mem.heap_live = 0;
        for i in 0..16 { let _ = mem.write_byte(errno + i, B::C(0)); }
        let base = mem.sp;
        mem.sp += f.frame + 16;
        let mut regs = vec![Val::C(0); f.nregs as usize];
        regs[0] = Val::C(hx as u64);
        regs[1] = Val::C(param);
        self.entered[entry as usize] += 1;
        State {
            lower: vec![], top: Frame { f: entry, ip: 0, regs, dst: NOREG, normal: NOREG, base, sp_save: base }, mem,
            cons: Rc::new(vec![]), known: Rc::new(Default::default()), conc: Rc::new(Default::default()), model: Rc::new(vec![]), model_id: 0, vars: Rc::new(vec![]), multi_sup: 0, dom: Rc::new(vec![]), iv: Rc::new(Default::default()), dom_id: 0,
            notes: Rc::new(vec![]), reach: Rc::new(vec![]), vfs: Vfs::default(), steps: 0, limit, depth_peak: 0, max_depth, hx, hx_job: 0, param, nforks: 0,
            threads: vec![], cur: 0, switches: 0, max_switches: 0, errno, incomplete: false,
        }
    }

    // ---------------------------------------------------------------- solver
    fn eval(&mut self, st: &State, e: E) -> u64 { self.cx.eval(e, st.model_id, &st.model) as u64 }

    fn add_cons(&mut self, st: &mut State, c: E) {
        let n = *self.cx.node(c);
        if n.op == Op::Const { return; }
        if st.known.get(&c) == Some(&true) { return; }
        let nc = self.cx.not(c);
        {
            let k = Rc::make_mut(&mut st.known);
            k.insert(c, true);
            k.insert(nc, false);
        }
        if n.op == Op::And && n.w == 1 { self.add_cons(st, n.a); self.add_cons(st, n.b); return; }
        if n.op == Op::Xor && n.w == 1 && self.cx.is_const(n.b) == Some(1) {
            let i = *self.cx.node(n.a);
            if i.op == Op::Or { let x = self.cx.not(i.a); let y = self.cx.not(i.b); self.add_cons(st, x); self.add_cons(st, y); return; }
        }
        Rc::make_mut(&mut st.cons).push(c);
        if n.var1 == MULTI { st.multi_sup |= n.sup; }
        self.refine(st, c);
    }
    fn small(&self, st: &State, n: &crate::expr::Node) -> bool { n.var1 != MULTI && n.var1 != NOVAR && self.cx.w(st.vars[n.var1 as usize]) <= 8 }
    /// values of an expression over one variable of at most 8 bits
    fn table1(&mut self, st: &State, e: E) -> Rc<Vec<u64>> {
        let n = *self.cx.node(e);
        if let Some(t) = self.tables.get(&n.shape) { return t.clone(); }
        let v = n.var1 as usize;
        let cnt = 1u64 << self.cx.w(st.vars[v]);
        let mut m = vec![0u64; v + 1];
        let mut t = Vec::with_capacity(cnt as usize);
        for x in 0..cnt { m[v] = x; let id = self.next_model; self.next_model += 1; t.push(self.cx.eval(e, id, &m) as u64); }
        let t = Rc::new(t);
        self.tables.insert(n.shape, t.clone());
        t
    }
    /// use a condition that holds on this path to narrow the value sets and ranges
    fn refine(&mut self, st: &mut State, c: E) {
        let n = *self.cx.node(c);
        st.dom_id = self.next_dom;
        self.next_dom += 1;
        if self.small(st, &n) {
            let t = match self.truth.get(&n.shape) { Some(t) => *t, None => { let tb = self.table1(st, c); let mut t = [0u64; 4]; for (x, &b) in tb.iter().enumerate() { if b == 1 { t[x / 64] |= 1 << (x % 64); } } self.truth.insert(n.shape, t); t } };
            let d = Rc::make_mut(&mut st.dom);
            let v = n.var1 as usize;
            if d.len() <= v { d.resize(v + 1, [u64::MAX; 4]); }
            for i in 0..4 { d[v][i] &= t[i]; }
            return;
        }
        let (neg, i) = if n.op == Op::Xor && n.w == 1 && self.cx.is_const(n.b) == Some(1) { (true, *self.cx.node(n.a)) } else { (false, n) };
        let mut put = |s: &mut Self, e: E, lo: u64, hi: u64| {
            if s.cx.w(e) > 64 || s.cx.is_const(e).is_some() { return; }
            let m = Rc::make_mut(&mut st.iv);
            let x = m.entry(e).or_insert((0, u64::MAX));
            x.0 = x.0.max(lo);
            x.1 = x.1.min(hi);
        };
        let (ka, kb) = (self.cx.is_const(i.a), self.cx.is_const(i.b));
        match (i.op, neg) {
            (Op::Eq, false) => { if let Some(k) = kb { put(self, i.a, k, k); } else if let Some(k) = ka { put(self, i.b, k, k); } }
            (Op::Eq, true) => { if kb == Some(0) { put(self, i.a, 1, u64::MAX); } else if ka == Some(0) { put(self, i.b, 1, u64::MAX); } }
            (Op::Ult, false) | (Op::Ule, true) => {
                // a < b  (or b < a when the negated form is Ule)
                let (x, y, kx, ky) = if neg { (i.b, i.a, kb, ka) } else { (i.a, i.b, ka, kb) };
                if let Some(k) = ky { if k > 0 { put(self, x, 0, k - 1); } }
                if let Some(k) = kx { if k < u64::MAX { put(self, y, k + 1, u64::MAX); } }
            }
            (Op::Ule, false) | (Op::Ult, true) => {
                let (x, y, kx, ky) = if neg { (i.b, i.a, kb, ka) } else { (i.a, i.b, ka, kb) };
                if let Some(k) = ky { put(self, x, 0, k); }
                if let Some(k) = kx { put(self, y, k, u64::MAX); }
            }
            _ => {}
        }
    }
    /// sound range of an expression on this path
    fn ival(&mut self, st: &State, e: E) -> (u64, u64) {
        let n = *self.cx.node(e);
        if n.op == Op::Const { return (n.k, n.k); }
        if n.w > 64 { return (0, u64::MAX); }
        if self.imemo.len() <= e as usize { self.imemo.resize(self.cx.n.len(), (u32::MAX, 0, 0)); }
        let (id, l, h) = self.imemo[e as usize];
        if id == st.dom_id { return (l, h); }
        let (mut lo, mut hi) = (n.umin, n.umax);
        if self.small(st, &n) {
            let t = self.table1(st, e);
            let full = [u64::MAX; 4];
            let d = st.dom.get(n.var1 as usize).unwrap_or(&full);
            let (mut a, mut b) = (u64::MAX, 0);
            for (x, &v) in t.iter().enumerate() { if d[x / 64] >> (x % 64) & 1 == 1 { a = a.min(v); b = b.max(v); } }
            if a <= b { lo = a; hi = b; }
        } else if n.op != Op::Var {
            let full = |w: u16| (0u64, mask(w));
            let r = match n.op {
                Op::Ite => {
                    let c = self.ival(st, n.a);
                    if c.0 == 1 { self.ival(st, n.b) } else if c.1 == 0 { self.ival(st, n.c) } else { let x = self.ival(st, n.b); let y = self.ival(st, n.c); (x.0.min(y.0), x.1.max(y.1)) }
                }
                Op::Extract | Op::ZExt | Op::SExt => { let wa = self.cx.w(n.a); if wa > 64 { full(n.w) } else { let x = self.ival(st, n.a); crate::expr::range_op(n.op, n.w, wa, wa, x, x, n.k) } }
                _ => { let (wa, wb) = (self.cx.w(n.a), self.cx.w(n.b)); if wa > 64 || wb > 64 { full(n.w) } else { let x = self.ival(st, n.a); let y = self.ival(st, n.b); crate::expr::range_op(n.op, n.w, wa, wb, x, y, n.k) } }
            };
            lo = lo.max(r.0);
            hi = hi.min(r.1);
        }
        if let Some(&(a, b)) = st.iv.get(&e) { lo = lo.max(a); hi = hi.min(b); }
        if lo > hi { lo = n.umin; hi = n.umax; }
        self.imemo[e as usize] = (st.dom_id, lo, hi);
        (lo, hi)
    }
    /// The exact value of an (unsigned) expression as a linear form over other expressions, given this path's ranges.
    fn lin(&mut self, st: &State, e: E) -> Rc<Lin> {
        let n = *self.cx.node(e);
        if n.op == Op::Const { return Rc::new(Lin { k: n.k as i128, t: vec![] }); }
        if let Some((id, l)) = self.lmemo.get(&e) { if *id == st.dom_id { return l.clone(); } }
        let r = if n.w > 64 { None } else { self.lin1(st, e, &n) };
        let r = Rc::new(match r { Some(l) => l, None => { let (a, b) = self.ival(st, e); if a == b && n.w <= 64 { Lin { k: a as i128, t: vec![] } } else { Lin { k: 0, t: vec![(e, 1)] } } } });
        self.lmemo.insert(e, (st.dom_id, r.clone()));
        r
    }
    fn lrange(&mut self, st: &State, l: &Lin) -> Option<(i128, i128)> {
        let (mut a, mut b) = (l.k, l.k);
        for &(e, c) in &l.t {
            if self.cx.w(e) > 64 { return None; }
            let (x, y) = self.ival(st, e);
            let (x, y) = ((x as i128).checked_mul(c)?, (y as i128).checked_mul(c)?);
            a = a.checked_add(x.min(y))?;
            b = b.checked_add(x.max(y))?;
        }
        Some((a, b))
    }
    /// bring a linear form into [0, 2^w) by a known multiple of 2^w
    fn lwrap(&mut self, st: &State, mut l: Lin, w: u16) -> Option<Lin> {
        let (a, b) = self.lrange(st, &l)?;
        let m = 1i128 << w;
        if a.div_euclid(m) != b.div_euclid(m) { return None; }
        l.k -= a.div_euclid(m) * m;
        Some(l)
    }
    fn lin1(&mut self, st: &State, _e: E, n: &crate::expr::Node) -> Option<Lin> {
        match n.op {
            Op::Add | Op::Sub => {
                let (a, b) = (self.lin(st, n.a), self.lin(st, n.b));
                let l = a.plus(&b, if n.op == Op::Add { 1 } else { -1 })?;
                self.lwrap(st, l, n.w)
            }
            Op::Mul => {
                let (a, b) = (self.lin(st, n.a), self.lin(st, n.b));
                let (l, k) = if b.t.is_empty() { (a, b.k) } else if a.t.is_empty() { (b, a.k) } else { return None };
                let l = Lin { k: 0, t: vec![] }.plus(&l, k)?;
                self.lwrap(st, l, n.w)
            }
            Op::Shl => {
                let (a, b) = (self.lin(st, n.a), self.lin(st, n.b));
                if !b.t.is_empty() || b.k >= n.w as i128 { return None; }
                let l = Lin { k: 0, t: vec![] }.plus(&a, 1i128 << b.k)?;
                self.lwrap(st, l, n.w)
            }
            Op::ZExt => if self.cx.w(n.a) <= 64 { let l = self.lin(st, n.a); Some((*l).clone()) } else { None },
            Op::SExt => {
                let wa = self.cx.w(n.a);
                let l = self.lin(st, n.a);
                let (a, b) = self.lrange(st, &l)?;
                let h = 1i128 << (wa - 1);
                if b < h { Some((*l).clone()) } else if a >= h { let mut l = (*l).clone(); l.k += (1i128 << n.w) - (1i128 << wa); Some(l) } else { None }
            }
            Op::Extract => {
                if n.k != 0 || self.cx.w(n.a) > 64 { return None; }
                let l = self.lin(st, n.a);
                self.lwrap(st, (*l).clone(), n.w)
            }
            Op::Concat => {
                let wb = self.cx.w(n.b);
                let (a, b) = (self.lin(st, n.a), self.lin(st, n.b));
                (*b).plus(&a, 1i128 << wb)
            }
            Op::Or | Op::Xor => {
                let (a, b) = (self.lin(st, n.a), self.lin(st, n.b));
                if a.t.is_empty() && a.k == 0 { return Some((*b).clone()); }
                if b.t.is_empty() && b.k == 0 { return Some((*a).clone()); }
                None
            }
            Op::Ite => {
                let c = self.ival(st, n.a);
                if c.0 == 1 { let l = self.lin(st, n.b); Some((*l).clone()) } else if c.1 == 0 { let l = self.lin(st, n.c); Some((*l).clone()) } else { None }
            }
            _ => None,
        }
    }
    /// decide a comparison by the difference of the two sides
    fn lcmp(&mut self, st: &State, c: E) -> Option<bool> {
        let n = *self.cx.node(c);
        if n.op == Op::Xor && n.w == 1 && self.cx.is_const(n.b) == Some(1) { return self.lcmp(st, n.a).map(|x| !x); }
        if n.w != 1 || !matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { return None; }
        let w = self.cx.w(n.a);
        if w > 64 { return None; }
        let (mut a, mut b) = ((*self.lin(st, n.a)).clone(), (*self.lin(st, n.b)).clone());
        if matches!(n.op, Op::Slt | Op::Sle) {
            for l in [&mut a, &mut b] {
                let (x, y) = self.lrange(st, l)?;
                let h = 1i128 << (w - 1);
                if x >= h { l.k -= 1i128 << w; } else if y >= h { return None; }
            }
        }
        let d = a.plus(&b, -1)?;
        let (x, y) = self.lrange(st, &d)?;
        match n.op {
            Op::Eq => if x == 0 && y == 0 { Some(true) } else if x > 0 || y < 0 { Some(false) } else { None },
            Op::Ult | Op::Slt => if y < 0 { Some(true) } else if x >= 0 { Some(false) } else { None },
            _ => if y <= 0 { Some(true) } else if x > 0 { Some(false) } else { None },
        }
    }
    fn learn(&mut self, st: &mut State, c: E, v: bool) {
        let nc = self.cx.not(c);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, v);
        k.insert(nc, !v);
        let n = self.cx.node(c);
        if n.var1 == MULTI { self.refine(st, if v { c } else { nc }); }
    }

    fn z3_check(&mut self, cs: &[E], vars: &[E]) -> (Sat, Vec<u64>) {
        let t = Instant::now();
        let mut d = None;
        if self.dump_every > 0 && self.st.queries % self.dump_every == 0 { d = Some(String::new()); }
        let r = self.z3.check(&self.cx, cs, vars, d.as_mut());
        let ns = t.elapsed().as_nanos() as u64;
        self.st.solver_ns += ns;
        self.st.max_query_ns = self.st.max_query_ns.max(ns);
        self.st.queries += 1;
        match r.0 { Sat::Sat => self.st.sat += 1, Sat::Unsat => self.st.unsat += 1, Sat::Unknown => self.st.unknown += 1 }
        if ns > 300_000_000 && std::env::var("RSYM_SLOW").is_ok() {
            let mut dd = String::new();
            let _ = self.z3.check(&self.cx, cs, &[], Some(&mut dd));
            let _ = std::fs::write(format!("/tmp/slow.{}.{}.smt2", std::process::id(), self.st.queries), format!("; {} ms {:?}\n{}", ns / 1000000, r.0, dd));
        }
        if let Some(d) = d { if r.0 != Sat::Unknown && self.dumps.len() < 24 { self.dumps.push((d, r.0 == Sat::Sat)); } }
        r
    }

    /// Is (constraints relevant to c) and c satisfiable? On Sat the assignment of the variables involved.
    fn query(&mut self, st: &State, c: E) -> (Sat, Vec<(u32, u64)>) {
        let n = *self.cx.node(c);
        if n.op == Op::Const { return (if n.k == 1 { Sat::Sat } else { Sat::Unsat }, vec![]); }
        if n.var1 != MULTI && n.var1 != NOVAR && st.multi_sup & n.sup == 0 {
            let v = n.var1;
            let mut cs = vec![c];
            for &e in st.cons.iter() { if self.cx.node(e).var1 == v { cs.push(e); } }
            // bytes: the single-variable constraints are represented exactly by the set of values they allow
            let key: Box<[E]> = if self.small(st, &n) {
                let d = st.dom.get(v as usize).copied().unwrap_or([u64::MAX; 4]);
                let mut k = vec![n.shape];
                for x in d { k.push(x as u32); k.push((x >> 32) as u32); }
                k.into_boxed_slice()
            } else {
                let mut key: Vec<E> = cs.iter().map(|&e| self.cx.node(e).shape).collect();
                key.sort_unstable(); key.dedup();
                key.into_boxed_slice()
            };
            if let Some(&(r, val)) = self.cache1.get(&key) { self.st.cache_hits += 1; return (r, vec![(v as u32, val)]); }
            let var = st.vars[v as usize];
            let (r, vals) = self.z3_check(&cs, &[var]);
            let val = vals.first().copied().unwrap_or(0);
            if r != Sat::Unknown { self.cache1.insert(key, (r, val)); }
            return (r, vec![(v as u32, val)]);
        }
        let mut sup = n.sup;
        let mut inc = vec![false; st.cons.len()];
        let mut cs = vec![c];
        loop {
            let mut ch = false;
            for (i, &e) in st.cons.iter().enumerate() {
                if !inc[i] && self.cx.node(e).sup & sup != 0 { inc[i] = true; sup |= self.cx.node(e).sup; cs.push(e); ch = true; }
            }
            if !ch { break; }
        }
        cs[1..].sort_unstable();
        let mut key = cs.clone();
        key.sort_unstable(); key.dedup();
        let key = key.into_boxed_slice();
        if let Some((r, v)) = self.cachen.get(&key) { self.st.cache_hits += 1; return (*r, v.clone()); }
        let vs = self.vars_of(&cs);
        let (r, vals) = self.z3_check(&cs, &vs);
        let out: Vec<(u32, u64)> = vs.iter().zip(vals).map(|(&e, x)| (self.cx.node(e).k as u32, x)).collect();
        if r != Sat::Unknown { self.cachen.insert(key, (r, out.clone())); }
        (r, out)
    }
    fn set_model(&mut self, st: &mut State, upd: &[(u32, u64)]) {
        let m = Rc::make_mut(&mut st.model);
        for &(i, v) in upd { if m.len() <= i as usize { m.resize(i as usize + 1, 0); } m[i as usize] = v; }
        st.model_id = self.next_model;
        self.next_model += 1;
    }

    /// Decide a symbolic condition for this state; the other feasible side becomes a forked state
    /// that will execute the current instruction again.
    pub fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(k) = self.cx.is_const(c) { return Ok(k == 1); }
        if let Some(&k) = st.known.get(&c) { self.st.static_dec += 1; return Ok(k); }
        let (mut lo, mut hi) = self.ival(st, c);
        if lo != hi && self.cx.node(c).var1 == MULTI { if let Some(b) = self.lcmp(st, c) { lo = b as u64; hi = lo; } }
        if lo == hi {
            self.st.presolved += 1;
            // one in 64 (512 if several variables meet) of the decisions taken from value sets and ranges is put to the solver as well
            // (fewer while the solver does not manage them in a second)
            let gap = if self.cx.node(c).var1 == MULTI { 512 } else { 64 };
            if self.st.presolved % gap == 1 && self.st.presolved >= self.audit_next {
                let o = if lo == 1 { self.cx.not(c) } else { c };
                self.st.audits += 1;
                self.z3.set_timeout(1000);
                let t0 = Instant::now();
                let r = self.query(st, o).0;
                self.z3.set_timeout(30_000);
                if t0.elapsed() > Duration::from_millis(500) { self.audit_back = (self.audit_back * 4).max(256).min(1 << 16); self.audit_next = self.st.presolved + self.audit_back; } else { self.audit_back /= 2; }
                if r == Sat::Sat { return Err(Stop::Unsupported("engine error: the solver disagrees with the range analysis".into())); }
            }
            return Ok(lo == 1);
        }
        let m = self.eval(st, c) == 1;
        let nc = self.cx.not(c);
        let other = if m { nc } else { c };
        let t0 = (self.st.solver_ns, self.st.queries);
        let (r, upd) = self.query(st, other);
        if self.prof_on && self.st.queries > t0.1 { if std::env::var("RSYM_DUMPIP").ok() == Some(format!("{}", st.top.ip)) { let (l, h) = self.ival(st, other); self.show(st, other, 0); let mut d = String::new(); self.z3.check(&self.cx, &[other], &[], Some(&mut d)); eprintln!("COND {:?} ival {} {} iv {:?}\n{}", r, l, h, st.iv, d); for e in st.cons.iter() { let mut d = String::new(); self.z3.check(&self.cx, &[*e], &[], Some(&mut d)); eprintln!("   CONS {}", d); } }
            let b = self.backtrace(st); let k = format!("{:?} {} @{}", r, b.iter().take(2).cloned().collect::<Vec<_>>().join(" < "), st.top.ip); let x = self.prof.entry(k).or_insert((0, 0)); x.0 += 1; x.1 += self.st.solver_ns - t0.0; }
        match r {
            Sat::Unsat => { self.learn(st, c, m); Ok(m) }
            Sat::Unknown => { st.incomplete = true; let t = if m { c } else { nc }; self.add_cons(st, t); Ok(m) }
            Sat::Sat => {
                let mut o = st.clone();
                self.add_cons(&mut o, other);
                self.set_model(&mut o, &upd);
                o.nforks += 1;
                st.nforks += 1;
                self.st.forks += 1;
                self.forked.push(o);
                let t = if m { c } else { nc };
                self.add_cons(st, t);
                Ok(m)
            }
        }
    }
    /// Concretise by forking over all feasible values.
    pub fn conc(&mut self, st: &mut State, e: E) -> X<u64> {
        if let Some(k) = self.cx.is_const(e) { return Ok(k); }
        if let Some(&v) = st.conc.get(&e) { return Ok(v); }
        loop {
            let v = self.eval(st, e);
            let w = self.cx.w(e);
            let k = self.cx.konst(v, w);
            let c = self.cx.cmp(Op::Eq, e, k);
            if self.decide(st, c)? { Rc::make_mut(&mut st.conc).insert(e, v); return Ok(v); }
        }
    }
    fn concv(&mut self, st: &mut State, v: &Val) -> X<u64> {
        match v { Val::C(k) => Ok(*k), Val::S(e) => self.conc(st, *e), Val::W(w) => Ok(**w as u64), Val::A(_) => Err(Stop::Unsupported("aggregate where a scalar is needed".into())) }
    }
    fn conc128(&mut self, st: &mut State, v: &Val) -> X<u128> {
        match v {
            Val::C(k) => Ok(*k as u128), Val::W(w) => Ok(**w),
            Val::S(e) => {
                let w = self.cx.w(*e);
                if w <= 64 { return Ok(self.conc(st, *e)? as u128); }
                let lo = self.cx.extract(*e, 0, 64); let hi = self.cx.extract(*e, 64, w - 64);
                let l = self.conc(st, lo)?; let h = self.conc(st, hi)?;
                Ok((h as u128) << 64 | l as u128)
            }
            _ => Err(Stop::Unsupported("aggregate".into())),
        }
    }

    // ---------------------------------------------------------------- values
    pub fn e_of(&mut self, v: &Val, w: u16) -> X<E> {
        Ok(match v {
            Val::C(k) => if w <= 64 { self.cx.konst(*k, w) } else { let z = self.cx.konst(*k, 64); self.cx.zext(z, w) },
            Val::S(e) => *e,
            Val::W(x) => { let l = self.cx.konst(**x as u64, 64); if w <= 64 { self.cx.konst(**x as u64, w) } else { let h = self.cx.konst((**x >> 64) as u64, w - 64); self.cx.concat(h, l) } }
            Val::A(_) => return Err(Stop::Unsupported("aggregate in scalar op".into())),
        })
    }
    pub fn v_of(&self, e: E) -> Val { match self.cx.is_const(e) { Some(k) => Val::C(k), None => Val::S(e) } }
    #[inline]
    fn get(&self, fr: &Frame, r: R) -> Val { if r & CONST_BIT != 0 { self.consts[(r & !CONST_BIT) as usize].clone() } else { fr.regs[r as usize].clone() } }

    fn bin(&mut self, st: &mut State, op: BinOp, w: u16, a: &Val, b: &Val) -> X<Val> {
        if w > 64 {
            return self.bin_wide(st, op, w, a, b);
        }
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return match fold(o, w, *x, *y) { Some(v) => Ok(Val::C(v)), None => viol("ub", "division by zero reached the machine operation".into()) };
        }
        let (x, y) = (self.e_of(a, w)?, self.e_of(b, w)?);
        let mut y = y;
        // a symbolic divisor or shift amount is split into its feasible values (the solver enumerates them)
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr) && self.cx.is_const(y).is_none() {
            let k = self.conc(st, y)?;
            if k == 0 && matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { return viol("ub", "division by zero reached the machine operation".into()); }
            y = self.cx.konst(k, w);
        }
        let e = self.cx.bin(o, x, y);
        Ok(self.v_of(e))
    }
    fn mk_wide(v: u128, w: u16) -> Val { let v = if w >= 128 { v } else { v & ((1u128 << w) - 1) }; if w > 64 { Val::W(Rc::new(v)) } else { Val::C(v as u64) } }
    fn bin_wide(&mut self, st: &mut State, op: BinOp, w: u16, a: &Val, b: &Val) -> X<Val> {
        if w > 128 { return Err(Stop::Unsupported(format!("i{}", w))); }
        let symbolic = matches!(a, Val::S(_)) || matches!(b, Val::S(_));
        if symbolic {
            match op {
                BinOp::Add | BinOp::Sub | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor => {
                    let (x, y) = (self.e_of(a, w)?, self.e_of(b, w)?);
                    let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::And => Op::And, BinOp::Or => Op::Or, _ => Op::Xor };
                    return Ok(Val::S(self.cx.bin(o, x, y)));
                }
                BinOp::Shl | BinOp::LShr => {
                    let s = self.conc128(st, b)? as u16;
                    let x = self.e_of(a, w)?;
                    if s >= w { return Ok(Self::mk_wide(0, w)); }
                    if s == 0 { return Ok(Val::S(x)); }
                    let r = if op == BinOp::LShr { let t = self.cx.extract(x, s, w - s); self.cx.zext(t, w) }
                    else {
                        let t = self.cx.extract(x, 0, w - s);
                        let z = if s <= 64 { self.cx.konst(0, s) } else { let z = self.cx.konst(0, 64); self.cx.zext(z, s) };
                        self.cx.concat(t, z)
                    };
                    return Ok(Val::S(r));
                }
                _ => {}
            }
        }
        let x = self.conc128(st, a)?; let y = self.conc128(st, b)?;
        let sx = |v: u128| -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s };
        let r = match op {
            BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return viol("ub", "division by zero".into()),
            BinOp::UDiv => x / y, BinOp::URem => x % y, BinOp::SDiv => sx(x).wrapping_div(sx(y)) as u128, BinOp::SRem => sx(x).wrapping_rem(sx(y)) as u128,
            BinOp::Shl => if y >= w as u128 { 0 } else { x << y }, BinOp::LShr => if y >= w as u128 { 0 } else { x >> y },
            BinOp::AShr => (sx(x) >> y.min(127)) as u128, BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
        };
        Ok(Self::mk_wide(r, w))
    }

    fn icmp(&mut self, st: &mut State, p: Pred, w: u16, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C(cmp_c(p, w, *x, *y) as u64)); }
        if w > 64 && !matches!(a, Val::S(_)) && !matches!(b, Val::S(_)) {
            let x = self.conc128(st, a)?; let y = self.conc128(st, b)?;
            let sx = |v: u128| -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s };
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx(x) > sx(y), Pred::Sge => sx(x) >= sx(y), Pred::Slt => sx(x) < sx(y), Pred::Sle => sx(x) <= sx(y) };
            return Ok(Val::C(r as u64));
        }
        let (x, y) = (self.e_of(a, w)?, self.e_of(b, w)?);
        let e = match p {
            Pred::Eq => self.cx.cmp(Op::Eq, x, y),
            Pred::Ne => { let t = self.cx.cmp(Op::Eq, x, y); self.cx.not(t) }
            Pred::Ugt => self.cx.cmp(Op::Ult, y, x), Pred::Uge => self.cx.cmp(Op::Ule, y, x), Pred::Ult => self.cx.cmp(Op::Ult, x, y), Pred::Ule => self.cx.cmp(Op::Ule, x, y),
            Pred::Sgt => self.cx.cmp(Op::Slt, y, x), Pred::Sge => self.cx.cmp(Op::Sle, y, x), Pred::Slt => self.cx.cmp(Op::Slt, x, y), Pred::Sle => self.cx.cmp(Op::Sle, x, y),
        };
        Ok(self.v_of(e))
    }
    fn cast(&mut self, op: CastOp, a: &Val, from: u16, to: u16) -> X<Val> {
        match a {
            Val::C(v) if to <= 64 => Ok(Val::C(match op { CastOp::Trunc => v & mask(to), CastOp::ZExt => *v, CastOp::SExt => sext64(*v, from) as u64 & mask(to) })),
            Val::C(v) => Ok(Self::mk_wide(match op { CastOp::SExt => sext64(*v, from) as i128 as u128, _ => *v as u128 }, to)),
            Val::W(v) => Ok(Self::mk_wide(match op { CastOp::SExt => { let s = 128 - from as u32; (((**v << s) as i128) >> s) as u128 } _ => **v }, to)),
            Val::S(e) => { let r = match op { CastOp::Trunc => self.cx.extract(*e, 0, to), CastOp::ZExt => self.cx.zext(*e, to), CastOp::SExt => self.cx.sext(*e, to) }; Ok(self.v_of(r)) }
            Val::A(_) => Err(Stop::Unsupported("cast of aggregate".into())),
        }
    }

    // ---------------------------------------------------------------- memory
    fn merr<T>(r: Result<T, String>) -> X<T> { r.map_err(|m| Stop::Violation("memory".into(), m)) }

    fn load_int(&mut self, st: &mut State, addr: u64, w: u16) -> X<Val> {
        let n = (w as usize + 7) / 8;
        if n <= 8 {
            match st.mem.read_fast(addr, n) { Ok(v) => return Ok(Val::C(v & mask(w))), Err(Some(m)) => return viol("memory", m), Err(None) => {} }
        }
        let mut t = std::mem::take(&mut self.tmp);
        Self::merr(st.mem.read_bytes(addr, n as u64, &mut t))?;
        let r = self.from_bytes(&t, w);
        self.tmp = t;
        r
    }
    pub fn from_bytes(&mut self, t: &[B], w: u16) -> X<Val> {
        if t.iter().all(|b| matches!(b, B::C(_))) {
            let mut v = 0u128;
            for b in t.iter().rev() { if let B::C(x) = b { v = v << 8 | *x as u128; } }
            return Ok(Self::mk_wide(v, w));
        }
        let mut e: Option<E> = None;
        for b in t.iter() {
            let x = match b { B::C(k) => self.cx.konst(*k as u64, 8), B::S(e) => *e };
            e = Some(match e { None => x, Some(lo) => self.cx.concat(x, lo) });
        }
        let mut e = e.unwrap();
        if self.cx.w(e) != w { e = self.cx.extract(e, 0, w); }
        Ok(self.v_of(e))
    }
    pub fn to_bytes(&mut self, v: &Val, w: u16) -> X<Vec<B>> {
        let n = (w as usize + 7) / 8;
        Ok(match v {
            Val::C(k) => (0..n).map(|i| B::C(if i < 8 { (k >> (8 * i)) as u8 } else { 0 })).collect(),
            Val::W(k) => (0..n).map(|i| B::C((**k >> (8 * i)) as u8)).collect(),
            Val::S(e) => {
                let full = (n * 8) as u16;
                let e = if self.cx.w(*e) < full { self.cx.zext(*e, full) } else { *e };
                (0..n).map(|i| { let x = self.cx.extract(e, 8 * i as u16, 8); match self.cx.is_const(x) { Some(k) => B::C(k as u8), None => B::S(x) } }).collect()
            }
            Val::A(_) => return Err(Stop::Unsupported("store of aggregate as scalar".into())),
        })
    }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u16, v: &Val) -> X<()> {
        let n = (w as usize + 7) / 8;
        if let Val::C(k) = v { if n <= 8 { match st.mem.write_fast(addr, n, *k) { Ok(true) => return Ok(()), Ok(false) => {} Err(m) => return viol("memory", m) } } }
        let b = self.to_bytes(v, w)?;
        Self::merr(st.mem.write_bytes(addr, &b))
    }
    /// load through a symbolic pointer: a table lookup if the pointer ranges over a small readable area, else fork
    fn load_sym(&mut self, st: &mut State, p: E, w: u16) -> X<Val> {
        let n = *self.cx.node(p);
        let nb = (w as u64 + 7) / 8;
        if n.umax - n.umin <= 1024 && w <= 64 {
            let tz = self.align_of(p);
            let step = 1u64 << tz.min(6);
            let lo = n.umin;
            let mut vals = vec![];
            let mut a = lo + (step - (lo - self.low_const(p, tz)) % step) % step;
            let mut ok = true;
            while a <= n.umax { match st.mem.read_fast(a, nb as usize) { Ok(v) => vals.push((a, v & mask(w))), Err(_) => { ok = false; break; } } a += step; }
            if ok && !vals.is_empty() && vals.len() <= 512 {
                let e = self.table(p, &vals, w);
                return Ok(self.v_of(e));
            }
        }
        let a = self.conc(st, p)?;
        self.load_int(st, a, w)
    }
    fn align_of(&self, p: E) -> u32 {
        let n = self.cx.node(p);
        match n.op {
            Op::Concat => if self.cx.is_const(n.b) == Some(0) { self.cx.w(n.b) as u32 } else { 0 },
            Op::Add => if self.cx.is_const(n.b).is_some() { self.align_of(n.a) } else { self.align_of(n.a).min(self.align_of(n.b)) },
            Op::Mul => match self.cx.is_const(n.b) { Some(k) if k != 0 => k.trailing_zeros() + self.align_of(n.a), _ => 0 },
            Op::ZExt => self.align_of(n.a),
            _ => 0,
        }
    }
    /// the constant part of a pointer of the form base + aligned offset (a congruence class modulo 2^tz)
    fn low_const(&self, p: E, tz: u32) -> u64 {
        let n = self.cx.node(p);
        let m = (1u64 << tz.min(6)) - 1;
        if n.op == Op::Add { if let Some(k) = self.cx.is_const(n.b) { return k & m; } }
        0
    }
    fn table(&mut self, p: E, v: &[(u64, u64)], w: u16) -> E {
        if v.iter().all(|x| x.1 == v[0].1) { return self.cx.konst(v[0].1, w); }
        let mid = v.len() / 2;
        let l = self.table(p, &v[..mid], w);
        let r = self.table(p, &v[mid..], w);
        let k = self.cx.konst(v[mid].0, 64);
        let c = self.cx.cmp(Op::Ult, p, k);
        self.cx.ite(c, l, r)
    }
    fn load_mt(&mut self, st: &mut State, addr: u64, mt: &Mt) -> X<Val> {
        Ok(match mt {
            Mt::Int(w) => self.load_int(st, addr, *w)?,
            Mt::Vec(n, w) => { if w % 8 != 0 { return Err(Stop::Unsupported("vector of sub-byte elements in memory".into())); } let mut v = vec![]; for i in 0..*n { v.push(self.load_int(st, addr + (i as u64 * *w as u64 / 8), *w)?); } Val::A(Rc::new(v)) }
            Mt::Agg(f) => { let mut v = vec![]; for (o, m) in f { v.push(self.load_mt(st, addr + o, m)?); } Val::A(Rc::new(v)) }
        })
    }
    fn store_mt(&mut self, st: &mut State, addr: u64, mt: &Mt, v: &Val) -> X<()> {
        match mt {
            Mt::Int(w) => self.store_int(st, addr, *w, v),
            Mt::Vec(n, w) => { if w % 8 != 0 { return Err(Stop::Unsupported("vector of sub-byte elements in memory".into())); } let v = arr(v)?; for i in 0..*n as usize { self.store_int(st, addr + (i as u64 * *w as u64 / 8), *w, &v[i])?; } Ok(()) }
            Mt::Agg(f) => { let v = arr(v)?; for (i, (o, m)) in f.iter().enumerate() { self.store_mt(st, addr + o, m, &v[i])?; } Ok(()) }
        }
    }

    // ---------------------------------------------------------------- control
    fn take_edge(&mut self, st: &mut State, f: &'static Func, e: u32) {
        let ed = &f.edges[e as usize];
        if ed.overlap {
            let vals: Vec<Val> = ed.moves.iter().map(|(_, s)| self.get(&st.top, *s)).collect();
            for ((d, _), v) in ed.moves.iter().zip(vals) { st.top.regs[*d as usize] = v; }
        } else {
            for (d, s) in ed.moves.iter() { let v = self.get(&st.top, *s); st.top.regs[*d as usize] = v; }
        }
        st.top.ip = ed.target;
    }

    fn push_frame(&mut self, st: &mut State, fi: u32, args: &[R], dst: u32, normal: u32) -> X<()> {
        let f = &self.m.funcs[fi as usize];
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.clear();
        regs.resize(f.nregs as usize, Val::C(0));
        for (i, a) in args.iter().enumerate() { if i < f.nparams as usize { regs[i] = self.get(&st.top, *a); } }
        if self.split[fi as usize] { if let Val::C(p) = regs[0] { self.split_value(st, p)?; } }
        self.enter(st, fi, regs, dst, normal)
    }
    fn show(&mut self, st: &State, e: E, d: usize) {
        let n = *self.cx.node(e);
        let r = self.ival(st, e);
        eprintln!("{}{:?} w{} k{:x} [{:x},{:x}] u[{:x},{:x}] #{} v1 {}", " ".repeat(d), n.op, n.w, n.k, r.0, r.1, n.umin, n.umax, e, n.var1);
        if d > 12 { return; }
        match n.op { Op::Const | Op::Var => {} Op::Ite => { self.show(st, n.a, d + 1); self.show(st, n.b, d + 1); self.show(st, n.c, d + 1); } Op::Extract | Op::ZExt | Op::SExt => self.show(st, n.a, d + 1), _ => { self.show(st, n.a, d + 1); self.show(st, n.b, d + 1); } }
    }
    fn vars_of(&self, roots: &[E]) -> Vec<E> {
        let mut seen: FxMap<E, ()> = Default::default();
        let mut stack = roots.to_vec();
        let mut vs = vec![];
        while let Some(e) = stack.pop() {
            if seen.insert(e, ()).is_some() { continue; }
            let n = self.cx.node(e);
            match n.op {
                Op::Const => {}
                Op::Var => vs.push(e),
                Op::Ite => { stack.push(n.a); stack.push(n.b); stack.push(n.c); }
                Op::Extract | Op::ZExt | Op::SExt => stack.push(n.a),
                _ => { stack.push(n.a); stack.push(n.b); }
            }
        }
        vs.sort_unstable();
        vs
    }
    /// Case split on an expression: over the values of its variables when they are bytes, else over its own values.
    fn split_expr(&mut self, st: &mut State, e: E) -> X<u64> {
        let vs = self.vars_of(&[e]);
        if vs.len() > 1 && vs.iter().all(|&v| self.cx.w(v) <= 8) {
            for v in vs { self.conc(st, v)?; }
            let r = self.ival(st, e);
            if r.0 == r.1 { return Ok(r.0); }
            return Ok(self.eval(st, e));
        }
        self.conc(st, e)
    }
    /// Case split on the contents of the big integers a value points to (before a data-dependent loop such as gcd).
    fn split_value(&mut self, st: &mut State, p: u64) -> X<()> {
        let Ok(n) = st.mem.block_size(p).or_else(|_| Ok::<u64, String>(64)) else { return Ok(()) };
        for i in 0..n.min(64) / 8 {
            let Ok(Val::C(q)) = self.load_int(st, p + i * 8, 64) else { continue };
            let Ok(m) = st.mem.block_size(q) else { continue };
            for j in 0..m.min(64) / 4 {
                if let Ok(Val::S(e)) = self.load_int(st, q + j * 4, 32) { let v = self.split_expr(st, e)?; self.store_int(st, q + j * 4, 32, &Val::C(v))?; }
            }
        }
        Ok(())
    }
    fn enter(&mut self, st: &mut State, fi: u32, regs: Vec<Val>, dst: u32, normal: u32) -> X<()> {
        let f = &self.m.funcs[fi as usize];
        self.entered[fi as usize] += 1;
        let base = st.mem.sp;
        st.mem.sp += f.frame;
        let d = st.lower.len() as u32 + 1;
        if d > st.depth_peak { st.depth_peak = d; }
        if d > st.max_depth { return viol("stack", format!("call depth exceeds {} in {}", st.max_depth, short(&f.name))); }
        let top = Frame { f: fi, ip: 0, regs, dst, normal, base, sp_save: base };
        let old = std::mem::replace(&mut st.top, top);
        st.lower.push(Rc::new(old));
        Ok(())
    }

    /// `ret`: false = the state's entry function returned
    fn do_ret(&mut self, st: &mut State, v: Option<Val>) -> bool {
        st.mem.sp = st.top.sp_save;
        let low = match st.lower.pop() { Some(l) => l, None => return false };
        let fr = match Rc::try_unwrap(low) { Ok(f) => f, Err(r) => (*r).clone() };
        let done = std::mem::replace(&mut st.top, fr);
        if self.pool.len() < 64 { self.pool.push(done.regs); }
        if done.dst != NOREG { if let Some(v) = v { st.top.regs[done.dst as usize] = v; } }
        // the caller's ip still points at the call
        if done.normal != NOREG { let f = &self.m.funcs[st.top.f as usize]; self.take_edge(st, f, done.normal); } else { st.top.ip += 1; }
        true
    }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![short(&self.m.funcs[st.top.f as usize].name)];
        for f in st.lower.iter().rev().take(11) { v.push(short(&self.m.funcs[f.f as usize].name)); }
        v
    }

    /// Run until the state ends. Forked states are left in `self.forked`.
    pub fn run(&mut self, st: &mut State) -> Stop {
        match self.run_inner(st) { Ok(()) => Stop::Done, Err(s) => s }
    }

    fn run_inner(&mut self, st: &mut State) -> X<()> {
        let mut since = 0u32;
        loop {
            let f: &'static Func = &self.m.funcs[st.top.f as usize];
            let inst: &'static Inst = &f.insts[st.top.ip as usize];
            st.steps += 1;
            since += 1;
            if since >= 1 << 16 {
                since = 0;
                if st.steps > st.limit { return Err(Stop::Steps); }
                if Instant::now() > self.deadline { return Err(Stop::Unknown("time".into())); }
            }
            macro_rules! g { ($r:expr) => { self.get(&st.top, $r) } }
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.top.regs[$d as usize] = v; st.top.ip += 1; }} }
            match inst {
                Inst::Nop => st.top.ip += 1,
                Inst::Bin { op, w, d, a, b } => {
                    let (x, y) = (g!(*a), g!(*b));
                    if let (Val::C(p), Val::C(q)) = (&x, &y) {
                        if *w <= 64 {
                            let (p, q, m) = (*p, *q, mask(*w));
                            let r = match op {
                                BinOp::Add => p.wrapping_add(q) & m, BinOp::Sub => p.wrapping_sub(q) & m, BinOp::And => p & q, BinOp::Or => p | q, BinOp::Xor => p ^ q, BinOp::Mul => p.wrapping_mul(q) & m,
                                BinOp::Shl => if q >= *w as u64 { 0 } else { (p << q) & m }, BinOp::LShr => if q >= *w as u64 { 0 } else { p >> q },
                                _ => { let v = self.bin(st, *op, *w, &x, &y)?; set!(*d, v); continue; }
                            };
                            set!(*d, Val::C(r));
                            continue;
                        }
                    }
                    let v = self.bin(st, *op, *w, &x, &y)?;
                    set!(*d, v)
                }
                Inst::ICmp { p, w, d, a, b } => { let (x, y) = (g!(*a), g!(*b)); let v = self.icmp(st, *p, *w, &x, &y)?; set!(*d, v) }
                Inst::Select { d, c, a, b, w } => {
                    let cv = g!(*c);
                    match cv {
                        Val::C(k) => { let v = if k & 1 == 1 { g!(*a) } else { g!(*b) }; set!(*d, v) }
                        Val::S(ce) => {
                            let (x, y) = (g!(*a), g!(*b));
                            let v = match (&x, &y) {
                                (Val::A(_), _) | (_, Val::A(_)) => if self.decide(st, ce)? { x } else { y },
                                _ if *w == 0 || *w > 64 => if self.decide(st, ce)? { x } else { y },
                                _ => if let Some(&k) = st.known.get(&ce) { if k { x } else { y } } else { let (p, q) = (self.e_of(&x, *w)?, self.e_of(&y, *w)?); let e = self.cx.ite(ce, p, q); self.v_of(e) },
                            };
                            set!(*d, v)
                        }
                        _ => return Err(Stop::Unsupported("select".into())),
                    }
                }
                Inst::Cast { op, d, a, from, to } => { let x = g!(*a); let v = self.cast(*op, &x, *from, *to)?; set!(*d, v) }
                Inst::Move { d, a } => { let v = g!(*a); set!(*d, v) }
                Inst::Gep { d, base, off, idx } => {
                    let b = g!(*base);
                    let mut k = *off as u64;
                    let mut sym: Option<E> = None;
                    match b { Val::C(v) => k = k.wrapping_add(v), Val::S(e) => sym = Some(e), _ => return Err(Stop::Unsupported("gep base".into())) }
                    for (r, w, sc) in idx.iter() {
                        match g!(*r) {
                            Val::C(v) => k = k.wrapping_add((sext64(v, *w) as u64).wrapping_mul(*sc as u64)),
                            Val::S(e) => {
                                let x = if *w < 64 { self.cx.sext(e, 64) } else { e };
                                let s = self.cx.konst(*sc as u64, 64);
                                let x = self.cx.bin(Op::Mul, x, s);
                                sym = Some(match sym { None => x, Some(y) => self.cx.bin(Op::Add, y, x) });
                            }
                            _ => return Err(Stop::Unsupported("gep index".into())),
                        }
                    }
                    let v = match sym { None => Val::C(k), Some(e) => { let kk = self.cx.konst(k, 64); let r = self.cx.bin(Op::Add, e, kk); self.v_of(r) } };
                    set!(*d, v)
                }
                Inst::Load { d, p, w } => {
                    let v = match g!(*p) {
                        Val::C(a) => {
                            if !st.threads.is_empty() && shared(a) && self.sched(st)? { continue; }
                            self.load_int(st, a, *w)?
                        }
                        Val::S(e) => self.load_sym(st, e, *w)?,
                        _ => return Err(Stop::Unsupported("load ptr".into())),
                    };
                    set!(*d, v)
                }
                Inst::LoadX { d, p, mt } => { let pv = g!(*p); let a = self.concv(st, &pv)?; let v = self.load_mt(st, a, mt)?; set!(*d, v) }
                Inst::Store { v, p, w } => {
                    let a = match g!(*p) { Val::C(a) => a, x => self.concv(st, &x)? };
                    if !st.threads.is_empty() && shared(a) && self.sched(st)? { continue; }
                    let x = g!(*v);
                    self.store_int(st, a, *w, &x)?;
                    st.top.ip += 1;
                }
                Inst::StoreX { v, p, mt } => { let pv = g!(*p); let a = self.concv(st, &pv)?; let x = g!(*v); self.store_mt(st, a, mt, &x)?; st.top.ip += 1; }
                Inst::Alloca { d, off } => { let b = st.top.base + off; set!(*d, Val::C(b)) }
                Inst::AllocaDyn { d, n, size } => { let nv = g!(*n); let k = self.concv(st, &nv)?; let a = (st.mem.sp + 15) / 16 * 16; st.mem.sp = a + k.saturating_mul(*size).min(1 << 24); set!(*d, Val::C(a)) }
                Inst::Br { e } => self.take_edge(st, f, *e),
                Inst::CondBr { c, t, f: fe } => {
                    let k = match g!(*c) { Val::C(k) => k & 1 == 1, Val::S(e) => self.decide(st, e)?, _ => return Err(Stop::Unsupported("br".into())) };
                    self.take_edge(st, f, if k { *t } else { *fe });
                }
                Inst::Switch { v, w, cases, def } => {
                    match g!(*v) {
                        Val::C(k) => { let e = cases.iter().find(|x| x.0 == k).map_or(*def, |x| x.1); self.take_edge(st, f, e); }
                        Val::S(e) => {
                            if *w > 64 { return Err(Stop::Unsupported("wide switch".into())); }
                            let k = self.eval(st, e);
                            let ed = cases.iter().find(|x| x.0 == k).map_or(*def, |x| x.1);
                            let (umin, umax) = { let n = self.cx.node(e); (n.umin, n.umax) };
                            let mut c = self.cx.konst((ed == *def) as u64, 1);
                            // keep conditions as ranges where the cases form one
                            let mut ks: Vec<u64> = cases.iter().filter(|x| (x.1 == ed) != (ed == *def) && x.0 >= umin && x.0 <= umax).map(|x| x.0).collect();
                            if ed == *def { ks = cases.iter().filter(|x| x.1 != ed && x.0 >= umin && x.0 <= umax).map(|x| x.0).collect(); }
                            ks.sort_unstable();
                            let mut i = 0;
                            while i < ks.len() {
                                let mut j = i;
                                while j + 1 < ks.len() && ks[j + 1] == ks[j] + 1 { j += 1; }
                                let (l, h) = (self.cx.konst(ks[i], *w), self.cx.konst(ks[j], *w));
                                let t = if i == j { self.cx.cmp(Op::Eq, e, l) } else { let a = self.cx.cmp(Op::Ule, l, e); let b = self.cx.cmp(Op::Ule, e, h); self.cx.bin(Op::And, a, b) };
                                if ed == *def { let nt = self.cx.not(t); c = self.cx.bin(Op::And, c, nt); } else { c = self.cx.bin(Op::Or, c, t); }
                                i = j + 1;
                            }
                            let r = self.decide(st, c)?;
                            debug_assert!(r);
                            if r { self.take_edge(st, f, ed); }
                        }
                        _ => return Err(Stop::Unsupported("switch".into())),
                    }
                }
                Inst::Call { d, callee, args, normal, rw } => {
                    let fi = match callee {
                        Callee::Fn(i) => *i,
                        Callee::Ptr(r) => {
                            let pv = g!(*r);
                            let a = self.concv(st, &pv)?;
                            let i = a.wrapping_sub(FUNC_BASE) / 16;
                            if a < FUNC_BASE || i as usize >= self.m.funcs.len() || a & 15 != 0 { return viol("memory", format!("call through invalid function pointer {:#x}", a)); }
                            i as u32
                        }
                        Callee::Asm => { if *d != NOREG { st.top.regs[*d as usize] = Val::C(0); } st.top.ip += 1; continue; }
                    };
                    if self.bi[fi as usize] != Bi::None {
                        let r = self.builtin(st, fi, args, *rw)?;
                        match r {
                            Ret::Val(v) => {
                                if *d != NOREG { st.top.regs[*d as usize] = v; }
                                if *normal != NOREG { self.take_edge(st, f, *normal); } else { st.top.ip += 1; }
                            }
                            Ret::Again => {}
                        }
                    } else if self.m.funcs[fi as usize].defined {
                        self.push_frame(st, fi, args, *d, *normal)?;
                    } else {
                        return Err(Stop::Unsupported(format!("external function {}", self.m.funcs[fi as usize].name)));
                    }
                }
                Inst::Ret { v } => {
                    let v = if *v == NOREG { None } else { Some(g!(*v)) };
                    if !self.do_ret(st, v) {
                        if st.threads.is_empty() || st.cur == 0 { return Ok(()); }
                        self.thread_done(st)?;
                    }
                }
                Inst::Unreachable => return viol("unreachable", format!("unreachable code reached in {}", short(&f.name))),
                Inst::ExtractValue { d, a, path } => {
                    let mut v = g!(*a);
                    for &i in path.iter() { v = arr(&v)?[i as usize].clone(); }
                    set!(*d, v)
                }
                Inst::InsertValue { d, a, v, path } => {
                    let x = g!(*v);
                    let b = g!(*a);
                    let r = insert(b, path, x)?;
                    set!(*d, r)
                }
                Inst::Rmw { op, d, p, v, w } => {
                    let pv = g!(*p);
                    let a = self.concv(st, &pv)?;
                    if !st.threads.is_empty() && self.sched(st)? { continue; }
                    let old = self.load_int(st, a, *w)?;
                    let x = g!(*v);
                    let o = |b| b;
                    let new = match op {
                        RmwOp::Xchg => x, RmwOp::Add => self.bin(st, o(BinOp::Add), *w, &old, &x)?, RmwOp::Sub => self.bin(st, BinOp::Sub, *w, &old, &x)?,
                        RmwOp::And => self.bin(st, BinOp::And, *w, &old, &x)?, RmwOp::Or => self.bin(st, BinOp::Or, *w, &old, &x)?, RmwOp::Xor => self.bin(st, BinOp::Xor, *w, &old, &x)?,
                        RmwOp::Nand => { let t = self.bin(st, BinOp::And, *w, &old, &x)?; self.bin(st, BinOp::Xor, *w, &t, &Val::C(mask(*w)))? }
                        RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                            let (a, b) = (self.concv(st, &old)?, self.concv(st, &x)?);
                            let (sa, sb) = (sext64(a, *w), sext64(b, *w));
                            Val::C(match op { RmwOp::UMax => a.max(b), RmwOp::UMin => a.min(b), RmwOp::Max => if sa > sb { a } else { b }, _ => if sa < sb { a } else { b } })
                        }
                    };
                    self.store_int(st, a, *w, &new)?;
                    set!(*d, old)
                }
                Inst::CmpXchg { d, p, c, n, w } => {
                    let pv = g!(*p);
                    let a = self.concv(st, &pv)?;
                    if !st.threads.is_empty() && self.sched(st)? { continue; }
                    let old = self.load_int(st, a, *w)?;
                    let (cv, nv) = (g!(*c), g!(*n));
                    let same = match self.icmp(st, Pred::Eq, *w, &old, &cv)? { Val::C(k) => k & 1 == 1, Val::S(e) => self.decide(st, e)?, _ => return Err(Stop::Unsupported("cmpxchg".into())) };
                    if same { self.store_int(st, a, *w, &nv)?; }
                    set!(*d, Val::A(Rc::new(vec![old, Val::C(same as u64)])))
                }
                Inst::VBin { op, w, n, d, a, b } => {
                    let (x, y) = (g!(*a), g!(*b));
                    let mut v = Vec::with_capacity(*n as usize);
                    for i in 0..*n as usize { v.push(self.bin(st, *op, *w, &arr(&x)?[i], &arr(&y)?[i])?); }
                    set!(*d, Val::A(Rc::new(v)))
                }
                Inst::VICmp { p, w, n, d, a, b } => {
                    let (x, y) = (g!(*a), g!(*b));
                    let mut v = Vec::with_capacity(*n as usize);
                    for i in 0..*n as usize { v.push(self.icmp(st, *p, *w, &arr(&x)?[i], &arr(&y)?[i])?); }
                    set!(*d, Val::A(Rc::new(v)))
                }
                Inst::VSelect { d, c, a, b, n } => {
                    let (cc, x, y) = (g!(*c), g!(*a), g!(*b));
                    let mut v = vec![];
                    for i in 0..*n as usize { let k = match &arr(&cc)?[i] { Val::C(k) => k & 1 == 1, Val::S(e) => self.decide(st, *e)?, _ => return Err(Stop::Unsupported("vselect".into())) }; v.push(if k { arr(&x)?[i].clone() } else { arr(&y)?[i].clone() }); }
                    set!(*d, Val::A(Rc::new(v)))
                }
                Inst::VCast { op, n, d, a, from, to } => {
                    let x = g!(*a);
                    let mut v = vec![];
                    for i in 0..*n as usize { v.push(self.cast(*op, &arr(&x)?[i], *from, *to)?); }
                    set!(*d, Val::A(Rc::new(v)))
                }
                Inst::ExtractElement { d, a, i } => { let iv = g!(*i); let k = self.concv(st, &iv)?; let x = g!(*a); let v = arr(&x)?.get(k as usize).cloned().unwrap_or(Val::C(0)); set!(*d, v) }
                Inst::InsertElement { d, a, v, i } => { let iv = g!(*i); let k = self.concv(st, &iv)?; let x = g!(*v); let r = insert(g!(*a), &[k as u32], x)?; set!(*d, r) }
                Inst::Shuffle { d, a, b, mask, na } => {
                    let (x, y) = (g!(*a), g!(*b));
                    let mut v = vec![];
                    for &i in mask.iter() { v.push(if i < 0 { Val::C(0) } else if (i as u32) < *na { arr(&x)?[i as usize].clone() } else { arr(&y)?[i as usize - *na as usize].clone() }); }
                    set!(*d, Val::A(Rc::new(v)))
                }
                Inst::Bitcast { d, a, from, to } => {
                    let x = g!(*a);
                    let b = self.bits_of(&x, from)?;
                    let r = self.of_bits(b, to)?;
                    set!(*d, r)
                }
                Inst::FBin { op, d, a, b, w } => {
                    let (av, bv) = (g!(*a), g!(*b));
                    let (x, y) = (self.concv(st, &av)?, self.concv(st, &bv)?);
                    let r = if *w == 64 { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); (match op { FOp::Add => p + q, FOp::Sub => p - q, FOp::Mul => p * q, FOp::Div => p / q, FOp::Rem => p % q }).to_bits() }
                    else { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { FOp::Add => p + q, FOp::Sub => p - q, FOp::Mul => p * q, FOp::Div => p / q, FOp::Rem => p % q }).to_bits() as u64 };
                    set!(*d, Val::C(r))
                }
                Inst::FNeg { d, a, w } => { let av = g!(*a); let x = self.concv(st, &av)?; set!(*d, Val::C(x ^ (1u64 << (*w - 1)))) }
                Inst::FCmp { p, d, a, b, w } => {
                    let (av, bv) = (g!(*a), g!(*b));
                    let (x, y) = (self.concv(st, &av)?, self.concv(st, &bv)?);
                    let (p1, q1) = if *w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                    let un = p1.is_nan() || q1.is_nan();
                    let r = match p.as_str() { "false" => false, "true" => true, "ord" => !un, "uno" => un, "oeq" => !un && p1 == q1, "one" => !un && p1 != q1, "olt" => p1 < q1, "ole" => p1 <= q1, "ogt" => p1 > q1, "oge" => p1 >= q1, "ueq" => un || p1 == q1, "une" => un || p1 != q1, "ult" => un || p1 < q1, "ule" => un || p1 <= q1, "ugt" => un || p1 > q1, "uge" => un || p1 >= q1, _ => return Err(Stop::Unsupported("fcmp".into())) };
                    set!(*d, Val::C(r as u64))
                }
                Inst::IToF { signed, d, a, from, to } => {
                    let av = g!(*a);
                    if *from > 64 { return Err(Stop::Unsupported("wide itof".into())); }
                    let x = self.concv(st, &av)?;
                    let r = match (*signed, *to) { (true, 64) => (sext64(x, *from) as f64).to_bits(), (false, 64) => (x as f64).to_bits(), (true, _) => (sext64(x, *from) as f32).to_bits() as u64, _ => (x as f32).to_bits() as u64 };
                    set!(*d, Val::C(r))
                }
                Inst::FToI { signed, d, a, from, to } => {
                    let av = g!(*a);
                    let x = self.concv(st, &av)?;
                    let fl = if *from == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                    let r = if *signed { fl as i64 as u64 & mask(*to) } else { fl as u64 & mask(*to) };
                    set!(*d, Val::C(r))
                }
                Inst::FConv { d, a, from, to } => {
                    let av = g!(*a);
                    let x = self.concv(st, &av)?;
                    let r = match (*from, *to) { (32, 64) => (f32::from_bits(x as u32) as f64).to_bits(), (64, 32) => (f64::from_bits(x) as f32).to_bits() as u64, _ => x };
                    set!(*d, Val::C(r))
                }
                Inst::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
            }
        }
    }

    fn bits_of(&mut self, v: &Val, t: &Ty) -> X<Vec<B>> {
        match t {
            Ty::Vec(n, e) => {
                let w = e.scalar_w().unwrap_or(0);
                if w == 1 {
                    // <n x i1> to an integer
                    let a = arr(v)?.clone();
                    let mut out = vec![];
                    let mut acc: Option<E> = None;
                    for x in a.iter().take(*n as usize) { let b = self.e_of(x, 1)?; acc = Some(match acc { None => b, Some(l) => self.cx.concat(b, l) }); }
                    let e = acc.unwrap();
                    let full = ((*n + 7) / 8 * 8) as u16;
                    let e = self.cx.zext(e, full);
                    let vv = self.v_of(e);
                    out.extend(self.to_bytes(&vv, full)?);
                    return Ok(out);
                }
                if w % 8 != 0 { return Err(Stop::Unsupported("bitcast".into())); }
                let a = arr(v)?.clone();
                let mut out = vec![];
                for i in 0..*n as usize { out.extend(self.to_bytes(&a[i], w)?); }
                Ok(out)
            }
            _ => { let w = t.scalar_w().ok_or(Stop::Unsupported("bitcast".into()))?; self.to_bytes(v, w) }
        }
    }
    fn of_bits(&mut self, b: Vec<B>, t: &Ty) -> X<Val> {
        match t {
            Ty::Vec(n, e) => {
                let w = e.scalar_w().unwrap_or(0);
                if w == 1 {
                    let full = (b.len() * 8) as u16;
                    let v = self.from_bytes(&b, full)?;
                    let e = self.e_of(&v, full)?;
                    let mut out = vec![];
                    for i in 0..*n as u16 { let x = self.cx.extract(e, i, 1); out.push(self.v_of(x)); }
                    return Ok(Val::A(Rc::new(out)));
                }
                if w % 8 != 0 { return Err(Stop::Unsupported("bitcast".into())); }
                let k = (w / 8) as usize;
                let mut out = vec![];
                for i in 0..*n as usize { out.push(self.from_bytes(&b[i * k..(i + 1) * k], w)?); }
                Ok(Val::A(Rc::new(out)))
            }
            _ => { let w = t.scalar_w().ok_or(Stop::Unsupported("bitcast".into()))?; self.from_bytes(&b, w) }
        }
    }

    // ---------------------------------------------------------------- threads
    /// At an access to shared memory: choose which thread runs next. True = switched (re-fetch the instruction).
    fn sched(&mut self, st: &mut State) -> X<bool> {
        if st.threads[st.cur].pending { st.threads[st.cur].pending = false; return Ok(false); }
        let live: Vec<usize> = (1..st.threads.len()).filter(|&i| !st.threads[i].done && st.threads[i].blocked == 0).collect();
        if st.cur == 0 || live.len() < 2 || st.switches >= st.max_switches { return Ok(false); }
        // fresh symbolic choice among the live threads
        let n = live.len() as u64;
        let idx = st.vars.len();
        let v = self.new_var(st, 8, 0);
        let k = self.cx.konst(n, 8);
        let c = self.cx.cmp(Op::Ult, v, k);
        self.add_cons(st, c);
        let _ = idx;
        // one state per value the solver finds feasible
        for t in 1..n {
            let kk = self.cx.konst(t, 8);
            let c = self.cx.cmp(Op::Eq, v, kk);
            match self.query(st, c).0 { Sat::Unsat => continue, Sat::Unknown => { st.incomplete = true; continue } Sat::Sat => () }
            let mut o = st.clone();
            self.add_cons(&mut o, c);
            let i = self.cx.node(v).k as u32;
            self.set_model(&mut o, &[(i, t)]);
            self.st.forks += 1;
            self.switch_to(&mut o, live[t as usize]);
            self.forked.push(o);
        }
        let kk = self.cx.konst(0, 8);
        let c = self.cx.cmp(Op::Eq, v, kk);
        self.add_cons(st, c);
        self.switch_to(st, live[0]);
        Ok(true)
    }
    /// save the running thread and make `t` the running one; it may then perform one shared access
    fn switch_to(&mut self, st: &mut State, t: usize) {
        if t != st.cur {
            let cur = st.cur;
            st.switches += 1;
            let sp = st.mem.sp;
            let th = &mut st.threads[t];
            let (nl, nt, nsp) = (std::mem::take(&mut th.lower), std::mem::replace(&mut th.top, Frame { f: 0, ip: 0, regs: vec![], dst: NOREG, normal: NOREG, base: 0, sp_save: 0 }), th.sp);
            let ol = std::mem::replace(&mut st.lower, nl);
            let ot = std::mem::replace(&mut st.top, nt);
            let c = &mut st.threads[cur];
            c.lower = ol; c.top = ot; c.sp = sp;
            st.mem.sp = nsp;
            st.cur = t;
        }
        st.threads[t].pending = true;
    }
    fn thread_done(&mut self, st: &mut State) -> X<()> {
        let cur = st.cur;
        st.threads[cur].done = true;
        st.threads[cur].pending = false;
        if (1..st.threads.len()).all(|i| st.threads[i].done) { self.switch_to(st, 0); st.threads[0].pending = false; return Ok(()); }
        self.yield_now(st, true)?;
        let next = st.cur;
        st.threads[next].pending = false;
        Ok(())
    }
    /// the running thread gives way: it waits, has ended, or spins
    fn yield_now(&mut self, st: &mut State, must: bool) -> X<()> {
        let n = st.threads.len();
        let cur = st.cur;
        for k in 1..n {
            let i = (cur - 1 + k) % (n - 1) + 1;
            if i != cur && !st.threads[i].done && st.threads[i].blocked == 0 {
                let sw = st.switches;
                self.switch_to(st, i);
                st.switches = sw;
                return Ok(());
            }
        }
        if must { return Err(Stop::Violation("deadlock".into(), "every thread waits".into())); }
        Ok(())
    }

    // ---------------------------------------------------------------- builtins
    pub fn new_var(&mut self, st: &mut State, w: u16, init: u64) -> E {
        let idx = st.vars.len();
        let v = self.cx.var(idx, w);
        Rc::make_mut(&mut st.vars).push(v);
        let m = Rc::make_mut(&mut st.model);
        if m.len() <= idx { m.resize(idx + 1, 0); }
        m[idx] = init;
        st.model_id = self.next_model;
        self.next_model += 1;
        v
    }
    /// symbolic value below n, concretised by forking
    pub fn choice(&mut self, st: &mut State, n: u64) -> (E, Vec<State>) {
        let v = self.new_var(st, 32, 0);
        let i = self.cx.node(v).k as u32;
        let mut out = vec![];
        for t in 1..n {
            let mut o = st.clone();
            let kk = self.cx.konst(t, 32);
            let c = self.cx.cmp(Op::Eq, v, kk);
            self.add_cons(&mut o, c);
            self.set_model(&mut o, &[(i, t)]);
            self.st.forks += 1;
            out.push(o);
        }
        let kk = self.cx.konst(0, 32);
        let c = self.cx.cmp(Op::Eq, v, kk);
        self.add_cons(st, c);
        (v, out)
    }
    pub fn set_errno(&mut self, st: &mut State, e: u64) -> X<()> { let a = st.errno; self.store_int(st, a, 32, &Val::C(e)) }

    fn locate(&self, st: &State, args: &[R]) -> String {
        for a in args {
            if let Val::C(p) = self.get(&st.top, *a) {
                let rd = |o: u64, n: usize| st.mem.read_fast(p.wrapping_add(o), n).ok();
                if let (Some(s), Some(l), Some(line), Some(col)) = (rd(0, 8), rd(8, 8), rd(16, 4), rd(20, 4)) {
                    if l > 3 && l < 300 && line > 0 && line < 1 << 20 {
                        let mut b = vec![];
                        for i in 0..l { match st.mem.read_byte(s.wrapping_add(i)) { Ok(B::C(c)) => b.push(c), _ => break } }
                        let b = if b.last() == Some(&0) { b[..b.len() - 1].to_vec() } else { b };
                        if b.ends_with(b".rs") { return format!("{}:{}:{}", String::from_utf8_lossy(&b), line, col); }
                    }
                }
            }
        }
        "?".into()
    }

    fn minmax(&mut self, op: Op, a: &Val, b: &Val, w: u16, first: bool) -> X<Val> {
        // op(a,b) ? (first ? a : b) : other
        let (x, y) = (self.e_of(a, w)?, self.e_of(b, w)?);
        let c = self.cx.cmp(op, x, y);
        let e = if first { self.cx.ite(c, x, y) } else { self.cx.ite(c, y, x) };
        Ok(self.v_of(e))
    }

    fn builtin(&mut self, st: &mut State, fi: u32, args: &'static [R], rw: u16) -> X<Ret> {
        let a: Vec<Val> = args.iter().map(|r| self.get(&st.top, *r)).collect();
        let bi = self.bi[fi as usize];
        let iw = self.fw[fi as usize];
        let unit = Ok(Ret::Val(Val::C(0)));
        macro_rules! c { ($i:expr) => {{ let v = a[$i].clone(); match v { Val::C(k) => k, v => self.concv(st, &v)? } }} }
        macro_rules! ret { ($e:expr) => { return Ok(Ret::Val($e)) } }
        match bi {
            Bi::None => unreachable!(),
            Bi::Nop0 => unit,
            Bi::Panic => { let loc = self.locate(st, args); viol("panic", format!("panic at {}", loc)) }
            Bi::Abort => viol("abort", "abort".into()),
            Bi::Trap => viol("trap", "trap".into()),
            Bi::HashOne => ret!(Val::C(0)),
            Bi::Malloc => { let n = c!(0); if n > 1 << 30 { return Err(Stop::Unsupported(format!("malloc({})", n))); } ret!(Val::C(st.mem.alloc(n, 16))) }
            Bi::Calloc => {
                let n = c!(0).saturating_mul(c!(1));
                if n > 1 << 30 { return Err(Stop::Unsupported(format!("calloc({})", n))); }
                let p = st.mem.alloc(n, 16);
                Self::merr(st.mem.write_bytes(p, &vec![B::C(0); n as usize]))?;
                ret!(Val::C(p))
            }
            Bi::PosixMemalign => {
                let (pp, al, n) = (c!(0), c!(1), c!(2));
                if n > 1 << 30 { return Err(Stop::Unsupported("posix_memalign".into())); }
                let p = st.mem.alloc(n, al);
                self.store_int(st, pp, 64, &Val::C(p))?;
                unit
            }
            Bi::Realloc => {
                let (p, n) = (c!(0), c!(1));
                if n > 1 << 30 { return Err(Stop::Unsupported(format!("realloc({})", n))); }
                if p == 0 { ret!(Val::C(st.mem.alloc(n, 16))); }
                let old = Self::merr(st.mem.block_size(p))?;
                let q = st.mem.alloc(n, 16);
                let mut t = std::mem::take(&mut self.tmp);
                Self::merr(st.mem.copy(q, p, old.min(n), &mut t))?;
                self.tmp = t;
                Self::merr(st.mem.free(p))?;
                ret!(Val::C(q))
            }
            Bi::Free => { let p = c!(0); if p != 0 { Self::merr(st.mem.free(p))?; } unit }
            Bi::Memcpy => {
                let (d, s, n) = (c!(0), c!(1), c!(2));
                let mut t = std::mem::take(&mut self.tmp);
                let r = st.mem.copy(d, s, n, &mut t);
                self.tmp = t;
                Self::merr(r)?;
                ret!(Val::C(d))
            }
            Bi::Memset => {
                let (d, n) = (c!(0), c!(2));
                let b = match &a[1] { Val::C(k) => B::C(*k as u8), Val::S(e) => { let x = self.cx.extract(*e, 0, 8); match self.cx.is_const(x) { Some(k) => B::C(k as u8), None => B::S(x) } } _ => return Err(Stop::Unsupported("memset".into())) };
                Self::merr(st.mem.write_bytes(d, &vec![b; n as usize]))?;
                ret!(Val::C(d))
            }
            Bi::Bcmp | Bi::Memcmp => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                let (mut x, mut y) = (vec![], vec![]);
                Self::merr(st.mem.read_bytes(p, n, &mut x))?;
                Self::merr(st.mem.read_bytes(q, n, &mut y))?;
                if bi == Bi::Bcmp {
                    let mut acc = self.cx.konst(1, 1);
                    for (b1, b2) in x.iter().zip(&y) {
                        if let (B::C(u), B::C(v)) = (b1, b2) { if u != v { ret!(Val::C(1)); } continue; }
                    }
                    for (b1, b2) in x.iter().zip(&y) {
                        if let (B::C(_), B::C(_)) = (b1, b2) { continue; }
                        let (u, v) = (self.be(*b1), self.be(*b2));
                        let e = self.cx.cmp(Op::Eq, u, v);
                        acc = self.cx.bin(Op::And, acc, e);
                        if self.cx.is_const(acc) == Some(0) { break; }
                    }
                    let ne = self.cx.not(acc);
                    let r = self.cx.zext(ne, 32);
                    ret!(self.v_of(r))
                } else {
                    let mut r = self.cx.konst(0, 32);
                    for (b1, b2) in x.iter().zip(&y).rev() {
                        if let (B::C(u), B::C(v)) = (b1, b2) { if u != v { r = self.cx.konst(if u < v { u64::MAX } else { 1 }, 32); } continue; }
                        let (u, v) = (self.be(*b1), self.be(*b2));
                        let e = self.cx.cmp(Op::Eq, u, v);
                        let l = self.cx.cmp(Op::Ult, u, v);
                        let (m1, p1) = (self.cx.konst(u64::MAX, 32), self.cx.konst(1, 32));
                        let d = self.cx.ite(l, m1, p1);
                        r = self.cx.ite(e, r, d);
                    }
                    ret!(self.v_of(r))
                }
            }
            Bi::Strlen => {
                let mut p = c!(0);
                let s0 = p;
                loop {
                    let b = Self::merr(st.mem.read_byte(p))?;
                    let z = match b { B::C(k) => k == 0, B::S(e) => { let k = self.cx.konst(0, 8); let c = self.cx.cmp(Op::Eq, e, k); self.decide(st, c)? } };
                    if z { ret!(Val::C(p - s0)); }
                    p += 1;
                }
            }
            Bi::UMin => ret!(self.minmax(Op::Ult, &a[0], &a[1], iw, true)?),
            Bi::UMax => ret!(self.minmax(Op::Ult, &a[0], &a[1], iw, false)?),
            Bi::SMin => ret!(self.minmax(Op::Slt, &a[0], &a[1], iw, true)?),
            Bi::SMax => ret!(self.minmax(Op::Slt, &a[0], &a[1], iw, false)?),
            Bi::USubSat => {
                let (x, y) = (self.e_of(&a[0], iw)?, self.e_of(&a[1], iw)?);
                let c = self.cx.cmp(Op::Ult, x, y);
                let d = self.cx.bin(Op::Sub, x, y);
                let z = self.cx.konst(0, iw);
                let e = self.cx.ite(c, z, d);
                ret!(self.v_of(e))
            }
            Bi::UAddSat => {
                let (x, y) = (self.e_of(&a[0], iw)?, self.e_of(&a[1], iw)?);
                let s = self.cx.bin(Op::Add, x, y);
                let c = self.cx.cmp(Op::Ult, s, x);
                let z = self.cx.konst(u64::MAX, iw);
                let e = self.cx.ite(c, z, s);
                ret!(self.v_of(e))
            }
            Bi::Ctlz | Bi::Cttz | Bi::Ctpop => {
                if let Val::C(v) = a[0] {
                    ret!(Val::C(match bi { Bi::Ctlz => v.leading_zeros() as u64 - (64 - iw as u64), Bi::Cttz => (v.trailing_zeros() as u64).min(iw as u64), _ => v.count_ones() as u64 }));
                }
                let x = self.e_of(&a[0], iw)?;
                let mut r = self.cx.konst(if bi == Bi::Ctpop { 0 } else { iw as u64 }, iw);
                match bi {
                    Bi::Ctlz => for i in 0..iw { let b = self.cx.extract(x, i, 1); let k = self.cx.konst((iw - 1 - i) as u64, iw); r = self.cx.ite(b, k, r); },
                    Bi::Cttz => for i in (0..iw).rev() { let b = self.cx.extract(x, i, 1); let k = self.cx.konst(i as u64, iw); r = self.cx.ite(b, k, r); },
                    _ => for i in 0..iw { let b = self.cx.extract(x, i, 1); let z = self.cx.zext(b, iw); r = self.cx.bin(Op::Add, r, z); },
                }
                ret!(self.v_of(r))
            }
            Bi::Bswap | Bi::BitRev => {
                if iw > 64 { return Err(Stop::Unsupported("wide bswap".into())); }
                let u = if bi == Bi::Bswap { 8 } else { 1 };
                let x = self.e_of(&a[0], iw)?;
                let mut acc: Option<E> = None;
                let mut i = 0;
                // lowest piece of x becomes the highest
                while i < iw { let p = self.cx.extract(x, i, u); acc = Some(match acc { None => p, Some(h) => self.cx.concat(h, p) }); i += u; }
                ret!(self.v_of(acc.unwrap()))
            }
            Bi::Fshl | Bi::Fshr => {
                let s = (c!(2) % iw as u64) as u16;
                if iw > 64 { return Err(Stop::Unsupported("wide fsh".into())); }
                let (x, y) = (self.e_of(&a[0], iw)?, self.e_of(&a[1], iw)?);
                if s == 0 { ret!(if bi == Bi::Fshl { a[0].clone() } else { a[1].clone() }); }
                let sh = if bi == Bi::Fshl { s } else { iw - s };
                let h = self.cx.extract(x, 0, iw - sh);
                let l = self.cx.extract(y, iw - sh, sh);
                let e = self.cx.concat(h, l);
                ret!(self.v_of(e))
            }
            Bi::Abs => {
                let x = self.e_of(&a[0], iw)?;
                let z = self.cx.konst(0, iw);
                let c = self.cx.cmp(Op::Slt, x, z);
                let n = self.cx.bin(Op::Sub, z, x);
                let e = self.cx.ite(c, n, x);
                ret!(self.v_of(e))
            }
            Bi::SCmp | Bi::UCmp => {
                let (x, y) = (self.e_of(&a[0], iw)?, self.e_of(&a[1], iw)?);
                let l = self.cx.cmp(if bi == Bi::SCmp { Op::Slt } else { Op::Ult }, x, y);
                let q = self.cx.cmp(Op::Eq, x, y);
                let w = if rw == 0 { 8 } else { rw };
                let (m1, z, p1) = (self.cx.konst(u64::MAX, w), self.cx.konst(0, w), self.cx.konst(1, w));
                let t = self.cx.ite(q, z, p1);
                let e = self.cx.ite(l, m1, t);
                ret!(self.v_of(e))
            }
            Bi::UAddO | Bi::USubO | Bi::UMulO | Bi::SAddO | Bi::SSubO | Bi::SMulO => {
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    if iw <= 64 {
                        let (ux, uy) = (*x as i128, *y as i128);
                        let (sx, sy) = (sext64(*x, iw) as i128, sext64(*y, iw) as i128);
                        let m = mask(iw) as i128;
                        let (r, o) = match bi {
                            Bi::UAddO => (ux + uy, ux + uy > m), Bi::USubO => (ux - uy, ux < uy), Bi::UMulO => { let p = *x as u128 * *y as u128; (p as i128, p > m as u128) }
                            b => { let r = match b { Bi::SAddO => sx + sy, Bi::SSubO => sx - sy, _ => sx * sy }; (r, r != sext64(r as u64 & mask(iw), iw) as i128) }
                        };
                        ret!(Val::A(Rc::new(vec![Val::C(r as u64 & mask(iw)), Val::C(o as u64)])));
                    }
                }
                if iw > 64 { return Err(Stop::Unsupported("wide overflow op".into())); }
                let (x, y) = (self.e_of(&a[0], iw)?, self.e_of(&a[1], iw)?);
                let (r, o) = match bi {
                    Bi::UAddO => { let r = self.cx.bin(Op::Add, x, y); let nx = self.cx.node(x).umax; let ny = self.cx.node(y).umax; let o = if nx as u128 + ny as u128 <= mask(iw) as u128 { self.cx.konst(0, 1) } else { self.cx.cmp(Op::Ult, r, x) }; (r, o) }
                    Bi::USubO => { let r = self.cx.bin(Op::Sub, x, y); (r, self.cx.cmp(Op::Ult, x, y)) }
                    Bi::UMulO => {
                        let r = self.cx.bin(Op::Mul, x, y);
                        let (nx, ny) = (self.cx.node(x).umax, self.cx.node(y).umax);
                        let o = if nx as u128 * ny as u128 <= mask(iw) as u128 { self.cx.konst(0, 1) }
                        else if let Some(k) = self.cx.is_const(y) { let lim = self.cx.konst(mask(iw) / k.max(1), iw); self.cx.cmp(Op::Ult, lim, x) }
                        else if let Some(k) = self.cx.is_const(x) { let lim = self.cx.konst(mask(iw) / k.max(1), iw); self.cx.cmp(Op::Ult, lim, y) }
                        else { let (p, q) = (self.cx.zext(x, 2 * iw), self.cx.zext(y, 2 * iw)); let t = self.cx.bin(Op::Mul, p, q); let h = self.cx.extract(t, iw, iw); let z = self.cx.konst(0, iw); let e = self.cx.cmp(Op::Eq, h, z); self.cx.not(e) };
                        (r, o)
                    }
                    _ => {
                        let (p, q) = (self.cx.sext(x, 2 * iw), self.cx.sext(y, 2 * iw));
                        let op = match bi { Bi::SAddO => Op::Add, Bi::SSubO => Op::Sub, _ => Op::Mul };
                        let t = self.cx.bin(op, p, q);
                        let r = self.cx.bin(op, x, y);
                        let s = self.cx.sext(r, 2 * iw);
                        let e = self.cx.cmp(Op::Eq, t, s);
                        (r, self.cx.not(e))
                    }
                };
                ret!(Val::A(Rc::new(vec![self.v_of(r), self.v_of(o)])))
            }
            Bi::FpToUiSat | Bi::FpToSiSat => { let x = f64::from_bits(c!(0)); ret!(Val::C(if bi == Bi::FpToUiSat { let v = x as u64; if rw >= 64 { v } else { v.min(mask(rw)) } } else { x as i64 as u64 & mask(rw) })) }
            Bi::FUn(k) => { let x = f64::from_bits(c!(0)); let r = match k { 0 => x.log2(), 1 => x.ceil(), 2 => x.floor(), 3 => x.trunc(), 4 => x.abs(), 5 => x.sqrt(), 6 => x.ln(), 7 => x.exp2(), _ => x.round() }; ret!(Val::C(r.to_bits())) }
            Bi::Expect => ret!(a[0].clone()),
            Bi::ThreadLocal => {
                if st.cur > 0 { if let Val::C(k) = a[0] { ret!(Val::C(k + st.cur as u64 * TLS_STRIDE)); } }
                ret!(a[0].clone())
            }
            Bi::IsConst => unit,
            Bi::ErrnoLoc => ret!(Val::C(st.errno)),
            Bi::Getrandom => { let (p, n) = (c!(0), c!(1)); if n > 0 { Self::merr(st.mem.write_bytes(p, &vec![B::C(7); n as usize]))?; } ret!(Val::C(n)) }
            Bi::Getenv => unit,
            Bi::KeyCreate => { let p = c!(0); self.store_int(st, p, 32, &Val::C(1))?; unit }
            Bi::Pause => { if !st.threads.is_empty() && st.cur != 0 { self.finish_call(st, Val::C(0)); self.yield_now(st, false)?; return Ok(Ret::Again); } unit }
            Bi::Strerror => {
                let (e, p, n) = (c!(0), c!(1), c!(2) as usize);
                let m = format!("{}", std::io::Error::from_raw_os_error(e as i32));
                let m = match m.find(" (os error") { Some(i) => m[..i].to_string(), None => m };
                if m.len() + 1 > n { ret!(Val::C(34)) }
                for (i, b) in m.bytes().chain(std::iter::once(0)).enumerate() { self.store_int(st, p + i as u64, 8, &Val::C(b as u64))?; }
                ret!(Val::C(0))
            }
            Bi::Syscall if c!(0) == 202 && !st.threads.is_empty() && st.cur != 0 => {
                let (p, op) = (c!(1), c!(2) & 0x7f);
                let v = c!(3) & 0xffff_ffff;
                match op {
                    0 | 9 => {
                        let x = self.load_int(st, p, 32)?;
                        if self.concv(st, &x)? != v { self.set_errno(st, 11)?; ret!(Val::C(mask(64))) }
                        self.finish_call(st, Val::C(0));
                        let cur = st.cur;
                        st.threads[cur].blocked = p;
                        self.yield_now(st, true)?;
                        Ok(Ret::Again)
                    }
                    1 | 10 => {
                        let mut n = 0;
                        for t in st.threads.iter_mut() { if n < v && t.blocked == p { t.blocked = 0; n += 1; } }
                        ret!(Val::C(n))
                    }
                    _ => Err(Stop::Unsupported(format!("futex operation {}", op))),
                }
            }
            Bi::Syscall | Bi::Mkfail => { self.set_errno(st, 38)?; ret!(Val::C(mask(if rw == 0 { 64 } else { rw }))) }
            Bi::Open | Bi::Read | Bi::Write | Bi::Writev | Bi::Close | Bi::Fstat | Bi::Stat | Bi::Statx | Bi::Lseek | Bi::Realpath | Bi::Readlink | Bi::Getcwd | Bi::FsAdd | Bi::FsMode | Bi::FsGet | Bi::FsCount => {
                let mut k = vec![];
                for i in 0..a.len() { k.push(c!(i)); }
                let v = crate::vfs::call(self, st, bi, &k, rw)?;
                ret!(Val::C(v))
            }
            Bi::SymU8 => { let v = self.new_var(st, 8, 0); ret!(Val::S(v)) }
            Bi::SymU32 => { let v = self.new_var(st, 32, 0); ret!(Val::S(v)) }
            Bi::SymU64 => { let v = self.new_var(st, 64, 0); ret!(Val::S(v)) }
            Bi::Havoc => {
                let (p, n, now) = (c!(0), c!(1), c!(2));
                let mut b = vec![];
                Self::merr(st.mem.read_bytes(p, n, &mut b))?;
                let name = String::from_utf8(self.concrete_bytes(st, &b)).unwrap_or_default();
                let v = self.new_var(st, 64, 0);
                let k = self.cx.konst(1 << 40, 64);
                let c = self.cx.cmp(Op::Ult, v, k);
                self.add_cons(st, c);
                let all: Vec<(u64, u64)> = self.m.globals.iter().filter(|g| !g.constant && g.size >= 8 && g.name.contains("4over") && g.name.contains(&name)).map(|g| (g.addr, g.size)).collect();
                let mut hits = 0;
                for (a, z) in all {
                    for o in 0..z / 8 {
                        let mut b = vec![];
                        Self::merr(st.mem.read_bytes(a + 8 * o, 8, &mut b))?;
                        if self.concrete_bytes(st, &b) == now.to_le_bytes() { self.store_int(st, a + 8 * o, 64, &Val::S(v))?; hits += 1; }
                    }
                }
                ret!(Val::C(hits))
            }
            Bi::Conc => ret!(Val::C(c!(0))),
            Bi::IsSym => ret!(Val::C(1)),
            Bi::Assume => {
                let e = match &a[0] { Val::C(k) => if k & 1 == 1 { return unit } else { return Err(Stop::Assume) }, Val::S(e) => *e, _ => return Err(Stop::Unsupported("assume".into())) };
                let e = self.as_bool(e);
                if let Some(k) = self.cx.is_const(e) { return if k == 1 { unit } else { Err(Stop::Assume) }; }
                if let Some(&k) = st.known.get(&e) { return if k { unit } else { Err(Stop::Assume) }; }
                if self.eval(st, e) == 1 { self.add_cons(st, e); return unit; }
                match self.query(st, e) {
                    (Sat::Sat, u) => { self.add_cons(st, e); self.set_model(st, &u); unit }
                    (Sat::Unsat, _) => Err(Stop::Assume),
                    _ => Err(Stop::Unknown("assume".into())),
                }
            }
            Bi::Assert => {
                let id = c!(1);
                self.st.asserts += 1;
                let e = match &a[0] { Val::C(k) => if k & 1 == 1 { return unit } else { return viol("assert", format!("assertion {} fails", id)) }, Val::S(e) => *e, _ => return Err(Stop::Unsupported("assert".into())) };
                let e = self.as_bool(e);
                if let Some(k) = self.cx.is_const(e) { return if k == 1 { unit } else { viol("assert", format!("assertion {} fails", id)) }; }
                if let Some(&k) = st.known.get(&e) { return if k { unit } else { viol("assert", format!("assertion {} fails", id)) }; }
                self.st.sym_asserts += 1;
                let ne = self.cx.not(e);
                match self.query(st, ne) {
                    (Sat::Unsat, _) => { self.learn(st, e, true); unit }
                    (Sat::Unknown, _) => { st.incomplete = true; self.add_cons(st, e); unit }
                    (Sat::Sat, u) => {
                        let mut o = st.clone();
                        self.add_cons(&mut o, ne);
                        self.set_model(&mut o, &u);
                        let ok = self.query(st, e);
                        self.soft.push((o, "assert".into(), format!("assertion {} fails", id)));
                        match ok { (Sat::Sat, u) => { self.add_cons(st, e); self.set_model(st, &u); unit } _ => Err(Stop::Assume) }
                    }
                }
            }
            Bi::AllOf | Bi::AnyOf => unit,
            Bi::IteU => unit,
            Bi::Reach => { let id = c!(0) as u32; let r = Rc::make_mut(&mut st.reach); if !r.contains(&id) { r.push(id); } unit }
            Bi::Note => {
                let (p, n) = (c!(0), c!(1));
                let mut v = vec![];
                Self::merr(st.mem.read_bytes(p, n, &mut v))?;
                Rc::make_mut(&mut st.notes).push(v);
                unit
            }
            Bi::Fail => {
                let id = c!(0);
                viol("assert", format!("assertion {} fails", id))
            }
            Bi::DepthReset => { st.depth_peak = st.lower.len() as u32 + 1; unit }
            Bi::DepthPeak => { let b = st.lower.len() as u32 + 1; ret!(Val::C((st.depth_peak - b) as u64)) }
            Bi::StepMark => { st.limit = st.steps + c!(0); st.max_depth = st.lower.len() as u32 + c!(1) as u32; unit }
            Bi::HeapLive => ret!(Val::C(st.mem.heap_live as u64)),
            Bi::HeapBytes => ret!(Val::C(st.mem.heap_bytes)),
            Bi::Spawn => {
                // rs_spawn(fn(arg), arg, max_switches)
                let (fp, arg, ms) = (c!(0), c!(1), c!(2));
                let i = (fp.wrapping_sub(FUNC_BASE) / 16) as u32;
                let f = &self.m.funcs[i as usize];
                if st.threads.is_empty() { st.threads.push(Thread { lower: vec![], top: Frame { f: 0, ip: 0, regs: vec![], dst: NOREG, normal: NOREG, base: 0, sp_save: 0 }, sp: 0, done: false, pending: false, blocked: 0 }); st.mem.multi = true; }
                st.max_switches = ms as u32;
                let t = st.threads.len() as u64;
                for g in self.m.globals.iter().filter(|g| g.tls) {
                    st.mem.map(g.addr + t * TLS_STRIDE, g.size.max(1));
                    st.mem.poke(g.addr + t * TLS_STRIDE, &g.init);
                }
                let base = STACK_BASE + t * 0x0100_0000;
                let mut regs = vec![Val::C(0); f.nregs as usize];
                if f.nparams > 0 { regs[0] = Val::C(arg); }
                self.entered[i as usize] += 1;
                st.threads.push(Thread { lower: vec![], top: Frame { f: i, ip: 0, regs, dst: NOREG, normal: NOREG, base, sp_save: base }, sp: base + f.frame + 16, done: false, pending: false, blocked: 0 });
                unit
            }
            Bi::Join => {
                // run all spawned threads to completion, then continue here
                match (1..st.threads.len()).find(|&i| !st.threads[i].done) {
                    Some(t) => { self.switch_to(st, t); st.threads[t].pending = false; Ok(Ret::Again) }
                    None => { st.threads.clear(); st.cur = 0; st.mem.multi = false; unit }
                }
            }
        }
    }
    fn be(&mut self, b: B) -> E { match b { B::C(k) => self.cx.konst(k as u64, 8), B::S(e) => e } }
    fn as_bool(&mut self, e: E) -> E { if self.cx.w(e) == 1 { e } else { self.cx.extract(e, 0, 1) } }
    /// complete the pending call instruction of `o` with value v
    pub fn finish_call(&mut self, o: &mut State, v: Val) {
        let f: &'static Func = &self.m.funcs[o.top.f as usize];
        if let Inst::Call { d, normal, .. } = &f.insts[o.top.ip as usize] {
            if *d != NOREG { o.top.regs[*d as usize] = v; }
            if *normal != NOREG { self.take_edge(o, f, *normal); } else { o.top.ip += 1; }
        }
    }
    /// bytes under the state's model
    pub fn concrete_bytes(&mut self, st: &State, v: &[B]) -> Vec<u8> {
        v.iter().map(|b| match b { B::C(k) => *k, B::S(e) => self.cx.eval(*e, st.model_id, &st.model) as u8 }).collect()
    }
}

pub enum Ret { Val(Val), Again }
const TLS_STRIDE: u64 = 0x0400_0000;

fn shared(a: u64) -> bool { a < crate::mem::HEAP_BASE }
fn arr(v: &Val) -> X<&Rc<Vec<Val>>> { match v { Val::A(a) => Ok(a), _ => Err(Stop::Unsupported("scalar where an aggregate is needed".into())) } }
fn insert(base: Val, path: &[u32], v: Val) -> X<Val> {
    if path.is_empty() { return Ok(v); }
    match base {
        Val::A(mut rc) => { let i = path[0] as usize; { let m = Rc::make_mut(&mut rc); if i >= m.len() { return Err(Stop::Unsupported("insert".into())); } let old = std::mem::replace(&mut m[i], Val::C(0)); m[i] = insert(old, &path[1..], v)?; } Ok(Val::A(rc)) }
        _ => Err(Stop::Unsupported("insertvalue".into())),
    }
}
fn cmp_c(p: Pred, w: u16, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
        Pred::Sgt => sext64(x, w) > sext64(y, w), Pred::Sge => sext64(x, w) >= sext64(y, w), Pred::Slt => sext64(x, w) < sext64(y, w), Pred::Sle => sext64(x, w) <= sext64(y, w),
    }
}

/// readable form of a mangled Rust name
pub fn short(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts: Vec<String> = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1; }
            if i + k > b.len() { break; }
            parts.push(r[i..i + k].to_string());
            i += k;
        }
        if parts.last().map_or(false, |l| l.len() == 17 && l.starts_with('h')) { parts.pop(); }
        let s = parts.join("::");
        return s.replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$C$", ",").replace("..", "::").replace("$u7b$", "{").replace("$u7d$", "}");
    }
    if n.starts_with("_R") {
        // v0: keep the identifier parts
        let b = n.as_bytes();
        let mut out: Vec<String> = vec![];
        let mut i = 2;
        while i < b.len() {
            if b[i].is_ascii_digit() {
                let mut k = 0usize;
                let s0 = i;
                while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1; }
                if i < b.len() && b[i] == b'_' { i += 1; }
                if k > 0 && k < 80 && i + k <= b.len() && n[i..i + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && (s0 > 0) { out.push(n[i..i + k].to_string()); i += k; }
            } else { i += 1; }
        }
        return out.join("::");
    }
    n.to_string()
}
