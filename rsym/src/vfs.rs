//! In-memory file system behind the libc entry points std uses, with symbolic faults.
use crate::exec::{Bi, Eng, State, Stop, Val, X};
use crate::mem::B;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum Node { File(Rc<Vec<B>>), Dir, Link(Rc<Vec<u8>>) }
#[derive(Clone)]
pub struct Fd { path: Rc<Vec<u8>>, pos: usize, dir: bool, write: bool }

#[derive(Clone, Default)]
pub struct Vfs {
    pub nodes: Rc<BTreeMap<Vec<u8>, Node>>,
    pub fds: Rc<Vec<Option<Fd>>>,
    pub mask: u64,
    pub budget: u64,
    pub opens: u64,
    pub reads: u64,
    pub hard: u64, // faults delivered that no retry can hide
    pub cap: u64, // bytes a single read may deliver (0 = no limit)
}

pub const F_SHORT_READ: u64 = 1;
pub const F_EINTR_READ: u64 = 2;
pub const F_EIO_READ: u64 = 4;
pub const F_SHORT_WRITE: u64 = 8;
pub const F_EINTR_WRITE: u64 = 16;
pub const F_ENOSPC_WRITE: u64 = 32;
pub const F_OPEN: u64 = 64;
pub const F_REALPATH: u64 = 128;
pub const F_CREATE: u64 = 256;
pub const F_ZERO_WRITE: u64 = 512;
pub const F_MORE_READ: u64 = 1024; // short reads of other lengths
pub const F_MORE_WRITE: u64 = 2048;
pub const F_SIZE: u64 = 4096; // a reported file size that is wrong by the time of the read
pub const F_STAT: u64 = 8192;
const VARIANT: u64 = 1 << 32; // which length or size
const LEN: [u64; 3] = [2, 5, 9];

const CWD: &[u8] = b"/v";

impl Vfs {
    fn norm(p: &[u8], base: &[u8]) -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = if p.first() == Some(&b'/') { vec![] } else { base.split(|c| *c == b'/').filter(|s| !s.is_empty()).map(|s| s.to_vec()).collect() };
        v.extend(p.split(|c| *c == b'/').filter(|s| !s.is_empty()).map(|s| s.to_vec()));
        v
    }
    /// canonical path, following links; Err(errno). `create`: the last component may be missing
    fn resolve(&self, p: &[u8], create: bool) -> Result<Vec<u8>, u64> {
        if p.is_empty() { return Err(2); }
        let mut todo = Self::norm(p, CWD);
        todo.reverse();
        let mut cur: Vec<u8> = vec![];
        let mut hops = 0;
        let trailing = p.last() == Some(&b'/');
        while let Some(c) = todo.pop() {
            if !cur.is_empty() { match self.nodes.get(&cur) { Some(Node::Dir) => {} Some(_) => return Err(20), None => return Err(2) } }
            if c == b"." { continue; }
            if c == b".." { while let Some(x) = cur.pop() { if x == b'/' { break; } } continue; }
            if c.len() > 255 { return Err(36); }
            let mut n = cur.clone();
            n.push(b'/');
            n.extend_from_slice(&c);
            match self.nodes.get(&n) {
                None => { if create && todo.is_empty() { return Ok(n); } return Err(2); }
                Some(Node::Link(t)) => {
                    hops += 1;
                    if hops > 40 { return Err(40); }
                    let t: Vec<u8> = t.to_vec();
                    let base = if t.first() == Some(&b'/') { vec![] } else { cur.clone() };
                    let comps = Self::norm(&t, b"");
                    todo.extend(comps.into_iter().rev());
                    cur = base;
                }
                Some(_) => cur = n,
            }
        }
        if cur.is_empty() { return Ok(b"/".to_vec()); }
        if trailing { if let Some(Node::File(_)) = self.nodes.get(&cur) { return Err(20); } }
        Ok(cur)
    }
    pub fn add(&mut self, path: &[u8], n: Node) {
        let comps = Self::norm(path, CWD);
        let m = Rc::make_mut(&mut self.nodes);
        let mut cur = vec![];
        for (i, c) in comps.iter().enumerate() {
            cur.push(b'/');
            cur.extend_from_slice(c);
            if i + 1 == comps.len() { m.insert(cur.clone(), n.clone()); } else { m.entry(cur.clone()).or_insert(Node::Dir); }
        }
    }
}

fn bytes(e: &mut Eng, st: &mut State, v: Vec<B>) -> X<Vec<u8>> {
    let mut o = vec![];
    for b in v { o.push(match b { B::C(k) => k, B::S(x) => e.conc(st, x)? as u8 }); }
    Ok(o)
}
fn mem<T>(r: Result<T, String>) -> X<T> { r.map_err(|m| Stop::Violation("memory".into(), m)) }

pub fn call(e: &mut Eng, st: &mut State, bi: Bi, k: &[u64], rw: u16) -> X<u64> {
    let mut opts: Vec<u64> = vec![];
    if st.vfs.budget > 0 && st.vfs.mask != 0 {
        let m = st.vfs.mask;
        let cand: &[u64] = match bi {
            Bi::Read => &[F_SHORT_READ, F_EINTR_READ, F_EIO_READ, F_MORE_READ, F_MORE_READ | VARIANT, F_MORE_READ | 2 * VARIANT],
            Bi::Write => &[F_SHORT_WRITE, F_EINTR_WRITE, F_ENOSPC_WRITE, F_ZERO_WRITE, F_MORE_WRITE, F_MORE_WRITE | VARIANT, F_MORE_WRITE | 2 * VARIANT],
            Bi::Statx => &[F_SIZE, F_SIZE | VARIANT, F_SIZE | 2 * VARIANT, F_STAT],
            Bi::Open => if k[1] & 3 == 0 { &[F_OPEN] } else { &[F_CREATE] },
            Bi::Realpath => &[F_REALPATH],
            _ => &[],
        };
        let fdok = match bi { Bi::Read | Bi::Write => k[0] > 2, Bi::Statx => k[1] != 0 && k[4] != 0, _ => true };
        if fdok { opts = cand.iter().copied().filter(|c| m & c != 0).collect(); }
    }
    if !opts.is_empty() {
        let (_v, forks) = e.choice(st, opts.len() as u64 + 1);
        for (t, mut o) in forks.into_iter().enumerate() {
            o.vfs.budget -= 1;
            if opts[t] & (F_SHORT_READ | F_EINTR_READ | F_SHORT_WRITE | F_EINTR_WRITE | F_MORE_READ | F_MORE_WRITE | F_SIZE) == 0 { o.vfs.hard += if opts[t] == F_STAT { 1 << 16 } else { 1 }; }
            match op(e, &mut o, bi, k, rw, opts[t]) {
                Ok(r) => { e.finish_call(&mut o, Val::C(r)); e.forked.push(o); }
                Err(Stop::Violation(a, b)) => e.soft.push((o, a, b)),
                Err(x) => return Err(x),
            }
        }
    }
    op(e, st, bi, k, rw, 0)
}

fn op(e: &mut Eng, st: &mut State, bi: Bi, k: &[u64], rw: u16, fault: u64) -> X<u64> {
    let neg = crate::expr::mask(if rw == 0 { 64 } else { rw });
    macro_rules! err { ($n:expr) => {{ e.set_errno(st, $n)?; return Ok(neg); }} }
    let path = |e: &mut Eng, st: &mut State, p: u64| -> X<Vec<u8>> { let v = mem(st.mem.cstr(p))?; bytes(e, st, v) };
    match bi {
        Bi::FsAdd => {
            // rs_fs_add(path, plen, data, dlen, kind)
            let (mut p, mut d) = (vec![], vec![]);
            mem(st.mem.read_bytes(k[0], k[1], &mut p))?;
            mem(st.mem.read_bytes(k[2], k[3], &mut d))?;
            let p = bytes(e, st, p)?;
            let n = match k[4] { 0 => Node::File(Rc::new(d)), 1 => Node::Dir, _ => Node::Link(Rc::new(bytes(e, st, d)?)) };
            st.vfs.add(&p, n);
            Ok(0)
        }
        Bi::FsMode => { st.vfs.mask = k[0]; st.vfs.budget = k[1]; Ok(0) }
        Bi::FsCount => Ok(if k[0] == 0 { st.vfs.opens } else if k[0] == 2 { st.vfs.hard } else { st.vfs.fds.iter().filter(|f| f.is_some()).count() as u64 }),
        Bi::FsGet => {
            let mut p = vec![];
            mem(st.mem.read_bytes(k[0], k[1], &mut p))?;
            let p = bytes(e, st, p)?;
            let c = match st.vfs.resolve(&p, false) { Ok(c) => c, Err(_) => return Ok(u64::MAX) };
            match st.vfs.nodes.get(&c) {
                Some(Node::File(d)) => { let d = d.clone(); let n = d.len().min(k[3] as usize); mem(st.mem.write_bytes(k[2], &d[..n]))?; Ok(d.len() as u64) }
                _ => Ok(u64::MAX),
            }
        }
        Bi::Open => {
            let p = path(e, st, k[0])?;
            if fault != 0 { err!(13); }
            let flags = k[1];
            let write = flags & 3 != 0;
            let c = match st.vfs.resolve(&p, flags & 0o100 != 0) { Ok(c) => c, Err(n) => err!(n) };
            let is_dir = c == b"/" || matches!(st.vfs.nodes.get(&c), Some(Node::Dir));
            if is_dir && write { err!(21); }
            if write && (flags & 0o1000 != 0 || !st.vfs.nodes.contains_key(&c)) { Rc::make_mut(&mut st.vfs.nodes).insert(c.clone(), Node::File(Rc::new(vec![]))); }
            st.vfs.opens += 1;
            let fds = Rc::make_mut(&mut st.vfs.fds);
            let fd = Fd { path: Rc::new(c), pos: 0, dir: is_dir, write };
            let i = match fds.iter().position(|f| f.is_none()) { Some(i) => { fds[i] = Some(fd); i } None => { fds.push(Some(fd)); fds.len() - 1 } };
            Ok(i as u64 + 3)
        }
        Bi::Close => {
            let i = (k[0] as u32 as i64 - 3) as usize;
            let fds = Rc::make_mut(&mut st.vfs.fds);
            match fds.get_mut(i) { Some(f) if f.is_some() => { *f = None; Ok(0) } _ => err!(9) }
        }
        Bi::Read => {
            let i = (k[0] as u32 as i64 - 3) as usize;
            let fd = match st.vfs.fds.get(i) { Some(Some(f)) => f.clone(), _ => err!(9) };
            if fd.dir { err!(21); }
            if fault == F_EINTR_READ { err!(4); }
            if fault == F_EIO_READ { err!(5); }
            st.vfs.reads += 1;
            let data = match st.vfs.nodes.get(&*fd.path) { Some(Node::File(d)) => d.clone(), _ => Rc::new(vec![]) };
            let mut n = (data.len() - fd.pos.min(data.len())).min(k[2] as usize);
            if fault == F_SHORT_READ { n = n.min(1); }
            if fault & F_MORE_READ != 0 { n = n.min(LEN[(fault >> 32) as usize] as usize); }
            mem(st.mem.write_bytes(k[1], &data[fd.pos..fd.pos + n]))?;
            if let Some(Some(f)) = Rc::make_mut(&mut st.vfs.fds).get_mut(i) { f.pos += n; }
            Ok(n as u64)
        }
        Bi::Write => {
            let i = k[0] as u32 as i64 - 3;
            if i < 0 { return Ok(k[2]); }
            let fd = match st.vfs.fds.get(i as usize) { Some(Some(f)) if f.write => f.clone(), _ => err!(9) };
            if fault == F_EINTR_WRITE { err!(4); }
            if fault == F_ENOSPC_WRITE { err!(28); }
            if fault == F_ZERO_WRITE { return Ok(0); }
            let n = if fault == F_SHORT_WRITE { k[2].min(1) } else if fault & F_MORE_WRITE != 0 { k[2].min(LEN[(fault >> 32) as usize]) } else { k[2] };
            let mut d = vec![];
            mem(st.mem.read_bytes(k[1], n, &mut d))?;
            let nodes = Rc::make_mut(&mut st.vfs.nodes);
            if let Some(Node::File(f)) = nodes.get_mut(&*fd.path) {
                let f = Rc::make_mut(f);
                if f.len() < fd.pos { f.resize(fd.pos, B::C(0)); }
                for (j, b) in d.iter().enumerate() { if fd.pos + j < f.len() { f[fd.pos + j] = *b; } else { f.push(*b); } }
            }
            if let Some(Some(f)) = Rc::make_mut(&mut st.vfs.fds).get_mut(i as usize) { f.pos += n as usize; }
            Ok(n)
        }
        Bi::Writev => {
            let mut tot = 0;
            for j in 0..k[2] {
                let l = match st.mem.read_fast(k[1] + 16 * j + 8, 8) { Ok(l) => l, _ => 0 };
                tot += l;
            }
            if k[0] > 2 { return Err(Stop::Unsupported("writev".into())); }
            Ok(tot)
        }
        Bi::Fstat | Bi::Stat | Bi::Statx => {
            if fault == F_STAT { err!(13); }
            let (buf, node);
            // an inode number for each file: a hash of its path
            let ino = |p: &[u8]| p.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)) >> 8 | 1;
            let id;
            if bi == Bi::Fstat {
                let i = (k[0] as u32 as i64 - 3) as usize;
                let fd = match st.vfs.fds.get(i) { Some(Some(f)) => f.clone(), _ => err!(9) };
                buf = k[1];
                id = ino(&fd.path);
                node = st.vfs.nodes.get(&*fd.path).cloned();
            } else if bi == Bi::Stat {
                let p = path(e, st, k[0])?;
                let c = match st.vfs.resolve(&p, false) { Ok(c) => c, Err(n) => err!(n) };
                buf = k[1];
                id = ino(&c);
                node = st.vfs.nodes.get(&c).cloned();
            } else {
                if k[1] == 0 { err!(14); }
                let p = path(e, st, k[1])?;
                buf = k[4];
                if p.is_empty() {
                    let i = (k[0] as u32 as i64 - 3) as usize;
                    let fd = match st.vfs.fds.get(i) { Some(Some(f)) => f.clone(), _ => err!(9) };
                    id = ino(&fd.path);
                    node = st.vfs.nodes.get(&*fd.path).cloned();
                } else {
                    let c = match st.vfs.resolve(&p, false) { Ok(c) => c, Err(n) => err!(n) };
                    id = ino(&c);
                    node = if c == b"/" { Some(Node::Dir) } else { st.vfs.nodes.get(&c).cloned() };
                }
            }
            let (mode, mut size) = match node { Some(Node::File(d)) => (0o100644u64, d.len() as u64), _ => (0o040755, 4096) };
            if fault & F_SIZE != 0 { size = [0, 3, size + 7][(fault >> 32) as usize]; }
            let total = if bi == Bi::Statx { 256 } else { 144 };
            mem(st.mem.write_bytes(buf, &vec![B::C(0); total]))?;
            let mut w = |off: u64, n: u64, v: u64| -> X<()> { for j in 0..n { mem(st.mem.write_byte(buf + off + j, B::C((v >> (8 * j)) as u8)))?; } Ok(()) };
            if bi == Bi::Statx { w(0, 4, 0x7ff)?; w(4, 4, 4096)?; w(16, 4, 1)?; w(28, 2, mode)?; w(32, 8, id)?; w(40, 8, size)?; }
            else { w(8, 8, id)?; w(16, 8, 1)?; w(24, 4, mode)?; w(48, 8, size)?; w(56, 8, 4096)?; }
            Ok(0)
        }
        Bi::Lseek => {
            let i = (k[0] as u32 as i64 - 3) as usize;
            let fd = match st.vfs.fds.get(i) { Some(Some(f)) => f.clone(), _ => err!(9) };
            let len = match st.vfs.nodes.get(&*fd.path) { Some(Node::File(d)) => d.len() as i64, _ => 0 };
            let np = match k[2] { 0 => k[1] as i64, 1 => fd.pos as i64 + k[1] as i64, _ => len + k[1] as i64 };
            if np < 0 { err!(22); }
            if let Some(Some(f)) = Rc::make_mut(&mut st.vfs.fds).get_mut(i) { f.pos = np as usize; }
            Ok(np as u64)
        }
        Bi::Realpath => {
            let p = path(e, st, k[0])?;
            if fault != 0 { e.set_errno(st, 13)?; return Ok(0); }
            match st.vfs.resolve(&p, false) {
                Err(n) => { e.set_errno(st, n)?; Ok(0) }
                Ok(mut c) => {
                    c.push(0);
                    let b = if k[1] != 0 { k[1] } else { st.mem.alloc(c.len() as u64, 16) };
                    let v: Vec<B> = c.into_iter().map(B::C).collect();
                    mem(st.mem.write_bytes(b, &v))?;
                    Ok(b)
                }
            }
        }
        Bi::Readlink => err!(22),
        Bi::Getcwd => {
            let mut v: Vec<B> = CWD.iter().map(|c| B::C(*c)).collect();
            v.push(B::C(0));
            if (v.len() as u64) > k[1] { e.set_errno(st, 34)?; return Ok(0); }
            mem(st.mem.write_bytes(k[0], &v))?;
            Ok(k[0])
        }
        _ => Err(Stop::Unsupported(format!("{:?}", bi))),
    }
}
