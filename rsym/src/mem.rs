//! Byte-precise copy-on-write memory of one execution state.
use crate::expr::E;
use crate::ir::GLOBAL_BASE;
use std::rc::Rc;

pub const PG: usize = 512;
pub const PG_SH: u32 = 9;
const CH: usize = 32;
pub const HEAP_BASE: u64 = 0x2_0000_0000;
pub const STACK_BASE: u64 = 0x3_0000_0000;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PG],
    pub valid: [u64; PG / 64],
    pub sym: Option<Box<[E; PG]>>, // expression id + 1, 0 = concrete
}
impl Page {
    fn new() -> Page { Page { data: [0xA5; PG], valid: [0; PG / 64], sym: None } }
}
#[derive(Clone, Default)]
struct Chunk { p: [Option<Rc<Page>>; CH] }

#[derive(Clone, Default)]
struct Region { c: Vec<Option<Rc<Chunk>>> }

impl Region {
    #[inline]
    fn page(&self, off: u32) -> Option<&Page> {
        let pn = (off >> PG_SH) as usize;
        match self.c.get(pn / CH) { Some(Some(c)) => c.p[pn % CH].as_deref(), _ => None }
    }
    #[inline]
    fn page_mut(&mut self, off: u32, create: bool) -> Option<&mut Page> {
        let pn = (off >> PG_SH) as usize;
        let ci = pn / CH;
        if ci >= self.c.len() { if !create { return None; } self.c.resize(ci + 1, None); }
        let c = &mut self.c[ci];
        if c.is_none() { if !create { return None; } *c = Some(Rc::new(Chunk::default())); }
        let c = Rc::make_mut(c.as_mut().unwrap());
        let p = &mut c.p[pn % CH];
        if p.is_none() { if !create { return None; } *p = Some(Rc::new(Page::new())); }
        Some(Rc::make_mut(p.as_mut().unwrap()))
    }
    fn drop_page(&mut self, off: u32) {
        let pn = (off >> PG_SH) as usize;
        if let Some(Some(c)) = self.c.get_mut(pn / CH) { Rc::make_mut(c).p[pn % CH] = None; }
    }
}

#[derive(Clone)]
pub struct Mem {
    r: [Region; 3], // globals, heap, stack
    pub brk: u64,
    pub sp: u64,
    pub const_ranges: Rc<Vec<(u64, u64)>>,
    pub heap_bytes: u64,
    pub heap_live: i64,
    pub multi: bool,
}

pub type MR<T> = Result<T, String>;

#[derive(Clone, Copy, Debug)]
pub enum B { C(u8), S(E) }

impl Mem {
    pub fn new() -> Mem {
        Mem { r: Default::default(), brk: HEAP_BASE + 64, sp: STACK_BASE + 64, const_ranges: Rc::new(vec![]), heap_bytes: 0, heap_live: 0, multi: false }
    }
    #[inline]
    fn region(addr: u64) -> usize { (addr >> 32).wrapping_sub(GLOBAL_BASE >> 32) as usize }

    pub fn map(&mut self, addr: u64, size: u64) {
        let r = Self::region(addr);
        let mut a = addr;
        let end = addr + size;
        while a < end {
            let o = (a & (PG as u64 - 1)) as usize;
            let n = ((end - a) as usize).min(PG - o);
            let p = self.r[r].page_mut(a as u32, true).unwrap();
            set_bits(&mut p.valid, o, n, true);
            if r == 1 { p.data[o..o + n].fill(0xA5); }
            a += n as u64;
        }
    }
    pub fn unmap(&mut self, addr: u64, size: u64) {
        let r = Self::region(addr);
        let mut a = addr;
        let end = addr + size;
        while a < end {
            let o = (a & (PG as u64 - 1)) as usize;
            let n = ((end - a) as usize).min(PG - o);
            let mut empty = false;
            // interior pages wholly inside the block can be dropped
            if o == 0 && n == PG { empty = true; }
            else if let Some(p) = self.r[r].page_mut(a as u32, false) { set_bits(&mut p.valid, o, n, false); }
            if empty { self.r[r].drop_page(a as u32); }
            a += n as u64;
        }
    }
    pub fn poke(&mut self, addr: u64, data: &[u8]) {
        let r = Self::region(addr);
        for (i, &b) in data.iter().enumerate() {
            let a = addr + i as u64;
            let p = self.r[r].page_mut(a as u32, true).unwrap();
            p.data[(a & (PG as u64 - 1)) as usize] = b;
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let align = align.max(16);
        // [pad][16-byte header: size][block][16-byte red zone]
        let a = (self.brk + 16 + align - 1) / align * align;
        self.poke(a - 16, &size.to_le_bytes());
        self.poke(a - 8, b"rsymblk!");
        if size > 0 { self.map(a, size); }
        self.brk = (a + size + 16 + 15) / 16 * 16;
        self.heap_bytes += size;
        self.heap_live += 1;
        a
    }
    /// size of the live block starting at addr
    pub fn block_size(&self, addr: u64) -> MR<u64> {
        if Self::region(addr) != 1 || addr & 15 != 0 { return Err(format!("free/realloc of a non-heap pointer {:#x}", addr)); }
        let h = addr - 16;
        let p = self.r[1].page(h as u32).ok_or("free/realloc of an unknown block")?;
        let o = (h & (PG as u64 - 1)) as usize;
        match &p.data[o + 8..o + 16] {
            b"rsymblk!" => Ok(u64::from_le_bytes(p.data[o..o + 8].try_into().unwrap())),
            b"rsymfree" => Err(format!("double free of {:#x}", addr)),
            _ => Err(format!("free/realloc of {:#x}, which is not the start of a block", addr)),
        }
    }
    pub fn free(&mut self, addr: u64) -> MR<()> {
        let n = self.block_size(addr)?;
        self.poke(addr - 8, b"rsymfree");
        self.unmap(addr, n);
        self.heap_live -= 1;
        Ok(())
    }

    #[inline]
    fn check(&self, addr: u64, n: usize, write: bool) -> MR<usize> {
        let r = Self::region(addr);
        match r {
            2 => { if addr < STACK_BASE + 64 || (addr + n as u64 > self.sp && !self.multi) { return Err(format!("stack access out of bounds at {:#x} size {}", addr, n)); } }
            0 if write => {
                let v = &self.const_ranges;
                let i = v.partition_point(|x| x.1 <= addr);
                if i < v.len() && v[i].0 < addr + n as u64 { return Err(format!("write to constant memory at {:#x}", addr)); }
            }
            0 | 1 => {}
            _ => return Err(format!("access to invalid address {:#x} size {}", addr, n)),
        }
        Ok(r)
    }

    /// concrete fast read of n <= 8 bytes; Err(None) means symbolic bytes are involved
    #[inline]
    pub fn read_fast(&self, addr: u64, n: usize) -> Result<u64, Option<String>> {
        let r = self.check(addr, n, false).map_err(Some)?;
        let o = (addr & (PG as u64 - 1)) as usize;
        if o + n > PG { return Err(None); }
        let p = match self.r[r].page(addr as u32) { Some(p) => p, None => return if r == 2 { Ok(0xA5A5A5A5A5A5A5A5 & (u64::MAX >> (64 - 8 * n))) } else { Err(Some(format!("read from invalid address {:#x} size {}", addr, n))) } };
        if r != 2 && !bits_set(&p.valid, o, n) { return Err(Some(format!("read from invalid address {:#x} size {}", addr, n))); }
        if let Some(s) = &p.sym { if s[o..o + n].iter().any(|x| *x != 0) { return Err(None); } }
        let mut v = 0u64;
        match n {
            8 => v = u64::from_le_bytes(p.data[o..o + 8].try_into().unwrap()),
            4 => v = u32::from_le_bytes(p.data[o..o + 4].try_into().unwrap()) as u64,
            1 => v = p.data[o] as u64,
            2 => v = u16::from_le_bytes(p.data[o..o + 2].try_into().unwrap()) as u64,
            _ => for i in (0..n).rev() { v = v << 8 | p.data[o + i] as u64; },
        }
        Ok(v)
    }
    #[inline]
    pub fn write_fast(&mut self, addr: u64, n: usize, v: u64) -> Result<bool, String> {
        let r = self.check(addr, n, true)?;
        let o = (addr & (PG as u64 - 1)) as usize;
        if o + n > PG { return Ok(false); }
        let p = match self.r[r].page_mut(addr as u32, r == 2) { Some(p) => p, None => return Err(format!("write to invalid address {:#x} size {}", addr, n)) };
        if r != 2 && !bits_set(&p.valid, o, n) { return Err(format!("write to invalid address {:#x} size {}", addr, n)); }
        if let Some(s) = &mut p.sym { s[o..o + n].fill(0); }
        let b = v.to_le_bytes();
        match n { 8 => p.data[o..o + 8].copy_from_slice(&b), 4 => p.data[o..o + 4].copy_from_slice(&b[..4]), 1 => p.data[o] = b[0], _ => p.data[o..o + n].copy_from_slice(&b[..n]) }
        Ok(true)
    }
    pub fn read_byte(&self, addr: u64) -> MR<B> {
        let r = self.check(addr, 1, false)?;
        let o = (addr & (PG as u64 - 1)) as usize;
        let p = match self.r[r].page(addr as u32) { Some(p) => p, None => return if r == 2 { Ok(B::C(0xA5)) } else { Err(format!("read from invalid address {:#x}", addr)) } };
        if r != 2 && !bits_set(&p.valid, o, 1) { return Err(format!("read from invalid address {:#x}", addr)); }
        if let Some(s) = &p.sym { if s[o] != 0 { return Ok(B::S(s[o] - 1)); } }
        Ok(B::C(p.data[o]))
    }
    pub fn write_byte(&mut self, addr: u64, b: B) -> MR<()> {
        let r = self.check(addr, 1, true)?;
        let o = (addr & (PG as u64 - 1)) as usize;
        let p = match self.r[r].page_mut(addr as u32, r == 2) { Some(p) => p, None => return Err(format!("write to invalid address {:#x}", addr)) };
        if r != 2 && !bits_set(&p.valid, o, 1) { return Err(format!("write to invalid address {:#x}", addr)); }
        match b {
            B::C(v) => { p.data[o] = v; if let Some(s) = &mut p.sym { s[o] = 0; } }
            B::S(e) => {
                let s = p.sym.get_or_insert_with(|| Box::new([0; PG]));
                s[o] = e + 1;
            }
        }
        Ok(())
    }
    pub fn read_bytes(&self, addr: u64, n: u64, out: &mut Vec<B>) -> MR<()> {
        out.clear();
        if n == 0 { return Ok(()); }
        if n > 1 << 31 { return Err(format!("huge read of {} bytes at {:#x}", n, addr)); }
        let r = self.check(addr, n as usize, false)?;
        let mut a = addr;
        let end = addr + n;
        while a < end {
            let o = (a & (PG as u64 - 1)) as usize;
            let k = ((end - a) as usize).min(PG - o);
            match self.r[r].page(a as u32) {
                None if r == 2 => for _ in 0..k { out.push(B::C(0xA5)); },
                None => return Err(format!("read from invalid address {:#x} (block of {} at {:#x})", a, n, addr)),
                Some(p) => {
                    if r != 2 && !bits_set(&p.valid, o, k) { return Err(format!("read out of bounds: {} bytes at {:#x}", n, addr)); }
                    match &p.sym {
                        None => out.extend(p.data[o..o + k].iter().map(|x| B::C(*x))),
                        Some(s) => for i in o..o + k { out.push(if s[i] != 0 { B::S(s[i] - 1) } else { B::C(p.data[i]) }); },
                    }
                }
            }
            a += k as u64;
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, addr: u64, v: &[B]) -> MR<()> {
        let n = v.len() as u64;
        if n == 0 { return Ok(()); }
        let r = self.check(addr, n as usize, true)?;
        let mut a = addr;
        let end = addr + n;
        while a < end {
            let o = (a & (PG as u64 - 1)) as usize;
            let k = ((end - a) as usize).min(PG - o);
            let p = match self.r[r].page_mut(a as u32, r == 2) { Some(p) => p, None => return Err(format!("write to invalid address {:#x} (block of {} at {:#x})", a, n, addr)) };
            if r != 2 && !bits_set(&p.valid, o, k) { return Err(format!("write out of bounds: {} bytes at {:#x}", n, addr)); }
            for i in 0..k {
                match v[(a - addr) as usize + i] {
                    B::C(x) => { p.data[o + i] = x; if let Some(s) = &mut p.sym { s[o + i] = 0; } }
                    B::S(e) => { p.sym.get_or_insert_with(|| Box::new([0; PG]))[o + i] = e + 1; }
                }
            }
            a += k as u64;
        }
        Ok(())
    }
    /// memcpy fast path; buffers are copied page-wise when no symbolic bytes are involved
    pub fn copy(&mut self, dst: u64, src: u64, n: u64, tmp: &mut Vec<B>) -> MR<()> {
        if n == 0 || dst == src && n > 0 { if n > 0 { self.check(dst, n as usize, true)?; } return Ok(()); }
        if n <= 64 {
            let (od, os) = ((dst & (PG as u64 - 1)) as usize, (src & (PG as u64 - 1)) as usize);
            let n = n as usize;
            if od + n <= PG && os + n <= PG {
                let rs = self.check(src, n, false)?;
                let mut buf = [0u8; 64];
                let mut ok = false;
                match self.r[rs].page(src as u32) {
                    None if rs == 2 => { buf.fill(0xA5); ok = true; }
                    None => return Err(format!("memcpy read from invalid address {:#x} size {}", src, n)),
                    Some(p) => {
                        if rs != 2 && !bits_set(&p.valid, os, n) { return Err(format!("memcpy read out of bounds at {:#x} size {}", src, n)); }
                        if p.sym.as_ref().map_or(true, |s| s[os..os + n].iter().all(|x| *x == 0)) { buf[..n].copy_from_slice(&p.data[os..os + n]); ok = true; }
                    }
                }
                if ok {
                    let rd = self.check(dst, n, true)?;
                    let p = match self.r[rd].page_mut(dst as u32, rd == 2) { Some(p) => p, None => return Err(format!("memcpy write to invalid address {:#x} size {}", dst, n)) };
                    if rd != 2 && !bits_set(&p.valid, od, n) { return Err(format!("memcpy write out of bounds at {:#x} size {}", dst, n)); }
                    p.data[od..od + n].copy_from_slice(&buf[..n]);
                    if let Some(s) = &mut p.sym { s[od..od + n].fill(0); }
                    return Ok(());
                }
            }
        }
        let mut t = std::mem::take(tmp);
        self.read_bytes(src, n, &mut t)?;
        self.write_bytes(dst, &t)?;
        *tmp = t;
        Ok(())
    }
    pub fn cstr(&self, addr: u64) -> MR<Vec<B>> {
        let mut v = vec![];
        let mut a = addr;
        loop {
            match self.read_byte(a)? { B::C(0) => return Ok(v), b => v.push(b) }
            a += 1;
            if v.len() > 1 << 16 { return Err("unterminated C string".into()); }
        }
    }
}

#[inline]
fn bits_set(v: &[u64; PG / 64], o: usize, n: usize) -> bool {
    let (w, b) = (o / 64, o % 64);
    if b + n <= 64 {
        let m = if n == 64 { u64::MAX } else { ((1u64 << n) - 1) << b };
        return v[w] & m == m;
    }
    (o..o + n).all(|i| v[i / 64] >> (i % 64) & 1 == 1)
}
fn set_bits(v: &mut [u64; PG / 64], o: usize, n: usize, on: bool) {
    let mut i = o;
    let end = o + n;
    while i < end {
        if i % 64 == 0 && end - i >= 64 { v[i / 64] = if on { u64::MAX } else { 0 }; i += 64; continue; }
        if on { v[i / 64] |= 1 << (i % 64) } else { v[i / 64] &= !(1 << (i % 64)) }
        i += 1;
    }
}
