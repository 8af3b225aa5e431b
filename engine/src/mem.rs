//! Copy-on-write memory. An address is (object number << 32) + offset.
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

pub const CHUNK: usize = 256;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct SB {
    pub e: E,
    pub k: u32,
}

#[derive(Clone)]
pub struct Chunk {
    pub b: [u8; CHUNK],
    pub s: Option<Box<[SB; CHUNK]>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Const,
    Global,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub chunks: Vec<Rc<Chunk>>,
}

const PAGE: usize = 64;
type Page = [Option<Rc<Obj>>; PAGE];

pub const STACK_BASE: u64 = 0x6000_0000;

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Rc<Page>>,
    pub stack: Vec<Option<Rc<Obj>>>,
    pub next: u64,
    pub heap_bytes: u64,
    pub heap_count: u64,
    pub allocs: u64,
    zero: Rc<Chunk>,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    W(Rc<(Val, Val)>),
    Agg(Rc<Vec<Val>>),
}

pub type MR<T> = Result<T, String>;

impl Mem {
    pub fn new(m: &Module) -> Self {
        let zero = Rc::new(Chunk { b: [0; CHUNK], s: None });
        let mut mem = Mem { pages: vec![], stack: vec![], next: 1, heap_bytes: 0, heap_count: 0, allocs: 0, zero };
        for (i, g) in m.globals.iter().enumerate() {
            let d = &m.global_data[i];
            let kind = if g.constant { Kind::Const } else { Kind::Global };
            let mut o = mem.new_obj(d.len() as u64, g.align, kind);
            for (j, c) in d.chunks(CHUNK).enumerate() {
                if c.iter().any(|x| *x != 0) {
                    let ch = Rc::make_mut(&mut o.chunks[j]);
                    ch.b[..c.len()].copy_from_slice(c);
                }
            }
            let id = mem.next;
            mem.next += 1;
            mem.put(id, Some(Rc::new(o)));
        }
        mem
    }
    fn new_obj(&self, size: u64, align: u64, kind: Kind) -> Obj {
        let n = (size as usize + CHUNK - 1) / CHUNK;
        Obj { size, align, kind, chunks: vec![self.zero.clone(); n] }
    }
    fn put(&mut self, id: u64, o: Option<Rc<Obj>>) {
        let p = id as usize / PAGE;
        while self.pages.len() <= p {
            self.pages.push(Rc::new(std::array::from_fn(|_| None)));
        }
        Rc::make_mut(&mut self.pages[p])[id as usize % PAGE] = o;
    }
    pub fn alloc_heap(&mut self, size: u64, align: u64) -> u64 {
        let o = self.new_obj(size, align, Kind::Heap);
        let id = self.next;
        self.next += 1;
        self.put(id, Some(Rc::new(o)));
        self.heap_bytes += size;
        self.heap_count += 1;
        self.allocs += 1;
        id << 32
    }
    pub fn free_heap(&mut self, addr: u64, size: u64, align: u64) -> MR<()> {
        let id = addr >> 32;
        let (osz, oal, kind) = match self.get(addr) {
            Some(o) => (o.size, o.align, o.kind),
            None => return Err(format!("heap block {:#x} released twice or never allocated", addr)),
        };
        if kind != Kind::Heap || addr & 0xffff_ffff != 0 {
            return Err(format!("released address {:#x} is not the start of a heap block", addr));
        }
        self.put(id, None);
        self.heap_bytes -= osz;
        self.heap_count -= 1;
        if osz != size || oal != align {
            return Err(format!("heap block allocated with size {} align {} released with size {} align {}", osz, oal, size, align));
        }
        Ok(())
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let o = self.new_obj(size, align, Kind::Stack);
        let id = STACK_BASE + self.stack.len() as u64;
        self.stack.push(Some(Rc::new(o)));
        id << 32
    }
    #[inline]
    pub fn get(&self, addr: u64) -> Option<&Obj> {
        let id = addr >> 32;
        if id >= STACK_BASE {
            match self.stack.get((id - STACK_BASE) as usize) {
                Some(Some(o)) => Some(o),
                _ => None,
            }
        } else {
            match self.pages.get(id as usize / PAGE) {
                Some(p) => p[id as usize % PAGE].as_deref(),
                None => None,
            }
        }
    }
    #[inline]
    fn get_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let id = addr >> 32;
        if id >= STACK_BASE {
            match self.stack.get_mut((id - STACK_BASE) as usize) {
                Some(Some(o)) => Some(Rc::make_mut(o)),
                _ => None,
            }
        } else {
            match self.pages.get_mut(id as usize / PAGE) {
                Some(p) => {
                    if p[id as usize % PAGE].is_none() {
                        return None;
                    }
                    Rc::make_mut(p)[id as usize % PAGE].as_mut().map(Rc::make_mut)
                }
                None => None,
            }
        }
    }
    fn fault(&self, addr: u64, n: u64, what: &str) -> String {
        match self.get(addr) {
            None => format!("{} of {} bytes at invalid address {:#x}", what, n, addr),
            Some(o) => format!("{} of {} bytes at offset {} of a {}-byte object ({:?})", what, n, addr as u32, o.size, o.kind),
        }
    }
    #[inline]
    pub fn check(&self, addr: u64, n: u64) -> MR<&Obj> {
        let off = addr & 0xffff_ffff;
        match self.get(addr) {
            Some(o) if off + n <= o.size => Ok(o),
            _ => Err(self.fault(addr, n, "access")),
        }
    }

    /// Loads n <= 8 bytes.
    pub fn load(&self, ar: &mut Arena, addr: u64, n: u32) -> MR<Val> {
        let o = match self.check(addr, n as u64) {
            Ok(o) => o,
            Err(_) => return Err(self.fault(addr, n as u64, "read")),
        };
        let off = (addr & 0xffff_ffff) as usize;
        let c = off / CHUNK;
        let i = off % CHUNK;
        let n = n as usize;
        if i + n <= CHUNK {
            let ch = &o.chunks[c];
            match &ch.s {
                None => {
                    let mut v = [0u8; 8];
                    v[..n].copy_from_slice(&ch.b[i..i + n]);
                    return Ok(Val::C(u64::from_le_bytes(v)));
                }
                Some(s) => {
                    if s[i..i + n].iter().all(|x| x.e == 0) {
                        let mut v = [0u8; 8];
                        v[..n].copy_from_slice(&ch.b[i..i + n]);
                        return Ok(Val::C(u64::from_le_bytes(v)));
                    }
                }
            }
        }
        // general
        let mut bytes = [(0u8, SB::default()); 8];
        for j in 0..n {
            let p = off + j;
            let ch = &o.chunks[p / CHUNK];
            bytes[j].0 = ch.b[p % CHUNK];
            if let Some(s) = &ch.s {
                bytes[j].1 = s[p % CHUNK];
            }
        }
        Ok(assemble(ar, &bytes[..n]))
    }

    pub fn store(&mut self, addr: u64, n: u32, v: &Val) -> MR<()> {
        let off = (addr & 0xffff_ffff) as usize;
        let n = n as usize;
        match self.get(addr) {
            Some(o) if off + n <= o.size as usize && o.kind != Kind::Const => {}
            _ => return Err(self.fault(addr, n as u64, "write")),
        }
        let o = self.get_mut(addr).unwrap();
        match v {
            Val::C(x) => {
                let b = x.to_le_bytes();
                let c = off / CHUNK;
                let i = off % CHUNK;
                if i + n <= CHUNK {
                    let ch = Rc::make_mut(&mut o.chunks[c]);
                    ch.b[i..i + n].copy_from_slice(&b[..n]);
                    if let Some(s) = &mut ch.s {
                        for k in i..i + n {
                            s[k].e = 0;
                        }
                    }
                } else {
                    for j in 0..n {
                        let p = off + j;
                        let ch = Rc::make_mut(&mut o.chunks[p / CHUNK]);
                        ch.b[p % CHUNK] = b[j];
                        if let Some(s) = &mut ch.s {
                            s[p % CHUNK].e = 0;
                        }
                    }
                }
            }
            Val::S(e) => {
                for j in 0..n {
                    let p = off + j;
                    let ch = Rc::make_mut(&mut o.chunks[p / CHUNK]);
                    let s = ch.s.get_or_insert_with(|| Box::new([SB::default(); CHUNK]));
                    s[p % CHUNK] = SB { e: *e, k: j as u32 };
                }
            }
            _ => return Err("store of aggregate".into()),
        }
        Ok(())
    }

    pub fn read_bytes(&self, addr: u64, n: usize, out: &mut Vec<u8>, sym: &mut Option<Vec<SB>>) -> MR<()> {
        let o = match self.check(addr, n as u64) {
            Ok(o) => o,
            Err(_) => return Err(self.fault(addr, n as u64, "read")),
        };
        let off = (addr & 0xffff_ffff) as usize;
        out.clear();
        *sym = None;
        let mut p = off;
        let end = off + n;
        while p < end {
            let i = p % CHUNK;
            let l = (CHUNK - i).min(end - p);
            let ch = &o.chunks[p / CHUNK];
            if let Some(s) = &ch.s {
                if s[i..i + l].iter().any(|x| x.e != 0) {
                    let v = sym.get_or_insert_with(|| vec![SB::default(); n]);
                    v[p - off..p - off + l].copy_from_slice(&s[i..i + l]);
                }
            }
            out.extend_from_slice(&ch.b[i..i + l]);
            p += l;
        }
        Ok(())
    }

    pub fn write_bytes(&mut self, addr: u64, b: &[u8], sym: &Option<Vec<SB>>) -> MR<()> {
        let off = (addr & 0xffff_ffff) as usize;
        let n = b.len();
        match self.get(addr) {
            Some(o) if off + n <= o.size as usize && o.kind != Kind::Const => {}
            _ => return Err(self.fault(addr, n as u64, "write")),
        }
        let o = self.get_mut(addr).unwrap();
        let mut p = off;
        let end = off + n;
        while p < end {
            let i = p % CHUNK;
            let l = (CHUNK - i).min(end - p);
            let r = p - off;
            let ch = Rc::make_mut(&mut o.chunks[p / CHUNK]);
            ch.b[i..i + l].copy_from_slice(&b[r..r + l]);
            match sym {
                Some(sv) if sv[r..r + l].iter().any(|x| x.e != 0) => {
                    let s = ch.s.get_or_insert_with(|| Box::new([SB::default(); CHUNK]));
                    s[i..i + l].copy_from_slice(&sv[r..r + l]);
                }
                _ => {
                    if let Some(s) = &mut ch.s {
                        for k in i..i + l {
                            s[k].e = 0;
                        }
                    }
                }
            }
            p += l;
        }
        Ok(())
    }
}

pub fn byte_expr(ar: &mut Arena, b: u8, s: SB) -> E {
    if s.e == 0 { ar.c(b as u64, 8) } else { ar.extract(s.e, (s.k * 8) as u8, 8) }
}

/// Little-endian assembly of up to 8 bytes.
pub fn assemble(ar: &mut Arena, bytes: &[(u8, SB)]) -> Val {
    let n = bytes.len();
    let s0 = bytes[0].1;
    if s0.e != 0 && bytes.iter().enumerate().all(|(j, x)| x.1.e == s0.e && x.1.k == s0.k + j as u32) {
        let e = ar.extract(s0.e, (s0.k * 8) as u8, (n * 8) as u8);
        return norm(ar, e);
    }
    let mut e = byte_expr(ar, bytes[n - 1].0, bytes[n - 1].1);
    for j in (0..n - 1).rev() {
        let x = byte_expr(ar, bytes[j].0, bytes[j].1);
        e = ar.concat(e, x);
    }
    norm(ar, e)
}

pub fn norm(ar: &Arena, e: E) -> Val {
    match ar.cv(e) {
        Some(v) => Val::C(v),
        None => Val::S(e),
    }
}
