//! Interface to the symbolic executor (or, when replaying, to the recorded inputs), and the
//! stand-ins for the environment: clock, random numbers, sockets.

use std::alloc::{GlobalAlloc, Layout};
use std::net::SocketAddr;

mod ext {
    extern "C" {
        pub fn usym_u8() -> u8;
        pub fn usym_u16() -> u16;
        pub fn usym_u32() -> u32;
        pub fn usym_u64() -> u64;
        pub fn usym_range(lo: u64, hi: u64) -> u64;
        pub fn usym_choice(n: u64) -> u64;
        pub fn usym_assume(c: bool);
        pub fn usym_check(c: bool, msg: *const u8, len: usize);
        pub fn usym_reach(id: u32);
        pub fn usym_trace(v: u64);
        pub fn usym_concretize(v: u64) -> u64;
        pub fn usym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn usym_bytes(p: *mut u8, n: usize);
        pub fn usym_heap_live() -> u64;
        pub fn usym_heap_count() -> u64;
        pub fn usym_budget(n: u64);
        pub fn usym_steps() -> u64;
        pub fn usym_param(i: u64) -> u64;
        pub fn usym_print(p: *const u8, n: usize);
        pub fn usym_print_u64(v: u64);
        pub fn usym_alloc(size: usize, align: usize) -> *mut u8;
        pub fn usym_alloc_zeroed(size: usize, align: usize) -> *mut u8;
        pub fn usym_dealloc(p: *mut u8, size: usize, align: usize);
        pub fn usym_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
    }
}

/// Every heap block goes through the executor, which checks the allocator contract.
pub struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ext::usym_alloc(l.size(), l.align())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ext::usym_alloc_zeroed(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ext::usym_dealloc(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        ext::usym_realloc(p, l.size(), l.align(), new)
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

// ---- symbolic inputs

pub fn any_u8() -> u8 { unsafe { ext::usym_u8() } }
pub fn any_u16() -> u16 { unsafe { ext::usym_u16() } }
pub fn any_u32() -> u32 { unsafe { ext::usym_u32() } }
pub fn any_u64() -> u64 { unsafe { ext::usym_u64() } }
pub fn any_bool() -> bool { unsafe { ext::usym_u8() & 1 != 0 } }
/// lo <= result <= hi, symbolic
pub fn range(lo: u64, hi: u64) -> u64 { unsafe { ext::usym_range(lo, hi) } }
/// 0 <= result < n, each value explored as a separate path
pub fn choice(n: u64) -> u64 { unsafe { ext::usym_choice(n) } }
pub fn pick(v: &[u64]) -> u64 { v[choice(v.len() as u64) as usize] }
pub fn fork_bool() -> bool { choice(2) == 1 }
pub fn fill(b: &mut [u8]) { unsafe { ext::usym_bytes(b.as_mut_ptr(), b.len()) } }
pub fn assume(c: bool) { unsafe { ext::usym_assume(c) } }
pub fn reach(id: u32) { unsafe { ext::usym_reach(id) } }
/// A value to compare between symbolic and native runs
pub fn trace(v: u64) { unsafe { ext::usym_trace(v) } }
/// A frame, by its length and checksum
pub fn trace_frame(d: &[u8]) {
    let mut v = d.len() as u64;
    for b in &d[d.len().saturating_sub(4)..] {
        v = v << 8 | *b as u64;
    }
    trace(v)
}
pub fn conc(v: u64) -> u64 { unsafe { ext::usym_concretize(v) } }
/// Branch-free selection
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { ext::usym_ite(c, a, b) } }
pub fn heap_live() -> u64 { unsafe { ext::usym_heap_live() } }
pub fn heap_count() -> u64 { unsafe { ext::usym_heap_count() } }
/// The code up to the next call must finish within n steps (0: default limit)
pub fn budget(n: u64) { unsafe { ext::usym_budget(n) } }
pub fn steps() -> u64 { unsafe { ext::usym_steps() } }
pub fn param(i: u64) -> u64 { unsafe { ext::usym_param(i) } }
pub fn print(s: &str) { unsafe { ext::usym_print(s.as_ptr(), s.len()) } }
pub fn print_u64(v: u64) { unsafe { ext::usym_print_u64(v) } }
pub fn check_(c: bool, m: &str) { unsafe { ext::usym_check(c, m.as_ptr(), m.len()) } }

#[macro_export]
macro_rules! check {
    ($c:expr, $m:expr) => {
        $crate::rt::check_($c, $m)
    };
}

// ---- environment

/// How the code under test gets its random numbers
#[derive(Clone, Copy, PartialEq)]
pub enum Rand {
    /// a fixed sequence
    Fixed,
    /// one symbolic bit
    Bit,
    /// 20 fixed bits (a sequence), above them 12 symbolic ones
    High,
    /// 32 symbolic bits
    Full,
}

pub struct Env {
    pub ms: u64,
    pub ns: u32,
    pub rand: Rand,
    pub seed: u32,
    pub next_port: u16,
    pub sent: Vec<Dgram>,
    pub inbox: Vec<Dgram>,
    /// random numbers handed out
    pub drawn: Vec<u32>,
    /// random numbers to hand out next
    pub tape: Vec<u32>,
}

#[derive(Clone)]
pub struct Dgram {
    pub socket: usize,
    pub peer: SocketAddr,
    pub data: Vec<u8>,
}

static mut ENV: Env = Env {
    ms: 0,
    ns: 0,
    rand: Rand::Fixed,
    seed: 1,
    next_port: 1,
    sent: Vec::new(),
    inbox: Vec::new(),
    drawn: Vec::new(),
    tape: Vec::new(),
};

#[allow(static_mut_refs)]
pub fn env() -> &'static mut Env {
    unsafe { &mut ENV }
}

pub fn at(ms: u64) {
    env().ms = ms;
    env().ns = 0;
}

/// Frees what the environment itself holds on the heap
pub fn env_clear() {
    let e = env();
    e.sent = Vec::new();
    e.inbox = Vec::new();
    e.drawn = Vec::new();
    e.tape = Vec::new();
}

#[no_mangle]
fn uflow_verif_now() -> (u64, u32) {
    (env().ms, env().ns)
}

#[no_mangle]
fn uflow_verif_random() -> u32 {
    let e = env();
    if !e.tape.is_empty() {
        return e.tape.remove(0);
    }
    let mut fixed = || {
        e.seed = e.seed.wrapping_mul(1664525).wrapping_add(1013904223);
        e.seed ^ (e.seed >> 13)
    };
    let v = match e.rand {
        Rand::Fixed => fixed(),
        Rand::High => (fixed() & 0xFFFFF) | (any_u16() as u32) << 20,
        Rand::Bit => any_u8() as u32 & 1,
        Rand::Full => any_u32(),
    };
    e.drawn.push(v);
    v
}

/// The socket's handle is its port number.
#[no_mangle]
fn uflow_verif_bind(addr: SocketAddr) -> (usize, SocketAddr) {
    let e = env();
    let mut a = addr;
    if a.port() == 0 {
        a.set_port(10000 + e.next_port);
        e.next_port += 1;
    }
    (a.port() as usize, a)
}

#[no_mangle]
fn uflow_verif_send(socket: usize, to: SocketAddr, data: &[u8]) {
    trace_frame(data);
    env().sent.push(Dgram { socket, peer: to, data: data.to_vec() });
}

#[no_mangle]
fn uflow_verif_recv(socket: usize, buf: &mut [u8]) -> Option<(usize, SocketAddr)> {
    let e = env();
    let i = e.inbox.iter().position(|d| d.socket == socket)?;
    let d = e.inbox.remove(i);
    let n = d.data.len().min(buf.len());
    buf[..n].copy_from_slice(&d.data[..n]);
    Some((n, d.peer))
}

// ---- checksums

/// The checksum, bit by bit: x^32 + x^29 + ... + 1 = 0x132c00699, reflected
pub fn ref_crc(b: &[u8]) -> u32 {
    let mut reg = !0u32;
    for &x in b {
        reg ^= x as u32;
        for _ in 0..8 {
            reg = (reg >> 1) ^ (0x9960034C & (reg & 1).wrapping_neg());
        }
    }
    !reg
}

pub fn seal(b: &mut [u8]) {
    let n = b.len();
    let c = ref_crc(&b[..n - 4]);
    b[n - 4..].copy_from_slice(&c.to_be_bytes());
}
