//! Runs one harness entry natively on recorded inputs: `ureplay FILE`.
//! Exit 0: ran to the end without a violation. Exit 1: violation reproduced (message on stderr).
//! Exit 3: the inputs do not fit the run (an assumption is not met, or too few of them).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

// None of this may allocate through the harness's global allocator while accounting, so the
// tables are fixed in size or grown through System directly.
struct St {
    inputs: [u64; 1 << 16],
    kinds: [u8; 1 << 16],
    n: usize,
    next: usize,
    params: [u64; 64],
    /// open-addressing table of live blocks: address, size, align
    live: [(usize, usize, usize); 1 << 20],
    live_bytes: u64,
    live_count: u64,
    counting: bool,
    nchecks: u64,
    digest: u64,
}
struct Cell(UnsafeCell<St>);
unsafe impl Sync for Cell {}
static ST: Cell = Cell(UnsafeCell::new(St {
    inputs: [0; 1 << 16],
    kinds: [0; 1 << 16],
    n: 0,
    next: 0,
    params: [0; 64],
    live: [(0, 0, 0); 1 << 20],
    live_bytes: 0,
    live_count: 0,
    counting: false,
    nchecks: 0,
    digest: 0,
}));
fn st() -> &'static mut St {
    unsafe { &mut *ST.0.get() }
}

fn fail(kind: &str, msg: &str) -> ! {
    st().counting = false;
    eprintln!("REPLAY {}: {}", kind, msg);
    std::process::exit(1)
}
fn misfit(msg: &str) -> ! {
    st().counting = false;
    eprintln!("REPLAY misfit: {}", msg);
    std::process::exit(3)
}

fn input(kind: &str) -> u64 {
    let s = st();
    if s.next >= s.n {
        // inputs after the point of violation are unconstrained
        s.next += 1;
        return 0;
    }
    let i = s.next;
    s.next += 1;
    if s.kinds[i] != kind.as_bytes()[0] {
        misfit("kind of input");
    }
    s.inputs[i]
}

#[no_mangle]
extern "C" fn usym_u8() -> u8 { input("b") as u8 }
#[no_mangle]
extern "C" fn usym_u16() -> u16 { input("h") as u16 }
#[no_mangle]
extern "C" fn usym_u32() -> u32 { input("w") as u32 }
#[no_mangle]
extern "C" fn usym_u64() -> u64 { input("q") }
#[no_mangle]
extern "C" fn usym_range(lo: u64, hi: u64) -> u64 { input("r").clamp(lo, hi) }
#[no_mangle]
extern "C" fn usym_choice(n: u64) -> u64 { input("c").min(n - 1) }
#[no_mangle]
extern "C" fn usym_assume(c: bool) {
    if !c {
        misfit("assumption");
    }
}
#[no_mangle]
extern "C" fn usym_check(c: bool, p: *const u8, n: usize) {
    st().nchecks += 1;
    if !c {
        let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        fail("check", m);
    }
}
#[no_mangle]
extern "C" fn usym_reach(id: u32) { usym_trace(id as u64 | 1 << 63) }
#[no_mangle]
extern "C" fn usym_trace(v: u64) {
    let s = st();
    s.digest = (s.digest.rotate_left(5) ^ v).wrapping_mul(0x9E3779B97F4A7C15);
}
#[no_mangle]
extern "C" fn usym_concretize(v: u64) -> u64 { v }
#[no_mangle]
extern "C" fn usym_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
#[no_mangle]
extern "C" fn usym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = input("b") as u8 };
    }
}
#[no_mangle]
extern "C" fn usym_heap_live() -> u64 { st().live_bytes }
#[no_mangle]
extern "C" fn usym_heap_count() -> u64 { st().live_count }
#[no_mangle]
extern "C" fn usym_budget(_n: u64) {}
#[no_mangle]
extern "C" fn usym_steps() -> u64 { 0 }
#[no_mangle]
extern "C" fn usym_param(i: u64) -> u64 { st().params[i as usize & 63] }
#[no_mangle]
extern "C" fn usym_print(p: *const u8, n: usize) {
    let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    let c = std::mem::replace(&mut st().counting, false);
    eprint!("{}", m);
    st().counting = c;
}
#[no_mangle]
extern "C" fn usym_print_u64(v: u64) {
    let c = std::mem::replace(&mut st().counting, false);
    eprint!("{}", v);
    st().counting = c;
}

fn slot(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E3779B97F4A7C15) >> 44
}
fn note(p: usize, size: usize, align: usize) {
    let s = st();
    if !s.counting || p == 0 {
        return;
    }
    let mut i = slot(p);
    while s.live[i].0 > 1 {
        i = (i + 1) & ((1 << 20) - 1);
    }
    s.live[i] = (p, size, align);
    s.live_bytes += size as u64;
    s.live_count += 1;
}
fn unnote(p: usize, size: usize, align: usize) {
    let s = st();
    let mut i = slot(p);
    loop {
        if s.live[i].0 == p {
            break;
        }
        if s.live[i].0 == 0 {
            // allocated before accounting began
            return;
        }
        i = (i + 1) & ((1 << 20) - 1);
    }
    let (_, sz, al) = s.live[i];
    s.live[i].0 = 1;
    s.live_bytes -= sz as u64;
    s.live_count -= 1;
    if s.counting && (sz != size || al != align) {
        s.counting = false;
        eprintln!("block of size {} align {} released as size {} align {}", sz, al, size, align);
        fail("heap", "deallocation with wrong layout");
    }
}
#[no_mangle]
extern "C" fn usym_alloc(size: usize, align: usize) -> *mut u8 {
    let p = unsafe { System.alloc(Layout::from_size_align_unchecked(size, align)) };
    note(p as usize, size, align);
    p
}
#[no_mangle]
extern "C" fn usym_alloc_zeroed(size: usize, align: usize) -> *mut u8 {
    let p = unsafe { System.alloc_zeroed(Layout::from_size_align_unchecked(size, align)) };
    note(p as usize, size, align);
    p
}
#[no_mangle]
extern "C" fn usym_dealloc(p: *mut u8, size: usize, align: usize) {
    unnote(p as usize, size, align);
    unsafe { System.dealloc(p, Layout::from_size_align_unchecked(size, align)) }
}
#[no_mangle]
extern "C" fn usym_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8 {
    let q = usym_alloc(new, align);
    unsafe { std::ptr::copy_nonoverlapping(p, q, size.min(new)) };
    usym_dealloc(p, size, align);
    q
}

fn main() {
    let path = std::env::args().nth(1).expect("file");
    let text = std::fs::read_to_string(&path).expect("readable file");
    let mut entry = String::new();
    let mut seconds = 60;
    for l in text.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("entry") => entry = w.next().unwrap().to_string(),
            Some("timeout") => seconds = w.next().unwrap().parse().unwrap(),
            Some("params") => {
                for (i, x) in w.enumerate() {
                    st().params[i] = x.parse().unwrap();
                }
            }
            Some("inputs") => {
                for x in w {
                    let s = st();
                    s.kinds[s.n] = x.as_bytes()[0];
                    s.inputs[s.n] = x[1..].parse().unwrap();
                    s.n += 1;
                }
            }
            _ => (),
        }
    }
    let f = uharness::entries().into_iter().find(|e| e.0 == entry).expect("known entry").1;
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(seconds));
        eprintln!("REPLAY hang: no result after {} s", seconds);
        std::process::exit(1);
    });
    // the run has a thread of its own, with the counters started there
    std::panic::set_hook(Box::new(|i| {
        st().counting = false;
        eprintln!("REPLAY panic: {}", i);
        std::process::exit(1);
    }));
    st().counting = true;
    f();
    st().counting = false;
    usym_trace(st().nchecks);
    println!("{}", st().digest);
    eprintln!("REPLAY ok: ran to the end without a violation");
}
