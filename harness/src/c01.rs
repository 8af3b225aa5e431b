//! C01: per channel, deliveries are a subsequence of the submissions, with equal contents.
use crate::link::*;
use crate::rt::*;
use crate::*;

entries!(h_c01_traffic, h_c01_reorder, h_c01_fragments, h_c01_app);

/// Base ids with symbolic high bits: every multiple of the window, wrap-around included.
fn bases(c: &mut Cfg) {
    let w = c.window as u64;
    // the low bits place the wrap between the packets of the run
    c.a_packet = ((any_u32() & (0xFFFFF / w as u32)) * w as u32 + (w as u32 - 2)) & 0xFFFFF;
    c.a_frame = (any_u32() & (0xFFFFFFFF / w as u32)) * w as u32 + (w as u32 - 2);
}

/// p0 packets over p1 rounds of p3 ms with p2 faults on the way there (and p4 on the way back), then quiet rounds.
/// Symbolic: channel, mode, contents, nonces, ids' high bits, and every frame's fate.
#[no_mangle]
pub extern "C" fn h_c01_traffic() {
    env().rand = Rand::Bit;
    let mut cfg = Cfg { window: 8, ..Cfg::default() };
    bases(&mut cfg);
    let mut w = World::new(&cfg, param(3));
    w.dev_ab = param(2);
    w.dev_ba = param(4);
    let n = param(0);
    for t in 0..param(1) {
        w.round(|w| {
            if t < n {
                let c = range(0, 1) as u8;
                let m = range(0, 3);
                w.submit(4, c, m, 1);
            }
        });
        let r = w.examine();
        if r.len() > 0 {
            reach(1);
        }
        if w.idle() {
            reach(2);
            if t >= n {
                break;
            }
        }
    }
}

/// p0 frames with one packet each are emitted; then the network delivers any p1 of them, in any
/// order, any number of times; the receiver takes packets at any point.
#[no_mangle]
pub extern "C" fn h_c01_reorder() {
    env().rand = Rand::Bit;
    let mut cfg = Cfg { window: 8, ..Cfg::default() };
    bases(&mut cfg);
    let mut w = World::new(&cfg, 200);
    w.blackout_ab = true;
    w.log = Some(vec![]);
    let n = param(0);
    for _ in 0..n {
        w.round(|w| {
            let c = range(0, 1) as u8;
            let m = range(1, 3);
            w.submit(3, c, m, 1);
        });
    }
    let frames: Vec<Vec<u8>> = w.log.take().unwrap().into_iter().map(|x| x.1).collect();
    check!(frames.len() >= n as usize, "every packet was emitted");
    for _ in 0..param(1) {
        let k = conc(range(0, frames.len() as u64 - 1)) as usize;
        w.b.deliver(&frames[k]);
        if any_bool() {
            w.b.hc.receive(&mut w.b.got);
            w.examine();
        }
    }
    w.b.hc.receive(&mut w.b.got);
    w.examine();
    if w.seen == n as usize {
        reach(1);
    }
}

/// p0 packets, the ones selected by the bits of p2 of two fragments, are sent, and sent again after
/// a while. Of those frames any subset arrives, in order; the receiver takes packets at any point before
/// the first retransmission.
#[no_mangle]
pub extern "C" fn h_c01_fragments() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 16, a_packet: 0xFFFFE - 4, a_frame: 0xFFFFFFFE - 6, ..Cfg::default() };
    let mut w = World::new(&cfg, 50);
    w.warm(4);
    // so that one packet is sent again after all were sent once
    w.dt = 20;
    w.blackout_ab = true;
    w.log = Some(vec![]);
    let n = param(0);
    for i in 0..n {
        w.round(|w| {
            // which of the two channels comes first makes no difference
            let c = if i == 0 { 0 } else { range(0, 1) as u8 };
            let m = range(1, 3);
            let long = param(2) >> i & 1 == 1;
            w.submit(if long { 1500 } else { 3 }, c, m, 1300);
        });
    }
    let first = w.log.as_ref().unwrap().len();
    for _ in 0..param(1) {
        w.round(|_| ());
    }
    let frames: Vec<Vec<u8>> = w.log.take().unwrap().into_iter().map(|x| x.1).collect();
    check!(frames.len() >= n as usize, "every packet was emitted");
    let before = w.seen;
    for (i, f) in frames.iter().enumerate() {
        if any_bool() {
            w.b.deliver(f);
            if i < first && any_bool() {
                w.b.hc.receive(&mut w.b.got);
                w.examine();
            }
        }
    }
    w.b.hc.receive(&mut w.b.got);
    w.examine();
    if w.seen > before + 1 {
        reach(1);
    }
}

/// Clients and a server, see flow.rs
#[no_mangle]
pub extern "C" fn h_c01_app() {
    crate::flow::run(1);
}
