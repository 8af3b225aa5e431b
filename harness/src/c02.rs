//! C02: Reliable packets are never skipped, and once the network lets frames through everything
//! Reliable arrives and the sender ends with nothing pending.
use crate::link::*;
use crate::rt::*;
use crate::*;

entries!(h_c02_traffic, h_c02_blackout, h_c02_fragments, h_c02_many, h_c02_app);

fn settle(w: &mut World, limit_ms: u64) {
    let end = w.now + limit_ms;
    loop {
        let r = w.examine();
        w.reliable_order(&r);
        if w.idle() {
            break;
        }
        if w.now >= end {
            print("now ");
            print_u64(w.now);
            print(" pending ");
            print_u64(w.a.hc.is_send_pending() as u64);
            print(" size ");
            print_u64(w.a.hc.send_buffer_size() as u64);
            print("\n");
            check!(false, "sender still has something pending long after the network recovered");
        }
        if w.now > end - limit_ms + 20_000 {
            // the sender may be down to 23 bytes per second; no need to look closely
            w.dt = 1000;
        }
        w.round(|_| ());
    }
    for p in w.pkts.iter() {
        check!(p.mode != 3 || p.delivered == 1, "Reliable packet not delivered although nothing is pending");
    }
    reach(1);
}

/// p0 packets, one per round of p2 ms, p1/p3 faults to/from the receiver.
#[no_mangle]
pub extern "C" fn h_c02_traffic() {
    env().rand = Rand::Bit;
    let cfg = Cfg { window: 8, a_packet: 0xFFFFE, a_frame: 0xFFFFFFFE, ..Cfg::default() };
    let mut w = World::new(&cfg, param(2));
    w.dev_ab = param(1);
    w.dev_ba = param(3);
    for _ in 0..param(0) {
        w.round(|w| {
            let c = range(0, 1) as u8;
            let m = range(1, 3);
            w.submit(3, c, m, 1);
        });
        let r = w.examine();
        w.reliable_order(&r);
    }
    settle(&mut w, 600_000);
}

/// More packets than the window takes, with both directions dead for a while at an arbitrary point.
/// p1 packets of p3 bytes in each of p0 rounds, p4 frames in the window.
#[no_mangle]
pub extern "C" fn h_c02_blackout() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 4, frames: param(4) as u32, a_packet: 0xFFFFE, a_frame: 0xFFFFFFFE, ..Cfg::default() };
    let mut w = World::new(&cfg, param(2));
    let n = param(0);
    let start = range(0, n);
    let len = pick(&[1, 3, 20, 60]);
    let dir = range(1, 3);
    for t in 0..n + len {
        let dark = t >= start && t < start + len;
        w.blackout_ab = dark && dir & 1 == 1;
        w.blackout_ba = dark && dir & 2 == 2;
        w.round(|w| {
            if t < n {
                for _ in 0..param(1) {
                    let c = (w.pkts.len() % 2) as u8;
                    let m = range(1, 3);
                    w.submit(param(3) as usize, c, m, 500);
                }
            }
        });
        let r = w.examine();
        w.reliable_order(&r);
    }
    w.blackout_ab = false;
    w.blackout_ba = false;
    settle(&mut w, 600_000);
}

/// Packets of several fragments, each frame possibly lost, duplicated or late.
#[no_mangle]
pub extern "C" fn h_c02_fragments() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, ..Cfg::default() };
    let mut w = World::new(&cfg, param(2));
    w.dev_ab = param(1);
    w.dev_ba = param(3);
    let sizes = if param(0) > 2 { [2, 1500, 4, 3000] } else { [3000, 2, 1500, 4] };
    w.round(|w| {
        for k in 0..param(0) {
            let m = range(1, 3);
            let size = sizes[k as usize % 4];
            w.submit(size, 0, m, 700);
        }
    });
    settle(&mut w, 600_000);
}

/// Frames full of the smallest packets: p0 of them at once, over one, 3 or 64 channels.
#[no_mangle]
pub extern "C" fn h_c02_many() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 256, a_packet: 0xFFFC0, a_frame: 0xFFFFFFF0, ..Cfg::default() };
    let mut w = World::new(&cfg, pick(&[20, 200]));
    w.warm(8);
    w.dev_ab = param(1);
    w.dev_ba = param(2);
    let chans = pick(&[1, 3, 64]) as usize;
    let modes = [[3, 3, 3], [3, 1, 2]][choice(2) as usize];
    let size = pick(&[1, 12]) as usize;
    w.round(|w| {
        for _ in 0..param(0) {
            let k = w.pkts.len();
            w.submit(size, (k % chans) as u8, modes[k % 3], 0);
        }
    });
    settle(&mut w, 600_000);
}

/// Clients and a server, see flow.rs
#[no_mangle]
pub extern "C" fn h_c02_app() {
    crate::flow::run(2);
}
