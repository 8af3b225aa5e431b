//! C12: how often fragments are transmitted depends on the send mode and on acknowledgements.
use crate::link::*;
use crate::rt::*;
use crate::*;

entries!(h_c12_traffic, h_c12_fragments, h_c12_slow, h_c12_until_acked, h_c12_partial);

fn world(cfg: &Cfg, dt: u64) -> (World, Census) {
    let mut w = World::new(cfg, dt);
    w.log = Some(vec![]);
    w.acks = Some(vec![]);
    (w, Census::new(cfg.a_packet))
}

/// p0 packets, one per round of p4 ms, p1 / p2 faults there / back; then p3 quiet rounds
#[no_mangle]
pub extern "C" fn h_c12_traffic() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, a_packet: 0xFFFFE, a_frame: 0xFFFFFFFE, ..Cfg::default() };
    let (mut w, mut c) = world(&cfg, param(4));
    w.dev_ab = param(1);
    w.dev_ba = param(2);
    for t in 0..param(0) + param(3) {
        w.round(|w| {
            if t < param(0) {
                let ch = range(0, 1) as u8;
                let m = range(0, 3);
                w.submit(3, ch, m, 0);
            }
        });
        c.update(&w);
        if t >= param(0) && w.idle() {
            check!(!c.open(&w), "the sender is done although nothing acknowledged a fragment");
            reach(1);
            break;
        }
    }
    if c.frags.iter().any(|f| f.count > 1) {
        reach(2);
    }
}

/// Packets of up to 3 fragments
#[no_mangle]
pub extern "C" fn h_c12_fragments() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, ..Cfg::default() };
    let (mut w, mut c) = world(&cfg, param(4));
    w.dev_ab = param(1);
    w.dev_ba = param(2);
    for t in 0..param(0) + param(3) {
        w.round(|w| {
            if t < param(0) {
                let m = range(0, 3);
                w.submit([3000, 1449][t as usize % 2], 0, m, 0);
                let m = range(0, 3);
                w.submit(2, 0, m, 0);
            }
        });
        c.update(&w);
        if t >= param(0) && w.idle() {
            check!(!c.open(&w), "the sender is done although nothing acknowledged a fragment");
            reach(1);
            break;
        }
    }
    if c.frags.iter().any(|f| f.count > 1) {
        reach(2);
    }
}

/// More than the bandwidth, the windows or the receive buffer admit, and several flushes per step,
/// so that packets wait in the queues
#[no_mangle]
pub extern "C" fn h_c12_slow() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: pick(&[2, 8]) as u32, alloc: pick(&[1500, 8000]) as usize, rate: pick(&[1500, 20_000]) as u32, ..Cfg::default() };
    let (mut w, mut c) = world(&cfg, pick(&[30, 250]));
    w.dev_ab = param(1);
    w.b_period = pick(&[1, 4]);
    let size = pick(&[100, 1448, 2000]) as usize;
    for t in 0..param(0) + param(3) {
        w.round(|w| {
            if t < param(0) {
                for _ in 0..param(2) {
                    let m = range(0, 3);
                    w.submit(size, 0, m, 0);
                    if t == 1 {
                        w.flush_a();
                    }
                }
                w.submit(5, 1, 0, 0);
            }
        });
        w.flush_a();
        c.update(&w);
        if t >= param(0) && w.idle() {
            check!(!c.open(&w), "the sender is done although nothing acknowledged a fragment");
            reach(1);
            break;
        }
    }
    if (0..w.pkts.len()).any(|i| c.seq[i].is_none()) {
        reach(3);
    }
}

/// Nothing arrives (in one or both directions) for a while: Persistent and Reliable fragments keep
/// being sent, with windows of full size
#[no_mangle]
pub extern "C" fn h_c12_until_acked() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 4096, ..Cfg::default() };
    let (mut w, mut c) = world(&cfg, 100);
    let warm = choice(param(1) + 1);
    for _ in 0..warm {
        w.round(|w| w.submit(2, 0, 3, 0));
        c.update(&w);
    }
    w.blackout_ab = fork_bool();
    w.blackout_ba = true;
    for t in 0..param(0) {
        w.round(|w| {
            if t < 2 {
                let m = range(0, 3);
                w.submit([3, 60][t as usize], t as u8, m, 0);
            }
        });
        c.update(&w);
        c.alive(&w, 12_000);
    }
    w.blackout_ab = false;
    w.blackout_ba = false;
    for _ in 0..400 {
        if w.idle() {
            check!(!c.open(&w), "the sender is done although nothing acknowledged a fragment");
            reach(2);
            break;
        }
        w.round(|_| ());
        c.update(&w);
    }
}

/// Packets of many fragments of which any frame may be lost, and any acknowledgement: every
/// fragment of a Persistent or Reliable packet is repeated until it is acknowledged.
/// params: fragments, first round of losses, rounds of losses, most losses
#[no_mangle]
pub extern "C" fn h_c12_partial() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, a_packet: 0xFFFFF, ..Cfg::default() };
    let (mut w, mut c) = world(&cfg, 100);
    let size = 1448 * (param(0) - 1) as usize + 3;
    // with a round-trip time the sender may send as much as this at once
    for _ in 0..param(1) {
        w.round(|w| w.submit(1400, 0, 3, 0));
        c.update(&w);
    }
    let back = fork_bool();
    w.kinds = 1;
    if back {
        w.dev_ba = param(3);
    } else {
        w.dev_ab = param(3);
    }
    for t in 0..200 {
        w.round(|w| {
            if t == 0 {
                let m = range(2, 3);
                w.submit(size, 0, m, 0);
                w.submit(9, 1, m, 0);
            }
        });
        if t == param(2) {
            w.dev_ab = 0;
            w.dev_ba = 0;
        }
        c.update(&w);
        c.alive(&w, 12_000);
        if t > 0 && w.idle() {
            check!(!c.open(&w), "the sender is done although nothing acknowledged a fragment");
            reach(1);
            break;
        }
        if t == 199 {
            check!(false, "not everything acknowledged over a good network");
        }
    }
    if c.frags.iter().any(|f| f.count > 1) {
        reach(2);
    }
}
