//! C05: without network faults, everything arrives once and in the order of submission.
use crate::link::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::serial::Serialize;
use uflow::verif::frame::Frame;

entries!(h_c05_modes, h_c05_bulk, h_c05_fragments, h_c05_both, h_c05_many, h_c05_app);

/// Global order, contents, at most once
fn ordered(w: &mut World, last: &mut i64) {
    for i in w.examine() {
        check!(i as i64 > *last, "delivered out of order");
        for j in (*last + 1) as usize..i {
            check!(w.pkts[j].mode == 0, "packet missing");
        }
        *last = i as i64;
    }
}

fn finish(w: &mut World, last: &mut i64) {
    let end = w.now + 120_000;
    loop {
        ordered(w, last);
        if w.idle() {
            break;
        }
        check!(w.now < end, "not delivered on an ideal network");
        w.round(|_| ());
    }
    let log = w.log.take().unwrap();
    let mut emitted = vec![false; w.pkts.len()];
    for (_, f) in log {
        if let Some(Frame::DataFrame(d)) = Frame::read(&f) {
            for g in d.datagrams.iter() {
                if g.fragment_id == 0 && g.data.len() > 0 {
                    emitted[conc(g.data[0] as u64) as usize] = true;
                }
            }
        }
    }
    for (i, p) in w.pkts.iter().enumerate() {
        if p.mode != 0 {
            check!(p.delivered == 1, "packet not delivered on an ideal network");
        } else if emitted[i] {
            check!(p.delivered == 1, "TimeSensitive packet sent but not delivered");
        } else {
            check!(p.delivered == 0, "TimeSensitive packet delivered but not sent");
            reach(2);
        }
    }
    reach(1);
}

fn world(cfg: &Cfg, dt: u64) -> World {
    let mut w = World::new(cfg, dt);
    w.log = Some(vec![]);
    w.fifo = true;
    w
}

/// Packets in symbolic modes on symbolic channels, p1 per round in p0 rounds of 10 or 200 ms;
/// the network takes 1, 2 or 20 rounds, or changes its mind
#[no_mangle]
pub extern "C" fn h_c05_modes() {
    env().rand = Rand::Bit;
    let cfg = Cfg { window: 8, a_packet: 0xFFFFE, a_frame: 0xFFFFFFFE, ..Cfg::default() };
    let mut w = world(&cfg, pick(&[10, 200]));
    let lat = pick(&[1, 2, 20, 99]);
    let mut last = -1;
    for t in 0..param(0) {
        w.latency = if lat == 99 { [1, 5, 2, 30][t as usize % 4] } else { lat };
        w.round(|w| {
            for _ in 0..param(1) {
                let c = range(0, 2) as u8;
                let m = range(0, 3);
                w.submit(4, c, m, 1);
            }
        });
        ordered(&mut w, &mut last);
    }
    w.latency = 2;
    finish(&mut w, &mut last);
}

/// Many more packets than the windows or the receive buffer take at a time; sizes and modes mixed,
/// three of the modes symbolic; the receiver steps every, every third or tenth round
#[no_mangle]
pub extern "C" fn h_c05_bulk() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: pick(&[4, 16]) as u32, alloc: pick(&[1500, 6000]) as usize, rate: pick(&[3000, 10_000_000]) as u32, ..Cfg::default() };
    let mut w = world(&cfg, pick(&[20, 300]));
    w.b_period = pick(&[1, 3, 10]);
    let mut last = -1;
    let n = param(0);
    let burst = pick(&[1, 5, 50]);
    let mut i = 0;
    while i < n {
        w.round(|w| {
            for _ in 0..burst.min(n - i) {
                let k = i as usize;
                let m = if i % 5 == 2 && i < 5 * param(1) { range(0, 3) } else { [3, 1, 2, 3, 1, 2, 2, 0][k % 8] };
                w.submit([2, 700, 1448, 1, 64, 1, 300][k % 7], (k % 3) as u8, m, 0);
                i += 1;
            }
        });
        ordered(&mut w, &mut last);
    }
    finish(&mut w, &mut last);
}

/// Packets of several fragments between small ones
#[no_mangle]
pub extern "C" fn h_c05_fragments() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, alloc: pick(&[6000, 100_000]) as usize, a_packet: 0xFFFFD, ..Cfg::default() };
    let mut w = world(&cfg, pick(&[50, 400]));
    w.latency = pick(&[1, 4]);
    let mut last = -1;
    for t in 0..param(0) {
        w.round(|w| {
            let k = t as usize;
            let m = range(0, 3);
            w.submit([4000, 5, 1449][k % 3], (k % 2) as u8, m, 0);
            let m = range(0, 3);
            w.submit([3, 2896, 2897][k % 3], 0, m, 0);
        });
        ordered(&mut w, &mut last);
    }
    finish(&mut w, &mut last);
}

/// Both ends send
#[no_mangle]
pub extern "C" fn h_c05_both() {
    env().rand = Rand::Bit;
    let cfg = Cfg { window: 4, a_packet: 0xFFFFE, a_frame: 0xFFFFFFFE, b_packet: 0xFFFFF, b_frame: 0xFFFFFFFF, ..Cfg::default() };
    let mut w = world(&cfg, pick(&[20, 200]));
    w.latency = pick(&[1, 3]);
    let mut back: Vec<Vec<u8>> = vec![];
    let mut last = -1;
    let n = param(0);
    let mut t = 0;
    loop {
        w.round(|w| {
            if t < n {
                let c = range(0, 1) as u8;
                let m = range(0, 3);
                w.submit(3, c, m, 1);
                let c = range(0, 1) as u8;
                let m = range(1, 3);
                let d = vec![back.len() as u8, any_u8(), 7];
                w.b.send(d.clone(), c, mode_of(m));
                back.push(d);
            }
        });
        t += 1;
        ordered(&mut w, &mut last);
        check!(w.a.got.0.len() <= back.len(), "more packets delivered than sent");
        for (x, y) in w.a.got.0.iter().zip(back.iter()) {
            check!(same(x, y), "delivery on the way back");
        }
        if t >= n && w.a.got.0.len() == back.len() && w.idle() {
            break;
        }
        check!(w.now < 60_000, "not delivered on an ideal network");
    }
    finish(&mut w, &mut last);
}

/// Frames full of the smallest packets: p0 of them at once, over one, 3 or 64 channels
#[no_mangle]
pub extern "C" fn h_c05_many() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 256, a_packet: 0xFFFC0, a_frame: 0xFFFFFFF0, ..Cfg::default() };
    let mut w = world(&cfg, pick(&[20, 200]));
    w.b_period = pick(&[1, 4]);
    let mut last = -1;
    for _ in 0..8 {
        w.round(|w| w.submit(1, 0, 3, 0));
        ordered(&mut w, &mut last);
    }
    let chans = pick(&[1, 3, 64]) as usize;
    let modes = [[3, 3, 3], [3, 1, 2], [0, 2, 1], [1, 1, 1]][choice(4) as usize];
    let size = pick(&[1, 12]) as usize;
    w.round(|w| {
        for _ in 0..param(0) {
            let k = w.pkts.len();
            w.submit(size, (k % chans) as u8, modes[k % 3], 0);
        }
    });
    finish(&mut w, &mut last);
}

/// Clients and a server, see flow.rs
#[no_mangle]
pub extern "C" fn h_c05_app() {
    crate::flow::run(5);
}
