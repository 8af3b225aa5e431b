//! C04: packets of every size are split into frames of at most 1472 bytes and put together again.
use crate::link::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::serial::Serialize;
use uflow::verif::frame::{DataFrame, Datagram, Frame};

entries!(h_c04_sizes, h_c04_pack, h_c04_order, h_c04_foreign, h_c04_large);

const FRAG: usize = 1448;

fn count(n: usize) -> usize {
    if n == 0 { 1 } else { (n + FRAG - 1) / FRAG }
}

/// Everything emitted so far: frames' sizes, and that each fragment is the right part of its packet.
/// Every transmission of packet i is recognised by its order: ids are given out in order of
/// submission (no TimeSensitive packets are used here).
fn emitted(w: &World, first: u32, from: &mut usize) {
    let log = w.log.as_ref().unwrap();
    while *from < log.len() {
        let f = &log[*from].1;
        *from += 1;
        check!(f.len() <= uflow::MAX_FRAME_SIZE, "UDP payload of more than 1472 bytes");
        if let Some(Frame::DataFrame(d)) = Frame::read(f) {
            for g in d.datagrams.iter() {
                let i = (g.sequence_id.wrapping_sub(first) & 0xFFFFF) as usize;
                check!(i < w.pkts.len(), "a packet nobody sent");
                let p = &w.pkts[i].data;
                check!(g.fragment_id_last as usize + 1 == count(p.len()), "number of fragments");
                check!(g.fragment_id <= g.fragment_id_last, "fragment id");
                let a = g.fragment_id as usize * FRAG;
                let b = (a + FRAG).min(p.len());
                check!(g.data.len() == b - a && same(&g.data, &p[a..b]), "contents of a fragment");
            }
        }
    }
}

fn finish(w: &mut World, first: u32, from: &mut usize) {
    let end = w.now + 600_000;
    loop {
        w.examine();
        emitted(w, first, from);
        if (0..w.pkts.len()).all(|i| w.pkts[i].mode != 3 || w.pkts[i].delivered > 0) && w.idle() {
            break;
        }
        check!(w.now < end, "packet never delivered");
        w.round(|_| ());
    }
    reach(1);
}

/// Sizes around the multiples of 1448 (p0: the multiple; p2: the distance below and above), next to
/// packets of other sizes, under p1 faults; the sender may send little at a time
#[no_mangle]
pub extern "C" fn h_c04_sizes() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, a_packet: 0xFFFFE, rate: pick(&[6000, 10_000_000]) as u32, ..Cfg::default() };
    let first = cfg.a_packet;
    let mut w = World::new(&cfg, pick(&[30, 400]));
    w.log = Some(vec![]);
    let mut from = 0;
    let mid = param(0) * FRAG as u64;
    let n = conc(range(mid.saturating_sub(param(2)), mid + param(2))) as usize;
    let warm = pick(&[0, 3]);
    w.warm(warm);
    w.dev_ab = param(1);
    let stride = if n > 600 { n / 5 } else { 150 };
    let between = pick(&[1, 1449]) as usize;
    w.round(|w| {
        w.submit(between, 1, 3, 0);
        // an empty packet cannot be told from another one
        if n == 0 {
            w.submit_data(vec![], 0, 3);
        } else {
            w.submit(n, 0, 3, stride);
        }
    });
    w.round(|w| w.submit(700, 0, 1, 0));
    w.round(|w| w.submit(2000, 1, 3, 0));
    finish(&mut w, first, &mut from);
}

/// Two or three packets whose sizes together are about that of a frame: p0 bytes more or less
#[no_mangle]
pub extern "C" fn h_c04_pack() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, a_packet: 0xFFFFD, rate: 10_000_000, ..Cfg::default() };
    let first = cfg.a_packet;
    let mut w = World::new(&cfg, 100);
    w.log = Some(vec![]);
    let mut from = 0;
    w.warm(3);
    let x = pick(&[1, 2, 63, 64, 65, 255, 256, 257, 700, 1380, 1440, 1448]) as usize;
    let lead = fork_bool();
    let sum = conc(range(1472 - param(0), 1472 + param(0))) as usize;
    let y = sum.saturating_sub(x);
    let z = pick(&[0, 30, 1448]) as usize;
    w.round(|w| {
        if lead {
            // a parent lead makes headers longer
            w.submit(3, 0, 3, 0);
        }
        w.submit(x, 0, 3, 0);
        if y > 0 && y < 1449 {
            w.submit(y, 1, 3, 0);
        }
        if z > 0 {
            w.submit(z, 0, 2, 0);
        }
    });
    finish(&mut w, first, &mut from);
}

fn datagram(seq: u32, chan: u8, frag: u16, last: u16, data: Vec<u8>) -> Datagram {
    Datagram { sequence_id: seq, channel_id: chan, window_parent_lead: 0, channel_parent_lead: 0, fragment_id: frag, fragment_id_last: last, data: data.into() }
}

/// Two packets of p0 fragments and one of a single fragment, sent as one fragment per frame; p1
/// frames carry any of the fragments, in any order and repetition, and the receiver takes packets
/// at any point.
#[no_mangle]
pub extern "C" fn h_c04_order() {
    budget(1 << 40);
    let cfg = Cfg { window: 8, a_packet: 0xFFFFE, ..Cfg::default() };
    let mut b = half(&cfg, false);
    let m = param(0) as usize;
    let tail = pick(&[1, 1447, 1448]) as usize;
    let mut p = vec![0u8; FRAG * (m - 1) + tail];
    let mut q = vec![1u8; FRAG * (m - 1) + 17];
    for k in 0..m {
        p[k * FRAG] = any_u8();
        p[(k * FRAG + 1446).min(FRAG * (m - 1) + tail - 1)] = any_u8();
        q[k * FRAG] = any_u8();
    }
    let r = vec![any_u8(), any_u8()];
    let whole = [&p, &q, &r];
    let seq = [0xFFFFE, 0xFFFFF, 0];
    let mut seen = [vec![false; m], vec![false; m], vec![false; 1]];
    // complete while no later packet had been delivered
    let mut due = [false; 3];
    let mut delivered = [false; 3];
    let mut got = 0;
    for i in 0..param(1) {
        let k = conc(range(0, 2 * m as u64)) as usize;
        let (j, f) = (k / m, k % m);
        let data = whole[j][f * FRAG..((f + 1) * FRAG).min(whole[j].len())].to_vec();
        let last = seen[j].len() as u16 - 1;
        // three channels: no packet waits for another
        let d = datagram(seq[j], j as u8, f as u16, last, data);
        b.hc.handle_data_frame(DataFrame { sequence_id: cfg.a_frame.wrapping_add(i as u32), nonce: false, datagrams: vec![d].into() });
        seen[j][f] = true;
        if seen[j].iter().all(|x| *x) && !delivered[j..].contains(&true) {
            due[j] = true;
        }
        if any_bool() {
            b.hc.receive(&mut b.got);
            while got < b.got.0.len() {
                let x = &b.got.0[got];
                // their lengths differ
                let j = whole.iter().position(|y| y.len() == x.len()).unwrap_or(9);
                check!(j < 3, "length of a packet put together");
                check!(same(x, whole[j]), "contents of a packet put together");
                check!(!delivered[j], "delivered twice");
                check!(seen[j].iter().all(|x| *x), "delivered although a fragment is missing");
                delivered[j] = true;
                reach(1 + j as u32);
                got += 1;
            }
            for j in 0..3 {
                check!(!due[j] || delivered[j], "complete packet not delivered");
            }
        }
    }
}

/// Genuine fragments of a packet, mixed with p1 others with the same packet id whose header is an
/// arbitrary different one; p2 bits say which header field may differ. Nothing changes.
#[no_mangle]
pub extern "C" fn h_c04_foreign() {
    budget(1 << 40);
    let cfg = Cfg { window: 8, a_packet: 5, ..Cfg::default() };
    let mut b = half(&cfg, false);
    let m = param(0) as usize;
    let mut p = vec![0u8; FRAG * (m - 1) + 100];
    for k in 0..m {
        p[k * FRAG] = any_u8();
        p[k * FRAG + 99] = any_u8();
    }
    let own = |f: usize| Datagram {
        sequence_id: 7,
        channel_id: 3,
        window_parent_lead: 1,
        channel_parent_lead: 2,
        fragment_id: f as u16,
        fragment_id_last: m as u16 - 1,
        data: p[f * FRAG..((f + 1) * FRAG).min(p.len())].into(),
    };
    let mut id = cfg.a_frame;
    let mut put = |b: &mut Ep, d: Datagram| {
        b.hc.handle_data_frame(DataFrame { sequence_id: id, nonce: true, datagrams: vec![d].into() });
        id = id.wrapping_add(1);
        if fork_bool() {
            b.hc.receive(&mut b.got);
        }
    };
    // the packets it waits for
    put(&mut b, datagram(5, 3, 0, 0, vec![]));
    put(&mut b, datagram(6, 1, 0, 0, vec![]));
    let mut left = param(1);
    let start = choice(m as u64) as usize;
    for k in 0..m {
        let f = (start + k) % m;
        put(&mut b, own(f));
        if left > 0 && k + 1 < m && any_bool() {
            left -= 1;
            let what = param(2);
            let mut d = own(f);
            if what & 1 != 0 {
                d.channel_id = range(0, 255) as u8;
            }
            if what & 2 != 0 {
                d.window_parent_lead = any_u16();
            }
            if what & 4 != 0 {
                d.channel_parent_lead = any_u16();
            }
            if what & 8 != 0 {
                d.fragment_id_last = any_u16();
            }
            if what & 16 != 0 {
                d.fragment_id = any_u16();
            }
            assume((d.channel_id != 3) | (d.window_parent_lead != 1) | (d.channel_parent_lead != 2) | (d.fragment_id_last != m as u16 - 1));
            let n = pick(&[0, 100, FRAG as u64]) as usize;
            d.data = vec![0xEE; n].into();
            put(&mut b, d);
            reach(2);
        }
    }
    b.hc.receive(&mut b.got);
    check!(b.got.0.len() == 3, "number of packets delivered");
    check!(b.got.0[0].len() == 0 && b.got.0[1].len() == 0 && same(&b.got.0[2], &p), "a fragment with another header changed the packet");
    reach(1);
}

/// One packet of p0 kB, some frames lost
#[no_mangle]
pub extern "C" fn h_c04_large() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let n = param(0) as usize * 1000 - choice(2) as usize * 7;
    let cfg = Cfg { window: 512, alloc: n, a_frame: 0xFFFFFFF0, ..Cfg::default() };
    let first = cfg.a_packet;
    let mut w = World::new(&cfg, 100);
    w.log = Some(vec![]);
    let mut from = 0;
    w.warm(3);
    w.submit(n, 0, 3, 0);
    // which round's frames are lost
    let lost = range(0, 3);
    for t in 0..4 {
        w.blackout_ab = t == lost;
        w.round(|_| ());
    }
    w.blackout_ab = false;
    finish(&mut w, first, &mut from);
}
