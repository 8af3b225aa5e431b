//! C06: what a receiver holds is bounded by max_receive_alloc, and senders keep to their peer's limit.
use crate::app::*;
use crate::link::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::serial::Serialize;
use uflow::verif::frame::{AckFrame, DataFrame, Datagram, Frame, SyncFrame};
use uflow::verif::PacketSink;

entries!(h_c06_hostile, h_c06_flood, h_c06_sender, h_c06_window, h_c06_traffic, h_c06_app);

const FRAG: usize = 1448;

fn ceil(n: usize) -> usize {
    (n + FRAG - 1) / FRAG * FRAG
}

/// The receiver counts fragments, but a packet of one by its bytes.
fn cost(n: usize) -> usize {
    if n > FRAG { ceil(n) } else { n }
}

struct Nowhere;
impl PacketSink for Nowhere {
    fn send(&mut self, _: Box<[u8]>) {}
}

struct Victim {
    e: Ep,
    base: u64,
    limit: u64,
}

impl Victim {
    /// Everything allocated in advance does not count.
    fn new(c: &Cfg) -> Victim {
        let e = half(c, false);
        let base = heap_live();
        // Besides data: which fragments are there (a bit each, in words of 64, per packet of the
        // window), acknowledgements to be sent (12 bytes for each frame of the window, up to 4 times
        // that much while the queue grows)
        let frags = c.alloc / FRAG + 2;
        let extra = 8 * (c.window as usize + frags / 64) + 48 * c.window as usize + 64;
        Victim { e, base, limit: (ceil(c.alloc) + extra) as u64 }
    }
    fn held(&self) -> u64 {
        heap_live().saturating_sub(self.base)
    }
    fn check(&self) {
        check!(self.held() <= self.limit, "receiver holds more than max_receive_alloc");
    }
}

/// p0 events: hostile frames (ids around both ends of the window, claims of up to 65536 fragments,
/// symbolic parent leads), sync frames, receive() or not.
#[no_mangle]
pub extern "C" fn h_c06_hostile() {
    budget(1 << 40);
    let cfg = Cfg { window: 8, a_packet: 0xFFFFD, alloc: [0, 1448, 3000, 100_000_000][param(1) as usize], ..Cfg::default() };
    let mut v = Victim::new(&cfg);
    let mut id = cfg.a_frame;
    let kinds: &[(u16, u16, usize)] = &[(0, 0, 1448), (0, 1, 1448), (1, 1, 0), (1, 65535, 1448), (0, 0, 0), (1, 2, 1448), (65535, 65535, 5)];
    let kinds = &kinds[..param(2) as usize];
    let seqs: &[u64] = &[0, 1, 7, 8, 2, 0xFFFFF];
    let seqs = &seqs[..param(3) as usize];
    for _ in 0..param(0) {
        match choice(3) {
            0 => {
                let (f, l, n) = kinds[choice(kinds.len() as u64) as usize];
                let seq = cfg.a_packet.wrapping_add(pick(seqs) as u32) & 0xFFFFF;
                let (wl, cl) = (any_u16(), any_u16());
                let d = Datagram {
                    sequence_id: seq,
                    channel_id: 1,
                    window_parent_lead: wl,
                    channel_parent_lead: cl,
                    fragment_id: f,
                    fragment_id_last: l,
                    data: vec![7; n].into(),
                };
                v.e.hc.handle_data_frame(DataFrame { sequence_id: id, nonce: false, datagrams: vec![d].into() });
                id = id.wrapping_add(1);
                reach(1);
            }
            1 => {
                let n = pick(&[1, 8]) as u32;
                v.e.hc.handle_sync_frame(SyncFrame { next_frame_id: None, next_packet_id: Some((cfg.a_packet + n) & 0xFFFFF) });
            }
            _ => {
                v.e.hc.receive(&mut Nowhere);
                if v.held() == 0 {
                    reach(2);
                }
            }
        }
        v.check();
    }
}

/// p0 frames of one kind after another: what may pile up? With or without receive() in between,
/// flush() or not (p1 is the seed of a mixture, one lead is symbolic).
#[no_mangle]
pub extern "C" fn h_c06_flood() {
    budget(1 << 40);
    let cfg = Cfg { window: 32, a_packet: 0xFFFF0, a_frame: 0xFFFFFF00, alloc: pick(&[1448, 30_000]) as usize, rate: 3000, ..Cfg::default() };
    let mut v = Victim::new(&cfg);
    let mut id = cfg.a_frame;
    let mut seq = cfg.a_packet;
    let kind = choice(9);
    let read = pick(&[0, 1, 7]);
    let odd = range(0, 40) as u16;
    for i in 0..param(0) {
        at(i);
        let f = i as u32;
        // fragment, last fragment, bytes, leads, id's increment
        let (frag, last, n, lead, step) = match kind {
            0 => (0, 0, 1000, 0, 1),
            1 => (0, 1, 1448, 0, 1),
            2 => (3, 65535, 1448, 0, 1),
            3 => (0, 0, 1, odd, 1),
            4 => (f as u16 % 3, 2, 1448, 1, (f % 3 == 2) as u32),
            5 => (0, 0, 1448, 1, 1),
            6 => (0, 20, 1448, 0, 33),
            7 => (0, 0, 0, 0, 0),
            _ => (f as u16 & 1, 1, 1448, odd, f & 1),
        };
        seq = seq.wrapping_add(step) & 0xFFFFF;
        let d = Datagram {
            sequence_id: seq,
            channel_id: (f % 5) as u8,
            window_parent_lead: lead,
            channel_parent_lead: lead,
            fragment_id: frag,
            fragment_id_last: last,
            data: vec![1; n].into(),
        };
        v.e.hc.handle_data_frame(DataFrame { sequence_id: id, nonce: i % 3 == 0, datagrams: vec![d].into() });
        // frames far apart need an acknowledgement each
        id = id.wrapping_add([1, 20, 31][i as usize % 3]);
        if read > 0 && i % read == 0 {
            v.e.hc.receive(&mut Nowhere);
        }
        if kind == 6 || i % 11 == 0 {
            v.e.hc.handle_sync_frame(SyncFrame { next_frame_id: Some(id), next_packet_id: if kind % 2 == 0 { Some(seq) } else { None } });
        }
        if i % 16 == 0 {
            // little of what is due can be sent
            v.e.hc.step();
            v.e.hc.flush(&mut v.e.out);
            v.e.out.0 = vec![];
        }
        v.check();
    }
    // what a well-behaved sender would see: once everything has been passed, it is all available
    v.e.hc.receive(&mut Nowhere);
    for _ in 0..3 {
        let s = seq.wrapping_add(32) & 0xFFFFF;
        v.e.hc.handle_sync_frame(SyncFrame { next_frame_id: None, next_packet_id: Some(s) });
        v.e.hc.receive(&mut Nowhere);
        v.e.hc.handle_sync_frame(SyncFrame { next_frame_id: None, next_packet_id: Some(seq) });
        v.e.hc.receive(&mut Nowhere);
    }
    // (packets whose parents never came are not passed)
    if kind != 3 && kind != 4 && kind != 5 && kind != 8 {
        check!(v.held() <= (v.limit - ceil(cfg.alloc) as u64), "memory of packets gone by is still held");
    }
    reach(1);
}

// ---------------------------------------------------------------- senders

/// What the frames sent say is outstanding, given what the sender was told. Sizes are known once the
/// last fragment is; before, the number of fragments tells.
struct Ledger {
    first: u32,
    /// cost by packet id
    cost: Vec<usize>,
    past: usize,
    at: usize,
}

impl Ledger {
    fn new(first: u32) -> Ledger {
        Ledger { first, cost: vec![], past: 0, at: 0 }
    }
    fn frame(&mut self, bytes: &[u8]) {
        if let Some(Frame::DataFrame(f)) = Frame::read(bytes) {
            for g in f.datagrams.iter() {
                let n = (g.sequence_id.wrapping_sub(self.first) & 0xFFFFF) as usize;
                if n < self.past {
                    continue;
                }
                check!(n <= self.cost.len(), "a packet id was left out");
                if n == self.cost.len() {
                    self.cost.push(if g.fragment_id_last > 0 { (g.fragment_id_last as usize + 1) * FRAG } else { cost(g.data.len()) });
                }
            }
        }
    }
    fn acked(&mut self, base: u32) {
        let d = (base.wrapping_sub(self.first) & 0xFFFFF) as usize;
        if base <= 0xFFFFF && d > self.past && d <= self.cost.len() {
            self.past = d;
        }
    }
    fn check(&self, limit: usize, window: usize) {
        let sum: usize = self.cost[self.past..].iter().sum();
        check!(sum <= ceil(limit), "more unacknowledged bytes than the peer allows");
        check!(self.cost.len() - self.past <= window, "more packets outstanding than the window");
    }
    fn update(&mut self, w: &World) {
        let log = w.log.as_ref().unwrap();
        while self.at < log.len() {
            self.frame(&log[self.at].1);
            self.at += 1;
        }
    }
}

/// p0 rounds with 2 packets in symbolic modes, sizes from 0 to more than the limit; window
/// acknowledgements with a symbolic id arrive at any time.
#[no_mangle]
pub extern "C" fn h_c06_sender() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 4, a_packet: 0xFFFFE, alloc: pick(&[1, 1448, 1449, 4400]) as usize, rate: pick(&[3000, 1_000_000]) as u32, ..Cfg::default() };
    let warm = pick(&[0, 4]);
    let mut w = World::new(&cfg, if warm > 0 { 200 } else { 700 });
    let mut l = Ledger::new(cfg.a_packet);
    if warm > 0 {
        w.warm(warm);
        l.cost = vec![0; warm as usize];
        l.past = warm as usize;
    }
    w.log = Some(vec![]);
    w.blackout_ba = true;
    w.blackout_ab = true;
    for t in 0..param(0) {
        let mut b = conc(range(0, 6)) as u32;
        if b > 0 {
            b += warm as u32;
        }
        let base = (cfg.a_packet + b) & 0xFFFFF;
        if b > 0 {
            w.a.hc.handle_ack_frame(AckFrame { frame_window_base_id: cfg.a_frame, packet_window_base_id: base, frame_acks: vec![] });
            // ids given to packets of which nothing has been sent yet may be acknowledged, too; a
            // receiver cannot have seen them
            if b as usize > l.cost.len() {
                return;
            }
            l.acked(base);
        }
        w.round(|w| {
            let m = range(0, 3);
            let n = [1, 1449, 700, 0, 3000][(t as usize) % 5];
            w.submit_data(vec![1; n], 0, m);
            let m = range(0, 3);
            let n = [1448, 3, 1, 2896, 1000][(t as usize) % 5];
            w.submit_data(vec![2; n], 1, m);
        });
        l.update(&w);
        l.check(cfg.alloc, 4);
    }
    if l.cost.len() > 2 {
        reach(1);
    }
}

/// More packets than windows hold (p1: as the connection's window, at most 4096); nothing is
/// acknowledged at first, then some of it is
#[no_mangle]
pub extern "C" fn h_c06_window() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: param(1) as u32, a_packet: 0xFFFF0, alloc: 10_000_000, ..Cfg::default() };
    let mut w = World::new(&cfg, 50);
    let mut l = Ledger::new(cfg.a_packet);
    w.warm(4);
    w.log = Some(vec![]);
    l.cost = vec![0; 4];
    l.past = 4;
    w.blackout_ba = true;
    let some = pick(&[0, 1, 40]) as usize;
    let m = range(1, 3);
    for t in 0..param(0) {
        w.round(|w| {
            for _ in 0..if t < 12 { param(1) / 8 } else { 0 } {
                w.a.send(vec![1, 2], 0, mode_of(m));
            }
            if t == 60 && some > 0 {
                let b = l.past + some.min(l.cost.len() - l.past);
                let base = (cfg.a_packet + b as u32) & 0xFFFFF;
                l.past = b;
                w.a.hc.handle_ack_frame(AckFrame { frame_window_base_id: 0, packet_window_base_id: base, frame_acks: vec![] });
            }
        });
        w.b.got.0.clear();
        l.update(&w);
        l.check(cfg.alloc, param(1).min(4096) as usize);
        w.log = Some(vec![]);
        l.at = 0;
    }
    if l.cost.len() as u64 >= param(1) + 4 {
        reach(1);
    }
}

/// Two uflow endpoints; whatever the sender sends, the receiver has room for: nothing that arrived
/// is missing. p0 packets of sizes up to the limit, p1 faults.
#[no_mangle]
pub extern "C" fn h_c06_traffic() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 4, a_packet: 0xFFFFE, alloc: pick(&[1448, 3000, 4344]) as usize, ..Cfg::default() };
    let mut w = World::new(&cfg, pick(&[50, 300]));
    w.log = Some(vec![]);
    w.acks = Some(vec![]);
    w.b_period = pick(&[1, 3]);
    w.dev_ab = param(1);
    let mut l = Ledger::new(cfg.a_packet);
    let before = heap_live();
    let room = ceil(cfg.alloc);
    let mut seen = 0;
    let mut t = 0;
    loop {
        w.round(|w| {
            if t < param(0) {
                let m = range(1, 3);
                w.submit([room, 1, 1448][t as usize % 3].min(cfg.alloc), 0, m, 0);
                let m = range(1, 3);
                w.submit([700, room, 2][t as usize % 3].min(cfg.alloc), 1, m, 0);
            }
        });
        t += 1;
        w.examine();
        l.update(&w);
        let acks = w.acks.as_ref().unwrap();
        while seen < acks.len() {
            if let Some(Frame::AckFrame(f)) = Frame::read(&acks[seen]) {
                l.acked(f.packet_window_base_id);
            }
            seen += 1;
        }
        l.check(cfg.alloc, 4);
        if t > param(0) && w.idle() {
            break;
        }
        check!(t < 800, "packets stuck");
    }
    if w.dev_ab == param(1) {
        // no fault happened
        for p in w.pkts.iter() {
            check!(p.delivered == 1, "packet discarded on an ideal network");
        }
        reach(2);
    }
    for p in w.pkts.iter() {
        check!(p.mode != 3 || p.delivered == 1, "Reliable packet discarded");
    }
    let _ = before;
    reach(1);
}

/// The limits are exchanged: a client and a server with different max_receive_alloc send each other
/// more than that while no acknowledgement gets through (p0 rounds).
#[no_mangle]
pub extern "C" fn h_c06_app() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let limits = [2000, 5000, 20_000];
    let (ls, lc) = (pick(&limits) as usize, pick(&limits) as usize);
    let mut es = endpoint();
    es.max_receive_alloc = ls;
    es.max_packet_size = 2000;
    let mut ec = endpoint();
    ec.max_receive_alloc = lc;
    ec.max_packet_size = 2000;
    let early = fork_bool();
    let mut w = App::new(server_config(es));
    let i = w.connect(ec, None);
    let port = w.cl[i].port;
    let m = range(1, 3);
    if early {
        for _ in 0..20 {
            w.client_send(i, vec![1; 1900], 0, m);
        }
    }
    let mut led = [Ledger::new(0), Ledger::new(0)];
    let mut at_ = 0;
    let mut sent = early;
    for _ in 0..param(0) {
        w.round(100);
        if w.connects(false, port) > 0 && w.connects(true, port) > 0 && !sent {
            sent = true;
            for _ in 0..20 {
                w.client_send(i, vec![1; 1900], 0, m);
                w.server_send(port, vec![2; 1900], 0, m);
            }
        }
        for s in &w.sent[at_..] {
            // packet ids start from the nonces
            let up = s.up as usize;
            if s.data[0] == SYN {
                led[1].first = word(&s.data, 2) & 0xFFFFF;
            }
            if s.data[0] == SYN_ACK {
                led[0].first = word(&s.data, 5) & 0xFFFFF;
            }
            if s.data[0] == DATA {
                led[up].frame(&s.data);
            }
        }
        at_ = w.sent.len();
        for g in w.got.drain(..) {
            if g.data[0] == DACK {
                if let Some(Frame::AckFrame(f)) = Frame::read(&g.data) {
                    led[!g.up as usize].acked(f.packet_window_base_id);
                }
            }
        }
        led[1].check(ls, 4096);
        led[0].check(lc, 4096);
        w.cl[i].c.as_ref().unwrap();
    }
    if led[1].cost.len() > 3 && (early || led[0].cost.len() > 3) {
        reach(1);
    }
}
