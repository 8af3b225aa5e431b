//! Two HalfConnections and the link between them.
#![allow(dead_code)]
use crate::check;
use crate::rt::*;
use uflow::verif::frame::serial::Serialize;
use uflow::verif::frame::Frame;
use uflow::verif::{Config, FrameSink, HalfConnection, PacketSink};
use uflow::SendMode;

#[derive(Default)]
pub struct Out(pub Vec<Vec<u8>>);
impl FrameSink for Out {
    fn send(&mut self, d: &[u8]) {
        trace_frame(d);
        self.0.push(d.to_vec())
    }
}

#[derive(Default)]
pub struct Got(pub Vec<Box<[u8]>>);
impl PacketSink for Got {
    fn send(&mut self, d: Box<[u8]>) {
        self.0.push(d)
    }
}

pub struct Cfg {
    /// window sizes (frames: 0 means as many as packets)
    pub window: u32,
    pub frames: u32,
    pub alloc: usize,
    pub rate: u32,
    pub keepalive: Option<u64>,
    /// first frame id, first packet id sent by a
    pub a_frame: u32,
    pub a_packet: u32,
    pub b_frame: u32,
    pub b_packet: u32,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            window: 16,
            frames: 0,
            alloc: 100_000,
            rate: 10_000_000,
            keepalive: None,
            a_frame: 7,
            a_packet: 11,
            b_frame: 100,
            b_packet: 200,
        }
    }
}

pub struct Ep {
    pub hc: HalfConnection,
    pub out: Out,
    pub got: Got,
}

impl Ep {
    /// Receive a datagram the way client and server do
    pub fn deliver(&mut self, bytes: &[u8]) {
        match Frame::read(bytes) {
            Some(Frame::DataFrame(f)) => self.hc.handle_data_frame(f),
            Some(Frame::SyncFrame(f)) => self.hc.handle_sync_frame(f),
            Some(Frame::AckFrame(f)) => self.hc.handle_ack_frame(f),
            _ => (),
        }
    }
    pub fn send(&mut self, data: Vec<u8>, channel: u8, mode: SendMode) {
        self.hc.send(data.into_boxed_slice(), channel, mode)
    }
    /// What the application's step() does, followed by flush()
    pub fn tick(&mut self) {
        self.hc.receive(&mut self.got);
        self.hc.step();
        self.hc.flush(&mut self.out);
    }
    pub fn take(&mut self) -> Vec<Vec<u8>> {
        std::mem::take(&mut self.out.0)
    }
}

pub fn half(c: &Cfg, a: bool) -> Ep {
    let (tf, rf, tp, rp) = if a {
        (c.a_frame, c.b_frame, c.a_packet, c.b_packet)
    } else {
        (c.b_frame, c.a_frame, c.b_packet, c.a_packet)
    };
    Ep {
        hc: HalfConnection::new(Config {
            tx_frame_base_id: tf,
            rx_frame_base_id: rf,
            tx_frame_window_size: if c.frames > 0 { c.frames } else { c.window },
            rx_frame_window_size: if c.frames > 0 { c.frames } else { c.window },
            tx_packet_base_id: tp,
            rx_packet_base_id: rp,
            tx_packet_window_size: c.window,
            rx_packet_window_size: c.window,
            tx_bandwidth_limit: c.rate,
            tx_alloc_limit: c.alloc,
            rx_alloc_limit: c.alloc,
            keepalive_interval_ms: c.keepalive,
        }),
        out: Out::default(),
        got: Got::default(),
    }
}

pub fn pair(c: &Cfg) -> (Ep, Ep) {
    (half(c, true), half(c, false))
}

pub fn mode_of(v: u64) -> SendMode {
    match v & 3 {
        0 => SendMode::TimeSensitive,
        1 => SendMode::Unreliable,
        2 => SendMode::Persistent,
        _ => SendMode::Reliable,
    }
}

// ---------------------------------------------------------------- two endpoints and a network

pub struct Pkt {
    pub chan: u8,
    /// 0 TimeSensitive, 1 Unreliable, 2 Persistent, 3 Reliable
    pub mode: u64,
    pub data: Vec<u8>,
    /// calls of a.step() before the packet was submitted
    pub step: u32,
    pub delivered: u32,
}

pub struct Flight {
    /// tick of arrival
    pub at: u64,
    pub data: Vec<u8>,
}

pub struct World {
    pub a: Ep,
    pub b: Ep,
    pub now: u64,
    pub dt: u64,
    pub tick: u64,
    pub steps: u32,
    pub ab: Vec<Flight>,
    pub ba: Vec<Flight>,
    pub pkts: Vec<Pkt>,
    /// Faults the network may still commit, in each direction
    pub dev_ab: u64,
    pub dev_ba: u64,
    /// 1: faults are losses only; 3: losses, duplicates and delays
    pub kinds: u64,
    /// All frames are lost
    pub blackout_ab: bool,
    pub blackout_ba: bool,
    /// Ticks a frame normally takes
    pub latency: u64,
    /// Everything a has sent, with the time, if wanted
    pub log: Option<Vec<(u64, Vec<u8>)>>,
    /// deliveries examined so far
    pub seen: usize,
    /// frames delivered to a, if wanted
    pub acks: Option<Vec<Vec<u8>>>,
    /// A frame never overtakes another
    pub fifo: bool,
    /// The receiver only steps in rounds divisible by this
    pub b_period: u64,
}

impl World {
    pub fn new(c: &Cfg, dt: u64) -> World {
        let (a, b) = pair(c);
        World {
            a,
            b,
            now: 0,
            dt,
            tick: 0,
            steps: 0,
            ab: vec![],
            ba: vec![],
            pkts: vec![],
            dev_ab: 0,
            dev_ba: 0,
            kinds: 3,
            blackout_ab: false,
            blackout_ba: false,
            latency: 1,
            log: None,
            seen: 0,
            acks: None,
            fifo: false,
            b_period: 1,
        }
    }

    /// Submits a packet. Its first byte is its index, the rest is symbolic (every stride-th byte;
    /// 0: fixed contents).
    pub fn submit(&mut self, size: usize, chan: u8, mode: u64, stride: usize) {
        let i = self.pkts.len();
        let mut data = vec![0u8; size];
        if size > 0 {
            data[0] = i as u8;
        }
        let mut k = 1;
        while k < size {
            if stride == 0 {
                data[k] = (k * 7 + k / 256 + i) as u8;
                k += 1;
            } else {
                data[k] = any_u8();
                k += stride;
            }
        }
        self.submit_data(data, chan, mode)
    }

    pub fn submit_data(&mut self, data: Vec<u8>, chan: u8, mode: u64) {
        self.a.send(data.clone(), chan, mode_of(mode));
        self.pkts.push(Pkt { chan, mode, data, step: self.steps, delivered: 0 });
    }

    pub fn arrivals(q: &mut Vec<Flight>, tick: u64) -> Vec<Vec<u8>> {
        let mut r = vec![];
        let mut i = 0;
        while i < q.len() {
            if q[i].at <= tick {
                r.push(q.remove(i).data);
            } else {
                i += 1;
            }
        }
        r
    }

    fn launch(q: &mut Vec<Flight>, tick: u64, lat: u64, fifo: bool, kinds: u64, dev: &mut u64, data: Vec<u8>) {
        let mut at = tick + lat;
        if fifo {
            at = at.max(q.last().map_or(0, |f| f.at));
        }
        if *dev > 0 {
            let f = range(0, kinds);
            #[cfg(feature = "trace")]
            eprintln!("      fate {}", ["ok", "DROP", "DUP", "LATE"][f as usize]);
            match f {
                0 => q.push(Flight { at, data }),
                1 => {
                    *dev -= 1;
                    reach(101);
                }
                2 => {
                    *dev -= 1;
                    reach(102);
                    q.push(Flight { at, data: data.clone() });
                    q.push(Flight { at: at + 3, data });
                }
                _ => {
                    *dev -= 1;
                    reach(103);
                    q.push(Flight { at: at + 2, data });
                }
            }
        } else {
            q.push(Flight { at, data });
        }
    }

    /// One round of both applications' loops at the current time: frames arrive, both step, the
    /// sender submits packets, both flush.
    pub fn round(&mut self, submit: impl FnOnce(&mut World)) {
        at(self.now);
        let b_awake = self.tick % self.b_period == 0;
        if b_awake {
            for f in Self::arrivals(&mut self.ab, self.tick) {
                self.b.deliver(&f);
            }
        }
        for f in Self::arrivals(&mut self.ba, self.tick) {
            if let Some(l) = &mut self.acks {
                l.push(f.clone());
            }
            self.a.deliver(&f);
        }
        if b_awake {
            self.b.hc.receive(&mut self.b.got);
        }
        self.a.hc.receive(&mut self.a.got);
        self.a.hc.step();
        if b_awake {
            self.b.hc.step();
        }
        self.steps += 1;
        submit(self);
        self.flush_a();
        if b_awake {
            self.b.hc.flush(&mut self.b.out);
        }
        for f in self.b.take() {
            dump(self.now, "b", &f);
            if !self.blackout_ba {
                Self::launch(&mut self.ba, self.tick, self.latency, self.fifo, self.kinds, &mut self.dev_ba, f);
            }
        }
        self.now += self.dt;
        self.tick += 1;
    }

    pub fn flush_a(&mut self) {
        self.a.hc.flush(&mut self.a.out);
        for f in self.a.take() {
            dump(self.now, "a", &f);
            if let Some(l) = &mut self.log {
                l.push((self.now, f.clone()));
            }
            if !self.blackout_ab {
                Self::launch(&mut self.ab, self.tick, self.latency, self.fifo, self.kinds, &mut self.dev_ab, f);
            }
        }
    }

    /// k Reliable packets of one byte, one a round and without faults: establishes a round-trip time
    /// and a send rate.
    pub fn warm(&mut self, k: u64) {
        for _ in 0..k {
            self.round(|w| w.submit(1, 0, 3, 0));
        }
        for _ in 0..4 {
            self.round(|_| ());
        }
        self.examine();
        check!(self.idle(), "idle after undisturbed traffic");
    }

    pub fn idle(&mut self) -> bool {
        self.ab.is_empty() && self.ba.is_empty() && !self.a.hc.is_send_pending() && self.a.hc.send_buffer_size() == 0
    }

    /// Index of a delivered packet by its contents; the only empty packet has no index byte.
    pub fn identify(&self, p: &[u8]) -> usize {
        let i = if p.len() > 0 {
            p[0] as usize
        } else {
            self.pkts.iter().position(|q| q.data.len() == 0).unwrap_or(999)
        };
        check!(i < self.pkts.len(), "a packet nobody sent was delivered");
        i
    }

    /// Deliveries since the last call: contents are right, nothing twice, order per channel (C01).
    /// Returns their indices.
    pub fn examine(&mut self) -> Vec<usize> {
        let mut r = vec![];
        while self.seen < self.b.got.0.len() {
            let i = self.identify(&self.b.got.0[self.seen]);
            let p = &self.b.got.0[self.seen];
            let q = &self.pkts[i];
            check!(p.len() == q.data.len(), "length of a delivered packet");
            check!(same(p, &q.data), "contents of a delivered packet");
            check!(q.delivered == 0, "packet delivered twice");
            for j in i + 1..self.pkts.len() {
                let l = &self.pkts[j];
                check!(l.delivered == 0 || l.chan != q.chan, "packet delivered after a later one of its channel");
            }
            self.pkts[i].delivered += 1;
            self.seen += 1;
            r.push(i);
        }
        r
    }

    /// No Reliable packet of the same channel precedes a delivered one undelivered (C02)
    pub fn reliable_order(&self, idx: &[usize]) {
        for &i in idx {
            for j in 0..i {
                let q = &self.pkts[j];
                check!(q.delivered > 0 || q.mode != 3 || q.chan != self.pkts[i].chan, "Reliable packet skipped");
            }
        }
    }
}

// ---------------------------------------------------------------- what was sent and acknowledged

pub struct Frag {
    pub seq: u32,
    pub id: u16,
    pub pkt: usize,
    pub count: u32,
    /// when it was first and last transmitted
    pub first: u64,
    pub last: u64,
    /// acknowledged by a frame the sender must have recognised; by any acknowledgement at all
    pub acked: bool,
    pub named: bool,
}

pub struct Census {
    pub frags: Vec<Frag>,
    /// frame id, time, indices into frags
    pub frames: Vec<(u32, u64, Vec<usize>)>,
    /// sequence id by packet
    pub seq: Vec<Option<u32>>,
    pub last: Vec<u16>,
    /// first packet id, and how many of them the receiver has reported moving past
    pub first: u32,
    pub past: u32,
    pub sent: u32,
    log_at: usize,
    acks_at: usize,
}

impl Census {
    pub fn new(first_packet: u32) -> Census {
        Census { frags: vec![], frames: vec![], seq: vec![], last: vec![], first: first_packet, past: 0, sent: 0, log_at: 0, acks_at: 0 }
    }

    pub fn passed(&self, pkt: usize) -> bool {
        match self.seq[pkt] {
            Some(s) => (s.wrapping_sub(self.first) & 0xFFFFF) < self.past,
            None => false,
        }
    }

    /// Takes note of the acknowledgements the sender has received and the frames it has sent since
    /// the last call, and checks C12's safety part. Called after every round.
    pub fn update(&mut self, w: &World) {
        self.seq.resize(w.pkts.len(), None);
        self.last.resize(w.pkts.len(), 0);
        // this round's time; the round is over
        let now = w.now - w.dt;
        let young = match w.a.hc.rtt_s() {
            Some(x) => (x * 4000.0) as u64,
            None => 600,
        };
        let acks = w.acks.as_ref().unwrap();
        while self.acks_at < acks.len() {
            if let Some(Frame::AckFrame(f)) = Frame::read(&acks[self.acks_at]) {
                for g in f.frame_acks.iter() {
                    let mut hit = vec![];
                    let mut ok = true;
                    for i in 0..32 {
                        if g.bitfield >> i & 1 == 1 {
                            if let Some(k) = self.frames.iter().position(|x| x.0 == g.base_id.wrapping_add(i)) {
                                for j in self.frames[k].2.clone() {
                                    self.frags[j].named = true;
                                }
                            }
                            match self.frames.iter().position(|x| x.0 == g.base_id.wrapping_add(i)) {
                                // the sender forgets old frames
                                Some(k) if now - self.frames[k].1 <= young => hit.push(k),
                                _ => ok = false,
                            }
                        }
                    }
                    if ok {
                        for k in hit {
                            for j in self.frames[k].2.clone() {
                                self.frags[j].acked = true;
                            }
                        }
                    }
                }
                let d = f.packet_window_base_id.wrapping_sub(self.first) & 0xFFFFF;
                if d <= self.sent && d > self.past {
                    self.past = d;
                }
            }
            self.acks_at += 1;
        }
        let log = w.log.as_ref().unwrap();
        while self.log_at < log.len() {
            let (time, bytes) = &log[self.log_at];
            self.log_at += 1;
            check!(bytes.len() <= uflow::MAX_FRAME_SIZE, "frame too large");
            if let Some(Frame::DataFrame(f)) = Frame::read(bytes) {
                let mut idx = vec![];
                for g in f.datagrams.iter() {
                    let n = g.sequence_id.wrapping_sub(self.first) & 0xFFFFF;
                    if n == self.sent {
                        self.sent += 1;
                        check!(g.fragment_id == 0, "first fragment first");
                        let i = w.identify(&g.data);
                        check!(self.seq[i].is_none(), "packet got two ids");
                        self.seq[i] = Some(g.sequence_id);
                        self.last[i] = g.fragment_id_last;
                    }
                    check!(n < self.sent, "ids are given out in order");
                    let pkt = self.seq.iter().position(|s| *s == Some(g.sequence_id)).unwrap();
                    let p = &w.pkts[pkt];
                    match self.frags.iter().position(|x| x.seq == g.sequence_id && x.id == g.fragment_id) {
                        Some(j) => {
                            let x = &mut self.frags[j];
                            check!(p.mode > 1, "Unreliable or TimeSensitive fragment sent again");
                            check!(!x.acked, "fragment sent again after its acknowledgement");
                            check!(n >= self.past, "fragment sent again after the receiver moved past the packet");
                            x.count += 1;
                            x.last = *time;
                            idx.push(j);
                        }
                        None => {
                            if g.fragment_id == 0 {
                                check!(p.mode > 0 || p.step == w.steps, "TimeSensitive packet sent after the next step()");
                            }
                            idx.push(self.frags.len());
                            self.frags.push(Frag { seq: g.sequence_id, id: g.fragment_id, pkt, count: 1, first: *time, last: *time, acked: false, named: false });
                        }
                    }
                }
                self.frames.push((f.sequence_id, *time, idx));
            }
        }
    }
}

impl Census {
    /// Persistent and Reliable fragments nothing has acknowledged have been transmitted within the
    /// last so many ms
    pub fn alive(&self, w: &World, ms: u64) {
        for f in self.frags.iter() {
            if w.pkts[f.pkt].mode > 1 && !f.named && !self.passed(f.pkt) {
                check!(w.now - f.last < ms, "fragment no longer transmitted although nothing acknowledged it");
                if f.count > 3 {
                    reach(91);
                }
            }
        }
    }

    /// Whether Persistent and Reliable fragments remain that nothing has acknowledged
    pub fn open(&self, w: &World) -> bool {
        self.frags.iter().any(|f| w.pkts[f.pkt].mode > 1 && !f.named && !self.passed(f.pkt))
    }
}

/// Equality as one condition instead of one branch per byte
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// Prints a frame when compiled with the feature "trace"
#[allow(unused_variables)]
pub fn dump(now: u64, who: &str, f: &[u8]) {
    #[cfg(feature = "trace")]
    match Frame::read(f) {
        Some(Frame::DataFrame(d)) => {
            eprint!("{} {}: data frame {} ({} bytes):", now, who, d.sequence_id as i32, f.len());
            for g in d.datagrams.iter() {
                eprint!(" [{} ch{} lead {}/{} frag {}/{} len {}]", g.sequence_id, g.channel_id, g.window_parent_lead, g.channel_parent_lead, g.fragment_id, g.fragment_id_last, g.data.len());
            }
            eprintln!();
        }
        Some(Frame::AckFrame(d)) => eprintln!("{} {}: ack bases {} {} groups {}", now, who, d.frame_window_base_id as i32, d.packet_window_base_id, d.frame_acks.iter().map(|g| format!("{}:{:x}", g.base_id as i32, g.bitfield)).collect::<Vec<_>>().join(",")),
        Some(Frame::SyncFrame(d)) => eprintln!("{} {}: sync {:?} {:?}", now, who, d.next_frame_id, d.next_packet_id),
        Some(x) => eprintln!("{} {}: {:?}", now, who, x),
        None => eprintln!("{} {}: unparsable, {} bytes", now, who, f.len()),
    }
}
