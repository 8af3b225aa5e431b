//! C20: send_buffer_size() is the number of bytes accepted and neither acknowledged nor discarded.
//! Packet sizes are different powers of two, so the reported number says which packets are counted.
use crate::link::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::serial::Serialize;
use uflow::verif::frame::{AckFrame, Frame};

entries!(h_c20_traffic, h_c20_slow, h_c20_hostile, h_c20_app);

struct Model {
    c: Census,
    /// stale packets found discarded
    gone: Vec<bool>,
}

impl Model {
    fn new(first: u32) -> Model {
        Model { c: Census::new(first), gone: vec![] }
    }
    /// Called after every round. A packet sent as TimeSensitive may be discarded once it is stale,
    /// and stays so.
    fn check(&mut self, w: &World) {
        self.c.update(w);
        self.gone.resize(w.pkts.len(), false);
        let mut size = w.a.hc.send_buffer_size();
        check!(size < 1 << 32, "send_buffer_size underflow");
        for (i, p) in w.pkts.iter().enumerate() {
            let n = p.data.len();
            let counted = size & n != 0;
            size &= !n;
            if self.c.passed(i) {
                check!(!counted, "acknowledged packet still counted");
            } else if p.mode == 0 && self.c.seq[i].is_none() && p.step != w.steps {
                check!(!(counted && self.gone[i]), "discarded packet counted again");
                self.gone[i] = !counted;
            } else {
                check!(counted, "packet in flight or waiting is not counted");
            }
        }
        check!(size == 0, "bytes counted that belong to no packet");
    }
}

fn finish(w: &mut World, m: &mut Model) {
    let end = w.now + 600_000;
    while !(w.ab.is_empty() && w.ba.is_empty() && !w.a.hc.is_send_pending() && (0..w.pkts.len()).all(|i| m.c.seq[i].is_none() || m.c.passed(i))) {
        check!(w.now < end, "not everything was acknowledged");
        if w.now + 580_000 > end {
            w.dt = 1000;
        }
        w.round(|_| ());
        m.check(w);
    }
    check!(w.a.hc.send_buffer_size() == 0, "not zero after everything was acknowledged");
    reach(1);
}

fn world(cfg: &Cfg, dt: u64) -> (World, Model) {
    let mut w = World::new(cfg, dt);
    w.log = Some(vec![]);
    w.acks = Some(vec![]);
    (w, Model::new(cfg.a_packet))
}

/// p0 rounds with 2 packets, p1 / p2 faults there / back
#[no_mangle]
pub extern "C" fn h_c20_traffic() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 4, a_packet: 0xFFFFE, a_frame: 0xFFFFFFFE, ..Cfg::default() };
    let (mut w, mut m) = world(&cfg, param(3));
    w.dev_ab = param(1);
    w.dev_ba = param(2);
    for t in 0..param(0) {
        w.round(|w| {
            let md = range(0, 3);
            w.submit([1, 2048, 4, 8, 4096][t as usize], 0, md, 0);
            check!(w.a.hc.send_buffer_size() >= w.pkts[w.pkts.len() - 1].data.len(), "counted as soon as accepted");
            let md = range(0, 3);
            w.submit([64, 128, 256, 512, 1024][t as usize], 1, md, 0);
        });
        m.check(&w);
    }
    finish(&mut w, &mut m);
}

/// Little bandwidth, small receive buffer; several flushes between steps
#[no_mangle]
pub extern "C" fn h_c20_slow() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, alloc: pick(&[4400, 9000]) as usize, rate: pick(&[1500, 15_000]) as u32, ..Cfg::default() };
    let (mut w, mut m) = world(&cfg, pick(&[40, 300]));
    w.b_period = pick(&[1, 4]);
    w.dev_ab = param(1);
    for t in 0..param(0) {
        w.round(|w| {
            let k = 4 * t as usize;
            let sizes = [2048, 1, 1024, 2, 4096, 4, 512, 8, 8192, 16, 256, 32];
            let md = range(0, 3);
            w.submit(sizes[k], 0, md, 0);
            w.submit(sizes[k + 1], 1, 0, 0);
            if t == 1 {
                w.flush_a();
            }
            let md = range(0, 3);
            w.submit(sizes[k + 2], 0, md, 0);
            w.submit(sizes[k + 3], 0, 0, 0);
        });
        m.check(&w);
        w.flush_a();
        m.check(&w);
    }
    // packets that do not fit into the receive buffer are never sent
    if w.pkts.iter().any(|p| p.mode != 0 && p.data.len() > 8192) {
        return;
    }
    if cfg.alloc > 8200 || w.pkts.iter().all(|p| p.mode == 0 || p.data.len() <= 4344) {
        finish(&mut w, &mut m);
    }
    if m.gone.iter().any(|x| *x) {
        reach(2);
    }
}

/// Acknowledgements with arbitrary window bases at any time
#[no_mangle]
pub extern "C" fn h_c20_hostile() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, a_packet: 0xFFFFE, a_frame: 0xFFFFFFFE, ..Cfg::default() };
    let (mut w, mut m) = world(&cfg, 100);
    w.blackout_ba = true;
    for t in 0..param(0) {
        let f = Frame::AckFrame(AckFrame {
            frame_window_base_id: cfg.a_frame.wrapping_add(range(0, 9) as u32),
            packet_window_base_id: any_u32(),
            frame_acks: vec![],
        });
        // not through bytes: the checksum of symbolic contents is another property's business
        if let Frame::AckFrame(x) = &f {
            let d = x.packet_window_base_id.wrapping_sub(m.c.first) & 0xFFFFF;
            // nothing between the last packet sent and those with an id but still waiting
            assume((d <= m.c.sent) | (d > w.pkts.len() as u32));
            w.a.hc.handle_ack_frame(x.clone());
            let d = x.packet_window_base_id.wrapping_sub(m.c.first) & 0xFFFFF;
            if x.packet_window_base_id <= 0xFFFFF && d <= m.c.sent && d > m.c.past {
                m.c.past = d;
                reach(2);
            }
        }
        w.round(|w| {
            if t < 4 {
                let md = range(0, 3);
                w.submit([1, 2, 4, 8][t as usize], 0, md, 0);
                w.submit([16, 2048, 64, 128][t as usize], 0, 1, 0);
            }
        });
        m.check(&w);
    }
    reach(1);
}

/// One side of a real connection
struct Side {
    srv: bool,
    port: u16,
    /// size, mode, sequence id once emitted, acknowledged
    pkts: Vec<(usize, u64, Option<u32>, bool)>,
    gone: Vec<bool>,
    sent: usize,
    got: usize,
    /// packets submitted this round
    fresh: usize,
}

impl Side {
    fn new(srv: bool, port: u16) -> Side {
        Side { srv, port, pkts: vec![], gone: vec![], sent: 0, got: 0, fresh: 0 }
    }

    fn send(&mut self, w: &mut crate::app::App, mode: u64) {
        let k = self.pkts.len();
        // distinct powers of two, the first byte tells which
        let n = [4, 1024, 1, 2048, 8, 256, 2, 64, 16, 128, 32, 512][k % 12];
        let d = vec![k as u8; n];
        if self.srv {
            w.server_send(self.port, d, (k % 3) as u8, mode);
        } else {
            w.client_send(0, d, (k % 3) as u8, mode);
        }
        self.pkts.push((n, mode, None, false));
        self.gone.push(false);
        self.fresh += 1;
    }

    fn check(&mut self, w: &mut crate::app::App) {
        for f in &w.sent[self.sent..] {
            if f.up != self.srv && f.port == self.port {
                if let Some(Frame::DataFrame(d)) = Frame::read(&f.data) {
                    for g in d.datagrams.iter() {
                        self.pkts[g.data[0] as usize].2 = Some(g.sequence_id);
                    }
                }
            }
        }
        self.sent = w.sent.len();
        for f in &w.got[self.got..] {
            if f.up == self.srv && f.port == self.port {
                if let Some(Frame::AckFrame(a)) = Frame::read(&f.data) {
                    for p in self.pkts.iter_mut() {
                        if let Some(s) = p.2 {
                            p.3 |= a.packet_window_base_id.wrapping_sub(s + 1) & 0xFFFFF < 4096;
                        }
                    }
                }
            }
        }
        self.got = w.got.len();
        let mut size = if self.srv {
            w.server.client(&crate::app::addr(self.port)).unwrap().borrow().send_buffer_size()
        } else {
            w.client(0).send_buffer_size()
        };
        let n = self.pkts.len();
        for (i, p) in self.pkts.iter().enumerate() {
            let counted = size & p.0 != 0;
            size &= !p.0;
            if p.3 {
                check!(!counted, "acknowledged packet still counted");
            } else if p.1 == 0 && p.2.is_none() && i + self.fresh < n {
                check!(!(counted && self.gone[i]), "discarded packet counted again");
                self.gone[i] = !counted;
            } else {
                check!(counted, "packet in flight or waiting is not counted");
            }
        }
        check!(size == 0, "bytes counted that belong to no packet");
        self.fresh = 0;
    }
}

/// Client and server, from before the connection is there. params: packets each way, faults to the
/// server, to the client
#[no_mangle]
pub extern "C" fn h_c20_app() {
    use crate::app::*;
    budget(1 << 40);
    let mut w = App::new(server_config(endpoint()));
    w.connect(endpoint(), None);
    let port = w.cl[0].port;
    let mut c = Side::new(false, port);
    let mut s = Side::new(true, port);
    let dt = pick(&[20, 200]);
    // the connection request is lost for a while, or not; or the reply
    let dark = choice(3);
    w.blackout_up = dark == 1;
    w.blackout_down = dark == 2;
    if dark == 1 {
        w.flights.clear();
    }
    let n = param(0) as usize;
    for t in 0..5000 {
        if t == 3 {
            w.blackout_up = false;
            w.blackout_down = false;
            w.dev_up = param(1);
            w.dev_down = param(2);
        }
        if c.pkts.len() < n {
            let m = range(0, 3);
            c.send(&mut w, m);
            c.check(&mut w);
        }
        if w.established(true, port) && s.pkts.len() < n {
            let m = [3, 0, 2, 1, 0][(s.pkts.len() + dark as usize) % 5];
            s.send(&mut w, m);
            s.check(&mut w);
        }
        w.round(dt);
        c.check(&mut w);
        if w.established(true, port) {
            s.check(&mut w);
            let done = |l: &Side| l.pkts.len() == n && l.pkts.iter().zip(&l.gone).all(|(p, g)| p.3 || *g);
            if done(&c) && done(&s) {
                reach(1);
                return;
            }
        }
    }
    check!(false, "not everything was acknowledged");
}
