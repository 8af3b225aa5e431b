//! C15: acknowledgements that are not genuine and fresh have no effect. Two equal pairs of endpoints
//! run side by side; in one, the sender receives additional acknowledgements. Both must behave
//! identically from then on.
use crate::link::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::serial::Serialize;
use uflow::verif::frame::{AckFrame, AckGroup, Frame};

entries!(h_c15_forged, h_c15_replay, h_c15_late);

struct Twins {
    /// undisturbed, disturbed
    w: [World; 2],
    /// what was sent: id, nonce, acknowledged
    frames: Vec<(u32, bool, bool)>,
    log_at: usize,
    acks_at: usize,
    cfg: Cfg,
}

fn world(cfg: &Cfg, dt: u64) -> World {
    let mut w = World::new(cfg, dt);
    w.log = Some(vec![]);
    w.acks = Some(vec![]);
    w
}

impl Twins {
    fn new(cfg: Cfg, dt: u64) -> Twins {
        Twins { w: [world(&cfg, dt), world(&cfg, dt)], frames: vec![], log_at: 0, acks_at: 0, cfg }
    }

    /// One round; the disturbed sender is given `extra` before its other input, or after it, or as
    /// part of it.
    fn round(&mut self, submit: impl Fn(&mut World), how: u64, extra: Option<AckFrame>) {
        at(self.w[0].now);
        env().drawn.clear();
        self.w[0].round(&submit);
        env().tape = std::mem::take(&mut env().drawn);
        if let Some(f) = extra {
            let w = &mut self.w[1];
            if how == 0 {
                w.a.hc.handle_ack_frame(f);
            } else {
                let due = World::arrivals(&mut w.ba, w.tick);
                for d in due {
                    w.acks.as_mut().unwrap().push(d.clone());
                    match Frame::read(&d) {
                        Some(Frame::AckFrame(mut g)) if how == 2 => {
                            // the same frame with more groups, in front
                            let mut v: Vec<AckGroup> = f.frame_acks.to_vec();
                            v.extend(g.frame_acks.iter().cloned());
                            g.frame_acks = v.into();
                            w.a.hc.handle_ack_frame(g);
                            reach(3);
                        }
                        _ => w.a.deliver(&d),
                    }
                }
                if how == 1 {
                    w.a.hc.handle_ack_frame(f);
                }
            }
        }
        self.w[1].round(&submit);
        check!(env().tape.is_empty(), "fewer frames sent because of an acknowledgement without effect");
        self.compare();
        let (log, acks) = (self.w[0].log.as_ref().unwrap(), self.w[0].acks.as_ref().unwrap());
        while self.log_at < log.len() {
            if let Some(Frame::DataFrame(f)) = Frame::read(&log[self.log_at].1) {
                self.frames.push((f.sequence_id, f.nonce, false));
            }
            self.log_at += 1;
        }
        while self.acks_at < acks.len() {
            if let Some(Frame::AckFrame(f)) = Frame::read(&acks[self.acks_at]) {
                for g in f.frame_acks.iter() {
                    for i in 0..32 {
                        if g.bitfield >> i & 1 == 1 {
                            for x in self.frames.iter_mut().filter(|x| x.0 == g.base_id.wrapping_add(i)) {
                                x.2 = true;
                            }
                        }
                    }
                }
            }
            self.acks_at += 1;
        }
    }

    fn compare(&self) {
        let (u, d) = (&self.w[0], &self.w[1]);
        let (lu, ld) = (u.log.as_ref().unwrap(), d.log.as_ref().unwrap());
        check!(lu.len() == ld.len(), "number of frames sent differs");
        for i in self.log_at..lu.len() {
            check!(same(&lu[i].1, &ld[i].1), "frames sent differ");
        }
        let bits = |w: &World| w.a.hc.rtt_s().map_or(0, |x| x.to_bits());
        check!(bits(u) == bits(d), "RTT estimate differs");
        check!(u.a.hc.send_buffer_size() == d.a.hc.send_buffer_size(), "send_buffer_size differs");
        check!(u.a.hc.is_send_pending() == d.a.hc.is_send_pending(), "pending differs");
    }

    /// What the receiver last said about its windows
    fn windows(&self) -> (u32, u32) {
        for f in self.w[0].acks.as_ref().unwrap().iter().rev() {
            if let Some(Frame::AckFrame(f)) = Frame::read(f) {
                return (f.frame_window_base_id, f.packet_window_base_id);
            }
        }
        (self.cfg.a_frame, self.cfg.a_packet)
    }

    /// Whether a group acknowledges something anew and proves it
    fn genuine(&self, g: &AckGroup) -> bool {
        let mut unknown = 0u32;
        let mut parity = 0u32;
        let mut fresh = 0u32;
        for i in 0..32 {
            let set = g.bitfield >> i & 1;
            let id = g.base_id.wrapping_add(i);
            let mut known = 0u32;
            for x in self.frames.iter() {
                let hit = (x.0 == id) as u32;
                known |= hit;
                parity ^= hit & set & x.1 as u32;
                fresh |= hit & set & !x.2 as u32;
            }
            unknown |= set & !known;
        }
        (unknown & 1 == 0) & (parity & 1 == g.nonce as u32) & (fresh & 1 == 1)
    }
}

/// After p1 packets (some of whose frames are lost), an arbitrary acknowledgement of p0 groups that
/// is not genuine; then traffic as before for p2 rounds. Frames' nonces are symbolic.
#[no_mangle]
pub extern "C" fn h_c15_forged() {
    budget(1 << 40);
    env().rand = Rand::Bit;
    let warm = pick(&[0, 4]);
    let cfg = Cfg { window: 16, a_frame: 0xFFFFFFFE, a_packet: 0xFFFFE, ..Cfg::default() };
    let mut t = Twins::new(cfg, pick(&[20, 200]));
    let sub = |w: &mut World| w.submit(3, 0, 3, 0);
    for _ in 0..warm {
        t.round(sub, 0, None);
    }
    let n = param(1);
    let lost = range(0, n);
    for i in 0..n {
        for w in t.w.iter_mut() {
            w.blackout_ab = i == lost;
        }
        t.round(sub, 0, None);
    }
    for w in t.w.iter_mut() {
        w.blackout_ab = false;
    }
    let (fb, pb) = t.windows();
    let mut v = vec![];
    for _ in 0..param(0) {
        let g = AckGroup {
            base_id: t.frames[0].0.wrapping_add(any_u32() & 0x8000_000F).wrapping_sub(4),
            bitfield: any_u32() & 0x8000_007F,
            nonce: any_bool(),
        };
        assume(!t.genuine(&g));
        v.push(g);
    }
    let how = choice(3);
    t.round(sub, how, Some(AckFrame { frame_window_base_id: fb, packet_window_base_id: pb, frame_acks: v.into() }));
    reach(1);
    for i in 0..param(2) {
        t.round(|w| if i < 3 { sub(w) }, 0, None);
    }
    if t.frames.iter().all(|x| x.2) {
        reach(2);
    }
}

/// Bulk traffic; p1 acknowledgements are repeated, any of those received so far, at any of the p0
/// rounds, some frames being lost; then p2 more rounds
#[no_mangle]
pub extern "C" fn h_c15_replay() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 64, rate: pick(&[40_000, 10_000_000]) as u32, ..Cfg::default() };
    let mut t = Twins::new(cfg, pick(&[30, 250]));
    let size = pick(&[200, 1448]) as usize;
    let lose = pick(&[0, 1, 5]);
    let sub = |w: &mut World| {
        for _ in 0..2 {
            if w.a.hc.send_buffer_size() < 40_000 {
                w.submit(size, 0, 2, 0);
            }
        }
    };
    let n = param(0);
    let mut left = param(1);
    for i in 0..n + param(2) {
        for w in t.w.iter_mut() {
            w.blackout_ab = lose > 0 && i % 7 == lose;
        }
        let have = t.w[0].acks.as_ref().unwrap().len() as u64;
        let mut extra = None;
        if i < n && left > 0 && have > 0 && any_bool() {
            left -= 1;
            let k = conc(range(0, have - 1)) as usize;
            let f = t.w[0].acks.as_ref().unwrap()[k].clone();
            if let Some(Frame::AckFrame(f)) = Frame::read(&f) {
                extra = Some(f);
                reach(1);
            }
        }
        let how = if extra.is_some() { range(0, 1) } else { 0 };
        t.round(sub, how, extra);
    }
    check!(t.frames.len() > 3, "no traffic");
}

/// A replay long after the traffic, or repeated copies in the round of the original
#[no_mangle]
pub extern "C" fn h_c15_late() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let mut t = Twins::new(Cfg { window: 16, ..Cfg::default() }, 50);
    let n = param(0);
    let sub = |w: &mut World| w.submit(300, 0, 3, 0);
    for _ in 0..n {
        t.round(sub, 0, None);
    }
    let quiet = pick(&[0, 3, 10, 30, 200]);
    for _ in 0..quiet {
        t.round(|_| (), 0, None);
    }
    let acks: Vec<Vec<u8>> = t.w[0].acks.as_ref().unwrap().clone();
    let next = World::arrivals(&mut t.w[0].ba.iter().map(|f| Flight { at: f.at, data: f.data.clone() }).collect(), t.w[0].tick);
    let all: Vec<Vec<u8>> = acks.into_iter().chain(next.into_iter()).collect();
    for _ in 0..param(1) {
        let k = conc(range(0, all.len() as u64 - 1)) as usize;
        if let Some(Frame::AckFrame(f)) = Frame::read(&all[k]) {
            let due = k >= t.w[0].acks.as_ref().unwrap().len();
            if due {
                reach(2);
            }
            t.round(sub, 1, Some(f));
            reach(1);
        }
    }
    for _ in 0..param(2) {
        t.round(sub, 0, None);
    }
}
