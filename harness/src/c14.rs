//! C14: the allowed send rate stays within the bounds of RFC 5348.
use crate::rt::*;
use crate::*;
use crate::link::*;
use uflow::verif::frame::{AckGroup, Frame};
use uflow::verif::frame::serial::Serialize;
use uflow::verif::{FeedbackData, FrameQueue, SendRateComp};

entries!(h_c14_steps, h_c14_first, h_c14_loss, h_c14_rtt, h_c14_silence, h_c14_reorder);

/// Section 3.1, with b = 1 and t_RTO = 4 R
fn equation(r: f64, p: f64) -> f64 {
    let s = 1472.0f64;
    let t = 4.0 * r;
    s / (r * (2.0 * p / 3.0).sqrt() + t * (3.0 * (3.0 * p / 8.0).sqrt() * p * (1.0 + 32.0 * p * p)))
}

/// The largest rate admitted by a bound given in bytes per second. Never less than the floor.
fn admit(x: f64) -> u64 {
    if x < 4294967295.0 { (x.max(0.0) as u64).max(23) } else { 4294967295 }
}

struct S {
    c: SendRateComp,
    ceiling: u32,
    now: u64,
    /// the rate after the last step
    rate: u64,
    rtt: Option<f64>,
    /// a loss has been reported
    lossy: bool,
    /// when the rate last rose in slow start
    rose: Option<u64>,
    started: bool,
    /// no feedback has arrived, and frames were sent, since then
    waiting: Option<u64>,
    first: bool,
    prev_loss: f64,
    /// Receive rates reported (X_recv_set): value, time, whether it is the initial one
    recv: Vec<(u64, u64, bool)>,
    /// The receive rate is symbolic: its product with 0.85 is beyond the solver
    open: bool,
}

impl S {
    fn new(ceiling: u32) -> S {
        let c = SendRateComp::new(ceiling);
        let mut s = S { c, ceiling, now: 0, rate: 0, rtt: None, lossy: false, rose: None, started: false, waiting: None, first: true, prev_loss: 0.0, recv: vec![], open: false };
        s.rate = s.get();
        check!(s.rate == 1472, "one segment per second at first");
        s
    }

    fn get(&mut self) -> u64 {
        // a count of bytes, kept in a double
        self.c.send_rate() as u64
    }

    fn sent(&mut self) {
        self.c.notify_frame_sent(self.now);
        self.started = true;
        let r = self.get();
        check!(r == self.rate, "sending does not change the rate");
    }

    fn common(&mut self, r: u64) {
        check!(r >= 23, "rate below s/64");
        check!(r <= self.ceiling as u64, "rate above the ceiling");
    }

    fn silence(&mut self) {
        self.c.step(self.now, None, |_| check!(false, "loss rate reset without feedback"));
        let r = self.get();
        self.common(r);
        check!(r <= self.rate, "rate rose without feedback");
        // once per step
        check!(r >= self.rate / 2, "rate more than halved");
        if r < self.rate {
            reach(1);
        }
        self.rate = r;
        // An expiry replaces the set by a smaller value
        if self.recv.len() > 0 {
            let m = self.recv_max().max(23);
            self.recv = vec![(m, self.now, false)];
        }
        check!(self.c.rtt_s() == self.rtt, "RTT estimate changed without feedback");
    }

    fn recv_max(&self) -> u64 {
        let mut m = 0;
        for x in &self.recv {
            m = ite(x.0 > m, x.0, m);
        }
        m
    }

    /// Section 4.3, steps 3 and 4: the limit the receive rates impose, from above
    fn recv_limit(&mut self, rate: u32, limited: bool, increase: bool, rtt: f64) -> u64 {
        const INF: u64 = u32::MAX as u64;
        let now = self.now;
        if self.first {
            self.recv = vec![(INF, now, true)];
            return INF;
        }
        let rate = rate as u64;
        // a millisecond for the rounding
        let old = 2 * (rtt * 1000.0 + 1.0) as u64;
        let mut lim = self.recv.clone();
        for x in lim.iter_mut() {
            x.0 = ite(now - x.1 < old, x.0, 0);
        }
        lim.push((rate, now, false));
        let mut dat = self.recv.clone();
        dat.retain(|x| !x.2);
        let mut r = rate;
        if increase {
            for x in dat.iter_mut() {
                x.0 /= 2;
            }
            r = rate * 85 / 100 + 1;
        }
        let mut m = r;
        for x in &dat {
            m = ite(x.0 > m, x.0, m);
        }
        if limited {
            self.recv = lim;
            (self.recv_max() * 2).min(INF)
        } else {
            self.recv = vec![(m, now, false)];
            if increase { if self.open { INF } else { m } } else { (m * 2).min(INF) }
        }
    }

    fn feedback(&mut self, rtt_ms: u64, receive_rate: u32, loss_rate: f64, rate_limited: bool) {
        let mut reset = None;
        self.c.step(self.now, Some(FeedbackData { rtt_ms, receive_rate, loss_rate, rate_limited }), |p| reset = Some(p));
        let r = self.get();
        if !self.started {
            check!(r == self.rate && self.c.rtt_s().is_none(), "feedback before anything was sent");
            return;
        }
        self.common(r);
        let sample = rtt_ms as f64 / 1000.0;
        let want = match self.rtt {
            Some(x) => 0.9 * x + 0.1 * sample,
            None => sample,
        };
        let got = self.c.rtt_s().unwrap();
        check!(got >= want - 1e-9 * (1.0 + want) && got <= want + 1e-9 * (1.0 + want), "RTT estimate is not the moving average");
        self.rtt = Some(got);
        let rtt = got;
        let limit = self.recv_limit(receive_rate, rate_limited, loss_rate > self.prev_loss, rtt);
        let was_lossy = self.lossy;
        if loss_rate > 0.0 {
            self.lossy = true;
        }
        if was_lossy {
            check!(reset.is_none(), "loss rate reset again");
            check!(r <= admit(equation(rtt, loss_rate) * 1.000001 + 1.0), "rate exceeds the throughput equation");
            check!(r <= limit.max(23), "rate exceeds what the receive rates admit");
            reach(4);
        } else if self.lossy {
            let p = reset.unwrap();
            check!(p > 0.0 && p <= 1.0, "loss rate was reset to");
            // it is found by bisection, to within five percent
            check!(r <= admit(equation(rtt, p) * 1.06 + 2.0), "rate exceeds the throughput equation at the initial loss rate");
            if self.first {
                check!(r <= admit(1472.0 / 2.0 / rtt * 1.000001 + 1.0), "first feedback reports loss: half a segment per RTT");
            } else {
                check!(r <= (self.rate / 2).max(23), "first loss halves the rate");
                check!(r <= limit.max(23), "rate exceeds what the receive rates admit");
            }
            reach(3);
        } else {
            check!(reset.is_none(), "loss rate reset without loss");
            let initial = admit(4380.0 / rtt * 1.000001 + 1.0);
            if self.first {
                check!(r <= initial, "first feedback: initial window per RTT");
            } else {
                check!(r <= (self.rate * 2).max(initial), "rate more than doubled");
                if r != self.rate {
                    check!(r <= limit.max(initial), "rate exceeds what the receive rates admit");
                }
                if r > self.rate {
                    // one millisecond for the rounding
                    check!(self.now + 1 >= self.rose.unwrap_or(0) + (rtt * 1000.0) as u64, "rate rose twice within an RTT");
                }
            }
            if self.first || r > self.rate {
                self.rose = Some(self.now);
            }
            reach(2);
        }
        self.first = false;
        self.prev_loss = loss_rate;
        self.rate = r;
    }
}

fn some(v: &[u64], mask: u64) -> u64 {
    let mut w = vec![];
    for (i, &x) in v.iter().enumerate() {
        if mask >> i & 1 == 1 {
            w.push(x);
        }
    }
    pick(&w)
}

const GAPS: [u64; 8] = [0, 20, 150, 700, 2500, 20_000, 200_000, 4_000_000_000];
const RTTS: [u64; 6] = [0, 1, 100, 700, 3000, 4_000_000];
/// millionths
const LOSS: [u64; 7] = [0, 1, 1000, 20_000, 150_000, 600_000, 1_000_000];

/// p0 events after the first transmission; p1, p2, p3 select gaps (0: any),
/// RTT samples, loss rates; p4: the
/// sender may be idle; p5: the
/// ceiling (1) is one of three, and so are the receive rates of the first p6 reports
#[no_mangle]
pub extern "C" fn h_c14_steps() {
    budget(1 << 40);
    let picked = param(5) == 1;
    let ceiling = if picked { pick(&[1472, 50_000, 0xFFFFFFFF]) as u32 } else { any_u32() };
    assume(ceiling >= 1472);
    let mut s = S::new(ceiling);
    s.now = 10_000;
    s.sent();
    for i in 0..param(0) {
        s.now += if param(1) == 0 { range(0, 0x1_0000_0000) } else { some(&GAPS, param(1)) };
        if fork_bool() {
            let rtt = some(&RTTS, param(2));
            let loss = some(&LOSS, param(3)) as f64 / 1e6;
            s.open = i >= param(6);
            let recv = if i < param(6) { pick(&[0, 1471, 30_000, 0xFFFFFFFF]) as u32 } else { any_u32() };
            s.feedback(rtt, recv, loss, any_bool());
        } else {
            s.silence();
        }
        if param(4) == 0 || fork_bool() {
            s.sent();
        }
    }
}

/// Before anything was sent
#[no_mangle]
pub extern "C" fn h_c14_first() {
    let mut s = S::new(any_u32().max(1472));
    for _ in 0..param(0) {
        s.now += range(0, 100_000);
        if any_bool() {
            s.feedback(range(0, 100_000), any_u32(), 0.5, any_bool());
        } else {
            s.silence();
        }
    }
}

/// Section 5.4. Lengths of the loss intervals, the open one first.
fn loss_event_rate(lens: &[u64]) -> f64 {
    let w = [1.0, 1.0, 1.0, 1.0, 0.8, 0.6, 0.4, 0.2];
    let k = (lens.len() - 1).min(8);
    let (mut i0, mut i1, mut wt) = (0.0, 0.0, 0.0);
    for i in 0..k {
        i0 += lens[i] as f64 * w[i];
        i1 += lens[i + 1] as f64 * w[i];
        wt += w[i];
    }
    wt / (if i0 > i1 { i0 } else { i1 })
}

/// p0 times: some of p1 (bits: 0, 1, 2, 3, 7, 40) frames arrive and one is lost, p2: within an RTT of the loss
/// before (1), after it (2), either (3). The loss event rate reported is that of section 5.
#[no_mangle]
pub extern "C" fn h_c14_loss() {
    let base = any_u32();
    let mut q = FrameQueue::new(4096, 4096, base);
    let rtt = 50;
    let mut now = 1000;
    let mut id = base;
    // all frames: sent at, arrived
    let mut sent: Vec<(u64, bool)> = vec![];
    for _ in 0..param(0) {
        let n = some(&[0, 1, 2, 3, 7, 40], param(1));
        for i in 0..n + 1 {
            if i == n {
                now += some(&[20, 120], param(2));
            }
            q.push(100, now, Box::new([]), i % 2 == 0);
            sent.push((now, i < n));
            id = id.wrapping_add(1);
        }
        for i in 0..n {
            let nonce = i % 2 == 0;
            q.acknowledge_group(AckGroup { base_id: id.wrapping_sub((n + 1 - i) as u32), bitfield: 1, nonce }, Some(rtt));
        }
    }
    // a frame counts as lost once three later ones arrived
    for _ in 0..3 {
        q.push(100, now, Box::new([]), true);
        sent.push((now, true));
        q.acknowledge_group(AckGroup { base_id: id, bitfield: 1, nonce: true }, Some(rtt));
        id = id.wrapping_add(1);
    }
    let p = q.get_feedback(now + rtt).unwrap().loss_rate;
    let mut lens: Vec<u64> = vec![];
    let mut start = 0;
    for (t, arrived) in sent.iter() {
        // Of the last three frames not all are certain to be counted already: they are, since
        // nothing before them is missing
        if !*arrived && (lens.len() == 0 || *t > start + rtt) {
            lens.insert(0, 0);
            start = *t;
        }
        if let Some(l) = lens.first_mut() {
            *l += 1;
        }
    }
    check!(p > 0.0 && p <= 1.0, "loss event rate out of range");
    if lens.len() > 1 {
        let want = loss_event_rate(&lens);
        check!((p - want) / want < 1e-9 && (want - p) / want < 1e-9, "loss event rate");
        reach(5);
    }
}

/// Traffic over p0 rounds of p1 ms, with p2/p3 faults there and back: the RTT estimate is the moving average of
/// the times from sending the last frame newly acknowledged until its acknowledgement is processed.
#[no_mangle]
pub extern "C" fn h_c14_rtt() {
    env().rand = Rand::Fixed;
    let cfg = Cfg { window: 8, a_frame: 0xFFFFFFFD, ..Cfg::default() };
    let mut w = World::new(&cfg, param(1));
    w.dev_ab = param(2);
    w.dev_ba = param(3);
    w.log = Some(vec![]);
    w.acks = Some(vec![]);
    let mut want: Option<f64> = None;
    // id, sent at, acknowledged
    let mut frames: Vec<(u32, u64, bool)> = vec![];
    let (mut at_log, mut at_ack) = (0, 0);
    for t in 0..param(0) {
        let now = w.now;
        w.latency = if param(4) == 1 { 1 + conc(range(0, 1)) * 4 } else { 1 };
        w.round(|w| {
            if t < 4 {
                w.submit(3, 0, 3, 0);
            }
        });
        let mut last = None;
        for f in &w.acks.as_ref().unwrap()[at_ack..] {
            if let Some(Frame::AckFrame(f)) = Frame::read(f) {
                for g in f.frame_acks.iter() {
                    for i in 0..32 {
                        if g.bitfield >> i & 1 == 1 {
                            for x in frames.iter_mut() {
                                if x.0 == g.base_id.wrapping_add(i) && !x.2 {
                                    x.2 = true;
                                    last = last.max(Some(x.1));
                                }
                            }
                        }
                    }
                }
            }
        }
        at_ack = w.acks.as_ref().unwrap().len();
        if let Some(l) = last {
            let sample = (now - l) as f64 / 1000.0;
            want = Some(match want {
                Some(x) => 0.9 * x + 0.1 * sample,
                None => sample,
            });
            reach(6);
        }
        match (want, w.a.hc.rtt_s()) {
            (Some(x), Some(y)) => check!(x - y < 1e-9 && y - x < 1e-9, "RTT estimate"),
            (None, None) => (),
            _ => check!(false, "RTT estimate known"),
        }
        for (time, f) in &w.log.as_ref().unwrap()[at_log..] {
            if let Some(Frame::DataFrame(d)) = Frame::read(f) {
                frames.push((d.sequence_id, *time, false));
            }
        }
        at_log = w.log.as_ref().unwrap().len();
    }
}

/// After p0 reports the receiver falls silent while frames are sent every second: the rate comes down.
#[no_mangle]
pub extern "C" fn h_c14_silence() {
    budget(1 << 40);
    let ceiling = pick(&[1472, 50_000, 0xFFFFFFFF]) as u32;
    let mut s = S::new(ceiling);
    s.now = 10_000;
    s.sent();
    for _ in 0..param(0) {
        s.now += some(&GAPS, 52);
        let loss = some(&LOSS, param(1)) as f64 / 1e6;
        let recv = pick(&[0, 1471, 30_000, 0xFFFFFFFF]) as u32;
        s.feedback(some(&RTTS, 6), recv, loss, any_bool());
        s.sent();
    }
    for _ in 0..3 {
        let before = s.rate;
        for _ in 0..400 {
            s.now += 1000;
            s.silence();
            s.sent();
        }
        check!(s.rate <= (before / 2).max(23), "rate not halved although frames have gone unanswered for 400 s");
    }
    reach(7);
}

/// p0 frames whose acknowledgements are lost or arrive out of order (p1: possible delays, in places;
/// bits: 0, 1, 2, 3, 5, never), sent in pairs p2 apart: those three later frames overtook count as
/// lost, and the loss event rate is that of section 5.
#[no_mangle]
pub extern "C" fn h_c14_reorder() {
    // the ids may wrap at any point
    let n = param(0) as usize;
    let base = if fork_bool() { any_u32() } else { 0u32.wrapping_sub(range(0, n as u64) as u32) };
    let mut q = FrameQueue::new(4096, 4096, base);
    let rtt = 50;
    let gap = pick(&[20, 60]);
    let mut now = 1000;
    // position, frame
    let mut order: Vec<(u64, usize)> = vec![];
    let mut sent = vec![];
    for i in 0..n + 5 {
        let nonce = i % 3 == 0;
        q.push(100, now, Box::new([]), nonce);
        sent.push(now);
        let d = if i < n { some(&[0, 1, 2, 3, 5, 1000], param(1)) } else { 0 };
        if d < 1000 {
            // ahead of those sent later that arrive in the same place
            order.push((i as u64 + d, i));
        }
        if i % 2 == 1 {
            now += gap;
        }
    }
    // by position, the later frame first
    for i in 1..order.len() {
        let mut j = i;
        while j > 0 && (order[j].0 < order[j - 1].0 || order[j].0 == order[j - 1].0 && order[j].1 > order[j - 1].1) {
            order.swap(j, j - 1);
            j -= 1;
        }
    }
    // the reference: frames below low are decided
    let mut low = 0;
    let mut here: Vec<usize> = vec![];
    let mut lens: Vec<u64> = vec![];
    let mut start = 0;
    for &(_, i) in &order {
        q.acknowledge_group(AckGroup { base_id: base.wrapping_add(i as u32), bitfield: 1, nonce: i % 3 == 0 }, Some(rtt));
        if i >= low {
            here.push(i);
            here.sort();
            loop {
                if here.len() > 0 && here[0] == low {
                    here.remove(0);
                    if let Some(l) = lens.first_mut() {
                        *l += 1;
                    }
                    low += 1;
                } else if here.len() >= 3 {
                    if lens.len() == 0 || sent[low] > start + rtt {
                        lens.insert(0, 0);
                        start = sent[low];
                    }
                    lens[0] += 1;
                    low += 1;
                } else {
                    break;
                }
            }
        } else {
            reach(9);
        }
        if let Some(f) = q.get_feedback(now + rtt) {
            if lens.len() == 0 {
                check!(f.loss_rate == 0.0, "loss reported without loss");
                reach(10);
            } else {
                check!(f.loss_rate > 0.0 && f.loss_rate <= 1.0, "loss event rate out of range");
                if lens.len() > 1 {
                    let want = loss_event_rate(&lens);
                    let d = f.loss_rate - want;
                    check!(d / want < 1e-9 && d / want > -1e-9, "loss event rate");
                    reach(8);
                }
            }
        }
    }
    check!(low == n + 5, "all are decided in the end");
}
