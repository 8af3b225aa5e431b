//! C13: bytes on the wire against the ceiling.
use crate::link::*;
use crate::rt::*;
use crate::*;

entries!(h_c13_bulk, h_c13_idle, h_c13_acks, h_c13_faults, h_c13_times, h_c13_trickle);

struct Log {
    /// microseconds, bytes, RTT estimate in seconds (the larger of those before and after step())
    e: Vec<(u64, usize, f64)>,
    rtt: f64,
}

struct Line {
    now: u64,
    a: Ep,
    b: Ep,
    log: Log,
    ab: Vec<(u64, Vec<u8>)>,
    ba: Vec<(u64, Vec<u8>)>,
    /// one way, microseconds
    latency: u64,
    drop_ab: u64,
    drop_ba: u64,
}

impl Line {
    fn new(cfg: &Cfg, latency: u64) -> Line {
        let (a, b) = pair(cfg);
        Line { now: 0, a, b, log: Log { e: vec![], rtt: 0.0 }, ab: vec![], ba: vec![], latency, drop_ab: 0, drop_ba: 0 }
    }

    fn lost(n: &mut u64) -> bool {
        if *n > 0 && range(0, 1) == 1 {
            *n -= 1;
            reach(101);
            return true;
        }
        false
    }

    fn round(&mut self, dt: u64, flushes: u64, b_steps: bool, f: impl FnOnce(&mut Line)) {
        self.now += dt;
        env().ms = self.now / 1000;
        env().ns = (self.now % 1000 * 1000) as u32;
        let mut k = 0;
        while k < self.ab.len() {
            if self.ab[k].0 <= self.now {
                let x = self.ab.remove(k).1;
                self.b.deliver(&x);
            } else {
                k += 1;
            }
        }
        k = 0;
        while k < self.ba.len() {
            if self.ba[k].0 <= self.now {
                let x = self.ba.remove(k).1;
                self.a.deliver(&x);
            } else {
                k += 1;
            }
        }
        let before = self.a.hc.rtt_s().unwrap_or(0.0);
        self.a.hc.receive(&mut self.a.got);
        self.a.hc.step();
        self.log.rtt = before.max(self.a.hc.rtt_s().unwrap_or(0.0));
        f(self);
        for _ in 0..flushes {
            self.flush_a();
        }
        if b_steps {
            self.b.hc.receive(&mut self.b.got);
            self.b.hc.step();
            self.b.hc.flush(&mut self.b.out);
            for f in self.b.take() {
                if !Self::lost(&mut self.drop_ba) {
                    self.ba.push((self.now + self.latency, f));
                }
            }
        }
    }

    fn flush_a(&mut self) {
        self.a.hc.flush(&mut self.a.out);
        for f in self.a.take() {
            dump(self.now, "a", &f);
            self.log.e.push((self.now, f.len(), self.log.rtt));
            if !Self::lost(&mut self.drop_ab) {
                self.ab.push((self.now + self.latency, f));
            }
        }
    }

    /// All intervals that start and end with a transmission
    fn judge(&self, ceiling: u32) {
        let e = &self.log.e;
        for i in 0..e.len() {
            let mut sum = 0usize;
            let mut rtt: f64 = 0.0;
            for j in i..e.len() {
                sum += e[j].1;
                rtt = rtt.max(e[j].2);
                let dt = (e[j].0 - e[i].0) as f64 * 1e-6;
                let limit = ceiling as f64 * (dt + rtt) + 1472.0;
                let over = sum as f64 > limit + 1.0;
                if over {
                    print("from ");
                    print_u64(e[i].0);
                    print(" to ");
                    print_u64(e[j].0);
                    print(" us: bytes ");
                    print_u64(sum as u64);
                    print(" limit ");
                    print_u64(limit as u64);
                    print(" rtt_us ");
                    print_u64((rtt * 1e6) as u64);
                    print("\n");
                }
                check!(!over, "more bytes than the ceiling admits");
            }
        }
        if e.len() > 20 {
            reach(1);
        }
    }
}

fn ceiling() -> u32 {
    pick(&[1472, 4321, 60_000, 1_000_000]) as u32
}

/// Plenty of data, regular steps (some shorter than a millisecond, some irregular), repeated flushes
#[no_mangle]
pub extern "C" fn h_c13_bulk() {
    let rate = ceiling();
    let cfg = Cfg { window: 4096, alloc: 10_000_000, rate, ..Cfg::default() };
    let mut l = Line::new(&cfg, pick(&[100, 30_000, 400_000]));
    let dt: &[u64] = match choice(5) {
        0 => &[333],
        1 => &[999, 1, 3000],
        2 => &[20_000],
        3 => &[1000, 250_000, 0, 10],
        _ => &[1_500_000, 7],
    };
    let flushes = pick(&[1, 3]);
    let size = pick(&[1, 600, 5000]) as usize;
    let n = param(0);
    for t in 0..n {
        l.round(dt[t as usize % dt.len()], flushes, true, |l| {
            if t % 8 == 0 {
                for k in 0..12 {
                    l.a.send(vec![k; size], 0, mode_of(1 + k as u64 % 3));
                }
            }
        });
        if l.log.e.len() as u64 > param(1) {
            break;
        }
    }
    l.judge(rate);
}

/// Idle periods before and between bursts
#[no_mangle]
pub extern "C" fn h_c13_idle() {
    let rate = ceiling();
    let cfg = Cfg { window: 4096, alloc: 10_000_000, rate, keepalive: Some(pick(&[500, 5000])), ..Cfg::default() };
    let mut l = Line::new(&cfg, pick(&[1000, 120_000]));
    let dt = pick(&[5_000, 50_000]);
    for phase in 0..param(0) {
        let idle = pick(&[0, 200_000, 3_000_000]);
        // the application may or may not keep stepping meanwhile
        if fork_bool() {
            l.round(idle, 1, true, |_| ());
        } else {
            for _ in 0..10 {
                l.round(idle / 10, 1, true, |_| ());
            }
        }
        for t in 0..param(1) {
            l.round(dt, 1 + phase % 2, true, |l| {
                if t == 0 {
                    for k in 0..40 {
                        l.a.send(vec![k; 1448], 0, mode_of(1 + k as u64 % 3));
                    }
                }
            });
        }
    }
    l.judge(rate);
}

/// The sender never has much waiting, but more per second than the ceiling admits.
/// params: rounds, emissions
#[no_mangle]
pub extern "C" fn h_c13_trickle() {
    budget(1 << 40);
    let rate = pick(&[4321, 60_000, 1_000_000]) as u32;
    let cfg = Cfg { window: 4096, alloc: 10_000_000, rate, ..Cfg::default() };
    let mut l = Line::new(&cfg, pick(&[1000, 50_000, 400_000]));
    // so that the rate is at the ceiling
    for t in 0..param(2) {
        l.round(100_000, 1, true, |l| {
            while l.a.hc.send_buffer_size() < rate as usize {
                l.a.send(vec![t as u8; 1448], 0, mode_of(3));
            }
        });
    }
    for _ in 0..200 {
        if l.a.hc.send_buffer_size() > 0 {
            l.round(50_000, 1, true, |_| ());
        }
    }
    l.log.e.clear();
    let dt = pick(&[2_000, 25_000]);
    // times the ceiling
    let factor = pick(&[1, 4]);
    let size = pick(&[30, 700, 1448]);
    let mut due = 0;
    for _ in 0..param(0) {
        due += rate as u64 * factor * dt / 1_000_000;
        l.round(dt, 1, true, |l| {
            while due >= size && l.a.hc.send_buffer_size() < 30_000 {
                l.a.send(vec![1; size as usize], 0, mode_of(1 + due % 3));
                due -= size;
            }
        });
        if l.log.e.len() as u64 > param(1) {
            break;
        }
    }
    l.judge(rate);
}

/// a is sent a lot in small frames, and its acknowledgements fall due in heaps; sync requests too
#[no_mangle]
pub extern "C" fn h_c13_acks() {
    use uflow::verif::frame::*;
    let rate = ceiling();
    let cfg = Cfg { window: 4096, rate, keepalive: Some(2000), ..Cfg::default() };
    let mut l = Line::new(&cfg, 10_000);
    let dt = pick(&[100, 3_000, 400_000]);
    let gap = pick(&[1, 33, 100]) as u32;
    let mut id = cfg.b_frame;
    let per = pick(&[1, 40]);
    for t in 0..param(0) {
        l.round(dt, 2, false, |l| {
            for _ in 0..per {
                l.a.hc.handle_data_frame(DataFrame { sequence_id: id, nonce: id & 1 == 0, datagrams: vec![] });
                id = id.wrapping_add(gap);
            }
            if t % 3 == 0 {
                l.a.hc.handle_sync_frame(SyncFrame { next_frame_id: None, next_packet_id: None });
            }
            if t == 10 {
                for k in 0..20 {
                    l.a.send(vec![k; 1000], 0, mode_of(3));
                }
            }
        });
        if l.log.e.len() as u64 > param(1) {
            break;
        }
    }
    l.judge(rate);
}

/// Loss of frames chosen by the solver
#[no_mangle]
pub extern "C" fn h_c13_faults() {
    let rate = pick(&[1472, 30_000]) as u32;
    let cfg = Cfg { window: 16, alloc: 100_000, rate, ..Cfg::default() };
    let mut l = Line::new(&cfg, pick(&[20_000, 200_000]));
    let dt = pick(&[40_000, 150_000]);
    for t in 0..param(0) {
        if t == 2 {
            l.drop_ab = param(1);
            l.drop_ba = param(2);
        }
        l.round(dt, 2, true, |l| {
            if t % 4 == 0 {
                for k in 0..4 {
                    l.a.send(vec![k; 700], 0, mode_of(1 + k as u64 % 3));
                }
            }
        });
        if l.log.e.len() as u64 > param(3) {
            break;
        }
    }
    l.judge(rate);
}

/// Steps at any times: p0 steps, each up to p1 ms after the one before, with p2 flushes each, after
/// a warm-up of p3 rounds that establishes a round-trip time
#[no_mangle]
pub extern "C" fn h_c13_times() {
    let rate = ceiling();
    let cfg = Cfg { window: 4096, alloc: 10_000_000, rate, ..Cfg::default() };
    let size = pick(&[10, 1448]) as usize;
    let mut l = Line::new(&cfg, pick(&[20_000, 150_000]));
    for t in 0..param(3) {
        l.round(50_000, 1, true, |l| {
            if t < 4 {
                l.a.send(vec![t as u8; 20], 0, mode_of(3));
            }
        });
    }
    for k in 0..200 {
        l.a.send(vec![k; size], 0, mode_of(1 + k as u64 % 3));
    }
    let mut ms = l.now / 1000;
    // time in ms, bytes; nothing arrives, so that the estimate stays
    let mut e: Vec<(u64, u64)> = vec![];
    let rtt = l.a.hc.rtt_s().unwrap_or(0.0);
    let slack = (rate as f64 * rtt * 1000.0) as u64;
    for _ in 0..param(0) {
        ms += range(0, param(1));
        env().ms = ms;
        env().ns = 0;
        l.a.hc.step();
        for _ in 0..param(2) {
            l.a.hc.flush(&mut l.a.out);
            for f in l.a.take() {
                e.push((ms, f.len() as u64));
            }
            check!(l.a.hc.rtt_s().unwrap_or(0.0) == rtt, "the RTT estimate changes without feedback");
        }
    }
    for i in 0..e.len() {
        let mut sum = 0;
        for j in i..e.len() {
            sum += e[j].1;
            // in thousandths of a byte
            if sum > 1472 {
                check!((sum - 1472 - 1) * 1000 <= rate as u64 * (e[j].0 - e[i].0) + slack, "more bytes than the ceiling admits");
            }
        }
    }
    if e.len() > 2 {
        reach(1);
    }
}
