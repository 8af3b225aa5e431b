//! C10: timeouts fire after the configured silence, and only then.
use crate::app::*;
use crate::rt::*;
use crate::*;

entries!(h_c10_silence, h_c10_handshake, h_c10_closing, h_c10_idle, h_c10_short, h_c10_trickle);

/// Follows the silences of each connection
struct Mon {
    ev: usize,
    got: usize,
    /// server side?, port, time of the last frame if established
    last: Vec<(bool, u16, u64)>,
    t_srv: u64,
    t_cl: u64,
    /// longest interval between two steps
    gap: u64,
    errors: bool,
}

impl Mon {
    fn new(t_srv: u64, t_cl: u64, gap: u64, errors: bool) -> Mon {
        Mon { ev: 0, got: 0, last: vec![], t_srv, t_cl, gap, errors }
    }

    fn limit(&self, srv: bool) -> u64 {
        if srv {
            self.t_srv
        } else {
            self.t_cl
        }
    }

    /// Transmissions of a kind so far (of the latest handshake)
    fn sends(w: &App, up: bool, port: u16, kind: u8) -> Vec<u64> {
        let l: Vec<&Wire> = w.sent.iter().filter(|f| f.up == up && f.port == port && f.data[0] == kind).collect();
        l.iter().filter(|f| kind != SYN_ACK || word(&f.data, 5) == word(&l[l.len() - 1].data, 5)).map(|f| f.at).collect()
    }

    /// All tries made, 2 s apart, and 2 s waited for the last
    fn retries(&self, s: &Vec<u64>, now: u64, what: u64) {
        check!(s.len() == 11, "not 10 resends before the timeout");
        for i in 1..s.len() {
            check!(s[i] - s[i - 1] + self.gap >= 2000, "resent too early");
            check!(s[i] - s[i - 1] <= 2000 + self.gap, "resent too late");
        }
        check!(now - s[10] + self.gap >= 2000, "timeout too soon after the last resend");
        check!(now - s[10] <= 2000 + self.gap, "timeout too late after the last resend");
        check!(now - s[0] >= 22000, "timeout before the retry budget is over");
        reach(what as u32);
    }

    fn closing(w: &App, srv: bool, port: u16) -> bool {
        w.sent.iter().any(|f| f.up != srv && f.port == port && f.data[0] == DISC)
    }

    /// After a step of one side
    fn update(&mut self, w: &App, srv: bool) {
        let now = w.now;
        for f in &w.got[self.got..] {
            let counts = match f.data[0] {
                DATA | SYNC | DACK => true,
                // no others exist here than those of this handshake
                SYN_ACK => !f.up,
                ACK => f.up,
                _ => false,
            };
            if counts {
                for l in self.last.iter_mut() {
                    if l.0 == f.up && l.1 == f.port {
                        l.2 = f.at;
                    }
                }
            }
        }
        self.got = w.got.len();
        for e in &w.events[self.ev..] {
            let k = self.last.iter().position(|l| l.0 == e.srv && l.1 == e.port);
            match (&e.ev, k) {
                (Ev::Connect, _) => self.last.push((e.srv, e.port, e.at)),
                (Ev::Receive(_), _) => (),
                (Ev::Timeout, None) => {
                    if e.srv {
                        check!(self.errors, "handshake timeout reported although not asked for");
                        self.retries(&Self::sends(w, false, e.port, SYN_ACK), e.at, 10);
                    } else {
                        self.retries(&Self::sends(w, true, e.port, SYN), e.at, 11);
                    }
                }
                (Ev::Timeout, Some(k)) => {
                    let (_, _, t) = self.last.remove(k);
                    if Self::closing(w, e.srv, e.port) {
                        self.retries(&Self::sends(w, !e.srv, e.port, DISC), e.at, 12);
                    } else {
                        check!(e.at - t >= self.limit(e.srv), "timeout although the peer was heard of");
                        reach(13 + e.srv as u32);
                    }
                }
                (_, Some(k)) => {
                    self.last.remove(k);
                }
                _ => (),
            }
        }
        self.ev = w.events.len();
        for &(s, port, t) in &self.last {
            if s == srv && !Self::closing(w, s, port) {
                check!(now - t < self.limit(s), "no timeout although the peer is silent");
            }
        }
        // Tries end
        for c in &w.cl {
            for (up, kind) in [(true, SYN), (false, SYN_ACK), (true, DISC), (false, DISC)] {
                if up == srv {
                    continue;
                }
                let s = Self::sends(w, up, c.port, kind);
                if s.len() == 0 {
                    continue;
                }
                let mut open = !over(w, srv, c.port);
                if kind == SYN || kind == SYN_ACK {
                    open = open && w.connects(srv, c.port) == 0;
                    if kind == SYN_ACK && !self.errors {
                        open = false;
                    }
                }
                if open {
                    check!(now - s[0] < 22000 + 12 * self.gap, "no timeout although the retry budget is over");
                }
                check!(s.len() <= 11, "more than 10 resends");
            }
        }
    }
}

fn over(w: &App, srv: bool, port: u16) -> bool {
    w.ends(srv, port) > 0
}

struct S {
    w: App,
    m: Mon,
    /// steps per side: every so many ticks
    dt: u64,
}

impl S {
    fn new(t_srv: u64, t_cl: u64, dt: u64, ps: u64, pc: u64, keep: u64) -> S {
        let errors = true;
        let mut e = endpoint();
        e.active_timeout_ms = t_srv;
        e.keepalive = keep & 1 != 0;
        let mut c = server_config(e);
        c.enable_handshake_errors = errors;
        let mut w = App::new(c);
        w.srv_period = ps;
        w.cl_period = pc;
        let mut e = endpoint();
        e.active_timeout_ms = t_cl;
        e.keepalive = keep & 2 != 0;
        w.connect(e, None);
        S { w, m: Mon::new(t_srv, t_cl, dt * if ps > pc { ps } else { pc }, errors), dt }
    }

    fn round(&mut self) {
        let w = &mut self.w;
        if w.tick % w.srv_period == 0 {
            w.step_server();
            self.m.update(w, true);
        }
        if w.tick % w.cl_period == 0 {
            for i in 0..w.cl.len() {
                w.step_client(i);
            }
            self.m.update(w, false);
        }
        w.flush_all();
        w.pass(self.dt);
    }

    fn rounds(&mut self, n: u64) {
        for _ in 0..n {
            self.round();
        }
    }
}

/// Any active timeouts at all, a connection that falls silent.
/// params: rounds, cadences
#[no_mangle]
pub extern "C" fn h_c10_silence() {
    budget(1 << 40);
    let (dt, ps, pc) = [(700, 1, 1), (300, 1, 5), (450, 4, 1), (2500, 1, 1), (90, 7, 3)][choice(param(1)) as usize];
    let mut s = S::new(any_u64(), any_u64(), dt, ps, pc, range(0, 3));
    let n = param(0);
    // from when on nothing passes
    let up = range(2, n) * 3;
    let down = range(2, n) * 3;
    let busy = fork_bool();
    for k in 0..3 * n + 20 {
        if k >= up {
            s.w.blackout_up = true;
        }
        if k >= down {
            s.w.blackout_down = true;
        }
        if busy && k % 4 == 3 {
            let p = s.w.cl[0].port;
            s.w.client_send(0, vec![1; 10], 0, k % 4);
            s.w.server_send(p, vec![1; 10], 0, k % 4);
        }
        s.round();
    }
    reach(1);
}

/// Handshakes in which the network loses the first so many frames of each kind.
/// params: most losses, cadences, timeout at most so many seconds
#[no_mangle]
pub extern "C" fn h_c10_handshake() {
    budget(1 << 40);
    let (dt, ps, pc) = [(500, 1, 1), (1300, 1, 3), (900, 4, 1), (2700, 1, 1), (5500, 1, 1)][choice(param(1)) as usize];
    let mut t = [25000, 25000];
    t[range(0, 1) as usize] = range(0, param(2) * 1000);
    let mut s = S::new(t[0], t[1], dt, ps, pc, 0);
    let mut n = [range(0, 1), range(0, 1), range(0, 1)];
    n[range(0, 2) as usize] = range(0, param(0));
    let [syn, syn_ack, ack] = n;
    // (the first SYN has been sent)
    let port = s.w.cl[0].port;
    let mut lost = [0u64; 3];
    let mut k = 0;
    while s.w.now < 100000 && !(over(&s.w, false, port) && (over(&s.w, true, port) || s.w.now > 40000)) {
        if k == 0 && syn > 0 {
            s.w.flights.clear();
            lost[0] = 1;
        }
        s.round();
        // take out what is to be lost
        let mut i = 0;
        while i < s.w.flights.len() {
            let f = &s.w.flights[i];
            let j = match f.data[0] {
                SYN => 0,
                SYN_ACK => 1,
                ACK => 2,
                _ => 3,
            };
            // (each is seen once: it arrives in the next round)
            if j < 3 && lost[j] < [syn, syn_ack, ack][j] && f.at + 1 == s.w.tick + s.w.latency {
                lost[j] += 1;
                s.w.flights.remove(i);
            } else {
                i += 1;
            }
        }
        k += 1;
    }
    check!(over(&s.w, false, port) || s.w.connects(false, port) == 1, "the client still waits");
    reach(1);
}

/// One side disconnects; so many of its requests, and of the replies, are lost.
/// params: most losses, cadences
#[no_mangle]
pub extern "C" fn h_c10_closing() {
    budget(1 << 40);
    let (dt, ps, pc) = [(500, 1, 1), (1300, 1, 3), (900, 4, 1), (2700, 1, 1), (5500, 1, 1)][choice(param(1)) as usize];
    let t = any_u64();
    assume(t >= 22000 * 3);
    let mut s = S::new(t, t, dt, ps, pc, 0);
    let port = s.w.cl[0].port;
    s.rounds(4 * if ps > pc { ps } else { pc });
    check!(s.w.established(true, port) && s.w.established(false, port), "no connection");
    let by_server = fork_bool();
    let req = range(0, param(0));
    let rep = range(0, param(0));
    let both = fork_bool();
    if by_server || both {
        s.w.server_disconnect(port, true);
    }
    if !by_server || both {
        s.w.client(0).disconnect_now();
    }
    let (mut a, mut b) = (0, 0);
    while s.w.now < 100000 {
        s.round();
        let tick = s.w.tick;
        let lat = s.w.latency;
        s.w.flights.retain(|f| {
            if f.at + 1 != tick + lat {
                return true;
            }
            if f.data[0] == DISC && a < req {
                a += 1;
                return false;
            }
            if f.data[0] == DISC_ACK && b < rep {
                b += 1;
                return false;
            }
            true
        });
    }
    let sides = if both { vec![true, false] } else { vec![by_server] };
    for side in sides {
        check!(over(&s.w, side, port), "still closing");
    }
    reach(1);
}

/// Idle for a long time.
/// params: seconds of idleness, 1: with traffic before it, 1: rates and intervals of all kinds
#[no_mangle]
pub extern "C" fn h_c10_idle() {
    budget(1 << 40);
    let side = range(1, 3);
    let (dt, ps, pc) = [(100, 1, 1), (1000, 1, 1), (400, 1, 3), (400, 3, 1)][choice(4) as usize];
    let gap = dt * if ps > pc { ps } else { pc };
    let interval = if param(2) == 1 { pick(&[0, 300, 2000, 5000, 9000]) } else { 5000 };
    let rate = if param(2) != 1 {
        2_000_000
    } else if param(1) > 0 {
        pick(&[10_000, 100_000, 2_000_000]) as usize
    } else {
        pick(&[300, 1000, 1472, 10_000, 2_000_000]) as usize
    };
    // what is left of the timeout covers two hops and the steps of both sides
    // (documented: not sent faster than every 2 s, or RTO = max(4 RTT, time for two full frames))
    let rto = (2 * 1472 * 1000 / rate as u64 + 1).max(4 * (2 * dt + 2 * gap));
    let eff = interval.max(2000).max(rto);
    let slack = 2 * dt + 2 * gap;
    let t = eff + slack + range(1, 2);
    let mut e = endpoint();
    let timeout = if t < 20000 && param(2) == 1 { t } else { 20000 };
    e.active_timeout_ms = timeout;
    e.keepalive_interval_ms = interval;
    e.max_send_rate = rate;
    e.keepalive = side & 1 != 0;
    let mut f = e.clone();
    f.keepalive = side & 2 != 0;
    let mut w = App::new(server_config(e));
    w.srv_period = ps;
    w.cl_period = pc;
    w.connect(f, None);
    let port = w.cl[0].port;
    while w.now < 10000 && !(w.established(true, port) && w.established(false, port)) {
        w.round(dt);
    }
    check!(w.established(true, port) && w.established(false, port), "no connection");
    if param(1) > 0 {
        for _ in 0..param(1) {
            let mode = range(0, 3);
            w.client_send(0, vec![1; 4000], 0, mode);
            w.server_send(port, vec![1; 400], 0, 3 - mode);
            let n = choice(3) * 5;
            for _ in 0..n {
                w.round(dt);
            }
        }
    }
    // (what remains to be sent takes its time at low rates: that is not idleness)
    while w.client(0).send_buffer_size() > 0 {
        w.round(dt);
        if w.ends(true, port) + w.ends(false, port) > 0 {
            return;
        }
    }
    // (delays caused by the traffic count towards the RTO)
    let mut rtt = 0.0f64;
    rtt = rtt.max(w.client(0).rtt_s().unwrap_or(0.0));
    if let Some(c) = w.server.client(&addr(port)) {
        rtt = rtt.max(c.borrow().rtt_s().unwrap_or(0.0));
    }
    if eff.max((rtt * 4000.0) as u64) + slack >= timeout {
        reach(2);
        return;
    }
    let until = w.now + param(0) * 1000;
    while w.now < until {
        w.round(dt);
        check!(w.ends(true, port) == 0 && w.ends(false, port) == 0, "an idle connection did not last");
        w.got.clear();
        w.sent.clear();
    }
    reach(1);
}

/// A timeout which is longer than the keepalive interval, but not than 2 s.
#[no_mangle]
pub extern "C" fn h_c10_short() {
    let mut e = endpoint();
    e.keepalive_interval_ms = 500;
    e.active_timeout_ms = range(800, 2000);
    let mut w = App::new(server_config(e.clone()));
    w.connect(e, None);
    let port = w.cl[0].port;
    while w.now < 5000 {
        w.round(50);
    }
    reach(1);
    check!(
        w.ends(true, port) == 0 && w.ends(false, port) == 0,
        "active_timeout_ms of at most 2 s expires although keepalive_interval_ms is shorter"
    );
}

/// A peer that is heard of now and then, without keepalive.
/// params: frames
#[no_mangle]
pub extern "C" fn h_c10_trickle() {
    budget(1 << 40);
    let mut s = S::new(any_u64(), any_u64(), 200, 1, 1, 0);
    let port = s.w.cl[0].port;
    s.rounds(4);
    for _ in 0..param(0) {
        let what = range(0, 4);
        let after = pick(&[1, 7, 25]);
        match what {
            0 => s.w.client_send(0, vec![1; 10], 0, 3),
            1 => {
                s.w.server_send(port, vec![1; 10], 0, 1);
            }
            2 => {
                // an old frame again
                let f = s.w.sent.iter().rev().find(|f| f.data[0] >= DATA).cloned();
                if let Some(f) = f {
                    let at = s.w.tick;
                    s.w.flights.push(Wire { at, ..f });
                    reach(2);
                }
            }
            3 => {
                // the end of an attempt to deliver much
                s.w.client_send(0, vec![1; 3000], 0, 3);
                s.w.client(0).disconnect();
            }
            _ => s.w.flights.clear(),
        }
        s.rounds(after);
    }
    s.rounds(3);
    reach(1);
}
