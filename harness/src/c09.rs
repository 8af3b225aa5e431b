//! C09: disconnect() delivers what is reliable first; every disconnection ends in time.
use crate::app::*;
use crate::rt::*;
use crate::*;

entries!(h_c09_flush, h_c09_blackout, h_c09_both, h_c09_bulk, h_c09_after);

/// What one side has submitted
struct Pkt {
    id: u8,
    len: usize,
    mode: u64,
}

struct S {
    w: App,
    i: usize,
    port: u16,
    dt: u64,
    /// longest interval between two steps of a side
    gap: u64,
    /// per side (0 client, 1 server): submitted before disconnect(), calls (0 none, 1 flush, 2 now)
    sub: [Vec<Pkt>; 2],
    call: [u64; 2],
    call_at: [u64; 2],
    /// steps of each side since its call of disconnect_now()
    steps: [u64; 2],
    /// since when nothing was left to send
    empty: [Option<u64>; 2],
    next: u8,
    ev: usize,
    dead: [bool; 2],
    /// the other side saw a Disconnect
    told: [bool; 2],
}

fn data(p: &Pkt) -> Vec<u8> {
    let mut v = vec![p.id; p.len];
    for (i, b) in v.iter_mut().enumerate().skip(1) {
        *b = (i >> 3) as u8 ^ p.id;
    }
    v
}

impl S {
    fn new(dt: u64, ps: u64, pc: u64, rate: usize, alloc: usize) -> S {
        budget(1 << 40);
        let mut e = endpoint();
        e.max_send_rate = rate;
        e.max_receive_alloc = alloc;
        e.max_packet_size = alloc;
        let mut w = App::new(server_config(e.clone()));
        w.srv_period = ps;
        w.cl_period = pc;
        let i = w.connect(e, None);
        let port = w.cl[i].port;
        let mut s = S {
            w,
            i,
            port,
            dt,
            gap: dt * ps.max(pc),
            sub: [vec![], vec![]],
            call: [0; 2],
            call_at: [0; 2],
            steps: [0; 2],
            empty: [None; 2],
            next: 1,
            ev: 0,
            dead: [false; 2],
            told: [false; 2],
        };
        for _ in 0..6 * ps.max(pc) {
            s.round();
        }
        check!(s.w.established(true, port) && s.w.established(false, port), "no connection");
        s
    }

    fn send(&mut self, srv: bool, len: usize, mode: u64, chan: u8) {
        let p = Pkt { id: self.next, len, mode };
        self.next += 1;
        let d = data(&p);
        if srv {
            if !self.w.server_send(self.port, d, chan, mode) {
                return;
            }
        } else {
            self.w.client_send(self.i, d, chan, mode);
        }
        let k = srv as usize;
        if self.call[k] == 0 && !self.dead[k] {
            self.sub[k].push(p);
        }
    }

    fn disconnect(&mut self, srv: bool, now: bool) {
        let k = srv as usize;
        if self.dead[k] {
            return;
        }
        if srv {
            self.w.server_disconnect(self.port, now);
        } else if now {
            self.w.client(self.i).disconnect_now();
        } else {
            self.w.client(self.i).disconnect();
        }
        self.call[k] = if now { 2 } else { 1 };
        self.call_at[k] = self.w.now;
        self.steps[k] = 0;
    }

    /// First transmission of a disconnect request
    fn request(&self, srv: bool) -> Option<u64> {
        self.w.sent.iter().find(|f| f.up != srv && f.port == self.port && f.data[0] == DISC).map(|f| f.at)
    }

    fn events(&mut self) {
        while self.ev < self.w.events.len() {
            let k = self.ev;
            self.ev += 1;
            let srv = self.w.events[k].srv;
            let side = srv as usize;
            match self.w.events[k].ev.clone() {
                Ev::Connect => (),
                Ev::Receive(_) => check!(!self.dead[side], "a packet was delivered after the end"),
                e => {
                    check!(!self.dead[side], "a second end");
                    self.dead[side] = true;
                    if e == Ev::Disconnect {
                        let peer = 1 - side;
                        check!(self.request(true).is_some() || self.request(false).is_some(), "Disconnect although none was requested");
                        // did the peer ask for it, without this side having asked for it first?
                        if self.call[side] == 0 {
                            check!(self.call[peer] > 0, "Disconnect although the peer requested none");
                            self.told[side] = true;
                            if self.call[peer] == 1 {
                                self.complete(peer, k);
                                reach(2);
                            }
                        }
                    }
                    if e == Ev::Timeout {
                        reach(3);
                    }
                }
            }
        }
        for srv in [false, true] {
            if let Some(t) = self.request(srv) {
                for side in 0..2 {
                    check!(
                        self.dead[side] || self.w.now <= t + 22000 + 12 * self.gap + 2 * self.dt,
                        "no end although the retry budget is over"
                    );
                }
            }
        }
    }

    /// All reliable packets of a side were delivered before event k
    fn complete(&self, side: usize, k: usize) {
        let got: Vec<&Vec<u8>> = self.w.events[..k]
            .iter()
            .filter(|e| e.srv != (side == 1) && e.port == self.port)
            .filter_map(|e| if let Ev::Receive(d) = &e.ev { Some(d) } else { None })
            .collect();
        for p in &self.sub[side] {
            let want = data(p);
            let found = got.iter().any(|d| d.len() == want.len() && d.iter().zip(&want).all(|(a, b)| a == b));
            check!(p.mode != 3 || found, "Disconnect before a reliable packet submitted earlier");
        }
    }

    fn pending(&self, srv: bool) -> usize {
        if srv {
            self.w.server.client(&addr(self.port)).map_or(0, |c| c.borrow().send_buffer_size())
        } else {
            self.w.cl[self.i].c.as_ref().unwrap().send_buffer_size()
        }
    }

    fn round(&mut self) {
        for srv in [true, false] {
            let period = if srv { self.w.srv_period } else { self.w.cl_period };
            if self.w.tick % period == 0 {
                let k = srv as usize;
                if srv {
                    self.w.step_server()
                } else {
                    self.w.step_client(self.i)
                }
                self.steps[k] += 1;
                // (whether something is left is known for sure only once a step has passed)
                if !self.dead[k] && self.call[k] == 2 && !self.w.events[self.ev..].iter().any(|e| e.srv == srv && !matches!(e.ev, Ev::Receive(_))) {
                    check!(self.request(srv).is_some(), "disconnect_now() did not send its request in the next step");
                    reach(4);
                }
                if !self.dead[k] && self.call[k] == 1 && self.pending(srv) == 0 && self.request(srv).is_none() {
                    let since = *self.empty[k].get_or_insert(self.w.now);
                    check!(self.w.now < since + 20000, "disconnect() did not send its request");
                } else {
                    self.empty[k] = None;
                }
                self.events();
            }
        }
        self.w.flush_all();
        self.events();
        self.w.pass(self.dt);
    }

    fn rounds(&mut self, n: u64) {
        for _ in 0..n {
            self.round();
        }
    }

    fn until_dead(&mut self, ms: u64) {
        let end = self.w.now + ms;
        while self.w.now < end && !(self.dead[0] && self.dead[1]) {
            self.round();
        }
        // a little longer, for what might follow
        self.rounds(4);
    }
}

fn cadence(n: u64) -> (u64, u64, u64) {
    [(60, 1, 1), (40, 3, 1), (40, 1, 4), (700, 1, 1)][choice(n) as usize]
}

/// What is queued when disconnect() is called, and how the network treats it.
/// params: packets, cadences, faults up, faults down
#[no_mangle]
pub extern "C" fn h_c09_flush() {
    let (dt, ps, pc) = cadence(param(1));
    let mut s = S::new(dt, ps, pc, 2_000_000, 1_000_000);
    let by = fork_bool();
    for k in 0..param(0) {
        let len = pick(&[3000, 0]) as usize;
        let m = range(0, 3);
        s.send(by, len, m, (k % 2) as u8);
    }
    // the other side is talking as well
    s.send(!by, 2000, 3, 0);
    if fork_bool() {
        s.rounds(2);
    }
    s.disconnect(by, false);
    s.w.dev_up = param(2);
    s.w.dev_down = param(3);
    s.until_dead(40000);
    check!(s.dead[0] && s.dead[1], "no end");
    // the peer was reachable
    check!(s.told[1 - by as usize], "the peer did not see a Disconnect");
    check!(s.w.events.iter().any(|e| e.srv == by && e.ev == Ev::Disconnect), "no Disconnect although the peer is reachable");
    reach(1);
}

/// The network fails, both ways or one way, for good or for a while.
/// params: rounds from the call on in which it may fail, cadences
#[no_mangle]
pub extern "C" fn h_c09_blackout() {
    let (dt, ps, pc) = cadence(param(1));
    let mut s = S::new(dt, ps, pc, 2_000_000, 1_000_000);
    let by = fork_bool();
    let now = fork_bool();
    for _ in 0..2 {
        let len = pick(&[5, 3000]) as usize;
        s.send(by, len, range(2, 3), 0);
    }
    s.send(!by, 100, 3, 0);
    let from = choice(param(0));
    let dir = range(1, 3);
    let from = from * 3;
    // rounds that it lasts
    let len = pick(&[2500, 7000, 15000, 18500, 100000]) / dt;
    let t0 = s.w.tick;
    s.disconnect(by, now);
    while s.w.tick < t0 + 400_000 / dt && !(s.dead[0] && s.dead[1]) {
        let k = s.w.tick - t0;
        let on = k >= from && k < from + len;
        s.w.blackout_up = on && dir & 1 != 0;
        s.w.blackout_down = on && dir & 2 != 0;
        s.round();
    }
    s.rounds(4);
    check!(s.dead[0] && s.dead[1], "no end");
    reach(1);
}

/// Both disconnect, at about the same time, over a faulty network.
/// params: rounds, cadences, faults up, faults down
#[no_mangle]
pub extern "C" fn h_c09_both() {
    let (dt, ps, pc) = cadence(param(1));
    let mut s = S::new(dt, ps, pc, 2_000_000, 1_000_000);
    for _ in 0..2 {
        s.send(false, 3000, 3, 0);
        s.send(true, 1000, 3, 0);
    }
    let first = fork_bool();
    let n = range(0, 1) == 1;
    s.disconnect(first, n);
    s.w.dev_up = param(2);
    s.w.dev_down = param(3);
    s.rounds(choice(param(0)));
    s.send(!first, 9, 3, 1);
    let n = range(0, 1) == 1;
    s.disconnect(!first, n);
    if range(0, 1) == 1 {
        s.disconnect(first, true);
    }
    s.until_dead(40000);
    check!(s.dead[0] && s.dead[1], "no end");
    reach(1);
}

/// Much is queued, at small rates or with little room at the receiver.
/// params: packets, faults up, faults down
#[no_mangle]
pub extern "C" fn h_c09_bulk() {
    let (rate, alloc) = [(20_000, 1_000_000), (2_000_000, 6_000), (4_000, 20_000)][choice(3) as usize];
    let mut s = S::new(30, 1, 1, rate, alloc);
    let by = fork_bool();
    let len = pick(&[5, 5000]) as usize;
    let mode = range(0, 3);
    for k in 0..param(0) {
        s.send(by, len, if k % 3 == 0 { mode } else { 3 }, (k % 2) as u8);
        if k % 5 == 0 {
            s.send(!by, 700, 3, 0);
            s.round();
        }
    }
    s.disconnect(by, false);
    s.rounds(3 * choice(3));
    s.w.dev_up = param(1);
    s.w.dev_down = param(2);
    s.until_dead(600_000);
    check!(s.dead[0] && s.dead[1], "no end");
    check!(s.told[1 - by as usize], "the peer did not see a Disconnect");
    reach(1);
}

/// Nothing of what the peer still sends is delivered after the end.
/// params: faults up, faults down
#[no_mangle]
pub extern "C" fn h_c09_after() {
    let mut s = S::new(60, 1, 1, 2_000_000, 1_000_000);
    let by = fork_bool();
    s.send(by, 3000, 3, 0);
    s.rounds(range(0, 3));
    s.send(!by, 3000, 3, 0);
    s.send(!by, 10, 1, 1);
    let now = fork_bool();
    s.disconnect(by, now);
    s.w.dev_up = param(0);
    s.w.dev_down = param(1);
    for _ in 0..6 {
        s.round();
        s.send(!by, 20, 3, 0);
        s.send(by, 20, 3, 0);
    }
    // everything that ever was under way comes again, to both sides
    let mut old = s.w.sent.clone();
    if fork_bool() {
        old.reverse();
    }
    for f in old {
        if f.data[0] >= DISC {
            let at = s.w.tick + 1;
            s.w.flights.push(Wire { at, ..f });
        }
    }
    s.until_dead(60000);
    check!(s.dead[0] && s.dead[1], "no end");
    reach(1);
}
