//! C17: the server's connection limits.
use crate::app::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::*;

entries!(h_c17_clients, h_c17_requests, h_c17_recover);

struct S {
    w: App,
    total: usize,
    active: usize,
    ports: Vec<u16>,
    /// established, as told by the events
    up: Vec<u16>,
    done: usize,
}

impl S {
    fn new(total: usize, active: usize, errors: bool) -> S {
        let mut e = endpoint();
        e.active_timeout_ms = 6000;
        let mut c = server_config(e);
        c.max_total_connections = total;
        c.max_active_connections = active;
        c.enable_handshake_errors = errors;
        S { w: App::new(c), total, active, ports: vec![], up: vec![], done: 0 }
    }

    fn connect(&mut self) -> usize {
        let mut e = endpoint();
        e.active_timeout_ms = 6000;
        let i = self.w.connect(e, None);
        self.ports.push(self.w.cl[i].port);
        i
    }

    fn known(&self, p: u16) -> bool {
        self.w.server.client(&addr(p)).is_some()
    }

    fn tracked(&self) -> usize {
        self.ports.iter().filter(|p| self.known(**p)).count()
    }

    /// Not counting those that are ending
    fn open(&self) -> usize {
        self.ports
            .iter()
            .filter(|p| self.known(**p) && (self.up.contains(p) || !self.w.events.iter().any(|e| e.srv && e.port == **p && e.ev == Ev::Connect)))
            .count()
    }

    fn drop(&mut self, p: u16) {
        self.w.server.drop(&addr(p));
        self.up.retain(|q| *q != p);
    }

    fn step_server(&mut self) {
        at(self.w.now);
        let fresh: Vec<u16> = self.ports.iter().copied().filter(|p| !self.known(*p)).collect();
        let (t0, o0) = (self.tracked(), self.open());
        let g = self.w.got.len();
        let s = self.w.sent.len();
        self.w.step_server();
        for e in &self.w.events[self.done..] {
            if e.srv {
                match e.ev {
                    Ev::Connect => {
                        check!(!self.up.contains(&e.port), "Connect twice");
                        self.up.push(e.port);
                    }
                    Ev::Receive(_) => (),
                    Ev::Full => check!(!self.up.contains(&e.port), "ServerFull for an established connection"),
                    _ => self.up.retain(|q| *q != e.port),
                }
                // at any point in the stream of events
                check!(self.up.len() <= self.active, "more established connections than allowed");
            }
        }
        self.done = self.w.events.len();
        let act = self.ports.iter().filter(|p| self.w.server.client(&addr(**p)).map_or(false, |c| c.borrow().is_active())).count();
        check!(act <= self.active, "more active clients than allowed");
        check!(self.tracked() <= self.total, "more tracked clients than allowed");
        let (t1, o1) = (self.tracked(), self.open());
        // every acceptable request of a new client is answered in the same step
        for f in self.w.got[g..].iter().filter(|f| f.up && f.data[0] == SYN && f.data.len() == 1472) {
            if !fresh.contains(&f.port) {
                continue;
            }
            let mut yes = 0;
            let mut no = 0;
            for r in self.w.sent[s..].iter().filter(|r| !r.up && r.port == f.port) {
                if r.data[0] == SYN_ACK {
                    yes += 1;
                }
                if r.data[0] == ERROR {
                    let mut same = 0;
                    for q in self.w.got[g..].iter().filter(|q| q.up && q.port == f.port && q.data[0] == SYN && q.data.len() == 1472) {
                        same |= ite(word(&r.data, 1) == word(&q.data, 2), 1, 0);
                    }
                    check!(r.data[5] == 2 && same == 1, "refused for the wrong reason");
                    no += 1;
                }
            }
            check!(yes + no >= 1, "no answer to a connection request");
            if t0.max(t1) < self.total && o0.max(o1) < self.active {
                check!(no == 0, "refused although there is room");
                reach(1);
            }
            if no > 0 {
                check!(t0.max(t1) >= self.total || o0.max(o1) >= self.active, "refused although there is room");
                reach(2);
            }
        }
    }

    fn round(&mut self, dt: u64) {
        self.step_server();
        for i in 0..self.w.cl.len() {
            self.w.step_client(i);
        }
        self.w.flush_all();
        self.w.pass(dt);
    }

    fn act(&mut self, i: usize, what: u64) {
        let p = self.w.cl[i].port;
        match what {
            1 => {
                if let Some(c) = self.w.cl[i].c.as_mut() {
                    c.disconnect()
                }
            }
            2 => {
                self.w.server_disconnect(p, true);
            }
            3 => self.drop(p),
            // the client's process ends: the server sees silence
            4 => self.w.cl[i].c = None,
            5 => {
                if let Some(c) = self.w.cl[i].c.as_mut() {
                    c.disconnect_now()
                }
            }
            _ => (),
        }
    }
}

/// Clients come and go.
/// params: clients, rounds, acts, faults
#[no_mangle]
pub extern "C" fn h_c17_clients() {
    let n = param(0);
    let rounds = param(1);
    let mut acts = param(2);
    let dt = pick(&[100, 2500]);
    let mut s = S::new(1 + choice(3) as usize, 1 + choice(3) as usize, dt == 100);
    s.w.dev_up = param(3);
    let mut left = n;
    for _ in 0..rounds {
        // connect any number of the remaining clients
        let k = choice(left + 1);
        for _ in 0..k {
            s.connect();
        }
        left -= k;
        if acts > 0 && !s.w.cl.is_empty() {
            let a = range(0, 5);
            if a != 0 {
                acts -= 1;
                let i = choice(s.w.cl.len() as u64) as usize;
                s.act(i, conc(a));
            }
        }
        s.round(dt);
    }
    for _ in 0..5 {
        s.round(dt);
    }
    // all end, time passes, and there is room again
    for i in 0..s.w.cl.len() {
        s.w.cl[i].c = None;
    }
    for _ in 0..30 {
        s.round(2100);
    }
    check!(s.tracked() == 0, "a client is still tracked after all have ended");
    let k = s.total.min(s.active);
    for _ in 0..k {
        s.connect();
    }
    for _ in 0..6 {
        s.round(2100);
    }
    check!(s.up.len() == k, "there is no room although all connections have ended");
    reach(3);
}

/// Requests and acknowledgements from bare addresses, in any order.
/// params: addresses, events
#[no_mangle]
pub extern "C" fn h_c17_requests() {
    let n = param(0);
    let m = param(1);
    let mut s = S::new(1 + choice(3) as usize, 1 + choice(3) as usize, false);
    for k in 0..n as u16 {
        s.ports.push(20001 + k);
    }
    for _ in 0..m {
        // several may arrive before one step
        for _ in 0..2 {
            let p = 20001 + choice(n) as u16;
            match choice(5) {
                0 => s.w.forge(
                    true,
                    p,
                    Frame::HandshakeSynFrame(HandshakeSynFrame {
                        version: 3,
                        nonce: 77 + s.w.tick as u32,
                        max_receive_rate: 1_000_000,
                        max_packet_size: 1_000_000,
                        max_receive_alloc: 1_000_000,
                    }),
                ),
                1 => {
                    let f = s.w.sent.iter().rev().find(|f| !f.up && f.port == p && f.data[0] == SYN_ACK).cloned();
                    if let Some(f) = f {
                        s.w.forge(true, p, Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: word(&f.data, 5) }));
                    }
                }
                2 => s.w.forge(true, p, Frame::DisconnectFrame(DisconnectFrame {})),
                3 => {
                    s.drop(p);
                }
                _ => (),
            }
        }
        s.step_server();
        s.w.pass(100);
    }
    reach(3);
}

/// How fast capacity returns: by then a refused client can connect.
#[no_mangle]
pub extern "C" fn h_c17_recover() {
    let total = 1 + choice(2) as usize;
    let mut s = S::new(total, total, true);
    for _ in 0..total {
        s.connect();
    }
    for _ in 0..4 {
        s.round(100);
    }
    check!(s.up.len() == total, "not connected");
    let i = s.connect();
    for _ in 0..4 {
        s.round(100);
    }
    let p = s.w.cl[i].port;
    check!(s.w.count(false, p, |e| *e == Ev::Full) == 1 && s.w.count(true, p, |e| *e == Ev::Full) == 1, "not refused with ServerFull");
    let what = 1 + choice(5);
    s.act(0, what);
    // closed connections are remembered for 20 s, silence lasts 6 s, disconnecting up to 22 s
    let mut waited = 0;
    loop {
        s.round(1000);
        waited += 1000;
        if s.tracked() < total {
            break;
        }
        check!(waited < 50_000, "capacity does not return");
    }
    check!(what != 3 || waited == 1000, "capacity not available after drop()");
    let j = s.connect();
    for _ in 0..4 {
        s.round(100);
    }
    let p = s.w.cl[j].port;
    check!(s.w.connects(true, p) == 1 && s.w.connects(false, p) == 1, "refused although capacity has returned");
    reach(3);
}
