//! Packets between clients and a server in both directions, from before the connection exists.
use crate::app::*;
use crate::rt::*;
use crate::*;

struct Pkt {
    chan: u8,
    mode: u64,
    data: Vec<u8>,
    delivered: bool,
}

pub struct Flow {
    pub w: App,
    /// per client: to the server, to the client
    pkts: Vec<[Vec<Pkt>; 2]>,
    ev: usize,
    /// 1: nothing but what C01 asks for, 2: no Reliable packet is skipped, 5: all in order
    strict: u64,
}

const SIZES: [usize; 6] = [3, 40, 1449, 5, 12, 300];

impl Flow {
    pub fn new(clients: usize, strict: u64, alloc: usize, rate: usize) -> Flow {
        budget(1 << 40);
        let mut e = endpoint();
        e.max_receive_alloc = alloc;
        e.max_packet_size = 3000;
        e.max_send_rate = rate;
        let mut w = App::new(server_config(e.clone()));
        let mut pkts = vec![];
        for _ in 0..clients {
            w.connect(e.clone(), None);
            pkts.push([vec![], vec![]]);
        }
        Flow { w, pkts, ev: 0, strict }
    }

    /// to: 0 the server, 1 the client
    pub fn send(&mut self, i: usize, to: usize, size: usize, chan: u8, mode: u64) {
        let n = self.pkts[i][to].len();
        let mut data = vec![(i * 2 + to) as u8; size];
        data[1] = n as u8;
        data[2] = if n < 2 { any_u8() } else { n as u8 ^ 0x5A };
        for k in 3..size {
            data[k] = (k * 5 + k / 256 + n) as u8;
        }
        if to == 0 {
            self.w.client_send(i, data.clone(), chan, mode);
        } else {
            let port = self.w.cl[i].port;
            // (documented: packets for a connection not yet active are discarded)
            if !self.w.established(true, port) {
                return;
            }
            self.w.server_send(port, data.clone(), chan, mode);
        }
        self.pkts[i][to].push(Pkt { chan, mode, data, delivered: false });
    }

    pub fn round(&mut self, dt: u64) {
        self.w.round(dt);
        while self.ev < self.w.events.len() {
            let e = &self.w.events[self.ev];
            self.ev += 1;
            let i = self.w.cl.iter().position(|c| c.port == e.port);
            check!(i.is_some(), "an event for an address without client");
            let i = i.unwrap();
            match &e.ev {
                Ev::Connect => (),
                Ev::Receive(d) => {
                    let to = !e.srv as usize;
                    let known = d.len() >= 3 && d[0] == (i * 2 + to) as u8 && (d[1] as usize) < self.pkts[i][to].len();
                    check!(known, "a packet nobody sent here was delivered");
                    let n = d[1] as usize;
                    let l = &mut self.pkts[i][to];
                    check!(crate::link::same(d, &l[n].data), "contents of a delivered packet");
                    check!(!l[n].delivered, "packet delivered twice");
                    l[n].delivered = true;
                    for p in &l[n + 1..] {
                        let clash = p.delivered && (self.strict == 5 || p.chan == l[n].chan);
                        check!(!clash, "packet delivered after a later one");
                    }
                    for p in &l[..n] {
                        if self.strict == 2 {
                            check!(p.delivered || p.mode != 3 || p.chan != l[n].chan, "Reliable packet skipped");
                        }
                        if self.strict == 5 {
                            check!(p.delivered || p.mode == 0, "packet missing");
                        }
                    }
                }
                _ => check!(false, "the connection ends"),
            }
        }
    }

    /// The network works from now on
    pub fn settle(&mut self, dt: u64, limit: u64) {
        self.w.dev_up = 0;
        self.w.dev_down = 0;
        let end = self.w.now + limit;
        loop {
            let mut idle = self.w.flights.is_empty();
            for i in 0..self.pkts.len() {
                let port = self.w.cl[i].port;
                idle &= self.w.established(true, port) && self.w.established(false, port);
                idle &= self.w.client(i).send_buffer_size() == 0;
                idle &= match self.w.server.client(&addr(port)) {
                    Some(c) => c.borrow().send_buffer_size() == 0,
                    None => false,
                };
            }
            if idle {
                break;
            }
            if self.w.now >= end {
                if self.strict == 1 {
                    return;
                }
                check!(false, "still something to send long after the network recovered");
            }
            self.round(dt);
        }
        for _ in 0..6 {
            self.round(dt);
        }
        for c in &self.pkts {
            for l in c {
                for p in l {
                    let due = (self.strict == 2 && p.mode == 3) || (self.strict == 5 && p.mode != 0);
                    check!(p.delivered || !due, "packet not delivered");
                    if p.delivered {
                        reach(11 + p.mode as u32);
                    }
                }
            }
        }
        reach(1);
    }
}

/// params: rounds of sending, symbolic modes and channels among the first packets, faults to the
/// server and to the clients
pub fn run(strict: u64) {
    let (dt, clients, alloc) = [(20, 2, 100_000), (200, 1, 6000), (200, 2, 6000)][choice(3) as usize];
    let mut f = Flow::new(clients, strict, alloc, 1_000_000);
    if strict != 5 {
        // network faults from the start, or in the midst of it
        if fork_bool() {
            f.w.dev_up = param(2);
            f.w.dev_down = param(3);
        }
    } else {
        f.w.srv_period = pick(&[1, 3]);
    }
    let n = param(0);
    let mut symbolic = param(1);
    for t in 0..n {
        if t == 4 && strict != 5 {
            f.w.dev_up = param(2);
            f.w.dev_down = param(3);
        }
        for i in 0..clients {
            for to in 0..2 {
                let k = f.pkts[i][to].len() + i + to;
                for _ in 0..1 + t % 2 {
                    let (c, m) = if symbolic > 0 && f.w.cl.len() > 0 {
                        symbolic -= 1;
                        (range(0, 2) as u8, range(0, 3))
                    } else {
                        ((t * 7 / 3 % 3) as u8, [3, 1, 2, 0, 3, 2][k % 6])
                    };
                    f.send(i, to, SIZES[(k + t as usize) % 6], c, m);
                }
            }
        }
        f.round(dt);
    }
    f.settle(dt, 300_000);
}
