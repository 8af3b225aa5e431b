//! C08: the events of a connection, for every interleaving of calls, faults and timers.
use crate::app::*;
use crate::rt::*;
use crate::*;

entries!(h_c08_script, h_c08_handshake, h_c08_crossing, h_c08_reconnect, h_c08_many);

struct S {
    w: App,
    m: Stream,
    errors: bool,
}

impl S {
    fn new(timeout: u64) -> S {
        let mut e = endpoint();
        e.active_timeout_ms = timeout;
        let mut c = server_config(e);
        c.enable_handshake_errors = fork_bool();
        let errors = c.enable_handshake_errors;
        S { w: App::new(c), m: Stream::default(), errors }
    }

    fn connect(&mut self, timeout: u64, port: Option<u16>) -> usize {
        let mut e = endpoint();
        e.active_timeout_ms = timeout;
        self.w.connect(e, port)
    }

    fn round(&mut self, dt: u64) {
        self.w.round(dt);
        self.m.update(&self.w, self.errors);
    }

    fn establish(&mut self, dt: u64) {
        for _ in 0..4 {
            self.round(dt);
        }
        for i in 0..self.w.cl.len() {
            let p = self.w.cl[i].port;
            check!(self.w.established(true, p) && self.w.established(false, p), "no connection without faults");
        }
    }

    /// What an application may do next
    fn act(&mut self, i: usize, what: u64) {
        let port = self.w.cl[i].port;
        match what {
            0 => (),
            1 => self.w.client_send(i, vec![1, 2, 3], 0, 3),
            2 => {
                self.w.server_send(port, vec![7; 2000], 1, 3);
            }
            3 => self.w.client(i).disconnect(),
            4 => self.w.client(i).disconnect_now(),
            5 => {
                self.w.server_disconnect(port, false);
            }
            6 => {
                self.w.server_disconnect(port, true);
            }
            7 => {
                self.w.server.drop(&addr(port));
                self.m.forget(port);
            }
            8 => {
                // flush between steps
                self.w.flush_all();
            }
            9 => {
                // only one side steps
                self.w.step_client(i);
                self.m.update(&self.w, self.errors);
            }
            _ => {
                self.w.step_server();
                self.m.update(&self.w, self.errors);
            }
        }
    }

    /// An earlier datagram arrives once more
    fn replay(&mut self, port: u16) {
        let kinds = [SYN, SYN_ACK, ACK, DISC, DISC_ACK, DATA, SYNC, DACK];
        let k = kinds[choice(8) as usize];
        let up = fork_bool();
        let f = self.w.sent.iter().find(|f| f.data[0] == k && f.up == up && f.port == port).cloned();
        if let Some(f) = f {
            self.w.flights.push(Wire { at: self.w.tick, ..f });
            reach(5);
        }
    }

    fn finish(&mut self) {
        for _ in 0..14 {
            self.round(2100);
        }
    }
}

/// params: rounds, actions, faults up, faults down
#[no_mangle]
pub extern "C" fn h_c08_script() {
    let rounds = param(0);
    let mut acts = param(1);
    let mut s = S::new(5000);
    let i = s.connect(5000, None);
    let port = s.w.cl[i].port;
    s.establish(100);
    s.w.dev_up = param(2);
    s.w.dev_down = param(3);
    let dt = pick(&[50, 2500]);
    for _ in 0..rounds {
        if acts > 0 {
            let a = range(0, 11);
            if a != 0 {
                acts -= 1;
            }
            if a == 11 {
                s.replay(port);
            } else {
                s.act(i, conc(a));
            }
        }
        s.round(dt);
    }
    s.finish();
}

/// params: rounds, actions, faults up, faults down
#[no_mangle]
pub extern "C" fn h_c08_handshake() {
    let rounds = param(0);
    let mut acts = param(1);
    let mut s = S::new(5000);
    s.w.dev_up = param(2);
    s.w.dev_down = param(3);
    let i = s.connect(5000, None);
    let port = s.w.cl[i].port;
    let dt = pick(&[50, 1000, 8000]);
    for _ in 0..rounds {
        if acts > 0 {
            let a = range(0, 11);
            if a != 0 {
                acts -= 1;
            }
            if a == 11 {
                s.replay(port);
            } else {
                s.act(i, conc(a));
            }
        }
        s.round(dt);
    }
    s.finish();
}

/// Both sides disconnect around the same time, with data on the way.
/// params: latest round, faults each way
#[no_mangle]
pub extern "C" fn h_c08_crossing() {
    let late = param(0);
    let mut s = S::new(5000);
    let i = s.connect(5000, None);
    let port = s.w.cl[i].port;
    s.establish(100);
    s.w.dev_up = param(1);
    s.w.dev_down = param(1);
    s.w.client_send(i, vec![1; 3000], 0, 3);
    s.w.server_send(port, vec![2; 3000], 0, 3);
    let a = conc(range(0, late));
    let b = conc(range(0, late));
    match choice(3) {
        0 => (),
        1 => s.w.srv_period = 4,
        _ => s.w.cl_period = 4,
    }
    let an = fork_bool();
    let bn = fork_bool();
    for r in 0..=late {
        if r == a {
            if an {
                s.w.client(i).disconnect_now()
            } else {
                s.w.client(i).disconnect()
            }
        }
        if r == b {
            s.w.server_disconnect(port, bn);
        }
        s.round(100);
    }
    for _ in 0..8 {
        s.round(100);
    }
    s.w.srv_period = 1;
    s.w.cl_period = 1;
    for _ in 0..10 {
        s.round(2100);
    }
    s.finish();
    check!(s.w.ends(false, port) == 1 && s.w.ends(true, port) == 1, "no terminal event after disconnecting");
}

/// A connection ends, another client takes the same address, datagrams of the old one reappear.
/// params: replays
#[no_mangle]
pub extern "C" fn h_c08_reconnect() {
    let mut s = S::new(5000);
    let i = s.connect(5000, None);
    let port = s.w.cl[i].port;
    s.establish(100);
    s.w.client_send(i, vec![1; 10], 0, 3);
    s.w.server_send(port, vec![2; 10], 0, 3);
    for _ in 0..4 {
        s.round(100);
    }
    let old = s.w.sent.clone();
    let how = choice(6);
    match how {
        0 => s.w.client(i).disconnect(),
        1 => {
            s.w.server_disconnect(port, true);
        }
        2 => {
            s.w.server.drop(&addr(port));
            s.m.forget(port);
        }
        3 => {
            s.w.blackout_up = true;
        }
        4 => {
            s.w.client(i).disconnect_now();
            s.w.server_disconnect(port, true);
        }
        _ => (),
    }
    let wait = pick(&[0, 2, 60, 230]);
    for _ in 0..wait {
        s.round(100);
    }
    s.w.blackout_up = false;
    // the old client's process ends
    s.w.cl[i].c = None;
    s.m.renew(port);
    let j = s.connect(5000, Some(port));
    let mut replays = param(0);
    for r in 0..12 {
        if replays > 0 && r < 6 {
            let k = range(0, 3);
            if k > 0 {
                replays -= 1;
                let kinds = [SYN, SYN_ACK, ACK, DISC, DISC_ACK, DATA, SYNC, DACK];
                let t = kinds[choice(8) as usize];
                let f = s.w.sent[..].iter().chain(old.iter()).find(|f| f.data[0] == t && f.port == port).cloned();
                if let Some(f) = f {
                    s.w.flights.push(Wire { at: s.w.tick + k - 1, ..f });
                    reach(5);
                }
            }
        }
        s.round(if r < 6 { 100 } else { 2100 });
    }
    if s.w.established(false, port) && s.w.established(true, port) {
        reach(6);
        s.w.client(j).disconnect();
    }
    s.finish();
}

/// Several clients at once.
/// params: clients, rounds, actions
#[no_mangle]
pub extern "C" fn h_c08_many() {
    let n = param(0);
    let rounds = param(1);
    let mut acts = param(2);
    let mut s = S::new(5000);
    for _ in 0..n {
        s.connect(5000, None);
    }
    s.establish(100);
    for _ in 0..rounds {
        if acts > 0 {
            let a = range(0, 8);
            if a != 0 {
                acts -= 1;
                let i = choice(n) as usize;
                s.act(i, conc(a));
            }
        }
        s.round(500);
    }
    s.finish();
}
