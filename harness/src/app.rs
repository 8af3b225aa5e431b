//! A server, its clients, and the network between them.
#![allow(dead_code)]
use crate::check;
use crate::link::mode_of;
use crate::rt::*;
use std::net::SocketAddr;
use uflow::verif::frame::serial::Serialize;
use uflow::verif::frame::*;
use uflow::{client, server, EndpointConfig};

pub const SERVER_PORT: u16 = 9000;

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Connect,
    Receive(Vec<u8>),
    Disconnect,
    Timeout,
    Version,
    Config,
    Full,
}

/// A datagram between the server and the client at the given port
#[derive(Clone)]
pub struct Wire {
    /// tick of arrival, or the time in ms in logs
    pub at: u64,
    pub up: bool,
    pub port: u16,
    pub data: Vec<u8>,
}

pub struct Event {
    pub at: u64,
    /// seen by the server
    pub srv: bool,
    pub port: u16,
    pub ev: Ev,
}

pub struct Cl {
    pub port: u16,
    /// None: dropped by the application
    pub c: Option<client::Client>,
    pub born: u64,
}

pub struct App {
    pub server: server::Server,
    pub cl: Vec<Cl>,
    pub now: u64,
    pub tick: u64,
    pub latency: u64,
    pub flights: Vec<Wire>,
    /// everything that left an endpoint, everything that reached one
    pub sent: Vec<Wire>,
    pub got: Vec<Wire>,
    pub events: Vec<Event>,
    /// Faults the network may still commit
    pub dev_up: u64,
    pub dev_down: u64,
    pub blackout_up: bool,
    pub blackout_down: bool,
    pub sockets: u16,
    /// In round() the server, the clients, step only every so many ticks
    pub srv_period: u64,
    pub cl_period: u64,
}

pub fn addr(port: u16) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], port))
}

pub fn word(d: &[u8], i: usize) -> u32 {
    (d[i] as u32) << 24 | (d[i + 1] as u32) << 16 | (d[i + 2] as u32) << 8 | d[i + 3] as u32
}

pub const SYN: u8 = 0;
pub const SYN_ACK: u8 = 1;
pub const ACK: u8 = 2;
pub const ERROR: u8 = 3;
pub const DISC: u8 = 4;
pub const DISC_ACK: u8 = 5;
pub const DATA: u8 = 10;
pub const SYNC: u8 = 11;
pub const DACK: u8 = 12;

pub fn endpoint() -> EndpointConfig {
    EndpointConfig::default()
}

pub fn server_config(e: EndpointConfig) -> server::Config {
    server::Config { endpoint_config: e, ..Default::default() }
}

impl App {
    pub fn new(cfg: server::Config) -> App {
        App {
            server: server::Server::bind(addr(SERVER_PORT), cfg).unwrap(),
            cl: vec![],
            now: 0,
            tick: 0,
            latency: 1,
            flights: vec![],
            sent: vec![],
            got: vec![],
            events: vec![],
            dev_up: 0,
            dev_down: 0,
            blackout_up: false,
            blackout_down: false,
            sockets: 0,
            srv_period: 1,
            cl_period: 1,
        }
    }

    /// A new client, at a port of its own or at the given one
    pub fn connect(&mut self, e: EndpointConfig, port: Option<u16>) -> usize {
        at(self.now);
        self.sockets += 1;
        let p = port.unwrap_or(10000 + self.sockets);
        env().next_port = p - 10000;
        let c = client::Client::connect(addr(SERVER_PORT), client::Config { endpoint_config: e }).unwrap();
        self.cl.push(Cl { port: p, c: Some(c), born: self.now });
        self.pump();
        self.cl.len() - 1
    }

    /// Collects what was sent
    pub fn pump(&mut self) {
        for d in std::mem::take(&mut env().sent) {
            let up = d.socket != SERVER_PORT as usize;
            let port = if up { d.socket as u16 } else { d.peer.port() };
            #[cfg(feature = "trace")]
            eprintln!("{} {} {} {}", self.now, port, if up { "->" } else { "<-" }, show(&d.data));
            self.sent.push(Wire { at: self.now, up, port, data: d.data.clone() });
            if if up { self.blackout_up } else { self.blackout_down } {
                continue;
            }
            let dev = if up { &mut self.dev_up } else { &mut self.dev_down };
            let w = Wire { at: self.tick + self.latency, up, port, data: d.data };
            let f = if *dev > 0 { range(0, 3) } else { 0 };
            match f {
                0 => self.flights.push(w),
                1 => {
                    *dev -= 1;
                    reach(101);
                }
                2 => {
                    *dev -= 1;
                    reach(102);
                    self.flights.push(w.clone());
                    self.flights.push(Wire { at: w.at + 3, ..w });
                }
                _ => {
                    *dev -= 1;
                    reach(103);
                    self.flights.push(Wire { at: w.at + 2, ..w });
                }
            }
        }
    }

    /// Datagrams that have arrived at one end, in order of arrival
    pub fn arrive(&mut self, up: bool, port: u16) {
        let mut i = 0;
        while i < self.flights.len() {
            let f = &self.flights[i];
            if f.at <= self.tick && f.up == up && (up || f.port == port) {
                let f = self.flights.remove(i);
                self.hand(f);
            } else {
                i += 1;
            }
        }
    }

    /// Puts a datagram into the receiving socket
    pub fn hand(&mut self, f: Wire) {
        env().inbox.push(Dgram {
            socket: if f.up { SERVER_PORT as usize } else { f.port as usize },
            peer: addr(if f.up { f.port } else { SERVER_PORT }),
            data: f.data.clone(),
        });
        self.got.push(Wire { at: self.now, ..f });
    }

    fn log(&mut self, srv: bool, port: u16, ev: Ev) {
        #[cfg(feature = "trace")]
        eprintln!("{} {} {}: {:?}", self.now, port, if srv { "server" } else { "client" }, match &ev { Ev::Receive(d) => format!("Receive {}", d.len()), e => format!("{:?}", e) });
        self.events.push(Event { at: self.now, srv, port, ev });
    }

    pub fn step_server(&mut self) {
        at(self.now);
        self.arrive(true, 0);
        self.step_server_only();
    }

    /// Without letting datagrams arrive
    pub fn step_server_only(&mut self) {
        let v: Vec<server::Event> = self.server.step().collect();
        for e in v {
            let (a, ev) = match e {
                server::Event::Connect(a) => (a, Ev::Connect),
                server::Event::Disconnect(a) => (a, Ev::Disconnect),
                server::Event::Receive(a, d) => (a, Ev::Receive(d.to_vec())),
                server::Event::Error(a, server::ErrorType::Timeout) => (a, Ev::Timeout),
                server::Event::Error(a, server::ErrorType::Version) => (a, Ev::Version),
                server::Event::Error(a, server::ErrorType::Config) => (a, Ev::Config),
                server::Event::Error(a, server::ErrorType::ServerFull) => (a, Ev::Full),
            };
            self.log(true, a.port(), ev);
        }
        self.pump();
    }

    pub fn step_client(&mut self, i: usize) {
        at(self.now);
        let port = self.cl[i].port;
        if self.cl[i].c.is_none() {
            return;
        }
        self.arrive(false, port);
        let v: Vec<client::Event> = self.cl[i].c.as_mut().unwrap().step().collect();
        for e in v {
            let ev = match e {
                client::Event::Connect => Ev::Connect,
                client::Event::Disconnect => Ev::Disconnect,
                client::Event::Receive(d) => Ev::Receive(d.to_vec()),
                client::Event::Error(client::ErrorType::Timeout) => Ev::Timeout,
                client::Event::Error(client::ErrorType::Version) => Ev::Version,
                client::Event::Error(client::ErrorType::Config) => Ev::Config,
                client::Event::Error(client::ErrorType::ServerFull) => Ev::Full,
            };
            self.log(false, port, ev);
        }
        self.pump();
    }

    pub fn flush_all(&mut self) {
        at(self.now);
        self.server.flush();
        self.pump();
        for i in 0..self.cl.len() {
            if let Some(c) = self.cl[i].c.as_mut() {
                c.flush();
            }
            self.pump();
        }
    }

    /// All step, then all flush; time passes
    pub fn round(&mut self, dt: u64) {
        if self.tick % self.srv_period == 0 {
            self.step_server();
        }
        if self.tick % self.cl_period == 0 {
            for i in 0..self.cl.len() {
                self.step_client(i);
            }
        }
        self.flush_all();
        self.pass(dt);
    }

    pub fn pass(&mut self, dt: u64) {
        self.now += dt;
        self.tick += 1;
    }

    pub fn client(&mut self, i: usize) -> &mut client::Client {
        self.cl[i].c.as_mut().unwrap()
    }

    pub fn client_send(&mut self, i: usize, data: Vec<u8>, chan: u8, mode: u64) {
        at(self.now);
        self.client(i).send(data.into_boxed_slice(), chan as usize, mode_of(mode));
    }

    /// false: the server knows no such client
    pub fn server_send(&mut self, port: u16, data: Vec<u8>, chan: u8, mode: u64) -> bool {
        at(self.now);
        match self.server.client(&addr(port)) {
            Some(c) => {
                c.borrow_mut().send(data.into_boxed_slice(), chan as usize, mode_of(mode));
                true
            }
            None => false,
        }
    }

    pub fn server_disconnect(&mut self, port: u16, now: bool) -> bool {
        match self.server.client(&addr(port)) {
            Some(c) => {
                if now {
                    c.borrow_mut().disconnect_now()
                } else {
                    c.borrow_mut().disconnect()
                }
                true
            }
            None => false,
        }
    }

    /// A frame someone else wrote
    pub fn forge(&mut self, up: bool, port: u16, f: Frame) {
        let data = f.write().to_vec();
        self.forge_bytes(up, port, data)
    }

    pub fn forge_bytes(&mut self, up: bool, port: u16, data: Vec<u8>) {
        #[cfg(feature = "trace")]
        eprintln!("{} {} {} FORGED {}", self.now, port, if up { "->" } else { "<-" }, show(&data));
        self.flights.push(Wire { at: self.tick, up, port, data });
    }

    // ------------------------------------------------------------ observations

    pub fn count(&self, srv: bool, port: u16, f: impl Fn(&Ev) -> bool) -> usize {
        self.events.iter().filter(|e| e.srv == srv && e.port == port && f(&e.ev)).count()
    }

    pub fn connects(&self, srv: bool, port: u16) -> usize {
        self.count(srv, port, |e| *e == Ev::Connect)
    }

    pub fn ends(&self, srv: bool, port: u16) -> usize {
        self.count(srv, port, |e| matches!(e, Ev::Disconnect | Ev::Timeout | Ev::Version | Ev::Config | Ev::Full))
    }

    /// Packets delivered, in order
    pub fn received(&self, srv: bool, port: u16) -> Vec<&Vec<u8>> {
        self.events
            .iter()
            .filter(|e| e.srv == srv && e.port == port)
            .filter_map(|e| if let Ev::Receive(d) = &e.ev { Some(d) } else { None })
            .collect()
    }

    /// Established as far as this side's application has been told
    pub fn established(&self, srv: bool, port: u16) -> bool {
        let mut r = false;
        for e in self.events.iter().filter(|e| e.srv == srv && e.port == port) {
            match e.ev {
                Ev::Connect => r = true,
                Ev::Receive(_) => (),
                _ => r = false,
            }
        }
        r
    }

    /// A fresh exchange over an established connection without faults must work.
    pub fn echo(&mut self, i: usize, rounds: u64, dt: u64) {
        self.dev_up = 0;
        self.dev_down = 0;
        self.blackout_up = false;
        self.blackout_down = false;
        let port = self.cl[i].port;
        let n = self.received(true, port).len();
        let m = self.received(false, port).len();
        self.client_send(i, vec![0xC0, 1, 2], 3, 3);
        check!(self.server_send(port, vec![0x50, 4], 2, 3), "the server does not know the connected client");
        for _ in 0..rounds {
            self.round(dt);
        }
        let a = self.received(true, port);
        check!(a[n..].iter().any(|d| ***d == [0xC0, 1, 2]), "a packet sent to the server did not arrive");
        let b = self.received(false, port);
        check!(b[m..].iter().any(|d| ***d == [0x50, 4]), "a packet sent to the client did not arrive");
    }
}

pub fn show(d: &[u8]) -> String {
    if d.len() < 5 {
        return format!("{:?}", d);
    }
    match d[0] {
        SYN => format!("SYN v{} nonce {:08x} rate {} size {} alloc {}", d[1], word(d, 2), word(d, 6), word(d, 10), word(d, 14)),
        SYN_ACK => format!("SYN-ACK ack {:08x} nonce {:08x}", word(d, 1), word(d, 5)),
        ACK => format!("ACK {:08x}", word(d, 1)),
        ERROR => format!("ERROR {:08x} {}", word(d, 1), d[5]),
        DISC => "DISC".to_string(),
        DISC_ACK => "DISC-ACK".to_string(),
        DATA => format!("DATA {} bytes", d.len()),
        SYNC => "SYNC".to_string(),
        DACK => "ACKS".to_string(),
        _ => format!("? {:?}", d),
    }
}

// ---------------------------------------------------------------- event streams (C08)

#[derive(Default)]
pub struct Stream {
    done: usize,
    /// (server, port, 0 nothing yet / ended at the server, 1 established, 2 over)
    st: Vec<(bool, u16, u32)>,
}

impl Stream {
    /// The server's application forgets a client
    pub fn forget(&mut self, port: u16) {
        self.st.retain(|s| !(s.0 && s.1 == port));
    }

    /// A new client at the same port
    pub fn renew(&mut self, port: u16) {
        self.st.retain(|s| !(!s.0 && s.1 == port));
    }

    pub fn update(&mut self, w: &App, handshake_errors: bool) {
        for e in &w.events[self.done..] {
            let k = match self.st.iter().position(|s| s.0 == e.srv && s.1 == e.port) {
                Some(k) => k,
                None => {
                    self.st.push((e.srv, e.port, 0));
                    self.st.len() - 1
                }
            };
            let s = &mut self.st[k].2;
            check!(*s != 2, "an event after the terminal event");
            match e.ev {
                Ev::Connect => {
                    check!(*s == 0, "Connect on an established connection");
                    *s = 1;
                    reach(1);
                }
                Ev::Receive(_) => {
                    check!(*s == 1, "Receive without Connect");
                    reach(2);
                }
                Ev::Disconnect => {
                    check!(*s == 1, "Disconnect without Connect");
                    *s = if e.srv { 0 } else { 2 };
                    reach(3);
                }
                Ev::Timeout => {
                    if e.srv {
                        check!(*s == 1 || handshake_errors, "Error(Timeout) without Connect at the server");
                    }
                    *s = if e.srv { 0 } else { 2 };
                    reach(4);
                }
                _ => {
                    check!(*s == 0, "handshake error on an established connection");
                    if !e.srv {
                        *s = 2;
                    }
                }
            }
        }
        self.done = w.events.len();
    }
}
