//! C18: bytes sent to an address that has not completed the handshake.
use crate::app::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::*;

entries!(h_c18_mix, h_c18_undersized, h_c18_waiting, h_c18_slow, h_c18_client);

const P: u16 = 20001;

struct S {
    w: App,
    got: u64,
    sent: u64,
    seen: usize,
    /// nonces acknowledged; not those of the server
    acks: Vec<u32>,
}

impl S {
    fn new(errors: bool, full: bool) -> S {
        let mut c = server_config(endpoint());
        c.enable_handshake_errors = errors;
        c.max_total_connections = if full { 1 } else { 10 };
        env().rand = Rand::Full;
        let mut w = App::new(c);
        if full {
            let i = w.connect(endpoint(), None);
            for _ in 0..4 {
                w.round(100);
                if env().drawn.len() >= 2 {
                    env().rand = Rand::Fixed;
                }
            }
            let p = w.cl[i].port;
            check!(w.established(true, p), "no connection");
            env().rand = Rand::Full;
        }
        env().drawn.clear();
        let seen = w.sent.len();
        S { w, got: 0, sent: 0, seen, acks: vec![] }
    }

    fn frame(&mut self, f: Vec<u8>) {
        self.got += f.len() as u64;
        self.w.forge_bytes(true, P, f);
    }

    fn step(&mut self, dt: u64) {
        self.w.step_server();
        for d in &env().drawn {
            for a in &self.acks {
                assume(a != d);
            }
        }
        // calling flush() changes nothing
        self.w.server.flush();
        self.w.pump();
        self.w.pass(dt);
        for f in &self.w.sent[self.seen..] {
            if !f.up && f.port == P {
                self.sent += f.data.len() as u64;
            }
        }
        self.seen = self.w.sent.len();
        check!(self.sent == 0 || self.sent < self.got, "as many bytes sent to an unverified address as received from it");
        check!(self.w.connects(true, P) == 0, "connected without handshake");
    }
}

fn request(s: &S, k: u64) -> Frame {
    let _ = s;
    Frame::HandshakeSynFrame(HandshakeSynFrame {
        version: if k == 1 { any_u8() } else { 3 },
        nonce: any_u32(),
        max_receive_rate: any_u32(),
        max_packet_size: if k == 2 { any_u32() } else { 1_000_000 },
        max_receive_alloc: if k == 2 { any_u32() } else { 1_000_000 },
    })
}

fn bytes(f: Frame) -> Vec<u8> {
    use uflow::verif::frame::serial::Serialize;
    f.write().to_vec()
}

impl S {
    fn any_frame(&mut self) -> Vec<u8> {
        let k = choice(11);
        reach(10 + k as u32);
        match k {
            0 | 1 | 2 => bytes(request(self, k)),
            3 => {
                let a = any_u32();
                self.acks.push(a);
                bytes(Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: a }))
            }
            4 => bytes(Frame::DisconnectFrame(DisconnectFrame {})),
            5 => bytes(Frame::DisconnectAckFrame(DisconnectAckFrame {})),
            6 => bytes(Frame::SyncFrame(SyncFrame { next_frame_id: Some(any_u32()), next_packet_id: Some(any_u32()) })),
            7 => bytes(Frame::AckFrame(AckFrame { frame_window_base_id: any_u32(), packet_window_base_id: any_u32(), frame_acks: vec![] })),
            8 => bytes(Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack: any_u32(), error: HandshakeErrorType::Config })),
            9 => bytes(Frame::HandshakeSynAckFrame(HandshakeSynAckFrame {
                nonce_ack: any_u32(),
                nonce: any_u32(),
                max_receive_rate: 1,
                max_packet_size: 1,
                max_receive_alloc: 1,
            })),
            _ => {
                let mut v = vec![0; 12];
                fill(&mut v);
                seal(&mut v);
                v
            }
        }
    }
}

/// params: datagrams
#[no_mangle]
pub extern "C" fn h_c18_mix() {
    let errors = fork_bool();
    let full = fork_bool();
    let mut s = S::new(errors, full);
    for _ in 0..param(0) {
        let f = s.any_frame();
        s.frame(f);
        if fork_bool() {
            s.step(100);
        }
    }
    for _ in 0..16 {
        s.step(2000);
    }
    reach(1);
}

/// A connection request of any other size than a whole frame is not answered, nor remembered.
/// params: first size, last size, step
#[no_mangle]
pub extern "C" fn h_c18_undersized() {
    let (lo, hi, st) = (param(0), param(1), param(2));
    let mut s = S::new(true, fork_bool());
    let n = (lo + st * choice((hi - lo) / st + 1)) as usize;
    let mut v = vec![0u8; n];
    // the fields of the request, and a little beyond
    for i in 1..n.saturating_sub(4).min(24) {
        v[i] = any_u8();
    }
    if n >= 5 {
        seal(&mut v);
    } else {
        fill(&mut v);
    }
    s.frame(v);
    for _ in 0..4 {
        s.step(2000);
        check!(s.w.server.client(&addr(P)).is_none(), "an undersized request is remembered");
        check!(s.sent == 0, "an undersized request is answered");
        check!(s.w.events.iter().all(|e| e.port != P), "an undersized request is reported");
    }
    reach(1);
}

/// Every step cadence while a request waits for its acknowledgement.
/// params: rounds
#[no_mangle]
pub extern "C" fn h_c18_waiting() {
    let mut s = S::new(fork_bool(), false);
    let f = bytes(request(&s, 0));
    let dt = pick(&[1, 100, 1999, 2000, 2001, 2500, 5000, 30_000]);
    s.frame(f.clone());
    let again = choice(6);
    let stray = choice(5);
    for r in 0..param(0) {
        if again > 0 && r % again == 0 {
            s.frame(f.clone());
        }
        let d = match stray {
            0 => None,
            1 => Some(bytes(Frame::DisconnectFrame(DisconnectFrame {}))),
            2 => Some(bytes(Frame::SyncFrame(SyncFrame { next_frame_id: Some(1), next_packet_id: None }))),
            3 => {
                let a = any_u32();
                s.acks.push(a);
                Some(bytes(Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: a })))
            }
            _ => Some(vec![]),
        };
        if let Some(d) = d {
            s.frame(d);
        }
        s.step(dt);
        env().rand = Rand::Fixed;
    }
    reach(1);
}

/// One request and then nothing, however slowly the server steps.
/// params: rounds
#[no_mangle]
pub extern "C" fn h_c18_slow() {
    let mut s = S::new(fork_bool(), false);
    let f = bytes(request(&s, 0));
    s.frame(f);
    let dt = [[1, 1], [500, 500], [1999, 2001], [2000, 4000], [2500, 2500], [4001, 4001], [5000, 100], [30_000, 30_000]][choice(8) as usize];
    for r in 0..param(0) {
        s.step(dt[r as usize % 2]);
        env().rand = Rand::Fixed;
    }
    reach(1);
}

/// A real client that goes away at some point before its acknowledgement gets through.
#[no_mangle]
pub extern "C" fn h_c18_client() {
    let mut c = server_config(endpoint());
    c.enable_handshake_errors = fork_bool();
    let mut w = App::new(c);
    let i = w.connect(endpoint(), None);
    let port = w.cl[i].port;
    w.client_send(i, vec![1; 3000], 0, 3);
    let dt = pick(&[100, 1000, 2500]);
    let stop = choice(8);
    let end = choice(3);
    for r in 0..40 {
        if r == stop {
            match end {
                0 => w.cl[i].c = None,
                1 => w.client(i).disconnect_now(),
                _ => (),
            }
        }
        // nothing but connection requests gets through
        let mut k = 0;
        while k < w.flights.len() {
            if w.flights[k].up && w.flights[k].data[0] == ACK {
                w.flights.remove(k);
            } else {
                k += 1;
            }
        }
        w.round(dt);
        let sent: usize = w.sent.iter().filter(|f| !f.up && f.port == port).map(|f| f.data.len()).sum();
        let got: usize = w.got.iter().filter(|f| f.up && f.port == port).map(|f| f.data.len()).sum();
        check!(w.connects(true, port) == 0, "connected without handshake");
        check!(sent == 0 || sent < got, "as many bytes sent to an unverified address as received from it");
    }
    reach(1);
}
