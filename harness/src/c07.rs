//! C07: connections come from validated handshakes only.
use crate::app::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::*;

entries!(h_c07_faults, h_c07_forged, h_c07_raw, h_c07_configs, h_c07_many, h_c07_stale, h_c07_limits, h_c07_waiting);

#[derive(Default)]
struct Mon {
    done: usize,
    got: usize,
    sent: usize,
    drawn: usize,
    /// handshakes the server has replied to: port, nonce it sent, tentative
    pending: Vec<(u16, u32)>,
    /// per port, nonces that came back: (port, nonce)
    acks: Vec<(u16, u32)>,
    /// clients' nonces
    syns: Vec<(u16, u32)>,
    /// SYN-ACKs that reached clients
    synacks: Vec<(u16, u32)>,
}

fn any_eq(v: &[(u16, u32)], port: u16, n: u32) -> bool {
    let mut r = 0u64;
    for x in v {
        if x.0 == port {
            r |= ite(x.1 == n, 1, 0);
        }
    }
    r != 0
}

impl Mon {
    fn update(&mut self, w: &App) {
        for f in &w.got[self.got..] {
            if f.up && f.data[0] == ACK && f.data.len() == 9 {
                self.acks.push((f.port, word(&f.data, 1)));
            }
            if !f.up && f.data[0] == SYN_ACK && f.data.len() == 25 {
                self.synacks.push((f.port, word(&f.data, 1)));
            }
        }
        self.got = w.got.len();
        for f in &w.sent[self.sent..] {
            if f.up && f.data[0] == SYN {
                self.syns.push((f.port, word(&f.data, 2)));
            }
            if !f.up && f.data[0] == SYN_ACK {
                let n = word(&f.data, 5);
                self.pending.push((f.port, n));
                let mut r = 0u64;
                for d in &env().drawn {
                    r |= ite(*d == n, 1, 0);
                }
                check!(r != 0, "the server's nonce is not a random number");
            }
        }
        self.sent = w.sent.len();
        for e in &w.events[self.done..] {
            if e.ev == Ev::Connect {
                if e.srv {
                    let mut ok = 0u64;
                    for p in &self.pending {
                        if p.0 == e.port {
                            ok |= ite(any_eq(&self.acks, e.port, p.1), 1, 0);
                        }
                    }
                    check!(ok != 0, "the server connects without its nonce having come back");
                    // a nonce is good for one connection
                    self.pending.retain(|p| p.0 != e.port);
                    self.acks.retain(|p| p.0 != e.port);
                } else {
                    let mut ok = 0u64;
                    for p in &self.syns {
                        if p.0 == e.port {
                            ok |= ite(any_eq(&self.synacks, e.port, p.1), 1, 0);
                        }
                    }
                    check!(ok != 0, "the client connects without its nonce having come back");
                    self.syns.retain(|p| p.0 != e.port);
                    self.synacks.retain(|p| p.0 != e.port);
                }
            }
        }
        self.done = w.events.len();
    }
}

fn round(w: &mut App, m: &mut Mon, dt: u64) {
    w.round(dt);
    m.update(w);
}

fn once(w: &App, port: u16) {
    check!(w.connects(true, port) == 1, "not exactly one Connect at the server");
    check!(w.connects(false, port) == 1, "not exactly one Connect at the client");
    check!(w.ends(true, port) == 0 && w.ends(false, port) == 0, "the connection ended");
}

fn nonces() {
    env().rand = Rand::High;
}

/// Lost, duplicated and late handshake frames.
/// params: faults up, faults down
#[no_mangle]
pub extern "C" fn h_c07_faults() {
    nonces();
    let mut w = App::new(server_config(endpoint()));
    let mut m = Mon::default();
    w.dev_up = param(0);
    w.dev_down = param(1);
    let i = w.connect(endpoint(), None);
    env().rand = Rand::Fixed;
    let early = fork_bool();
    if early {
        w.client_send(i, vec![9; 5], 0, 3);
    }
    let dt = pick(&[100, 700, 2500]);
    let port = w.cl[i].port;
    let period = pick(&[1, 3]);
    w.cl_period = period;
    let mut first = true;
    while w.now < 40_000 {
        // the server's nonce is symbolic, those of data frames are not
        env().rand = if first { Rand::High } else { Rand::Fixed };
        w.step_server();
        m.update(&w);
        first = first && !w.sent.iter().any(|f| !f.up);
        env().rand = Rand::Fixed;
        if w.tick % period == 0 {
            w.step_client(i);
        }
        m.update(&w);
        w.flush_all();
        w.pass(dt);
        if w.established(true, port) && w.established(false, port) {
            break;
        }
    }
    once(&w, port);
    w.echo(i, 40, 400);
    m.update(&w);
    once(&w, port);
    if early {
        check!(w.received(true, port).iter().any(|d| ***d == [9; 5]), "a packet sent before the connection was lost");
    }
    reach(1);
}

/// A forged handshake frame of kind k that does not carry the nonce the receiver waits for
fn forged(k: u64, known: bool, cn: u32, sn: Option<u32>) -> Frame {
    match k {
        0 if known => {
            // after the client's own request: anything
            Frame::HandshakeSynFrame(HandshakeSynFrame {
                version: any_u8(),
                nonce: any_u32(),
                max_receive_rate: any_u32(),
                max_packet_size: any_u32(),
                max_receive_alloc: any_u32(),
            })
        }
        1 => {
            let a = any_u32();
            assume(a != cn);
            Frame::HandshakeSynAckFrame(HandshakeSynAckFrame {
                nonce_ack: a,
                nonce: any_u32(),
                max_receive_rate: any_u32(),
                max_packet_size: any_u32(),
                max_receive_alloc: any_u32(),
            })
        }
        2 => {
            let a = any_u32();
            if let Some(s) = sn {
                assume(a != s);
            }
            Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: a })
        }
        3 => {
            let a = any_u32();
            assume(a != cn);
            Frame::HandshakeErrorFrame(HandshakeErrorFrame {
                nonce_ack: a,
                error: match choice(3) {
                    0 => HandshakeErrorType::Version,
                    1 => HandshakeErrorType::Config,
                    _ => HandshakeErrorType::ServerFull,
                },
            })
        }
        // a replayed request with the client's own nonce
        4 => Frame::HandshakeSynFrame(HandshakeSynFrame {
            version: any_u8(),
            nonce: cn,
            max_receive_rate: any_u32(),
            max_packet_size: any_u32(),
            max_receive_alloc: any_u32(),
        }),
        // the server's nonce turned around
        _ => match sn {
            Some(s) => Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: s }),
            None => Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: cn }),
        },
    }
}

/// A forged handshake frame with any fields at any time, from and to an established or connecting
/// client.
/// params: forged frames, latest round
#[no_mangle]
pub extern "C" fn h_c07_forged() {
    nonces();
    let mut w = App::new(server_config(endpoint()));
    let mut m = Mon::default();
    let i = w.connect(endpoint(), None);
    let port = w.cl[i].port;
    let cn = env().drawn[0];
    let mut n = param(0);
    let late = param(1);
    for r in 0..=late {
        if n > 0 && (n > late - r || fork_bool()) {
            n -= 1;
            let sn = env().drawn.get(1).copied();
            let up = fork_bool();
            let k = if up { choice(5) } else { choice(6) };
            let f = forged(k, !up || r > 0, cn, sn);
            // before the server knows the client's request, a forged request may take its place
            // (and, if refused, answers nobody)
            let first = matches!(f, Frame::HandshakeSynFrame(_)) && up && r == 0;
            if !first {
                w.forge(up, port, f);
                reach(10 + k as u32);
            }
        }
        // random numbers after the handshake need not be symbolic
        if env().drawn.len() >= 2 {
            env().rand = Rand::Fixed;
        }
        // forged frames come first
        w.flights.sort_by_key(|f| f.at);
        round(&mut w, &mut m, 200);
    }
    env().rand = if env().drawn.len() >= 2 { Rand::Fixed } else { Rand::High };
    for _ in 0..3 {
        round(&mut w, &mut m, 200);
        env().rand = Rand::Fixed;
    }
    once(&w, port);
    w.echo(i, 6, 200);
    m.update(&w);
    once(&w, port);
    reach(1);
}

/// An address from which only forged frames come.
/// params: frames
#[no_mangle]
pub extern "C" fn h_c07_raw() {
    env().rand = Rand::Full;
    let mut c = server_config(endpoint());
    c.enable_handshake_errors = fork_bool();
    let errors = c.enable_handshake_errors;
    let mut w = App::new(c);
    let mut m = Mon::default();
    let port = 20000;
    let mut version = 3u8;
    let mut answered = false;
    for _ in 0..param(0) {
        let k = choice(5);
        let ack = any_u32();
        let f = match k {
            0 => {
                version = any_u8();
                Frame::HandshakeSynFrame(HandshakeSynFrame {
                    version,
                    nonce: ack,
                    max_receive_rate: any_u32(),
                    max_packet_size: any_u32(),
                    max_receive_alloc: any_u32(),
                })
            }
            1 => Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: ack }),
            2 => Frame::DisconnectFrame(DisconnectFrame {}),
            3 => Frame::SyncFrame(SyncFrame { next_frame_id: Some(ack), next_packet_id: Some(any_u32()) }),
            _ => Frame::DisconnectAckFrame(DisconnectAckFrame {}),
        };
        w.forge(true, port, f.clone());
        let before = w.sent.len();
        round(&mut w, &mut m, 100);
        let out = &w.sent[before..];
        let has_nonce = env().drawn.len() > 0;
        match f {
            Frame::HandshakeSynFrame(f) if !answered => {
                check!(out.len() == 1, "not one reply to a connection request");
                let o = &out[0].data;
                let small = f.max_receive_alloc < 1_000_000 || f.max_packet_size > 1_000_000;
                if f.version != 3 {
                    check!(o[0] == ERROR && o[5] == 0, "wrong version not refused as such");
                    check!(!errors || w.events.last().map_or(false, |e| e.ev == Ev::Version), "no event for the refused request");
                    reach(2);
                } else if small {
                    check!(o[0] == ERROR && o[5] == 1, "incompatible limits not refused as such");
                    check!(!errors || w.events.last().map_or(false, |e| e.ev == Ev::Config), "no event for the refused request");
                    reach(3);
                } else {
                    check!(o[0] == SYN_ACK, "acceptable request not accepted");
                    check!(word(o, 9) == 2_000_000 && word(o, 13) == 1_000_000 && word(o, 17) == 1_000_000, "wrong limits in the reply");
                    answered = true;
                    reach(4);
                }
                check!(word(o, 1) == f.nonce, "the reply carries another nonce");
            }
            Frame::HandshakeAckFrame(f) if has_nonce => {
                if f.nonce_ack == env().drawn[0] {
                    check!(w.connects(true, port) <= 1, "two connections");
                    // from now on it is a connection
                    return;
                }
                check!(w.connects(true, port) == 0, "connected with a wrong nonce");
            }
            _ => {
                check!(w.connects(true, port) == 0, "connected without a handshake");
                check!(out.is_empty(), "replied to a stray frame");
            }
        }
    }
    let _ = version;
}

fn limit() -> usize {
    pick(&[1, 1447, 1448, 5000, 1_000_000, 94_896_128]) as usize
}

/// All pairs of packet size and receive limits.
#[no_mangle]
pub extern "C" fn h_c07_configs() {
    let mut a = endpoint();
    let mut b = endpoint();
    a.max_packet_size = limit();
    a.max_receive_alloc = match choice(3) {
        0 => limit(),
        1 => 1 << 32,
        _ => usize::MAX,
    };
    b.max_packet_size = limit();
    b.max_receive_alloc = match choice(3) {
        0 => limit(),
        1 => 1 << 32,
        _ => usize::MAX,
    };
    let good = a.max_packet_size <= b.max_receive_alloc && b.max_packet_size <= a.max_receive_alloc;
    let mut c = server_config(b);
    c.enable_handshake_errors = true;
    let mut w = App::new(c);
    let mut m = Mon::default();
    let i = w.connect(a, None);
    let port = w.cl[i].port;
    for _ in 0..4 {
        round(&mut w, &mut m, 100);
    }
    if good {
        once(&w, port);
        reach(1);
    } else {
        check!(w.connects(true, port) == 0 && w.connects(false, port) == 0, "connected despite incompatible limits");
        check!(w.count(true, port, |e| *e == Ev::Config) == 1, "the server does not report the refusal");
        check!(w.count(false, port, |e| *e == Ev::Config) == 1, "the client does not report the refusal");
        reach(2);
    }
}

/// Many clients at once, in any order, with a fault.
/// params: clients, faults up, faults down
#[no_mangle]
pub extern "C" fn h_c07_many() {
    let n = param(0);
    let mut w = App::new(server_config(endpoint()));
    let mut m = Mon::default();
    nonces();
    w.dev_up = param(1);
    w.dev_down = param(2);
    for _ in 0..n {
        w.connect(endpoint(), None);
    }
    // arrival in any order
    let k = choice(w.flights.len().max(1) as u64) as usize;
    if k < w.flights.len() {
        let f = w.flights.remove(k);
        w.flights.insert(0, f);
    }
    for _ in 0..14 {
        round(&mut w, &mut m, 1000);
        if env().drawn.len() >= 2 * n as usize {
            env().rand = Rand::Fixed;
        }
    }
    for i in 0..n as usize {
        once(&w, w.cl[i].port);
    }
    env().rand = Rand::Fixed;
    w.echo(0, 4, 300);
    w.echo(n as usize - 1, 4, 300);
    m.update(&w);
    reach(1);
}

/// Frames of an earlier handshake of the same address reappear in a later one.
/// params: frames
#[no_mangle]
pub extern "C" fn h_c07_stale() {
    let mut w = App::new(server_config(endpoint()));
    let mut m = Mon::default();
    let i = w.connect(endpoint(), None);
    let port = w.cl[i].port;
    for _ in 0..4 {
        round(&mut w, &mut m, 100);
    }
    once(&w, port);
    let old: Vec<Wire> = w.sent.iter().filter(|f| f.data[0] <= ERROR).cloned().collect();
    // the first connection ends on both sides, or only at the client
    let clean = fork_bool();
    if clean {
        w.client(i).disconnect();
        for _ in 0..4 {
            round(&mut w, &mut m, 100);
        }
        // until the server has forgotten it, or not
        if fork_bool() {
            for _ in 0..12 {
                round(&mut w, &mut m, 2000);
            }
        }
    }
    w.cl[i].c = None;
    let ended = w.ends(true, port);
    let j = w.connect(endpoint(), Some(port));
    let c0 = w.connects(false, port);
    let s0 = w.connects(true, port);
    let mut n = param(0);
    let mut syn = false;
    for r in 0..6 {
        if n > 0 && fork_bool() {
            n -= 1;
            let f = old[choice(old.len() as u64) as usize].clone();
            syn |= f.data[0] == SYN && r == 0;
            w.flights.insert(0, Wire { at: w.tick, ..f });
            reach(3);
        }
        round(&mut w, &mut m, 300);
    }
    // a stale request that overtakes the real one occupies the address, but connects nobody
    for _ in 0..16 {
        round(&mut w, &mut m, 2000);
    }
    check!(w.connects(false, port) <= c0 + 1 && w.connects(true, port) <= s0 + 1, "more than one connection");
    check!(w.connects(true, port) == s0 || w.connects(false, port) == c0 + 1, "the server connected alone");
    if w.established(false, port) {
        check!(w.established(true, port), "the client connected alone");
        w.echo(j, 5, 300);
        m.update(&w);
        reach(1);
    } else {
        reach(2);
    }
    let _ = (ended, syn);
}

/// The limits exchanged are the ones in force: with all acknowledgements lost, each side sends as
/// much as the other is willing to hold, and at most as fast.
#[no_mangle]
pub extern "C" fn h_c07_limits() {
    budget(1 << 40);
    let mut a = endpoint();
    let mut b = endpoint();
    let big: usize = 8000;
    a.max_packet_size = 3000;
    b.max_packet_size = 3000;
    a.max_receive_alloc = if fork_bool() { big } else { 30_000 };
    b.max_receive_alloc = if fork_bool() { big } else { 30_000 };
    a.max_send_rate = pick(&[3000, 100_000]) as usize;
    b.max_send_rate = pick(&[3000, 100_000]) as usize;
    a.max_receive_rate = pick(&[4000, 200_000]) as usize;
    b.max_receive_rate = pick(&[4000, 200_000]) as usize;
    a.active_timeout_ms = 1_000_000;
    b.active_timeout_ms = 1_000_000;
    let (la, lb) = (a.max_receive_alloc, b.max_receive_alloc);
    let (ra, rb) = (a.max_send_rate.min(b.max_receive_rate), b.max_send_rate.min(a.max_receive_rate));
    let mut w = App::new(server_config(b));
    let mut m = Mon::default();
    let i = w.connect(a, None);
    let port = w.cl[i].port;
    for _ in 0..4 {
        round(&mut w, &mut m, 100);
    }
    once(&w, port);
    for k in 0..80u8 {
        w.client_send(i, vec![k; 500], 0, 3);
        w.server_send(port, vec![k; 500], 0, 3);
        round(&mut w, &mut m, 200);
    }
    for _ in 0..100 {
        round(&mut w, &mut m, 200);
    }
    check!(w.client(i).send_buffer_size() == 0, "packets pending without losses");
    for k in 0..40u8 {
        w.client_send(i, vec![k; 1000], 0, 3);
        w.server_send(port, vec![k; 1000], 0, 3);
    }
    // let the estimate of the round-trip time and the rates settle, then nobody hears anybody
    w.blackout_up = true;
    w.blackout_down = true;
    let start = w.now;
    let from = w.sent.len();
    for _ in 0..600 {
        round(&mut w, &mut m, 200);
    }
    for (up, alloc, rate) in [(true, lb, ra), (false, la, rb)] {
        let mut seen = vec![];
        let mut bytes = 0;
        for f in w.sent[from..].iter().filter(|f| f.up == up) {
            bytes += f.data.len() as u64;
            let mut ids = vec![];
            data_of(&f.data, &mut ids);
            for id in ids {
                if !seen.contains(&id) {
                    seen.push(id);
                }
            }
        }
        if param(0) == 9 { print("up "); print_u64(up as u64); print(" seen "); print_u64(seen.len() as u64); print(" alloc "); print_u64(alloc as u64); print(" bytes "); print_u64(bytes); print(" rate "); print_u64(rate as u64); print("\n"); }
        check!(seen.len() * 1000 <= alloc, "more than the peer is willing to hold was sent");
        check!(alloc > big || rate < 100_000 || (seen.len() + 1) * 1000 > alloc, "less than the peer is willing to hold was sent");
        check!(bytes <= rate as u64 * (w.now - start) / 1000 + rate as u64 * 2 + 1472, "faster than negotiated");
    }
    reach(1);
}

/// Sequence ids of the datagrams in a data frame
fn data_of(d: &[u8], out: &mut Vec<u32>) {
    use uflow::verif::frame::serial::Serialize;
    if let Some(Frame::DataFrame(f)) = Frame::read(d) {
        for g in f.datagrams.iter() {
            out.push(g.sequence_id);
        }
    }
}

/// Forged frames while handshake frames are being repeated because the real ones are lost: requests,
/// replies, or acknowledgements.
/// params: forged frames, rounds of 1 s with losses
#[no_mangle]
pub extern "C" fn h_c07_waiting() {
    nonces();
    let mut w = App::new(server_config(endpoint()));
    let mut m = Mon::default();
    let lost = choice(3);
    // the client's requests
    w.blackout_up = lost == 0;
    let i = w.connect(endpoint(), None);
    let port = w.cl[i].port;
    let cn = env().drawn[0];
    // the server's replies
    w.blackout_down = lost == 1;
    let dt = 1000;
    if lost == 2 {
        round(&mut w, &mut m, 100);
        round(&mut w, &mut m, 100);
        // the client's acknowledgement
        w.blackout_up = true;
        env().rand = Rand::Fixed;
        round(&mut w, &mut m, dt);
        check!(w.established(false, port), "the client is connected");
    }
    let mut n = param(0);
    let late = param(1);
    let mut repeats = 0;
    for r in 0..=late {
        if n > 0 && (n > late - r || fork_bool()) {
            n -= 1;
            let sn = env().drawn.get(1).copied();
            // a server that has not seen a request takes a forged one for real
            let up = lost > 0 && fork_bool();
            let k = if up { choice(5) } else { choice(6) };
            // (the server's reply to the client's own request is no forgery to the client)
            let f = forged(k, !up || r > 0, cn, sn);
            // (nor is a lucky guess of a nonce not drawn yet)
            if !(up && r == 0 && (k == 0 || k == 4) || k == 2 && sn.is_none()) {
                w.forge(up, port, f);
                reach(10 + k as u32);
                if repeats > 1 {
                    reach(20 + lost as u32);
                }
            }
        }
        w.flights.sort_by_key(|f| f.at);
        let before = w.sent.len();
        round(&mut w, &mut m, dt);
        if w.sent[before..].iter().any(|f| f.data[0] <= SYN_ACK) {
            repeats += 1;
        }
        if env().drawn.len() >= 2 {
            env().rand = Rand::Fixed;
        }
    }
    w.blackout_up = false;
    w.blackout_down = false;
    for _ in 0..6 {
        round(&mut w, &mut m, dt);
        if env().drawn.len() >= 2 {
            env().rand = Rand::Fixed;
        }
    }
    once(&w, port);
    w.echo(i, 6, 200);
    m.update(&w);
    once(&w, port);
    reach(1);
}
