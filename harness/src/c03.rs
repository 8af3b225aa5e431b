//! C03: nothing that arrives makes an endpoint panic or work without end; offending input is
//! discarded and other connections go on. A panic, an arithmetic overflow or an access outside an
//! object anywhere is reported by the executor; every section has a limit on the steps executed.
use crate::app::*;
use crate::link::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::serial::Serialize;
use uflow::verif::frame::*;

entries!(h_c03_bytes, h_c03_data, h_c03_acks, h_c03_syncs, h_c03_mixed, h_c03_rates, h_c03_config, h_c03_limits, h_c03_api, h_c03_clients);

/// Instructions one call may take: three orders of magnitude above what the largest window needs
const CALL: u64 = 10_000_000;

/// After all, the link must still work: a packet sent now arrives (if its frame is within the
/// windows, which hostile input may have moved: sync frames bring them together).
fn alive(w: &mut World) {
    // ids may be at the far end of what the peer has claimed; only the calls' completion counts
    for _ in 0..6 {
        budget(CALL * 4);
        w.round(|w| w.submit(5, 1, 3, 0));
    }
}

fn cfg() -> Cfg {
    Cfg { window: 8, a_packet: 0xFFFFE, a_frame: 0xFFFFFFFE, b_packet: 0xFFFFD, b_frame: 0xFFFFFFFD, alloc: 6000, keepalive: Some(3000), ..Cfg::default() }
}

/// p0 symbolic bytes (with a valid checksum if p1 is 1) of every frame type reach a server from a
/// stranger or from its client, or reach the client, which is connected or about to be
#[no_mangle]
pub extern "C" fn h_c03_bytes() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let mut w = App::new(server_config(endpoint()));
    let i = w.connect(endpoint(), None);
    let port = w.cl[i].port;
    let when = pick(&[1, 2, 6]);
    for _ in 0..when {
        w.round(100);
    }
    let lens: Vec<u64> = (param(0)..=param(1)).collect();
    let n = pick(&lens) as usize;
    let mut d = vec![0u8; n];
    for k in 0..n {
        d[k] = any_u8();
    }
    if n > 0 {
        let t = pick(&[0, 1, 2, 3, 4, 5, 10, 11, 12, 13]) as u8;
        d[0] = t;
    }
    if n >= 5 {
        seal(&mut d);
    }
    budget(CALL);
    // frames of the connection itself may well disturb it
    let mut own = n > 0 && d[0] >= DISC;
    match choice(3) {
        0 => {
            w.forge_bytes(true, 7777, d);
            own = false;
        }
        1 => w.forge_bytes(true, port, d),
        _ => w.forge_bytes(false, port, d),
    }
    for _ in 0..3 {
        budget(CALL);
        w.round(100);
    }
    budget(1 << 40);
    if when == 6 && !own && w.established(true, port) && w.established(false, port) {
        w.echo(i, 8, 100);
        reach(1);
    }
    reach(2);
}

/// A datagram with arbitrary fields; the payload is one of several sizes
fn datagram(sizes: &[u64]) -> Datagram {
    let n = pick(sizes) as usize;
    Datagram {
        sequence_id: any_u32() & 0xFFFFF,
        channel_id: any_u8() & 63,
        window_parent_lead: any_u16(),
        channel_parent_lead: any_u16(),
        fragment_id: any_u16(),
        fragment_id_last: any_u16(),
        data: vec![0; n].into(),
    }
}

/// p0 data frames of a single datagram with arbitrary fields, p1: bits of what is symbolic (1 packet
/// id beyond the window, 2 leads, 4 fragments, 8 channel, 16 frame id)
#[no_mangle]
pub extern "C" fn h_c03_data() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let c = cfg();
    let mut w = World::new(&c, 100);
    w.blackout_ba = true;
    let mut id = c.a_frame;
    let what = param(1);
    for _ in 0..param(0) {
        let mut d = datagram(if param(2) == 0 { &[0, 1, 1448] } else { &[1448] });
        let fid = if what & 16 != 0 { any_u32() } else { id };
        if what & 1 == 0 {
            let k = range(0, 8) as u32;
            d.sequence_id = c.a_packet.wrapping_add(k) & 0xFFFFF;
        }
        if what & 2 == 0 {
            let (a, b) = [(0, 0), (1, 1), (1, 2), (2, 3)][choice(4) as usize];
            d.window_parent_lead = a;
            d.channel_parent_lead = b;
        }
        if what & 4 == 0 {
            let (a, b) = [(0, 0), (0, 1), (1, 1), (1, 2)][choice(4) as usize];
            d.fragment_id = a;
            d.fragment_id_last = b;
        }
        if what & 8 == 0 {
            d.channel_id = choice(2) as u8;
        }
        budget(CALL);
        w.b.hc.handle_data_frame(DataFrame { sequence_id: fid, nonce: any_bool(), datagrams: vec![d].into() });
        if any_bool() {
            budget(CALL);
            w.b.hc.receive(&mut w.b.got);
            w.b.got.0.clear();
        }
        id = id.wrapping_add(1);
    }
    budget(CALL);
    w.b.hc.handle_sync_frame(SyncFrame { next_frame_id: Some(id), next_packet_id: Some((c.a_packet + 4) & 0xFFFFF) });
    budget(CALL);
    w.b.tick();
    w.b.got.0.clear();
    alive(&mut w);
    reach(1);
}

/// p0 rounds with a packet each (p1: bytes; some frames lost), each followed by an acknowledgement
/// with arbitrary fields; the sender may have fragments pending, frames to send again, and no RTT
#[no_mangle]
pub extern "C" fn h_c03_acks() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let few = param(4) == 1;
    let c = Cfg { rate: pick(&[1_000_000, 2000][..if few { 1 } else { 2 }]) as u32, ..cfg() };
    let mut w = World::new(&c, pick(&[150, 0, 3000, 1][..param(2) as usize]));
    for _ in 0..pick(&[0, 4]) {
        w.round(|w| w.submit(1, 0, 3, 0));
    }
    w.blackout_ba = true;
    for _ in 0..param(0) {
        budget(CALL * 4);
        w.round(|w| {
            let m = if param(1) > 100 { range(0, 3) } else { 3 };
            w.submit(param(1) as usize, 0, m, 0);
            w.submit(3, 1, 3, 0);
        });
        let g = AckGroup {
            base_id: c.a_frame.wrapping_add(range(0, if few { 2 } else { 5 }) as u32),
            bitfield: any_u32() & if few { 3 } else { 7 },
            nonce: any_bool(),
        };
        let g2 = AckGroup { base_id: any_u32(), bitfield: any_u32() & 0x8000_0001, nonce: any_bool() };
        let v = match choice(if few { 2 } else { 3 }) {
            0 => vec![],
            1 => vec![g],
            _ => vec![g2],
        };
        let fb = c.a_frame.wrapping_add(pick(&[0, 1, 100, 2, 3, 0xFFFFFFFF][..param(3) as usize]) as u32);
        budget(CALL);
        w.a.hc.handle_ack_frame(AckFrame { frame_window_base_id: fb, packet_window_base_id: if few { c.a_packet.wrapping_add(range(0, 5) as u32) & 0xFFFFF } else { any_u32() }, frame_acks: v.into() });
    }
    w.blackout_ba = false;
    alive(&mut w);
    reach(1);
}

/// p0 sync frames with arbitrary fields between packets and parts of packets
#[no_mangle]
pub extern "C" fn h_c03_syncs() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let c = cfg();
    let mut w = World::new(&c, 150);
    w.warm(2);
    w.dev_ab = param(1);
    let wild = choice(param(0));
    for t in 0..param(0) {
        budget(CALL * 4);
        w.round(|w| {
            let m = range(1, 3) | 1;
            w.submit([1500, 3, 3000][t as usize % 3], 0, m, 0);
        });
        let f = SyncFrame {
            next_frame_id: match choice(if t == wild { 4 } else { 3 }) {
                0 => None,
                1 => Some(c.a_frame.wrapping_add(t as u32)),
                2 => Some(c.a_frame.wrapping_add(11)),
                _ => Some(any_u32()),
            },
            next_packet_id: match choice(if t == wild { 3 } else { 2 }) {
                0 => None,
                1 => Some(c.a_packet.wrapping_add(range(0, 12) as u32) & 0xFFFFF),
                _ => Some(any_u32()),
            },
        };
        budget(CALL);
        w.b.hc.handle_sync_frame(f);
    }
    // what the receiver skipped is lost to it
    for _ in 0..10 {
        budget(CALL * 4);
        w.round(|w| w.submit(5, 1, 3, 0));
    }
    reach(1);
}

/// p0 frames of different kinds, fields symbolic, reach an endpoint that sends and receives itself;
/// steps are 0, 1 or 5000 ms apart
#[no_mangle]
pub extern "C" fn h_c03_mixed() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let c = cfg();
    let mut w = World::new(&c, 50);
    w.warm(2);
    for _ in 0..param(0) {
        w.dt = pick(&[0, 5000, 1][..param(1) as usize]);
        budget(CALL * 4);
        w.round(|w| {
            w.submit(1500, 0, 3, 0);
            w.b.send(vec![1, 2, 3], 0, mode_of(1));
        });
        // b is the victim
        budget(CALL);
        match choice(3) {
            0 => {
                let mut d = datagram(&[1448]);
                d.sequence_id = c.a_packet.wrapping_add(range(0, 9) as u32) & 0xFFFFF;
                d.channel_id = choice(2) as u8;
                d.fragment_id_last = choice(3) as u16;
                d.fragment_id = choice(3) as u16;
                w.b.hc.handle_data_frame(DataFrame { sequence_id: c.a_frame.wrapping_add(range(0, 9) as u32), nonce: any_bool(), datagrams: vec![d].into() })
            }
            1 => w.b.hc.handle_sync_frame(SyncFrame { next_frame_id: Some(any_u32()), next_packet_id: Some(c.a_packet.wrapping_add(range(0, 12) as u32) & 0xFFFFF) }),
            _ => w.b.hc.handle_ack_frame(AckFrame {
                frame_window_base_id: c.b_frame.wrapping_add(range(0, 9) as u32),
                packet_window_base_id: any_u32(),
                frame_acks: vec![AckGroup { base_id: c.b_frame.wrapping_add(range(0, 3) as u32), bitfield: any_u32() & 7, nonce: any_bool() }].into(),
            }),
        }
        w.b.got.0.clear();
    }
    w.dt = 100;
    for _ in 0..4 {
        budget(CALL * 4);
        w.round(|w| w.submit(5, 1, 3, 0));
    }
    reach(1);
}

/// The rate control under strange feedback: p0 rounds whose spacing is 0 ms to 3 hours, in which
/// frames are lost or not, the feedback is lost or not; rates from 1 byte per second to the maximum
#[no_mangle]
pub extern "C" fn h_c03_rates() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let c = Cfg { window: 16, rate: pick(&[1, 23, 1473, 0xFFFF_FFFF]) as u32, keepalive: Some(0), ..Cfg::default() };
    let mut w = World::new(&c, 0);
    w.latency = 0;
    let size = pick(&[1, 1448]) as usize;
    for t in 0..param(0) {
        w.dt = if t % 2 == 0 { pick(&[0, 1, 7, 400, 10_000_000]) } else { pick(&[0, 300]) };
        w.blackout_ab = any_bool();
        w.blackout_ba = if w.blackout_ab { false } else { any_bool() };
        budget(CALL * 4);
        w.round(|w| w.submit(size, 0, 3, 0));
    }
    w.blackout_ab = false;
    w.blackout_ba = false;
    for t in 0..12 {
        w.dt = [300, 0, 2][t as usize % 3];
        budget(CALL * 4);
        w.round(|w| w.submit(size, 0, 1, 0));
    }
    if w.a.hc.rtt_s().is_some() {
        reach(1);
    }
}

/// Valid configurations at the ends of their ranges, on both sides
#[no_mangle]
pub extern "C" fn h_c03_config() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let max = usize::MAX as u64;
    let one = |k: u64| {
        let mut e = endpoint();
        match k {
            0 => (),
            1 => e.max_send_rate = 1,
            2 => e.max_send_rate = usize::MAX,
            3 => e.max_receive_rate = 1,
            4 => e.max_receive_rate = 1 << 32,
            5 => e.max_packet_size = 1,
            6 => {
                e.max_packet_size = uflow::MAX_PACKET_SIZE;
                e.max_receive_alloc = usize::MAX;
            }
            7 => e.max_receive_alloc = 1,
            8 => e.active_timeout_ms = 0,
            9 => e.active_timeout_ms = u64::MAX,
            10 => e.keepalive_interval_ms = 0,
            11 => e.keepalive_interval_ms = u64::MAX,
            12 => e.keepalive = false,
            13 => e.active_timeout_ms = 1,
            _ => {
                e.max_packet_size = 1;
                e.max_receive_alloc = 1;
                e.max_send_rate = 1;
                e.max_receive_rate = 1;
            }
        }
        e
    };
    let _ = max;
    let mut w = App::new(server_config(one(choice(15))));
    let e = one(choice(15));
    let n = e.max_packet_size.min(1000);
    let i = w.connect(e, None);
    let port = w.cl[i].port;
    let dt = pick(&[0, 50, 4000]);
    for t in 0..param(0) {
        budget(CALL);
        if w.cl[i].c.as_ref().unwrap().is_active() {
            w.client_send(i, vec![1; n], 0, t % 4);
        }
        if t > 3 {
            w.server_send(port, vec![2; 1], 1, 3);
        }
        if t + 6 == param(0) {
            if fork_bool() {
                w.client(i).disconnect()
            } else {
                w.server_disconnect(port, false);
            }
        }
        budget(CALL * 4);
        w.round(dt);
    }
    reach(1);
    if w.connects(true, port) > 0 {
        reach(2);
    }
}

/// Hostile handshakes: every limit symbolic, 0 and 2^32 - 1 included, then traffic
#[no_mangle]
pub extern "C" fn h_c03_limits() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let mut w = App::new(server_config(endpoint()));
    let ends = [0, 1, 1448, 1_000_000, 0x7FFF_FFFF, 0xFFFF_FFFF];
    let (rate, size, alloc) = (pick(&ends) as u32, pick(&[0, 1, 1_000_000, 0xFFFF_FFFF]) as u32, pick(&[0, 1, 1_000_000, 0xFFFF_FFFF]) as u32);
    let n = any_u32();
    if fork_bool() {
        // to a server
        let p = 4444;
        w.forge(true, p, Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce: 5, max_receive_rate: rate, max_packet_size: size, max_receive_alloc: alloc }));
        budget(CALL);
        w.round(20);
        if let Some(s) = w.sent.iter().find(|s| !s.up && s.data[0] == SYN_ACK) {
            let n = word(&s.data, 5);
            w.forge(true, p, Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: n }));
        }
        for t in 0..param(0) {
            budget(CALL * 4);
            w.round([20, 0, 3000][t as usize % 3]);
            w.server_send(p, vec![1; 1000], 0, t % 4);
            w.server_send(p, vec![], 0, 3);
        }
        if w.connects(true, p) > 0 {
            reach(1);
        }
    } else {
        let i = w.connect(endpoint(), None);
        let port = w.cl[i].port;
        let nonce = word(&w.sent[0].data, 2);
        w.flights.clear();
        w.client_send(i, vec![1; 3000], 0, 3);
        // not through bytes: symbolic nonces
        w.forge(false, port, Frame::HandshakeSynAckFrame(HandshakeSynAckFrame { nonce_ack: nonce, nonce: 77, max_receive_rate: rate, max_packet_size: size, max_receive_alloc: alloc }));
        for t in 0..param(0) {
            budget(CALL * 4);
            w.round([20, 0, 3000][t as usize % 3]);
            if w.cl[i].c.as_ref().unwrap().is_active() {
                w.client_send(i, vec![2; 100], 0, t % 4);
            }
        }
        if w.connects(false, port) > 0 {
            reach(2);
        }
    }
    let _ = n;
}

/// p0 calls of the API in any order, p1 rounds' worth of time between some of them
#[no_mangle]
pub extern "C" fn h_c03_api() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let mut w = App::new(server_config(endpoint()));
    let i = w.connect(endpoint(), None);
    let port = w.cl[i].port;
    for _ in 0..pick(&[0, 1, 4]) {
        w.round(50);
    }
    let warm = fork_bool();
    if warm {
        w.client_send(i, vec![1; 2000], 0, 3);
        w.server_send(port, vec![1; 2000], 0, 3);
    }
    for _ in 0..param(0) {
        budget(CALL);
        match choice(12) {
            0 => w.client_send(i, vec![1; 2], 63, 0),
            1 => {
                w.server_send(port, vec![], 0, 3);
            }
            2 => w.step_server(),
            3 => w.step_client(i),
            4 => w.flush_all(),
            5 => w.client(i).disconnect(),
            6 => w.client(i).disconnect_now(),
            7 => {
                w.server_disconnect(port, false);
            }
            8 => {
                w.server_disconnect(port, true);
            }
            9 => w.server.drop(&addr(port)),
            10 => w.pass(30),
            _ => w.pass(9000),
        }
        let _ = (w.client(i).send_buffer_size(), w.client(i).rtt_s(), w.client(i).is_active());
    }
    for t in 0..8 {
        budget(CALL * 4);
        w.round([50, 3000][t % 2]);
    }
    reach(1);
}

/// p0 frames with symbolic fields from a connected client; another client does not notice
#[no_mangle]
pub extern "C" fn h_c03_clients() {
    env().rand = Rand::Fixed;
    budget(1 << 40);
    let mut w = App::new(server_config(endpoint()));
    let evil = w.connect(endpoint(), None);
    let good = w.connect(endpoint(), None);
    let (pe, pg) = (w.cl[evil].port, w.cl[good].port);
    for _ in 0..4 {
        w.round(60);
    }
    w.server_send(pe, vec![1; 3000], 0, 3);
    w.cl[evil].c = None;
    let first = word(&w.sent.iter().find(|s| s.up && s.port == pe && s.data[0] == SYN).unwrap().data, 2);
    let theirs = word(&w.sent.iter().find(|s| !s.up && s.port == pe && s.data[0] == SYN_ACK).unwrap().data, 5);
    for _ in 0..param(0) {
        let f = match choice(7) {
            0 => {
                let mut d = datagram(&[1448]);
                d.sequence_id = first.wrapping_add(choice(4) as u32) & 0xFFFFF;
                d.channel_id = 1;
                (d.window_parent_lead, d.channel_parent_lead) = [(0, 0), (1, 2), (3, 1)][choice(3) as usize];
                (d.fragment_id, d.fragment_id_last) = [(0, 0), (0, 700), (1, 65535), (65535, 65535)][choice(4) as usize];
                Frame::DataFrame(DataFrame { sequence_id: first, nonce: true, datagrams: vec![d].into() })
            }
            1 => Frame::SyncFrame(SyncFrame { next_frame_id: Some(first.wrapping_add(pick(&[0, 1, 4096, 9999]) as u32)), next_packet_id: Some(pick(&[0, 0x100000, 0xFFFFFFFF, first as u64 & 0xFFFFF, (first as u64 + 4096) & 0xFFFFF]) as u32) }),
            2 => Frame::AckFrame(AckFrame {
                frame_window_base_id: theirs.wrapping_add(pick(&[0, 1, 9]) as u32),
                packet_window_base_id: pick(&[0, theirs as u64 & 0xFFFFF, (theirs as u64 + 1) & 0xFFFFF, 0xFFFFFFFF]) as u32,
                frame_acks: vec![AckGroup { base_id: theirs.wrapping_add(choice(3) as u32), bitfield: pick(&[0, 1, 3, 0x80000001, 0xFFFFFFFF]) as u32, nonce: fork_bool() }].into(),
            }),
            3 => Frame::DisconnectFrame(DisconnectFrame {}),
            4 => Frame::DisconnectAckFrame(DisconnectAckFrame {}),
            5 => Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: any_u32() }),
            _ => Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce: any_u32(), max_receive_rate: any_u32(), max_packet_size: any_u32(), max_receive_alloc: any_u32() }),
        };
        budget(CALL);
        w.forge(true, pe, f);
        budget(CALL * 4);
        w.round(60);
    }
    budget(1 << 40);
    check!(w.established(true, pg) && w.established(false, pg), "another client's connection ended");
    w.echo(good, 8, 100);
    reach(1);
}
