//! C16: frames survive serialisation, malformed bytes are rejected, up to four flipped bits are
//! always noticed.
use crate::link::same;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::serial::Serialize;
use uflow::verif::frame::*;

entries!(h_c16_fixed, h_c16_data, h_c16_many, h_c16_ack, h_c16_parse, h_c16_parse_len, h_c16_datagram_len, h_c16_crc, h_c16_flips_small, h_c16_flips_long, h_c16_distance);

fn be(b: &[u8], at: usize, n: usize) -> u32 {
    let mut v = 0;
    for i in 0..n {
        v = v << 8 | b[at + i] as u32;
    }
    v
}

fn eq_frame(a: &Frame, b: &Frame) -> bool {
    match (a, b) {
        (Frame::HandshakeSynFrame(a), Frame::HandshakeSynFrame(b)) => {
            (a.version == b.version) & (a.nonce == b.nonce) & (a.max_receive_rate == b.max_receive_rate) & (a.max_packet_size == b.max_packet_size) & (a.max_receive_alloc == b.max_receive_alloc)
        }
        (Frame::HandshakeSynAckFrame(a), Frame::HandshakeSynAckFrame(b)) => {
            (a.nonce_ack == b.nonce_ack) & (a.nonce == b.nonce) & (a.max_receive_rate == b.max_receive_rate) & (a.max_packet_size == b.max_packet_size) & (a.max_receive_alloc == b.max_receive_alloc)
        }
        (Frame::HandshakeAckFrame(a), Frame::HandshakeAckFrame(b)) => a.nonce_ack == b.nonce_ack,
        (Frame::HandshakeErrorFrame(a), Frame::HandshakeErrorFrame(b)) => (a.nonce_ack == b.nonce_ack) & (a.error == b.error),
        (Frame::DisconnectFrame(_), Frame::DisconnectFrame(_)) => true,
        (Frame::DisconnectAckFrame(_), Frame::DisconnectAckFrame(_)) => true,
        (Frame::DataFrame(a), Frame::DataFrame(b)) => {
            if a.datagrams.len() != b.datagrams.len() {
                return false;
            }
            let mut r = (a.sequence_id == b.sequence_id) & (a.nonce == b.nonce);
            for (x, y) in a.datagrams.iter().zip(b.datagrams.iter()) {
                r &= (x.sequence_id == y.sequence_id)
                    & (x.channel_id == y.channel_id)
                    & (x.window_parent_lead == y.window_parent_lead)
                    & (x.channel_parent_lead == y.channel_parent_lead)
                    & (x.fragment_id == y.fragment_id)
                    & (x.fragment_id_last == y.fragment_id_last)
                    & same(&x.data, &y.data);
            }
            r
        }
        (Frame::SyncFrame(a), Frame::SyncFrame(b)) => {
            let f = |x: Option<u32>, y: Option<u32>| match (x, y) {
                (Some(x), Some(y)) => x == y,
                (None, None) => true,
                _ => false,
            };
            f(a.next_frame_id, b.next_frame_id) & f(a.next_packet_id, b.next_packet_id)
        }
        (Frame::AckFrame(a), Frame::AckFrame(b)) => {
            if a.frame_acks.len() != b.frame_acks.len() {
                return false;
            }
            let mut r = (a.frame_window_base_id == b.frame_window_base_id) & (a.packet_window_base_id == b.packet_window_base_id);
            for (x, y) in a.frame_acks.iter().zip(b.frame_acks.iter()) {
                r &= (x.base_id == y.base_id) & (x.bitfield == y.bitfield) & (x.nonce == y.nonce);
            }
            r
        }
        _ => false,
    }
}

fn roundtrip(f: Frame) -> Box<[u8]> {
    let b = f.write();
    let n = b.len();
    check!(n >= 5, "a frame has a type and a checksum");
    check!(be(&b, n - 4, 4) == ref_crc(&b[..n - 4]), "checksum of a written frame");
    match Frame::read(&b) {
        Some(g) => check!(eq_frame(&f, &g), "a frame changed by writing and reading it"),
        None => check!(false, "a written frame is rejected"),
    }
    b
}

/// Every frame of constant size, all fields symbolic
#[no_mangle]
pub extern "C" fn h_c16_fixed() {
    let k = choice(7);
    reach(k as u32);
    match k {
        0 => {
            let b = roundtrip(Frame::HandshakeSynFrame(HandshakeSynFrame {
                version: any_u8(),
                nonce: any_u32(),
                max_receive_rate: any_u32(),
                max_packet_size: any_u32(),
                max_receive_alloc: any_u32(),
            }));
            check!(b.len() == uflow::MAX_FRAME_SIZE, "padding of a connection request");
        }
        1 => {
            roundtrip(Frame::HandshakeSynAckFrame(HandshakeSynAckFrame {
                nonce_ack: any_u32(),
                nonce: any_u32(),
                max_receive_rate: any_u32(),
                max_packet_size: any_u32(),
                max_receive_alloc: any_u32(),
            }));
        }
        2 => {
            roundtrip(Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: any_u32() }));
        }
        3 => {
            let error = match choice(3) {
                0 => HandshakeErrorType::Version,
                1 => HandshakeErrorType::Config,
                _ => HandshakeErrorType::ServerFull,
            };
            roundtrip(Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack: any_u32(), error }));
        }
        4 => {
            roundtrip(Frame::DisconnectFrame(DisconnectFrame {}));
        }
        5 => {
            roundtrip(Frame::DisconnectAckFrame(DisconnectAckFrame {}));
        }
        _ => {
            let a = if fork_bool() { Some(any_u32()) } else { None };
            let b = if fork_bool() { Some(any_u32()) } else { None };
            roundtrip(Frame::SyncFrame(SyncFrame { next_frame_id: a, next_packet_id: b }));
        }
    }
}

fn any_datagram(size: usize, stride: usize) -> Datagram {
    let mut data = vec![0x5Au8; size];
    let mut i = 0;
    while i < size {
        data[i] = any_u8();
        i += stride;
    }
    let last = any_u16();
    let id = any_u16();
    // a packet that is not fragmented has fragment 0 only
    assume((last != 0) | (id == 0));
    Datagram {
        sequence_id: any_u32() & 0xFFFFF,
        channel_id: any_u8() & 63,
        window_parent_lead: any_u16(),
        channel_parent_lead: any_u16(),
        fragment_id: id,
        fragment_id_last: last,
        data: data.into_boxed_slice(),
    }
}

/// Data frames of up to p0 datagrams, all header fields symbolic, lengths at every boundary
#[no_mangle]
pub extern "C" fn h_c16_data() {
    let n = choice(param(0) + 1);
    let mut d = vec![];
    for i in 0..n {
        let size = if i == 0 { pick(&[0, 1, 2, 31, 32, 62, 63, 64, 65, 127, 128, 254, 255, 256, 257, 1024, 1447, 1448]) } else { pick(&[0, 63, 64, 255, 256]) };
        d.push(any_datagram(size as usize, 1 + size as usize / 3));
    }
    roundtrip(Frame::DataFrame(DataFrame { sequence_id: any_u32(), nonce: any_bool(), datagrams: d }));
    reach(n as u32);
}

/// As many datagrams as a frame can carry
#[no_mangle]
pub extern "C" fn h_c16_many() {
    let n = pick(&[126, 127]) as usize;
    let mut d = vec![];
    for i in 0..n {
        d.push(if i == n - 1 {
            any_datagram(3, 1)
        } else {
            let sym = i % 40 == 0;
            Datagram {
                sequence_id: if sym { any_u32() & 0xFFFFF } else { i as u32 * 8191 },
                channel_id: if sym { any_u8() & 63 } else { i as u8 / 2 },
                window_parent_lead: if sym { any_u16() & 127 } else { i as u16 },
                channel_parent_lead: if sym { any_u16() & 255 } else { 2 * i as u16 },
                fragment_id: 0,
                fragment_id_last: 0,
                data: vec![i as u8; i % 3].into_boxed_slice(),
            }
        });
    }
    roundtrip(Frame::DataFrame(DataFrame { sequence_id: any_u32(), nonce: any_bool(), datagrams: d }));
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_c16_ack() {
    let n = pick(&[0, 1, 2, 3, 31, 127, 128, 160, 161, 255, 256, 300]);
    let mut v = vec![];
    for i in 0..n {
        v.push(if i < 3 || i + 2 >= n {
            AckGroup { base_id: any_u32(), bitfield: any_u32(), nonce: any_bool() }
        } else {
            AckGroup { base_id: (i as u32).wrapping_mul(0x01020304), bitfield: !(i as u32), nonce: i & 1 == 0 }
        });
    }
    let b = roundtrip(Frame::AckFrame(AckFrame { frame_window_base_id: any_u32(), packet_window_base_id: any_u32(), frame_acks: v }));
    check!(n > 161 || b.len() <= uflow::MAX_FRAME_SIZE, "size of an acknowledgement");
    reach(1);
}

// ---- an independent parser

fn ref_datagram(b: &[u8]) -> Option<(Datagram, usize)> {
    if b.len() < 6 {
        return None;
    }
    let (head, len) = if b[0] < 0x80 {
        (6, (b[0] & 63) as usize)
    } else if b[0] < 0xC0 {
        (9, b[1] as usize)
    } else {
        (14, (b[1] as usize) << 8 | b[2] as usize)
    };
    if b.len() < head || b.len() - head < len {
        return None;
    }
    let d = match head {
        6 => Datagram {
            channel_id: (b[1] & 15) | if b[0] & 0x40 != 0 { 16 } else { 0 } | if b[4] & 0x80 != 0 { 32 } else { 0 },
            sequence_id: be(b, 1, 3) >> 20 << 16 | be(b, 2, 2),
            window_parent_lead: (b[4] & 127) as u16,
            channel_parent_lead: b[5] as u16,
            fragment_id: 0,
            fragment_id_last: 0,
            data: b[6..6 + len].into(),
        },
        9 => Datagram {
            channel_id: b[0] & 63,
            sequence_id: be(b, 2, 3) & 0xFFFFF,
            window_parent_lead: be(b, 5, 2) as u16,
            channel_parent_lead: be(b, 7, 2) as u16,
            fragment_id: 0,
            fragment_id_last: 0,
            data: b[9..9 + len].into(),
        },
        _ => Datagram {
            channel_id: b[0] & 63,
            sequence_id: be(b, 3, 3) & 0xFFFFF,
            window_parent_lead: be(b, 6, 2) as u16,
            channel_parent_lead: be(b, 8, 2) as u16,
            fragment_id: be(b, 10, 2) as u16,
            fragment_id_last: be(b, 12, 2) as u16,
            data: b[14..14 + len].into(),
        },
    };
    Some((d, head + len))
}

/// What the bytes mean; None: not exactly one frame
fn ref_parse(b: &[u8]) -> Option<Frame> {
    let n = b.len();
    if n < 5 {
        return None;
    }
    let p = &b[1..n - 4];
    let n = p.len();
    Some(match b[0] {
        0 if n == 1467 => Frame::HandshakeSynFrame(HandshakeSynFrame {
            version: p[0],
            nonce: be(p, 1, 4),
            max_receive_rate: be(p, 5, 4),
            max_packet_size: be(p, 9, 4),
            max_receive_alloc: be(p, 13, 4),
        }),
        1 if n == 20 => Frame::HandshakeSynAckFrame(HandshakeSynAckFrame {
            nonce_ack: be(p, 0, 4),
            nonce: be(p, 4, 4),
            max_receive_rate: be(p, 8, 4),
            max_packet_size: be(p, 12, 4),
            max_receive_alloc: be(p, 16, 4),
        }),
        2 if n == 4 => Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: be(p, 0, 4) }),
        3 if n == 5 => Frame::HandshakeErrorFrame(HandshakeErrorFrame {
            nonce_ack: be(p, 0, 4),
            error: match p[4] {
                0 => HandshakeErrorType::Version,
                1 => HandshakeErrorType::Config,
                2 => HandshakeErrorType::ServerFull,
                _ => return None,
            },
        }),
        4 if n == 0 => Frame::DisconnectFrame(DisconnectFrame {}),
        5 if n == 0 => Frame::DisconnectAckFrame(DisconnectAckFrame {}),
        10 if n >= 5 => {
            let mut d = vec![];
            let mut at = 5;
            let count = p[4] & 127;
            let mut i = 0;
            while i < count {
                let (x, k) = ref_datagram(&p[at..])?;
                d.push(x);
                at += k;
                i += 1;
            }
            if at != n {
                return None;
            }
            Frame::DataFrame(DataFrame { sequence_id: be(p, 0, 4), nonce: p[4] >= 128, datagrams: d })
        }
        11 if n == 9 => Frame::SyncFrame(SyncFrame {
            next_frame_id: if p[0] & 1 != 0 { Some(be(p, 1, 4)) } else { None },
            next_packet_id: if p[0] & 2 != 0 { Some(be(p, 5, 4)) } else { None },
        }),
        12 if n >= 10 => {
            let count = be(p, 8, 2) as usize;
            if count != (n - 10) / 9 || (n - 10) % 9 != 0 {
                return None;
            }
            Frame::AckFrame(AckFrame {
                frame_window_base_id: be(p, 0, 4),
                packet_window_base_id: be(p, 4, 4),
                frame_acks: (0..(n - 10) / 9).map(|i| AckGroup { base_id: be(p, 10 + 9 * i, 4), bitfield: be(p, 14 + 9 * i, 4), nonce: p[18 + 9 * i] != 0 }).collect(),
            })
        }
        _ => return None,
    })
}

/// Frames that could be written differently (unused bits set, a longer header than necessary) may
/// be refused, but must not be misread; the ones uflow writes are covered by the round trips.
fn judge(b: &[u8]) {
    let got = Frame::read(b);
    let want = ref_parse(b);
    match (got, want) {
        (Some(g), Some(w)) => {
            check!(eq_frame(&g, &w), "a frame was misread");
            reach(100 + b[0] as u32);
        }
        (Some(_), None) => check!(false, "bytes that are not a frame were accepted"),
        (None, Some(_)) => reach(2),
        (None, None) => reach(1),
    }
}

/// p0..=p1 arbitrary bytes followed by their checksum
#[no_mangle]
pub extern "C" fn h_c16_parse() {
    let n = (param(0) + choice(param(1) - param(0) + 1)) as usize;
    let mut b = vec![0u8; n];
    fill(&mut b);
    if n > 4 {
        seal(&mut b);
    }
    judge(&b);
}

/// Every type with lengths from p0 to p1 in steps of p2
#[no_mangle]
pub extern "C" fn h_c16_parse_len() {
    let ty = pick(&[0, 1, 2, 3, 4, 5, 11, 12, 6, 9, 13, 255]);
    let n = (param(0) + choice((param(1) - param(0)) / param(2) + 1) * param(2)) as usize;
    let mut b = vec![0u8; n];
    b[0] = ty as u8;
    let mut i = 1;
    while i < n - 4 {
        if i < 24 || i % 131 == 0 {
            b[i] = any_u8();
        }
        i += 1;
    }
    if ty == 12 && n > 80 {
        // around the right number of groups
        let k = ((n - 15) / 9) as u64;
        let k = (k + range(0, 2) - 1) | pick(&[0, 0x100]);
        b[9] = (k >> 8) as u8;
        b[10] = k as u8;
    }
    seal(&mut b);
    judge(&b);
}

/// One datagram with arbitrary header in a frame of a given size
#[no_mangle]
pub extern "C" fn h_c16_datagram_len() {
    let n = pick(&[10, 16, 19, 24, 79, 80, 274, 275, 281, 1471, 1472]) as usize;
    if n as u64 > param(0) {
        return;
    }
    let mut b = vec![0u8; n];
    b[0] = 10;
    let mut i = 1;
    while i < n - 4 {
        if i < 26 || i % 400 == 0 {
            b[i] = any_u8();
        }
        i += 1;
    }
    b[5] = (any_u8() & 0x80) | pick(&[0, 1]) as u8;
    seal(&mut b);
    judge(&b);
}

/// Arbitrary bytes with an arbitrary checksum: accepted only if the checksum is right
#[no_mangle]
pub extern "C" fn h_c16_crc() {
    let mut sizes: Vec<u64> = (5..40).collect();
    sizes.extend_from_slice(if param(0) == 0 { &[64, 255, 256, 600] } else { &[64, 100, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 1400, 1470, 1471, 1472] });
    let n = pick(&sizes) as usize;
    let mut b = vec![0u8; n];
    fill(&mut b[..n - 4]);
    // a frame of that size with nothing else to object to
    if n == 1472 {
        b[0] = 0;
    } else if n >= 24 {
        b[0] = 10;
        b[5] = b[5] & 0x80 | 1;
        let len = n - 24;
        b[6] |= 0xC0;
        b[7] = (len >> 8) as u8;
        b[8] = len as u8;
    } else {
        assume(b[0] < 13);
    }
    seal(&mut b);
    let wrong = any_u32();
    for i in 0..4 {
        b[n - 4 + i] ^= (wrong >> (24 - 8 * i)) as u8;
    }
    if Frame::read(&b).is_some() {
        check!(wrong == 0, "a frame with a wrong checksum was accepted");
        reach(1);
    }
}

/// A written frame with at most 4 bits changed anywhere
#[no_mangle]
pub extern "C" fn h_c16_flips_small() {
    let f = match choice(param(0)) {
        0 => Frame::DisconnectFrame(DisconnectFrame {}),
        1 => Frame::DisconnectAckFrame(DisconnectAckFrame {}),
        2 => Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: any_u32() }),
        3 => Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack: any_u32(), error: HandshakeErrorType::Config }),
        4 => Frame::SyncFrame(SyncFrame { next_frame_id: Some(any_u32()), next_packet_id: None }),
        5 => Frame::DataFrame(DataFrame { sequence_id: any_u32(), nonce: any_bool(), datagrams: vec![] }),
        6 => Frame::AckFrame(AckFrame { frame_window_base_id: any_u32(), packet_window_base_id: any_u32(), frame_acks: vec![] }),
        7 => Frame::HandshakeSynAckFrame(HandshakeSynAckFrame { nonce_ack: any_u32(), nonce: any_u32(), max_receive_rate: any_u32(), max_packet_size: any_u32(), max_receive_alloc: any_u32() }),
        _ => Frame::AckFrame(AckFrame { frame_window_base_id: any_u32(), packet_window_base_id: any_u32(), frame_acks: vec![AckGroup { base_id: any_u32(), bitfield: any_u32(), nonce: any_bool() }] }),
    };
    let b = f.write();
    let n = b.len();
    let mut e = vec![0u8; n];
    fill(&mut e);
    let mut count = 0u32;
    for i in 0..n {
        count += e[i].count_ones();
    }
    assume((count >= 1) & (count <= 4));
    let mut x = b.to_vec();
    for i in 0..n {
        x[i] ^= e[i];
    }
    check!(Frame::read(&x).is_none(), "a frame with up to 4 flipped bits was accepted");
    reach(1);
}

/// A frame of 1472 bytes with changes to at most 4 bits within 4 bytes, at every offset
#[no_mangle]
pub extern "C" fn h_c16_flips_long() {
    let syn = fork_bool();
    let f = if syn {
        Frame::HandshakeSynFrame(HandshakeSynFrame { version: any_u8(), nonce: any_u32(), max_receive_rate: any_u32(), max_packet_size: 5, max_receive_alloc: 6 })
    } else {
        let mut data = vec![0xA7u8; 1448];
        data[0] = any_u8();
        data[700] = any_u8();
        data[1447] = any_u8();
        Frame::DataFrame(DataFrame {
            sequence_id: any_u32(),
            nonce: true,
            datagrams: vec![Datagram { sequence_id: 77, channel_id: 3, window_parent_lead: 1, channel_parent_lead: 2, fragment_id: 3, fragment_id_last: 9, data: data.into_boxed_slice() }],
        })
    };
    let mut b = f.write();
    check!(b.len() == 1472, "largest frame");
    let at = (choice((1472 - 4) / param(0) + 1) * param(0)) as usize;
    let mut e = [0u8; 4];
    fill(&mut e);
    let m = u32::from_le_bytes(e);
    assume((m != 0) & (m.count_ones() <= 4));
    for i in 0..4 {
        b[at + i] ^= e[i];
    }
    check!(Frame::read(&b).is_none(), "a frame with up to 4 flipped bits was accepted");
    reach(1);
}

/// The polynomial itself: no 1 to 4 of the p0 * 8 bits of a frame have syndromes adding up to zero.
/// The syndromes of all bits, in some order, are x^0 .. x^(n-1); by shifting, one of four bits
/// that cancel can be taken to be the first.
#[no_mangle]
pub extern "C" fn h_c16_distance() {
    budget(1 << 40);
    let bytes = param(0) as usize;
    let n = bytes * 8;
    // powers of x, from the lowest register bit upwards; bit 31 is x^0 in the reflected form
    let mut pow = vec![0u32; n];
    pow[0] = 0x8000_0000;
    for i in 1..n {
        let r = pow[i - 1];
        pow[i] = (r >> 1) ^ (0x9960034C & (r & 1).wrapping_neg());
    }
    let part = choice(param(1)) as usize;
    if part == 0 {
        // what a flipped bit does to checksum and stored checksum is one of these powers, each
        // position another
        let mut seen = vec![false; n];
        for i in 0..n {
            let s = if i < n - 32 {
                // distance from the end of the contents in transmission order (low bit first)
                n - 1 - i
            } else {
                // the stored checksum: big endian, high bit of the register is x^0
                let k = i - (n - 32);
                let bit = 31 - (k / 8 * 8 + 7 - k % 8);
                31 - bit
            };
            check!(!seen[s], "positions share a syndrome");
            seen[s] = true;
        }
        let mut odd = 0;
        for i in 0..32 {
            odd ^= (0x9960034Cu32 >> i) & 1;
        }
        check!(odd == 1, "the polynomial is divisible by x + 1: odd numbers of flips show");
    }
    // hash of all powers
    let bits = 16;
    let mut head = vec![0u16; 1 << bits];
    let mut next = vec![0u16; n + 1];
    let mut bloom = vec![0u64; 1 << 14];
    for i in 0..n {
        check!(pow[i] != 0, "one flip");
        let h = (pow[i].wrapping_mul(0x9E3779B1) >> (32 - bits)) as usize;
        next[i + 1] = head[h];
        head[h] = i as u16 + 1;
        let g = (pow[i].wrapping_mul(0x85EBCA6B) >> 12) as usize;
        bloom[g >> 6] |= 1 << (g & 63);
    }
    let find = |v: u32| -> bool {
        let g = (v.wrapping_mul(0x85EBCA6B) >> 12) as usize;
        if bloom[g >> 6] >> (g & 63) & 1 == 0 {
            return false;
        }
        let h = (v.wrapping_mul(0x9E3779B1) >> (32 - bits)) as usize;
        let mut k = head[h];
        while k != 0 {
            if pow[k as usize - 1] == v {
                return true;
            }
            k = next[k as usize];
        }
        false
    };
    // 2 flips: the order of x is larger than n; 4 flips: 1 + x^b + x^c = x^d with 0 < b < c, d not b, c
    let mut b = 1 + part;
    while b < n {
        check!(pow[b] != pow[0], "two flips");
        for c in b + 1..n {
            if find(pow[0] ^ pow[b] ^ pow[c]) {
                check!(false, "four flips");
            }
        }
        b += param(1) as usize;
    }
    reach(1);
}
