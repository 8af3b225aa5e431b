//! C19: every block is freed once, with the size and alignment it was allocated with (checked by the
//! executor at every deallocation), and dropping endpoints returns everything they allocated.
use crate::app::*;
use crate::link::*;
use crate::rt::*;
use crate::*;
use uflow::verif::frame::*;

entries!(h_c19_traffic, h_c19_sizes, h_c19_hostile, h_c19_app, h_c19_cycles, h_c19_sides);

fn balance(before: u64, count: u64) {
    env_clear();
    check!(heap_count() <= count, "blocks were not freed");
    check!(heap_live() <= before, "memory was not returned");
    reach(1);
}

/// p0 rounds with two packets of one to three fragments in symbolic modes, p1 / p2 faults there /
/// back; both ends are dropped after any number of rounds
#[no_mangle]
pub extern "C" fn h_c19_traffic() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let (before, count) = (heap_live(), heap_count());
    {
        let cfg = Cfg { window: 4, a_packet: 0xFFFFE, alloc: pick(&[3000, 100_000]) as usize, rate: pick(&[4000, 10_000_000]) as u32, ..Cfg::default() };
        let mut w = World::new(&cfg, pick(&[40, 400]));
        w.dev_ab = param(1);
        w.dev_ba = param(2);
        w.b_period = pick(&[1, 3]);
        let stop = choice(param(3));
        for t in 0..param(3) {
            if t == stop {
                break;
            }
            w.round(|w| {
                if t < param(0) {
                    let m = range(0, 3);
                    w.submit([2000, 1, 4345][t as usize % 3], 0, m, 0);
                    let m = range(0, 3);
                    w.submit([5, 1449, 2896][t as usize % 3], 1, m, 0);
                }
            });
        }
        if w.b.got.0.len() > 0 {
            reach(2);
        }
        if w.a.hc.is_send_pending() {
            reach(3);
        }
    }
    balance(before, count);
}

/// A packet of any size from p0 to p1 (step p2), delivered or dropped half way
#[no_mangle]
pub extern "C" fn h_c19_sizes() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let (before, count) = (heap_live(), heap_count());
    {
        let cfg = Cfg { window: 8, ..Cfg::default() };
        let mut w = World::new(&cfg, 100);
        w.warm(2);
        let n = (param(0) + param(2) * conc(range(0, (param(1) - param(0)) / param(2)))) as usize;
        let m = range(1, 3);
        w.submit(n, 0, m, 0);
        w.blackout_ab = any_bool();
        w.round(|_| ());
        w.blackout_ab = false;
        let rest = pick(&[0, 2, 12]);
        for _ in 0..rest {
            w.round(|_| ());
        }
        if w.examine().len() > 0 {
            reach(2);
        }
        let all = std::mem::take(&mut w.b.got.0);
        // what the application received is its own to free
        drop(w);
        let held: u64 = all.iter().map(|x| x.len() as u64).sum();
        check!(heap_live() - before >= held, "a delivered packet was freed");
    }
    balance(before, count);
}

/// p0 frames with fragments of packets that are never completed, repeated, too large for the receive
/// buffer or inconsistent; then synchronisation and more, or the end
#[no_mangle]
pub extern "C" fn h_c19_hostile() {
    budget(1 << 40);
    let (before, count) = (heap_live(), heap_count());
    {
        let cfg = Cfg { window: 8, a_packet: 0xFFFFD, alloc: 6000, ..Cfg::default() };
        let mut e = half(&cfg, false);
        let mut id = cfg.a_frame;
        for _ in 0..param(0) {
            let (f, l, n) = [(0, 0, 1448), (0, 1, 1448), (1, 1, 30), (1, 2, 1448), (9, 4000, 1448), (2, 1, 5)][choice(6) as usize];
            let d = Datagram {
                sequence_id: cfg.a_packet.wrapping_add(choice(3) as u32) & 0xFFFFF,
                channel_id: choice(2) as u8,
                window_parent_lead: any_u16(),
                channel_parent_lead: any_u16(),
                fragment_id: f,
                fragment_id_last: l,
                data: vec![7; n].into(),
            };
            e.hc.handle_data_frame(DataFrame { sequence_id: id, nonce: false, datagrams: vec![d].into() });
            id = id.wrapping_add(1);
            match choice(3) {
                0 => (),
                1 => e.hc.receive(&mut e.got),
                _ => e.hc.handle_sync_frame(SyncFrame { next_frame_id: Some(id), next_packet_id: Some((cfg.a_packet + 2) & 0xFFFFF) }),
            }
        }
    }
    balance(before, count);
}

fn clear(w: &mut App) {
    w.events = vec![];
    w.sent = vec![];
    w.got = vec![];
    w.flights = vec![];
    w.cl = vec![];
}

/// p0 calls in any order after 0 to 6 rounds, then p1 rounds; everything is dropped. Packets are
/// submitted before the connection exists, too.
#[no_mangle]
pub extern "C" fn h_c19_app() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let (before, count) = (heap_live(), heap_count());
    {
        let mut c = server_config(endpoint());
        c.endpoint_config.max_packet_size = 10_000;
        c.endpoint_config.max_receive_alloc = 20_000;
        let e = c.endpoint_config.clone();
        let mut w = App::new(c);
        let i = w.connect(e, None);
        let port = w.cl[i].port;
        if fork_bool() {
            w.client_send(i, vec![1; 5000], 0, 3);
            w.client_send(i, vec![1; 5], 0, 0);
        }
        w.dev_up = param(2);
        for _ in 0..pick(&[0, 1, 2, 6]) {
            w.round(60);
        }
        for _ in 0..param(0) {
            match choice(9) {
                0 => w.client_send(i, vec![1; 2000], 0, 3),
                1 => {
                    w.server_send(port, vec![3; 3001], 1, 2);
                }
                2 => w.client(i).disconnect(),
                3 => w.client(i).disconnect_now(),
                4 => {
                    w.server_disconnect(port, false);
                }
                5 => {
                    w.server_disconnect(port, true);
                }
                6 => w.server.drop(&addr(port)),
                7 => w.round(60),
                _ => w.pass(25_000),
            }
        }
        let n = pick(&[0, 2, 8]);
        for _ in 0..n {
            w.round(60);
        }
        if w.connects(true, port) > 0 {
            reach(2);
        }
        clear(&mut w);
    }
    balance(before, count);
}

/// Connections come and go (in one of 5 ways), p0 times: an idle server does not grow
#[no_mangle]
pub extern "C" fn h_c19_cycles() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let (before, count) = (heap_live(), heap_count());
    {
        let mut e = endpoint();
        e.active_timeout_ms = 3000;
        let mut w = App::new(server_config(e.clone()));
        let mut level = 0;
        let kind = choice(6);
        for k in 0..param(0) {
            let i = w.connect(e.clone(), None);
            let port = w.cl[i].port;
            if kind == 5 {
                // never gets an answer
                w.blackout_down = true;
            }
            for _ in 0..5 {
                w.round(60);
            }
            if kind < 5 {
                w.client_send(i, vec![1; 3000], 0, 3);
                w.server_send(port, vec![1; 3000], 0, 3);
                w.round(60);
                w.round(60);
            }
            match kind {
                0 => w.client(i).disconnect(),
                1 => w.client(i).disconnect_now(),
                2 => {
                    w.server_disconnect(port, true);
                }
                3 => w.server.drop(&addr(port)),
                _ => w.cl[i].c = None,
            }
            // everything ends within the timeouts
            for _ in 0..70 {
                w.round(500);
            }
            check!(w.server.client(&addr(port)).is_none(), "the server still knows the client");
            clear(&mut w);
            env_clear();
            let now = heap_live();
            if k == 2 {
                level = now;
                reach(2);
            }
            // containers may keep their capacity
            if k > 2 {
                check!(now <= level, "the server's memory grows with connections gone by");
            }
        }
    }
    balance(before, count);
}

/// One side is dropped while the other lives on: the server with handshakes and connections open, or
/// a client in any state
#[no_mangle]
pub extern "C" fn h_c19_sides() {
    budget(1 << 40);
    env().rand = Rand::Fixed;
    let (before, count) = (heap_live(), heap_count());
    {
        let w0 = App::new(server_config(endpoint()));
        let mut w = w0;
        let a = w.connect(endpoint(), None);
        for _ in 0..choice(4) {
            w.round(60);
        }
        let b = w.connect(endpoint(), None);
        w.client_send(a, vec![1; 4000], 0, 3);
        w.client_send(b, vec![1; 4000], 0, 3);
        let (pa, pb) = (w.cl[a].port, w.cl[b].port);
        for _ in 0..choice(5) {
            w.round(60);
            w.server_send(pa, vec![2; 1500], 0, 3);
            w.server_send(pb, vec![2; 1500], 0, 1);
        }
        if fork_bool() {
            // the application keeps a handle
            let h = w.server.client(&addr(pa)).cloned();
            if fork_bool() {
                w.server.drop(&addr(pa));
            }
            for _ in 0..2 {
                w.round(60);
            }
            if let Some(h) = h {
                let _ = (h.borrow().send_buffer_size(), h.borrow().is_active());
                reach(3);
            }
        }
        if fork_bool() {
            w.cl[a].c = None;
        }
        if fork_bool() {
            w.cl[b].c = None;
        }
        for _ in 0..choice(3) {
            w.round(60);
        }
        clear(&mut w);
    }
    balance(before, count);
}
