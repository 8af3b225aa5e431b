//! C11: whatever was lost, the flow resumes once the network works again.
use crate::app;
use crate::link::*;
use crate::rt::*;
use crate::*;

entries!(h_c11_windows, h_c11_faults, h_c11_latency, h_c11_default, h_c11_alloc, h_c11_idle, h_c11_stale, h_c11_app);

fn world(window: u32, alloc: usize, rate: u32, dt: u64) -> World {
    budget(1 << 40);
    World::new(&Cfg { window, alloc, rate, keepalive: Some(5000), ..Cfg::default() }, dt)
}

/// A round in which a packet is submitted between step() and flush()
fn put_round(w: &mut World, size: usize, chan: u8, mode: u64) -> usize {
    let i = w.pkts.len();
    w.round(|w| {
        put(w, size, chan, mode);
    });
    count(w);
    i
}

/// Identified by the first two bytes
fn put(w: &mut World, size: usize, chan: u8, mode: u64) -> usize {
    let i = w.pkts.len();
    let mut d = vec![i as u8; size.max(2)];
    d[1] = (i >> 8) as u8;
    w.submit_data(d, chan, mode);
    i
}

fn count(w: &mut World) {
    while w.seen < w.b.got.0.len() {
        let p = &w.b.got.0[w.seen];
        let i = p[0] as usize | (p[1] as usize) << 8;
        check!(i < w.pkts.len(), "a packet nobody sent was delivered");
        check!(w.pkts[i].delivered == 0, "packet delivered twice");
        w.pkts[i].delivered += 1;
        w.seen += 1;
    }
}

fn rounds(w: &mut World, n: u64) {
    for _ in 0..n {
        w.round(|_| ());
        count(w);
    }
}

/// The network works from now on. Within the given time everything submitted is settled and
/// packets of every mode pass, at more than the minimum rate.
fn recovers(w: &mut World, limit: u64) {
    w.dev_ab = 0;
    w.dev_ba = 0;
    w.blackout_ab = false;
    w.blackout_ba = false;
    let end = w.now + limit;
    while w.now < end && (w.a.hc.is_send_pending() || w.a.hc.send_buffer_size() > 0) {
        rounds(w, 1);
    }
    check!(!w.a.hc.is_send_pending(), "packets are still waiting to be sent");
    check!(w.a.hc.send_buffer_size() == 0, "packets are still in the send buffer");
    for p in &w.pkts {
        check!(p.mode != 3 || p.delivered == 1, "a reliable packet was not delivered");
    }
    reach(20);
    // one of each mode, until all pass
    let mut passed = [false; 4];
    while w.now < end && passed != [true; 4] {
        let mut ids = [0; 4];
        for m in 0..4 {
            let size = if m == 0 { 40 } else { 400 };
            ids[m as usize] = put_round(w, size, m as u8, m);
            // TimeSensitive packets need an instant at which there is bandwidth
            let pause = (w.dt / 2 + 500) / w.dt;
            rounds(w, pause.max(1));
        }
        let pause = 3000 / w.dt + 2 * (w.latency + w.b_period);
        rounds(w, pause);
        for m in 0..4 {
            passed[m] = w.pkts[ids[m]].delivered == 1;
        }
    }
    check!(passed == [true; 4], "packets submitted later do not pass");
    reach(21);
    // and more than a trickle
    let end = w.now + limit;
    let mut ids = vec![];
    for k in 0..12 {
        ids.push(put(w, 1400, k % 3, 3));
    }
    while w.now < end && !ids.iter().all(|i| w.pkts[*i].delivered == 1) {
        rounds(w, 1);
    }
    check!(ids.iter().all(|i| w.pkts[*i].delivered == 1), "still at the minimum rate");
    let t0 = w.now;
    let mut ids = vec![];
    for k in 0..8 {
        ids.push(put(w, 1400, k % 3, 3));
    }
    while w.now < end + limit && !ids.iter().all(|i| w.pkts[*i].delivered == 1) {
        rounds(w, 1);
    }
    // 11.5 kB: at 23 B/s that would be 500 s
    check!(w.now - t0 < 100_000, "pinned near the minimum rate");
    reach(22);
}

/// Windows filled, emptied, and lost as a whole.
/// params: packets, 1: any mode per packet (else one for all)
#[no_mangle]
pub extern "C" fn h_c11_windows() {
    let window = pick(&[4, 8]) as u32;
    let dt = pick(&[100, 20]);
    let mut w = world(window, 100_000, 1_000_000, dt);
    // some traffic before: there is an RTT estimate, or none
    if fork_bool() {
        put(&mut w, 10, 0, 3);
        rounds(&mut w, 5);
    }
    let one = range(0, 3);
    let size = pick(&[20, 1400, 4000]) as usize;
    // 1: data lost, 2: acks lost, 3: both
    let which = range(1, 3);
    // for so long
    let len = pick(&[200, 2500, 9000, 40_000]) / dt;
    w.blackout_ab = which & 1 != 0;
    w.blackout_ba = which & 2 != 0;
    let n = param(0) * window as u64 / 4;
    for k in 0..len {
        if k < n {
            let m = if param(1) == 1 { range(0, 3) } else { one };
            put_round(&mut w, size, (k % 3) as u8, m);
        } else {
            rounds(&mut w, 1);
        }
    }
    // (packets beyond the blackout come too)
    let mut k = len;
    while k < n {
        put(&mut w, size, 0, one);
        k += 1;
    }
    reach(1);
    recovers(&mut w, 400_000);
}

/// Single losses at any point, of data, syncs and acknowledgements alike.
/// params: packets, faults ab, faults ba
#[no_mangle]
pub extern "C" fn h_c11_faults() {
    let window = pick(&[2, 4]) as u32;
    let mut w = world(window, 100_000, 1_000_000, 100);
    w.dev_ab = param(1);
    w.dev_ba = param(2);
    let size = pick(&[20, 3000]) as usize;
    let mode = range(0, 3);
    for k in 0..param(0) {
        put_round(&mut w, size, (k % 2) as u8, if k % 2 == 0 { mode } else { 3 - mode });
    }
    let n = 20 + 30 * choice(3);
    rounds(&mut w, n);
    reach(1);
    recovers(&mut w, 400_000);
}

/// The round-trip time changes for good, by an order of magnitude and more.
/// params: packets before and after the change
#[no_mangle]
pub extern "C" fn h_c11_latency() {
    let dt = pick(&[10, 100]);
    let mut w = world(16, 100_000, 1_000_000, dt);
    let l = [(1, 12), (1, 45), (20, 1), (3, 30)][choice(4) as usize];
    w.latency = l.0;
    let mode = range(1, 3);
    for k in 0..param(0) {
        put(&mut w, 1000, (k % 2) as u8, mode);
        rounds(&mut w, 1);
    }
    rounds(&mut w, choice(2) * 40);
    w.latency = l.1;
    if fork_bool() {
        w.b_period = 7;
    }
    // what is in flight may be lost
    if fork_bool() {
        w.ab.clear();
    }
    for k in 0..param(0) {
        put(&mut w, 1000, (k % 2) as u8, 3);
        rounds(&mut w, 1);
    }
    reach(1);
    recovers(&mut w, 600_000);
}

/// TimeSensitive packets beyond what the rate admits are dropped for a while, whole or begun.
/// params: rounds
#[no_mangle]
pub extern "C" fn h_c11_stale() {
    let dt = pick(&[20, 100]);
    let mut w = world(16, pick(&[1448, 6000]) as usize, pick(&[3000, 100_000]) as u32, dt);
    w.latency = pick(&[1, 3]);
    put(&mut w, 10, 0, 3);
    rounds(&mut w, 5);
    let size = pick(&[40, 1448, 2900]) as usize;
    let other = range(0, 3);
    let lost = fork_bool();
    for k in 0..param(0) {
        w.blackout_ab = lost && k % 3 != 0;
        w.round(|w| {
            put(w, size, 0, 0);
            if k % 4 == 0 {
                put(w, 700, 1, other);
            }
            put(w, size / 2, 0, 0);
        });
        count(&mut w);
    }
    reach(1);
    recovers(&mut w, 400_000);
}

/// The window sizes of a real connection, filled with the smallest packets.
/// params: packets
#[no_mangle]
pub extern "C" fn h_c11_default() {
    let mut w = world(4096, 1_000_000, 2_000_000, 50);
    let which = range(1, 3);
    let mode = range(1, 3);
    put(&mut w, 10, 0, 3);
    rounds(&mut w, 4);
    w.blackout_ab = which & 1 != 0;
    w.blackout_ba = which & 2 != 0;
    for k in 0..param(0) {
        put(&mut w, 2, 0, mode);
        if k % 64 == 63 {
            rounds(&mut w, 1);
        }
    }
    let len = pick(&[10, 100]);
    rounds(&mut w, len);
    reach(1);
    recovers(&mut w, 400_000);
}

/// The receiver's memory is exhausted by fragments of packets that never become complete.
/// params: packets, frames lost
#[no_mangle]
pub extern "C" fn h_c11_alloc() {
    let mut w = world(16, pick(&[3000, 6000]) as usize, 1_000_000, 100);
    let mode = range(1, 2);
    put(&mut w, 10, 0, 3);
    rounds(&mut w, 4);
    w.dev_ab = param(1);
    for _ in 0..param(0) {
        put(&mut w, 2900, 0, mode);
        rounds(&mut w, 1);
    }
    let n = 10 * choice(3);
    rounds(&mut w, n);
    reach(1);
    recovers(&mut w, 400_000);
}

/// A loss long ago, then a long silence, then much to send; over real endpoints.
/// params: faults up, faults down
#[no_mangle]
pub extern "C" fn h_c11_idle() {
    budget(1 << 40);
    let dt = 100;
    let mut w = app::App::new(app::server_config(app::endpoint()));
    let i = w.connect(app::endpoint(), None);
    let port = w.cl[i].port;
    for _ in 0..5 {
        w.round(dt);
    }
    let up = fork_bool();
    let send = |w: &mut app::App, n: usize, id: u8| {
        for _ in 0..n {
            if up {
                w.client_send(i, vec![id; 1400], 0, 3)
            } else {
                w.server_send(port, vec![id; 1400], 0, 3);
            }
        }
    };
    w.dev_up = param(0);
    w.dev_down = param(1);
    let warm = 6 * choice(3) as usize;
    send(&mut w, 3 + warm, 1);
    for _ in 0..60 {
        w.round(dt);
    }
    w.dev_up = 0;
    w.dev_down = 0;
    let idle = pick(&[1, 30, 300]) * 1000;
    let end = w.now + idle;
    while w.now < end {
        w.round(dt);
        w.sent.clear();
        w.got.clear();
    }
    send(&mut w, 12, 2);
    let t0 = w.now;
    while w.now < t0 + 100_000 && w.received(up, port).iter().filter(|d| d[0] == 2).count() < 12 {
        w.round(dt);
        check!(w.ends(true, port) == 0 && w.ends(false, port) == 0, "the connection ended although the network works");
    }
    check!(w.received(up, port).iter().filter(|d| d[0] == 2).count() == 12, "reliable packets were not delivered");
    // 17 kB
    check!(w.now - t0 < 30_000, "close to the minimum rate without recent losses");
    reach(1);
}

/// Blackouts shorter than the timeout.
/// params: -
#[no_mangle]
pub extern "C" fn h_c11_app() {
    budget(1 << 40);
    let dt = pick(&[50, 200]);
    let mut w = app::App::new(app::server_config(app::endpoint()));
    let i = w.connect(app::endpoint(), None);
    let port = w.cl[i].port;
    for _ in 0..5 {
        w.round(dt);
    }
    let mode = range(1, 3);
    let busy = range(0, 3);
    let send = |w: &mut app::App, size: usize| {
        if busy & 1 != 0 {
            w.client_send(i, vec![1; size], 0, mode)
        }
        if busy & 2 != 0 {
            w.server_send(port, vec![1; size], 0, mode);
        }
    };
    for _ in 0..5 {
        send(&mut w, 3000);
        w.round(dt);
    }
    let dir = range(1, 3);
    w.blackout_up = dir & 1 != 0;
    w.blackout_down = dir & 2 != 0;
    let end = w.now + pick(&[1000, 4000, 8000]);
    while w.now < end {
        if fork_bool() {
            send(&mut w, 1400);
        }
        for _ in 0..1000 / dt {
            w.round(dt);
        }
        if param(0) == 0 {
            while w.now < end {
                w.round(dt);
            }
        }
    }
    w.blackout_up = false;
    w.blackout_down = false;
    let end = w.now + 60_000;
    while w.now < end {
        w.round(dt);
        check!(w.ends(true, port) == 0 && w.ends(false, port) == 0, "the connection ended although the network works");
    }
    w.echo(i, 20_000 / dt, dt);
    reach(1);
}
