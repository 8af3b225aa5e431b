"""What each check runs: harness entries, parameters, bounds."""

ASSUMPTIONS = [
    "rustc's LLVM IR (opt-level 2, debug assertions and overflow checks on) is executed; the back end's translation to machine code is exercised only by the native replays",
    "the clock, the random number generator and the UDP socket are stand-ins compiled in by cfg(uflow_verif) (src/verif.rs)",
    "the engine usym and Z3 are trusted; usym is cross-checked by native replay of sampled paths in every run",
]

PROPS = {}


def prop(id, what, outside, runs, **k):
    PROPS[id] = dict(what=what, outside=outside, runs=runs, **k)


def run(entry, params, bounds, thorough=None, **k):
    r = dict(entry=entry, params=params, bounds=bounds, **k)
    if thorough is not None:
        r["thorough"] = thorough
    return r


LINK = "more packets, rounds and faults than stated per run; packet contents beyond the symbolic bytes; packet ids after 2^20 packets of one connection"

prop("C01",
     "Two connected HalfConnections exchange packets over a link; per frame the solver chooses the fate (on time, lost, duplicated, late). Channel, mode, payload bytes, frame nonces and the high bits of the initial frame and packet ids are symbolic. Every delivery is compared with what was submitted: contents, at most once, order per channel.",
     LINK,
     [
         run("h_c01_traffic", [2, 30, 1, 200, 0], "2 packets of 4 bytes on 2 channels in 4 modes, 1 fault there, windows of 8 placed across the id wrap, steps of 200 ms", [3, 30, 2, 200, 1], reach=[1, 2]),
         run("h_c01_traffic", [2, 30, 1, 10, 1], "as above with steps of 10 ms, 1 fault each way", [3, 30, 2, 10, 0], reach=[1]),
         run("h_c01_reorder", [3, 3], "3 frames delivered 3 times in any order with repetition, receive() at any point", [4, 4], reach=[1]),
         run("h_c01_fragments", [3, 5, 2], "3 packets in 3 modes on 2 channels, the second of 2 fragments, and their retransmissions: any subset of the frames arrives, receive() at any point before the first retransmission", [3, 8, 3], reach=[1]),
        run("h_c01_app", [5, 0, 1, 0], "Server and 1 or 2 clients, 5 rounds of packets of 6 sizes in both directions from before the connection is there; 1 datagram to the server lost, duplicated or late, from the start or from round 4 on", [6, 1, 1, 0], reach=[1, 101]),
        run("h_c01_app", [5, 0, 0, 1], "the same, 1 datagram to a client", [5, 0, 1, 1], reach=[1, 101]),
     ])

prop("C02",
     "As C01, with bounded faults followed by a fault-free phase: no delivery skips an undelivered Reliable packet of its channel, and at the end every Reliable packet is delivered and the sender has nothing pending.",
     LINK,
     [
         run("h_c02_traffic", [2, 2, 200, 1], "2 packets in 3 modes, 2 channels; 2 faults there, 1 back; windows of 8 across the id wrap", [3, 3, 200, 1], reach=[1]),
         run("h_c02_blackout", [3, 2, 200, 3, 0], "6 packets in 3 rounds against windows of 4; blackout of 1, 3, 20 or 60 rounds, at any round, in either or both directions", [4, 2, 200, 3, 0], reach=[1]),
         run("h_c02_blackout", [3, 1, 200, 1400, 2], "3 packets of 1400 bytes against a window of 2 frames and 4 packets; the same blackouts", [5, 1, 200, 1400, 2], reach=[1]),
         run("h_c02_fragments", [2, 2, 200, 1], "packets of 3 fragments and of 2 bytes; 2 faults there, 1 back", [3, 3, 200, 1], reach=[1]),
        run("h_c02_fragments", [3, 2, 200, 0], "packets of 1, 2 and 1 fragments; 2 faults there", [4, 2, 200, 0], reach=[1]),
        run("h_c02_many", [200, 1, 1], "200 packets of 1 or 12 bytes at once on 1, 3 or 64 channels, frames full of them; 1 fault each way", [220, 2, 1], reach=[1, 101]),
        run("h_c02_app", [5, 0, 1, 0], "Server and 1 or 2 clients, 5 rounds of packets of 6 sizes in both directions from before the connection is there; 1 datagram to the server lost, duplicated or late, from the start or from round 4 on", [6, 1, 1, 0], reach=[1, 101]),
        run("h_c02_app", [5, 0, 0, 1], "the same, 1 datagram to a client", [5, 0, 1, 1], reach=[1, 101]),
     ])

prop("C16",
     "Every kind of frame is written and read back with symbolic fields; arbitrary bytes with a valid checksum are compared with an independent parser; a symbolic deviation of the checksum must be noticed; symbolic changes of 1 to 4 bits must be noticed. The code's checksum is shown equal to a bitwise reference for symbolic contents (linear algebra over GF(2) in the engine), so the 4-bit distance of the polynomial over whole frames reduces to an exhaustive computation on its powers.",
     "arbitrary (non-sealed) contents longer than stated; changes of up to 4 bits spread over a long frame are decided through the reference polynomial, not by running the code on each; other encodings of a valid frame (unused bits set, longer header than needed) may be refused or accepted but not misread",
     [
         run("h_c16_fixed", [0], "all fields of the 6 handshake/disconnect frames and the sync frame", reach=[0, 1, 2, 3, 4, 5, 6]),
         run("h_c16_data", [1], "data frames of 0 to 1 datagrams of 18 sizes around every limit, all header fields symbolic", [2], reach=[0, 1]),
         run("h_c16_many", [0], "126 and 127 datagrams", reach=[1]),
         run("h_c16_ack", [0], "12 counts of ack groups from 0 to 300", reach=[1]),
         run("h_c16_parse", [0, 24], "any 0 to 24 bytes", [0, 36], reach=[1, 102, 103, 104, 105, 110, 111, 112]),
         run("h_c16_parse_len", [5, 60, 1], "every type with every length from 5 to 60, the first 23 bytes symbolic", [5, 400, 1], reach=[101, 102, 103, 104, 105, 111, 112]),
         run("h_c16_parse_len", [1468, 1476, 1], "the same with lengths from 1468 to 1476", [81, 1490, 1], reach=[100, 112]),
         run("h_c16_datagram_len", [280], "one datagram with symbolic header in frames of 7 sizes", [1472], reach=[110]),
         run("h_c16_crc", [0], "39 sizes up to 600, all bytes symbolic, checksum off by a symbolic difference", [1], reach=[1]),
         run("h_c16_flips_small", [6], "6 kinds of frames of 5 to 14 bytes, any 1 to 4 bits changed", [9], reach=[1], query_timeout=600000),
         run("h_c16_flips_long", [36], "two frames of 1472 bytes, any 1 to 4 of 32 adjacent bits changed, every 36th byte", [3], reach=[1]),
         run("h_c16_distance", [368, 32], "polynomial: any 1 to 4 of the bits of 368 bytes", [1472, 64], reach=[1]),
     ])

prop("C05",
     "Two HalfConnections over a link without faults: constant or changing latency (frames never overtake), various step intervals, receivers that step rarely, windows and receive buffers that fill. Modes and channels are symbolic. Every delivery must be in the order of submission across channels; nothing but unsent TimeSensitive packets may be missing.",
     LINK,
     [
         run("h_c05_modes", [3, 1], "3 packets in 4 modes on 3 channels; steps of 10 or 200 ms; latency of 1, 2, 20 rounds or changing; ids at the wrap", [4, 1], reach=[1, 2]),
         run("h_c05_bulk", [24, 2], "24 packets of 7 sizes in bursts of 1, 5 or 50 against windows of 4 or 16 packets, 1500 or 6000 bytes, 3 kB/s or 10 MB/s; receiver steps every 1, 3 or 10 rounds; 2 of the modes symbolic", [60, 4], reach=[1, 2]),
         run("h_c05_fragments", [2], "4 packets of 1 to 3 fragments in 4 modes; 6000 or 100000 bytes of receive buffer", [3], reach=[1, 2]),
         run("h_c05_both", [2], "2 packets in each direction, windows of 4, ids at the wrap", [3], reach=[1, 2]),
        run("h_c05_many", [200], "200 packets of 1 or 12 bytes at once on 1, 3 or 64 channels, frames full of them", [247], reach=[1]),
        run("h_c05_app", [8, 2], "Server and 1 or 2 clients, 8 rounds of packets of 6 sizes in both directions from before the connection is there; 2 modes and channels symbolic", [10, 3], reach=[1]),
     ])

prop("C12",
     "Every frame the sender emits is parsed and every (packet, fragment) in it is counted, together with the acknowledgements the sender was given, under symbolic modes and frame fates: at most one transmission of Unreliable and TimeSensitive fragments, none of a TimeSensitive packet after the next step(), none after a processed acknowledgement or after the receiver reported moving past the packet; and while nothing is acknowledged Persistent and Reliable fragments keep being transmitted.",
     LINK + "; acknowledgements of frames older than 4 RTT are not taken as processed (the sender may have forgotten those frames)",
     [
         run("h_c12_traffic", [2, 2, 1, 60, 100], "2 packets in 4 modes, 2 channels, 2 faults there, 1 back, windows of 8, steps of 100 ms", [3, 2, 1, 60, 100], reach=[1, 2]),
         run("h_c12_traffic", [2, 1, 1, 60, 20], "the same with steps of 20 ms and 1 fault there", [3, 2, 1, 80, 20], reach=[1, 2]),
         run("h_c12_fragments", [1, 2, 1, 60, 100], "a packet of 3 fragments and one of 2 bytes, 2 faults there, 1 back", [2, 2, 1, 60, 100], reach=[1, 2]),
         run("h_c12_slow", [2, 0, 1, 60], "2 rounds of packets of up to 2000 bytes plus TimeSensitive ones against 1500 or 20000 B/s, windows of 2 or 8, receive buffers of 1500 or 8000 bytes, two flushes per step", [3, 1, 1, 60], reach=[1, 3]),
         run("h_c12_until_acked", [200, 2], "20 s without acknowledgements after 0 to 2 rounds, windows of 4096", [600, 3], reach=[91, 2]),
         run("h_c12_partial", [4, 3, 6, 3], "a packet of 4 fragments and a small one; any 3 frames or any 3 acknowledgements of 6 rounds lost", [8, 4, 10, 5], reach=[1, 2]),
     ])

prop("C20",
     "Packet sizes are distinct powers of two, so send_buffer_size() tells exactly which packets are counted; after every step and flush it is compared with a model fed by the submissions, the emitted frames and the acknowledgements handed to the sender.",
     LINK,
     [
         run("h_c20_traffic", [2, 1, 1, 100], "4 packets in 2 rounds, 4 modes, 1 fault each way, windows of 4 at the id wrap", [3, 1, 1, 100], reach=[1]),
         run("h_c20_slow", [2, 0], "8 packets with stale TimeSensitive ones against little bandwidth and small receive buffers", [3, 1], reach=[1, 2]),
         run("h_c20_hostile", [3], "3 acknowledgements with any packet window base", [5], reach=[1, 2]),
         run("h_c20_app", [4, 0, 0], "Server and client, 4 packets each way from before the connection is there, the handshake delayed or not", [5, 0, 0], reach=[1]),
         run("h_c20_app", [2, 1, 0], "2 packets, 1 datagram to the server lost, duplicated or late", [3, 1, 0], reach=[1, 101]),
         run("h_c20_app", [2, 0, 1], "2 packets, 1 datagram to the client", [3, 0, 1], reach=[1, 101]),
     ])

prop("C13",
     "The bytes of every frame emitted are logged with the time; the sum over every interval between two emissions is compared with ceiling x (length + RTT) + one frame, the RTT being the largest estimate within the interval. The ceiling is the smaller of the limits configured; step and flush patterns, idle phases, acknowledgement timings and losses vary.",
     LINK,
     [
         run("h_c13_bulk", [600, 300], "600 rounds, up to 300 emissions, 3 kB/s to 2 MB/s, steps of 0.25 to 60 ms, 1 to 3 flushes per step", [1500, 800], reach=[1]),
         run("h_c13_idle", [2, 20], "2 phases of sending and idling of several lengths", [3, 40], reach=[1]),
         run("h_c13_acks", [300, 300], "acknowledgements in bursts and late", [600, 500], reach=[1]),
         run("h_c13_faults", [40, 1, 1, 150], "1 frame lost each way, at any point", [60, 2, 1, 150], reach=[1, 101]),
        run("h_c13_trickle", [200, 200, 40], "200 rounds in which the application submits 1 or 4 times what the ceiling admits, a little at a time; 3 ceilings, 3 latencies", [1500, 800, 60], reach=[1]),
        run("h_c13_times", [2, 63, 2, 12], "2 steps, each any number of milliseconds up to 63 after the one before, 2 flushes each", [2, 127, 1, 12], reach=[1]),
        run("h_c13_times", [4, 15, 1, 6], "4 steps, up to 15 ms apart", [3, 31, 1, 8]),
     ])

prop("C08",
     "A Server and Clients exchange datagrams over a simulated network; application calls (send, disconnect, disconnect_now, drop, flush, steps of one side), the fate of datagrams, re-deliveries of earlier datagrams and the time between rounds vary. A monitor per side and address follows the events.",
     "more clients, calls and faults than stated; other timings than the listed step intervals",
     [
         run("h_c08_script", [3, 2, 0, 0], "established; 2 of 11 calls within 3 rounds of 50 or 2500 ms, then 30 s", [5, 3, 0, 0], reach=[1, 2, 3, 4, 5]),
         run("h_c08_script", [3, 1, 1, 1], "1 call, 1 fault each way", [4, 2, 1, 1], reach=[1, 2, 3, 4, 5]),
         run("h_c08_handshake", [3, 2, 0, 0], "2 calls within 3 rounds of 50, 1000 or 8000 ms from the connection request on", [4, 2, 1, 1], reach=[1, 2, 3, 4, 5]),
         run("h_c08_handshake", [4, 1, 1, 0], "1 call, 1 datagram to the server lost, duplicated or late", [5, 1, 2, 0], reach=[1, 2, 3, 4, 5]),
         run("h_c08_handshake", [4, 1, 0, 1], "1 call, 1 datagram to the client lost, duplicated or late", [5, 1, 0, 2], reach=[1, 2, 3, 4, 5]),
         run("h_c08_crossing", [2, 1], "both disconnect within 2 rounds, 1 fault each way, one side stepping less often", [5, 1], reach=[1, 2, 3, 4]),
         run("h_c08_reconnect", [1], "6 ways to end, 4 waiting times, then a client at the same address; 1 old datagram of 8 kinds reappears", [2], reach=[1, 2, 3, 4, 5, 6]),
         run("h_c08_many", [2, 3, 2], "2 clients, 2 calls in 3 rounds", [3, 4, 2], reach=[1, 2, 3, 4]),
     ])

prop("C07",
     "Server and Clients with symbolic nonces (12 bits of each symbolic, or all 32) over a network that loses, duplicates and delays datagrams or carries forged handshake frames with arbitrary fields. Monitors: a Connect at the server needs an ACK with the nonce of its SYN-ACK, a Connect at the client a SYN-ACK with its own nonce, the server's nonce is a fresh random number; exactly one Connect per side, and an exchange in both directions works afterwards; refusals carry the matching error; the limits exchanged are in force.",
     "forged requests that arrive before the real one (they occupy the address until they time out); nonces guessed by the attacker; more frames, faults and clients than stated",
     [
         run("h_c07_faults", [2, 0], "2 datagrams to the server lost, duplicated or late; 6 cadences", [3, 1], reach=[1, 101, 102, 103]),
         run("h_c07_faults", [1, 1], "1 each way", [2, 2], reach=[1, 101, 102, 103]),
         run("h_c07_faults", [0, 2], "2 to the client", [1, 3], reach=[1, 101, 102, 103]),
         run("h_c07_forged", [2, 4], "2 forged or replayed frames of 6 kinds in 5 rounds, fields symbolic", [3, 5], reach=[1, 10, 11, 12, 13, 14, 15]),
         run("h_c07_waiting", [1, 8], "1 forged or replayed frame of 6 kinds within 9 s in which the requests, the replies or the acknowledgement are lost and repeated", [2, 6], reach=[1, 20, 21, 22]),
        run("h_c07_raw", [3], "any 3 frames of 5 kinds from an address without a client, fields and nonces symbolic", [4], reach=[2, 3, 4]),
         run("h_c07_configs", [0], "2304 pairs of size limits", reach=[1, 2]),
         run("h_c07_many", [3, 1, 1], "3 clients, one request overtaking, 1 fault each way", [4, 2, 1], reach=[1]),
         run("h_c07_stale", [2], "2 frames of an earlier handshake reappear in a later one of the same address", [3], reach=[1, 2, 3]),
         run("h_c07_limits", [0], "64 combinations of limits, 80 packets each way, then blackout", reach=[1]),
     ])

prop("C17",
     "Servers with limits of 1 to 3 and clients that come and go in overlapping ways, or bare requests and acknowledgements in any order. After every step the connections reported and the clients known are counted; every request is answered, refused only when there is no room, with ServerFull, and accepted when there is; room returns when connections end.",
     "limits above 3, more addresses and events than stated; handshakes in progress count as occupying an active slot",
     [
         run("h_c17_clients", [3, 2, 1, 0], "3 clients within 2 rounds of 100 or 2500 ms, 1 of 5 ways to end, limits 1 to 3; then all end and the server is filled again", [3, 3, 1, 0], reach=[1, 2, 3]),
         run("h_c17_clients", [2, 1, 1, 1], "2 clients, 1 datagram to the server lost, duplicated or late", [2, 3, 1, 1], reach=[1, 2, 3]),
         run("h_c17_requests", [2, 2], "4 requests, acknowledgements, disconnects or drops of 2 addresses, 2 per step", [3, 2], reach=[1, 2, 3]),
         run("h_c17_recover", [0], "5 ways to end a connection, then one more client", reach=[2, 3]),
     ])

prop("C18",
     "Datagrams of any kind with symbolic fields arrive from an address that never completes the handshake; bytes in each direction are counted after every step, over all waiting times up to the handshake timeout.",
     "more datagrams than stated; acknowledgements that guess the server's nonce",
     [
         run("h_c18_mix", [2], "2 datagrams of 11 kinds, fields symbolic, then 32 s", [3], reach=[1] + list(range(10, 21))),
         run("h_c18_undersized", [0, 1463, 11], "requests of every 11th size to 1463 bytes, fields symbolic", [0, 1463, 1], reach=[1]),
         run("h_c18_undersized", [1464, 1471, 1], "requests of 1464 to 1471 bytes", reach=[1]),
         run("h_c18_waiting", [12], "12 steps in 8 cadences, repeated requests, stray frames", [40], reach=[1]),
         run("h_c18_slow", [64], "64 steps in 8 cadences up to 30 s after a single request", [200], reach=[1]),
         run("h_c18_client", [0], "a client whose acknowledgement is lost, 3 cadences, ending at any of 8 rounds", reach=[1]),
     ])

prop("C10",
     "A Server and a Client with active_timeout_ms any 64-bit value each (symbolic), keepalive on or off, network blackouts in either direction from any round on, handshake and disconnect frames lost 0 to 12 times, several step cadences per side. After every step a monitor compares the time since the last frame processed with the timeout, and the number and times of retries with 10 resends 2 s apart. Idle connections with keepalive run for minutes to an hour of virtual time.",
     "other step cadences; times are concrete (the timeouts symbolic); idle connections whose RTO (max(4 RTT, 2 frames / rate), documented lower bound of the keepalive interval) reaches the timeout",
     [
         run("h_c10_silence", [3, 2], "blackout of either direction from round 6 to 9 on, 2 cadences", [8, 5], reach=[1, 13, 14]),
         run("h_c10_handshake", [11, 5, 3], "0 to 11 losses of SYN, SYN-ACK or ACK and 0 to 1 of the others, 5 cadences, timeout of one side symbolic up to 3 s", [12, 5, 30], reach=[1, 10, 11, 13, 14]),
         run("h_c10_closing", [12, 5], "0 to 12 disconnect frames and acknowledgements lost, either side or both closing, 5 cadences", reach=[1, 12]),
         run("h_c10_idle", [600, 0, 0], "10 min idle, default configuration, 4 cadences", [7200, 0, 0], reach=[1]),
         run("h_c10_idle", [60, 0, 1], "1 min idle, 5 intervals, 5 rates, keepalive of either side or both, timeout just above", [1200, 0, 1], reach=[1]),
         run("h_c10_idle", [60, 1, 1], "the same after one packet each way, 3 rates", [60, 2, 1], reach=[1, 2]),
         run("h_c10_trickle", [1], "1 of 5 kinds of traffic, then silence, without keepalive", [2], reach=[1]),
         run("h_c10_short", [0], "timeouts of 0.8 to 2 s, interval 0.5 s", reach=[1]),
     ])

prop("C09",
     "A Server and a Client; one side queues packets of symbolic modes and calls disconnect() or disconnect_now() while data, acknowledgement and disconnect frames are lost, duplicated or delayed at any point, or the network fails completely, one way or both, for 2.5 s to forever from any of several rounds on. A monitor checks that every Reliable packet submitted before disconnect() precedes the peer's Disconnect, that the request of disconnect_now() leaves in the next step and that of disconnect() after everything was acknowledged, that both sides end within 22 s (plus one step per retry) of the first request, and that nothing is delivered after the end.",
     "more packets, faults and cadences than stated; active_timeout_ms other than the default 20 s",
     [
         run("h_c09_flush", [1, 1, 1, 1], "1 packet (0 or 3000 bytes, any mode) and one of the peer, 1 fault each way", [2, 2, 2, 1], reach=[1, 2, 101, 102, 103]),
         run("h_c09_flush", [2, 1, 1, 0], "2 packets, 1 frame to the server lost, duplicated or late", [3, 2, 2, 0], reach=[1, 2, 101]),
         run("h_c09_flush", [1, 4, 0, 1], "1 packet, 1 frame to the client, 4 cadences", [3, 4, 0, 2], reach=[1, 2, 101]),
         run("h_c09_blackout", [5, 1], "blackouts of 5 lengths starting in 5 different rounds, either way or both", [15, 4], reach=[1, 2, 3, 4]),
         run("h_c09_both", [3, 1, 1, 1], "both disconnect within 3 rounds, 1 fault each way", [4, 4, 2, 1], reach=[1, 4, 101]),
         run("h_c09_bulk", [3, 1, 0], "3 packets at 3 combinations of rate and memory limits, 1 fault to the server", [20, 1, 0], reach=[1, 2]),
         run("h_c09_bulk", [2, 0, 1], "2 packets, 1 fault to the client", [12, 0, 1], reach=[1, 2]),
         run("h_c09_after", [1, 0], "1 fault to the server while both go on sending, then every frame once more", [2, 1], reach=[1, 2, 4]),
         run("h_c09_after", [0, 1], "1 fault to the client", [1, 2], reach=[1, 2, 4]),
     ])

prop("C11",
     "Two HalfConnections (small windows, and the default ones) or a Server and a Client go through blackouts of data, of acknowledgements or both, losses of symbolic frames, lasting changes of the round-trip time by a factor of 12 to 45, exhausted receive memory and long idle phases; then the network works. Within a stated virtual time nothing may be left in the send queue, probe packets of each mode must pass, and 11 kB must pass within 100 s (at the minimum rate they would take 500 s); a connection between real endpoints must not end.",
     LINK,
     [
         run("h_c11_windows", [6, 0], "1.5 windows of packets of one mode lost in blackouts of 0.2 to 40 s, windows of 4 and 8", [12, 1], reach=[1, 20, 21, 22]),
         run("h_c11_faults", [3, 1, 0], "3 packets, 1 frame of the sender lost, duplicated or late at any point", [4, 2, 1], reach=[1, 20, 21, 22, 101]),
         run("h_c11_faults", [3, 0, 1], "3 packets, 1 frame of the receiver", [4, 1, 2], reach=[1, 20, 21, 22, 101]),
         run("h_c11_latency", [6], "RTT changes between 20 ms and 9 s, frames in flight lost or not", [20], reach=[1, 20, 21, 22]),
         run("h_c11_default", [5000], "5000 packets into default windows (4096), blackout either way", [9000], reach=[1, 20, 21, 22]),
         run("h_c11_alloc", [6, 1], "6 packets of 2 fragments against 3 or 6 kB of receive memory, 1 frame lost", [8, 3], reach=[1, 20, 21, 22, 101]),
         run("h_c11_idle", [1, 0], "1 frame lost early, 1 s to 5 min idle, then 17 kB within 30 s", [2, 1], reach=[1, 101]),
        run("h_c11_stale", [60], "60 rounds of TimeSensitive packets beyond what the rate admits (dropped whole or begun), with others among them and with losses", [200], reach=[1, 20, 21, 22]),
         run("h_c11_app", [0], "Server and Client, blackouts of 1 to 8 s, then 60 s without an end", [1], reach=[1]),
     ])

prop("C14",
     "The send rate computation is driven with feedback reports (RTT samples, receive rates, loss rates, rate-limited flag), silences and transmissions; after every step the rate, the RTT estimate and the initial loss rate are compared with an independent evaluation of the formulas of RFC 5348: floor, ceiling, throughput equation, doubling, initial window, no rise without feedback, at most halved by an expiry. The ceiling, the receive rates and flags are symbolic, also in floating point; elsewhere the times are. The loss event rate and the RTT samples are compared with a reference on a frame queue and on two connected HalfConnections.",
     "RTT samples and loss rates other than the 6 and 7 picked ones (0 and the extremes included); histories longer than stated; times and rates symbolic in the same history (floating-point queries with both do not finish); the frame log's forgetting is C15's",
     [
         run("h_c14_first", [3], "3 steps before anything was sent, ceiling, receive rate and times symbolic", [5]),
         run("h_c14_steps", [1, 255, 63, 127, 1, 0, 0], "1 event, 8 gaps, 6 RTTs, 7 loss rates; ceiling, receive rate, flag symbolic", reach=[1, 2, 3]),
         run("h_c14_steps", [2, 255, 63, 1, 1, 0, 0], "2 events without loss, 8 gaps, 6 RTTs; ceiling and receive rates symbolic", reach=[1, 2]),
         run("h_c14_steps", [2, 36, 5, 41, 0, 1, 1], "2 events, 2 gaps, 2 RTTs, 3 loss rates, 3 ceilings; the last receive rate symbolic", [2, 36, 63, 127, 0, 1, 1], reach=[1, 2, 3, 4], query_timeout=300000),
         run("h_c14_steps", [2, 0, 63, 127, 0, 1, 9], "2 events at any times up to 2^32 ms apart, 6 RTTs, 7 loss rates, 3 ceilings, 4 receive rates", reach=[1, 2, 3, 4]),
         run("h_c14_steps", [3, 0, 6, 41, 0, 1, 9], "3 events at any times, 2 RTTs, 3 loss rates, 3 ceilings, 4 receive rates", [3, 0, 14, 41, 0, 1, 9], reach=[1, 2, 3, 4]),
         run("h_c14_steps", [4, 36, 4, 9, 0, 1, 9], "4 events, 2 gaps, 1 RTT, 2 loss rates, 3 ceilings, 4 receive rates", [4, 52, 4, 41, 0, 1, 9], reach=[1, 2, 3, 4]),
         run("h_c14_silence", [2, 41], "2 reports, then 1200 s without", [3, 41], reach=[7]),
         run("h_c14_loss", [4, 63, 3], "4 loss events or parts of one, after 0 to 40 frames each", [5, 63, 3], reach=[5]),
         run("h_c14_loss", [10, 6, 2], "10 loss events, 1 or 2 frames apart: all weights", [12, 6, 2], reach=[5]),
         run("h_c14_reorder", [6, 45], "6 frames acknowledged in time, 2, 3 or many places late or never, ids wrapping anywhere", [7, 45], reach=[8, 9, 10]),
         run("h_c14_reorder", [7, 41], "7 frames acknowledged in time, 3 places late or never", [9, 41], reach=[8, 9, 10]),
         run("h_c14_rtt", [12, 100, 2, 1, 0], "4 packets in 12 rounds of 100 ms, 2 faults there, 1 back", [14, 100, 3, 1, 0], reach=[6]),
         run("h_c14_rtt", [9, 20, 1, 0, 1], "9 rounds of 20 ms, latencies of 1 or 5 rounds, 1 fault", [11, 20, 1, 0, 1], reach=[6]),
     ])

prop("C03",
     "Endpoints receive frames whose fields are symbolic (ids, window bases, leads, fragment ids and counts, acknowledgement bitfields and nonces, handshake limits) or arbitrary bytes, between sends, steps and flushes; valid configurations at the ends of their ranges; hours or nothing between steps; API calls in any order. The executor reports every panic, failed assertion, arithmetic overflow and access outside an object, and every call must end within 10 million instructions (a round of both ends within 40 million; the largest seen is a twentieth). A second client of the server must not notice.",
     "several hostile frames whose fields are all symbolic at once (menus of ids and fragments beyond the first); frames with more than one datagram; more frames and calls than stated; windows of 4096 are covered by the traffic checks of C06 and C11 only",
     [
         run("h_c03_bytes", [5, 13], "any 5 to 13 bytes of 10 frame types, checksum valid, to a server (from a stranger or a client) or a client, at 3 stages of the connection", [0, 17], reach=[1, 2]),
         run("h_c03_data", [1, 23, 0], "1 data frame: frame id, packet id, leads, fragments symbolic, 3 payload sizes", reach=[1]),
         run("h_c03_data", [1, 8, 1], "1 data frame: channel symbolic", reach=[1]),
         run("h_c03_data", [2, 2, 1], "2 data frames: ids within the window, leads symbolic, 4 kinds of fragments, receive() in between", [2, 7, 0], reach=[1]),
         run("h_c03_acks", [1, 1500, 2, 6, 0], "a packet of 2 fragments at 2 rates, then 1 acknowledgement, all fields symbolic (transfer window base: 6 values)", [2, 1500, 4, 2, 0], reach=[1]),
         run("h_c03_acks", [2, 3, 1, 2, 1], "2 acknowledgements between packets", [3, 3, 1, 2, 1], reach=[1]),
         run("h_c03_syncs", [1, 0], "1 sync frame with any ids between packets of 1 to 3 fragments", [2, 0], reach=[1]),
         run("h_c03_mixed", [1, 3], "1 frame of 3 kinds to an endpoint that sends and receives, steps 0 to 5000 ms apart", [2, 2], reach=[1]),
         run("h_c03_rates", [3], "3 rounds 0 ms to 3 hours apart, frames and acknowledgements lost or not, 4 rate limits", [5], reach=[1]),
         run("h_c03_config", [16], "15 extreme configurations on either side, 3 cadences", reach=[1, 2]),
         run("h_c03_limits", [12], "96 combinations of hostile limits in SYN or SYN-ACK", reach=[1, 2]),
         run("h_c03_api", [3], "3 of 12 calls at 3 stages of the connection", [4], reach=[1]),
         run("h_c03_clients", [1], "1 frame of 7 kinds from a hostile client, then an exchange with another client", [2], reach=[1]),
     ])

prop("C04",
     "Packets of sizes around the multiples of 1448, and combinations of sizes around what a frame holds, are sent over a faulty link at several rates; every emitted fragment is compared with its part of the packet, every frame's size with 1472, every delivery with the submission. In the other direction, fragments are handed to a receiver in any order and repetition, interleaved with those of other packets and with fragments whose header is an arbitrary different one.",
     LINK + "; contents other than a few symbolic bytes per fragment; fragments with equal header but other contents than the first (no sender emits them)",
     [
         run("h_c04_sizes", [0, 1, 2], "0 to 2 bytes, between packets of 1 or 1449 bytes, 2 rates, 2 step intervals, 1 fault", [0, 2, 4], reach=[1]),
         run("h_c04_sizes", [1, 1, 2], "1446 to 1450 bytes", [1, 2, 40], reach=[1]),
         run("h_c04_sizes", [3, 1, 1], "4343 to 4345 bytes", [3, 2, 3], reach=[1]),
         run("h_c04_pack", [36], "2 or 3 packets of together 1436 to 1508 bytes", [120], reach=[1]),
         run("h_c04_order", [2, 4], "fragments of 2 packets of 2 fragments and 1 of 1: any 4, receive() at any point", [2, 5], reach=[1, 2, 3]),
         run("h_c04_order", [3, 3], "2 packets of 3 fragments: any 3", [3, 4], reach=[1, 2, 3]),
         run("h_c04_foreign", [3, 1, 31], "3 fragments and 1 with any other header and 3 payload sizes at any point", [4, 2, 31], reach=[1, 2]),
         run("h_c04_large", [1000], "1 MB, 1 round lost", [4000], reach=[1]),
     ])

prop("C06",
     "The executor's heap tells what a receiver holds: after every hostile frame (menus of ids and fragment claims, symbolic leads), sync frame or receive() it is compared with the limit. Floods of hundreds of frames check that nothing piles up. A ledger of the frames emitted and the acknowledgements given to the sender bounds what is outstanding, for several peer limits and symbolic modes and acknowledgements; between uflow endpoints nothing may be discarded.",
     LINK + "; heap allocated in advance by new() is not counted; menus of ids and fragment claims instead of all values",
     [
         run("h_c06_hostile", [3, 1, 4, 3], "3 events: frames (4 kinds, 3 packet ids, symbolic leads), 2 sync frames or receive(); limit of 1 fragment", [3, 1, 7, 4], reach=[1]),
         run("h_c06_hostile", [3, 2, 4, 3], "limit of 3000 bytes", [4, 2, 4, 3], reach=[1, 2]),
         run("h_c06_hostile", [2, 3, 7, 6], "2 events, 7 kinds, 6 packet ids, limit of 100 MB", [3, 3, 7, 6], reach=[1, 2]),
         run("h_c06_flood", [400], "400 frames of one of 9 kinds, 3 cadences of receive(), 2 limits", [3000], reach=[1]),
         run("h_c06_sender", [3], "3 rounds of 2 packets, 4 limits, 2 rates, acknowledgement of any packet at any time", [5], reach=[1]),
         run("h_c06_window", [120, 4096], "6000 packets without acknowledgement", reach=[1]),
         run("h_c06_window", [120, 64], "96 packets against windows of 64, some acknowledged", reach=[1]),
         run("h_c06_traffic", [2, 1], "4 packets of up to the whole receive buffer, 3 buffers, 1 fault", [3, 2], reach=[1, 2]),
         run("h_c06_app", [30], "Server and Client with 9 combinations of limits", [200], reach=[1]),
     ])

prop("C15",
     "Two equal pairs of endpoints run side by side with the same (symbolic) nonces and losses; one sender is given acknowledgements which are not genuine (any base, bitfield, nonce such that a frame is unknown, the parity is wrong or nothing is acknowledged anew), or copies of earlier ones. From then on every frame emitted, the RTT estimate and the send buffer must coincide.",
     LINK + "; bitfields of 8 bits (and bit 31), bases near the frames sent; window bases are those last reported by the receiver",
     [
         run("h_c15_forged", [1, 2, 6], "1 arbitrary group after 2 or 6 frames, 1 lost, before, after or inside genuine acknowledgements; 2 step intervals", [2, 2, 6], reach=[1, 2, 3]),
         run("h_c15_replay", [12, 1, 6], "bulk traffic with losses, 2 rates, 2 sizes, 1 of the earlier acknowledgements repeated in any of 12 rounds", [14, 2, 8], reach=[1]),
         run("h_c15_late", [6, 2, 8], "2 acknowledgements repeated 0 to 10 s later, or with the original", [10, 3, 12], reach=[1, 2]),
     ])

prop("C19",
     "Every allocation and deallocation of the library goes through the executor, which compares sizes and alignments, reports double frees and accesses to freed memory, and counts. Connections are dropped after any number of rounds of faulty traffic, with packets partly assembled, delivered, skipped or waiting, after hostile frames, and whole servers and clients in any state; the number of blocks and bytes must return to what it was. A server whose clients come and go must not grow.",
     LINK,
     [
         run("h_c19_traffic", [2, 1, 0, 8], "4 packets of 1 to 4 fragments in 4 modes, 1 fault, dropped after 0 to 7 rounds", [3, 1, 1, 12], reach=[1, 2, 3]),
         run("h_c19_sizes", [1400, 3000, 100], "17 sizes from 1400 to 3000, delivered or dropped half way", [1, 4400, 7], reach=[1, 2]),
         run("h_c19_sizes", [2890, 2900, 1], "2890 to 2900 bytes", reach=[1, 2]),
         run("h_c19_hostile", [2], "2 frames of 6 kinds for 3 packet ids, symbolic leads, receive() or sync in between", [3], reach=[1]),
         run("h_c19_app", [2, 8, 0], "2 of 9 calls at 4 stages of the connection", [3, 8, 1], reach=[1, 2]),
         run("h_c19_cycles", [6], "6 connections in a row, 6 ways to end", [20], reach=[1, 2]),
         run("h_c19_sides", [0], "a server with 2 clients, either of which goes first", reach=[1, 3]),
     ])
