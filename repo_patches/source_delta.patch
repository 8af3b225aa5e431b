From a9a8d21e3554c2eeaef864c0520e55d75555e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 01/23] verif: hooks for out-of-tree verification, guarded by
 cfg(uflow_verif)

---
 src/client/mod.rs           |   8 ++
 src/frame/serial/mod.rs     |   2 +
 src/half_connection/emit.rs |   3 +
 src/half_connection/mod.rs  |  20 +++++
 src/lib.rs                  |   5 ++
 src/server/mod.rs           |   8 ++
 src/server/remote_client.rs |   3 +
 src/udp_frame_sink.rs       |   3 +
 src/verif.rs                | 166 ++++++++++++++++++++++++++++++++++++
 9 files changed, 218 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 2b6acb0..5f5f8be 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1,5 +1,13 @@
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
+#[cfg(uflow_verif)]
+use crate::verif::rand;
 
 use crate::CHANNEL_COUNT;
 use crate::EndpointConfig;
diff --git a/src/frame/serial/mod.rs b/src/frame/serial/mod.rs
index 255772e..39bb64e 100644
--- a/src/frame/serial/mod.rs
+++ b/src/frame/serial/mod.rs
@@ -7,6 +7,8 @@ mod crc;
 
 pub use build::DataFrameBuilder;
 pub use build::AckFrameBuilder;
+#[cfg(uflow_verif)]
+pub use crc::{compute as crc_compute, extend as crc_extend};
 
 const FRAME_HEADER_SIZE: usize = 1;
 const FRAME_CRC_SIZE: usize = 4;
diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index b01620a..7ec61ee 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -9,6 +9,9 @@ use crate::packet_id;
 use super::pending_packet;
 use super::frame_queue;
 
+#[cfg(uflow_verif)]
+use crate::verif::rand;
+
 #[derive(Debug,PartialEq)]
 pub enum DataPushError {
     SizeLimited,
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index bb0a90a..3d52306 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -2,7 +2,10 @@
 use crate::SendMode;
 use crate::frame;
 
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
 
 mod emit;
 mod frame_ack_queue;
@@ -20,6 +23,23 @@ mod send_rate;
 #[cfg(test)]
 mod packet_tests;
 
+#[cfg(uflow_verif)]
+pub use frame_ack_queue::FrameAckQueue;
+#[cfg(uflow_verif)]
+pub use frame_queue::FrameQueue;
+#[cfg(uflow_verif)]
+pub use loss_rate::LossIntervalQueue;
+#[cfg(uflow_verif)]
+pub use packet_receiver::PacketReceiver;
+#[cfg(uflow_verif)]
+pub use packet_sender::PacketSender;
+#[cfg(uflow_verif)]
+pub use recv_rate_set::RecvRateSet;
+#[cfg(uflow_verif)]
+pub use reorder_buffer::ReorderBuffer;
+#[cfg(uflow_verif)]
+pub use send_rate::{FeedbackData, SendRateComp};
+
 const INITIAL_RTT_ESTIMATE_MS: u64 = 150;
 const INITIAL_RTO_ESTIMATE_MS: u64 = 4*INITIAL_RTT_ESTIMATE_MS;
 const MIN_SYNC_TIMEOUT_MS: u64 = 2000;
diff --git a/src/lib.rs b/src/lib.rs
index eea23e7..6ba95e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -260,11 +260,16 @@
 //! Servers may also call [`Server::drop()`](server::Server::drop), which sends no further packets
 //! and forgets the connection immediately. This will generate a timeout error on the client.
 
+#![allow(unexpected_cfgs)]
+
 mod half_connection;
 mod frame;
 mod packet_id;
 mod udp_frame_sink;
 
+#[cfg(uflow_verif)]
+pub mod verif;
+
 /// Server-related connection objects and parameters.
 pub mod server;
 
diff --git a/src/server/mod.rs b/src/server/mod.rs
index f78eb2b..ff6bc02 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -1,8 +1,16 @@
 use std::cell::RefCell;
 use std::collections::HashMap;
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
 use std::rc::Rc;
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
+#[cfg(uflow_verif)]
+use crate::verif::rand;
 
 use crate::EndpointConfig;
 use crate::frame::serial::Serialize;
diff --git a/src/server/remote_client.rs b/src/server/remote_client.rs
index 301611b..668d6eb 100644
--- a/src/server/remote_client.rs
+++ b/src/server/remote_client.rs
@@ -1,4 +1,7 @@
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
 
 use crate::half_connection::HalfConnection;
 use crate::SendMode;
diff --git a/src/udp_frame_sink.rs b/src/udp_frame_sink.rs
index e9a26d5..99e80ea 100644
--- a/src/udp_frame_sink.rs
+++ b/src/udp_frame_sink.rs
@@ -1,7 +1,10 @@
 
 use crate::half_connection;
 
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
 
 // TODO: A Result<usize, std::io::Error> stored here could be used to forward errors to
 // client/server step/flush after the FrameSink has been used.
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..2e5b89b
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,166 @@
+//! Verification support. Compiled only with `--cfg uflow_verif`; never part of a normal build.
+//!
+//! Re-exports the crate's internals to out-of-tree verification harnesses, and provides stand-ins
+//! for the three things the crate takes from its environment: the clock, the random number
+//! generator and the UDP socket. The harness supplies their behavior through the `extern "Rust"`
+//! functions declared below.
+
+#![allow(missing_docs)]
+
+pub use crate::half_connection::*;
+
+pub mod frame {
+    pub use crate::frame::*;
+}
+
+pub mod packet_id {
+    pub use crate::packet_id::*;
+}
+
+extern "Rust" {
+    /// Current virtual time: whole milliseconds, and additional nanoseconds (< 1_000_000).
+    fn uflow_verif_now() -> (u64, u32);
+    /// 32 random bits.
+    fn uflow_verif_random() -> u32;
+    /// Opens a socket bound to the given address (port 0: any) and returns its handle and address.
+    fn uflow_verif_bind(addr: std::net::SocketAddr) -> (usize, std::net::SocketAddr);
+    /// A datagram leaves through the given socket.
+    fn uflow_verif_send(socket: usize, to: std::net::SocketAddr, data: &[u8]);
+    /// Receives a datagram, or returns `None` if there is nothing to receive.
+    fn uflow_verif_recv(socket: usize, buf: &mut [u8]) -> Option<(usize, std::net::SocketAddr)>;
+}
+
+pub mod time {
+    #[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord)]
+    pub struct Instant { ms: u64, ns: u32 }
+
+    #[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord)]
+    pub struct Duration { ms: u64, ns: u32 }
+
+    impl Instant {
+        pub fn now() -> Self {
+            let (ms, ns) = unsafe { super::uflow_verif_now() };
+            Self { ms, ns }
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Self::now() - *self
+        }
+
+        pub fn duration_since(&self, earlier: Instant) -> Duration {
+            *self - earlier
+        }
+    }
+
+    impl std::ops::Sub<Instant> for Instant {
+        type Output = Duration;
+
+        // Like std::time::Instant, saturates at zero
+        fn sub(self, other: Instant) -> Duration {
+            if self < other {
+                Duration { ms: 0, ns: 0 }
+            } else if self.ns >= other.ns {
+                Duration { ms: self.ms - other.ms, ns: self.ns - other.ns }
+            } else {
+                Duration { ms: self.ms - other.ms - 1, ns: self.ns + 1_000_000 - other.ns }
+            }
+        }
+    }
+
+    impl Duration {
+        pub fn as_millis(&self) -> u128 {
+            self.ms as u128
+        }
+
+        pub fn as_secs(&self) -> u64 {
+            self.ms / 1000
+        }
+
+        pub fn as_secs_f64(&self) -> f64 {
+            if self.ns == 0 {
+                self.ms as f64 / 1000.0
+            } else {
+                self.ms as f64 / 1000.0 + self.ns as f64 / 1_000_000_000.0
+            }
+        }
+    }
+}
+
+pub mod rand {
+    pub trait Random {
+        fn random() -> Self;
+    }
+
+    impl Random for u32 {
+        fn random() -> Self {
+            unsafe { super::uflow_verif_random() }
+        }
+    }
+
+    impl Random for bool {
+        fn random() -> Self {
+            unsafe { super::uflow_verif_random() & 1 != 0 }
+        }
+    }
+
+    pub fn random<T: Random>() -> T {
+        T::random()
+    }
+}
+
+pub mod net {
+    pub use std::net::*;
+
+    use std::io;
+
+    pub struct UdpSocket {
+        handle: usize,
+        local_addr: SocketAddr,
+        peer_addr: std::cell::Cell<Option<SocketAddr>>,
+    }
+
+    impl UdpSocket {
+        pub fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
+            let addr = addr.to_socket_addrs()?.next().unwrap();
+            let (handle, local_addr) = unsafe { super::uflow_verif_bind(addr) };
+            Ok(Self { handle, local_addr, peer_addr: std::cell::Cell::new(None) })
+        }
+
+        pub fn set_nonblocking(&self, _nonblocking: bool) -> io::Result<()> {
+            Ok(())
+        }
+
+        pub fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
+            self.peer_addr.set(addr.to_socket_addrs()?.next());
+            Ok(())
+        }
+
+        pub fn local_addr(&self) -> io::Result<SocketAddr> {
+            Ok(self.local_addr)
+        }
+
+        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
+            Ok(self.peer_addr.get().unwrap())
+        }
+
+        pub fn send_to<A: ToSocketAddrs>(&self, data: &[u8], addr: A) -> io::Result<usize> {
+            let addr = addr.to_socket_addrs()?.next().unwrap();
+            unsafe { super::uflow_verif_send(self.handle, addr, data) };
+            Ok(data.len())
+        }
+
+        pub fn send(&self, data: &[u8]) -> io::Result<usize> {
+            unsafe { super::uflow_verif_send(self.handle, self.peer_addr.get().unwrap(), data) };
+            Ok(data.len())
+        }
+
+        pub fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+            unsafe { super::uflow_verif_recv(self.handle, buf) }
+                .ok_or(io::Error::from(io::ErrorKind::WouldBlock))
+        }
+
+        pub fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
+            self.recv_from(buf).map(|(size, _)| size)
+        }
+    }
+}
-- 
2.43.0


From f72a19032e3598894dffa6c108c40d4bf42c3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 02/23] fix: send rate computation must not panic, overflow or
 loop forever

- The bisection inverting the throughput equation never ended if the target
  rate was below the throughput at p = 1 (RTT of zero or a few ms).
- A second no-feedback expiry before the first feedback hit a debug assertion.
- A rate limited feedback with an RTT of zero emptied X_recv_set.
- Doubling a large rate and adding an infinite RTO overflowed.
---
 src/half_connection/recv_rate_set.rs |  5 +++--
 src/half_connection/send_rate.rs     | 24 ++++++++++++++++--------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/half_connection/recv_rate_set.rs b/src/half_connection/recv_rate_set.rs
index 51fb05b..99fe0ee 100644
--- a/src/half_connection/recv_rate_set.rs
+++ b/src/half_connection/recv_rate_set.rs
@@ -53,14 +53,15 @@ impl RecvRateSet {
     }
 
     pub fn rate_limited_update(&mut self, now_ms: u64, recv_rate: u32, rtt_ms: u64) -> u32 {
+        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
+
+        // The current rate is always part of the set, even if RTT is zero
         self.entries.push(RecvEntry {
             value: recv_rate,
             timestamp_ms: now_ms,
             is_initial: false
         });
 
-        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
-
         return self.max();
     }
 
diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1c6e58e..8ce7842 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -36,6 +36,12 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
     loop {
         let c = (b + a)/2.0;
 
+        if c <= a || c >= b {
+            // The interval cannot be bisected any further. The target rate is either lower than the
+            // throughput at p = 1, or not reached to within delta by any representable p.
+            return c;
+        }
+
         let rate = eval_tcp_throughput(rtt, c);
 
         if rate > target_rate_bps {
@@ -252,7 +258,7 @@ impl SendRateComp {
                         // Continue slow start doubling, see section 4.3, step 5
                         if now_ms - time_last_doubled_ms >= rtt_ms {
                             state.time_last_doubled_ms = Some(now_ms);
-                            self.send_rate = (2*self.send_rate).min(recv_limit).max(initial_rate);
+                            self.send_rate = self.send_rate.saturating_mul(2).min(recv_limit).max(initial_rate);
                             //println!("SS: doubling: new send rate: {} (limit {}, rl: {}, li: {})",
                             //    self.send_rate, recv_limit, rate_limited, loss_increase);
                         }
@@ -279,7 +285,7 @@ impl SendRateComp {
         self.send_rate = self.send_rate.min(self.max_send_rate);
 
         // Restart nofeedback timer
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
@@ -322,7 +328,7 @@ impl SendRateComp {
                     // Recomputing this term on the fly allows for some adaptation as RTT fluctuates
                     let recover_rate = compute_initial_send_rate(rtt_s);
 
-                    if self.nofeedback_idle && self.send_rate < 2*recover_rate {
+                    if self.nofeedback_idle && self.send_rate < recover_rate.saturating_mul(2) {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
@@ -330,10 +336,12 @@ impl SendRateComp {
                     }
                 } else {
                     // In slow start, but no feedback has been received.
-                    debug_assert!(self.nofeedback_idle == false);
-
-                    // Halve send rate every RTO, subject to minimum
-                    self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
+                    if self.nofeedback_idle {
+                        // Nothing was sent which could have been answered, do nothing
+                    } else {
+                        // Halve send rate every RTO, subject to minimum
+                        self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
+                    }
                 }
             }
             SendRateMode::ThroughputEqn(ref mut state) => {
@@ -360,7 +368,7 @@ impl SendRateComp {
         // This may or may not be the intended behavior.
         let rto_s = self.update_rto(self.rtt_s.unwrap_or(0.0), self.send_rate);
 
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
-- 
2.43.0


From 1171327a746ef9864adb055f77bdaa299decaa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 03/23] fix: reassembled packets must be freed with the layout
 they were allocated with

---
 .../packet_receiver/assembly_window/fragment_buffer.rs    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
index 9fb08af..4b6a79c 100644
--- a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
+++ b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
@@ -44,11 +44,11 @@ impl FragmentBuffer {
         }
     }
 
-    pub fn finalize(mut self) -> Box<[u8]> {
+    pub fn finalize(self) -> Box<[u8]> {
         debug_assert!(self.total_size <= self.buffer.len());
-        let ptr = self.buffer.as_mut_ptr();
-        std::mem::forget(self.buffer);
-        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(ptr, self.total_size)) }
+        let mut data = self.buffer.into_vec();
+        data.truncate(self.total_size);
+        data.into_boxed_slice()
     }
 
     pub fn is_finished(&self) -> bool {
-- 
2.43.0


From edcfee7d8c4969ddd201eff4023f32a61f739903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 04/23] fix: packet ids outside the id space in sync and ack
 frames must be ignored

---
 src/half_connection/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 3d52306..163aa3e 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -1,6 +1,7 @@
 
 use crate::SendMode;
 use crate::frame;
+use crate::packet_id;
 
 #[cfg(not(uflow_verif))]
 use std::time;
@@ -165,7 +166,9 @@ impl HalfConnection {
         }
 
         if let Some(next_packet_id) = frame.next_packet_id {
-            self.packet_receiver.resynchronize(next_packet_id);
+            if packet_id::is_valid(next_packet_id) {
+                self.packet_receiver.resynchronize(next_packet_id);
+            }
         }
 
         self.sync_reply = true;
@@ -179,7 +182,9 @@ impl HalfConnection {
         }
 
         self.frame_queue.advance_transfer_window(frame.frame_window_base_id, rtt_ms);
-        self.packet_sender.acknowledge(frame.packet_window_base_id);
+        if packet_id::is_valid(frame.packet_window_base_id) {
+            self.packet_sender.acknowledge(frame.packet_window_base_id);
+        }
     }
 
     pub fn step(&mut self) {
-- 
2.43.0


From dde9846cc6dabb64000943879a9cbe2baeb73109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 05/23] fix: packets dropped for exceeding the memory limit
 must not panic the receiver

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 367efaf..a026962 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -334,7 +334,10 @@ impl PacketReceiver {
                     let channel_delta = packet_id::sub(sequence_id, channel_base_id);
 
                     if channel_parent_lead == 0 || channel_parent_lead > channel_delta {
-                        sink.send(self.data_entries[window_idx].data.take().unwrap());
+                        // A packet which exceeded the memory limit has no data to deliver
+                        if let Some(data) = self.data_entries[window_idx].data.take() {
+                            sink.send(data);
+                        }
 
                         self.data_flags[flags_index] &= !flag_bit;
 
-- 
2.43.0


From 26f37d595a846e323f25a6cab57106692f194877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 06/23] fix: receive window must not advance past packets
 awaiting delivery

---
 src/half_connection/packet_receiver/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index a026962..ac1fbdc 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -385,11 +385,17 @@ impl PacketReceiver {
                     let window_parent_lead = window_entry.window_parent_lead as u32;
                     let window_delta = packet_id::sub(sequence_id, new_base_id);
 
+                    if self.data_flags[flags_index] & flag_bit != 0 {
+                        // This packet awaits delivery. Stop advancement here for now. (Only the
+                        // parent leads of a misbehaving sender can cause this.)
+                        self.window_ready_flag = true;
+                        break;
+                    }
+
                     if window_parent_lead == 0 || window_parent_lead > window_delta {
                         // println!("Forget sequence ID {}", sequence_id);
                         new_base_id = next_id;
                         // Window advancement implies that this packet has been delivered
-                        debug_assert!(self.data_flags[flags_index] & flag_bit == 0);
                         debug_assert!(self.data_entries[window_idx].data.is_none());
                     } else {
                         // Cease to consider advancing the window
-- 
2.43.0


From f239134a2b34e2f006118dda47f3e5ca0a9d371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 07/23] fix: skipped fragments must be removed from the pending
 queue, not the resend queue

---
 src/half_connection/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 163aa3e..4c800a4 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -428,7 +428,7 @@ impl HalfConnection {
                     let packet_ref = packet_rc.borrow();
 
                     if packet_ref.fragment_acknowledged(entry.fragment_ref.fragment_id) {
-                        self.resend_queue.pop();
+                        self.pending_queue.pop_front();
                         continue;
                     }
 
@@ -445,7 +445,7 @@ impl HalfConnection {
                         self.resend_queue.push(resend_queue::Entry::new(entry.fragment_ref, now_ms + rtt_ms, 1));
                     }
                 } else {
-                    self.resend_queue.pop();
+                    self.pending_queue.pop_front();
                     continue;
                 }
             }
-- 
2.43.0


From aba335ff0ca217b1320b8c252c8d4f5c815bfe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 08/23] fix: repeated acknowledgements must not produce
 feedback

---
 src/half_connection/frame_queue.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index e1a696d..84095b7 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -282,6 +282,7 @@ impl FrameQueue {
         let mut last_send_time_ms = 0;
         let mut total_ack_size = 0;
         let mut rate_limited = false;
+        let mut newly_acked = false;
 
         let mut bitfield_size = 0;
         for i in (0 .. 32).rev() {
@@ -320,12 +321,15 @@ impl FrameQueue {
 
             let ref mut sent_frame = self.frame_log.get_frame_mut(frame_id).unwrap();
 
-            rate_limited |= sent_frame.rate_limited;
+            if !sent_frame.acked {
+                rate_limited |= sent_frame.rate_limited;
+            }
 
             if ack.bitfield & (1 << i) != 0 {
                 // Receiver has received this packet
                 if sent_frame.acked == false {
                     sent_frame.acked = true;
+                    newly_acked = true;
 
                     // Mark each fragment acknowledged and clear the list
                     let fragment_refs = std::mem::take(&mut sent_frame.fragment_refs);
@@ -350,6 +354,11 @@ impl FrameQueue {
             }
         }
 
+        if !newly_acked {
+            // Repeated acknowledgement, there is nothing new to learn from it
+            return;
+        }
+
         // Add to pending feedback data
         self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
     }
-- 
2.43.0


From 2ef3b8d577ca04fe47c07b7de047a92e9619847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 09/23] fix: expiry of the nofeedback timer must neither raise
 the send rate nor lower it below the minimum

---
 src/half_connection/send_rate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 8ce7842..bec3fe5 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -282,7 +282,7 @@ impl SendRateComp {
             _ => panic!()
         }
 
-        self.send_rate = self.send_rate.min(self.max_send_rate);
+        self.send_rate = self.send_rate.max(MINIMUM_RATE).min(self.max_send_rate);
 
         // Restart nofeedback timer
         self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
@@ -356,7 +356,8 @@ impl SendRateComp {
                     let current_limit = state.send_rate_tcp.min(recv_rate.saturating_mul(2));
                     let new_limit = (current_limit/2).max(MINIMUM_RATE);
                     self.recv_rate_set.reset(now_ms, new_limit/2);
-                    self.send_rate = state.send_rate_tcp.min(new_limit);
+                    // The send rate never rises without feedback, and is subject to minimum
+                    self.send_rate = state.send_rate_tcp.min(new_limit).min(self.send_rate).max(MINIMUM_RATE);
                 }
             }
             _ => panic!()
-- 
2.43.0


From e48dfb08cd25df0ba450d8bf085a22108c4f6bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 10/23] fix: server must enforce both connection limits,
 counting handshakes in progress

---
 src/server/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index ff6bc02..8e202a1 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -259,8 +259,18 @@ impl Server {
             return;
         }
 
+        // Handshakes in progress may all succeed, so they count towards the active limit as well
+        let open_count = self
+            .clients
+            .values()
+            .filter(|client_rc| match client_rc.borrow().state {
+                remote_client::State::Pending(_) | remote_client::State::Active(_) => true,
+                _ => false,
+            })
+            .count();
+
         if self.clients.len() >= self.config.max_total_connections
-            && self.active_clients.len() >= self.config.max_active_connections
+            || open_count >= self.config.max_active_connections
         {
             // No room in the inn
             let reply = frame::Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame {
-- 
2.43.0


From 5ef3a429f73011c2a98e7b340bd38f52c194596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 11/23] fix: active timeout must run from the last frame
 received, however late the handshake completes

---
 src/client/mod.rs | 16 +++++++++-------
 src/server/mod.rs |  8 ++++----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 5f5f8be..824a4ca 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -399,7 +399,7 @@ impl Client {
         (now - self.time_base).as_millis() as u64
     }
 
-    fn handle_handshake_syn_ack(&mut self, frame: frame::HandshakeSynAckFrame) {
+    fn handle_handshake_syn_ack(&mut self, frame: frame::HandshakeSynAckFrame, now_ms: u64) {
         match self.state {
             State::Pending(ref mut state) => {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
@@ -457,12 +457,12 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
                     });
                 }
             }
-            State::Active(ref state) => {
+            State::Active(ref mut state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
                 // the nonce ack matches ours (and ignore it otherwise). This case is only
                 // encountered when our initial ACK was dropped - all that matters is that the
@@ -473,6 +473,8 @@ impl Client {
                         nonce_ack: frame.nonce,
                     });
                     let _ = self.socket.send(&reply.write());
+
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
             }
             _ => (),
@@ -566,7 +568,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_data_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -576,7 +578,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_sync_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -586,7 +588,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_ack_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -597,7 +599,7 @@ impl Client {
             frame::Frame::HandshakeSynFrame(_) => (),
             frame::Frame::HandshakeAckFrame(_) => (),
             frame::Frame::HandshakeSynAckFrame(frame) => {
-                self.handle_handshake_syn_ack(frame);
+                self.handle_handshake_syn_ack(frame, now_ms);
             },
             frame::Frame::HandshakeErrorFrame(frame) => {
                 self.handle_handshake_error(frame);
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 8e202a1..d50d991 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -410,7 +410,7 @@ impl Server {
 
                         client.state = remote_client::State::Active(remote_client::ActiveState {
                             half_connection,
-                            timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                            timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                             disconnect_signal: None,
                         });
 
@@ -522,7 +522,7 @@ impl Server {
                         .half_connection
                         .handle_data_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -544,7 +544,7 @@ impl Server {
                         .half_connection
                         .handle_ack_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -566,7 +566,7 @@ impl Server {
                         .half_connection
                         .handle_sync_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
-- 
2.43.0


From 9732e6806a2fc29a676ae3c33003203c555f19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:39 +0000
Subject: [PATCH 12/23] fix: client send buffer size must include packets
 enqueued before the connection is established

---
 src/client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 824a4ca..119b232 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -389,6 +389,7 @@ impl Client {
     /// they would not be sent.
     pub fn send_buffer_size(&self) -> usize {
         match self.state {
+            State::Pending(ref state) => state.initial_sends.iter().map(|send| send.data.len()).sum(),
             State::Active(ref state) => state.half_connection.send_buffer_size(),
             _ => 0,
         }
-- 
2.43.0


From fda40fa7d14c942b424720eeb673a15caa69d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 13/23] fix: frames received while no acknowledgement can be
 sent must not consume unbounded memory

---
 src/half_connection/frame_ack_queue.rs | 27 ++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/half_connection/frame_ack_queue.rs b/src/half_connection/frame_ack_queue.rs
index 567362d..67e7301 100644
--- a/src/half_connection/frame_ack_queue.rs
+++ b/src/half_connection/frame_ack_queue.rs
@@ -33,6 +33,7 @@ impl ReceiveWindow {
 pub struct FrameAckQueue {
     entries: std::collections::VecDeque<frame::AckGroup>,
     receive_window: ReceiveWindow,
+    max_entries: usize,
 }
 
 impl FrameAckQueue {
@@ -40,6 +41,7 @@ impl FrameAckQueue {
         Self {
             entries: std::collections::VecDeque::new(),
             receive_window: ReceiveWindow::new(base_id, size),
+            max_entries: size as usize,
         }
     }
 
@@ -66,20 +68,21 @@ impl FrameAckQueue {
                         last_entry.bitfield |= 0x00000001 << bit;
                         last_entry.nonce ^= nonce;
                     }
-                } else {
-                    self.entries.push_back(frame::AckGroup {
-                        base_id: frame_id,
-                        bitfield: 0x00000001,
-                        nonce: nonce,
-                    });
+                    return;
                 }
-            } else {
-                self.entries.push_back(frame::AckGroup {
-                    base_id: frame_id,
-                    bitfield: 0x00000001,
-                    nonce: nonce,
-                });
             }
+
+            if self.entries.len() >= self.max_entries {
+                // Should acks fall behind by an entire window's worth of frames, those for the
+                // oldest frames are of the least interest to the sender
+                self.entries.pop_front();
+            }
+
+            self.entries.push_back(frame::AckGroup {
+                base_id: frame_id,
+                bitfield: 0x00000001,
+                nonce: nonce,
+            });
         }
     }
 
-- 
2.43.0


From dae473536f97cfa04ed21256b932e887abf0d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 14/23] fix: TimeSensitive packets cut off by the flush budget
 must not be sent after the next step

---
 src/half_connection/mod.rs           |  9 +++++++++
 src/half_connection/packet_sender.rs | 28 ++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 4c800a4..5cf4536 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -208,6 +208,15 @@ impl HalfConnection {
         // Ignore previous TimeSensitive packets
         self.flush_id = self.flush_id.wrapping_add(1);
 
+        // This includes one which was about to be sent when flush() ran out of bandwidth
+        if let Some(entry) = self.pending_queue.front() {
+            if entry.fragment_ref.fragment_id == 0 && entry.fragment_ref.packet.upgrade().is_some() {
+                if self.packet_sender.retract_time_sensitive() {
+                    self.pending_queue.clear();
+                }
+            }
+        }
+
         // Update send rate value
         let ref mut frame_queue = self.frame_queue;
         self.send_rate_comp.step(now_ms, frame_queue.get_feedback(now_ms),
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index b8eec8c..d090305 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -24,6 +24,8 @@ fn alloc_size(packet_size: usize) -> usize {
 struct WindowEntry {
     // The packet to be sent in this slot
     packet: PendingPacketRc,
+    // Mode this packet was sent with
+    mode: SendMode,
     // How many allocation points this packet is worth
     alloc_size: usize,
     // Channel this packet was sent on
@@ -208,6 +210,7 @@ impl PacketSender {
             debug_assert!(self.window[window_idx].is_none());
             self.window[window_idx] = Some(WindowEntry {
                 packet: pending_packet,
+                mode: packet.mode,
                 alloc_size: packet_alloc_size,
                 channel_id: packet.channel_id
             });
@@ -237,6 +240,31 @@ impl PacketSender {
         return None;
     }
 
+    // Drops the most recently emitted packet if it was marked TimeSensitive, as though it had never
+    // left the send queue. No part of it may have been sent. Returns true if a packet was dropped.
+    pub fn retract_time_sensitive(&mut self) -> bool {
+        if self.next_id == self.base_id {
+            return false;
+        }
+
+        let last_id = packet_id::sub(self.next_id, 1);
+        let window_idx = window_index!(self, last_id);
+
+        match self.window[window_idx] {
+            Some(ref entry) if entry.mode == SendMode::TimeSensitive => {
+                self.alloc -= entry.alloc_size;
+                self.total_size -= entry.packet.borrow().size();
+            }
+            _ => return false,
+        }
+
+        // TimeSensitive packets are never parents, so there is nothing else to undo
+        self.window[window_idx] = None;
+        self.next_id = last_id;
+
+        return true;
+    }
+
     // Responds to a receive window acknowledgement. All packet data beyond the new receive window
     // is forgotten, thereby freeing transfer window & allocation space for new packets.
     pub fn acknowledge(&mut self, receiver_base_id: u32) {
-- 
2.43.0


From 2446d76088782aa0883c86788a262539b3b9c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 15/23] fix: bandwidth must not depend on rounding errors in
 each step

---
 src/half_connection/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 5cf4536..65265dd 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -95,6 +95,8 @@ pub struct HalfConnection {
     sync_timeout_base_ms: u64,
 
     flush_alloc: isize,
+    // Fraction of a byte accrued in addition to flush_alloc
+    flush_alloc_frac: f64,
     flush_id: u32,
 
     sync_reply: bool,
@@ -123,6 +125,7 @@ impl HalfConnection {
             sync_timeout_base_ms: 0,
 
             flush_alloc: 0,
+            flush_alloc_frac: 0.0,
             flush_id: 0,
 
             sync_reply: false,
@@ -237,10 +240,17 @@ impl HalfConnection {
             let rtt_s = self.send_rate_comp.rtt_s();
 
             let delta_time = (now - time_last_flushed).as_secs_f64();
-            let new_bytes = (send_rate * delta_time).round() as isize;
-            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).round() as isize;
+            let new_alloc = send_rate * delta_time + self.flush_alloc_frac;
+            let new_bytes = new_alloc as isize;
+            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)) as isize;
 
-            self.flush_alloc = self.flush_alloc.saturating_add(new_bytes).min(alloc_max);
+            self.flush_alloc = self.flush_alloc.saturating_add(new_bytes);
+            self.flush_alloc_frac = new_alloc.fract();
+
+            if self.flush_alloc >= alloc_max {
+                self.flush_alloc = alloc_max;
+                self.flush_alloc_frac = 0.0;
+            }
 
             //println!("dt: {}s, rtt: {:?}s, rate: {}B/s, new: {}B, max: {}B, val: {}B",
             //       delta_time, rtt_s, send_rate, new_bytes, alloc_max, self.flush_alloc);
-- 
2.43.0


From 9d045bcd38ae78799e25bf390031ff43d1e6b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 16/23] fix: frames must be remembered for as long as acks may
 take when the RTT increases

---
 src/half_connection/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 65265dd..db58c8f 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -203,7 +203,9 @@ impl HalfConnection {
         self.rto_ms = rto_ms;
 
         // Forget old frame data
-        self.frame_queue.forget_frames(now_ms.saturating_sub(rtt_ms*4), self.send_rate_comp.rtt_ms());
+        // (rto_ms is at least 4*rtt_ms, and grows as long as the expected acks fail to appear. If the
+        // RTT has increased a lot, this is what eventually lets an ack match a frame once again)
+        self.frame_queue.forget_frames(now_ms.saturating_sub(rto_ms), self.send_rate_comp.rtt_ms());
 
         // Fill flush allocation
         self.fill_flush_alloc(now);
-- 
2.43.0


From 7300997cf57d4de00dd62804839874e631ae9ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 17/23] fix: limits beyond the range of internal types must not
 overflow

---
 src/client/mod.rs                                          | 2 +-
 src/half_connection/packet_receiver/assembly_window/mod.rs | 2 +-
 src/half_connection/packet_sender.rs                       | 2 +-
 src/server/mod.rs                                          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 119b232..0c7add7 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -433,7 +433,7 @@ impl Client {
                         tx_packet_base_id: state.local_nonce & packet_id::MASK,
                         rx_packet_base_id: frame.nonce & packet_id::MASK,
 
-                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(frame.max_receive_rate),
+                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(frame.max_receive_rate),
 
                         tx_alloc_limit: frame.max_receive_alloc as usize,
                         rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
diff --git a/src/half_connection/packet_receiver/assembly_window/mod.rs b/src/half_connection/packet_receiver/assembly_window/mod.rs
index 833b0f2..b69cdb1 100644
--- a/src/half_connection/packet_receiver/assembly_window/mod.rs
+++ b/src/half_connection/packet_receiver/assembly_window/mod.rs
@@ -70,7 +70,7 @@ impl AssemblyWindow {
     pub fn new(max_alloc: usize) -> Self {
         let window: Vec<WindowEntry> = (0 .. MAX_PACKET_WINDOW_SIZE).map(|_| WindowEntry::Open).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             window: window.into_boxed_slice(),
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index d090305..cb4ccb3 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -99,7 +99,7 @@ impl PacketSender {
 
         let channels: Vec<Channel> = (0 .. CHANNEL_COUNT).map(|_| Channel::new()).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             packet_send_queue: VecDeque::new(),
diff --git a/src/server/mod.rs b/src/server/mod.rs
index d50d991..55ab698 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -394,7 +394,7 @@ impl Server {
                             tx_packet_base_id: state.local_nonce & packet_id::MASK,
                             rx_packet_base_id: state.remote_nonce & packet_id::MASK,
 
-                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(state.remote_max_receive_rate),
+                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(state.remote_max_receive_rate),
 
                             tx_alloc_limit: state.remote_max_receive_alloc as usize,
                             rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
-- 
2.43.0


From 7c7288f82fc205057b59d7b5c04bc6d18eb45dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 18/23] fix: a receive limit advertised by the peer must not
 make send() panic

---
 src/half_connection/packet_sender.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index cb4ccb3..fe29038 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -139,7 +139,8 @@ impl PacketSender {
     // Places a user packet on the send queue.
     pub fn enqueue_packet(&mut self, data: Box<[u8]>, channel_id: u8, mode: SendMode, flush_id: u32) {
         debug_assert!(data.len() <= MAX_PACKET_SIZE);
-        debug_assert!(data.len() <= self.max_alloc);
+        // Note: max_alloc was chosen by the remote host. Should it not admit this packet, the
+        // packet is never sent.
         debug_assert!((channel_id as usize) < CHANNEL_COUNT);
 
         self.total_size += data.len();
-- 
2.43.0


From 43451f259cd952f22137ffef2a67790cfff39971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 19/23] fix: server must count a repeated handshake
 acknowledgement as a sign of life

---
 src/server/mod.rs           | 8 ++++++++
 src/server/remote_client.rs | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 55ab698..58c9888 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -409,6 +409,7 @@ impl Server {
                         let half_connection = half_connection::HalfConnection::new(config);
 
                         client.state = remote_client::State::Active(remote_client::ActiveState {
+                            local_nonce: state.local_nonce,
                             half_connection,
                             timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                             disconnect_signal: None,
@@ -420,6 +421,13 @@ impl Server {
                         self.events_out.push(Event::Connect(client_addr));
                     }
                 }
+                remote_client::State::Active(ref mut state) => {
+                    // One ACK arrives for each SYN+ACK sent. Like any frame received from the
+                    // client, it shows that the client is alive.
+                    if handshake.nonce_ack == state.local_nonce {
+                        state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
+                    }
+                }
                 _ => (),
             }
         }
diff --git a/src/server/remote_client.rs b/src/server/remote_client.rs
index 668d6eb..f3a4f38 100644
--- a/src/server/remote_client.rs
+++ b/src/server/remote_client.rs
@@ -21,6 +21,7 @@ pub (super) struct PendingState {
 }
 
 pub (super) struct ActiveState {
+    pub local_nonce: u32,
     pub half_connection: HalfConnection,
     pub timeout_time_ms: u64,
     pub disconnect_signal: Option<DisconnectMode>,
-- 
2.43.0


From e7c4cc77e0b331ee97f6d5020ba62ce2cc59a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 20/23] fix: frames must be remembered for two seconds while
 the RTT is unknown

---
 src/half_connection/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index db58c8f..6d6be92 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -42,7 +42,8 @@ pub use reorder_buffer::ReorderBuffer;
 pub use send_rate::{FeedbackData, SendRateComp};
 
 const INITIAL_RTT_ESTIMATE_MS: u64 = 150;
-const INITIAL_RTO_ESTIMATE_MS: u64 = 4*INITIAL_RTT_ESTIMATE_MS;
+// As long as the nofeedback timer runs for when no RTT is known
+const INITIAL_RTO_ESTIMATE_MS: u64 = 2000;
 const MIN_SYNC_TIMEOUT_MS: u64 = 2000;
 
 pub trait FrameSink {
-- 
2.43.0


From 1c2f838179ed3664cf9ddb8171148d9e60a59595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 21/23] fix: the first feedback must not limit the send rate to
 the unknown receive rate

---
 src/half_connection/send_rate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index bec3fe5..11aaab1 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -196,6 +196,8 @@ impl SendRateComp {
         let loss_rate = feedback.loss_rate;
         let rate_limited = feedback.rate_limited;
 
+        let is_first = self.rtt_s.is_none();
+
         let (rtt_s, rtt_ms) = self.update_rtt(rtt_sample_s);
         let rto_s = self.update_rto(rtt_s, self.send_rate);
 
@@ -206,7 +208,11 @@ impl SendRateComp {
         let loss_increase = loss_rate > self.prev_loss_rate;
 
         let recv_limit =
-            if rate_limited {
+            if is_first {
+                // There is no receive rate to speak of yet, and hence no limit
+                self.recv_rate_set.reset_initial(now_ms);
+                self.recv_rate_set.max()
+            } else if rate_limited {
                 // If rate limited during the interval, the interval was not entirely data-limited
                 let max_val = self.recv_rate_set.rate_limited_update(now_ms, recv_rate, rtt_ms);
                 max_val.saturating_mul(2)
-- 
2.43.0


From 95ada49b89bd79f671106fbe6468cb321f8de7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 22/23] fix: the receive rate must not include time in which
 nothing was sent

---
 src/half_connection/frame_queue.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index 84095b7..05e0983 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -88,6 +88,7 @@ fn ms_to_s(v_s: u64) -> f64 {
 }
 
 struct AckData {
+    first_send_time_ms: u64,
     last_send_time_ms: u64,
     total_ack_size: usize,
     rate_limited: bool,
@@ -128,7 +129,9 @@ impl FeedbackGen {
             let rtt_ms = now_ms - ack_data.last_send_time_ms;
 
             let receive_rate = if let Some(last_feedback_ms) = self.last_feedback_ms {
-                let delta_time_s = ms_to_s(now_ms - last_feedback_ms);
+                // The frames acknowledged were received after the last feedback, and after the first
+                // of them was sent. Time spent idle before that does not count.
+                let delta_time_s = ms_to_s(now_ms - ack_data.first_send_time_ms.max(last_feedback_ms));
                 (ack_data.total_ack_size as f64 / delta_time_s).clamp(0.0, u32::MAX as f64) as u32
             } else {
                 0
@@ -148,6 +151,7 @@ impl FeedbackGen {
 
     fn put_ack_data(&mut self, ack_data: AckData) {
         if let Some(ref mut feedback_data) = self.ack_data {
+            feedback_data.first_send_time_ms = feedback_data.first_send_time_ms.min(ack_data.first_send_time_ms);
             feedback_data.last_send_time_ms = feedback_data.last_send_time_ms.max(ack_data.last_send_time_ms);
             feedback_data.total_ack_size += ack_data.total_ack_size;
             feedback_data.rate_limited |= ack_data.rate_limited;
@@ -279,6 +283,7 @@ impl FrameQueue {
     pub fn acknowledge_group(&mut self, ack: frame::AckGroup, rtt_ms: Option<u64>) {
         let mut true_nonce = false;
 
+        let mut first_send_time_ms = u64::MAX;
         let mut last_send_time_ms = 0;
         let mut total_ack_size = 0;
         let mut rate_limited = false;
@@ -342,7 +347,8 @@ impl FrameQueue {
                         }
                     }
 
-                    // Mark send time of latest included packet
+                    // Mark send times of first and latest included packets
+                    first_send_time_ms = first_send_time_ms.min(sent_frame.send_time_ms);
                     last_send_time_ms = last_send_time_ms.max(sent_frame.send_time_ms);
 
                     // Add to total ack size
@@ -360,7 +366,7 @@ impl FrameQueue {
         }
 
         // Add to pending feedback data
-        self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
+        self.feedback_gen.put_ack_data(AckData { first_send_time_ms, last_send_time_ms, total_ack_size, rate_limited });
     }
 
     pub fn can_advance_transfer_window(&mut self, new_base_id: u32) -> bool {
-- 
2.43.0


From 08c726d7b9597c99e35b457ad49fb784a66eb042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 23/23] verif hooks: wider stand-ins for time and rand, fewer
 re-exports

---
 src/frame/serial/mod.rs    |   2 -
 src/half_connection/mod.rs |  12 --
 src/verif.rs               | 257 +++++++++++++++++++++++++++++++++++--
 3 files changed, 249 insertions(+), 22 deletions(-)

diff --git a/src/frame/serial/mod.rs b/src/frame/serial/mod.rs
index 39bb64e..255772e 100644
--- a/src/frame/serial/mod.rs
+++ b/src/frame/serial/mod.rs
@@ -7,8 +7,6 @@ mod crc;
 
 pub use build::DataFrameBuilder;
 pub use build::AckFrameBuilder;
-#[cfg(uflow_verif)]
-pub use crc::{compute as crc_compute, extend as crc_extend};
 
 const FRAME_HEADER_SIZE: usize = 1;
 const FRAME_CRC_SIZE: usize = 4;
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 6d6be92..a8505cd 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -24,21 +24,9 @@ mod send_rate;
 #[cfg(test)]
 mod packet_tests;
 
-#[cfg(uflow_verif)]
-pub use frame_ack_queue::FrameAckQueue;
 #[cfg(uflow_verif)]
 pub use frame_queue::FrameQueue;
 #[cfg(uflow_verif)]
-pub use loss_rate::LossIntervalQueue;
-#[cfg(uflow_verif)]
-pub use packet_receiver::PacketReceiver;
-#[cfg(uflow_verif)]
-pub use packet_sender::PacketSender;
-#[cfg(uflow_verif)]
-pub use recv_rate_set::RecvRateSet;
-#[cfg(uflow_verif)]
-pub use reorder_buffer::ReorderBuffer;
-#[cfg(uflow_verif)]
 pub use send_rate::{FeedbackData, SendRateComp};
 
 const INITIAL_RTT_ESTIMATE_MS: u64 = 150;
diff --git a/src/verif.rs b/src/verif.rs
index 2e5b89b..fb32166 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -31,10 +31,15 @@ extern "Rust" {
 }
 
 pub mod time {
-    #[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord)]
+    use std::ops::{Add, AddAssign, Div, Mul, Sub, SubAssign};
+
+    const NS_PER_MS: u32 = 1_000_000;
+
+    // Milliseconds are kept apart from the rest, so that whole milliseconds need no division
+    #[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord,Hash)]
     pub struct Instant { ms: u64, ns: u32 }
 
-    #[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord)]
+    #[derive(Clone,Copy,Debug,Default,PartialEq,Eq,PartialOrd,Ord,Hash)]
     pub struct Duration { ms: u64, ns: u32 }
 
     impl Instant {
@@ -50,9 +55,25 @@ pub mod time {
         pub fn duration_since(&self, earlier: Instant) -> Duration {
             *self - earlier
         }
+
+        pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
+            *self - earlier
+        }
+
+        pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
+            if *self < earlier { None } else { Some(*self - earlier) }
+        }
+
+        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
+            Duration { ms: self.ms, ns: self.ns }.checked_add(d).map(|t| Instant { ms: t.ms, ns: t.ns })
+        }
+
+        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
+            Duration { ms: self.ms, ns: self.ns }.checked_sub(d).map(|t| Instant { ms: t.ms, ns: t.ns })
+        }
     }
 
-    impl std::ops::Sub<Instant> for Instant {
+    impl Sub<Instant> for Instant {
         type Output = Duration;
 
         // Like std::time::Instant, saturates at zero
@@ -62,20 +83,100 @@ pub mod time {
             } else if self.ns >= other.ns {
                 Duration { ms: self.ms - other.ms, ns: self.ns - other.ns }
             } else {
-                Duration { ms: self.ms - other.ms - 1, ns: self.ns + 1_000_000 - other.ns }
+                Duration { ms: self.ms - other.ms - 1, ns: self.ns + NS_PER_MS - other.ns }
             }
         }
     }
 
+    impl Add<Duration> for Instant {
+        type Output = Instant;
+
+        fn add(self, d: Duration) -> Instant {
+            self.checked_add(d).expect("overflow when adding duration to instant")
+        }
+    }
+
+    impl Sub<Duration> for Instant {
+        type Output = Instant;
+
+        fn sub(self, d: Duration) -> Instant {
+            self.checked_sub(d).expect("overflow when subtracting duration from instant")
+        }
+    }
+
+    impl AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, d: Duration) { *self = *self + d; }
+    }
+
+    impl SubAssign<Duration> for Instant {
+        fn sub_assign(&mut self, d: Duration) { *self = *self - d; }
+    }
+
     impl Duration {
+        pub const ZERO: Duration = Duration { ms: 0, ns: 0 };
+        pub const MAX: Duration = Duration { ms: u64::MAX, ns: NS_PER_MS - 1 };
+
+        pub const fn new(secs: u64, nanos: u32) -> Self {
+            Self { ms: secs * 1000 + (nanos / NS_PER_MS) as u64, ns: nanos % NS_PER_MS }
+        }
+
+        pub const fn from_secs(secs: u64) -> Self {
+            Self { ms: secs * 1000, ns: 0 }
+        }
+
+        pub const fn from_millis(ms: u64) -> Self {
+            Self { ms, ns: 0 }
+        }
+
+        pub const fn from_micros(us: u64) -> Self {
+            Self { ms: us / 1000, ns: (us % 1000) as u32 * 1000 }
+        }
+
+        pub const fn from_nanos(ns: u64) -> Self {
+            Self { ms: ns / NS_PER_MS as u64, ns: (ns % NS_PER_MS as u64) as u32 }
+        }
+
+        pub fn from_secs_f64(secs: f64) -> Self {
+            assert!(secs >= 0.0 && secs < u64::MAX as f64 / 1e9, "cannot convert float seconds to Duration");
+            Self::from_nanos((secs * 1e9) as u64)
+        }
+
+        pub fn from_secs_f32(secs: f32) -> Self {
+            Self::from_secs_f64(secs as f64)
+        }
+
+        pub fn is_zero(&self) -> bool {
+            self.ms == 0 && self.ns == 0
+        }
+
         pub fn as_millis(&self) -> u128 {
             self.ms as u128
         }
 
+        pub fn as_micros(&self) -> u128 {
+            self.ms as u128 * 1000 + (self.ns / 1000) as u128
+        }
+
+        pub fn as_nanos(&self) -> u128 {
+            self.ms as u128 * NS_PER_MS as u128 + self.ns as u128
+        }
+
         pub fn as_secs(&self) -> u64 {
             self.ms / 1000
         }
 
+        pub fn subsec_millis(&self) -> u32 {
+            (self.ms % 1000) as u32
+        }
+
+        pub fn subsec_micros(&self) -> u32 {
+            self.subsec_nanos() / 1000
+        }
+
+        pub fn subsec_nanos(&self) -> u32 {
+            self.subsec_millis() * NS_PER_MS + self.ns
+        }
+
         pub fn as_secs_f64(&self) -> f64 {
             if self.ns == 0 {
                 self.ms as f64 / 1000.0
@@ -83,29 +184,165 @@ pub mod time {
                 self.ms as f64 / 1000.0 + self.ns as f64 / 1_000_000_000.0
             }
         }
+
+        pub fn as_secs_f32(&self) -> f32 {
+            self.as_secs_f64() as f32
+        }
+
+        pub fn checked_add(self, other: Duration) -> Option<Duration> {
+            let ns = self.ns + other.ns;
+            let carry = (ns >= NS_PER_MS) as u64;
+            let ms = self.ms.checked_add(other.ms)?.checked_add(carry)?;
+            Some(Duration { ms, ns: if ns >= NS_PER_MS { ns - NS_PER_MS } else { ns } })
+        }
+
+        pub fn checked_sub(self, other: Duration) -> Option<Duration> {
+            if self < other {
+                None
+            } else if self.ns >= other.ns {
+                Some(Duration { ms: self.ms - other.ms, ns: self.ns - other.ns })
+            } else {
+                Some(Duration { ms: self.ms - other.ms - 1, ns: self.ns + NS_PER_MS - other.ns })
+            }
+        }
+
+        pub fn saturating_add(self, other: Duration) -> Duration {
+            self.checked_add(other).unwrap_or(Duration::MAX)
+        }
+
+        pub fn saturating_sub(self, other: Duration) -> Duration {
+            self.checked_sub(other).unwrap_or(Duration::ZERO)
+        }
+
+        pub fn checked_mul(self, k: u32) -> Option<Duration> {
+            let ns = self.ns as u64 * k as u64;
+            let ms = self.ms.checked_mul(k as u64)?.checked_add(ns / NS_PER_MS as u64)?;
+            Some(Duration { ms, ns: (ns % NS_PER_MS as u64) as u32 })
+        }
+
+        pub fn saturating_mul(self, k: u32) -> Duration {
+            self.checked_mul(k).unwrap_or(Duration::MAX)
+        }
+
+        pub fn mul_f64(self, k: f64) -> Duration {
+            Self::from_secs_f64(self.as_secs_f64() * k)
+        }
+    }
+
+    impl Add for Duration {
+        type Output = Duration;
+
+        fn add(self, other: Duration) -> Duration {
+            self.checked_add(other).expect("overflow when adding durations")
+        }
+    }
+
+    impl Sub for Duration {
+        type Output = Duration;
+
+        fn sub(self, other: Duration) -> Duration {
+            self.checked_sub(other).expect("overflow when subtracting durations")
+        }
+    }
+
+    impl Mul<u32> for Duration {
+        type Output = Duration;
+
+        fn mul(self, k: u32) -> Duration {
+            self.checked_mul(k).expect("overflow when multiplying duration by scalar")
+        }
+    }
+
+    impl Mul<Duration> for u32 {
+        type Output = Duration;
+
+        fn mul(self, d: Duration) -> Duration {
+            d * self
+        }
+    }
+
+    impl Div<u32> for Duration {
+        type Output = Duration;
+
+        fn div(self, k: u32) -> Duration {
+            let rest = (self.ms % k as u64) * NS_PER_MS as u64 + self.ns as u64;
+            Duration { ms: self.ms / k as u64, ns: 0 } + Duration::from_nanos(rest / k as u64)
+        }
+    }
+
+    impl AddAssign for Duration {
+        fn add_assign(&mut self, other: Duration) { *self = *self + other; }
+    }
+
+    impl SubAssign for Duration {
+        fn sub_assign(&mut self, other: Duration) { *self = *self - other; }
     }
 }
 
 pub mod rand {
+    fn bits() -> u32 {
+        unsafe { super::uflow_verif_random() }
+    }
+
     pub trait Random {
         fn random() -> Self;
     }
 
-    impl Random for u32 {
+    macro_rules! small {
+        ($($t:ty),*) => { $(impl Random for $t { fn random() -> Self { bits() as $t } })* };
+    }
+
+    macro_rules! large {
+        ($($t:ty),*) => { $(impl Random for $t { fn random() -> Self { ((bits() as u64) << 32 | bits() as u64) as $t } })* };
+    }
+
+    small!(u8, u16, u32, i8, i16, i32);
+    large!(u64, i64, usize, isize);
+
+    impl Random for bool {
         fn random() -> Self {
-            unsafe { super::uflow_verif_random() }
+            bits() & 1 != 0
         }
     }
 
-    impl Random for bool {
+    // In [0, 1)
+    impl Random for f64 {
         fn random() -> Self {
-            unsafe { super::uflow_verif_random() & 1 != 0 }
+            bits() as f64 / 4294967296.0
+        }
+    }
+
+    impl Random for f32 {
+        fn random() -> Self {
+            (bits() >> 8) as f32 / 16777216.0
         }
     }
 
     pub fn random<T: Random>() -> T {
         T::random()
     }
+
+    pub struct ThreadRng;
+
+    pub fn thread_rng() -> ThreadRng {
+        ThreadRng
+    }
+
+    pub trait Rng {
+        fn gen<T: Random>(&mut self) -> T {
+            T::random()
+        }
+
+        fn next_u32(&mut self) -> u32 {
+            bits()
+        }
+
+        fn gen_bool(&mut self, p: f64) -> bool {
+            f64::random() < p
+        }
+    }
+
+    impl Rng for ThreadRng {}
 }
 
 pub mod net {
@@ -135,6 +372,10 @@ pub mod net {
             Ok(())
         }
 
+        pub fn try_clone(&self) -> io::Result<Self> {
+            Ok(Self { handle: self.handle, local_addr: self.local_addr, peer_addr: self.peer_addr.clone() })
+        }
+
         pub fn local_addr(&self) -> io::Result<SocketAddr> {
             Ok(self.local_addr)
         }
-- 
2.43.0

