From c42e5a951b4061c6a16621dd125204abe90cd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 1/5] hook: let --cfg mpst_verif replace std by a model of the
 environment

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1bf5620..c619153 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,6 +12,8 @@
 #![deny(unused_must_use)]
 #![deny(semicolon_in_expressions_from_macros)]
 #![cfg_attr(doc_cfg, feature(doc_cfg))]
+#![cfg_attr(mpst_verif, no_std)]
+#![cfg_attr(mpst_verif, feature(prelude_import))]
 #![cfg_attr(doc_cfg, deny(rustdoc::broken_intra_doc_links))]
 #![doc(test(
     no_crate_inject,
@@ -291,6 +293,16 @@
 //!
 //! [`KMC`]: https://github.com/julien-lange/kmc
 
+// Verification only (`--cfg mpst_verif`): `crossbeam-channel` is then patched by
+// a model of the execution environment, which also stands for `std`.
+#[cfg(mpst_verif)]
+#[macro_use]
+extern crate crossbeam_channel as std;
+#[cfg(mpst_verif)]
+#[prelude_import]
+#[allow(unused_imports)]
+use std::prelude::rust_2021::*;
+
 #[cfg(feature = "default")]
 pub mod binary;
 
-- 
2.43.0


From a50674a1b1e2f833dda9e8e0127a48c951feb209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:15 +0000
Subject: [PATCH 2/5] fix: reset the clock after a timed operation without time
 constraint

With both bounds negative, send and recv ignored RESET.
---
 src/binary_atmp/recv.rs | 9 ++++++++-
 src/binary_atmp/send.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index df760ae..3b33951 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -130,7 +130,14 @@ where
         } else {
             if !s.include_start && !s.include_end {
                 match s.channel.recv() {
-                    Ok((v, c)) => Ok((v, c)),
+                    Ok((v, c)) => {
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok((v, c))
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index 083031b..db9d760 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -137,7 +137,14 @@ where
             if !s.include_start && !s.include_end {
                 let (here, there) = S::new();
                 match s.channel.send((x, there)) {
-                    Ok(()) => Ok(here),
+                    Ok(()) => {
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok(here)
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
-- 
2.43.0


From 972d1aeb0822bd330bb89e804d4ab5d2c6e3b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:25 +0000
Subject: [PATCH 3/5] fix: reset the clock when the window opens between two
 readings of it

With both bounds given, send and recv read the clock once to decide whether to
reset and again for the branch without reset. When the lower bound was reached
in between, the operation succeeded but the clock was not reset.
---
 src/binary_atmp/recv.rs | 52 +++++++++++++++++++++++++----------------
 src/binary_atmp/send.rs | 52 +++++++++++++++++++++++++----------------
 2 files changed, 64 insertions(+), 40 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index 3b33951..acf4567 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -160,7 +160,9 @@ where
                 // if the clock is available among all clocks
                 if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
                     // if the clock respects the time constraint and the clock must be reset
-                    if u64::try_from(s.start)? <= own_clock.elapsed().as_secs() && s.reset != ' ' {
+                    // a single reading decides, time passes meanwhile
+                    let elapsed = own_clock.elapsed().as_secs();
+                    if u64::try_from(s.start)? <= elapsed && s.reset != ' ' {
                         // blocking receive
                         match s.channel.recv() {
                             Ok((v, c)) => {
@@ -175,7 +177,7 @@ where
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
-                    } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs() {
+                    } else if u64::try_from(s.start)? <= elapsed {
                         // blocking receive
                         match s.channel.recv() {
                             Ok((v, s)) => Ok((v, s)),
@@ -198,7 +200,9 @@ where
                 // if the clock is available among all clocks
                 if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
                     // if the clock respects the time constraint and the clock must be reset
-                    if u64::try_from(s.start)? < own_clock.elapsed().as_secs() && s.reset != ' ' {
+                    // a single reading decides, time passes meanwhile
+                    let elapsed = own_clock.elapsed().as_secs();
+                    if u64::try_from(s.start)? < elapsed && s.reset != ' ' {
                         // blocking receive
                         match s.channel.recv() {
                             Ok((v, c)) => {
@@ -213,7 +217,7 @@ where
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
-                    } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs() {
+                    } else if u64::try_from(s.start)? < elapsed {
                         // blocking receive
                         match s.channel.recv() {
                             Ok((v, s)) => Ok((v, s)),
@@ -245,8 +249,10 @@ where
                 // if both bounds are included
                 (true, true) => {
                     if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
-                        if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                        // a single reading decides, time passes meanwhile
+                        let elapsed = own_clock.elapsed().as_secs();
+                        if u64::try_from(s.start)? <= elapsed
+                            && elapsed <= u64::try_from(s.end)?
                             && s.reset != ' '
                         {
                             // receive with timeout
@@ -264,8 +270,8 @@ where
                                     Err(Box::new(e))
                                 }
                             }
-                        } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                        } else if u64::try_from(s.start)? <= elapsed
+                            && elapsed <= u64::try_from(s.end)?
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
@@ -287,8 +293,10 @@ where
                 // if only the lower bound is included
                 (true, false) => {
                     if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
-                        if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                        // a single reading decides, time passes meanwhile
+                        let elapsed = own_clock.elapsed().as_secs();
+                        if u64::try_from(s.start)? <= elapsed
+                            && elapsed < u64::try_from(s.end)?
                             && s.reset != ' '
                         {
                             // receive with timeout
@@ -306,8 +314,8 @@ where
                                     Err(Box::new(e))
                                 }
                             }
-                        } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                        } else if u64::try_from(s.start)? <= elapsed
+                            && elapsed < u64::try_from(s.end)?
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
@@ -329,8 +337,10 @@ where
                 // if only the upper bound is included
                 (false, true) => {
                     if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
-                        if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                        // a single reading decides, time passes meanwhile
+                        let elapsed = own_clock.elapsed().as_secs();
+                        if u64::try_from(s.start)? < elapsed
+                            && elapsed <= u64::try_from(s.end)?
                             && s.reset != ' '
                         {
                             // receive with timeout
@@ -348,8 +358,8 @@ where
                                     Err(Box::new(e))
                                 }
                             }
-                        } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                        } else if u64::try_from(s.start)? < elapsed
+                            && elapsed <= u64::try_from(s.end)?
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
@@ -371,8 +381,10 @@ where
                 // if none of the bounds are included
                 (false, false) => {
                     if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
-                        if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                        // a single reading decides, time passes meanwhile
+                        let elapsed = own_clock.elapsed().as_secs();
+                        if u64::try_from(s.start)? < elapsed
+                            && elapsed < u64::try_from(s.end)?
                             && s.reset != ' '
                         {
                             // receive with timeout
@@ -390,8 +402,8 @@ where
                                     Err(Box::new(e))
                                 }
                             }
-                        } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                        } else if u64::try_from(s.start)? < elapsed
+                            && elapsed < u64::try_from(s.end)?
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index db9d760..a7fe57a 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -167,7 +167,9 @@ where
                 // if the clock is available among all clocks
                 if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
                     // if the clock respects the time constraint and the clock must be reset
-                    if u64::try_from(s.start)? <= own_clock.elapsed().as_secs() && s.reset != ' ' {
+                    // a single reading decides, time passes meanwhile
+                    let elapsed = own_clock.elapsed().as_secs();
+                    if u64::try_from(s.start)? <= elapsed && s.reset != ' ' {
                         let (here, there) = S::new();
                         match s.channel.send((x, there)) {
                             Ok(()) => {
@@ -182,7 +184,7 @@ where
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
-                    } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs() {
+                    } else if u64::try_from(s.start)? <= elapsed {
                         let (here, there) = S::new();
                         match s.channel.send((x, there)) {
                             Ok(()) => Ok(here),
@@ -205,7 +207,9 @@ where
                 // if the clock is available among all clocks
                 if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
                     // if the clock respects the time constraint and the clock must be reset
-                    if u64::try_from(s.start)? < own_clock.elapsed().as_secs() && s.reset != ' ' {
+                    // a single reading decides, time passes meanwhile
+                    let elapsed = own_clock.elapsed().as_secs();
+                    if u64::try_from(s.start)? < elapsed && s.reset != ' ' {
                         let (here, there) = S::new();
                         match s.channel.send((x, there)) {
                             Ok(()) => {
@@ -220,7 +224,7 @@ where
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
-                    } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs() {
+                    } else if u64::try_from(s.start)? < elapsed {
                         let (here, there) = S::new();
                         match s.channel.send((x, there)) {
                             Ok(()) => Ok(here),
@@ -252,8 +256,10 @@ where
                 // if both bounds are included
                 (true, true) => {
                     if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
-                        if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                        // a single reading decides, time passes meanwhile
+                        let elapsed = own_clock.elapsed().as_secs();
+                        if u64::try_from(s.start)? <= elapsed
+                            && elapsed <= u64::try_from(s.end)?
                             && s.reset != ' '
                         {
                             let (here, there) = S::new();
@@ -272,8 +278,8 @@ where
                                     panic!("{}", e.to_string())
                                 }
                             }
-                        } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                        } else if u64::try_from(s.start)? <= elapsed
+                            && elapsed <= u64::try_from(s.end)?
                         {
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
@@ -296,8 +302,10 @@ where
                 // if only the lower bound is included
                 (true, false) => {
                     if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
-                        if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                        // a single reading decides, time passes meanwhile
+                        let elapsed = own_clock.elapsed().as_secs();
+                        if u64::try_from(s.start)? <= elapsed
+                            && elapsed < u64::try_from(s.end)?
                             && s.reset != ' '
                         {
                             let (here, there) = S::new();
@@ -316,8 +324,8 @@ where
                                     panic!("{}", e.to_string())
                                 }
                             }
-                        } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                        } else if u64::try_from(s.start)? <= elapsed
+                            && elapsed < u64::try_from(s.end)?
                         {
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
@@ -340,8 +348,10 @@ where
                 // if only the upper bound is included
                 (false, true) => {
                     if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
-                        if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                        // a single reading decides, time passes meanwhile
+                        let elapsed = own_clock.elapsed().as_secs();
+                        if u64::try_from(s.start)? < elapsed
+                            && elapsed <= u64::try_from(s.end)?
                             && s.reset != ' '
                         {
                             let (here, there) = S::new();
@@ -360,8 +370,8 @@ where
                                     panic!("{}", e.to_string())
                                 }
                             }
-                        } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                        } else if u64::try_from(s.start)? < elapsed
+                            && elapsed <= u64::try_from(s.end)?
                         {
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
@@ -384,8 +394,10 @@ where
                 // if none of the bounds are included
                 (false, false) => {
                     if let Some(own_clock) = all_clocks.get_mut(&s.clock) {
-                        if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                        // a single reading decides, time passes meanwhile
+                        let elapsed = own_clock.elapsed().as_secs();
+                        if u64::try_from(s.start)? < elapsed
+                            && elapsed < u64::try_from(s.end)?
                             && s.reset != ' '
                         {
                             let (here, there) = S::new();
@@ -404,8 +416,8 @@ where
                                     panic!("{}", e.to_string())
                                 }
                             }
-                        } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
-                            && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                        } else if u64::try_from(s.start)? < elapsed
+                            && elapsed < u64::try_from(s.end)?
                         {
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
-- 
2.43.0


From 47d5f301c28117a5798c20457326c851908ff508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:52 +0000
Subject: [PATCH 4/5] fix: broadcast_cancel cancels everybody when a
 participant vanishes without a signal

---
 .../src/macros_multiple/multiple/broadcast_cancel.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
index e051f14..273eaf1 100644
--- a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
+++ b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
@@ -82,6 +82,11 @@ impl BroadcastCancel {
                                 Ok(mpstthree::binary::struct_trait::end::Signal::Offer(channel)) => {
                                     s.#field_session = channel;
                                 }
+                                Err(e) if #bool_session && e.is_disconnected() => {
+                                    #send_sessions
+                                    mpstthree::binary::cancel::cancel(s);
+                                    panic!("Error");
+                                }
                                 _ => {}
                             };
                         )*
-- 
2.43.0


From 951c427c12b407387a93324f9a0c67ab6ffccdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:55 +0000
Subject: [PATCH 5/5] fix: a timed choice resets the clock only after its last
 message

choose_left and choose_right of the timed MeshedChannels (generate_atmp!)
send the choice to each participant with a send that resets the clock: from the
second participant on, the time constraint was checked against the clock that
had just been reset, so that a choice made within its window was delayed or
refused. choose_mpst_x_to_all! already avoids this.
---
 .../src/common_functions/expand/choose.rs     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mpst_seq_proc/src/common_functions/expand/choose.rs b/mpst_seq_proc/src/common_functions/expand/choose.rs
index a1bc161..64759b1 100644
--- a/mpst_seq_proc/src/common_functions/expand/choose.rs
+++ b/mpst_seq_proc/src/common_functions/expand/choose.rs
@@ -1573,8 +1573,16 @@ pub(crate) fn choose_atmp(
 
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
+            // Only the last message resets the clock: the previous ones
+            // must not shift the time constraint of the next ones.
+            let send = if j == number_roles - 1 {
+                quote! { send }
+            } else {
+                quote! { send_without_reset }
+            };
+
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::#send(
                     either::Either::Left(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1592,8 +1600,16 @@ pub(crate) fn choose_atmp(
 
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
+            // Only the last message resets the clock: the previous ones
+            // must not shift the time constraint of the next ones.
+            let send = if j == number_roles - 1 {
+                quote! { send }
+            } else {
+                quote! { send_without_reset }
+            };
+
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::#send(
                     either::Either::Right(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
-- 
2.43.0

