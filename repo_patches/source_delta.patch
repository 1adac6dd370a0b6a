From 6a6edc770c2182294c7cabe90dd0be4a6974434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 01/10] fix: deliver queued messages of equal priority in the
 order they were sent

BinaryHeap is not stable, so messages of equal priority came out of a mailbox in
arbitrary order. Break ties by the position in the queue.
---
 xtra/src/chan.rs          | 40 +++++++++++++++++++++++++++++++++------
 xtra/src/chan/priority.rs | 26 +++++++++++++++++++++----
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 187d963..03b0648 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -127,7 +127,7 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.unicast_queue.push(ByPriority(unfulfilled_msg));
+        inner.push_unicast(unfulfilled_msg);
 
         Ok(Ok(()))
     }
@@ -290,7 +290,7 @@ impl<A> Chan<A> {
         };
 
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.unicast_queue.push(ByPriority(msg));
+            inner.push_unicast_front(msg);
         }
     }
 
@@ -310,6 +310,10 @@ struct Inner<A> {
     unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
     broadcast_tail: usize,
+    /// Position of the next message to go to the back of a queue.
+    back_position: i64,
+    /// Position of the next message to go to the front of the unicast queue.
+    front_position: i64,
 }
 
 impl<A> Inner<A> {
@@ -322,15 +326,37 @@ impl<A> Inner<A> {
             unicast_queue: BinaryHeap::default(),
             broadcast_queues: Vec::default(),
             broadcast_tail: 0,
+            back_position: 0,
+            front_position: -1,
         }
     }
 
+    fn next_back_position(&mut self) -> i64 {
+        let position = self.back_position;
+        self.back_position += 1;
+
+        position
+    }
+
+    /// Queue a message behind all messages of the same priority.
+    fn push_unicast(&mut self, msg: MessageToOne<A>) {
+        let position = self.next_back_position();
+        self.unicast_queue.push(ByPriority::new(msg, position));
+    }
+
+    /// Queue a message in front of all messages of the same priority.
+    fn push_unicast_front(&mut self, msg: MessageToOne<A>) {
+        let position = self.front_position;
+        self.front_position -= 1;
+        self.unicast_queue.push(ByPriority::new(msg, position));
+    }
+
     fn pop_unicast(&mut self) -> Option<Box<dyn MessageEnvelope<Actor = A>>> {
-        let msg = self.unicast_queue.pop()?.0;
+        let msg = self.unicast_queue.pop()?.into_inner();
 
         if !self.is_unicast_full() {
             if let Some(msg) = self.try_take_waiting_unicast_message() {
-                self.unicast_queue.push(ByPriority(msg))
+                self.push_unicast(msg)
             }
         }
 
@@ -341,7 +367,7 @@ impl<A> Inner<A> {
         &mut self,
         broadcast_mailbox: &BroadcastQueue<A>,
     ) -> Option<Arc<dyn BroadcastEnvelope<Actor = A>>> {
-        let message = broadcast_mailbox.lock().pop()?.0;
+        let message = broadcast_mailbox.lock().pop()?.into_inner();
 
         self.broadcast_tail = self.longest_broadcast_queue();
 
@@ -367,9 +393,11 @@ impl<A> Inner<A> {
     }
 
     fn send_broadcast(&mut self, m: MessageToAll<A>) {
+        let position = self.next_back_position();
+
         self.broadcast_queues.retain(|queue| match queue.upgrade() {
             Some(q) => {
-                q.lock().push(ByPriority(m.clone()));
+                q.lock().push(ByPriority::new(m.clone(), position));
                 true
             }
             None => false, // The corresponding receiver has been dropped - remove it
diff --git a/xtra/src/chan/priority.rs b/xtra/src/chan/priority.rs
index 1c01ee7..3cb0814 100644
--- a/xtra/src/chan/priority.rs
+++ b/xtra/src/chan/priority.rs
@@ -17,14 +17,30 @@ pub trait HasPriority {
 }
 
 /// A wrapper struct that allows comparison and ordering for anything thas has a priority, i.e. implements [`HasPriority`].
-pub struct ByPriority<T>(pub T);
+///
+/// Values of equal priority are ordered by their position in the queue: the lower position is the
+/// greater one, which makes a max-heap of these first-in, first-out within a priority.
+pub struct ByPriority<T> {
+    value: T,
+    position: i64,
+}
+
+impl<T> ByPriority<T> {
+    pub fn new(value: T, position: i64) -> Self {
+        Self { value, position }
+    }
+
+    pub fn into_inner(self) -> T {
+        self.value
+    }
+}
 
 impl<T> HasPriority for ByPriority<T>
 where
     T: HasPriority,
 {
     fn priority(&self) -> Priority {
-        self.0.priority()
+        self.value.priority()
     }
 }
 
@@ -33,7 +49,7 @@ where
     T: HasPriority,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.0.priority().eq(&other.0.priority())
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -53,6 +69,8 @@ where
     T: HasPriority,
 {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.priority().cmp(&other.0.priority())
+        self.priority()
+            .cmp(&other.priority())
+            .then_with(|| other.position.cmp(&self.position))
     }
 }
-- 
2.43.0


From 4868f932026b7ac9914091876df39e9c819bbae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 02/10] fix: admit blocked sends of equal priority in the order
 they were sent

max_by_key returns the last maximum, so the newest blocked send overtook the
older ones.
---
 xtra/src/chan.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 03b0648..1b85c95 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -460,9 +460,11 @@ where
 {
     queue.retain(|handle| handle.is_active()); // Only process handles which are still active.
 
+    // `max_by_key` returns the last of several maxima, go in reverse to find the longest waiting one.
     let pos = queue
         .iter()
         .enumerate()
+        .rev()
         .max_by_key(|(_, handle)| handle.priority())?
         .0;
 
-- 
2.43.0


From ac5ae6e4ac24f2e664799cac9bf098622a79e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 03/10] fix: make Ord of addresses consistent with Eq and
 PartialOrd

Ord ignored the strength, so a strong and a weak Either address to the same
actor compared as equal although they are not, and collided as BTreeMap keys.
---
 xtra/src/address.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xtra/src/address.rs b/xtra/src/address.rs
index 11502ca..db19cea 100644
--- a/xtra/src/address.rs
+++ b/xtra/src/address.rs
@@ -302,7 +302,11 @@ impl<A, Rc: RefCounter, Rc2: RefCounter> PartialOrd<Address<A, Rc2>> for Address
 
 impl<A, Rc: RefCounter> Ord for Address<A, Rc> {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.inner_ptr().cmp(&other.0.inner_ptr())
+        // Two `Either` addresses of the same type may differ in strength.
+        self.0
+            .inner_ptr()
+            .cmp(&other.0.inner_ptr())
+            .then_with(|| self.0.is_strong().cmp(&other.0.is_strong()))
     }
 }
 
-- 
2.43.0


From 8f1a29aea58be6b4f6d85faeb84c4cb60cbcf95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 04/10] fix: do not swallow a stop request when select's future
 completes

Once its future was done, select still dispatched the message that was on its
way and ignored the resulting control flow, so that a stop request among these
was lost. Leave the message in the mailbox instead.
---
 xtra/src/lib.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index 8803bcc..773da67 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -7,8 +7,7 @@ use std::fmt;
 use std::future::Future;
 use std::ops::ControlFlow;
 
-use futures_util::future::Either;
-use futures_util::{future, FutureExt};
+use futures_util::future::{self, Either};
 
 pub use self::address::{Address, WeakAddress};
 pub use self::context::Context;
@@ -309,13 +308,8 @@ where
         let (msg, unfinished) = {
             let mut next_msg = mailbox.next();
             match future::select(fut, &mut next_msg).await {
-                Either::Left((future_res, _)) => {
-                    if let Some(msg) = next_msg.now_or_never() {
-                        msg.dispatch_to(actor).await;
-                    }
-
-                    return Either::Left(future_res);
-                }
+                // A message that is already on its way goes back to the mailbox with `next_msg`.
+                Either::Left((future_res, _)) => return Either::Left(future_res),
                 Either::Right(tuple) => tuple,
             }
         };
-- 
2.43.0


From 172d9534d7665c0e004762dec3fbd3bce70667ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 05/10] fix: do not queue a message in a channel that was
 closed concurrently

A send could check that the channel is connected, lose the race against the drop
of the last mailbox and then queue a message, or block, in a channel that was
already shut down. Its sender waited forever. Check again with the lock held.
---
 xtra/src/chan.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 1b85c95..9c3f03a 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -114,6 +114,12 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // Check again now that the channel is locked: had it been closed since the check above,
+        // nobody would drop a message that is put into it from here on.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         let unfulfilled_msg = if let Err(msg) = inner.try_fulfill_receiver(message) {
             msg
         } else {
@@ -146,6 +152,12 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // Check again now that the channel is locked: had it been closed since the check above,
+        // nobody would drop a message that is put into it from here on.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
             inner.waiting_send_to_all.push_back(handle);
-- 
2.43.0


From 7c5f443cffaff82b7c1cf51a7480a488c7e50389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 06/10] fix: do not lose a message given to a receive while it
 is being cancelled

A message could be given to the receiver after the cancelled future had checked
for one but before it was gone, and was dropped along with it. Do both with the
channel locked.
---
 xtra/src/chan.rs                  | 16 ++++++++++------
 xtra/src/chan/waiting_receiver.rs |  5 +++--
 xtra/src/recv_future.rs           | 19 +++++++++++--------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 9c3f03a..5f30280 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -288,21 +288,25 @@ impl<A> Chan<A> {
         }
     }
 
-    /// Re-queue the given message.
+    /// Cancel the given [`WaitingReceiver`].
     ///
     /// Normally, messages are delivered from the inbox straight to the actor. It can however happen
-    /// that this process gets cancelled. In that case, this function can be used to re-queue the
-    /// given message so it does not get lost.
+    /// that this process gets cancelled. In that case, this function re-queues a message that the
+    /// receiver was already given so it does not get lost.
     ///
     /// Note that the ordering of messages in the queues may be slightly off with this function.
-    pub fn requeue_message(&self, msg: MessageToOne<A>) {
+    pub fn cancel_receiver(&self, receiver: WaitingReceiver<A>) {
+        // Messages are given to receivers with `inner` locked, so none can slip in between looking
+        // for one and dropping the receiver.
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
-        if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.push_unicast_front(msg);
+        if let Some(msg) = receiver.cancel() {
+            if let Err(msg) = inner.try_fulfill_receiver(msg) {
+                inner.push_unicast_front(msg);
+            }
         }
     }
 
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index ebed76e..261705b 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -59,8 +59,9 @@ impl<A> WaitingReceiver<A> {
     /// receiver has not been polled since.
     ///
     /// It is important to call this message over just dropping the [`WaitingReceiver`] as this
-    /// message would otherwise be dropped.
-    pub fn cancel(&mut self) -> Option<MessageToOne<A>> {
+    /// message would otherwise be dropped. The channel must be locked for as long as this takes, see
+    /// [`Chan::cancel_receiver`](crate::chan::Chan::cancel_receiver).
+    pub fn cancel(mut self) -> Option<MessageToOne<A>> {
         match self.0.try_recv() {
             Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),
             _ => None,
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 2438322..9c11fff 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -79,7 +79,7 @@ enum Receiving<A> {
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
     broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
-    waiting_receiver: WaitingReceiver<A>,
+    waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
@@ -91,7 +91,12 @@ impl<A> Future for Waiting<A> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
 
-        let maybe_message = futures_util::ready!(this.waiting_receiver.poll(
+        let waiting_receiver = this
+            .waiting_receiver
+            .as_mut()
+            .expect("to not be polled after completion");
+
+        let maybe_message = futures_util::ready!(waiting_receiver.poll(
             this.channel
                 .as_mut()
                 .expect("to not be polled after completion"),
@@ -121,11 +126,9 @@ impl<A> Future for Waiting<A> {
 
 impl<A> Drop for Waiting<A> {
     fn drop(&mut self) {
-        if let Some(msg) = self.waiting_receiver.cancel() {
-            self.channel
-                .as_mut()
-                .expect("to not have message on drop but channel is gone")
-                .requeue_message(msg);
+        // No channel means that we completed, there is nothing left to cancel then.
+        if let (Some(channel), Some(receiver)) = (&self.channel, self.waiting_receiver.take()) {
+            channel.cancel_receiver(receiver);
         }
     }
 }
@@ -153,7 +156,7 @@ impl<A> Future for Receiving<A> {
                         *this = Receiving::Waiting(Waiting {
                             channel: Some(channel),
                             broadcast_mailbox: Some(broadcast_mailbox),
-                            waiting_receiver: waiting,
+                            waiting_receiver: Some(waiting),
                         });
                     }
                 },
-- 
2.43.0


From ab99ac08a52db94ad6d48df850e1b48513816adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 07/10] fix: do not drop messages with the channel or a waiting
 sender locked

The destructor of a message may use the library, for example by owning an address
of the same actor, and then deadlocked on the lock that was still being held.
---
 xtra/src/chan.rs                | 12 +++++++---
 xtra/src/chan/waiting_sender.rs | 40 +++++++++++++++++++++------------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 5f30280..615f553 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -262,12 +262,18 @@ impl<A> Chan<A> {
         self.on_shutdown.notify(usize::MAX);
 
         // Let any outstanding messages drop
-        inner.unicast_queue.clear();
+        let unicast_queue = mem::take(&mut inner.unicast_queue);
         inner.broadcast_queues.clear();
 
         // Close (and potentially wake) outstanding waiting senders
-        inner.waiting_send_to_one.clear();
-        inner.waiting_send_to_all.clear();
+        let waiting_send_to_one = mem::take(&mut inner.waiting_send_to_one);
+        let waiting_send_to_all = mem::take(&mut inner.waiting_send_to_all);
+
+        // Dropping a message runs user code which may use this very channel: unlock it first.
+        drop(inner);
+        drop(unicast_queue);
+        drop(waiting_send_to_one);
+        drop(waiting_send_to_all);
     }
 
     pub fn disconnect_listener(&self) -> Option<EventListener> {
diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index eedd217..04b2524 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -30,11 +30,11 @@ impl<M> Handle<M> {
     /// This may return `None` in case the [`WaitingSender`] is no longer active, has already been closed or the message was already taken.
     pub fn take_message(self) -> Option<M> {
         let inner = self.0.upgrade()?;
-        let mut this = inner.lock();
+        let previous = mem::replace(&mut *inner.lock(), Inner::Delivered);
 
-        match mem::replace(&mut *this, Inner::Delivered) {
-            Inner::Active { mut waker, message } => {
-                if let Some(waker) = waker.take() {
+        match previous {
+            Inner::Active { waker, message } => {
+                if let Some(waker) = waker {
                     waker.wake();
                 }
 
@@ -48,22 +48,34 @@ impl<M> Handle<M> {
 impl<M> Drop for Handle<M> {
     fn drop(&mut self) {
         if let Some(inner) = self.0.upgrade() {
-            let mut this = inner.lock();
-
-            match &*this {
-                Inner::Active { waker, .. } => {
-                    if let Some(waker) = waker {
-                        waker.wake_by_ref();
-                    }
-                    *this = Inner::Closed;
+            let previous = {
+                let mut this = inner.lock();
+
+                match &*this {
+                    Inner::Active { .. } => mem::replace(&mut *this, Inner::Closed),
+                    Inner::Delivered | Inner::Closed => return,
                 }
-                Inner::Delivered => {}
-                Inner::Closed => {}
+            };
+
+            // Dropping the message runs user code, which must not happen with `inner` locked.
+            if let Inner::Active {
+                waker: Some(waker), ..
+            } = &previous
+            {
+                waker.wake_by_ref();
             }
         };
     }
 }
 
+impl<M> Drop for WaitingSender<M> {
+    fn drop(&mut self) {
+        // A `Handle` may be looking at the message right now, with the channel locked. Take the
+        // message out, such that it is always us who drop it and never the `Handle`.
+        let _previous = mem::replace(&mut *self.0.lock(), Inner::Closed);
+    }
+}
+
 impl<M> Handle<M>
 where
     M: HasPriority,
-- 
2.43.0


From 3296409d8054e1f19618d750fa20f6f6ae72cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 08/10] fix: let go of the broadcasts of a mailbox as soon as
 it is dropped

The length of the longest broadcast queue was only computed anew when some other
actor received a broadcast. Until then len() counted messages that nobody would
ever handle, and broadcasts blocked behind a slow actor stayed blocked after its
mailbox was dropped. Deregister the queue when it is dropped.
---
 xtra/src/chan.rs        | 80 +++++++++++++++++++++++++++++------------
 xtra/src/chan/ptr.rs    |  7 +++-
 xtra/src/mailbox.rs     |  6 ++--
 xtra/src/recv_future.rs | 14 ++++----
 4 files changed, 73 insertions(+), 34 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 615f553..1395206 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -8,8 +8,9 @@ mod waiting_sender;
 
 use std::cmp::Ordering;
 use std::collections::{BinaryHeap, VecDeque};
+use std::ops::Deref;
 use std::sync::atomic::AtomicUsize;
-use std::sync::{atomic, Arc, Mutex, Weak};
+use std::sync::{atomic, Arc, Mutex};
 use std::{cmp, mem};
 
 use event_listener::{Event, EventListener};
@@ -37,6 +38,36 @@ pub fn new<A>(capacity: Option<usize>) -> (Ptr<A, TxStrong>, Ptr<A, Rx>) {
     (tx, rx)
 }
 
+/// A queue of broadcast messages which is registered with its channel until it is dropped.
+pub struct BroadcastMailbox<A> {
+    queue: Arc<BroadcastQueue<A>>,
+    chan: Arc<Chan<A>>,
+}
+
+impl<A> BroadcastMailbox<A> {
+    /// Creates a new broadcast mailbox on the given channel.
+    fn new(chan: Arc<Chan<A>>) -> Self {
+        let queue = Arc::new(spin::Mutex::new(BinaryHeap::new()));
+        chan.chan.lock().unwrap().broadcast_queues.push(queue.clone());
+
+        Self { queue, chan }
+    }
+}
+
+impl<A> Deref for BroadcastMailbox<A> {
+    type Target = BroadcastQueue<A>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.queue
+    }
+}
+
+impl<A> Drop for BroadcastMailbox<A> {
+    fn drop(&mut self) {
+        self.chan.remove_broadcast_queue(&self.queue);
+    }
+}
+
 // Public because of private::RefCounterInner. This should never actually be exported, though.
 pub struct Chan<A> {
     chan: Mutex<Inner<A>>,
@@ -90,16 +121,23 @@ impl<A> Chan<A> {
         self.shutdown_waiting_receivers();
     }
 
-    /// Creates a new broadcast mailbox on this channel.
-    pub fn new_broadcast_mailbox(&self) -> Arc<BroadcastQueue<A>> {
-        let mailbox = Arc::new(spin::Mutex::new(BinaryHeap::new()));
-        self.chan
-            .lock()
-            .unwrap()
-            .broadcast_queues
-            .push(Arc::downgrade(&mailbox));
+    /// Removes the queue of a [`BroadcastMailbox`] that is going away.
+    fn remove_broadcast_queue(&self, queue: &Arc<BroadcastQueue<A>>) {
+        let mut inner = match self.chan.lock() {
+            Ok(lock) => lock,
+            Err(_) => return, // Poisoned, ignore
+        };
+
+        inner.broadcast_queues.retain(|q| !Arc::ptr_eq(q, queue));
+        inner.broadcast_tail = inner.longest_broadcast_queue();
 
-        mailbox
+        // This may have been the slowest receiver, in which case there is room for more now.
+        while !inner.broadcast_queues.is_empty() && !inner.is_broadcast_full() {
+            match inner.try_take_waiting_broadcast_message() {
+                Some(m) => inner.send_broadcast(m),
+                None => break,
+            }
+        }
     }
 
     pub fn try_send_to_one(
@@ -263,7 +301,8 @@ impl<A> Chan<A> {
 
         // Let any outstanding messages drop
         let unicast_queue = mem::take(&mut inner.unicast_queue);
-        inner.broadcast_queues.clear();
+        let broadcast_queues = mem::take(&mut inner.broadcast_queues);
+        inner.broadcast_tail = 0;
 
         // Close (and potentially wake) outstanding waiting senders
         let waiting_send_to_one = mem::take(&mut inner.waiting_send_to_one);
@@ -272,6 +311,7 @@ impl<A> Chan<A> {
         // Dropping a message runs user code which may use this very channel: unlock it first.
         drop(inner);
         drop(unicast_queue);
+        drop(broadcast_queues);
         drop(waiting_send_to_one);
         drop(waiting_send_to_all);
     }
@@ -330,7 +370,7 @@ struct Inner<A> {
     waiting_send_to_all: VecDeque<waiting_sender::Handle<MessageToAll<A>>>,
     waiting_receivers_handles: VecDeque<waiting_receiver::Handle<A>>,
     unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
-    broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
+    broadcast_queues: Vec<Arc<BroadcastQueue<A>>>,
     broadcast_tail: usize,
     /// Position of the next message to go to the back of a queue.
     back_position: i64,
@@ -406,9 +446,7 @@ impl<A> Inner<A> {
         let mut longest = 0;
 
         for queue in &self.broadcast_queues {
-            if let Some(queue) = queue.upgrade() {
-                longest = cmp::max(longest, queue.lock().len());
-            }
+            longest = cmp::max(longest, queue.lock().len());
         }
 
         longest
@@ -417,19 +455,15 @@ impl<A> Inner<A> {
     fn send_broadcast(&mut self, m: MessageToAll<A>) {
         let position = self.next_back_position();
 
-        self.broadcast_queues.retain(|queue| match queue.upgrade() {
-            Some(q) => {
-                q.lock().push(ByPriority::new(m.clone(), position));
-                true
-            }
-            None => false, // The corresponding receiver has been dropped - remove it
-        });
+        for queue in &self.broadcast_queues {
+            queue.lock().push(ByPriority::new(m.clone(), position));
+        }
 
         for rx in mem::take(&mut self.waiting_receivers_handles) {
             let _ = rx.notify_new_broadcast();
         }
 
-        self.broadcast_tail += 1;
+        self.broadcast_tail = self.longest_broadcast_queue();
     }
 
     fn try_fulfill_receiver(&mut self, mut msg: MessageToOne<A>) -> Result<(), MessageToOne<A>> {
diff --git a/xtra/src/chan/ptr.rs b/xtra/src/chan/ptr.rs
index 9d4dd67..ec47698 100644
--- a/xtra/src/chan/ptr.rs
+++ b/xtra/src/chan/ptr.rs
@@ -3,7 +3,7 @@ use std::sync::{atomic, Arc};
 
 use private::RefCounter as _;
 
-use crate::chan::Chan;
+use crate::chan::{BroadcastMailbox, Chan};
 
 /// A reference-counted pointer to the channel that is generic over its reference counting policy.
 ///
@@ -36,6 +36,11 @@ impl<A> Ptr<A, Rx> {
 
         Self { ref_counter, inner }
     }
+
+    /// Creates a new broadcast mailbox on this channel.
+    pub fn new_broadcast_mailbox(&self) -> Arc<BroadcastMailbox<A>> {
+        Arc::new(BroadcastMailbox::new(self.inner.clone()))
+    }
 }
 
 impl<A, Rc> Ptr<A, Rc>
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index e75e966..6e180b6 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::chan::{self, BroadcastQueue, Rx};
+use crate::chan::{self, BroadcastMailbox, Rx};
 use crate::recv_future::ReceiveFuture;
 use crate::{Address, WeakAddress};
 
@@ -10,7 +10,7 @@ use crate::{Address, WeakAddress};
 /// Think of [`Address`] and [`Mailbox`] as an MPMC channel.
 pub struct Mailbox<A> {
     inner: chan::Ptr<A, Rx>,
-    broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    broadcast_mailbox: Arc<BroadcastMailbox<A>>,
 }
 
 impl<A> Mailbox<A> {
@@ -57,7 +57,7 @@ impl<A> Mailbox<A> {
 
     pub(crate) fn from_parts(
         chan: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     ) -> Self {
         Self {
             inner: chan,
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 9c11fff..c6fdf02 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -7,7 +7,7 @@ use std::task::{Context, Poll};
 use futures_core::FusedFuture;
 use futures_util::FutureExt;
 
-use crate::chan::{self, ActorMessage, BroadcastQueue, Rx, WaitingReceiver};
+use crate::chan::{self, ActorMessage, BroadcastMailbox, Rx, WaitingReceiver};
 
 /// A future which will resolve to the next message to be handled by the actor.
 ///
@@ -31,13 +31,13 @@ pub struct Message<A> {
     pub(crate) inner: ActorMessage<A>,
 
     pub(crate) channel: chan::Ptr<A, Rx>,
-    pub(crate) broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    pub(crate) broadcast_mailbox: Arc<BroadcastMailbox<A>>,
 }
 
 impl<A> ReceiveFuture<A> {
     pub(crate) fn new(
         channel: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     ) -> Self {
         Self(Receiving::New {
             channel,
@@ -62,7 +62,7 @@ impl<A> Future for ReceiveFuture<A> {
 enum Receiving<A> {
     New {
         channel: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     },
     Waiting(Waiting<A>),
     Done,
@@ -78,14 +78,14 @@ enum Receiving<A> {
 #[must_use = "Futures do nothing unless polled"]
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
-    broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
+    broadcast_mailbox: Option<Arc<BroadcastMailbox<A>>>,
     waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
     type Output = Result<
-        (ActorMessage<A>, chan::Ptr<A, Rx>, Arc<BroadcastQueue<A>>),
-        (chan::Ptr<A, Rx>, Arc<BroadcastQueue<A>>),
+        (ActorMessage<A>, chan::Ptr<A, Rx>, Arc<BroadcastMailbox<A>>),
+        (chan::Ptr<A, Rx>, Arc<BroadcastMailbox<A>>),
     >;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-- 
2.43.0


From 2bab2438ed3ec9b47ff0dc09316e9301280a4d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:49 +0000
Subject: [PATCH 09/10] fix: look for messages once more before stopping for
 want of addresses

An idle receive that had been told that the last strong address is gone made its
actor stop even if another receive had since given a message back, or a blocked
broadcast had been let in. That message was lost although an actor was there to
handle it. Look at the mailbox again, it yields the shutdown once it is empty.
---
 xtra/src/chan/waiting_receiver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index 261705b..068c975 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -86,7 +86,8 @@ impl<A> WaitingReceiver<A> {
 
         let actor_message = match ctrl_msg {
             CtrlMsg::NewMessage(msg) => ActorMessage::ToOneActor(msg),
-            CtrlMsg::Shutdown => ActorMessage::Shutdown,
+            // There may be a message again that another receiver has given back, look for it first.
+            CtrlMsg::Shutdown => return Poll::Ready(None),
             CtrlMsg::NewBroadcast => match chan.next_broadcast_message(broadcast_mailbox) {
                 Some(msg) => ActorMessage::ToAllActors(msg),
                 None => return Poll::Ready(None),
-- 
2.43.0


From 0ab340f3ebddbeb7c5fd44ee0d643ac61896f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:26 +0000
Subject: [PATCH 10/10] fix: derive(Actor) names the Send of core, whatever is
 called Send in scope

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index f40a4a8..1f31291 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -41,7 +41,7 @@ fn send_and_static_bounds(input: &DeriveInput) -> Vec<WherePredicate> {
         })
         .map(|ident| {
             parse_quote! {
-                #ident: Send + 'static
+                #ident: ::core::marker::Send + 'static
             }
         })
         .collect::<Vec<WherePredicate>>()
-- 
2.43.0

