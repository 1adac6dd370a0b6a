//! Reference model of an address: queues, blocked senders, idle receivers, counts.
//! It knows nothing of the crate under test.  Freedom that the API leaves (which idle receiver gets
//! a message, the order of equal-priority messages that is not promised) is resolved by what was
//! observed, after checking that the observed choice was allowed.
use std::collections::BTreeMap;

pub type Id = u32;
pub type Wid = usize;
pub type Mb = usize;
pub type Ch = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    /// handled twice
    Dup,
    /// handled although never accepted
    Phantom,
    /// handled by an actor of another address, or stolen from another receiver
    WrongActor,
    /// a broadcast handled by a mailbox that should not have it, or twice
    BcastWrong,
    /// a receive that had a message available stayed pending, or a message vanished
    LostMsg,
    /// same, for a broadcast
    LostBcast,
    /// stop (requested, or because no strong address is left) available but receive stayed pending
    LostStop,
    LostStopAll,
    /// receive ready although nothing was available
    PhantomRecv,
    /// stopped although nothing said so
    SpuriousStop,
    /// stopped before handling what was accepted
    UndrainedStop,
    /// queued message taken before a requested stop
    StopAllNotFirst,
    OrderDefault,
    OrderPrio,
    /// result of a send
    SendResult,
    /// send pending although its fate is decided
    SendPending,
    /// blocked although there was room, or accepted although full
    Acceptance,
    BcastAcceptance,
    Len,
    Capacity,
    Connected,
    Upgrade,
    /// a pending future that can progress was not woken
    WakeRecv,
    WakeRecvStop,
    WakeRecvStopAll,
    WakeBlocked,
    WakeReply,
    WakeJoin,
    Lifecycle,
    Overlap,
    StopSelfIgnored,
    Reply,
    Join,
    Scoped,
    ScopedPolled,
    Leak,
    DropTime,
    LibPanic,
    Channel,
    /// select or join
    Select,
    Sink,
    /// is_terminated
    Fused,
}

#[derive(Clone, Debug)]
pub struct Div {
    pub kind: Kind,
    pub msg: String,
    /// Not a divergence: the observation could not be resolved; the case is abandoned.
    pub abort: bool,
}

pub fn div<T>(kind: Kind, msg: impl Into<String>) -> Result<T, Div> {
    Err(Div { kind, msg: msg.into(), abort: false })
}
pub fn abort<T>(msg: impl Into<String>) -> Result<T, Div> {
    Err(Div { kind: Kind::Len, msg: msg.into(), abort: true })
}
pub type R<T = ()> = Result<T, Div>;

macro_rules! feats {
    ($($n:ident),* $(,)?) => {
        #[allow(dead_code)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(usize)]
        pub enum F { $($n),*, N }
        pub const FEAT_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
feats!(
    Handled, HandledB, QueuedDefault, Backlog4, BlockedU, BlockedB, AdmittedU, AdmittedB,
    AdmitChoice, DroppedBlocked, Requeue, RequeueToIdle, GivenTaken, Notified, MixedPrio, PrioTaken,
    TieUB, BcastMulti, BcastLag, BcastLateClone, StopAllIdle, StopAllBusy,
    StopAllQueued, StopSelf, StrongZero, StrongZeroQueued, StrongZeroBlocked, DrainTaken, UpOk,
    UpFail, EitherStrong, WeakSend, CloseQueued, CloseBlocked, JoinReadyAtOnce,
    JoinWoken, ScopedSome, ScopedNone, Panic, DispDropped, ActorDropped, HeldDropped, Interrupted,
    Disconnected, Replied, StartFail, StartYield, Yielded, ChanSend, Detached, RecvDropped,
    RecvDroppedGiven, RecvDroppedNotified, WakerSwapped, NestedSend, NestedBcast, TwoOnAddr, Full,
    MbDroppedLagging, Ran, Multi, Either, AfterFault,
    SelRan, SelNested, SelHandled, SelLeft, SelLeftGiven, SelRight, JoinAfterStop, Completed, SinkSend, SinkWaits, SinkDone, SinkErr,
);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    New,
    Cancelled,
    Blocked,
    Queued,
    Given(Wid),
    Taken,
    Done,
    Interrupted,
    Disc,
    /// broadcast accepted
    BAcc,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub bc: bool,
    pub prio: u32,
    pub seq: u64,
    pub chan: Ch,
    pub st: St,
    pub requeued: bool,
    /// mailboxes that handled (or took) this broadcast
    pub seen: Vec<Mb>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WSt {
    New,
    Idle,
    Given(Id),
    Notified,
    Shut,
    Gone,
}

#[derive(Clone, Debug)]
pub struct Waiter {
    pub mb: Mb,
    pub st: WSt,
    /// polled and pending since
    pub pending: bool,
    /// when it became idle
    pub since: u64,
}

#[derive(Clone, Debug)]
pub struct MbM {
    pub chan: Ch,
    pub holders: usize,
    pub bq: Vec<Id>,
    pub stops: usize,
}

#[derive(Clone, Debug)]
pub struct ChanM {
    pub cap: Option<usize>,
    pub strong: usize,
    pub mbs: Vec<Mb>,
    pub uq: Vec<Id>,
    pub blocked_u: Vec<Id>,
    pub blocked_b: Vec<Id>,
    pub closed: bool,
    pub ever_fault: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SendOut {
    Disc,
    Accepted,
    Blocked,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ident {
    Msg(Id),
    Stop,
}

#[derive(Default, Debug)]
pub struct Options {
    pub msgs: Vec<Id>,
    pub stop: bool,
}
impl Options {
    pub fn is_empty(&self) -> bool {
        self.msgs.is_empty() && !self.stop
    }
    pub fn single(&self) -> Option<Ident> {
        match (self.msgs.as_slice(), self.stop) {
            ([m], false) => Some(Ident::Msg(*m)),
            ([], true) => Some(Ident::Stop),
            _ => None,
        }
    }
}

pub struct Model {
    pub chans: Vec<ChanM>,
    pub mbs: Vec<MbM>,
    pub msgs: BTreeMap<Id, Msg>,
    pub waiters: Vec<Waiter>,
    pub feats: [u32; F::N as usize],
    /// the model had to guess which of several receivers was given a message
    pub guessed: bool,
    seq: u64,
}

impl Model {
    pub fn new() -> Self {
        Model {
            chans: vec![],
            mbs: vec![],
            msgs: BTreeMap::new(),
            waiters: vec![],
            feats: [0; F::N as usize],
            guessed: false,
            seq: 0,
        }
    }
    pub fn f(&mut self, f: F) {
        self.feats[f as usize] += 1;
    }
    pub fn add_chan(&mut self, cap: Option<usize>) -> Ch {
        self.chans.push(ChanM {
            cap,
            strong: 0,
            mbs: vec![],
            uq: vec![],
            blocked_u: vec![],
            blocked_b: vec![],
            closed: false,
            ever_fault: false,
        });
        self.chans.len() - 1
    }
    /// A new mailbox, with one holder.
    pub fn add_mb(&mut self, chan: Ch) -> Mb {
        self.mbs.push(MbM { chan, holders: 1, bq: vec![], stops: 0 });
        let mb = self.mbs.len() - 1;
        self.chans[chan].mbs.push(mb);
        if self.msgs.values().any(|m| m.bc && m.chan == chan && m.st == St::BAcc) {
            self.f(F::BcastLateClone);
        }
        mb
    }
    pub fn add_waiter(&mut self, mb: Mb) -> Wid {
        self.waiters.push(Waiter { mb, st: WSt::New, pending: false, since: 0 });
        self.waiters.len() - 1
    }
    pub fn add_msg(&mut self, id: Id, bc: bool, prio: u32, chan: Ch) {
        let m = Msg {
            bc,
            prio,
            seq: 0,
            chan,
            st: St::New,
            requeued: false,
            seen: vec![],
        };
        self.msgs.insert(id, m);
    }
    pub fn connected(&self, c: Ch) -> bool {
        self.chans[c].strong > 0 && !self.chans[c].mbs.is_empty()
    }
    pub fn longest(&self, c: Ch) -> usize {
        self.chans[c].mbs.iter().map(|&m| self.mbs[m].bq.len() + self.mbs[m].stops).max().unwrap_or(0)
    }
    pub fn len(&self, c: Ch) -> usize {
        if self.chans[c].closed {
            0
        } else {
            self.chans[c].uq.len() + self.longest(c)
        }
    }
    fn idle(&self, c: Ch) -> Vec<Wid> {
        (0..self.waiters.len())
            .filter(|&w| self.waiters[w].st == WSt::Idle && self.mbs[self.waiters[w].mb].chan == c)
            .collect()
    }
    fn set_msg(&mut self, id: Id, st: St) {
        self.msgs.get_mut(&id).unwrap().st = st;
    }

    // ---- strong handles -------------------------------------------------------------------------
    pub fn strong_inc(&mut self, c: Ch) {
        self.chans[c].strong += 1;
    }
    pub fn strong_dec(&mut self, c: Ch) {
        self.chans[c].strong -= 1;
        if self.chans[c].strong == 0 {
            if !self.chans[c].mbs.is_empty() {
                self.f(F::StrongZero);
                if !self.chans[c].uq.is_empty() {
                    self.f(F::StrongZeroQueued);
                }
                if !self.chans[c].blocked_u.is_empty() || !self.chans[c].blocked_b.is_empty() {
                    self.f(F::StrongZeroBlocked);
                }
            }
            for w in self.idle(c) {
                self.waiters[w].st = WSt::Shut;
            }
        }
    }

    // ---- mailboxes ------------------------------------------------------------------------------
    pub fn hold_inc(&mut self, mb: Mb) {
        self.mbs[mb].holders += 1;
    }
    pub fn hold_dec(&mut self, mb: Mb) {
        self.mbs[mb].holders -= 1;
        if self.mbs[mb].holders > 0 {
            return;
        }
        let c = self.mbs[mb].chan;
        self.chans[c].mbs.retain(|&m| m != mb);
        if self.chans[c].mbs.is_empty() {
            self.close(c);
        } else {
            if !self.mbs[mb].bq.is_empty() {
                self.f(F::MbDroppedLagging);
            }
            self.admit_b(c);
        }
    }
    fn close(&mut self, c: Ch) {
        self.chans[c].closed = true;
        let uq = std::mem::take(&mut self.chans[c].uq);
        if !uq.is_empty() {
            self.f(F::CloseQueued);
        }
        for id in uq {
            self.set_msg(id, St::Interrupted);
        }
        let b: Vec<Id> = std::mem::take(&mut self.chans[c].blocked_u)
            .into_iter()
            .chain(std::mem::take(&mut self.chans[c].blocked_b))
            .collect();
        if !b.is_empty() {
            self.f(F::CloseBlocked);
        }
        for id in b {
            self.set_msg(id, St::Disc);
        }
    }

    // ---- sending --------------------------------------------------------------------------------
    /// First poll of a send.  `woken` says which receivers' current wakers have been woken.
    pub fn first_poll_uni(&mut self, id: Id, woken: &dyn Fn(Wid) -> bool) -> R<SendOut> {
        let c = self.msgs[&id].chan;
        self.seq += 1;
        let seq = self.seq;
        self.msgs.get_mut(&id).unwrap().seq = seq;
        if !self.connected(c) {
            self.set_msg(id, St::Disc);
            self.f(F::Disconnected);
            return Ok(SendOut::Disc);
        }
        if self.chans[c].ever_fault {
            self.f(F::AfterFault);
        }
        if self.give(id, woken)? {
            return Ok(SendOut::Accepted);
        }
        let full = self.chans[c].cap.is_some_and(|n| self.chans[c].uq.len() >= n);
        if full {
            self.f(F::Full);
            self.f(F::BlockedU);
            self.set_msg(id, St::Blocked);
            self.chans[c].blocked_u.push(id);
            Ok(SendOut::Blocked)
        } else {
            self.enqueue(id);
            Ok(SendOut::Accepted)
        }
    }
    fn enqueue(&mut self, id: Id) {
        let c = self.msgs[&id].chan;
        self.set_msg(id, St::Queued);
        self.chans[c].uq.push(id);
        if self.msgs[&id].prio == 0 {
            self.f(F::QueuedDefault);
        }
        let d = self.chans[c].uq.iter().filter(|i| self.msgs[i].prio == 0).count();
        if d >= 4 {
            self.f(F::Backlog4);
        }
    }
    /// Hand the message to an idle receiver, if there is one.
    fn give(&mut self, id: Id, woken: &dyn Fn(Wid) -> bool) -> R<bool> {
        let c = self.msgs[&id].chan;
        let idle = self.idle(c);
        if idle.is_empty() {
            return Ok(false);
        }
        let cand: Vec<Wid> = idle.iter().copied().filter(|&w| woken(w)).collect();
        match cand.as_slice() {
            [] => div(
                Kind::WakeRecv,
                format!("message {id} arrived while receivers {idle:?} were idle, but none of them was woken"),
            ),
            [w] => {
                self.waiters[*w].st = WSt::Given(id);
                self.set_msg(id, St::Given(*w));
                Ok(true)
            }
            _ => {
                // Some of them were woken for another reason (the last strong address went at the
                // same time).  Assume the one that has waited longest; what follows is a guess.
                self.guessed = true;
                let w = *cand.iter().min_by_key(|&&w| self.waiters[w].since).unwrap();
                self.waiters[w].st = WSt::Given(id);
                self.set_msg(id, St::Given(w));
                Ok(true)
            }
        }
    }
    pub fn first_poll_bcast(&mut self, id: Id) -> SendOut {
        let c = self.msgs[&id].chan;
        self.seq += 1;
        let seq = self.seq;
        self.msgs.get_mut(&id).unwrap().seq = seq;
        if !self.connected(c) {
            self.set_msg(id, St::Disc);
            self.f(F::Disconnected);
            return SendOut::Disc;
        }
        if self.chans[c].cap.is_some_and(|n| self.longest(c) >= n) {
            self.f(F::BlockedB);
            self.set_msg(id, St::Blocked);
            self.chans[c].blocked_b.push(id);
            SendOut::Blocked
        } else {
            self.accept_b(id);
            SendOut::Accepted
        }
    }
    fn accept_b(&mut self, id: Id) {
        let c = self.msgs[&id].chan;
        self.set_msg(id, St::BAcc);
        let mbs = self.chans[c].mbs.clone();
        if mbs.len() >= 2 {
            self.f(F::BcastMulti);
            if mbs.iter().any(|&m| !self.mbs[m].bq.is_empty()) {
                self.f(F::BcastLag);
            }
        }
        for m in mbs {
            self.mbs[m].bq.push(id);
        }
        for w in self.idle(c) {
            self.waiters[w].st = WSt::Notified;
            self.f(F::Notified);
        }
    }
    /// A send future is dropped.
    pub fn cancel_send(&mut self, id: Id) {
        let st = self.msgs[&id].st;
        let c = self.msgs[&id].chan;
        match st {
            St::New => self.set_msg(id, St::Cancelled),
            St::Blocked => {
                self.f(F::DroppedBlocked);
                self.set_msg(id, St::Cancelled);
                self.chans[c].blocked_u.retain(|&i| i != id);
                self.chans[c].blocked_b.retain(|&i| i != id);
            }
            _ => {}
        }
    }
    fn pick_blocked(&self, q: &[Id]) -> Id {
        // highest priority first; among equals the one that has waited longest
        *q.iter()
            .min_by_key(|i| (std::cmp::Reverse(self.msgs[i].prio), self.msgs[i].seq))
            .unwrap()
    }
    fn admit_u(&mut self, c: Ch) {
        while !self.chans[c].blocked_u.is_empty()
            && self.chans[c].cap.is_some_and(|n| self.chans[c].uq.len() < n)
        {
            if self.chans[c].blocked_u.len() > 1 {
                self.f(F::AdmitChoice);
            }
            let id = self.pick_blocked(&self.chans[c].blocked_u);
            self.chans[c].blocked_u.retain(|&i| i != id);
            self.f(F::AdmittedU);
            self.enqueue(id);
        }
    }
    fn admit_b(&mut self, c: Ch) {
        while !self.chans[c].blocked_b.is_empty()
            && self.chans[c].cap.is_some_and(|n| self.longest(c) < n)
        {
            if self.chans[c].blocked_b.len() > 1 {
                self.f(F::AdmitChoice);
            }
            let id = self.pick_blocked(&self.chans[c].blocked_b);
            self.chans[c].blocked_b.retain(|&i| i != id);
            self.f(F::AdmittedB);
            self.accept_b(id);
        }
    }
    pub fn stop_all(&mut self, c: Ch) {
        if self.chans[c].strong == 0 {
            return;
        }
        for m in self.chans[c].mbs.clone() {
            self.mbs[m].stops += 1;
        }
        if !self.chans[c].uq.is_empty() {
            self.f(F::StopAllQueued);
        }
        for w in self.idle(c) {
            self.f(F::StopAllIdle);
            self.waiters[w].st = WSt::Notified;
        }
        if self.chans[c].mbs.len() > 1 {
            self.f(F::StopAllBusy);
        }
    }

    // ---- receiving ------------------------------------------------------------------------------
    fn top_b(&self, mb: Mb) -> Options {
        let m = &self.mbs[mb];
        if m.stops > 0 {
            return Options { msgs: vec![], stop: true };
        }
        let p = m.bq.iter().map(|i| self.msgs[i].prio).max();
        Options {
            msgs: m.bq.iter().copied().filter(|i| Some(self.msgs[i].prio) == p).collect(),
            stop: false,
        }
    }
    fn best(&self, mb: Mb) -> Options {
        let m = &self.mbs[mb];
        let c = &self.chans[m.chan];
        if m.stops > 0 {
            return Options { msgs: vec![], stop: true };
        }
        let p = m.bq.iter().chain(&c.uq).map(|i| self.msgs[i].prio).max();
        let Some(p) = p else {
            return Options { msgs: vec![], stop: c.strong == 0 };
        };
        let mut msgs: Vec<Id> =
            m.bq.iter().copied().filter(|i| self.msgs[i].prio == p).collect();
        let first = c
            .uq
            .iter()
            .copied()
            .filter(|i| self.msgs[i].prio == p && !self.msgs[i].requeued)
            .min_by_key(|i| self.msgs[i].seq);
        for &i in &c.uq {
            let x = &self.msgs[&i];
            if x.prio == p && (p > 0 || x.requeued || Some(i) == first) {
                msgs.push(i);
            }
        }
        Options { msgs, stop: false }
    }
    /// What this receiver may produce now.
    pub fn options(&self, w: Wid) -> Options {
        let wt = &self.waiters[w];
        match wt.st {
            WSt::New | WSt::Idle => self.best(wt.mb),
            WSt::Given(m) => Options { msgs: vec![m], stop: false },
            // what was given back or let in since it was told is still handled first
            WSt::Shut => self.best(wt.mb),
            WSt::Notified => {
                let mut b = self.best(wt.mb);
                let t = self.top_b(wt.mb);
                for m in t.msgs {
                    if !b.msgs.contains(&m) {
                        b.msgs.push(m);
                    }
                }
                b
            }
            WSt::Gone => Options::default(),
        }
    }
    /// A receive was polled: was it right to be ready / pending?
    pub fn recv_polled(&mut self, w: Wid, ready: bool) -> R {
        let o = self.options(w);
        if ready {
            if o.is_empty() {
                return div(Kind::PhantomRecv, format!("receive {w} completed though nothing was available to it"));
            }
            return Ok(());
        }
        if !o.is_empty() {
            let mb = self.waiters[w].mb;
            let c = self.mbs[mb].chan;
            let k = if o.stop {
                if self.mbs[mb].stops > 0 {
                    Kind::LostStopAll
                } else {
                    Kind::LostStop
                }
            } else if o.msgs.iter().all(|m| self.msgs[m].bc) {
                Kind::LostBcast
            } else {
                Kind::LostMsg
            };
            return div(
                k,
                format!("receive {w} pending though {o:?} is available to it (strong {})", self.chans[c].strong),
            );
        }
        self.seq += 1;
        let wt = &mut self.waiters[w];
        wt.st = WSt::Idle;
        wt.since = self.seq;
        wt.pending = true;
        Ok(())
    }
    /// A receive produced this.
    pub fn take(&mut self, w: Wid, ident: Ident) -> R {
        let o = self.options(w);
        let mb = self.waiters[w].mb;
        let c = self.mbs[mb].chan;
        match ident {
            Ident::Stop => {
                if !o.stop {
                    let k = if self.mbs[mb].stops == 0 && self.chans[c].strong > 0 {
                        Kind::SpuriousStop
                    } else {
                        Kind::UndrainedStop
                    };
                    return div(
                        k,
                        format!("receiver {w} was told to stop but should have taken {o:?} (strong {})", self.chans[c].strong),
                    );
                }
                if self.mbs[mb].stops > 0 {
                    self.mbs[mb].stops -= 1;
                    self.after_pop_b(c);
                }
            }
            Ident::Msg(id) => {
                let Some(m) = self.msgs.get(&id) else {
                    return div(Kind::Phantom, format!("unknown message {id} handled"));
                };
                if m.chan != c {
                    return div(Kind::WrongActor, format!("message {id} for address {} handled on address {c}", m.chan));
                }
                if !o.msgs.contains(&id) {
                    return self.bad_take(w, id, &o);
                }
                let (bc, prio) = (m.bc, m.prio);
                let others: Vec<u32> = self.mbs[mb]
                    .bq
                    .iter()
                    .chain(&self.chans[c].uq)
                    .filter(|&&i| i != id)
                    .map(|i| self.msgs[i].prio)
                    .collect();
                if others.iter().any(|&p| p < prio) {
                    self.f(F::MixedPrio);
                }
                if prio > 0 {
                    self.f(F::PrioTaken);
                }
                if o.msgs.len() > 1 {
                    self.f(F::TieUB);
                }
                if self.chans[c].strong == 0 {
                    self.f(F::DrainTaken);
                }
                if bc {
                    self.f(F::HandledB);
                    self.mbs[mb].bq.retain(|&i| i != id);
                    self.msgs.get_mut(&id).unwrap().seen.push(mb);
                    self.after_pop_b(c);
                } else {
                    self.f(F::Handled);
                    if let St::Given(_) = self.msgs[&id].st {
                        self.f(F::GivenTaken);
                    } else {
                        self.chans[c].uq.retain(|&i| i != id);
                    }
                    self.set_msg(id, St::Taken);
                    self.admit_u(c);
                }
            }
        }
        let wt = &mut self.waiters[w];
        wt.st = WSt::New;
        wt.pending = false;
        Ok(())
    }
    fn after_pop_b(&mut self, c: Ch) {
        self.admit_b(c);
    }
    fn bad_take(&self, w: Wid, id: Id, o: &Options) -> R {
        let m = &self.msgs[&id];
        let mb = self.waiters[w].mb;
        let detail = format!("receiver {w} (mailbox {mb}, {:?}) took message {id} {m:?}; allowed: {o:?}", self.waiters[w].st);
        if m.bc {
            if m.seen.contains(&mb) {
                return div(Kind::BcastWrong, format!("broadcast handled twice by one mailbox: {detail}"));
            }
            if m.st != St::BAcc {
                return div(Kind::Phantom, format!("broadcast never accepted: {detail}"));
            }
            if !self.mbs[mb].bq.contains(&id) {
                return div(Kind::BcastWrong, format!("broadcast reached a mailbox it was not for: {detail}"));
            }
        } else {
            match m.st {
                St::Taken | St::Done | St::Interrupted => {
                    return div(Kind::Dup, format!("message handled twice: {detail}"))
                }
                St::New | St::Cancelled | St::Blocked | St::Disc | St::BAcc => {
                    return div(Kind::Phantom, format!("message never accepted: {detail}"))
                }
                St::Given(_) => return div(Kind::WrongActor, format!("message was given to another receiver: {detail}")),
                St::Queued => {}
            }
        }
        if let WSt::Given(g) = self.waiters[w].st {
            return div(Kind::OrderPrio, format!("already given message {g}, yet: {detail}"));
        }
        if o.stop {
            return div(
                if self.mbs[mb].stops > 0 { Kind::StopAllNotFirst } else { Kind::OrderPrio },
                detail,
            );
        }
        let best = o.msgs.iter().map(|i| self.msgs[i].prio).max().unwrap_or(0);
        if best > m.prio {
            return div(Kind::OrderPrio, detail);
        }
        div(Kind::OrderDefault, detail)
    }
    /// A receive (or an actor waiting in one) is dropped.
    pub fn drop_waiter(&mut self, w: Wid, woken: &dyn Fn(Wid) -> bool) -> R {
        let st = self.waiters[w].st;
        self.waiters[w].st = WSt::Gone;
        self.waiters[w].pending = false;
        self.f(F::RecvDropped);
        match st {
            WSt::Given(id) => {
                self.f(F::RecvDroppedGiven);
                if self.give(id, woken)? {
                    self.f(F::RequeueToIdle);
                } else {
                    self.f(F::Requeue);
                    self.msgs.get_mut(&id).unwrap().requeued = true;
                    self.enqueue(id);
                }
            }
            WSt::Notified => self.f(F::RecvDroppedNotified),
            _ => {}
        }
        Ok(())
    }
    pub fn done(&mut self, id: Id) {
        if !self.msgs[&id].bc {
            self.set_msg(id, St::Done);
        }
    }
    pub fn interrupted(&mut self, id: Id) {
        if !self.msgs[&id].bc {
            self.set_msg(id, St::Interrupted);
        }
    }
}
