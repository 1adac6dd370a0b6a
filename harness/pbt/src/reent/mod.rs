//! Messages that own handles and futures of the library and whose destructors use it again.
//! Runs on one thread, against the crate compiled with shuttle's locks: taking a lock that is
//! already held is then reported instead of hanging.
use crate::runner::{Engine, Outcome, Verdict};
use crate::sched::x;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use x::{Actor, Address, Handler, Mailbox, WeakAddress};

/// Something a message owns, or something its destructor does; the number is an address.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum P {
    OwnStrong(u8),
    OwnWeak(u8),
    OwnMailbox(u8),
    /// a receive in progress
    OwnRecv(u8),
    /// a send, polled once
    OwnSend(u8),
    OwnSendFresh(u8),
    OwnBcast(u8),
    OwnJoin(u8),
    Query(u8),
    SendTo(u8),
    DetachTo(u8),
    BcastTo(u8),
    Upgrade(u8),
    JoinPoll(u8),
    /// clone the mailbox through the registry, receive once, drop both
    Receive(u8),
    DropMailbox(u8),
    DropAddr(u8),
    DropSend,
    DropRecv,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Scr {
    None,
    Yield,
    StopAll,
    StopSelf,
    /// the handler fails
    Panic,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Send { ch: u8, own: Vec<P>, reply: Vec<P>, scr: Scr, prio: u8, poll: bool, detach: bool },
    Bcast { ch: u8, own: Vec<P>, poll: bool },
    PollSend(u8),
    DropSend(u8),
    Recv(u8),
    PollRecv(u8, bool),
    DropRecv(u8),
    /// take the next message if there is one: handle it, handle it half, or drop it
    Serve(u8, u8),
    CloneMb(u8),
    DropMb(u8),
    CloneAddr(u8),
    DropAddr(u8),
    Join(u8),
    DropJoin(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pub caps: [Option<u8>; 2],
    pub ops: Vec<Op>,
    pub teardown: Vec<u8>,
    /// mailboxes owned by messages only of addresses after the one sent to (so that nothing owns itself)
    pub acyclic: bool,
}

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;
#[derive(Default)]
struct World {
    addrs: [Vec<Address<Act>>; 2],
    mbs: [Vec<(Mailbox<Act>, Option<Act>)>; 2],
    sends: Vec<Fut>,
    recvs: Vec<Fut>,
    joins: Vec<Fut>,
    live: i32,
    dropped_in_lib: u32,
    dropped: u32,
    in_handler: bool,
    in_op: bool,
}
#[derive(Clone)]
struct W(Arc<Mutex<World>>, Arc<[WeakAddress<Act>; 2]>, bool);
impl W {
    /// Never keeps the world locked while anything of the library is dropped.
    fn with<R>(&self, f: impl FnOnce(&mut World) -> R) -> R {
        let mut w = self.0.lock().unwrap_or_else(|e| e.into_inner());
        f(&mut w)
    }
    fn weak(&self, ch: u8) -> &WeakAddress<Act> {
        &self.1[ch as usize % 2]
    }
}

struct Item {
    kind: P,
    own: Option<Box<dyn Any + Send>>,
    w: W,
}
struct Load {
    items: Vec<Item>,
    w: W,
}
impl Load {
    fn new(w: &W, to: u8, ps: &[P]) -> Load {
        w.with(|x| x.live += 1);
        let items = ps.iter().map(|p| Item { kind: *p, own: make(w, to, *p), w: w.clone() }).collect();
        Load { items, w: w.clone() }
    }
}
impl Drop for Load {
    fn drop(&mut self) {
        let n = self.items.len();
        self.items.clear();
        self.w.with(|x| {
            x.live -= 1;
            x.dropped += (n > 0) as u32;
            if n > 0 && x.in_op && !x.in_handler {
                x.dropped_in_lib += 1;
            }
        });
    }
}
fn poll(f: &mut Fut) -> bool {
    let w = std::task::Waker::noop();
    f.as_mut().poll(&mut Context::from_waker(w)).is_ready()
}
fn plain(w: &W, ch: u8) -> M {
    M { load: Load::new(w, ch, &[]), reply: vec![], scr: Scr::None }
}
/// What a message owns is made when the message is.
fn make(w: &W, to: u8, p: P) -> Option<Box<dyn Any + Send>> {
    let mb_ok = |ch: u8| !w.2 || (to % 2 == 0 && ch % 2 == 1);
    Some(match p {
        P::OwnStrong(ch) => Box::new(w.weak(ch).try_upgrade()),
        P::OwnWeak(ch) => Box::new(w.weak(ch).clone()),
        P::OwnMailbox(ch) if mb_ok(ch) => Box::new(w.with(|x| x.mbs[ch as usize % 2].first().map(|m| m.0.clone()))),
        P::OwnRecv(ch) if mb_ok(ch) => {
            let r = w.with(|x| x.mbs[ch as usize % 2].first().map(|m| m.0.next()))?;
            let mut f: Fut = Box::pin(async move { drop(r.await) });
            if poll(&mut f) {
                return None;
            }
            Box::new(f)
        }
        P::OwnSend(ch) | P::OwnSendFresh(ch) => {
            let s = w.weak(ch).send(plain(w, ch));
            let mut f: Fut = Box::pin(async move { drop(s.await) });
            if matches!(p, P::OwnSend(_)) && poll(&mut f) {
                return None;
            }
            Box::new(f)
        }
        P::OwnBcast(ch) => {
            let s = w.weak(ch).broadcast(B { load: Arc::new(Mutex::new(Load::new(w, ch, &[]))) });
            let mut f: Fut = Box::pin(async move { drop(s.await) });
            if poll(&mut f) {
                return None;
            }
            Box::new(f)
        }
        P::OwnJoin(ch) => {
            let j = w.weak(ch).join();
            let mut f: Fut = Box::pin(async move { j.await });
            let _ = poll(&mut f);
            Box::new(f)
        }
        _ => return None,
    })
}
impl Drop for Item {
    fn drop(&mut self) {
        let w = self.w.clone();
        self.own = None;
        match self.kind {
            P::Query(ch) => {
                let a = w.weak(ch);
                let _ = (a.is_connected(), a.len(), a.capacity(), a.is_empty());
            }
            P::SendTo(ch) => {
                let s = w.weak(ch).send(plain(&w, ch));
                let mut f: Fut = Box::pin(async move { drop(s.await) });
                let _ = poll(&mut f);
            }
            P::DetachTo(ch) => {
                let s = w.weak(ch).send(plain(&w, ch)).detach();
                let mut f: Fut = Box::pin(async move { drop(s.await) });
                let _ = poll(&mut f);
            }
            P::BcastTo(ch) => {
                let s = w.weak(ch).broadcast(B { load: Arc::new(Mutex::new(Load::new(&w, ch, &[]))) });
                let mut f: Fut = Box::pin(async move { drop(s.await) });
                let _ = poll(&mut f);
            }
            P::Upgrade(ch) => drop(w.weak(ch).try_upgrade()),
            P::JoinPoll(ch) => {
                let j = w.weak(ch).join();
                let mut f: Fut = Box::pin(async move { j.await });
                let _ = poll(&mut f);
            }
            P::Receive(ch) => {
                let m = w.with(|x| x.mbs[ch as usize % 2].first().map(|m| m.0.clone()));
                if let Some(m) = m {
                    let r = m.next();
                    let mut f: Fut = Box::pin(async move { drop(r.await) });
                    let _ = poll(&mut f);
                }
            }
            P::DropMailbox(ch) => {
                let m = w.with(|x| x.mbs[ch as usize % 2].pop());
                drop(m);
            }
            P::DropAddr(ch) => {
                let a = w.with(|x| x.addrs[ch as usize % 2].pop());
                drop(a);
            }
            P::DropSend => {
                let s = w.with(|x| x.sends.pop());
                drop(s);
            }
            P::DropRecv => {
                let s = w.with(|x| x.recvs.pop());
                drop(s);
            }
            _ => {}
        }
    }
}

struct M {
    load: Load,
    reply: Vec<P>,
    scr: Scr,
}
#[derive(Clone)]
struct B {
    #[allow(dead_code)]
    load: Arc<Mutex<Load>>,
}
struct Act {
    ch: u8,
    w: W,
    _tok: Load,
}
impl Actor for Act {
    type Stop = ();
    async fn stopped(self) {}
}
struct InHandler(W);
impl Drop for InHandler {
    fn drop(&mut self) {
        self.0.with(|x| x.in_handler = false);
    }
}
impl Handler<M> for Act {
    type Return = Load;
    async fn handle(&mut self, m: M, ctx: &mut x::Context<Self>) -> Load {
        let g = InHandler(self.w.clone());
        g.0.with(|x| x.in_handler = true);
        match m.scr {
            Scr::None => {}
            Scr::Yield => {
                let mut first = true;
                std::future::poll_fn(|_| {
                    if first {
                        first = false;
                        Poll::Pending
                    } else {
                        Poll::Ready(())
                    }
                })
                .await
            }
            Scr::StopAll => ctx.stop_all(),
            Scr::StopSelf => ctx.stop_self(),
            Scr::Panic => std::panic::resume_unwind(Box::new("handler")),
        }
        let r = Load::new(&self.w, self.ch, &m.reply);
        drop(m.load);
        r
    }
}
impl Handler<B> for Act {
    type Return = ();
    async fn handle(&mut self, m: B, _: &mut x::Context<Self>) {
        let g = InHandler(self.w.clone());
        g.0.with(|x| x.in_handler = true);
        drop(m);
    }
}

fn idx(n: u8, len: usize) -> Option<usize> {
    (len > 0).then(|| n as usize % len)
}

fn step(w: &W, op: &Op) {
    match op {
        Op::Send { ch, own, reply, scr, prio, poll: p, detach } => {
            // Unwinding through shuttle's locks is not modelled: a failing handler owns nothing.
            let (own, scr) = (&own[..], if *scr == Scr::Panic && !own.is_empty() { Scr::Yield } else { *scr });
            let m = M { load: Load::new(w, *ch, own), reply: reply.clone(), scr };
            let s = w.weak(*ch).send(m).priority(*prio as u32);
            let mut f: Fut = if *detach {
                let s = s.detach();
                Box::pin(async move {
                    if let Ok(r) = s.await {
                        drop(r.await)
                    }
                })
            } else {
                Box::pin(async move { drop(s.await) })
            };
            if *p && poll(&mut f) {
                return;
            }
            w.with(|x| x.sends.push(f));
        }
        Op::Bcast { ch, own, poll: p } => {
            let s = w.weak(*ch).broadcast(B { load: Arc::new(Mutex::new(Load::new(w, *ch, own))) });
            let mut f: Fut = Box::pin(async move { drop(s.await) });
            if *p && poll(&mut f) {
                return;
            }
            w.with(|x| x.sends.push(f));
        }
        Op::PollSend(n) => {
            let f = w.with(|x| idx(*n, x.sends.len()).map(|i| x.sends.swap_remove(i)));
            if let Some(mut f) = f {
                if !poll(&mut f) {
                    w.with(|x| x.sends.push(f));
                }
            }
        }
        Op::DropSend(n) => {
            let f = w.with(|x| idx(*n, x.sends.len()).map(|i| x.sends.swap_remove(i)));
            drop(f);
        }
        Op::Recv(ch) => {
            let r = w.with(|x| x.mbs[*ch as usize % 2].last().map(|m| m.0.next()));
            if let Some(r) = r {
                let mut f: Fut = Box::pin(async move { drop(r.await) });
                if !poll(&mut f) {
                    w.with(|x| x.recvs.push(f));
                }
            }
        }
        Op::PollRecv(n, _) => {
            let f = w.with(|x| idx(*n, x.recvs.len()).map(|i| x.recvs.swap_remove(i)));
            if let Some(mut f) = f {
                if !poll(&mut f) {
                    w.with(|x| x.recvs.push(f));
                }
            }
        }
        Op::DropRecv(n) => {
            let f = w.with(|x| idx(*n, x.recvs.len()).map(|i| x.recvs.swap_remove(i)));
            drop(f);
        }
        Op::Serve(n, how) => {
            let ch = *n as usize % 2;
            let m = w.with(|x| {
                let i = idx(*n / 2, x.mbs[ch].len())?;
                Some(x.mbs[ch].swap_remove(i))
            });
            let Some((mb, act)) = m else { return };
            let mut act = act.unwrap_or_else(|| Act { ch: ch as u8, w: w.clone(), _tok: Load::new(w, ch as u8, &[]) });
            let wk = std::task::Waker::noop();
            let mut cx = Context::from_waker(wk);
            let mut stop = false;
            for _ in 0..=(*how / 4) {
                let mut r = mb.next();
                match Pin::new(&mut r).poll(&mut cx) {
                    Poll::Pending => {}
                    Poll::Ready(msg) => match how % 4 {
                        0 => drop(msg),
                        1 => {
                            let mut d = msg.dispatch_to(&mut act);
                            let _ = catch_unwind(AssertUnwindSafe(|| drop(Pin::new(&mut d).poll(&mut cx))));
                        }
                        _ => {
                            let mut d = msg.dispatch_to(&mut act);
                            for _ in 0..3 {
                                match catch_unwind(AssertUnwindSafe(|| Pin::new(&mut d).poll(&mut cx))) {
                                    Ok(Poll::Ready(c)) => {
                                        stop = c.is_break();
                                        break;
                                    }
                                    Ok(Poll::Pending) => {}
                                    Err(_) => break,
                                }
                            }
                        }
                    },
                }
                if stop {
                    break;
                }
            }
            if stop {
                drop(act);
                drop(mb);
            } else {
                w.with(|x| x.mbs[ch].push((mb, Some(act))));
            }
        }
        Op::CloneMb(ch) => w.with(|x| {
            let v = &mut x.mbs[*ch as usize % 2];
            if let (Some(m), true) = (v.first().map(|m| m.0.clone()), v.len() < 4) {
                v.push((m, None));
            }
        }),
        Op::DropMb(n) => {
            let ch = *n as usize % 2;
            let m = w.with(|x| idx(*n / 2, x.mbs[ch].len()).map(|i| x.mbs[ch].swap_remove(i)));
            drop(m);
        }
        Op::CloneAddr(ch) => {
            if let Some(a) = w.weak(*ch).try_upgrade() {
                w.with(|x| x.addrs[*ch as usize % 2].push(a));
            }
        }
        Op::DropAddr(ch) => {
            let a = w.with(|x| x.addrs[*ch as usize % 2].pop());
            drop(a);
        }
        Op::Join(ch) => {
            let j = w.weak(*ch).join();
            let mut f: Fut = Box::pin(async move { j.await });
            if !poll(&mut f) {
                w.with(|x| x.joins.push(f));
            }
        }
        Op::DropJoin(n) => {
            let f = w.with(|x| idx(*n, x.joins.len()).map(|i| x.joins.swap_remove(i)));
            drop(f);
        }
    }
}

struct Res {
    live: i32,
    dropped_in_lib: u32,
    dropped: u32,
}
fn run(case: &Case) -> Res {
    let mut world = World::default();
    let mut weak = vec![];
    for ch in 0..2 {
        let (a, m) = match case.caps[ch] {
            None => Mailbox::<Act>::unbounded(),
            Some(n) => Mailbox::<Act>::bounded(n.max(1) as usize),
        };
        weak.push(a.downgrade());
        world.addrs[ch].push(a);
        world.mbs[ch].push((m, None));
    }
    let b = weak.pop().unwrap();
    let a = weak.pop().unwrap();
    let w = W(Arc::new(Mutex::new(world)), Arc::new([a, b]), case.acyclic);
    for op in &case.ops {
        w.with(|x| x.in_op = true);
        step(&w, op);
    }
    w.with(|x| x.in_op = false);
    // Everything goes, in some order; destructors may still send, so go round until nothing is left.
    for round in 0..4 {
        for t in case.teardown.iter().chain(&[0, 1, 2, 3, 4, 5, 6]) {
            match t % 7 {
                0 => drop(w.with(|x| std::mem::take(&mut x.addrs[0]))),
                1 => drop(w.with(|x| std::mem::take(&mut x.addrs[1]))),
                2 => drop(w.with(|x| std::mem::take(&mut x.mbs[0]))),
                3 => drop(w.with(|x| std::mem::take(&mut x.mbs[1]))),
                4 => drop(w.with(|x| std::mem::take(&mut x.sends))),
                5 => drop(w.with(|x| std::mem::take(&mut x.recvs))),
                _ => drop(w.with(|x| std::mem::take(&mut x.joins))),
            }
        }
        if w.with(|x| x.live) == 0 && round > 0 {
            break;
        }
    }
    w.with(|x| Res { live: x.live, dropped_in_lib: x.dropped_in_lib, dropped: x.dropped })
}

pub struct Reent;
impl Engine for Reent {
    type Case = Case;
    fn name(&self) -> &'static str {
        "reent"
    }
    fn rule(&self) -> String {
        "random operations on two addresses with messages and replies that own handles and futures or use the library in their destructors, against the crate compiled with shuttle's locks: no lock may be taken twice, nothing may panic, and everything must be dropped in the end; non-trivial: the library itself dropped such a message during an operation".into()
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let ch = 0u8..2;
        let p = prop_oneof![
            2 => ch.clone().prop_map(P::OwnStrong),
            1 => ch.clone().prop_map(P::OwnWeak),
            2 => ch.clone().prop_map(P::OwnMailbox),
            2 => ch.clone().prop_map(P::OwnRecv),
            2 => ch.clone().prop_map(P::OwnSend),
            1 => ch.clone().prop_map(P::OwnSendFresh),
            1 => ch.clone().prop_map(P::OwnBcast),
            1 => ch.clone().prop_map(P::OwnJoin),
            2 => ch.clone().prop_map(P::Query),
            2 => ch.clone().prop_map(P::SendTo),
            1 => ch.clone().prop_map(P::DetachTo),
            2 => ch.clone().prop_map(P::BcastTo),
            1 => ch.clone().prop_map(P::Upgrade),
            1 => ch.clone().prop_map(P::JoinPoll),
            1 => ch.clone().prop_map(P::Receive),
            1 => ch.clone().prop_map(P::DropMailbox),
            1 => ch.clone().prop_map(P::DropAddr),
            1 => Just(P::DropSend),
            1 => Just(P::DropRecv),
        ];
        let own = prop::collection::vec(p.clone(), 0..3);
        let reply = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(p, 1..2)];
        let scr = prop_oneof![
            6 => Just(Scr::None),
            3 => Just(Scr::Yield),
            1 => Just(Scr::StopAll),
            1 => Just(Scr::StopSelf),
            1 => Just(Scr::Panic),
        ];
        let n = any::<u8>();
        let op: Vec<(u32, BoxedStrategy<Op>)> = vec![
            (
                14,
                (ch.clone(), own.clone(), reply, scr, 0u8..3, prop::bool::weighted(0.85), any::<bool>())
                    .prop_map(|(ch, own, reply, scr, prio, poll, detach)| Op::Send { ch, own, reply, scr, prio, poll, detach })
                    .boxed(),
            ),
            (7, (ch.clone(), own, prop::bool::weighted(0.85)).prop_map(|(ch, own, poll)| Op::Bcast { ch, own, poll }).boxed()),
            (3, n.prop_map(Op::PollSend).boxed()),
            (4, n.prop_map(Op::DropSend).boxed()),
            (4, ch.clone().prop_map(Op::Recv).boxed()),
            (3, (n, any::<bool>()).prop_map(|(a, b)| Op::PollRecv(a, b)).boxed()),
            (3, n.prop_map(Op::DropRecv).boxed()),
            (10, (n, 0u8..16).prop_map(|(a, b)| Op::Serve(a, b)).boxed()),
            (2, ch.clone().prop_map(Op::CloneMb).boxed()),
            (4, n.prop_map(Op::DropMb).boxed()),
            (1, ch.clone().prop_map(Op::CloneAddr).boxed()),
            (2, ch.clone().prop_map(Op::DropAddr).boxed()),
            (1, ch.clone().prop_map(Op::Join).boxed()),
            (1, n.prop_map(Op::DropJoin).boxed()),
        ];
        let cap = prop_oneof![2 => Just(None), 3 => Just(Some(1u8)), 1 => Just(Some(2u8))];
        (
            [cap.clone(), cap],
            prop::collection::vec(Union::new_weighted(op), 2..16),
            prop::collection::vec(0u8..7, 0..7),
            prop::bool::weighted(0.7),
        )
            .prop_map(|(caps, ops, teardown, acyclic)| Case { caps, ops, teardown, acyclic })
            .boxed()
    }
    fn run(&self, case: &Case) -> Outcome {
        let res: Arc<Mutex<Option<Res>>> = Arc::default();
        let (r2, c) = (res.clone(), case.clone());
        let mut cfg = shuttle::Config::new();
        cfg.stack_size = 1 << 18;
        cfg.failure_persistence = shuttle::FailurePersistence::None;
        cfg.max_steps = shuttle::MaxSteps::FailAfter(1_000_000);
        cfg.silence_warnings = true;
        let runner = shuttle::Runner::new(shuttle::scheduler::DfsScheduler::new(Some(1), false), cfg);
        let r = catch_unwind(AssertUnwindSafe(|| {
            runner.run(move || {
                let r = run(&c);
                *r2.lock().unwrap() = Some(r);
            });
        }));
        let mut nontrivial = false;
        let mut labels = vec![];
        let verdict = match r {
            Err(p) => {
                let t = crate::util::panic_text(&p);
                if t.contains("max_steps") {
                    Verdict::Abort(t)
                } else {
                    let t: String = t.lines().next().unwrap_or("").into();
                    Verdict::Fail(format!("a destructor that used the library, or an operation that dropped it, failed: {t}"))
                }
            }
            Ok(()) => {
                let r = res.lock().unwrap().take().unwrap();
                nontrivial = r.dropped_in_lib > 0;
                if case.acyclic {
                    labels.push("leak check applies");
                }
                if r.dropped > 0 {
                    labels.push("a message owning something was dropped");
                }
                if case.acyclic && r.live != 0 {
                    Verdict::Fail(format!("{} messages, replies or actors were never dropped", r.live))
                } else {
                    Verdict::Pass
                }
            }
        };
        Outcome { verdict, nontrivial, labels }
    }
    fn shrink_budget(&self) -> (usize, std::time::Duration) {
        (3000, std::time::Duration::from_secs(20))
    }
}
