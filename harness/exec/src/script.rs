//! One actor, one driver: on every executor the actor does what the reference interpreter does.
use crate::runner::{Engine, Outcome, Verdict};
use crate::site::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use xtra::{Actor, Address, Context, Error, Handler, Mailbox, Receiver, WeakAddress};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Plain,
    Yield(u8),
    /// waits for a task somewhere else
    Remote(u8),
    /// sends a message to its own mailbox
    Nested(u8),
    StopSelf,
    StopAll,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Send { prio: u8, kind: Kind, detach: bool, site: u8 },
    Broadcast { prio: u8, kind: Kind },
    /// the actor stays in a handler, so what follows queues up
    Close,
    Open,
    CloneAddr,
    DropAddr(u8),
    /// through a weak address
    Upgrade,
    Look,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    cap: u8,
    started: u8,
    stopped_yields: bool,
    site: u8,
    ops: Vec<Op>,
}

const STARTED: u64 = 1 << 60;
const STOPPED: u64 = STARTED + 1;
#[derive(Default)]
struct Shared {
    log: Mutex<Vec<u64>>,
    entered: Mutex<Vec<Arc<Flag>>>,
    stopped: Arc<Flag>,
}
struct Act {
    s: Arc<Shared>,
    state: u64,
    started: u8,
    stopped_yields: bool,
}
impl Actor for Act {
    type Stop = ();
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), ()> {
        self.s.log.lock().unwrap().push(STARTED);
        match self.started % 8 {
            0 => YieldNow(false).await,
            1 => remote(self.started / 8).await,
            2 => return Err(()),
            _ => {}
        }
        Ok(())
    }
    async fn stopped(self) {
        if self.stopped_yields {
            YieldNow(false).await;
        }
        self.s.log.lock().unwrap().push(STOPPED);
        self.s.stopped.set();
    }
}
async fn remote(site: u8) {
    let f = Arc::new(Flag::default());
    let g = f.clone();
    task(site, async move { g.set() });
    f.wait().await
}
#[derive(Clone)]
struct Msg {
    id: u64,
    kind: Kind,
    gate: Option<(Arc<Flag>, Arc<Flag>)>,
}
/// To broadcast.
#[derive(Clone)]
struct All(Msg);
impl Handler<All> for Act {
    type Return = ();
    async fn handle(&mut self, m: All, ctx: &mut Context<Self>) {
        Handler::<Msg>::handle(self, m.0, ctx).await;
    }
}
impl Handler<Msg> for Act {
    type Return = u64;
    async fn handle(&mut self, m: Msg, ctx: &mut Context<Self>) -> u64 {
        self.s.log.lock().unwrap().push(m.id);
        if let Some((entered, open)) = m.gate {
            entered.set();
            open.wait().await;
        }
        match m.kind {
            Kind::Plain => {}
            Kind::Yield(n) => {
                for _ in 0..n % 4 {
                    YieldNow(false).await
                }
            }
            Kind::Remote(s) => remote(s).await,
            Kind::Nested(p) => {
                let f = ctx.mailbox().address().send(Msg { id: m.id + 1000, kind: Kind::Plain, gate: None }).priority(2 * (p % 4) as u32).detach();
                let mut f = Box::pin(f);
                // it is accepted at once or never
                std::future::poll_fn(|cx| {
                    let _ = f.as_mut().poll(cx);
                    Poll::Ready(())
                })
                .await
            }
            Kind::StopSelf => ctx.stop_self(),
            Kind::StopAll => ctx.stop_all(),
        }
        self.state = self.state.wrapping_mul(31).wrapping_add(m.id);
        self.state
    }
}

#[derive(Clone)]
struct Item {
    id: u64,
    prio: u32,
    kind: Kind,
    broadcast: bool,
}
struct Model {
    cap: usize,
    strong: usize,
    queue: Vec<Item>,
    state: u64,
    log: Vec<u64>,
    gone: bool,
    replies: std::collections::HashMap<u64, Result<u64, Error>>,
}
impl Model {
    fn room(&self, broadcast: bool) -> bool {
        self.cap == 0 || self.queue.iter().filter(|i| i.broadcast == broadcast).count() < self.cap
    }
    /// Handle one; true: the actor stops.
    fn handle(&mut self, i: Item) -> bool {
        self.log.push(i.id);
        self.state = self.state.wrapping_mul(31).wrapping_add(i.id);
        self.replies.insert(i.id, Ok(self.state));
        match i.kind {
            Kind::Nested(p) => {
                if self.strong > 0 && self.room(false) {
                    self.queue.push(Item { id: i.id + 1000, prio: 2 * (p % 4) as u32, kind: Kind::Plain, broadcast: false });
                }
                false
            }
            Kind::StopSelf => true,
            Kind::StopAll => self.strong > 0,
            _ => false,
        }
    }
    fn drain(&mut self) {
        while !self.queue.is_empty() {
            let k = (0..self.queue.len()).max_by_key(|k| (self.queue[*k].prio, usize::MAX - k)).unwrap();
            let i = self.queue.remove(k);
            if self.handle(i) {
                self.stop();
                return;
            }
        }
    }
    fn stop(&mut self) {
        for i in std::mem::take(&mut self.queue) {
            self.replies.insert(i.id, Err(Error::Interrupted));
        }
        self.log.push(STOPPED);
        self.gone = true;
    }
}

struct World<'a> {
    case: &'a Case,
    exec: Exec,
    md: Model,
    s: Arc<Shared>,
    addrs: Vec<Address<Act>>,
    weak: WeakAddress<Act>,
    gate: Option<(u64, Arc<Flag>, Receiver<u64>, Kind)>,
    pending: Vec<(u64, Receiver<u64>)>,
    next: u64,
}
type R = Result<(), String>;
impl World<'_> {
    fn err<T>(&self, m: impl Into<String>) -> Result<T, String> {
        Err(format!("on {:?}: {}", self.exec, m.into()))
    }
    fn reply(&self, id: u64, got: Option<Result<u64, Error>>) -> R {
        let want = self.md.replies.get(&id);
        match got {
            None => self.err(format!("message {id} gets no answer; expected {want:?}")),
            Some(g) if Some(&g) == want => Ok(()),
            Some(g) => self.err(format!("message {id} is answered {g:?}; expected {want:?}")),
        }
    }
    fn msg(&mut self, kind: Kind) -> Msg {
        self.next += 1;
        Msg { id: self.next, kind, gate: None }
    }
    /// The model stopped: so must the actor.
    fn settle(&mut self) -> R {
        for (id, r) in std::mem::take(&mut self.pending) {
            self.reply(id, wait(r))?;
        }
        if !self.md.gone {
            // whatever the handlers sent to themselves is handled before this
            let m = self.msg(Kind::Plain);
            self.md.queue.push(Item { id: m.id, prio: 0, kind: m.kind, broadcast: false });
            self.md.drain();
            let (id, got) = (m.id, wait(self.addrs[0].send(m)));
            return self.reply(id, got);
        }
        self.gone()
    }
    fn gone(&mut self) -> R {
        if wait(self.weak.join()).is_none() {
            return self.err("the actor stopped, but join does not return");
        }
        if self.weak.is_connected() {
            return self.err("the actor stopped, but the address is connected");
        }
        self.logs()
    }
    fn logs(&self) -> R {
        let l = self.s.log.lock().unwrap().clone();
        if l != self.md.log {
            return self.err(format!("what the actor did is {l:?}; expected {:?}", self.md.log));
        }
        Ok(())
    }
    fn open(&mut self) -> R {
        if let Some((id, open, r, kind)) = self.gate.take() {
            open.set();
            let stop = self.md.handle(Item { id, prio: 0, kind, broadcast: false });
            if stop {
                self.md.stop()
            } else {
                self.md.drain();
            }
            self.pending.insert(0, (id, r));
            if self.md.strong > 0 {
                return self.settle();
            }
        }
        Ok(())
    }
    fn step(&mut self, op: &Op) -> R {
        match op {
            Op::Send { prio, kind, detach, site } => {
                let m = self.msg(*kind);
                let (id, prio) = (m.id, 2 * (*prio % 4) as u32);
                let a = self.addrs[self.addrs.len() - 1].clone();
                if self.md.gone {
                    let got = if *detach {
                        wait(a.send(m).priority(prio).detach()).map(|r| r.map(|_| 0))
                    } else {
                        wait(a.send(m).priority(prio))
                    };
                    self.md.replies.insert(id, Err(Error::Disconnected));
                    return self.reply(id, got);
                }
                if self.gate.is_some() {
                    if !self.md.room(false) {
                        return Ok(());
                    }
                    let r = match wait(a.send(m).priority(prio).detach()) {
                        Some(Ok(r)) => r,
                        o => return self.err(format!("message {id} should be accepted at once: {:?}", o.map(|r| r.map(|_| ())))),
                    };
                    self.md.queue.push(Item { id, prio, kind: *kind, broadcast: false });
                    self.pending.push((id, r));
                    return Ok(());
                }
                self.md.queue.push(Item { id, prio, kind: *kind, broadcast: false });
                self.md.drain();
                let detach = *detach;
                let (tx, rx) = std::sync::mpsc::channel();
                // `a` must be gone before the reply is known here: it would keep the actor running
                let f = async move {
                    let r = if detach {
                        match a.send(m).priority(prio).detach().await {
                            Ok(r) => r.await,
                            Err(e) => Err(e),
                        }
                    } else {
                        a.send(m).priority(prio).await
                    };
                    drop(a);
                    let _ = tx.send(r);
                };
                let got = if site % 8 < 5 {
                    task(*site, f);
                    rx.recv_timeout(limit()).ok()
                } else {
                    wait(f).and_then(|_| rx.recv().ok())
                };
                self.reply(id, got)?;
                self.settle()
            }
            Op::Broadcast { prio, kind } => {
                let kind = match kind {
                    Kind::Nested(_) => Kind::Plain,
                    k => *k,
                };
                let m = self.msg(kind);
                let (id, prio) = (m.id, 2 * (*prio % 4) as u32 + 1);
                if self.md.gone {
                    return match wait(self.addrs[0].broadcast(All(m)).priority(prio)) {
                        Some(Err(Error::Disconnected)) => Ok(()),
                        o => self.err(format!("a broadcast to a stopped actor: {o:?}")),
                    };
                }
                if !self.md.room(true) {
                    return Ok(());
                }
                match wait(self.addrs[0].broadcast(All(m)).priority(prio)) {
                    Some(Ok(())) => {}
                    o => return self.err(format!("broadcast {id} should be accepted at once: {o:?}")),
                }
                self.md.queue.push(Item { id, prio, kind, broadcast: true });
                if self.gate.is_none() {
                    // it may still be queued when this returns
                    let n = self.md.log.len();
                    self.md.drain();
                    let s = self.s.clone();
                    let want = self.md.log.clone();
                    if !wait_cond(|| s.log.lock().unwrap().len() > n) {
                        return self.err(format!("broadcast {id} is not handled; expected {want:?}"));
                    }
                    return self.settle();
                }
                Ok(())
            }
            Op::Close => {
                if self.gate.is_some() || self.md.gone {
                    return Ok(());
                }
                let mut m = self.msg(Kind::Plain);
                let (entered, open) = (Arc::new(Flag::default()), Arc::new(Flag::default()));
                m.gate = Some((entered.clone(), open.clone()));
                let id = m.id;
                self.s.entered.lock().unwrap().push(open.clone());
                let r = match wait(self.addrs[0].send(m).detach()) {
                    Some(Ok(r)) => r,
                    o => return self.err(format!("message {id} should be accepted at once: {:?}", o.map(|r| r.map(|_| ())))),
                };
                if wait(entered.wait()).is_none() {
                    return self.err(format!("message {id} is not handled"));
                }
                self.gate = Some((id, open, r, Kind::Plain));
                Ok(())
            }
            Op::Open => self.open(),
            Op::CloneAddr => {
                self.addrs.push(self.addrs[0].clone());
                self.md.strong += 1;
                Ok(())
            }
            Op::DropAddr(k) => {
                if self.addrs.len() > 1 {
                    let k = *k as usize % self.addrs.len();
                    drop(self.addrs.remove(k));
                    self.md.strong -= 1;
                }
                Ok(())
            }
            Op::Upgrade => match self.weak.try_upgrade() {
                Some(a) => {
                    self.addrs.push(a);
                    self.md.strong += 1;
                    Ok(())
                }
                None => self.err("a weak address cannot be upgraded although there is a strong one"),
            },
            Op::Look => {
                let c = self.addrs[0].is_connected();
                if c == self.md.gone {
                    return self.err(format!("is_connected: {c}; expected {}", !c));
                }
                if self.s.stopped.get() && !self.md.gone {
                    return self.err("the actor stopped by itself");
                }
                Ok(())
            }
        }
    }
    fn end(&mut self) -> R {
        self.step(&Op::Look)?;
        self.addrs.clear();
        self.md.strong = 0;
        self.open()?;
        if !self.md.gone {
            self.md.stop();
        }
        for (id, r) in std::mem::take(&mut self.pending) {
            self.reply(id, wait(r))?;
        }
        if self.md.log.contains(&STOPPED) && wait(self.s.stopped.wait()).is_none() || wait(self.weak.join()).is_none() {
            return self.err("the actor does not stop although no strong address is left");
        }
        if self.weak.is_connected() {
            return self.err("connected although the actor stopped");
        }
        if self.weak.try_upgrade().is_some() {
            return self.err("there is still a strong address");
        }
        self.logs()
    }
}
fn run_on(case: &Case, exec: Exec) -> R {
    let cap = case.cap as usize % 6;
    let (a, m) = if cap == 0 { Mailbox::unbounded() } else { Mailbox::bounded(cap) };
    let weak = a.downgrade();
    let s = Arc::new(Shared::default());
    let act = Act { s: s.clone(), state: 7, started: case.started, stopped_yields: case.stopped_yields };
    let mut md = Model { cap, strong: 1, queue: vec![], state: 7, log: vec![STARTED], gone: false, replies: Default::default() };
    let Some(a) = at(case.site, move || spawn_actor(exec, act, (a, m))) else {
        return Err(format!("on {exec:?}: the spawn helper does not return"));
    };
    let fails = case.started % 8 == 2;
    if fails {
        md.gone = true;
    }
    let mut w = World { case, exec, md, s, addrs: vec![a], weak, gate: None, pending: vec![], next: 0 };
    let mut go = || -> R {
        if !fails {
            if !w.addrs[0].is_connected() {
                return w.err("the address returned is not connected");
            }
        } else {
            w.gone()?;
        }
        for op in &w.case.ops {
            w.step(op)?;
        }
        w.end()
    };
    let r = go();
    // leave nothing behind
    for f in w.s.entered.lock().unwrap().iter() {
        f.set()
    }
    r
}

pub struct Script;
impl Engine for Script {
    type Case = Case;
    fn name(&self) -> &'static str {
        "executors"
    }
    fn rule(&self) -> String {
        "one actor and one script, run on tokio (two schedulers), smol, async-std and by hand (two ways), each compared with a reference interpreter; non-trivial: at least two messages were handled".into()
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let kind = prop_oneof![
            8 => Just(Kind::Plain),
            4 => any::<u8>().prop_map(Kind::Yield),
            3 => any::<u8>().prop_map(Kind::Remote),
            3 => any::<u8>().prop_map(Kind::Nested),
            1 => Just(Kind::StopSelf),
            1 => Just(Kind::StopAll),
        ];
        let op = prop_oneof![
            10 => (any::<u8>(), kind.clone(), any::<bool>(), any::<u8>()).prop_map(|(prio, kind, detach, site)| Op::Send { prio, kind, detach, site }),
            3 => (any::<u8>(), kind).prop_map(|(prio, kind)| Op::Broadcast { prio, kind }),
            3 => Just(Op::Close),
            2 => Just(Op::Open),
            1 => Just(Op::CloneAddr),
            1 => any::<u8>().prop_map(Op::DropAddr),
            1 => Just(Op::Upgrade),
            1 => Just(Op::Look),
        ];
        (prop_oneof![1 => Just(0u8), 1 => 0u8..6], any::<u8>(), any::<bool>(), any::<u8>(), prop::collection::vec(op, 0..24))
            .prop_map(|(cap, started, stopped_yields, site, ops)| Case { cap, started, stopped_yields, site, ops })
            .boxed()
    }
    fn shrink_budget(&self) -> (usize, std::time::Duration) {
        (2000, std::time::Duration::from_secs(60))
    }
    fn run(&self, case: &Case) -> Outcome {
        let mut verdict = Verdict::Pass;
        for e in EXECS {
            if let Err(m) = run_on(case, e) {
                verdict = Verdict::Fail(m);
                break;
            }
        }
        let has = |f: &dyn Fn(&Op) -> bool| case.ops.iter().any(f);
        let mut labels = vec![];
        let mut l = |b: bool, s: &'static str| {
            if b {
                labels.push(s)
            }
        };
        l(case.started % 8 == 2, "started fails");
        l(has(&|o| matches!(o, Op::Send { kind: Kind::StopSelf | Kind::StopAll, .. } | Op::Broadcast { kind: Kind::StopSelf | Kind::StopAll, .. })), "stopped by a handler");
        l(has(&|o| matches!(o, Op::Close)), "queued up");
        l(has(&|o| matches!(o, Op::Broadcast { .. })), "broadcast");
        l(has(&|o| matches!(o, Op::Send { kind: Kind::Nested(_), .. })), "nested send");
        let n = case.ops.iter().filter(|o| matches!(o, Op::Send { .. } | Op::Broadcast { .. } | Op::Close)).count();
        Outcome { verdict, nontrivial: n >= 2 && case.started % 8 != 2, labels }
    }
}
