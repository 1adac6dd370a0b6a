//! Runs a program once, inside shuttle, and writes down what happened.
use super::prog::*;
use crate::sched::x;
use shuttle::future::{block_on, yield_now};
use std::future::Future;
use std::ops::ControlFlow;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use x::address::ActorJoinHandle;
use x::message_channel::MessageChannel;
use x::refcount::{Either, Strong};
use x::{Actor, Address, Error, Handler, Mailbox, WeakAddress};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum R {
    Ok,
    /// a reply that is not the handler's
    Wrong,
    Disc,
    Intr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// first poll of a send begins (strong handle, default priority, broadcast)
    Send { id: u32, strong: bool, def: bool, bc: bool },
    Polled { id: u32, pending: bool },
    /// known to be accepted (a detached send resolved)
    Acc { id: u32 },
    Res { id: u32, r: R },
    /// the sender lost interest
    Gone { id: u32 },
    H { id: u32, mb: usize },
    HEnd { id: u32, mb: usize },
    HCut { id: u32, mb: usize },
    /// strong handle: possibly there / certainly there
    StrongPos(i8),
    StrongDef(i8),
    MbPos(i8),
    MbDef(i8),
    /// an actor stopped that had not been asked to
    NatStop { mb: usize },
    MbNew { mb: usize },
    MbMade { mb: usize, natural: bool },
    MbGone { mb: usize },
    UpStart { k: u32 },
    UpEnd { k: u32, ok: bool },
    QStart { k: u32 },
    QEnd { k: u32, conn: bool, len: usize },
    JStart { k: u32 },
    JMade { k: u32 },
    JReady { k: u32 },
    /// a scoped task yielded nothing (false) or its result
    SReady { k: u32, some: bool },
    RecvStart { mb: usize },
    RecvDrop { mb: usize },
}

#[derive(Default)]
pub struct Log {
    pub ev: Vec<Ev>,
    pub live: i32,
    ops: u32,
    mbs: usize,
}
#[derive(Clone)]
pub struct L(pub Arc<Mutex<Log>>);
impl L {
    pub fn new() -> L {
        L(Arc::new(Mutex::new(Log::default())))
    }
    fn ev(&self, e: Ev) {
        self.0.lock().unwrap().ev.push(e)
    }
    fn op(&self) -> u32 {
        let mut l = self.0.lock().unwrap();
        l.ops += 1;
        l.ops
    }
    fn mb(&self) -> usize {
        let mut l = self.0.lock().unwrap();
        l.mbs += 1;
        l.mbs - 1
    }
}

pub struct Tok(L);
impl Tok {
    fn new(l: &L) -> Tok {
        l.0.lock().unwrap().live += 1;
        Tok(l.clone())
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok::new(&self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.0 .0.lock().unwrap().live -= 1;
    }
}

/// A destructor that uses the address.
#[derive(Clone)]
struct Re(Option<WeakAddress<Act>>);
impl Drop for Re {
    fn drop(&mut self) {
        if let Some(a) = self.0.take() {
            if a.is_connected() && a.len() > usize::MAX / 2 {
                panic!("len underflowed");
            }
        }
    }
}
struct Msg {
    id: u32,
    script: Script,
    _re: Re,
    _tok: Tok,
}
#[derive(Clone)]
struct BMsg {
    id: u32,
    _re: Re,
    _tok: Tok,
}
struct Act {
    mb: usize,
    l: L,
    immortal: bool,
    natural: bool,
    /// the dispatch in progress shall be dropped
    abort: Arc<Mutex<bool>>,
    can_abort: bool,
    _tok: Tok,
}
impl Act {
    fn stopping(&self) {
        if self.natural {
            self.l.ev(Ev::NatStop { mb: self.mb });
        }
        self.l.ev(Ev::MbDef(-1));
    }
}
impl Actor for Act {
    type Stop = ();
    async fn stopped(self) {
        self.stopping();
    }
}
struct Cut {
    l: L,
    id: u32,
    mb: usize,
    done: bool,
}
impl Drop for Cut {
    fn drop(&mut self) {
        if !self.done {
            self.l.ev(Ev::HCut { id: self.id, mb: self.mb });
        }
    }
}
fn reply(id: u32, mb: usize) -> u64 {
    id as u64 * 1000 + mb as u64 + 7
}
impl Handler<Msg> for Act {
    type Return = u64;
    async fn handle(&mut self, m: Msg, ctx: &mut x::Context<Self>) -> u64 {
        self.l.ev(Ev::H { id: m.id, mb: self.mb });
        let mut cut = Cut { l: self.l.clone(), id: m.id, mb: self.mb, done: false };
        match m.script {
            Script::None => {}
            Script::Yield => yield_now().await,
            Script::StopSelf => {
                if !self.immortal {
                    ctx.stop_self()
                }
            }
            Script::StopAll => {
                // this upgrades for a moment
                self.l.ev(Ev::StrongPos(1));
                ctx.stop_all();
                self.l.ev(Ev::StrongPos(-1));
            }
            Script::Abort => {
                if self.can_abort {
                    *self.abort.lock().unwrap() = true;
                    std::future::pending::<()>().await;
                }
            }
        }
        drop(m);
        cut.done = true;
        self.l.ev(Ev::HEnd { id: cut.id, mb: self.mb });
        reply(cut.id, self.mb)
    }
}
impl Handler<BMsg> for Act {
    type Return = ();
    async fn handle(&mut self, m: BMsg, _: &mut x::Context<Self>) {
        self.l.ev(Ev::H { id: m.id, mb: self.mb });
    }
}

/// Poll once; the waker is the current task's.
async fn once<F: Future + Unpin>(f: &mut F) -> Option<F::Output> {
    std::future::poll_fn(|cx| match Pin::new(&mut *f).poll(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending => Poll::Ready(None),
    })
    .await
}

struct Yields(u8);
impl Future for Yields {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Clone)]
struct C {
    case: Arc<Case>,
    l: L,
}

type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

/// A handle whose existence is logged.
struct Held<T>(Option<T>, L);
impl<T> Held<T> {
    fn new(l: &L, f: impl FnOnce() -> T) -> Held<T> {
        l.ev(Ev::StrongPos(1));
        let t = f();
        l.ev(Ev::StrongDef(1));
        Held(Some(t), l.clone())
    }
    fn get(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<T> Drop for Held<T> {
    fn drop(&mut self) {
        self.1.ev(Ev::StrongDef(-1));
        self.0 = None;
        self.1.ev(Ev::StrongPos(-1));
    }
}
fn upgrade(l: &L, w: &WeakAddress<Act>) -> Option<Held<Address<Act>>> {
    let k = l.op();
    l.ev(Ev::StrongPos(1));
    l.ev(Ev::UpStart { k });
    let r = w.try_upgrade();
    if r.is_some() {
        l.ev(Ev::StrongDef(1));
    }
    l.ev(Ev::UpEnd { k, ok: r.is_some() });
    match r {
        Some(a) => Some(Held(Some(a), l.clone())),
        None => {
            l.ev(Ev::StrongPos(-1));
            None
        }
    }
}

impl C {
    fn query(&self, f: impl FnOnce() -> (bool, usize)) {
        let k = self.l.op();
        self.l.ev(Ev::QStart { k });
        let (conn, len) = f();
        self.l.ev(Ev::QEnd { k, conn, len });
    }
}

// ---- receiving side ----

/// Handle a message (its type cannot be named), dropping the dispatch when the handler asks for it.
macro_rules! dispatch {
    ($act:expr, $m:expr) => {{
        let abort = $act.abort.clone();
        *abort.lock().unwrap() = false;
        let mut f = $m.dispatch_to(&mut $act);
        std::future::poll_fn(|cx| match Pin::new(&mut f).poll(cx) {
            Poll::Ready(v) => Poll::Ready(v),
            Poll::Pending if *abort.lock().unwrap() => Poll::Ready(ControlFlow::Continue(())),
            Poll::Pending => Poll::Pending,
        })
        .await
    }};
}

type Phase = Arc<(shuttle::sync::Mutex<usize>, shuttle::sync::Condvar)>;
fn phase_done(p: &Phase) {
    *p.0.lock().unwrap() += 1;
    p.1.notify_all();
}

fn mailbox_thread(c: C, id: usize, mailbox: Mailbox<Act>, steps: Vec<MStep>, end: MEnd, natural: bool, phase: Option<Phase>) {
    let l = c.l.clone();
    let mut act = Act {
        mb: id,
        l: l.clone(),
        immortal: id == 0 && c.case.survivor,
        natural,
        abort: Arc::new(Mutex::new(false)),
        can_abort: true,
        _tok: Tok::new(&l),
    };
    let mut spawned = vec![];
    let (a, m) = block_on(async {
        let mut stopped = false;
        'steps: for st in &steps {
            macro_rules! take {
                ($m:expr) => {
                    if dispatch!(act, $m).is_break() {
                        stopped = true;
                        break 'steps;
                    }
                };
            }
            match *st {
                MStep::Cancel(n) => {
                    let mut f = mailbox.next();
                    l.ev(Ev::RecvStart { mb: id });
                    let mut got = None;
                    for i in 0..n {
                        if i > 0 {
                            yield_now().await;
                        }
                        got = once(&mut f).await;
                        if got.is_some() {
                            break;
                        }
                    }
                    drop(f);
                    if let Some(m) = got {
                        take!(m);
                    } else {
                        l.ev(Ev::RecvDrop { mb: id });
                    }
                }
                MStep::Hold(n) => {
                    let mut f = mailbox.next();
                    l.ev(Ev::RecvStart { mb: id });
                    let got = once(&mut f).await;
                    if let Some(m) = got {
                        drop(f);
                        take!(m);
                        continue;
                    }
                    for _ in 0..n {
                        yield_now().await;
                    }
                    drop(f);
                    l.ev(Ev::RecvDrop { mb: id });
                }
                MStep::Two | MStep::TwoRev => {
                    let mut a = mailbox.next();
                    let mut b = mailbox.next();
                    l.ev(Ev::RecvStart { mb: id });
                    let ga = once(&mut a).await;
                    let gb = once(&mut b).await;
                    // What was taken is handled, and a stop is disregarded (one receive may be told to
                    // stop while the other has a message, which is to go back).
                    for m in [ga, gb].into_iter().flatten() {
                        let _ = dispatch!(act, m);
                    }
                    yield_now().await;
                    if let MStep::Two = st {
                        drop(a);
                        drop(b);
                    } else {
                        drop(b);
                        drop(a);
                    }
                    l.ev(Ev::RecvDrop { mb: id });
                }
                MStep::Select(n) => {
                    act.can_abort = false;
                    l.ev(Ev::RecvStart { mb: id });
                    match x::select(&mailbox, &mut act, Yields(n)).await {
                        futures_util::future::Either::Left(()) => {}
                        futures_util::future::Either::Right(_) => stopped = true,
                    }
                    l.ev(Ev::RecvDrop { mb: id });
                    act.can_abort = true;
                    if stopped {
                        break 'steps;
                    }
                }
                MStep::CloneDrop => {
                    let n = l.mb();
                    l.ev(Ev::MbPos(1));
                    l.ev(Ev::MbNew { mb: n });
                    let m2 = mailbox.clone();
                    l.ev(Ev::MbMade { mb: n, natural: false });
                    yield_now().await;
                    drop(m2);
                    l.ev(Ev::MbPos(-1));
                }
                MStep::CloneServe => {
                    let n = l.mb();
                    l.ev(Ev::MbPos(1));
                    l.ev(Ev::MbNew { mb: n });
                    let m2 = mailbox.clone();
                    let nat = !(c.case.has_script(Script::StopSelf) || c.case.has_script(Script::StopAll));
                    l.ev(Ev::MbDef(1));
                    l.ev(Ev::MbMade { mb: n, natural: nat });
                    let c2 = c.clone();
                    spawned.push(shuttle::thread::spawn(move || mailbox_thread(c2, n, m2, vec![], MEnd::Loop, nat, None)));
                }
                MStep::Upgrade => {
                    let w = mailbox.address();
                    let s = upgrade(&l, &w);
                    drop(w);
                    yield_now().await;
                    drop(s);
                }
                MStep::Yield => yield_now().await,
            }
        }
        if let Some(p) = &phase {
            phase_done(p);
        }
        if stopped {
            return (Some(act), Some(mailbox));
        }
        match end {
            MEnd::Drop => {
                act.natural = false;
                (Some(act), Some(mailbox))
            }
            MEnd::Serve(n) => {
                for _ in 0..n {
                    let m = mailbox.next().await;
                    if dispatch!(act, m).is_break() {
                        break;
                    }
                }
                act.natural = false;
                (Some(act), Some(mailbox))
            }
            MEnd::Loop => {
                loop {
                    let m = mailbox.next().await;
                    if dispatch!(act, m).is_break() {
                        break;
                    }
                }
                (Some(act), Some(mailbox))
            }
            MEnd::Run => {
                act.can_abort = false;
                x::run(mailbox, act).await;
                (None, None)
            }
        }
    });
    if let Some(a) = a {
        a.stopping();
    }
    drop(m);
    l.ev(Ev::MbPos(-1));
    l.ev(Ev::MbGone { mb: id });
    for h in spawned {
        h.join().unwrap();
    }
}

// ---- sending side ----

fn sres(l: &L, id: u32, r: Result<u64, Error>) {
    let r = match r {
        Ok(v) => {
            let mb = v.wrapping_sub(id as u64 * 1000 + 7) as usize;
            let known = l.0.lock().unwrap().ev.contains(&Ev::HEnd { id, mb });
            if known {
                R::Ok
            } else {
                R::Wrong
            }
        }
        Err(Error::Disconnected) => R::Disc,
        Err(Error::Interrupted) => R::Intr,
    };
    l.ev(Ev::Res { id, r });
}
fn bres(l: &L, id: u32, r: Result<(), Error>) {
    let r = match r {
        Ok(()) => R::Ok,
        Err(Error::Disconnected) => R::Disc,
        Err(Error::Interrupted) => R::Intr,
    };
    l.ev(Ev::Res { id, r });
}

enum Handle {
    A(Held<Address<Act>>),
    E(Held<Address<Act, Either>>),
}

fn sender_thread(c: C, tid: usize, first: Held<Address<Act>>, phase: Phase) {
    let l = c.l.clone();
    let me = c.case.senders[tid].clone();
    block_on(async {
        let weak = first.get().downgrade();
        let re = || Re(c.case.reenter.then(|| weak.clone()));
        let mut strong: Vec<Handle> = vec![Handle::A(first)];
        let mut open: Vec<BoxFut> = vec![];
        let mut joins: Vec<BoxFut> = vec![];
        for (i, st) in me.steps.iter().enumerate() {
            let id = (tid * 100 + i) as u32 + 1;
            match *st {
                SStep::Send(mode, prio, script, via) => {
                    let msg = Msg { id, script: c.case.script(script), _re: re(), _tok: Tok::new(&l) };
                    let use_strong = via != Via::Weak && !strong.is_empty();
                    macro_rules! go {
                        ($f:expr) => {{
                            let mut f = $f.priority(prio);
                            let ll = l.clone();
                            l.ev(Ev::Send { id, strong: use_strong, def: prio == 0, bc: false });
                            if mode == SMode::Detach {
                                let mut f = f.detach();
                                let r = once(&mut f).await;
                                l.ev(Ev::Polled { id, pending: r.is_none() });
                                let r = match r {
                                    Some(r) => r,
                                    None => f.await,
                                };
                                match r {
                                    Ok(rx) => {
                                        l.ev(Ev::Acc { id });
                                        open.push(Box::pin(async move { sres(&ll, id, rx.await) }));
                                    }
                                    Err(e) => sres(&l, id, Err(e)),
                                }
                            } else {
                                let r = once(&mut f).await;
                                l.ev(Ev::Polled { id, pending: r.is_none() });
                                match (r, mode) {
                                    (Some(r), _) => sres(&l, id, r),
                                    (None, SMode::Wait) => sres(&l, id, f.await),
                                    (None, SMode::Try) => {
                                        drop(f);
                                        l.ev(Ev::Gone { id });
                                    }
                                    (None, _) => open.push(Box::pin(async move { sres(&ll, id, f.await) })),
                                }
                            }
                        }};
                    }
                    match (use_strong.then(|| strong.last().unwrap()), via) {
                        (Some(Handle::A(a)), Via::Channel) => {
                            let ch: Held<MessageChannel<Msg, u64, Strong>> =
                                Held::new(&l, || MessageChannel::new(a.get().clone()));
                            go!(ch.get().send(msg));
                        }
                        (Some(Handle::E(a)), Via::Channel) => {
                            let ch: Held<MessageChannel<Msg, u64, Either>> =
                                Held::new(&l, || MessageChannel::new(a.get().clone()));
                            go!(ch.get().send(msg));
                        }
                        (Some(Handle::A(a)), _) => go!(a.get().send(msg)),
                        (Some(Handle::E(a)), _) => go!(a.get().send(msg)),
                        (None, Via::Channel) => {
                            let ch = MessageChannel::new(weak.clone());
                            go!(ch.send(msg))
                        }
                        (None, _) => go!(weak.send(msg)),
                    }
                }
                SStep::Bcast(mode, prio) => {
                    let msg = BMsg { id, _re: re(), _tok: Tok::new(&l) };
                    let use_strong = !strong.is_empty();
                    macro_rules! go {
                        ($f:expr) => {{
                            let mut f = $f.priority(prio);
                            let ll = l.clone();
                            l.ev(Ev::Send { id, strong: use_strong, def: prio == 0, bc: true });
                            let r = once(&mut f).await;
                            l.ev(Ev::Polled { id, pending: r.is_none() });
                            match (r, mode) {
                                (Some(r), _) => bres(&l, id, r),
                                (None, SMode::Try) => {
                                    drop(f);
                                    l.ev(Ev::Gone { id });
                                }
                                (None, SMode::Keep) => open.push(Box::pin(async move { bres(&ll, id, f.await) })),
                                (None, _) => bres(&l, id, f.await),
                            }
                        }};
                    }
                    match strong.last() {
                        Some(Handle::A(a)) => go!(a.get().broadcast(msg)),
                        Some(Handle::E(a)) => go!(a.get().broadcast(msg)),
                        None => go!(weak.broadcast(msg)),
                    }
                }
                SStep::Clone => {
                    let h = match strong.last() {
                        Some(Handle::A(a)) => Handle::A(Held::new(&l, || a.get().clone())),
                        Some(Handle::E(a)) => Handle::E(Held::new(&l, || a.get().clone())),
                        None => continue,
                    };
                    strong.push(h);
                }
                SStep::DropOne => drop(strong.pop()),
                SStep::DropAll => strong.clear(),
                SStep::Downgrade => {
                    let w = match strong.last() {
                        Some(Handle::A(a)) => a.get().downgrade(),
                        Some(Handle::E(a)) => a.get().downgrade(),
                        None => weak.clone(),
                    };
                    c.query(|| (w.is_connected(), w.len()));
                }
                SStep::Upgrade => {
                    if let Some(h) = upgrade(&l, &weak) {
                        strong.push(Handle::A(h));
                    }
                }
                SStep::Either => {
                    let h = match strong.last() {
                        Some(Handle::A(a)) => Handle::E(Held::new(&l, || a.get().as_either())),
                        Some(Handle::E(a)) => Handle::E(Held::new(&l, || a.get().as_either())),
                        None => continue,
                    };
                    strong.push(h);
                }
                SStep::Query => c.query(|| (weak.is_connected(), weak.len())),
                SStep::Join | SStep::JoinDrop => {
                    let k = l.op();
                    l.ev(Ev::JStart { k });
                    let mut j: ActorJoinHandle = weak.join();
                    l.ev(Ev::JMade { k });
                    let r = once(&mut j).await;
                    if r.is_some() {
                        l.ev(Ev::JReady { k });
                    } else if *st == SStep::Join {
                        let ll = l.clone();
                        joins.push(Box::pin(async move {
                            j.await;
                            ll.ev(Ev::JReady { k });
                        }));
                    } else {
                        yield_now().await;
                        drop(j);
                    }
                }
                SStep::Scoped(n) => {
                    let k = l.op();
                    l.ev(Ev::JStart { k });
                    let inner = async move {
                        match n {
                            Some(n) => Yields(n).await,
                            None => std::future::pending().await,
                        }
                    };
                    let mut s = Box::pin(x::scoped(&weak, inner));
                    l.ev(Ev::JMade { k });
                    let r = once(&mut s).await;
                    match r {
                        Some(r) => l.ev(Ev::SReady { k, some: r.is_some() }),
                        None => {
                            let ll = l.clone();
                            joins.push(Box::pin(async move {
                                let r = s.await;
                                ll.ev(Ev::SReady { k, some: r.is_some() });
                            }));
                        }
                    }
                }
                SStep::Yield => yield_now().await,
            }
        }
        if me.drop_first {
            strong.clear();
        }
        phase_done(&phase);
        for f in open {
            f.await;
        }
        strong.clear();
        for f in joins {
            f.await;
        }
    });
}

/// Runs the whole program on the calling (shuttle) thread.  The log is complete afterwards.
pub fn run(case: &Arc<Case>, l: &L) -> Vec<String> {
    let c = C { case: case.clone(), l: l.clone() };
    let mut end = vec![];
    l.ev(Ev::StrongPos(1));
    let (addr, mailbox) = match case.cap {
        None => Mailbox::<Act>::unbounded(),
        Some(n) => Mailbox::<Act>::bounded(n as usize),
    };
    l.ev(Ev::StrongDef(1));
    let addr = Held(Some(addr), l.clone());
    let weak = addr.get().downgrade();
    let phase: Phase = Arc::new((shuttle::sync::Mutex::new(0), shuttle::sync::Condvar::new()));
    let mut mailboxes = vec![mailbox];
    while mailboxes.len() < case.mbs.len() {
        mailboxes.push(mailboxes[0].clone());
    }
    for i in 0..case.mbs.len() {
        let m = l.mb();
        l.ev(Ev::MbPos(1));
        l.ev(Ev::MbNew { mb: m });
        l.ev(Ev::MbDef(1));
        l.ev(Ev::MbMade { mb: m, natural: case.natural(i) });
    }
    let strong: Vec<_> = case.senders.iter().map(|_| Held::new(l, || addr.get().clone())).collect();
    let mut threads = vec![];
    for (i, m) in mailboxes.into_iter().enumerate() {
        let (c, phase) = (c.clone(), phase.clone());
        threads.push(shuttle::thread::spawn(move || {
            let (steps, end, nat) = (c.case.mbs[i].steps.clone(), c.case.end(i), c.case.natural(i));
            mailbox_thread(c, i, m, steps, end, nat, Some(phase))
        }));
    }
    for (i, s) in strong.into_iter().enumerate() {
        let (c, phase) = (c.clone(), phase.clone());
        threads.push(shuttle::thread::spawn(move || sender_thread(c, i, s, phase)));
    }
    if case.main_holds {
        let mut n = phase.0.lock().unwrap();
        while *n < case.senders.len() + case.mbs.len() {
            n = phase.1.wait(n).unwrap();
        }
    }
    drop(addr);
    for t in threads {
        t.join().unwrap();
    }
    if weak.is_connected() {
        end.push("still connected after everything was dropped".into());
    }
    if weak.len() != 0 {
        end.push(format!("len is {} after everything was dropped", weak.len()));
    }
    if weak.try_upgrade().is_some() {
        end.push("a weak address could be upgraded after everything was dropped".into());
    }
    if block_on(async { once(&mut weak.join()).await }).is_none() {
        end.push("a join handle made on a dead address is pending".into());
    }
    drop(weak);
    end
}
