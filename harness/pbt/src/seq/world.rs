//! Executes sequential histories against the crate under test (`super::x`) and compares every
//! observation with the reference model.
use super::x;
use crate::seq::model::*;
use crate::seq::ops::*;
use crate::spans;
use std::collections::BTreeMap;
use std::future::Future;
use std::ops::ControlFlow;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use futures_util::future::FusedFuture;
use x::address::ActorJoinHandle;
use x::message_channel::MessageChannel;
use x::refcount::{Either, Strong, Weak};
use x::{Actor, Address, Error, Handler, Mailbox, Receiver, WeakAddress};

pub struct Flag(AtomicUsize);
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag(AtomicUsize::new(0)))
    }
    pub fn woken(&self) -> bool {
        self.0.load(Ordering::SeqCst) > 0
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Start { tag: u32 },
    StartYield,
    StartDone { ok: bool },
    HStart { tag: u32, id: Id },
    HYield,
    StopSelf,
    StopAll,
    HPanic,
    HEnd { id: Id },
    HCancel,
    NSend { id: Id, bc: bool, prio: u32, out: NOut, woken: Vec<Wid> },
    StopBegin { tag: u32 },
    StopYield,
    StopEnd,
    InnerPoll,
    InnerDone,
    /// select or join begins
    SelBegin { ctl: usize, join: bool },
    /// the future given to select or join is polled
    FPoll { ctl: usize, ready: bool },
    /// select or join returned the value of the future
    SelLeft { ctl: usize, val: u32, woken: Vec<Wid> },
    /// select gave the future back
    SelRight { ctl: usize },
    OnceBegin,
    OnceEnd { brk: bool },
    PumpEnd,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NOut {
    Accepted,
    Blocked,
    Disc,
}

#[derive(Default)]
pub struct ShInner {
    ctls: Mutex<Vec<Arc<CtlState>>>,
    log: Mutex<Vec<Ev>>,
    flags: Mutex<Vec<Option<Arc<Flag>>>>,
    next_id: AtomicU32,
    live: Mutex<BTreeMap<(u8, u32), i32>>,
    /// some address has had more than one mailbox
    many_mbs: AtomicBool,
}
type Sh = Arc<ShInner>;
impl ShInner {
    fn ev(&self, e: Ev) {
        self.log.lock().unwrap().push(e)
    }
    fn id(&self) -> u32 {
        self.next_id.fetch_add(1, Ordering::SeqCst)
    }
    /// A new controllable future, owned by whoever receives as `w`.
    fn ctl(self: &Arc<Self>, kind: u8, w: Wid, addr: WeakAddress<Act>) -> Ctl {
        let mut v = self.ctls.lock().unwrap();
        let id = v.len();
        let st = Arc::new(CtlState {
            id,
            ready: AtomicBool::new(kind == 1),
            done: AtomicBool::new(false),
            waker: Mutex::new(None),
            w,
        });
        v.push(st.clone());
        let send = (kind >= 2).then_some((addr, kind));
        Ctl { id, st, send, tok: Token::new(TOK_CTL, id as u32, self), sh: self.clone() }
    }
    fn woken(&self) -> Vec<Wid> {
        let f = self.flags.lock().unwrap();
        (0..f.len()).filter(|&i| f[i].as_ref().is_some_and(|f| f.woken())).collect()
    }
}

const TOK_MSG: u8 = 0;
const TOK_ACT: u8 = 1;
const TOK_INNER: u8 = 2;
const TOK_CTL: u8 = 3;

pub struct CtlState {
    id: usize,
    ready: AtomicBool,
    /// dropped or completed
    done: AtomicBool,
    waker: Mutex<Option<Waker>>,
    w: Wid,
}
/// A future that completes when the history says so.
struct Ctl {
    id: usize,
    st: Arc<CtlState>,
    /// on its first poll it sends a message to the actor
    send: Option<(WeakAddress<Act>, u8)>,
    #[allow(dead_code)]
    tok: Token,
    sh: Sh,
}
fn ctl_value(id: usize) -> u32 {
    5_000_000 + id as u32
}
impl Future for Ctl {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let ready = self.st.ready.load(Ordering::SeqCst);
        if let Some((addr, kind)) = self.send.take() {
            nested_send(&self.sh.clone(), &addr, false, (kind - 2) % 3);
        }
        *self.st.waker.lock().unwrap() = Some(cx.waker().clone());
        self.sh.ev(Ev::FPoll { ctl: self.id, ready });
        if ready {
            Poll::Ready(ctl_value(self.id))
        } else {
            Poll::Pending
        }
    }
}
impl Drop for Ctl {
    fn drop(&mut self) {
        self.st.done.store(true, Ordering::SeqCst);
        let w = self.st.waker.lock().unwrap().take();
        drop(w);
    }
}
fn nested_send(sh: &Sh, addr: &WeakAddress<Act>, bc: bool, p: u8) {
    let id = sh.id();
    let msg = Msg { id, script: Arc::new(vec![]), tok: Token::new(TOK_MSG, id, sh) };
    let prio = prio_value(p);
    let out = if bc {
        let f = addr.broadcast(BMsg(msg)).priority(prio);
        spans::sending(id, true, || poll_outcome(f))
    } else {
        let f = addr.send(msg).priority(prio).detach();
        spans::sending(id, true, || poll_outcome(f))
    };
    sh.ev(Ev::NSend { id, bc, prio, out, woken: sh.woken() });
}

/// Counts the live copies of an object.
pub struct Token {
    key: (u8, u32),
    sh: Sh,
}
impl Token {
    fn new(kind: u8, id: u32, sh: &Sh) -> Token {
        *sh.live.lock().unwrap().entry((kind, id)).or_insert(0) += 1;
        Token { key: (kind, id), sh: sh.clone() }
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Token::new(self.key.0, self.key.1, &self.sh)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        *self.sh.live.lock().unwrap().get_mut(&self.key).unwrap() -= 1;
    }
}

#[derive(Clone)]
pub struct Msg {
    id: Id,
    script: Arc<Vec<HOp>>,
    tok: Token,
}
#[derive(Clone)]
pub struct BMsg(Msg);
/// An item of a sink.
pub struct UMsg(Msg);

pub struct Act {
    tag: u32,
    w: Wid,
    sh: Sh,
    start_yields: u8,
    fail: bool,
    stop_yields: u8,
    _tok: Token,
}

struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

pub const STOP_BASE: u32 = 1_000_000;
pub const FAIL_BASE: u32 = 2_000_000;
pub fn reply_of(id: Id) -> u32 {
    id.wrapping_mul(7).wrapping_add(3)
}

/// The panic payload of generated handlers.
pub struct Planned;

impl Actor for Act {
    type Stop = u32;
    async fn started(&mut self, mailbox: &Mailbox<Self>) -> Result<(), u32> {
        self.sh.ev(Ev::Start { tag: self.tag });
        let _ = mailbox.address();
        for _ in 0..self.start_yields {
            self.sh.ev(Ev::StartYield);
            YieldOnce(false).await;
        }
        self.sh.ev(Ev::StartDone { ok: !self.fail });
        if self.fail {
            Err(FAIL_BASE + self.tag)
        } else {
            Ok(())
        }
    }
    async fn stopped(self) -> u32 {
        self.sh.ev(Ev::StopBegin { tag: self.tag });
        for _ in 0..self.stop_yields {
            self.sh.ev(Ev::StopYield);
            YieldOnce(false).await;
        }
        self.sh.ev(Ev::StopEnd);
        STOP_BASE + self.tag
    }
}

struct Guard {
    sh: Sh,
    done: bool,
}
impl Drop for Guard {
    fn drop(&mut self) {
        if !self.done {
            self.sh.ev(Ev::HCancel);
        }
    }
}

impl Act {
    async fn work(&mut self, m: Msg, ctx: &mut x::Context<Self>) -> u32 {
        let sh = self.sh.clone();
        sh.ev(Ev::HStart { tag: self.tag, id: m.id });
        let mut guard = Guard { sh: sh.clone(), done: false };
        for op in m.script.iter() {
            match op {
                HOp::Yield => {
                    sh.ev(Ev::HYield);
                    YieldOnce(false).await;
                }
                HOp::StopSelf => {
                    sh.ev(Ev::StopSelf);
                    ctx.stop_self();
                }
                HOp::StopAll => {
                    ctx.stop_all();
                    sh.ev(Ev::StopAll);
                }
                HOp::Panic => {
                    sh.ev(Ev::HPanic);
                    std::panic::resume_unwind(Box::new(Planned));
                }
                HOp::SendOwn(p) => nested_send(&sh, &ctx.mailbox().address(), false, *p),
                HOp::BcastOwn(p) => nested_send(&sh, &ctx.mailbox().address(), true, *p),
                HOp::Select(k) => {
                    let ctl = sh.ctl(*k, self.w, ctx.mailbox().address());
                    do_select(ctx.mailbox(), self, ctl).await
                }
                HOp::Join(k) => {
                    let ctl = sh.ctl(*k, self.w, ctx.mailbox().address());
                    do_join(ctx.mailbox(), self, ctl).await
                }
            }
        }
        guard.done = true;
        sh.ev(Ev::HEnd { id: m.id });
        reply_of(m.id)
    }
}
async fn do_select(mb: &Mailbox<Act>, act: &mut Act, ctl: Ctl) {
    let sh = act.sh.clone();
    let id = ctl.id;
    sh.ev(Ev::SelBegin { ctl: id, join: false });
    match x::select(mb, act, ctl).await {
        futures_util::future::Either::Left(val) => sh.ev(Ev::SelLeft { ctl: id, val, woken: sh.woken() }),
        futures_util::future::Either::Right(f) => sh.ev(Ev::SelRight { ctl: f.id }),
    }
}
async fn do_join(mb: &Mailbox<Act>, act: &mut Act, ctl: Ctl) {
    let sh = act.sh.clone();
    let id = ctl.id;
    sh.ev(Ev::SelBegin { ctl: id, join: true });
    let val = if id % 2 == 0 { x::join(mb, act, ctl).await } else { x::join(mb, act, async move { ctl.await }).await };
    sh.ev(Ev::SelLeft { ctl: id, val, woken: sh.woken() });
}
/// An event loop of select, join and yield_once.
async fn pump(mb: Mailbox<Act>, mut act: Act, plan: Vec<PStep>) -> u32 {
    let sh = act.sh.clone();
    sh.ev(Ev::Start { tag: act.tag });
    for s in plan {
        match s {
            PStep::Select(k) => {
                let ctl = sh.ctl(k, act.w, mb.address());
                do_select(&mb, &mut act, ctl).await
            }
            PStep::Join(k) => {
                let ctl = sh.ctl(k, act.w, mb.address());
                do_join(&mb, &mut act, ctl).await
            }
            PStep::Once => {
                sh.ev(Ev::OnceBegin);
                let brk = x::yield_once(&mb, &mut act).await.is_break();
                sh.ev(Ev::OnceEnd { brk });
            }
        }
    }
    sh.ev(Ev::PumpEnd);
    STOP_BASE + act.tag
}
fn poll_outcome<T>(f: impl Future<Output = Result<T, Error>>) -> NOut {
    let flag = Flag::new();
    let w = Waker::from(flag);
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Pending => NOut::Blocked,
        Poll::Ready(Ok(_)) => NOut::Accepted,
        Poll::Ready(Err(_)) => NOut::Disc,
    }
}
impl Handler<Msg> for Act {
    type Return = u32;
    async fn handle(&mut self, m: Msg, ctx: &mut x::Context<Self>) -> u32 {
        spans::handler(m.id, true, self.work(m, ctx)).await
    }
}
impl Handler<BMsg> for Act {
    type Return = ();
    async fn handle(&mut self, m: BMsg, ctx: &mut x::Context<Self>) {
        spans::handler(m.0.id, !self.sh.many_mbs.load(Ordering::SeqCst), self.work(m.0, ctx)).await;
    }
}

impl Handler<UMsg> for Act {
    type Return = ();
    async fn handle(&mut self, m: UMsg, ctx: &mut x::Context<Self>) {
        spans::handler(m.0.id, true, self.work(m.0, ctx)).await;
    }
}

type Ch_<Rc> = MessageChannel<Msg, u32, Rc>;
enum Handle {
    S(Address<Act, Strong>),
    W(WeakAddress<Act>),
    E(Address<Act, Either>),
    CS(Ch_<Strong>),
    CW(Ch_<Weak>),
    CE(Ch_<Either>),
}
macro_rules! each_addr {
    ($h:expr, $a:ident => $e:expr, $c:ident => $f:expr) => {
        match $h {
            Handle::S($a) => $e,
            Handle::W($a) => $e,
            Handle::E($a) => $e,
            Handle::CS($c) => $f,
            Handle::CW($c) => $f,
            Handle::CE($c) => $f,
        }
    };
}

struct HandleEnt {
    h: Handle,
    c: Ch,
    strong: bool,
    /// is, or derives from, what the history made a channel
    chan: bool,
}
struct MbEnt {
    m: Mailbox<Act>,
    mb: Mb,
}
type DispFut = Pin<Box<dyn Future<Output = ControlFlow<()>> + Send>>;
type HeldFn = Box<dyn FnOnce(Act) -> DispFut + Send>;
struct RecvEnt {
    f: Pin<Box<dyn Future<Output = HeldFn> + Send>>,
    w: Wid,
    /// it said it was terminated when it was not, or the other way round
    odd: Arc<AtomicBool>,
}
struct HeldEnt {
    f: HeldFn,
    mb: Mb,
    ident: Ident,
}
/// What an actor is doing: a stack of these, the innermost last.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fr {
    // an actor in `run`
    NotStarted,
    Starting,
    Waiting,
    Stopping,
    Stopped,
    // an actor in an event loop of its own
    Pump,
    PumpDone,
    Once { brk: Option<bool> },
    // the dispatch of one message
    Disp { brk: Option<bool> },
    Handling { id: Id, stop_self: bool },
    Sel { ctl: usize, join: bool, stopped: bool, ready: bool },
}
impl Fr {
    /// waits for a message
    fn receives(&self) -> bool {
        matches!(self, Fr::Waiting | Fr::Once { brk: None } | Fr::Sel { stopped: false, .. })
    }
}
/// What one poll of an actor or a dispatch did.
#[derive(Default)]
struct Did {
    yielded: bool,
    panicked: bool,
    failed: bool,
    stop_done: bool,
}
struct DispEnt {
    f: DispFut,
    mb: Mb,
    w: Wid,
    tag: u32,
    st: Vec<Fr>,
    flag: Option<Arc<Flag>>,
}
struct ActorEnt {
    f: Pin<Box<dyn Future<Output = u32> + Send>>,
    w: Wid,
    mb: Mb,
    tag: u32,
    st: Vec<Fr>,
    fail: bool,
}
type BoxF<T> = Pin<Box<dyn Future<Output = T> + Send>>;
enum SFut {
    Reply(BoxF<Result<u32, Error>>),
    Detach(BoxF<Result<Receiver<u32>, Error>>),
    Recv(Receiver<u32>),
    Bcast(BoxF<Result<(), Error>>),
}
struct SendEnt {
    f: SFut,
    id: Id,
    bc: bool,
    c: Ch,
    strong_hold: bool,
    flag: Option<Arc<Flag>>,
    /// state of the message when this was last polled (and found pending)
    blocked_then: bool,
}
type DynSink = Pin<Box<dyn futures_util::sink::Sink<UMsg, Error = Error> + Send>>;
struct SinkEnt {
    s: DynSink,
    key: u32,
    c: Ch,
    strong: bool,
    /// the item in flight
    cur: Option<Id>,
    strong_hold: bool,
    flag: Option<Arc<Flag>>,
    blocked_then: bool,
}
struct JoinEnt {
    f: JFut,
    c: Ch,
    /// created on a disconnected address
    ready: bool,
    flag: Option<Arc<Flag>>,
    inner_id: u32,
    polls_left: u8,
}
enum JFut {
    Join(ActorJoinHandle),
    Scoped(BoxF<Option<u32>>),
}
struct Inner {
    polls: u8,
    sh: Sh,
    id: u32,
    _tok: Token,
}
impl Future for Inner {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        self.sh.ev(Ev::InnerPoll);
        if self.polls == 0 {
            self.sh.ev(Ev::InnerDone);
            return Poll::Ready(self.id);
        }
        self.polls -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub struct World {
    sh: Sh,
    pub md: Model,
    obs: Vec<WeakAddress<Act>>,
    handles: Vec<HandleEnt>,
    mbs: Vec<MbEnt>,
    recvs: Vec<RecvEnt>,
    big: bool,
    held: Vec<HeldEnt>,
    disps: Vec<DispEnt>,
    actors: Vec<ActorEnt>,
    sends: Vec<SendEnt>,
    joins: Vec<JoinEnt>,
    sinks: Vec<SinkEnt>,
    tag: u32,
    /// Carry out every operation on an address through a channel made from a clone of it.
    via_chan: bool,
    /// Never make a channel: what would be one stays an address.
    no_chan: bool,
    /// Trace of observations (for differential runs).
    pub only: Option<&'static [Kind]>,
    pub trace: Vec<String>,
    pub tracing: bool,
}

/// The numbers in the fields of what Debug prints.
fn debug_counts(x: &impl std::fmt::Debug) -> Vec<u64> {
    let s = format!("{x:?}");
    let s = s.rsplit('{').next().unwrap_or("");
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse().ok()).collect()
}

fn pick<T>(v: &[T], i: u8) -> Option<usize> {
    if v.is_empty() {
        None
    } else {
        Some(i as usize % v.len())
    }
}

macro_rules! tr {
    ($s:expr, $($a:tt)*) => { if $s.tracing { let t = format!($($a)*); $s.trace.push(t); } };
}

/// How the operations on handles are carried out.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// as the history says
    Normal,
    /// as the history says; of the mere observations, only those of these kinds matter
    Only(&'static [Kind]),
    /// through addresses only
    Direct,
    /// through channels wherever possible
    Via,
}

pub fn run_case(case: &Case, mode: Mode, tracing: bool) -> (R, Box<World>) {
    let mut w = Box::new(World {
        sh: Arc::new(ShInner::default()),
        md: Model::new(),
        obs: vec![],
        handles: vec![],
        mbs: vec![],
        recvs: vec![],
        big: false,
        held: vec![],
        disps: vec![],
        actors: vec![],
        sends: vec![],
        joins: vec![],
        sinks: vec![],
        tag: 0,
        via_chan: mode == Mode::Via,
        no_chan: mode == Mode::Direct,
        only: match mode {
            Mode::Only(k) => Some(k),
            _ => None,
        },
        trace: vec![],
        tracing,
    });
    let r = match catch_unwind(AssertUnwindSafe(|| w.run(case))) {
        Ok(r) => r.map_err(|mut d| {
            d.abort |= w.md.guessed;
            d
        }),
        Err(p) => div(Kind::LibPanic, format!("panic: {}", crate::util::panic_text(&p))),
    };
    (r, w)
}

impl World {
    /// Forget everything without running destructors (after a divergence the state may be unsound).
    pub fn leak(self: Box<Self>) {
        std::mem::forget(self);
    }

    fn run(&mut self, case: &Case) -> R {
        for cap in &case.caps {
            let (a, m) = match cap {
                None => Mailbox::<Act>::unbounded(),
                Some(n) => Mailbox::<Act>::bounded(*n as usize),
            };
            let c = self.md.add_chan(cap.map(|n| n as usize));
            self.obs.push(m.address());
            let mb = self.md.add_mb(c);
            self.mbs.push(MbEnt { m, mb });
            self.handles.push(HandleEnt { h: Handle::S(a), c, strong: true, chan: false });
            self.md.strong_inc(c);
            let cap2 = self.obs[c].capacity();
            if cap2 != cap.map(|n| n as usize) {
                return div(Kind::Capacity, format!("capacity {cap2:?}, configured {cap:?}"));
            }
        }
        if case.caps.len() > 1 {
            self.md.f(F::Multi);
        }
        self.big = case.big;
        for i in 0..case.extra_mb {
            self.step(&Op::MbClone(i))?;
        }
        for i in 0..case.actors {
            self.step(&Op::Spawn { m: i, own: false, start_yields: 0, fail: false, stop_yields: 0, poll: i % 2 == 0 })?;
        }
        for (i, op) in case.ops.iter().enumerate() {
            if let Err(mut d) = self.step(op).and_then(|_| self.check()) {
                d.msg = format!("op #{i} {op:?}: {}", d.msg);
                return Err(d);
            }
        }
        if let Err(mut d) = self.finish(case.end) {
            d.msg = format!("winding up (end={}): {}", case.end, d.msg);
            return Err(d);
        }
        Ok(())
    }

    fn limit(&self) -> usize {
        if self.big { 72 } else { 8 }
    }

    // ---- plumbing -------------------------------------------------------------------------------
    fn new_flag(&mut self, w: Wid) -> Arc<Flag> {
        let f = Flag::new();
        let mut v = self.sh.flags.lock().unwrap();
        if v.len() <= w {
            v.resize_with(w + 1, || None);
        }
        if v[w].is_some() {
            self.md.f(F::WakerSwapped);
        }
        v[w] = Some(f.clone());
        f
    }
    fn wflag(&self, w: Wid) -> bool {
        self.sh.flags.lock().unwrap().get(w).is_some_and(|f| f.as_ref().is_some_and(|f| f.woken()))
    }
    fn woken_fn(&self) -> impl Fn(Wid) -> bool + 'static {
        let sh = self.sh.clone();
        move |w| sh.flags.lock().unwrap().get(w).is_some_and(|f| f.as_ref().is_some_and(|f| f.woken()))
    }
    fn take_log(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.sh.log.lock().unwrap())
    }
    fn new_act(&mut self, w: Wid, start_yields: u8, fail: bool, stop_yields: u8) -> Act {
        self.tag += 1;
        Act {
            tag: self.tag,
            w,
            sh: self.sh.clone(),
            start_yields,
            fail,
            stop_yields,
            _tok: Token::new(TOK_ACT, self.tag, &self.sh),
        }
    }
    fn pick_handle(&self, i: u8) -> Option<usize> {
        pick(&self.handles, i)
    }

    fn push_handle(&mut self, h: Handle, c: Ch, strong: bool, chan: bool) {
        if strong {
            self.md.strong_inc(c);
        }
        self.handles.push(HandleEnt { h, c, strong, chan });
    }

    pub fn step(&mut self, op: &Op) -> R {
        let _ambient = spans::op();
        match op {
            Op::HClone(i) => {
                let Some(i) = self.pick_handle(*i) else { return Ok(()) };
                let (c, strong) = (self.handles[i].c, self.handles[i].strong);
                let h = match &self.handles[i].h {
                    Handle::S(a) => Handle::S(a.clone()),
                    Handle::W(a) => Handle::W(a.clone()),
                    Handle::E(a) => Handle::E(a.clone()),
                    Handle::CS(a) => Handle::CS(a.clone()),
                    Handle::CW(a) => Handle::CW(a.clone()),
                    Handle::CE(a) => Handle::CE(a.clone()),
                };
                self.push_handle(h, c, strong, self.handles[i].chan);
            }
            Op::HDown(i) => {
                let Some(i) = self.pick_handle(*i) else { return Ok(()) };
                let c = self.handles[i].c;
                let h = match &self.handles[i].h {
                    Handle::S(a) => Handle::W(a.downgrade()),
                    Handle::E(a) => Handle::W(a.downgrade()),
                    Handle::CS(a) => Handle::CW(a.downgrade()),
                    Handle::CE(a) => Handle::CW(a.downgrade()),
                    _ => return Ok(()),
                };
                self.push_handle(h, c, false, self.handles[i].chan);
            }
            Op::HUp(i) => {
                // upgrade a weak address (through the mailbox's address if there is none)
                let weak: Vec<usize> = (0..self.handles.len())
                    .filter(|&k| matches!(self.handles[k].h, Handle::W(_)) && !self.handles[k].chan)
                    .collect();
                let (a, c) = match pick(&weak, *i) {
                    Some(k) => {
                        let Handle::W(a) = &self.handles[weak[k]].h else { unreachable!() };
                        (a.clone(), self.handles[weak[k]].c)
                    }
                    None => {
                        let c = *i as usize % self.obs.len();
                        (self.obs[c].clone(), c)
                    }
                };
                let up = a.try_upgrade();
                let expect = self.md.chans[c].strong > 0;
                if up.is_some() != expect {
                    return div(
                        Kind::Upgrade,
                        format!("upgrade gave {} with {} strong handles", up.is_some(), self.md.chans[c].strong),
                    );
                }
                match up {
                    Some(a) => {
                        self.md.f(F::UpOk);
                        self.push_handle(Handle::S(a), c, true, false);
                    }
                    None => self.md.f(F::UpFail),
                }
            }
            Op::HEither(i) => {
                let Some(i) = self.pick_handle(*i) else { return Ok(()) };
                let (c, strong) = (self.handles[i].c, self.handles[i].strong);
                let h = match &self.handles[i].h {
                    Handle::S(a) => Handle::E(a.as_either()),
                    Handle::W(a) => Handle::E(a.as_either()),
                    Handle::E(a) => Handle::E(a.as_either()),
                    Handle::CS(a) => Handle::CE(a.as_either()),
                    Handle::CW(a) => Handle::CE(a.as_either()),
                    Handle::CE(a) => Handle::CE(a.as_either()),
                };
                self.md.f(F::Either);
                if strong {
                    self.md.f(F::EitherStrong);
                }
                self.push_handle(h, c, strong, self.handles[i].chan);
            }
            Op::HChan(i) => {
                let Some(i) = self.pick_handle(*i) else { return Ok(()) };
                let (c, strong) = (self.handles[i].c, self.handles[i].strong);
                if self.handles[i].chan {
                    return Ok(());
                }
                let h = match &self.handles[i].h {
                    Handle::S(a) if self.no_chan => Handle::S(a.clone()),
                    Handle::W(a) if self.no_chan => Handle::W(a.clone()),
                    Handle::E(a) if self.no_chan => Handle::E(a.clone()),
                    Handle::S(a) => Handle::CS(MessageChannel::new(a.clone())),
                    Handle::W(a) => Handle::CW(a.clone().into()),
                    Handle::E(a) => Handle::CE(MessageChannel::new(a.clone())),
                    _ => return Ok(()),
                };
                self.push_handle(h, c, strong, true);
            }
            Op::HDrop(i) => {
                let Some(i) = self.pick_handle(*i) else { return Ok(()) };
                let e = self.handles.remove(i);
                drop(e.h);
                if e.strong {
                    self.md.strong_dec(e.c);
                }
            }
            Op::HQuery(i) => {
                let Some(i) = self.pick_handle(*i) else { return Ok(()) };
                let via = self.via_chan;
                let e = &self.handles[i];
                let obs = &self.obs[e.c];
                // what Debug says of addresses and mailboxes, compared to a weak address
                let mut counts = None;
                macro_rules! q {
                    ($a:expr) => {{
                        let (here, there) = (debug_counts(&$a), debug_counts(obs));
                        if here != there {
                            counts = Some((here, there));
                        }
                        ($a.is_connected(), $a.len(), $a.is_empty(), $a.capacity())
                    }};
                }
                let got = each_addr!(&e.h, a => {
                    if via {
                        let ch: MessageChannel<Msg, u32, _> = a.clone().into();
                        let r = q!(ch);
                        drop(ch);
                        r
                    } else {
                        q!(a)
                    }
                }, ch => q!(ch));
                if let Some((here, there)) = counts {
                    if self.wants(Kind::Channel) {
                        return div(Kind::Channel, format!("Debug shows {here:?} addresses and mailboxes, through a weak address {there:?}"));
                    }
                }
                let len = self.md.len(e.c);
                let want = (self.md.connected(e.c), len, len == 0, self.md.chans[e.c].cap);
                if got != want {
                    let k = if got.0 != want.0 {
                        Kind::Connected
                    } else if got.3 != want.3 {
                        Kind::Capacity
                    } else {
                        Kind::Len
                    };
                    if !self.wants(k) {
                        return Ok(());
                    }
                    return div(
                        k,
                        format!("(is_connected, len, is_empty, capacity) = {got:?}, should be {want:?}"),
                    );
                }
                tr!(self, "query {got:?}");
            }
            Op::Send { h, prio, detach, script, poll } => {
                let Some(i) = self.pick_handle(*h) else { return Ok(()) };
                let id = self.sh.id();
                let msg = Msg {
                    id,
                    script: Arc::new(script.clone()),
                    tok: Token::new(TOK_MSG, id, &self.sh),
                };
                let e = &self.handles[i];
                let (c, strong) = (e.c, e.strong);
                let via = self.via_chan;
                // the order of the builder calls varies with the id
                macro_rules! build {
                    ($f:expr) => {{
                        let f = $f;
                        match (*detach, *prio) {
                            (false, None) => SFut::Reply(Box::pin(f)),
                            (false, Some(p)) => SFut::Reply(Box::pin(f.priority(prio_value(p)))),
                            (true, None) => SFut::Detach(Box::pin(f.detach())),
                            (true, Some(p)) if id % 2 == 0 => {
                                SFut::Detach(Box::pin(f.priority(prio_value(p)).detach()))
                            }
                            (true, Some(p)) => SFut::Detach(Box::pin(f.detach().priority(prio_value(p)))),
                        }
                    }};
                }
                let f = each_addr!(&e.h, a => {
                    if via {
                        let ch: MessageChannel<Msg, u32, _> = a.clone().into();
                        build!(ch.send(msg))
                    } else {
                        build!(a.send(msg))
                    }
                }, ch => {
                    build!(ch.send(msg))
                });
                if e.chan {
                    self.md.f(F::ChanSend);
                }
                if !strong {
                    self.md.f(F::WeakSend);
                }
                if *detach {
                    self.md.f(F::Detached);
                }
                if strong {
                    self.md.strong_inc(c);
                }
                self.md.add_msg(id, false, prio.map_or(0, prio_value), c);
                self.sends.push(SendEnt {
                    f,
                    id,
                    bc: false,
                    c,
                    strong_hold: strong,
                    flag: None,
                    blocked_then: false,
                });
                if *poll {
                    self.poll_send(self.sends.len() - 1)?;
                }
            }
            Op::Burst { h, n, prio } => {
                for _ in 0..*n {
                    self.step(&Op::Send { h: *h, prio: *prio, detach: true, script: vec![], poll: true })?;
                }
            }
            Op::Many { n, by, op } => {
                for k in 0..*n {
                    self.step(&op.shifted(k.wrapping_mul(*by)))?;
                }
            }
            Op::BurstB { h, n, prio } => {
                for _ in 0..*n {
                    self.step(&Op::Bcast { h: *h, prio: *prio, script: vec![], poll: true })?;
                }
            }
            Op::Bcast { h, prio, script, poll } => {
                let addrs: Vec<usize> = (0..self.handles.len())
                    .filter(|&k| !self.handles[k].chan)
                    .collect();
                let Some(k) = pick(&addrs, *h) else { return Ok(()) };
                let id = self.sh.id();
                let msg = BMsg(Msg {
                    id,
                    script: Arc::new(script.clone()),
                    tok: Token::new(TOK_MSG, id, &self.sh),
                });
                let e = &self.handles[addrs[k]];
                let (c, strong) = (e.c, e.strong);
                macro_rules! build {
                    ($a:expr) => {{
                        let f = $a.broadcast(msg);
                        match *prio {
                            None => SFut::Bcast(Box::pin(f)),
                            Some(p) => SFut::Bcast(Box::pin(f.priority(prio_value(p)))),
                        }
                    }};
                }
                let f = match &e.h {
                    Handle::S(a) => build!(a),
                    Handle::W(a) => build!(a),
                    Handle::E(a) => build!(a),
                    _ => unreachable!(),
                };
                if strong {
                    self.md.strong_inc(c);
                }
                self.md.add_msg(id, true, prio.map_or(0, prio_value), c);
                self.sends.push(SendEnt {
                    f,
                    id,
                    bc: true,
                    c,
                    strong_hold: strong,
                    flag: None,
                    blocked_then: false,
                });
                if *poll {
                    self.poll_send(self.sends.len() - 1)?;
                }
            }
            Op::Sink { h, chan } => {
                // (a channel for another type of message cannot be made from a channel)
                let addrs: Vec<usize> = (0..self.handles.len())
                    .filter(|&k| matches!(self.handles[k].h, Handle::S(_) | Handle::W(_) | Handle::E(_)))
                    .collect();
                let Some(k) = pick(&addrs, *h) else { return Ok(()) };
                let chan = (*chan || self.via_chan) && !self.no_chan;
                let e = self.handles.remove(addrs[k]);
                fn sink<Rc: x::refcount::RefCounter + Into<Either>>(a: Address<Act, Rc>, chan: bool) -> DynSink {
                    if chan {
                        Box::pin(MessageChannel::<UMsg, (), Rc>::new(a).into_sink())
                    } else {
                        Box::pin(a.into_sink())
                    }
                }
                let s = match e.h {
                    Handle::S(a) => sink(a, chan),
                    Handle::W(a) => sink(a, chan),
                    Handle::E(a) => sink(a, chan),
                    _ => unreachable!(),
                };
                let key = self.sh.id();
                self.sinks.push(SinkEnt {
                    s,
                    key,
                    c: e.c,
                    strong: e.strong,
                    cur: None,
                    strong_hold: false,
                    flag: None,
                    blocked_then: false,
                });
            }
            Op::SinkSend { s, script, flush } => {
                let Some(i) = pick(&self.sinks, *s) else { return Ok(()) };
                let key = self.sinks[i].key;
                self.poll_sink(i, 0)?;
                let Some(i) = self.sinks.iter().position(|e| e.key == key) else { return Ok(()) };
                if self.sinks[i].cur.is_some() {
                    return Ok(());
                }
                let id = self.sh.id();
                let msg = UMsg(Msg { id, script: Arc::new(script.clone()), tok: Token::new(TOK_MSG, id, &self.sh) });
                let e = &mut self.sinks[i];
                let r = e.s.as_mut().start_send(msg);
                if r.is_err() {
                    return div(Kind::Sink, format!("start_send gave {r:?} although the sink was ready"));
                }
                e.cur = Some(id);
                e.strong_hold = e.strong;
                e.blocked_then = false;
                e.flag = None;
                let c = e.c;
                if e.strong {
                    self.md.strong_inc(c);
                }
                self.md.add_msg(id, false, 0, c);
                self.md.f(F::SinkSend);
                if *flush {
                    self.poll_sink(i, 1)?;
                }
            }
            Op::SinkPoll { s, how } => {
                if let Some(i) = pick(&self.sinks, *s) {
                    self.poll_sink(i, *how)?;
                }
            }
            Op::SinkDrop(s) => {
                if let Some(i) = pick(&self.sinks, *s) {
                    self.drop_sink(i);
                }
            }
            Op::PollSend(i) => {
                if let Some(i) = pick(&self.sends, *i) {
                    self.poll_send(i)?;
                }
            }
            Op::DropSend(i) => {
                if let Some(i) = pick(&self.sends, *i) {
                    self.drop_send(i);
                }
            }
            Op::MbClone(i) => {
                let Some(i) = pick(&self.mbs, *i) else { return Ok(()) };
                if self.mbs.len() + self.actors.len() >= self.limit() {
                    return Ok(());
                }
                let m = self.mbs[i].m.clone();
                self.sh.many_mbs.store(true, Ordering::SeqCst);
                let mb = self.md.add_mb(self.md.mbs[self.mbs[i].mb].chan);
                self.md.f(F::TwoOnAddr);
                self.mbs.push(MbEnt { m, mb });
            }
            Op::MbDrop(i) => {
                let Some(i) = pick(&self.mbs, *i) else { return Ok(()) };
                let e = self.mbs.remove(i);
                drop(e.m);
                self.md.hold_dec(e.mb);
            }
            Op::Next { m, poll } => {
                let Some(i) = pick(&self.mbs, *m) else { return Ok(()) };
                if self.recvs.len() >= self.limit() {
                    return Ok(());
                }
                let mb = self.mbs[i].mb;
                let mut f = self.mbs[i].m.next();
                let odd = Arc::new(AtomicBool::new(f.is_terminated()));
                let odd2 = odd.clone();
                let f = async move {
                    let m = std::future::poll_fn(|cx| {
                        let r = Pin::new(&mut f).poll(cx);
                        if f.is_terminated() != r.is_ready() {
                            odd2.store(true, Ordering::SeqCst);
                        }
                        r
                    })
                    .await;
                    Box::new(move |mut act: Act| {
                        Box::pin(async move {
                            let mut d = spans::Ask::new(m.dispatch_to(&mut act));
                            std::future::poll_fn(|cx| d.poll(cx, |d| super::span_id!(d), |d, cx| d.poll(cx))).await
                        }) as DispFut
                    }) as HeldFn
                };
                self.md.hold_inc(mb);
                let w = self.md.add_waiter(mb);
                self.recvs.push(RecvEnt { f: Box::pin(f), w, odd });
                if *poll {
                    self.poll_recv(self.recvs.len() - 1, false)?;
                }
            }
            Op::Serve { m, n } => {
                for _ in 0..*n {
                    let before = self.recvs.len();
                    self.step(&Op::Next { m: *m, poll: true })?;
                    if self.recvs.len() > before || before >= self.limit() {
                        break;
                    }
                    self.check()?;
                }
            }
            Op::PollRecv { r, hold } => {
                if let Some(i) = pick(&self.recvs, *r) {
                    self.poll_recv(i, *hold)?;
                }
            }
            Op::DropRecv(i) => {
                if let Some(i) = pick(&self.recvs, *i) {
                    self.drop_recv(i)?;
                }
            }
            Op::DispatchHeld(i) => {
                let Some(i) = pick(&self.held, *i) else { return Ok(()) };
                let e = self.held.remove(i);
                self.dispatch(e.f, e.mb, Some(e.ident), None)?;
            }
            Op::DropHeld(i) => {
                let Some(i) = pick(&self.held, *i) else { return Ok(()) };
                let e = self.held.remove(i);
                if spans::ask_only() {
                    let act = self.new_act(0, 0, false, 0);
                    self.tag -= 1;
                    let mut f = (e.f)(act);
                    let _ = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
                    drop(f);
                } else {
                    drop(e.f);
                }
                if let Ident::Msg(id) = e.ident {
                    self.md.interrupted(id);
                }
                self.md.f(F::HeldDropped);
                self.md.hold_dec(e.mb);
            }
            Op::PollDisp(i) => {
                if let Some(i) = pick(&self.disps, *i) {
                    self.poll_disp(i, None)?;
                }
            }
            Op::DropDisp(i) => {
                if let Some(i) = pick(&self.disps, *i) {
                    self.drop_disp(i)?;
                }
            }
            Op::Spawn { m, own, start_yields, fail, stop_yields, poll } => {
                let Some(i) = pick(&self.mbs, *m) else { return Ok(()) };
                if self.mbs.len() + self.actors.len() >= self.limit() {
                    return Ok(());
                }
                let (mail, mb) = if *own {
                    let e = self.mbs.remove(i);
                    (e.m, e.mb)
                } else {
                    let m = self.mbs[i].m.clone();
                    let c = self.md.mbs[self.mbs[i].mb].chan;
                    self.md.f(F::TwoOnAddr);
                    self.sh.many_mbs.store(true, Ordering::SeqCst);
                    (m, self.md.add_mb(c))
                };
                let w = self.md.add_waiter(mb);
                let act = self.new_act(w, *start_yields, *fail, *stop_yields);
                let tag = act.tag;
                self.actors.push(ActorEnt {
                    f: Box::pin(x::run(mail, act)),
                    w,
                    mb,
                    tag,
                    st: vec![Fr::NotStarted],
                    fail: *fail,
                });
                self.md.f(F::Ran);
                if *poll {
                    self.poll_actor(self.actors.len() - 1)?;
                }
            }
            Op::Pump { m, own, plan, poll } => {
                let Some(i) = pick(&self.mbs, *m) else { return Ok(()) };
                if self.mbs.len() + self.actors.len() >= self.limit() {
                    return Ok(());
                }
                let (mail, mb) = if *own {
                    let e = self.mbs.remove(i);
                    (e.m, e.mb)
                } else {
                    let m = self.mbs[i].m.clone();
                    let c = self.md.mbs[self.mbs[i].mb].chan;
                    self.md.f(F::TwoOnAddr);
                    self.sh.many_mbs.store(true, Ordering::SeqCst);
                    (m, self.md.add_mb(c))
                };
                let w = self.md.add_waiter(mb);
                let act = self.new_act(w, 0, false, 0);
                let tag = act.tag;
                self.actors.push(ActorEnt {
                    f: Box::pin(pump(mail, act, plan.clone())),
                    w,
                    mb,
                    tag,
                    st: vec![Fr::NotStarted],
                    fail: false,
                });
                if *poll {
                    self.poll_actor(self.actors.len() - 1)?;
                }
            }
            Op::Complete(i) => self.complete(*i)?,
            Op::PollActor(i) => {
                if let Some(i) = pick(&self.actors, *i) {
                    self.poll_actor(i)?;
                }
            }
            Op::DropActor(i) => {
                if let Some(i) = pick(&self.actors, *i) {
                    self.md.f(F::ActorDropped);
                    self.drop_actor(i)?;
                }
            }
            Op::Join(i) => {
                let Some(i) = self.pick_handle(*i) else { return Ok(()) };
                let via = self.via_chan;
                let e = &self.handles[i];
                let f = each_addr!(&e.h, a => {
                    if via {
                        let ch: MessageChannel<Msg, u32, _> = a.clone().into();
                        ch.join()
                    } else {
                        a.join()
                    }
                }, ch => ch.join());
                let c = e.c;
                let ready = !self.md.connected(c);
                self.joins.push(JoinEnt {
                    f: JFut::Join(f),
                    c,
                    ready,
                    flag: None,
                    inner_id: 0,
                    polls_left: 0,
                });
            }
            Op::Scoped { h, polls } => {
                let Some(i) = self.pick_handle(*h) else { return Ok(()) };
                let c = self.handles[i].c;
                let id = self.sh.id();
                let inner = Inner {
                    polls: *polls,
                    sh: self.sh.clone(),
                    id,
                    _tok: Token::new(TOK_INNER, id, &self.sh),
                };
                let f: BoxF<Option<u32>> = match &self.handles[i].h {
                    Handle::S(a) => Box::pin(x::scoped(a, inner)),
                    Handle::W(a) => Box::pin(x::scoped(a, inner)),
                    Handle::E(a) => Box::pin(x::scoped(a, inner)),
                    _ => Box::pin(x::scoped(&self.obs[c], inner)),
                };
                let ready = !self.md.connected(c);
                self.joins.push(JoinEnt {
                    f: JFut::Scoped(f),
                    c,
                    ready,
                    flag: None,
                    inner_id: id,
                    polls_left: *polls,
                });
            }
            Op::PollJoin(i) => {
                if let Some(i) = pick(&self.joins, *i) {
                    self.poll_join(i)?;
                }
            }
            Op::DropJoin(i) => {
                if let Some(i) = pick(&self.joins, *i) {
                    drop(self.joins.remove(i));
                }
            }
            Op::Exec(n) => {
                for _ in 0..*n {
                    if !self.exec_round()? {
                        break;
                    }
                }
            }
        }
        Ok(())
    }

    // ---- sends ----------------------------------------------------------------------------------
    fn poll_send(&mut self, i: usize) -> R {
        let flag = Flag::new();
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        let woken = self.woken_fn();
        let e = &mut self.sends[i];
        if e.flag.is_some() {
            self.md.f(F::WakerSwapped);
        }
        e.flag = Some(flag);
        enum Got {
            Pending,
            Val(Result<u32, Error>),
            Detached(Result<Receiver<u32>, Error>),
            Unit(Result<(), Error>),
        }
        let fresh = self.md.msgs[&e.id].st == St::New;
        let got = spans::sending(e.id, fresh, || match &mut e.f {
            SFut::Reply(f) => match f.as_mut().poll(&mut cx) {
                Poll::Pending => Got::Pending,
                Poll::Ready(r) => Got::Val(r),
            },
            SFut::Detach(f) => match f.as_mut().poll(&mut cx) {
                Poll::Pending => Got::Pending,
                Poll::Ready(r) => Got::Detached(r),
            },
            SFut::Recv(f) => match Pin::new(f).poll(&mut cx) {
                Poll::Pending => Got::Pending,
                Poll::Ready(r) => Got::Val(r),
            },
            SFut::Bcast(f) => match f.as_mut().poll(&mut cx) {
                Poll::Pending => Got::Pending,
                Poll::Ready(r) => Got::Unit(r),
            },
        });
        let (id, bc, c) = (e.id, e.bc, e.c);
        let is_reply_stage = matches!(e.f, SFut::Recv(_));
        let is_detach = matches!(e.f, SFut::Detach(_));
        let first = self.md.msgs[&id].st == St::New;
        if first {
            if bc {
                self.md.first_poll_bcast(id);
            } else {
                self.md.first_poll_uni(id, &woken)?;
            }
            if self.sends[i].strong_hold {
                self.sends[i].strong_hold = false;
                self.md.strong_dec(c);
            }
        }
        let st = self.md.msgs[&id].st;
        self.sends[i].blocked_then = st == St::Blocked;
        let ctx = || format!("message {id} is {st:?}, capacity {:?}", self.md.chans[c].cap);
        // what should the poll have given?
        match got {
            Got::Pending => {
                let ok = match st {
                    St::Blocked => true,
                    St::Queued | St::Given(_) | St::Taken => !is_detach,
                    _ => false,
                };
                if !ok {
                    let k = match st {
                        St::BAcc if first => Kind::BcastAcceptance,
                        St::Queued | St::Given(_) if first => Kind::Acceptance,
                        _ => Kind::SendPending,
                    };
                    return div(k, format!("send pending, but {}", ctx()));
                }
                tr!(self, "send {id} pending");
            }
            Got::Val(r) => {
                let want = match st {
                    St::Done => Some(Ok(reply_of(id))),
                    St::Interrupted => Some(Err(Error::Interrupted)),
                    St::Disc if !is_reply_stage => Some(Err(Error::Disconnected)),
                    _ => None,
                };
                if want.as_ref() != Some(&r) {
                    return div(Kind::SendResult, format!("send resolved to {r:?}, should be {want:?}; {}", ctx()));
                }
                match r {
                    Ok(_) => self.md.f(F::Replied),
                    Err(Error::Interrupted) => self.md.f(F::Interrupted),
                    Err(_) => {}
                }
                tr!(self, "send {id} {r:?}");
                self.sends.remove(i);
            }
            Got::Detached(Ok(rx)) => {
                if matches!(st, St::Blocked | St::Disc | St::New | St::Cancelled) {
                    let k = if st == St::Blocked { Kind::Acceptance } else { Kind::SendResult };
                    return div(k, format!("detached send claims acceptance, but {}", ctx()));
                }
                tr!(self, "send {id} accepted");
                self.sends[i].f = SFut::Recv(rx);
                self.sends[i].flag = None;
            }
            Got::Detached(Err(r)) => {
                if st != St::Disc || r != Error::Disconnected {
                    return div(Kind::SendResult, format!("detached send gave {r:?}, but {}", ctx()));
                }
                tr!(self, "send {id} disc");
                self.sends.remove(i);
            }
            Got::Unit(r) => {
                let want = match st {
                    St::BAcc => Some(Ok(())),
                    St::Disc => Some(Err(Error::Disconnected)),
                    _ => None,
                };
                if want.as_ref() != Some(&r) {
                    let k = if st == St::Blocked { Kind::BcastAcceptance } else { Kind::SendResult };
                    return div(k, format!("broadcast resolved to {r:?}, should be {want:?}; {}", ctx()));
                }
                tr!(self, "send {id} {r:?}");
                self.sends.remove(i);
            }
        }
        Ok(())
    }
    /// 0: poll_ready, 1: poll_flush, 2: poll_close
    fn poll_sink(&mut self, i: usize, how: u8) -> R {
        let flag = Flag::new();
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        let woken = self.woken_fn();
        let e = &mut self.sinks[i];
        if e.flag.is_some() {
            self.md.f(F::WakerSwapped);
        }
        e.flag = Some(flag);
        let fresh = e.cur.filter(|id| self.md.msgs[id].st == St::New);
        let r = spans::sending(fresh.unwrap_or(0), fresh.is_some(), || match how {
            0 => e.s.as_mut().poll_ready(&mut cx),
            1 => e.s.as_mut().poll_flush(&mut cx),
            _ => e.s.as_mut().poll_close(&mut cx),
        });
        let c = e.c;
        let mut first = false;
        if let Some(id) = e.cur {
            first = self.md.msgs[&id].st == St::New;
            if first {
                self.md.first_poll_uni(id, &woken)?;
                if self.sinks[i].strong_hold {
                    self.sinks[i].strong_hold = false;
                    self.md.strong_dec(c);
                }
            }
        }
        let st = self.sinks[i].cur.map(|id| self.md.msgs[&id].st);
        self.sinks[i].blocked_then = st == Some(St::Blocked);
        let want = match st {
            None | Some(St::Done) => Poll::Ready(Ok(())),
            Some(St::Interrupted) => Poll::Ready(Err(Error::Interrupted)),
            Some(St::Disc) => Poll::Ready(Err(Error::Disconnected)),
            Some(_) => Poll::Pending,
        };
        if r != want {
            let how = ["poll_ready", "poll_flush", "poll_close"][how.min(2) as usize];
            return div(
                Kind::Sink,
                format!("{how} of a sink gave {r:?}, should be {want:?}; its item is {st:?} (first poll: {first}), capacity {:?}", self.md.chans[c].cap),
            );
        }
        tr!(self, "sink {r:?}");
        match r {
            Poll::Pending => self.md.f(F::SinkWaits),
            Poll::Ready(Ok(())) => {
                if self.sinks[i].cur.take().is_some() {
                    self.md.f(F::SinkDone);
                }
                self.sinks[i].flag = None;
                if how >= 2 {
                    self.drop_sink(i);
                }
            }
            Poll::Ready(Err(_)) => {
                self.md.f(F::SinkErr);
                self.sinks[i].cur = None;
                self.drop_sink(i);
            }
        }
        Ok(())
    }
    fn drop_sink(&mut self, i: usize) {
        let e = self.sinks.remove(i);
        drop(e.s);
        if let Some(id) = e.cur {
            self.md.cancel_send(id);
            if e.strong_hold {
                self.md.strong_dec(e.c);
            }
        }
        if e.strong {
            self.md.strong_dec(e.c);
        }
    }
    fn drop_send(&mut self, i: usize) {
        let e = self.sends.remove(i);
        let (id, c, hold) = (e.id, e.c, e.strong_hold);
        drop(e.f);
        self.md.cancel_send(id);
        if hold {
            self.md.strong_dec(c);
        }
    }

    // ---- receives and dispatches ----------------------------------------------------------------
    fn poll_recv(&mut self, i: usize, hold: bool) -> R {
        let w = self.recvs[i].w;
        let flag = self.new_flag(w);
        let waker = Waker::from(flag);
        let r = self.recvs[i].f.as_mut().poll(&mut Context::from_waker(&waker));
        self.md.recv_polled(w, r.is_ready())?;
        if self.recvs[i].odd.swap(false, Ordering::SeqCst) {
            div(Kind::Fused, format!("receive {w} says it is {}terminated", if r.is_ready() { "not " } else { "" }))?;
        }
        tr!(self, "recv {w} {}", r.is_ready());
        if let Poll::Ready(f) = r {
            drop(self.recvs.remove(i));
            let mb = self.md.waiters[w].mb;
            let single = self.md.options(w).single();
            if let (true, Some(ident)) = (hold, single) {
                self.md.take(w, ident)?;
                self.md.waiters[w].st = WSt::Gone;
                self.held.push(HeldEnt { f, mb, ident });
            } else {
                self.dispatch(f, mb, None, Some(w))?;
            }
        }
        Ok(())
    }
    fn drop_recv(&mut self, i: usize) -> R {
        let e = self.recvs.remove(i);
        drop(e.f);
        let woken = self.woken_fn();
        self.md.drop_waiter(e.w, &woken)?;
        self.md.hold_dec(self.md.waiters[e.w].mb);
        Ok(())
    }
    /// Start dispatching a received message; `w` = the receiver it came from if it is not yet known
    /// what was received.
    fn dispatch(&mut self, f: HeldFn, mb: Mb, ident: Option<Ident>, w: Option<Wid>) -> R {
        let dw = self.md.add_waiter(mb);
        let act = self.new_act(dw, 0, false, 0);
        let tag = act.tag;
        let f = f(act);
        self.disps.push(DispEnt { f, mb, w: dw, tag, st: vec![Fr::Disp { brk: None }], flag: None });
        self.poll_disp(self.disps.len() - 1, Some((ident, w)))
    }
    fn poll_disp(&mut self, i: usize, fresh: Option<(Option<Ident>, Option<Wid>)>) -> R {
        let (w, mb, tag) = (self.disps[i].w, self.disps[i].mb, self.disps[i].tag);
        let flag = self.new_flag(w);
        let waker = Waker::from(flag.clone());
        self.disps[i].flag = Some(flag);
        let f = &mut self.disps[i].f;
        let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&waker))));
        let mut log = self.take_log();
        let mut st = std::mem::take(&mut self.disps[i].st);
        if let Some((ident, rw)) = fresh {
            // the first event tells what was received
            let got = match log.first() {
                Some(Ev::HStart { id, tag: t }) if *t == tag => Ident::Msg(*id),
                None => Ident::Stop,
                e => return div(Kind::Lifecycle, format!("dispatch began with {e:?}")),
            };
            match (ident, rw) {
                (Some(want), _) if want != got => {
                    return div(Kind::OrderPrio, format!("received {got:?}, only {want:?} was allowed"))
                }
                (None, Some(w)) => {
                    self.md.take(w, got)?;
                    self.md.waiters[w].st = WSt::Gone;
                }
                _ => {}
            }
            tr!(self, "dispatch {got:?}");
            match got {
                Ident::Msg(id) => {
                    log.remove(0);
                    st.push(Fr::Handling { id, stop_self: false })
                }
                Ident::Stop => st[0] = Fr::Disp { brk: Some(true) },
            }
        }
        let did = self.process(&mut st, log, w, mb, tag)?;
        let top = *st.last().unwrap();
        match r {
            Ok(Poll::Pending) => {
                self.rests(&mut st, &did, w, "dispatch")?;
                self.disps[i].st = st;
                tr!(self, "dispatch pending");
            }
            Ok(Poll::Ready(flow)) => {
                let want = match top {
                    Fr::Disp { brk: Some(false) } => ControlFlow::Continue(()),
                    Fr::Disp { brk: Some(true) } => ControlFlow::Break(()),
                    p => return div(Kind::Lifecycle, format!("dispatch finished in {p:?}")),
                };
                if flow != want {
                    return div(Kind::StopSelfIgnored, format!("dispatch gave {flow:?}, should be {want:?}"));
                }
                tr!(self, "dispatch {flow:?}");
                drop(self.disps.remove(i));
                self.md.waiters[w].st = WSt::Gone;
                self.md.waiters[w].pending = false;
                self.md.hold_dec(mb);
            }
            Err(p) => {
                if !did.panicked || !p.is::<Planned>() {
                    return div(Kind::LibPanic, format!("panic: {}", crate::util::panic_text(&p)));
                }
                tr!(self, "dispatch panicked");
                self.md.f(F::Panic);
                self.disps[i].st = st;
                self.drop_disp(i)?;
            }
        }
        Ok(())
    }
    fn drop_disp(&mut self, i: usize) -> R {
        let e = self.disps.remove(i);
        drop(e.f);
        self.take_log();
        self.md.f(F::DispDropped);
        self.abandon(&e.st, e.w, e.mb)
    }
    /// An actor or a dispatch is gone before it was done.
    fn abandon(&mut self, st: &[Fr], w: Wid, mb: Mb) -> R {
        let c = self.md.mbs[mb].chan;
        for f in st {
            if let Fr::Handling { id, .. } = f {
                self.md.chans[c].ever_fault = true;
                self.md.interrupted(*id);
            }
        }
        if st.last().unwrap().receives() {
            let woken = self.woken_fn();
            self.md.drop_waiter(w, &woken)?;
        }
        self.md.waiters[w].st = WSt::Gone;
        self.md.waiters[w].pending = false;
        self.md.hold_dec(mb);
        Ok(())
    }
    /// Follow what happened during a poll.
    fn process(&mut self, st: &mut Vec<Fr>, log: Vec<Ev>, w: Wid, mb: Mb, tag: u32) -> R<Did> {
        let c = self.md.mbs[mb].chan;
        let mut did = Did::default();
        for ev in log {
            did.yielded = false;
            let top = *st.last().unwrap();
            let set = |st: &mut Vec<Fr>, f: Fr| *st.last_mut().unwrap() = f;
            match (ev, top) {
                (Ev::Start { tag: t }, Fr::NotStarted) if t == tag => set(st, Fr::Starting),
                (Ev::StartYield, Fr::Starting) => {
                    self.md.f(F::StartYield);
                    did.yielded = true
                }
                (Ev::StartDone { ok }, Fr::Starting) => {
                    if ok {
                        set(st, Fr::Waiting)
                    } else {
                        did.failed = true;
                        self.md.f(F::StartFail);
                        set(st, Fr::Stopped)
                    }
                }
                (Ev::HStart { tag: t, id }, fr) if t == tag && fr.receives() => {
                    if let Fr::Sel { ctl, ready: r, .. } = fr {
                        if r || self.ctl_ready(ctl) {
                            return div(Kind::Select, format!("message {id} handled although the future of select/join is complete"));
                        }
                        self.md.f(F::SelHandled);
                    }
                    self.md.take(w, Ident::Msg(id))?;
                    st.push(Fr::Handling { id, stop_self: false });
                }
                (Ev::HStart { id, .. }, Fr::Handling { id: cur, .. }) => {
                    return div(Kind::Overlap, format!("message {id} handled while {cur} is being handled"))
                }
                (Ev::HStart { id, .. }, Fr::Sel { .. }) => {
                    return div(Kind::Select, format!("message {id} handled after the actor was stopped in select/join"))
                }
                (Ev::HStart { id, .. }, Fr::Stopped) => {
                    return div(Kind::StopSelfIgnored, format!("message {id} handled after the actor stopped itself"))
                }
                (Ev::HYield, Fr::Handling { .. }) => {
                    self.md.f(F::Yielded);
                    did.yielded = true
                }
                (Ev::StopSelf, Fr::Handling { id, .. }) => {
                    self.md.f(F::StopSelf);
                    set(st, Fr::Handling { id, stop_self: true });
                }
                (Ev::StopAll, Fr::Handling { .. }) => self.md.stop_all(c),
                (Ev::HPanic, Fr::Handling { .. }) => did.panicked = true,
                (Ev::HCancel, _) if did.panicked => {}
                (Ev::NSend { id, bc, prio, out, woken }, Fr::Handling { .. } | Fr::Sel { .. }) => {
                    self.nested(c, id, bc, prio, out, woken)?
                }
                (Ev::HEnd { id }, Fr::Handling { id: cur, stop_self }) if id == cur => {
                    self.md.done(id);
                    st.pop();
                    let new = match *st.last().unwrap() {
                        Fr::Waiting if stop_self => Fr::Stopped,
                        Fr::Once { .. } => Fr::Once { brk: Some(stop_self) },
                        Fr::Disp { .. } => Fr::Disp { brk: Some(stop_self) },
                        Fr::Sel { ctl, join, ready, .. } => Fr::Sel { ctl, join, stopped: stop_self, ready },
                        f => f,
                    };
                    set(st, new);
                }
                (Ev::StopBegin { tag: t }, Fr::Stopped) if t == tag && !did.failed => set(st, Fr::Stopping),
                (Ev::StopBegin { tag: t }, Fr::Waiting) if t == tag => {
                    self.md.take(w, Ident::Stop)?;
                    set(st, Fr::Stopping);
                }
                (Ev::StopYield, Fr::Stopping) => did.yielded = true,
                (Ev::StopEnd, Fr::Stopping) => did.stop_done = true,
                // event loops of their own
                (Ev::SelBegin { ctl, join }, Fr::Starting | Fr::Pump | Fr::Handling { .. }) => {
                    if top == Fr::Starting {
                        set(st, Fr::Pump);
                    }
                    self.md.f(F::SelRan);
                    if matches!(top, Fr::Handling { .. }) {
                        self.md.f(F::SelNested);
                    }
                    st.push(Fr::Sel { ctl, join, stopped: false, ready: false })
                }
                (Ev::FPoll { ctl, ready }, Fr::Sel { ctl: cur, join, stopped, .. }) if ctl == cur => {
                    set(st, Fr::Sel { ctl, join, stopped, ready })
                }
                (Ev::SelLeft { ctl, val, woken }, Fr::Sel { ctl: cur, stopped, ready, join }) if ctl == cur => {
                    if stopped && !join {
                        return div(Kind::Select, "select returned the value of the future although the actor was stopped first");
                    }
                    if !ready || val != ctl_value(ctl) {
                        return div(Kind::Select, format!("select/join returned {val} for future {ctl}; completed: {ready}"));
                    }
                    if !stopped {
                        if let WSt::Given(_) = self.md.waiters[w].st {
                            self.md.f(F::SelLeftGiven);
                        }
                        self.md.drop_waiter(w, &|w| woken.contains(&w))?;
                        self.md.waiters[w].st = WSt::New;
                    }
                    self.md.f(if stopped { F::JoinAfterStop } else { F::SelLeft });
                    st.pop();
                }
                (Ev::SelRight { ctl }, Fr::Sel { ctl: cur, join: false, stopped, ready }) if ctl == cur => {
                    if ready {
                        return div(Kind::Select, "select gave the future back although it was complete");
                    }
                    if !stopped {
                        if self.ctl_ready(ctl) {
                            return div(Kind::Select, "select stopped although the future was complete");
                        }
                        self.md.take(w, Ident::Stop)?;
                    }
                    self.md.f(F::SelRight);
                    st.pop();
                }
                (Ev::OnceBegin, Fr::Starting | Fr::Pump) => {
                    set(st, Fr::Pump);
                    st.push(Fr::Once { brk: None })
                }
                (Ev::OnceEnd { brk }, Fr::Once { brk: want }) => {
                    if want.is_none() {
                        self.md.take(w, Ident::Stop)?;
                    }
                    if brk != want.unwrap_or(true) {
                        return div(Kind::StopSelfIgnored, format!("yield_once gave break={brk}, should be {want:?}"));
                    }
                    st.pop();
                }
                (Ev::PumpEnd, Fr::Starting | Fr::Pump) => {
                    set(st, Fr::PumpDone);
                    did.stop_done = true
                }
                (ev, f) => {
                    let k = match ev {
                        Ev::SelLeft { .. } | Ev::SelRight { .. } | Ev::FPoll { .. } => Kind::Select,
                        _ => Kind::Lifecycle,
                    };
                    return div(k, format!("actor {tag}: unexpected {ev:?} in {f:?}"));
                }
            }
        }
        Ok(did)
    }
    /// A poll was pending: was that right?
    fn rests(&mut self, st: &mut [Fr], did: &Did, w: Wid, what: &str) -> R {
        if did.yielded {
            return Ok(());
        }
        match *st.last().unwrap() {
            Fr::Sel { ctl, join, stopped, ready } => {
                if ready || self.ctl_ready(ctl) {
                    return div(Kind::Select, format!("{what}: select/join pending although its future is complete"));
                }
                if stopped {
                    if !join {
                        return div(Kind::Select, format!("{what}: select pending although the actor was stopped"));
                    }
                    return Ok(());
                }
                if join && self.md.options(w).single() == Some(Ident::Stop) {
                    // only the future goes on
                    self.md.take(w, Ident::Stop)?;
                    *st.last_mut().unwrap() = Fr::Sel { ctl, join, stopped: true, ready };
                    return Ok(());
                }
                self.md.recv_polled(w, false)
            }
            f if f.receives() => self.md.recv_polled(w, false),
            p => div(Kind::Lifecycle, format!("{what} pending in {p:?} although nothing makes it wait")),
        }
    }
    fn ctl_ready(&self, ctl: usize) -> bool {
        self.sh.ctls.lock().unwrap()[ctl].ready.load(Ordering::SeqCst)
    }
    /// Complete one of the futures that select and join wait for.
    fn complete(&mut self, i: u8) -> R {
        let open: Vec<Arc<CtlState>> = self
            .sh
            .ctls
            .lock()
            .unwrap()
            .iter()
            .filter(|c| !c.ready.load(Ordering::SeqCst) && !c.done.load(Ordering::SeqCst))
            .cloned()
            .collect();
        let Some(k) = pick(&open, i) else { return Ok(()) };
        let c = &open[k];
        c.ready.store(true, Ordering::SeqCst);
        let Some(waker) = c.waker.lock().unwrap().take() else { return Ok(()) };
        let before = self.wflag(c.w);
        waker.wake();
        let innermost = |st: &[Fr]| matches!(st.last(), Some(Fr::Sel { ctl, .. }) if *ctl == c.id);
        let waited = self.actors.iter().any(|a| innermost(&a.st)) || self.disps.iter().any(|d| innermost(&d.st));
        if waited && !self.wflag(c.w) {
            return div(Kind::Select, "select/join does not pass its waker to the future");
        }
        if let (false, Some(Some(f))) = (before, self.sh.flags.lock().unwrap().get(c.w)) {
            // it was not the mailbox that woke it
            f.0.store(0, Ordering::SeqCst);
        }
        self.md.f(F::Completed);
        Ok(())
    }
    fn complete_all(&mut self) -> R {
        let n = self.sh.ctls.lock().unwrap().len();
        for _ in 0..n {
            self.complete(0)?;
        }
        Ok(())
    }
    /// Is the future complete that this one waits for?
    fn sel_can_go(&self, st: &[Fr]) -> bool {
        matches!(st.last(), Some(Fr::Sel { ctl, .. }) if self.ctl_ready(*ctl))
    }
    fn nested(&mut self, c: Ch, id: Id, bc: bool, prio: u32, out: NOut, woken: Vec<Wid>) -> R {
        self.md.add_msg(id, bc, prio, c);
        let want = if bc {
            self.md.f(F::NestedBcast);
            self.md.first_poll_bcast(id)
        } else {
            self.md.f(F::NestedSend);
            self.md.first_poll_uni(id, &|w| woken.contains(&w))?
        };
        let got = match out {
            NOut::Accepted => SendOut::Accepted,
            NOut::Blocked => SendOut::Blocked,
            NOut::Disc => SendOut::Disc,
        };
        if want != got {
            let k = match (want, got) {
                (SendOut::Disc, _) | (_, SendOut::Disc) => Kind::SendResult,
                _ if bc => Kind::BcastAcceptance,
                _ => Kind::Acceptance,
            };
            return div(k, format!("send {id} from a handler was {got:?}, should be {want:?}"));
        }
        tr!(self, "nested {id} {out:?}");
        if got == SendOut::Blocked {
            self.md.cancel_send(id);
        }
        Ok(())
    }

    // ---- actors ---------------------------------------------------------------------------------
    fn poll_actor(&mut self, i: usize) -> R {
        let (w, mb, tag) = (self.actors[i].w, self.actors[i].mb, self.actors[i].tag);
        let flag = self.new_flag(w);
        let waker = Waker::from(flag);
        let f = &mut self.actors[i].f;
        let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&waker))));
        let log = self.take_log();
        tr!(self, "actor {tag} {log:?} {:?}", r.as_ref().map(|r| r.is_ready()).map_err(|_| ()));
        let mut st = std::mem::take(&mut self.actors[i].st);
        let did = self.process(&mut st, log, w, mb, tag)?;
        match r {
            Ok(Poll::Pending) => {
                self.rests(&mut st, &did, w, "actor")?;
                self.actors[i].st = st;
            }
            Ok(Poll::Ready(v)) => {
                let want = if did.failed {
                    FAIL_BASE + tag
                } else if did.stop_done {
                    STOP_BASE + tag
                } else {
                    return div(Kind::Lifecycle, format!("run ended in {st:?} without calling stopped"));
                };
                if v != want || (self.actors[i].fail && !did.failed) {
                    return div(Kind::Lifecycle, format!("run returned {v}, should be {want}"));
                }
                drop(self.actors.remove(i));
                self.md.waiters[w].st = WSt::Gone;
                self.md.waiters[w].pending = false;
                self.md.hold_dec(mb);
                self.token_gone(TOK_ACT, tag)?;
            }
            Err(p) => {
                if !did.panicked || !p.is::<Planned>() {
                    return div(Kind::LibPanic, format!("panic: {}", crate::util::panic_text(&p)));
                }
                self.md.f(F::Panic);
                self.actors[i].st = st;
                self.drop_actor(i)?;
            }
        }
        Ok(())
    }
    fn drop_actor(&mut self, i: usize) -> R {
        let e = self.actors.remove(i);
        drop(e.f);
        self.take_log();
        self.abandon(&e.st, e.w, e.mb)?;
        self.token_gone(TOK_ACT, e.tag)
    }
    fn token_gone(&self, kind: u8, id: u32) -> R {
        let n = self.sh.live.lock().unwrap().get(&(kind, id)).copied().unwrap_or(0);
        if n != 0 {
            return div(Kind::Leak, format!("object ({kind},{id}) has {n} live copies, should be gone"));
        }
        Ok(())
    }

    // ---- joins ----------------------------------------------------------------------------------
    fn join_ready(&self, e: &JoinEnt) -> bool {
        e.ready || self.md.chans[e.c].closed
    }
    fn poll_join(&mut self, i: usize) -> R {
        let flag = Flag::new();
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        let ready = self.join_ready(&self.joins[i]);
        if self.joins[i].flag.is_some() {
            self.md.f(F::WakerSwapped);
        }
        self.joins[i].flag = Some(flag);
        let created_ready = self.joins[i].ready;
        match &mut self.joins[i].f {
            JFut::Join(f) => {
                let r = Pin::new(f).poll(&mut cx).is_ready();
                if r != ready {
                    return div(
                        Kind::Join,
                        format!("join handle ready={r}, should be {ready} (created on a disconnected address: {created_ready}, last mailbox gone: {})", self.md.chans[self.joins[i].c].closed),
                    );
                }
                tr!(self, "join {r}");
                if r {
                    self.md.f(if created_ready { F::JoinReadyAtOnce } else { F::JoinWoken });
                    self.joins.remove(i);
                }
            }
            JFut::Scoped(f) => {
                let r = f.as_mut().poll(&mut cx);
                let log = self.take_log();
                let inner_polled = log.iter().any(|e| matches!(e, Ev::InnerPoll));
                let e = &mut self.joins[i];
                let want = if ready {
                    Poll::Ready(None)
                } else if e.polls_left == 0 {
                    Poll::Ready(Some(e.inner_id))
                } else {
                    e.polls_left -= 1;
                    Poll::Pending
                };
                if ready && inner_polled {
                    return div(Kind::ScopedPolled, "the inner future of a scoped task was polled after the actor stopped");
                }
                if r != want {
                    return div(Kind::Scoped, format!("scoped task gave {r:?}, should be {want:?}"));
                }
                tr!(self, "scoped {r:?}");
                if let Poll::Ready(v) = r {
                    self.md.f(if v.is_some() { F::ScopedSome } else { F::ScopedNone });
                    let id = e.inner_id;
                    drop(self.joins.remove(i));
                    self.token_gone(TOK_INNER, id)?;
                }
            }
        }
        Ok(())
    }

    // ---- checks after every operation -----------------------------------------------------------
    pub fn check(&mut self) -> R {
        spans::op_done(|id| self.sh.live.lock().unwrap().get(&(TOK_MSG, id)).is_some_and(|n| *n > 0));
        // whoever can make progress must have been woken
        for w in 0..self.md.waiters.len() {
            if !self.md.waiters[w].pending {
                continue;
            }
            let o = self.md.options(w);
            if !o.is_empty() && !self.wflag(w) {
                let mb = self.md.waiters[w].mb;
                let k = if o.stop {
                    if self.md.mbs[mb].stops > 0 {
                        Kind::WakeRecvStopAll
                    } else {
                        Kind::WakeRecvStop
                    }
                } else {
                    Kind::WakeRecv
                };
                if !self.wants(k) {
                    continue;
                }
                return div(k, format!("receive {w} ({:?}) can produce {o:?} but its task was not woken", self.md.waiters[w].st));
            }
        }
        for e in &self.sends {
            let Some(flag) = &e.flag else { continue };
            if flag.woken() {
                continue;
            }
            let st = self.md.msgs[&e.id].st;
            if e.blocked_then && st != St::Blocked && self.wants(Kind::WakeBlocked) {
                return div(Kind::WakeBlocked, format!("blocked send of message {} is now {st:?} but its task was not woken", e.id));
            }
            if matches!(st, St::Done | St::Interrupted) && self.wants(Kind::WakeReply) {
                return div(Kind::WakeReply, format!("message {} is {st:?} but the sender's task was not woken", e.id));
            }
        }
        for e in &self.sinks {
            let (Some(flag), Some(id)) = (&e.flag, e.cur) else { continue };
            let st = self.md.msgs[&id].st;
            if self.wants(Kind::Sink) && !flag.woken() && (e.blocked_then && st != St::Blocked || matches!(st, St::Done | St::Interrupted)) {
                return div(Kind::Sink, format!("the item {id} of a sink is {st:?} but the task of the sink was not woken"));
            }
        }
        for e in &self.joins {
            let Some(flag) = &e.flag else { continue };
            if self.join_ready(e) && !flag.woken() && self.wants(Kind::WakeJoin) {
                return div(Kind::WakeJoin, "the last mailbox is gone but a join handle or scoped task was not woken");
            }
        }
        for c in 0..self.obs.len() {
            let conn = self.obs[c].is_connected();
            if conn != self.md.connected(c) && self.wants(Kind::Connected) {
                return div(
                    Kind::Connected,
                    format!("is_connected() = {conn} with {} strong handles and {} mailboxes", self.md.chans[c].strong, self.md.chans[c].mbs.len()),
                );
            }
            let (len, want) = (self.obs[c].len(), self.md.len(c));
            if !self.wants(Kind::Len) {
                continue;
            }
            if len != want {
                return div(Kind::Len, format!("len() = {len}, but {want} messages are queued ({:?})", self.md.chans[c]));
            }
            if self.obs[c].is_empty() != (len == 0) {
                return div(Kind::Len, "is_empty disagrees with len");
            }
        }
        Ok(())
    }

    /// Is a mere observation (one the rest of the history does not depend on) of interest?
    /// If not, the history goes on: what is behind the difference may yet show in another way.
    fn wants(&self, k: Kind) -> bool {
        self.only.map_or(true, |ks| ks.contains(&k))
    }

    /// Poll whatever was woken or never polled, once.  Returns whether there was anything.
    fn exec_round(&mut self) -> R<bool> {
        let mut any = false;
        let tags: Vec<u32> = self.actors.iter().map(|a| a.tag).collect();
        for t in tags {
            let Some(i) = self.actors.iter().position(|a| a.tag == t) else { continue };
            if self.actors[i].st == [Fr::NotStarted] || self.wflag(self.actors[i].w) || self.sel_can_go(&self.actors[i].st) {
                any = true;
                self.poll_actor(i)?;
                self.check()?;
            }
        }
        let tags: Vec<u32> = self.disps.iter().map(|a| a.tag).collect();
        for t in tags {
            let Some(i) = self.disps.iter().position(|a| a.tag == t) else { continue };
            if self.disps[i].flag.as_ref().is_none_or(|f| f.woken()) || self.sel_can_go(&self.disps[i].st) {
                any = true;
                self.poll_disp(i, None)?;
                self.check()?;
            }
        }
        let ids: Vec<Wid> = self.recvs.iter().map(|r| r.w).collect();
        for w in ids {
            let Some(i) = self.recvs.iter().position(|r| r.w == w) else { continue };
            if self.sh.flags.lock().unwrap().get(w).is_none_or(|f| f.is_none()) || self.wflag(w) {
                any = true;
                self.poll_recv(i, false)?;
                self.check()?;
            }
        }
        let ids: Vec<Id> = self.sends.iter().map(|s| s.id).collect();
        for id in ids {
            let Some(i) = self.sends.iter().position(|s| s.id == id) else { continue };
            if self.sends[i].flag.as_ref().is_none_or(|f| f.woken()) {
                any = true;
                self.poll_send(i)?;
                self.check()?;
            }
        }
        let ids: Vec<u32> = self.sinks.iter().map(|s| s.key).collect();
        for k in ids {
            let Some(i) = self.sinks.iter().position(|s| s.key == k) else { continue };
            if self.sinks[i].cur.is_some() && self.sinks[i].flag.as_ref().is_none_or(|f| f.woken()) {
                any = true;
                self.poll_sink(i, 1)?;
                self.check()?;
            }
        }
        let mut i = 0;
        while i < self.joins.len() {
            let n = self.joins.len();
            if self.joins[i].flag.as_ref().is_none_or(|f| f.woken()) {
                any = true;
                self.poll_join(i)?;
                self.check()?;
            }
            if self.joins.len() == n {
                i += 1;
            }
        }
        Ok(any)
    }

    fn drain(&mut self) -> R {
        for _ in 0..400 {
            if !self.exec_round()? {
                return Ok(());
            }
        }
        div(Kind::WakeRecv, "the history does not come to rest: something is woken for ever")
    }

    /// Wind the history up: run what is runnable, let go of everything, and check nothing is left.
    fn finish(&mut self, end: u8) -> R {
        if end & 4 == 0 {
            self.complete_all()?;
        }
        if end & 1 == 0 {
            self.drain()?;
        }
        if end & 2 == 0 {
            // senders go first: everything accepted is still handled, then the actors stop
            while !self.sinks.is_empty() && end & 16 == 0 {
                self.drop_sink(0);
                self.check()?;
            }
            while !self.handles.is_empty() {
                self.step(&Op::HDrop(end))?;
                self.check()?;
            }
            self.drain()?;
            // receive by hand what is left on mailboxes without an actor
            for _ in 0..64 {
                let mut progress = false;
                for m in 0..self.mbs.len() {
                    if self.recvs.len() >= self.limit() {
                        break;
                    }
                    let before = self.md.feats[F::Handled as usize] + self.md.feats[F::HandledB as usize];
                    self.step(&Op::Next { m: m as u8, poll: true })?;
                    self.check()?;
                    progress |=
                        before != self.md.feats[F::Handled as usize] + self.md.feats[F::HandledB as usize];
                }
                self.drain()?;
                if !progress {
                    break;
                }
            }
        }
        if end & 8 == 0 {
            self.complete_all()?;
            self.drain()?;
        }
        // mailboxes go: whatever still waits must be told
        while !self.held.is_empty() {
            self.step(&Op::DropHeld(end))?;
            self.check()?;
        }
        while !self.recvs.is_empty() {
            self.drop_recv(0)?;
            self.check()?;
        }
        while !self.disps.is_empty() {
            self.drop_disp(0)?;
            self.check()?;
        }
        while !self.actors.is_empty() {
            self.drop_actor(0)?;
            self.check()?;
        }
        while !self.mbs.is_empty() {
            self.step(&Op::MbDrop(end))?;
            self.check()?;
        }
        // messages nobody can handle any more are gone now, even though senders still exist
        for (&id, m) in &self.md.msgs {
            if m.st != St::New && m.st != St::Cancelled {
                let n = self.sh.live.lock().unwrap().get(&(TOK_MSG, id)).copied().unwrap_or(0);
                if n != 0 {
                    return div(Kind::Leak, format!("message {id} ({m:?}) still has {n} live copies after the last mailbox went"));
                }
            }
        }
        self.drain()?;
        if let Some(e) = self.sends.iter().find(|e| e.flag.is_some() || !matches!(e.f, SFut::Recv(_))) {
            let id = e.id;
            return div(Kind::SendPending, format!("send of message {id} never resolved: {:?}", self.md.msgs[&id]));
        }
        if let Some(id) = self.sinks.iter().find_map(|e| e.cur) {
            return div(Kind::Sink, format!("item {id} of a sink never resolved: {:?}", self.md.msgs[&id]));
        }
        self.sinks.clear();
        self.sends.clear();
        self.joins.clear();
        self.handles.clear();
        self.obs.clear();
        let live = self.sh.live.lock().unwrap();
        if let Some((k, n)) = live.iter().find(|(_, &n)| n != 0) {
            return div(Kind::Leak, format!("object {k:?} has {n} live copies after everything was dropped"));
        }
        Ok(())
    }
}
