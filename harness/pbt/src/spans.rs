//! Records the spans of a history: a subscriber, and notes taken by the history about what was
//! current at the first poll of each send and at every poll of each handler.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll};
use tracing::span::{Attributes, EnteredSpan, Id, Record};
use tracing::{Level, Metadata, Span, Subscriber};

#[derive(Debug)]
struct SpanInfo {
    meta: &'static Metadata<'static>,
    parent: Option<u64>,
    refs: i64,
    /// made by the crate under test
    lib: bool,
    /// the message in whose first poll it was made (or which an ancestor belongs to)
    owner: Option<u32>,
}
struct Inv {
    id: u32,
    currents: Vec<Option<u64>>,
    disp: Option<usize>,
}
#[derive(Default)]
struct State {
    debug: bool,
    /// number of the span = index + 1
    spans: Vec<SpanInfo>,
    stack: Vec<u64>,
    mine: bool,
    sending: Option<u32>,
    sent: BTreeMap<u32, Option<u64>>,
    invs: Vec<Inv>,
    /// what each dispatch said its span was
    asks: Vec<Vec<Option<u64>>>,
    cur_disp: Option<usize>,
    ops: u64,
    open: Option<String>,
    waits: Option<String>,
    ask_only: bool,
    asked_only: u32,
}
#[derive(Clone)]
pub struct Rec(Arc<Mutex<State>>);
impl Rec {
    fn st(&self) -> MutexGuard<'_, State> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl Subscriber for Rec {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        self.st().debug || *m.level() <= Level::INFO
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let mut s = self.st();
        let parent = if a.is_root() {
            None
        } else if a.is_contextual() {
            s.stack.last().copied()
        } else {
            a.parent().map(|i| i.into_u64())
        };
        let lib = !s.mine;
        let owner = match (lib, s.sending, parent) {
            (false, ..) => None,
            (_, Some(id), _) => Some(id),
            (_, _, Some(p)) => s.spans[p as usize - 1].owner,
            _ => None,
        };
        s.spans.push(SpanInfo { meta: a.metadata(), parent, refs: 1, lib, owner });
        Id::from_u64(s.spans.len() as u64)
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, _: &tracing::Event<'_>) {}
    fn enter(&self, i: &Id) {
        self.st().stack.push(i.into_u64())
    }
    fn exit(&self, i: &Id) {
        let mut s = self.st();
        if let Some(p) = s.stack.iter().rposition(|x| *x == i.into_u64()) {
            s.stack.remove(p);
        }
    }
    fn clone_span(&self, i: &Id) -> Id {
        self.st().spans[i.into_u64() as usize - 1].refs += 1;
        i.clone()
    }
    fn try_close(&self, i: Id) -> bool {
        let mut s = self.st();
        let e = &mut s.spans[i.into_u64() as usize - 1];
        e.refs -= 1;
        e.refs == 0
    }
    fn current_span(&self) -> tracing_core::span::Current {
        let s = self.st();
        match s.stack.last() {
            Some(&i) => tracing_core::span::Current::new(Id::from_u64(i), s.spans[i as usize - 1].meta),
            None => tracing_core::span::Current::none(),
        }
    }
}

thread_local! {
    static REC: RefCell<Option<(Rec, Vec<Span>)>> = const { RefCell::new(None) };
}
fn rec() -> Option<Rec> {
    REC.with(|r| r.borrow().as_ref().map(|(r, _)| r.clone()))
}
fn mix(n: u64) -> u64 {
    let mut z = n.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Run `f` with a recording subscriber; with `debug` spans enabled or only those from info up.
pub fn recorded<R>(debug: bool, f: impl FnOnce() -> R) -> (R, Rec) {
    let rec = Rec(Arc::new(Mutex::new(State { debug, ..Default::default() })));
    let d = tracing::Dispatch::new(rec.clone());
    let r = tracing::dispatcher::with_default(&d, || {
        rec.st().mine = true;
        let a = tracing::info_span!("a");
        let b = a.in_scope(|| tracing::info_span!("b"));
        let c = tracing::info_span!("c");
        rec.st().mine = false;
        REC.with(|r| *r.borrow_mut() = Some((rec.clone(), vec![a, b, c])));
        let r = f();
        REC.with(|r| r.borrow_mut().take());
        r
    });
    (r, rec)
}

// ---- what the history says -----------------------------------------------------------------------
/// An operation begins: it runs in one of a few spans, or in none.
pub fn op() -> Option<EnteredSpan> {
    let (r, s) = REC.with(|r| {
        let b = r.borrow();
        let (rec, spans) = b.as_ref()?;
        let mut st = rec.st();
        st.ops += 1;
        let k = mix(st.ops) as usize % (spans.len() + 1);
        drop(st);
        Some((rec.clone(), spans.get(k).cloned()?))
    })?;
    let _ = r;
    Some(s.entered())
}
/// Poll a send of message `id` for the first time.
pub fn sending<R>(id: u32, first: bool, f: impl FnOnce() -> R) -> R {
    let Some(rec) = rec().filter(|_| first) else { return f() };
    {
        let mut s = rec.st();
        let cur = s.stack.last().copied();
        s.sent.insert(id, cur);
        s.sending = Some(id);
    }
    let r = f();
    rec.st().sending = None;
    r
}
/// Wrap a handler so that every poll is noted.
/// `one`: the message was for one actor only, so it no longer waits for any.
pub async fn handler<F: std::future::Future>(id: u32, one: bool, f: F) -> F::Output {
    let Some(rec) = rec() else { return f.await };
    let inv = {
        let mut s = rec.st();
        let disp = s.cur_disp.take();
        s.invs.push(Inv { id, currents: vec![], disp });
        s.invs.len() - 1
    };
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| {
        {
            let mut s = rec.st();
            let cur = s.stack.last().copied();
            s.invs[inv].currents.push(cur);
            if one && s.waits.is_none() {
                // the request, the handler, what is in between, and nothing else
                let mut path = vec![];
                let mut at = cur;
                while let Some(i) = at {
                    path.push(i);
                    at = s.spans[i as usize - 1].parent;
                }
                let other = s.spans.iter().enumerate().find(|(n, i)| {
                    i.lib && i.refs > 0 && i.owner == Some(id) && !path.contains(&(*n as u64 + 1))
                });
                let other = other.map(|(_, i)| format!("span {:?} of message {id} is still open while its handler runs", i.meta.name()));
                s.waits = other;
            }
        }
        f.as_mut().poll(cx)
    })
    .await
}
/// Drive a dispatch, now and then asking it for its span.
pub struct Ask<D> {
    pub d: Pin<Box<D>>,
    pub n: Option<usize>,
    pub polls: u32,
    pub mask: u64,
}
impl<D> Ask<D> {
    pub fn new(d: D) -> Self {
        let mut a = Ask { d: Box::pin(d), n: None, polls: 0, mask: 0 };
        if let Some(rec) = rec() {
            let mut s = rec.st();
            s.asks.push(vec![]);
            a.n = Some(s.asks.len() - 1);
            a.mask = mix(s.ops ^ ((s.asks.len() as u64) << 32));
        }
        a
    }
    /// Poll; `ask` asks for the span and never polls.
    pub fn poll<T>(
        &mut self,
        cx: &mut Context<'_>,
        ask: impl Fn(&mut D) -> Option<u64>,
        poll: impl Fn(Pin<&mut D>, &mut Context<'_>) -> Poll<T>,
    ) -> Poll<T>
    where
        D: Unpin,
    {
        let (Some(rec), Some(n)) = (rec(), self.n) else { return poll(self.d.as_mut(), cx) };
        let mut go = |d: &mut D, bit: u32, times: u32| {
            if self.mask >> (bit % 64) & 1 == 1 {
                for _ in 0..times {
                    let a = ask(d);
                    rec.st().asks[n].push(a);
                }
            }
        };
        let k = self.polls * 2;
        self.polls += 1;
        let only = std::mem::take(&mut rec.st().ask_only);
        if only {
            let a = ask(&mut self.d);
            let mut s = rec.st();
            s.asks[n].push(a);
            s.asked_only += 1;
            return Poll::Pending;
        }
        go(&mut self.d, k, 1 + (k == 0) as u32);
        if self.polls == 1 {
            rec.st().cur_disp = Some(n);
        }
        let r = poll(self.d.as_mut(), cx);
        rec.st().cur_disp = None;
        go(&mut self.d, k + 1, 1);
        r
    }
}
/// The next dispatch is asked for its span, and that is all.
pub fn ask_only() -> bool {
    let Some(rec) = rec() else { return false };
    let mut s = rec.st();
    let on = mix(s.ops + 77) % 2 == 0;
    s.ask_only = on;
    on
}
/// After an operation: spans of messages that are gone must be closed.
pub fn op_done(live: impl Fn(u32) -> bool) {
    let Some(rec) = rec() else { return };
    let mut s = rec.st();
    if s.open.is_some() {
        return;
    }
    let open = s.spans.iter().find_map(|i| {
        let id = i.owner?;
        (i.refs > 0 && !live(id)).then(|| format!("span {:?} is still open although message {id} is gone", i.meta.name()))
    });
    s.open = open;
}

pub struct Seen {
    pub handled: usize,
    pub multi_poll: usize,
    pub asked: usize,
    pub asked_only: usize,
    pub in_span: usize,
    pub nested: usize,
    pub bcast: usize,
}
impl Rec {
    /// Everything is over: are the spans what they should be?
    pub fn judge(&self) -> Result<Seen, String> {
        let s = self.st();
        let lib = |i: u64| &s.spans[i as usize - 1];
        let name = |i: Option<u64>| i.map_or("none".to_string(), |i| format!("#{i} {:?}", lib(i).meta.name()));
        let mut used = HashSet::new();
        let mut req: BTreeMap<u32, u64> = BTreeMap::new();
        let mut seen = Seen { handled: 0, multi_poll: 0, asked: 0, asked_only: s.asked_only as usize, in_span: 0, nested: 0, bcast: 0 };
        for v in &s.invs {
            let id = v.id;
            let Some(&from) = s.sent.get(&id) else { continue };
            seen.handled += 1;
            seen.multi_poll += (v.currents.len() > 1) as usize;
            seen.in_span += from.is_some() as usize;
            seen.nested += from.is_some_and(|i| lib(i).lib) as usize;
            let asks: &[Option<u64>] = v.disp.map_or(&[], |d| &s.asks[d]);
            seen.asked += !asks.is_empty() as usize;
            if s.debug {
                let mut h = None;
                for (k, c) in v.currents.iter().enumerate() {
                    let Some(c) = *c else { return Err(format!("poll {k} of the handler of message {id} runs in no span")) };
                    if !lib(c).lib {
                        return Err(format!("poll {k} of the handler of message {id} runs in {}, not in a span of its own", name(Some(c))));
                    }
                    if h.is_some_and(|h| h != c) {
                        return Err(format!("poll {k} of the handler of message {id} runs in {}, earlier ones in {}", name(Some(c)), name(h)));
                    }
                    h = Some(c);
                }
                let Some(h) = h else { continue };
                if !used.insert(h) {
                    return Err(format!("two handlers run in the same span {}", name(Some(h))));
                }
                let r = lib(h).parent;
                let ok = r.is_some_and(|r| lib(r).lib && lib(r).owner == Some(id));
                if !ok {
                    return Err(format!(
                        "the handler of message {id} runs in {}, whose parent is {}, not the request span of that message",
                        name(Some(h)),
                        name(r)
                    ));
                }
                let r = r.unwrap();
                if let Some(old) = req.insert(id, r) {
                    seen.bcast += 1;
                    if old != r {
                        return Err(format!("message {id} has two request spans"));
                    }
                }
                if lib(r).parent != from {
                    return Err(format!(
                        "the request span of message {id} has parent {}, but {} was current when the send was first polled",
                        name(lib(r).parent),
                        name(from)
                    ));
                }
                if let Some(a) = asks.iter().find(|a| **a != Some(h)) {
                    return Err(format!("the dispatch of message {id} said its span is {}, its handler runs in {}", name(*a), name(Some(h))));
                }
            } else if from.is_some() {
                if let Some(c) = v.currents.iter().find(|c| **c != from) {
                    return Err(format!("with debug spans disabled the handler of message {id} runs in {}, the sender was in {}", name(*c), name(from)));
                }
                if let Some(a) = asks.iter().find(|a| **a != from) {
                    return Err(format!("with debug spans disabled the dispatch of message {id} said {}, the sender was in {}", name(*a), name(from)));
                }
            }
        }
        if let Some(o) = s.open.as_ref().or(s.waits.as_ref()) {
            return Err(o.clone());
        }
        if let Some(i) = s.spans.iter().find(|i| i.lib && i.refs > 0) {
            return Err(format!("span {:?} is still open after everything was dropped", i.meta.name()));
        }
        Ok(seen)
    }
}
