//! The language of sequential histories and its generators.
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

/// What a handler does while it handles a message.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum HOp {
    Yield,
    StopSelf,
    StopAll,
    Panic,
    /// Fire-and-forget send to the actor's own address (through a weak address), with a priority.
    SendOwn(u8),
    /// Fire-and-forget broadcast to the actor's own address.
    BcastOwn(u8),
    /// Serve the mailbox while a future is pending (0: until completed by the history, 1: ready at
    /// once, 2 and up: as 0, and sends a message to the actor when first polled).
    Select(u8),
    Join(u8),
}

/// A step of a hand-written event loop.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum PStep {
    Select(u8),
    Join(u8),
    Once,
}

pub type Idx = u8;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    // handles
    HClone(Idx),
    HDown(Idx),
    HUp(Idx),
    HEither(Idx),
    HChan(Idx),
    HDrop(Idx),
    HQuery(Idx),
    // sends
    Send { h: Idx, prio: Option<u8>, detach: bool, script: Vec<HOp>, poll: bool },
    Bcast { h: Idx, prio: Option<u8>, script: Vec<HOp>, poll: bool },
    /// So many detached sends of one priority in a row.
    Burst { h: Idx, n: u8, prio: Option<u8> },
    /// So many broadcasts in a row.
    BurstB { h: Idx, n: u8, prio: Option<u8> },
    /// Make a sink from an address, or from a channel made from it.
    Sink { h: Idx, chan: bool },
    SinkSend { s: Idx, script: Vec<HOp>, flush: bool },
    SinkPoll { s: Idx, how: u8 },
    SinkDrop(Idx),
    PollSend(Idx),
    DropSend(Idx),
    // mailboxes
    MbClone(Idx),
    MbDrop(Idx),
    Next { m: Idx, poll: bool },
    /// Receive and dispatch from one mailbox, up to so many times, as long as there is something.
    Serve { m: Idx, n: u8 },
    PollRecv { r: Idx, hold: bool },
    DropRecv(Idx),
    DispatchHeld(Idx),
    DropHeld(Idx),
    PollDisp(Idx),
    DropDisp(Idx),
    // actors
    Spawn { m: Idx, own: bool, start_yields: u8, fail: bool, stop_yields: u8, poll: bool },
    PollActor(Idx),
    DropActor(Idx),
    /// An actor whose event loop is these steps.
    Pump { m: Idx, own: bool, plan: Vec<PStep>, poll: bool },
    /// Complete a future that a select or join waits for.
    Complete(Idx),
    // join handles and scoped tasks
    Join(Idx),
    Scoped { h: Idx, polls: u8 },
    PollJoin(Idx),
    DropJoin(Idx),
    /// Poll whatever has been woken (or was never polled), like an executor, for so many rounds.
    Exec(u8),
    /// The same so many times, for the handle, mailbox, receive ... so much further on each time.
    Many { n: u8, by: u8, op: Box<Op> },
}

impl Op {
    /// The same for the `k`-th handle, mailbox ... from there.
    pub fn shifted(&self, k: u8) -> Op {
        let mut op = self.clone();
        match &mut op {
            Op::HClone(i) | Op::HDown(i) | Op::HUp(i) | Op::HEither(i) | Op::HChan(i) | Op::HDrop(i) | Op::HQuery(i)
            | Op::SinkDrop(i) | Op::PollSend(i) | Op::DropSend(i) | Op::MbClone(i) | Op::MbDrop(i) | Op::DropRecv(i)
            | Op::DispatchHeld(i) | Op::DropHeld(i) | Op::PollDisp(i) | Op::DropDisp(i) | Op::PollActor(i)
            | Op::DropActor(i) | Op::Complete(i) | Op::Join(i) | Op::PollJoin(i) | Op::DropJoin(i)
            | Op::Send { h: i, .. } | Op::Bcast { h: i, .. } | Op::Burst { h: i, .. } | Op::BurstB { h: i, .. }
            | Op::Sink { h: i, .. } | Op::SinkSend { s: i, .. } | Op::SinkPoll { s: i, .. } | Op::Next { m: i, .. }
            | Op::Serve { m: i, .. } | Op::PollRecv { r: i, .. } | Op::Spawn { m: i, .. } | Op::Pump { m: i, .. }
            | Op::Scoped { h: i, .. } => *i = i.wrapping_add(k),
            Op::Exec(_) | Op::Many { .. } => {}
        }
        op
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    /// Capacity of each of the (one or two) addresses.
    pub caps: Vec<Option<u16>>,
    /// How many extra mailboxes to clone at the start, per address, and how many run actors.
    pub extra_mb: u8,
    pub actors: u8,
    pub ops: Vec<Op>,
    /// How the history is wound up.
    pub end: u8,
    /// Dozens of mailboxes and receives rather than a few.
    #[serde(default)]
    pub big: bool,
}

/// Relative weights of the operations; a profile per property.
#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub handles: u32,
    pub chans: u32,
    pub weak: u32,
    pub hdrop: u32,
    pub send: u32,
    pub bcast: u32,
    pub burst: u32,
    pub prio_default: u32,
    pub prio_other: u32,
    pub poll_send: u32,
    pub drop_send: u32,
    pub mb_clone: u32,
    pub mb_drop: u32,
    pub next: u32,
    pub serve: u32,
    pub poll_recv: u32,
    pub drop_recv: u32,
    pub disp: u32,
    pub drop_disp: u32,
    pub spawn: u32,
    pub poll_actor: u32,
    pub drop_actor: u32,
    pub join: u32,
    pub exec: u32,
    pub h_yield: u32,
    pub h_stop_self: u32,
    pub h_stop_all: u32,
    pub h_panic: u32,
    pub h_send: u32,
    pub h_none: u32,
    /// select and join, in handlers and event loops
    pub h_sel: u32,
    pub pump: u32,
    pub sink: u32,
    pub complete: u32,
    pub start_fail: u32,
    pub two_chans: u32,
    pub unbounded: u32,
    pub max_actors: u8,
    pub max_extra_mb: u8,
    pub len: (usize, usize),
    pub big: bool,
}

pub const BASE: Profile = Profile {
    name: "base",
    handles: 6,
    chans: 3,
    weak: 6,
    hdrop: 4,
    send: 30,
    bcast: 12,
    burst: 1,
    prio_default: 3,
    prio_other: 2,
    poll_send: 14,
    drop_send: 3,
    mb_clone: 3,
    mb_drop: 2,
    next: 10,
    serve: 3,
    poll_recv: 12,
    drop_recv: 4,
    disp: 6,
    drop_disp: 1,
    spawn: 3,
    poll_actor: 12,
    drop_actor: 1,
    join: 4,
    exec: 2,
    h_yield: 4,
    h_stop_self: 1,
    h_stop_all: 1,
    h_panic: 1,
    h_send: 1,
    h_none: 24,
    h_sel: 0,
    pump: 0,
    sink: 0,
    complete: 0,
    start_fail: 1,
    two_chans: 1,
    unbounded: 3,
    max_actors: 2,
    max_extra_mb: 2,
    len: (4, 60),
    big: false,
};

fn hop(p: &Profile) -> BoxedStrategy<HOp> {
    let mut v: Vec<(u32, BoxedStrategy<HOp>)> = vec![];
    let mut add = |w: u32, s: BoxedStrategy<HOp>| {
        if w > 0 {
            v.push((w, s))
        }
    };
    add(p.h_yield, Just(HOp::Yield).boxed());
    add(p.h_stop_self, Just(HOp::StopSelf).boxed());
    add(p.h_stop_all, Just(HOp::StopAll).boxed());
    add(p.h_panic, Just(HOp::Panic).boxed());
    add(p.h_sel, ckind().prop_map(HOp::Select).boxed());
    add(p.h_sel, ckind().prop_map(HOp::Join).boxed());
    add(p.h_send, prio_raw().prop_map(HOp::SendOwn).boxed());
    add(p.h_send, prio_raw().prop_map(HOp::BcastOwn).boxed());
    Union::new_weighted(v).boxed()
}

fn ckind() -> BoxedStrategy<u8> {
    prop_oneof![6 => Just(0u8), 1 => Just(1u8), 2 => 2u8..=4].boxed()
}

/// 0..=3 small, 4 => u32::MAX, 5 => u32::MAX - 1, 6 => 1 << 31
fn prio_raw() -> BoxedStrategy<u8> {
    prop_oneof![4 => 0u8..=3, 1 => 4u8..=6].boxed()
}

pub fn prio_value(p: u8) -> u32 {
    match p {
        0..=3 => p as u32,
        4 => u32::MAX,
        5 => u32::MAX - 1,
        _ => 1 << 31,
    }
}

fn script(p: &Profile) -> BoxedStrategy<Vec<HOp>> {
    let any = p.h_yield + p.h_stop_self + p.h_stop_all + p.h_panic + 2 * p.h_send + 2 * p.h_sel;
    if any == 0 {
        return Just(vec![]).boxed();
    }
    prop_oneof![
        p.h_none => Just(vec![]),
        any => proptest::collection::vec(hop(p), 1..=3),
    ]
    .boxed()
}

fn prio(p: &Profile) -> BoxedStrategy<Option<u8>> {
    if p.prio_other == 0 {
        return prop_oneof![3 => Just(None), 1 => Just(Some(0u8))].boxed();
    }
    prop_oneof![p.prio_default => Just(None), p.prio_other => prio_raw().prop_map(Some)].boxed()
}

pub fn op(p: &Profile) -> BoxedStrategy<Op> {
    let i = || any::<u8>();
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    let mut add = |w: u32, s: BoxedStrategy<Op>| {
        if w > 0 {
            v.push((w, s))
        }
    };
    add(p.handles, i().prop_map(Op::HClone).boxed());
    add(p.weak, i().prop_map(Op::HDown).boxed());
    add(p.weak, i().prop_map(Op::HUp).boxed());
    add(p.handles.div_ceil(2), i().prop_map(Op::HEither).boxed());
    add(p.chans, i().prop_map(Op::HChan).boxed());
    add(p.hdrop, i().prop_map(Op::HDrop).boxed());
    add(p.handles.div_ceil(3), i().prop_map(Op::HQuery).boxed());
    add(
        p.send,
        (i(), prio(p), prop::bool::weighted(0.4), script(p), prop::bool::weighted(0.85))
            .prop_map(|(h, prio, detach, script, poll)| Op::Send { h, prio, detach, script, poll })
            .boxed(),
    );
    add(
        p.bcast,
        (i(), prio(p), script(p), prop::bool::weighted(0.85))
            .prop_map(|(h, prio, script, poll)| Op::Bcast { h, prio, script, poll })
            .boxed(),
    );
    add(
        p.burst,
        (i(), if p.big { prop_oneof![1 => 2u8..=40, 1 => 41u8..=255] } else { prop_oneof![3 => 2u8..=8, 1 => 9u8..=40] }, prio(p))
            .prop_map(|(h, n, prio)| Op::Burst { h, n, prio })
            .boxed(),
    );
    add(
        if p.bcast > 0 { p.burst } else { 0 },
        (i(), if p.big { prop_oneof![1 => 2u8..=12, 1 => 13u8..=100] } else { prop_oneof![6 => 2u8..=5, 1 => 6u8..=12] }, prio(p))
            .prop_map(|(h, n, prio)| Op::BurstB { h, n, prio })
            .boxed(),
    );
    add(p.poll_send, i().prop_map(Op::PollSend).boxed());
    add(p.drop_send, i().prop_map(Op::DropSend).boxed());
    add(p.mb_clone, i().prop_map(Op::MbClone).boxed());
    add(p.mb_drop, i().prop_map(Op::MbDrop).boxed());
    add(
        p.next,
        (i(), prop::bool::weighted(0.8)).prop_map(|(m, poll)| Op::Next { m, poll }).boxed(),
    );
    add(p.serve, (i(), 1..=if p.big { 150u8 } else { 6 }).prop_map(|(m, n)| Op::Serve { m, n }).boxed());
    add(
        p.poll_recv,
        (i(), prop::bool::weighted(0.2)).prop_map(|(r, hold)| Op::PollRecv { r, hold }).boxed(),
    );
    add(p.drop_recv, i().prop_map(Op::DropRecv).boxed());
    add(p.disp.div_ceil(2), i().prop_map(Op::DispatchHeld).boxed());
    add(p.drop_disp, i().prop_map(Op::DropHeld).boxed());
    add(p.disp, i().prop_map(Op::PollDisp).boxed());
    add(p.drop_disp, i().prop_map(Op::DropDisp).boxed());
    let fail_p = p.start_fail as f64 / 12.0;
    add(
        p.spawn,
        (
            i(),
            prop::bool::weighted(0.4),
            prop_oneof![4 => Just(0u8), 1 => 1u8..=2],
            prop::bool::weighted(fail_p),
            prop_oneof![4 => Just(0u8), 1 => 1u8..=2],
            prop::bool::weighted(0.7),
        )
            .prop_map(|(m, own, start_yields, fail, stop_yields, poll)| Op::Spawn {
                m,
                own,
                start_yields,
                fail,
                stop_yields,
                poll,
            })
            .boxed(),
    );
    add(p.poll_actor, i().prop_map(Op::PollActor).boxed());
    add(p.drop_actor, i().prop_map(Op::DropActor).boxed());
    let pstep = prop_oneof![
        3 => ckind().prop_map(PStep::Select),
        3 => ckind().prop_map(PStep::Join),
        1 => Just(PStep::Once)
    ];
    add(
        p.pump,
        (i(), prop::bool::weighted(0.4), proptest::collection::vec(pstep, 1..=4), prop::bool::weighted(0.7))
            .prop_map(|(m, own, plan, poll)| Op::Pump { m, own, plan, poll })
            .boxed(),
    );
    add(p.sink.div_ceil(3), (i(), any::<bool>()).prop_map(|(h, chan)| Op::Sink { h, chan }).boxed());
    add(
        p.sink * 2,
        (i(), script(p), prop::bool::weighted(0.8))
            .prop_map(|(s, script, flush)| Op::SinkSend { s, script, flush })
            .boxed(),
    );
    add(
        p.sink,
        (i(), prop_oneof![6 => Just(0u8), 6 => Just(1), 1 => Just(2)])
            .prop_map(|(s, how)| Op::SinkPoll { s, how })
            .boxed(),
    );
    add(p.sink.div_ceil(6), i().prop_map(Op::SinkDrop).boxed());
    add(p.complete, i().prop_map(Op::Complete).boxed());
    add(p.join.div_ceil(2), i().prop_map(Op::Join).boxed());
    add(
        p.join.div_ceil(2),
        (i(), 0u8..=3).prop_map(|(h, polls)| Op::Scoped { h, polls }).boxed(),
    );
    add(p.join, i().prop_map(Op::PollJoin).boxed());
    add(p.join.div_ceil(3), i().prop_map(Op::DropJoin).boxed());
    add(p.exec, (1u8..=4).prop_map(Op::Exec).boxed());
    if p.big {
        let all: u32 = v.iter().map(|(w, _)| w).sum();
        let inner = Union::new_weighted(v.clone());
        let many = (prop_oneof![1 => 2u8..=12, 2 => 13u8..=80], any::<bool>(), inner)
            .prop_filter("once", |(_, _, op)| !matches!(op, Op::Burst { .. } | Op::BurstB { .. } | Op::Serve { .. } | Op::Exec(_)))
            .prop_map(|(n, by, op)| Op::Many { n, by: by as u8, op: Box::new(op) });
        v.push((all / 3, many.boxed()));
    }
    Union::new_weighted(v).boxed()
}

impl Profile {
    /// The same with much more of everything.
    fn big(&self) -> Profile {
        let mut p = self.clone();
        p.big = true;
        p.burst *= 3;
        p.serve *= 2;
        p.mb_clone = p.mb_clone * 2;
        p.len = (4, 24);
        p
    }

    /// A variation: most operations much more or less likely, some not there at all.  Uniformly
    /// mixed histories undo with one operation what the other just built up.
    fn swarm(&self, n: u64) -> Profile {
        let mut p = self.clone();
        let mut x = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(n + 1);
        let mut rnd = move || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x >> 33
        };
        macro_rules! vary {
            ($($f:ident)*) => {$(
                p.$f = match rnd() % 8 {
                    0 | 1 => 0,
                    2 | 3 | 4 => p.$f,
                    5 | 6 => p.$f * 3,
                    _ => p.$f * 8,
                };
            )*};
        }
        vary!(handles chans weak hdrop send bcast burst prio_default prio_other poll_send drop_send mb_clone mb_drop
              next serve poll_recv drop_recv disp drop_disp spawn poll_actor drop_actor join exec
              h_yield h_stop_self h_stop_all h_panic h_send h_sel pump sink complete);
        if p.send + p.bcast + p.sink == 0 {
            (p.send, p.bcast, p.sink) = (self.send, self.bcast, self.sink);
        }
        if p.next + p.serve + p.spawn == 0 {
            (p.next, p.serve) = (self.next, self.serve);
        }
        if p.prio_default + p.prio_other == 0 {
            p.prio_default = 1;
        }
        if n % 8 == 7 {
            p.len = (self.len.1, self.len.1 * 2);
        }
        p
    }
}

/// Histories of the profile and of variations of it.
pub fn case(p: &Profile) -> BoxedStrategy<Case> {
    let mut v = vec![(24, case_of(p))];
    v.extend((0..24).map(|n| (1, case_of(&p.swarm(n)))));
    v.push((1, case_of(&p.big())));
    Union::new_weighted(v).boxed()
}

fn case_of(p: &Profile) -> BoxedStrategy<Case> {
    let mut caps: Vec<(u32, BoxedStrategy<Option<u16>>)> = vec![
        (12, (1u16..=3).prop_map(Some).boxed()),
        (4, (4u16..=6).prop_map(Some).boxed()),
        (1, (7u16..=40).prop_map(Some).boxed()),
    ];
    if p.big {
        caps.truncate(2);
        caps.push((12, (7u16..=300).prop_map(Some).boxed()));
    }
    if p.unbounded > 0 {
        caps.push((p.unbounded * 4, Just(None).boxed()));
    }
    let cap = Union::new_weighted(caps).boxed();
    let nchan = prop_oneof![8 => Just(1usize), p.two_chans.max(1) => Just(2usize)];
    let nchan = if p.two_chans == 0 { Just(1usize).boxed() } else { nchan.boxed() };
    let (lo, hi) = p.len;
    let big = p.big;
    (
        nchan.prop_flat_map(move |n| proptest::collection::vec(cap.clone(), n..=n)),
        0..=p.max_extra_mb,
        0..=p.max_actors,
        proptest::collection::vec(op(p), lo..hi),
        any::<u8>(),
    )
        .prop_map(move |(caps, extra_mb, actors, ops, end)| Case { caps, extra_mb, actors, ops, end, big })
        .boxed()
}
