//! Concurrent programs and how they are generated.
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Script {
    None,
    Yield,
    StopSelf,
    StopAll,
    /// the handler suspends and its dispatch is dropped
    Abort,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum SMode {
    /// await the reply
    Wait,
    /// detach, await acceptance, await the reply at the end
    Detach,
    /// poll once, drop if not resolved
    Try,
    /// poll once, keep, await at the end
    Keep,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Via {
    Strong,
    Weak,
    Channel,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum SStep {
    Send(SMode, u32, Script, Via),
    Bcast(SMode, u32),
    Clone,
    DropOne,
    DropAll,
    Downgrade,
    Upgrade,
    Either,
    Query,
    Join,
    JoinDrop,
    /// scoped task whose future is ready after some polls (None: never)
    Scoped(Option<u8>),
    Yield,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum MStep {
    /// poll a receive up to n times with a yield in between, take what comes, else drop it
    Cancel(u8),
    /// poll a receive once, yield n times, drop it without looking
    Hold(u8),
    /// two receives at once; the first is dropped
    Two,
    /// two receives at once; the second is dropped
    TwoRev,
    Select(u8),
    CloneDrop,
    CloneServe,
    Upgrade,
    Yield,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum MEnd {
    Loop,
    Run,
    Drop,
    Serve(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MbRole {
    pub steps: Vec<MStep>,
    pub end: MEnd,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Sender {
    pub steps: Vec<SStep>,
    /// drop the strong handles before awaiting what is still open
    pub drop_first: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pub cap: Option<u8>,
    pub mbs: Vec<MbRole>,
    pub senders: Vec<Sender>,
    /// mailbox 0 belongs to an actor which stops for nothing but the last address going
    pub survivor: bool,
    /// the main thread keeps a strong address until the senders are through their steps
    pub main_holds: bool,
    /// destructors of messages use the address
    pub reenter: bool,
    pub seed: u64,
    pub pct: u8,
}

impl Case {
    pub fn script(&self, s: Script) -> Script {
        if self.survivor && s == Script::StopAll {
            Script::Yield
        } else {
            s
        }
    }
    pub fn has_script(&self, w: Script) -> bool {
        self.senders.iter().flat_map(|s| &s.steps).any(|s| matches!(s, SStep::Send(_, _, x, _) if self.script(*x) == w))
    }
    pub fn end(&self, m: usize) -> MEnd {
        let e = self.mbs[m].end;
        if m == 0 && self.survivor && !matches!(e, MEnd::Loop | MEnd::Run) {
            MEnd::Loop
        } else {
            e
        }
    }
    /// Does the actor of this mailbox stop only when the last strong address goes?
    pub fn natural(&self, m: usize) -> bool {
        matches!(self.end(m), MEnd::Loop | MEnd::Run)
            && ((m == 0 && self.survivor) || !(self.has_script(Script::StopSelf) || self.has_script(Script::StopAll)))
    }
    pub fn cancels(&self) -> bool {
        self.mbs.iter().flat_map(|m| &m.steps).any(|s| {
            matches!(s, MStep::Cancel(_) | MStep::Hold(_) | MStep::Two | MStep::TwoRev | MStep::Select(_))
        })
    }
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub senders: (usize, usize),
    pub steps: (usize, usize),
    pub mbs: (usize, usize),
    pub msteps: (usize, usize),
    /// weights: unbounded, 1, 2, 3
    pub cap: [u32; 4],
    pub survivor: f64,
    pub main_holds: f64,
    pub reenter: f64,
    pub send: u32,
    pub bcast: u32,
    pub refs: u32,
    pub query: u32,
    pub join: u32,
    /// Wait, Detach, Try, Keep
    pub modes: [u32; 4],
    /// None, Yield, StopSelf, StopAll, Abort
    pub scripts: [u32; 5],
    /// Strong, Weak, Channel
    pub via: [u32; 3],
    pub prio: u32,
    /// Cancel, Hold, Two, Select, CloneDrop, CloneServe, Upgrade, Yield
    pub ms: [u32; 8],
    /// Loop, Run, Drop, Serve
    pub ends: [u32; 4],
}

fn pick<T: Clone + std::fmt::Debug + 'static>(w: &[u32], v: Vec<T>) -> BoxedStrategy<T> {
    Union::new_weighted(w.iter().copied().zip(v).filter(|(w, _)| *w > 0).map(|(w, v)| (w, Just(v))).collect()).boxed()
}

fn sstep(p: &Profile) -> BoxedStrategy<SStep> {
    let mode = pick(&p.modes, vec![SMode::Wait, SMode::Detach, SMode::Try, SMode::Keep]);
    let script = pick(&p.scripts, vec![Script::None, Script::Yield, Script::StopSelf, Script::StopAll, Script::Abort]);
    let via = pick(&p.via, vec![Via::Strong, Via::Weak, Via::Channel]);
    let prio = pick(&[8, p.prio, p.prio], vec![0u32, 1, 7]);
    let mut v: Vec<(u32, BoxedStrategy<SStep>)> = vec![
        (p.send, (mode.clone(), prio.clone(), script, via).prop_map(|(m, p, s, v)| SStep::Send(m, p, s, v)).boxed()),
        (p.bcast, (mode, prio).prop_map(|(m, p)| SStep::Bcast(m, p)).boxed()),
        (
            p.refs,
            pick(
                &[3, 4, 2, 3, 4, 2],
                vec![SStep::Clone, SStep::DropOne, SStep::DropAll, SStep::Downgrade, SStep::Upgrade, SStep::Either],
            ),
        ),
        (p.query, Just(SStep::Query).boxed()),
        (
            p.join,
            prop_oneof![
                3 => Just(SStep::Join),
                1 => Just(SStep::JoinDrop),
                1 => Just(SStep::Scoped(None)),
                1 => (0u8..3).prop_map(|n| SStep::Scoped(Some(n))),
            ]
            .boxed(),
        ),
        (3, Just(SStep::Yield).boxed()),
    ];
    v.retain(|(w, _)| *w > 0);
    Union::new_weighted(v).boxed()
}

fn mstep(p: &Profile) -> BoxedStrategy<MStep> {
    let mut v: Vec<(u32, BoxedStrategy<MStep>)> = vec![
        (p.ms[0], (1u8..3).prop_map(MStep::Cancel).boxed()),
        (p.ms[1], (0u8..3).prop_map(MStep::Hold).boxed()),
        (p.ms[2], prop_oneof![Just(MStep::Two), Just(MStep::TwoRev)].boxed()),
        (p.ms[3], (0u8..4).prop_map(MStep::Select).boxed()),
        (p.ms[4], Just(MStep::CloneDrop).boxed()),
        (p.ms[5], Just(MStep::CloneServe).boxed()),
        (p.ms[6], Just(MStep::Upgrade).boxed()),
        (p.ms[7], Just(MStep::Yield).boxed()),
    ];
    v.retain(|(w, _)| *w > 0);
    Union::new_weighted(v).boxed()
}

pub fn case(p: &Profile) -> BoxedStrategy<Case> {
    let mut ends: Vec<(u32, BoxedStrategy<MEnd>)> = vec![
        (p.ends[0], Just(MEnd::Loop).boxed()),
        (p.ends[1], Just(MEnd::Run).boxed()),
        (p.ends[2], Just(MEnd::Drop).boxed()),
        (p.ends[3], (1u8..4).prop_map(MEnd::Serve).boxed()),
    ];
    ends.retain(|(w, _)| *w > 0);
    let end = Union::new_weighted(ends);
    let mb = (prop::collection::vec(mstep(p), p.msteps.0..=p.msteps.1), end).prop_map(|(steps, end)| MbRole { steps, end });
    let sender = (prop::collection::vec(sstep(p), p.steps.0..=p.steps.1), any::<bool>())
        .prop_map(|(steps, drop_first)| Sender { steps, drop_first });
    (
        pick(&p.cap, vec![None, Some(1u8), Some(2), Some(3)]),
        prop::collection::vec(mb, p.mbs.0..=p.mbs.1),
        prop::collection::vec(sender, p.senders.0..=p.senders.1),
        prop::bool::weighted(p.survivor),
        prop::bool::weighted(p.main_holds),
        prop::bool::weighted(p.reenter),
        any::<u64>().no_shrink(),
        (1u8..5).no_shrink(),
    )
        .prop_map(|(cap, mbs, senders, survivor, main_holds, reenter, seed, pct)| Case {
            cap,
            mbs,
            senders,
            survivor,
            main_holds,
            reenter,
            seed,
            pct,
        })
        .boxed()
}
