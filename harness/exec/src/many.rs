//! Several actors on different executors behind one address, several senders.
use crate::runner::{Engine, Outcome, Verdict};
use crate::site::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use xtra::{Actor, Context, Error, Handler, Mailbox};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Send1 {
    prio: u8,
    broadcast: bool,
    detach: bool,
    yields: u8,
    /// stop one actor
    stop: bool,
    /// the sender lets others run after it
    pause: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    cap: u8,
    /// executor, site of the spawn
    actors: Vec<(u8, u8)>,
    /// site, requests
    senders: Vec<(u8, Vec<Send1>)>,
    /// keep the addresses the helpers returned, or drop them at once
    keep: bool,
}
#[derive(Default)]
struct Log {
    /// per actor
    handled: Mutex<Vec<Vec<(u16, u16)>>>,
    stopped: Vec<Arc<Flag>>,
}
struct Act {
    n: usize,
    log: Arc<Log>,
}
impl Actor for Act {
    type Stop = ();
    async fn stopped(self) {
        self.log.stopped[self.n].set();
    }
}
#[derive(Clone)]
struct Msg {
    by: u16,
    seq: u16,
    yields: u8,
    stop: bool,
}
/// To broadcast.
#[derive(Clone)]
struct All(Msg);
impl Handler<All> for Act {
    type Return = ();
    async fn handle(&mut self, m: All, ctx: &mut Context<Self>) {
        Handler::<Msg>::handle(self, m.0, ctx).await;
    }
}
impl Handler<Msg> for Act {
    type Return = u32;
    async fn handle(&mut self, m: Msg, ctx: &mut Context<Self>) -> u32 {
        self.log.handled.lock().unwrap()[self.n].push((m.by, m.seq));
        for _ in 0..m.yields % 3 {
            YieldNow(false).await
        }
        if m.stop {
            ctx.stop_self()
        }
        (m.by as u32) << 16 | m.seq as u32
    }
}

fn run(case: &Case) -> Result<usize, String> {
    let cap = case.cap as usize % 5;
    let (a, m) = if cap == 0 { Mailbox::<Act>::unbounded() } else { Mailbox::bounded(cap) };
    let n = case.actors.len();
    let log = Arc::new(Log { handled: Mutex::new(vec![vec![]; n]), stopped: (0..n).map(|_| Arc::new(Flag::default())).collect() });
    let weak = a.downgrade();
    let mut kept = vec![];
    for (i, (e, site)) in case.actors.iter().enumerate() {
        let (a2, m2, act, e) = (a.clone(), m.clone(), Act { n: i, log: log.clone() }, EXECS[*e as usize % EXECS.len()]);
        let Some(r) = at(*site, move || spawn_actor(e, act, (a2, m2))) else {
            return Err(format!("the spawn helper for {e:?} does not return"));
        };
        if !r.is_connected() || !r.same_actor(&a) {
            return Err(format!("the helper for {e:?} returns another address"));
        }
        if case.keep {
            kept.push(r);
        }
    }
    drop(m);
    // one actor stays; without stops, all do
    let mut stops = n - 1;
    let mut broadcast_stop = false;
    let mut senders = vec![];
    for (b, (site, v)) in case.senders.iter().enumerate() {
        let mut v = v.clone();
        for s in v.iter_mut() {
            s.stop &= stops > 0 && !s.broadcast;
            if s.stop {
                stops -= 1;
                broadcast_stop = true;
            }
        }
        senders.push((b as u16, *site, v));
    }
    let expected_stops = n - 1 - stops;
    let results: Arc<Mutex<Vec<String>>> = Arc::default();
    let mut done = vec![];
    for (by, site, v) in senders.clone() {
        let (a, results) = (a.clone(), results.clone());
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        done.push(rx);
        task(site, async move {
            let mut late = vec![];
            let check = |seq: u16, r: Result<u32, Error>| {
                if r != Ok((by as u32) << 16 | seq as u32) {
                    results.lock().unwrap().push(format!("request {seq} of sender {by} is answered {r:?}"));
                }
            };
            for (seq, s) in v.into_iter().enumerate() {
                let seq = seq as u16;
                let m = Msg { by, seq, yields: s.yields, stop: s.stop };
                let p = (s.prio % 3) as u32;
                if s.broadcast {
                    if let Err(e) = a.broadcast(All(m)).priority(p).await {
                        results.lock().unwrap().push(format!("broadcast {seq} of sender {by} fails: {e}"));
                    }
                } else if s.detach {
                    match a.send(m).priority(p).detach().await {
                        Ok(r) => late.push((seq, r)),
                        Err(e) => check(seq, Err(e)),
                    }
                } else {
                    check(seq, a.send(m).priority(p).await);
                }
                if s.pause {
                    YieldNow(false).await;
                }
            }
            for (seq, r) in late {
                check(seq, r.await)
            }
            drop(a);
            drop(tx);
        });
    }
    for (by, rx) in done.into_iter().enumerate() {
        if rx.recv_timeout(limit()) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
            return Err(format!("sender {by} waits forever; handled: {:?}", log.handled.lock().unwrap()));
        }
    }
    if let Some(m) = results.lock().unwrap().first() {
        return Err(m.clone());
    }
    if weak.try_upgrade().is_none() || !weak.is_connected() {
        return Err("the actors are gone although there is a strong address".into());
    }
    // no more than the stop requests say
    let running = log.stopped.iter().filter(|f| !f.get()).count();
    if running + expected_stops < n {
        return Err(format!("{} actors stopped by themselves", n - running - expected_stops));
    }
    drop(kept);
    drop(a);
    for (i, f) in log.stopped.iter().enumerate() {
        if wait(f.wait()).is_none() {
            return Err(format!("actor {i} ({:?}) does not stop although no strong address is left", EXECS[case.actors[i].0 as usize % EXECS.len()]));
        }
    }
    if wait(weak.join()).is_none() {
        return Err("join does not return although all actors stopped".into());
    }
    if weak.try_upgrade().is_some() || weak.is_connected() {
        return Err("connected, or upgradable, although all actors stopped".into());
    }
    // every request once; every broadcast once at every actor
    let handled = log.handled.lock().unwrap().clone();
    let total: usize = handled.iter().map(|h| h.len()).sum();
    let mut count: BTreeMap<(u16, u16), Vec<usize>> = BTreeMap::new();
    for (k, h) in handled.iter().enumerate() {
        for x in h {
            count.entry(*x).or_default().push(k);
        }
    }
    for (by, _, v) in &senders {
        for (seq, s) in v.iter().enumerate() {
            let c = count.get(&(*by, seq as u16)).cloned().unwrap_or_default();
            if s.broadcast {
                let mut d = c.clone();
                d.dedup();
                if d.len() != c.len() || (d.len() != n && !broadcast_stop) {
                    return Err(format!("broadcast {seq} of sender {by} was handled by the actors {c:?} of {n}"));
                }
            } else if c.len() != 1 {
                return Err(format!("request {seq} of sender {by} was handled {} times", c.len()));
            }
        }
    }
    // what one sender sends with the same priority, one actor handles in that order
    for (k, h) in handled.iter().enumerate() {
        let mut last: BTreeMap<(u16, u8, bool), u16> = BTreeMap::new();
        for (by, seq) in h {
            let s = &senders[*by as usize].2[*seq as usize];
            if let Some(l) = last.insert((*by, s.prio % 3, s.broadcast), *seq) {
                if l > *seq {
                    return Err(format!("actor {k} handled {l} before {seq} of sender {by}: {h:?}"));
                }
            }
        }
    }
    Ok(total)
}

pub struct Many;
impl Engine for Many {
    type Case = Case;
    fn name(&self) -> &'static str {
        "executors-mixed"
    }
    fn rule(&self) -> String {
        "up to 4 actors spawned with different helpers behind one address, up to 4 concurrent senders on different executors; invariants on the logs; non-trivial: at least two actors or senders, and four requests".into()
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let send = (any::<u8>(), prop::bool::weighted(0.2), any::<bool>(), any::<u8>(), prop::bool::weighted(0.08), prop::bool::weighted(0.3))
            .prop_map(|(prio, broadcast, detach, yields, stop, pause)| Send1 { prio, broadcast, detach, yields, stop, pause });
        (
            0u8..5,
            prop::collection::vec((any::<u8>(), any::<u8>()), 1..5),
            prop::collection::vec((any::<u8>(), prop::collection::vec(send, 0..12)), 1..5),
            any::<bool>(),
        )
            .prop_map(|(cap, actors, senders, keep)| Case { cap, actors, senders, keep })
            .boxed()
    }
    fn shrink_budget(&self) -> (usize, std::time::Duration) {
        (2000, std::time::Duration::from_secs(60))
    }
    fn run(&self, case: &Case) -> Outcome {
        let n: usize = case.senders.iter().map(|s| s.1.len()).sum();
        let verdict = match run(case) {
            Ok(_) => Verdict::Pass,
            Err(m) => Verdict::Fail(m),
        };
        let mut labels = vec![];
        let mut execs: Vec<u8> = case.actors.iter().map(|a| a.0 % 6).collect();
        execs.sort();
        execs.dedup();
        if execs.len() > 1 {
            labels.push("several executors")
        }
        if case.senders.len() > 1 {
            labels.push("several senders")
        }
        if case.cap % 5 != 0 {
            labels.push("bounded")
        }
        if case.senders.iter().any(|s| s.1.iter().any(|x| x.broadcast)) {
            labels.push("broadcast")
        }
        Outcome { verdict, nontrivial: n >= 4 && (case.actors.len() > 1 || case.senders.len() > 1), labels }
    }
}
