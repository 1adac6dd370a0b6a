//! What must hold of the log of any execution.
use super::prog::*;
use super::run::{Ev, R};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Hang,
    Panic,
    Dup,
    Phantom,
    Lost,
    BadResult,
    BcastDup,
    BcastMissing,
    BcastWrong,
    Cap,
    Order,
    Upgrade,
    EarlyStop,
    Connected,
    Reconnect,
    Join,
    Leak,
    End,
}

#[derive(Default)]
struct Snd {
    start: usize,
    strong: bool,
    def: bool,
    bc: bool,
    polled: Option<usize>,
    pending: bool,
    acc: Option<usize>,
    res: Option<(usize, R)>,
    /// (event, mailbox)
    h: Vec<(usize, usize)>,
    end: Vec<usize>,
    cut: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Feats {
    /// a send was in progress while a mailbox or the last address went
    pub send_vs_stop: bool,
    pub recv_dropped_busy: bool,
    pub competing: bool,
    pub up_ok: bool,
    pub up_fail: bool,
    pub up_vs_drop: bool,
    pub join_vs_stop: bool,
    pub blocked_released: bool,
    pub bcast_many: bool,
    pub disc: bool,
    pub intr: bool,
    pub handled: usize,
}

/// Events of sends which are still without an answer, for the message of a hang.
pub fn pending(ev: &[Ev]) -> String {
    let mut open = BTreeSet::new();
    let mut joins = BTreeSet::new();
    for e in ev {
        match *e {
            Ev::Send { id, .. } => {
                open.insert(id);
            }
            Ev::Res { id, .. } | Ev::Gone { id } => {
                open.remove(&id);
            }
            Ev::JMade { k } => {
                joins.insert(k);
            }
            Ev::JReady { k } | Ev::SReady { k, .. } => {
                joins.remove(&k);
            }
            _ => {}
        }
    }
    format!("unresolved sends {open:?}, unresolved joins or scoped tasks {joins:?}")
}

pub fn check(case: &Case, ev: &[Ev], live: i32, end: &[String], out: &mut Vec<(Kind, String)>) -> Feats {
    let mut f = Feats::default();
    let mut s: BTreeMap<u32, Snd> = BTreeMap::new();
    // counts after each event: possible and certain strong handles and mailboxes
    let mut cnt: Vec<[i32; 4]> = vec![];
    let mut cur = [0i32; 4];
    let mut mb_new: BTreeMap<usize, usize> = BTreeMap::new();
    let mut mb_made: BTreeMap<usize, (usize, bool)> = BTreeMap::new();
    let mut up: BTreeMap<u32, usize> = BTreeMap::new();
    let mut q: BTreeMap<u32, usize> = BTreeMap::new();
    let mut js: BTreeMap<u32, (usize, usize)> = BTreeMap::new();
    let mut gone: Vec<usize> = vec![];
    for (i, e) in ev.iter().enumerate() {
        match *e {
            Ev::StrongPos(n) => cur[0] += n as i32,
            Ev::StrongDef(n) => cur[1] += n as i32,
            Ev::MbPos(n) => cur[2] += n as i32,
            Ev::MbDef(n) => cur[3] += n as i32,
            Ev::Send { id, strong, def, bc } => {
                s.insert(id, Snd { start: i, strong, def, bc, ..Snd::default() });
            }
            Ev::Polled { id, pending } => {
                let x = s.get_mut(&id).unwrap();
                x.polled = Some(i);
                x.pending = pending;
            }
            Ev::Acc { id } => s.get_mut(&id).unwrap().acc = Some(i),
            Ev::Res { id, r } => s.get_mut(&id).unwrap().res = Some((i, r)),
            Ev::H { id, mb } => s.get_mut(&id).unwrap().h.push((i, mb)),
            Ev::HEnd { id, .. } => s.get_mut(&id).unwrap().end.push(i),
            Ev::HCut { id, .. } => s.get_mut(&id).unwrap().cut = true,
            Ev::MbNew { mb } => {
                mb_new.insert(mb, i);
            }
            Ev::MbMade { mb, natural } => {
                mb_made.insert(mb, (i, natural));
            }
            Ev::MbGone { .. } => gone.push(i),
            _ => {}
        }
        cnt.push(cur);
    }
    let min = |c: usize, a: usize, b: usize| cnt[a..=b].iter().map(|x| x[c]).min().unwrap();
    let max = |c: usize, a: usize, b: usize| cnt[a..=b].iter().map(|x| x[c]).max().unwrap();
    let natural: Vec<usize> = mb_made.iter().filter(|(_, v)| v.1).map(|(k, _)| *k).collect();
    let foreign_cancel = (0..case.mbs.len()).any(|m| !case.natural(m) && !case.mbs[m].steps.is_empty());
    // some mailbox is served until everything is handled
    let served = (0..case.mbs.len()).any(|m| case.natural(m)) && (case.main_holds || !foreign_cancel);
    let has_stop_all = case.has_script(Script::StopAll);

    for (&id, x) in &s {
        let acc_known = x.acc.is_some() || (x.bc && matches!(x.res, Some((_, R::Ok))));
        if !x.bc {
            if x.h.len() > 1 {
                out.push((Kind::Dup, format!("message {id} was handled {} times", x.h.len())));
            }
            match x.res {
                Some((_, R::Wrong)) => out.push((Kind::BadResult, format!("the sender of {id} got a reply no handler gave"))),
                Some((_, R::Ok)) if x.end.len() != 1 => {
                    out.push((Kind::BadResult, format!("the sender of {id} got Ok, its handler completed {} times", x.end.len())))
                }
                Some((_, R::Disc)) => {
                    f.disc = true;
                    if !x.h.is_empty() {
                        out.push((Kind::Phantom, format!("message {id} was handled, its sender got Disconnected")));
                    }
                    if x.acc.is_some() {
                        out.push((Kind::BadResult, format!("message {id} was accepted, its sender got Disconnected")));
                    }
                    if x.strong && served && natural.first() == Some(&0) && case.natural(0) && min(1, x.start, x.res.unwrap().0) > 0 {
                        out.push((Kind::BadResult, format!("the sender of {id} got Disconnected although an actor was running and a strong address existed")));
                    }
                }
                Some((_, R::Intr)) => {
                    f.intr = true;
                    if !x.end.is_empty() {
                        out.push((Kind::BadResult, format!("the sender of {id} got Interrupted, its handler completed")));
                    }
                    if served && x.h.is_empty() {
                        out.push((Kind::Lost, format!("message {id} was accepted and dropped although an actor kept running")));
                    } else if !x.cut && x.end.is_empty() && !x.h.is_empty() {
                        out.push((Kind::BadResult, format!("message {id}: the sender got Interrupted while its handler was running")));
                    }
                }
                _ => {}
            }
            if served && acc_known && x.h.is_empty() {
                out.push((Kind::Lost, format!("message {id} was accepted and never handled although an actor kept running")));
            }
            if x.pending && x.acc.is_some_and(|a| a > x.polled.unwrap()) {
                f.blocked_released = true;
            }
        } else {
            let mut by: BTreeMap<usize, usize> = BTreeMap::new();
            for &(_, mb) in &x.h {
                *by.entry(mb).or_insert(0) += 1;
            }
            for (mb, n) in &by {
                if *n > 1 {
                    out.push((Kind::BcastDup, format!("broadcast {id} was handled {n} times by mailbox {mb}")));
                }
            }
            let r = x.res.map(|r| r.1);
            if r == Some(R::Disc) {
                f.disc = true;
                if !by.is_empty() {
                    out.push((Kind::Phantom, format!("broadcast {id} was handled, its sender got Disconnected")));
                }
                if x.strong && case.natural(0) && min(1, x.start, x.res.unwrap().0) > 0 {
                    out.push((Kind::BadResult, format!("the sender of broadcast {id} got Disconnected although an actor was running and a strong address existed")));
                }
            }
            if r == Some(R::Intr) {
                out.push((Kind::BadResult, format!("broadcast {id} resolved to Interrupted")));
            }
            if r == Some(R::Ok) || !by.is_empty() {
                // A blocked broadcast may be accepted when some actors have already stopped for want
                // of addresses (`known`: at the latest it was accepted here).
                let known = match (x.pending, x.res, x.h.first()) {
                    (false, ..) => x.polled.unwrap_or(ev.len() - 1),
                    (true, Some((i, R::Ok)), Some(h)) => i.min(h.0),
                    (true, Some((i, _)), _) => i,
                    (true, None, Some(h)) => h.0,
                    (true, None, None) => unreachable!(),
                };
                for &m in &natural {
                    if mb_made[&m].0 < x.start && !by.contains_key(&m) && min(1, x.start, known) > 0 {
                        out.push((Kind::BcastMissing, format!("broadcast {id} was accepted but mailbox {m} never got it")));
                    }
                }
            }
            if let Some((ri, R::Ok)) = x.res {
                for (m, &n) in &mb_new {
                    if n > ri && by.contains_key(m) {
                        out.push((Kind::BcastWrong, format!("broadcast {id} was handled by mailbox {m}, which was made after its acceptance")));
                    }
                }
                if x.pending {
                    f.blocked_released = true;
                }
            }
            if by.len() > 1 {
                f.bcast_many = true;
            }
        }
        f.handled += x.h.len();
        let stop = x.res.map_or(ev.len() - 1, |r| r.0);
        if gone.iter().any(|&g| g > x.start && g < stop) || (cnt[x.start][0] > 0 && min(0, x.start, stop) == 0) {
            f.send_vs_stop = true;
        }
    }
    // order of default-priority messages
    let clones = case.mbs.iter().flat_map(|m| &m.steps).any(|s| matches!(s, MStep::CloneServe | MStep::CloneDrop));
    if case.mbs.len() == 1 && !case.cancels() && !clones {
        for (a, x) in &s {
            for (b, y) in &s {
                if x.bc || y.bc || !x.def || !y.def {
                    continue;
                }
                if let (Some(p), Some(&(ha, _)), Some(&(hb, _))) = (x.polled, x.h.first(), y.h.first()) {
                    if p < y.start && hb < ha {
                        out.push((Kind::Order, format!("message {a} was sent before {b} but handled after it")));
                    }
                }
            }
        }
    }
    // capacity
    if let Some(cap) = case.cap {
        let cap = cap as usize;
        if !case.cancels() && !has_stop_all {
            let (any_u, any_b) = (s.values().any(|x| !x.bc), s.values().any(|x| x.bc));
            let bound = cap * (any_u as usize + any_b as usize);
            for e in ev {
                if let Ev::QEnd { len, .. } = *e {
                    if len > bound {
                        out.push((Kind::Cap, format!("len is {len} with capacity {cap}")));
                    }
                }
            }
            let inflight = |pts: &[(usize, usize)]| {
                pts.iter().map(|&(a, _)| pts.iter().filter(|&&(b, h)| b <= a && h > a).count()).max().unwrap_or(0)
            };
            let uni: Vec<(usize, usize)> = s
                .values()
                .filter(|x| !x.bc)
                .filter_map(|x| Some((x.acc?, x.h.first().map_or(usize::MAX, |h| h.0))))
                .filter(|x| x.1 != usize::MAX)
                .collect();
            let n = inflight(&uni);
            if n > cap + mb_made.len() {
                out.push((Kind::Cap, format!("{n} accepted messages were waiting at once with capacity {cap} and {} actors", mb_made.len())));
            }
            for &m in &natural {
                let b: Vec<(usize, usize)> = s
                    .values()
                    .filter(|x| x.bc && matches!(x.res, Some((_, R::Ok))))
                    .filter_map(|x| Some((x.res?.0, x.h.iter().find(|h| h.1 == m)?.0)))
                    .collect();
                let n = inflight(&b);
                if n > cap + 1 {
                    out.push((Kind::Cap, format!("{n} accepted broadcasts were waiting at once for mailbox {m} with capacity {cap}")));
                }
            }
        }
    }
    // liveness tracking
    let mut false_at: Option<usize> = None;
    let mut recv_open: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, e) in ev.iter().enumerate() {
        match *e {
            Ev::UpStart { k } => {
                up.insert(k, i);
            }
            Ev::UpEnd { k, ok } => {
                let a = up[&k];
                if ok {
                    f.up_ok = true;
                } else {
                    f.up_fail = true;
                    if min(1, a, i) > 0 {
                        out.push((Kind::Upgrade, "an upgrade failed although a strong address existed all the time".into()));
                    }
                }
                if cnt[a][1] != cnt[i][1] - ok as i32 || cnt[a][0] != cnt[i][0] {
                    f.up_vs_drop = true;
                }
            }
            Ev::NatStop { mb } => {
                if cnt[i][1] > 0 {
                    out.push((Kind::EarlyStop, format!("the actor of mailbox {mb} stopped although a strong address exists")));
                }
            }
            Ev::QStart { k } => {
                q.insert(k, i);
            }
            Ev::QEnd { k, conn, .. } => {
                let a = q[&k];
                if conn {
                    if false_at.is_some_and(|t| t < a) {
                        out.push((Kind::Reconnect, "is_connected turned from false back to true".into()));
                    }
                    // the event that starts the query comes after what was dropped before it
                    if max(0, a, i) == 0 || max(2, a, i) == 0 {
                        out.push((Kind::Connected, "is_connected is true although all strong addresses or all mailboxes are gone".into()));
                    }
                } else {
                    if false_at.is_none() {
                        false_at = Some(i);
                    }
                    if min(1, a, i) > 0 && min(3, a, i) > 0 {
                        out.push((Kind::Connected, "is_connected is false although a strong address and a mailbox exist".into()));
                    }
                }
            }
            Ev::JStart { k } => {
                js.insert(k, (i, i));
            }
            Ev::JMade { k } => js.get_mut(&k).unwrap().1 = i,
            Ev::JReady { k } | Ev::SReady { k, some: false } => {
                let (a, m) = js[&k];
                if min(1, a, m) > 0 && min(3, a, i) > 0 {
                    out.push((Kind::Join, "a join handle or scoped task ended although a mailbox exists".into()));
                }
                if gone.iter().any(|&g| g > m && g < i) {
                    f.join_vs_stop = true;
                }
            }
            Ev::SReady { k, some: true } => {
                let (a, _) = js[&k];
                if cnt[a][0] == 0 || cnt[a][2] == 0 {
                    out.push((Kind::Join, "a scoped task of a dead actor yielded a result".into()));
                }
            }
            Ev::RecvStart { mb } => {
                recv_open.insert(mb, i);
            }
            Ev::RecvDrop { mb } => {
                let a = recv_open[&mb];
                if ev[a..i].iter().any(|e| matches!(e, Ev::Send { .. } | Ev::Polled { .. })) {
                    f.recv_dropped_busy = true;
                }
            }
            _ => {}
        }
    }
    let mbs: BTreeSet<usize> = s.values().filter(|x| !x.bc).flat_map(|x| x.h.iter().map(|h| h.1)).collect();
    f.competing = mbs.len() > 1;
    for e in end {
        out.push((Kind::End, e.clone()));
    }
    if live != 0 {
        out.push((Kind::Leak, format!("{live} messages or actors are still there at the end")));
    }
    f
}
