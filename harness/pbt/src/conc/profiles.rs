//! Which programs and rules decide which property.
use super::engine::Conc;
use super::oracle::{Feats, Kind};
use super::prog::Profile;
use std::sync::atomic::AtomicU64;
use Kind::*;

/// Senders against stopping actors and dropped handles.
const STOP: Profile = Profile {
    name: "sends against shutdown",
    senders: (1, 3),
    steps: (1, 4),
    mbs: (1, 2),
    msteps: (0, 1),
    cap: [3, 3, 2, 1],
    survivor: 0.15,
    main_holds: 0.3,
    reenter: 0.3,
    send: 30,
    bcast: 8,
    refs: 5,
    query: 2,
    join: 2,
    modes: [5, 5, 2, 4],
    scripts: [8, 3, 4, 3, 1],
    via: [5, 3, 2],
    prio: 1,
    ms: [2, 2, 1, 1, 1, 1, 1, 2],
    ends: [4, 2, 3, 4],
};
/// Several receives, cancelled at any time.
const RECV: Profile = Profile {
    name: "competing and cancelled receives",
    senders: (1, 3),
    steps: (1, 4),
    mbs: (1, 3),
    msteps: (1, 4),
    cap: [3, 3, 2, 1],
    survivor: 0.85,
    main_holds: 0.7,
    reenter: 0.15,
    send: 34,
    bcast: 6,
    refs: 2,
    query: 1,
    join: 1,
    modes: [6, 6, 2, 3],
    scripts: [10, 4, 1, 0, 1],
    via: [5, 2, 1],
    prio: 2,
    ms: [8, 8, 4, 4, 1, 2, 1, 3],
    ends: [6, 2, 4, 3],
};
/// Handles come and go.
const REFS: Profile = Profile {
    name: "reference counts",
    senders: (1, 3),
    steps: (1, 5),
    mbs: (1, 2),
    msteps: (0, 2),
    cap: [4, 1, 1, 0],
    survivor: 0.5,
    main_holds: 0.25,
    reenter: 0.15,
    send: 8,
    bcast: 2,
    refs: 30,
    query: 8,
    join: 14,
    modes: [4, 4, 1, 2],
    scripts: [10, 2, 3, 2, 0],
    via: [3, 3, 1],
    prio: 0,
    ms: [2, 2, 1, 1, 3, 2, 8, 3],
    ends: [6, 3, 2, 2],
};
/// Broadcasts and sends into small mailboxes.
const BCAST: Profile = Profile {
    name: "broadcasts and back-pressure",
    senders: (1, 3),
    steps: (1, 5),
    mbs: (1, 3),
    msteps: (0, 2),
    cap: [1, 6, 4, 2],
    survivor: 0.8,
    main_holds: 0.4,
    reenter: 0.15,
    send: 16,
    bcast: 26,
    refs: 2,
    query: 5,
    join: 0,
    modes: [5, 6, 2, 4],
    scripts: [10, 4, 1, 0, 0],
    via: [5, 2, 1],
    prio: 2,
    ms: [2, 2, 1, 1, 2, 4, 0, 4],
    ends: [8, 3, 2, 2],
};
/// One actor that serves throughout, many senders.
const ORDER: Profile = Profile {
    name: "one actor, default priority",
    senders: (1, 3),
    steps: (2, 6),
    mbs: (1, 1),
    msteps: (0, 1),
    cap: [3, 4, 3, 2],
    survivor: 1.0,
    main_holds: 0.5,
    reenter: 0.15,
    send: 30,
    bcast: 6,
    refs: 1,
    query: 0,
    join: 0,
    modes: [2, 8, 2, 4],
    scripts: [10, 4, 0, 0, 0],
    via: [5, 2, 1],
    prio: 1,
    ms: [0, 0, 0, 0, 0, 0, 0, 1],
    ends: [4, 2, 0, 0],
};

fn c(profile: Profile, kinds: &'static [Kind], nontrivial: fn(&Feats) -> bool, rule: &'static str) -> Conc {
    Conc { profile, kinds, nontrivial, rule, schedules: 12, executions: AtomicU64::new(0), distinct: AtomicU64::new(0) }
}

pub fn conc(p: &str) -> Option<Conc> {
    let stop: fn(&Feats) -> bool = |f| f.send_vs_stop;
    let stop_r = "in some schedule a send was in progress while a mailbox or the last strong address went";
    let recv: fn(&Feats) -> bool = |f| f.recv_dropped_busy || f.competing;
    let recv_r = "in some schedule a receive was dropped while a send was going on, or several actors took messages";
    let refs: fn(&Feats) -> bool = |f| f.up_vs_drop || f.join_vs_stop || (f.up_ok && f.up_fail);
    let refs_r = "in some schedule an upgrade raced with a drop, or a join handle or scoped task was ended by a stop";
    let bc: fn(&Feats) -> bool = |f| f.bcast_many || f.blocked_released;
    let bc_r = "in some schedule a broadcast was handled by several actors or a blocked send was released";
    Some(match p {
        "C16" => c(STOP, &[Hang, Dup, Phantom, Lost, BadResult, BcastDup, BcastMissing, Leak, End, Panic], stop, stop_r),
        "C17" => c(RECV, &[Hang, Dup, Lost, BadResult, Phantom, BcastDup, BcastMissing, Panic], recv, recv_r),
        "C18" => c(REFS, &[Hang, Upgrade, EarlyStop, Connected, Reconnect, Join, BadResult, End, Panic], refs, refs_r),
        "C19" => c(
            BCAST,
            &[Hang, BcastMissing, BcastDup, BcastWrong, Cap, Dup, Lost, Phantom, BadResult, Panic],
            bc,
            bc_r,
        ),
        "C01" => c(RECV, &[Hang, Dup, Lost, Phantom, Panic], recv, recv_r),
        "C02" => c(STOP, &[Hang, BadResult, Phantom, Panic], stop, stop_r),
        "C03" => c(ORDER, &[Order, Panic], |f| f.handled >= 3, "three messages handled"),
        "C05" => c(BCAST, &[Hang, BcastMissing, BcastDup, BcastWrong, Panic], |f| f.bcast_many, bc_r),
        "C07" => c(BCAST, &[Hang, Panic], |f| f.blocked_released, "in some schedule a blocked send was released"),
        "C08" => c(RECV, &[Hang, Panic], recv, recv_r),
        "C09" => c(REFS, &[Hang, Upgrade, EarlyStop, Connected, Reconnect, Panic], refs, refs_r),
        "C12" => c(REFS, &[Hang, Join, Panic], |f| f.join_vs_stop, "in some schedule a join handle or scoped task was ended by a stop"),
        "C20" => c(STOP, &[Hang, Leak, End, Panic], stop, stop_r),
        _ => return None,
    })
}
