//! Which engine, profile and budget decides which property.
use crate::conc::profiles::conc;
use crate::runner::{search, Budget, Engine, Report};
use crate::seq::engine::{Seq, SeqChan, SeqSpans};
use crate::seq::model::{Kind, F};
use crate::seq::ops::{Profile, BASE};
use std::time::Duration;

fn seq(property: &str) -> Option<Seq> {
    use Kind::*;
    let s = match property {
        "C01" => Seq {
            profile: Profile {
                name: "receives and cancellations",
                next: 16,
                poll_recv: 14,
                drop_recv: 10,
                mb_clone: 4,
                drop_send: 6,
                drop_actor: 2,
                two_chans: 3,
                h_sel: 1,
                pump: 2,
                complete: 1,
                sink: 1,
                ..BASE
            },
            kinds: &[
                Dup, Phantom, WrongActor, BcastWrong, LostMsg, LostBcast, PhantomRecv, UndrainedStop, WakeRecv, SendPending,
            ],
            only_with: &[],
            nontrivial: |f| {
                f(F::Handled) >= 2 && f(F::RecvDroppedGiven) + f(F::DroppedBlocked) + f(F::AdmittedU) + f(F::Requeue) > 0
            },
            rule: "two messages handled, and a receive cancelled after it was given a message, or a blocked send admitted or dropped",
        },
        "C02" => Seq {
            profile: Profile {
                name: "faults and fates",
                h_panic: 4,
                h_stop_self: 2,
                drop_disp: 3,
                drop_actor: 2,
                mb_drop: 4,
                poll_send: 20,
                chans: 5,
                two_chans: 0,
                ..BASE
            },
            kinds: &[SendResult, SendPending, Reply, WakeReply, WakeBlocked, Dup, Phantom],
            only_with: &[],
            nontrivial: |f| {
                (f(F::Replied) > 0) as u32 + (f(F::Interrupted) > 0) as u32 + (f(F::Disconnected) > 0) as u32 >= 2
            },
            rule: "at least two of the three possible results were observed",
        },
        "C03" => Seq {
            profile: Profile {
                name: "one actor, default priority",
                max_actors: 1,
                max_extra_mb: 0,
                mb_clone: 0,
                two_chans: 0,
                prio_default: 6,
                prio_other: 1,
                burst: 4,
                drop_recv: 2,
                mb_drop: 1,
                ..BASE
            },
            kinds: &[OrderDefault, Phantom, WakeBlocked],
            only_with: &[],
            nontrivial: |f| f(F::Handled) >= 4 && f(F::Backlog4) + f(F::AdmittedU) > 0,
            rule: "four messages handled, with a backlog of four of default priority or a blocked send admitted",
        },
        "C04" => Seq {
            profile: Profile {
                name: "priorities",
                prio_default: 1,
                prio_other: 4,
                burst: 2,
                bcast: 18,
                max_actors: 2,
                ..BASE
            },
            kinds: &[OrderPrio, StopAllNotFirst],
            only_with: &[],
            nontrivial: |f| f(F::PrioTaken) > 0 && f(F::MixedPrio) > 0,
            rule: "a message was taken while one of another priority was waiting",
        },
        "C05" => Seq {
            profile: Profile {
                name: "broadcasts",
                bcast: 34,
                send: 12,
                mb_clone: 7,
                mb_drop: 4,
                next: 14,
                drop_recv: 7,
                drop_send: 6,
                max_actors: 3,
                max_extra_mb: 3,
                prio_other: 1,
                ..BASE
            },
            kinds: &[BcastWrong, LostBcast, Phantom, Dup, WrongActor, BcastAcceptance, PhantomRecv, WakeRecv],
            only_with: &[],
            nontrivial: |f| f(F::HandledB) >= 2 && f(F::BcastMulti) > 0,
            rule: "two broadcasts handled, one of them with several mailboxes on the address",
        },
        "C06" => Seq {
            profile: Profile {
                name: "capacity",
                unbounded: 1,
                send: 36,
                bcast: 20,
                handles: 4,
                mb_drop: 3,
                drop_recv: 7,
                burst: 2,
                ..BASE
            },
            kinds: &[Acceptance, BcastAcceptance, Len, Capacity],
            only_with: &[],
            nontrivial: |f| f(F::BlockedU) + f(F::BlockedB) > 0,
            rule: "a send found the mailbox full",
        },
        "C07" => Seq {
            profile: Profile {
                name: "blocked sends",
                unbounded: 0,
                send: 40,
                bcast: 24,
                drop_send: 8,
                mb_drop: 3,
                poll_actor: 16,
                next: 12,
                burst: 1,
                ..BASE
            },
            kinds: &[WakeBlocked, Phantom, Acceptance, BcastAcceptance, SendPending, LostMsg, LostBcast],
            only_with: &[],
            nontrivial: |f| f(F::AdmittedU) + f(F::AdmittedB) > 0 && f(F::AdmitChoice) + f(F::DroppedBlocked) + f(F::AdmittedB) > 0,
            rule: "a blocked send was admitted, and several were blocked at that time, or one was dropped, or it was a broadcast",
        },
        "C08" => Seq {
            profile: Profile { name: "wake-ups", poll_send: 18, next: 14, poll_recv: 14, join: 8, mb_drop: 3, h_sel: 1, pump: 2, complete: 1, sink: 2, ..BASE },
            kinds: &[
                WakeRecv, WakeRecvStop, WakeRecvStopAll, WakeBlocked, WakeReply, WakeJoin, LostMsg, LostBcast, LostStop,
                LostStopAll, SendPending, Join, Fused,
            ],
            only_with: &[],
            nontrivial: |f| f(F::WakerSwapped) > 0 && f(F::GivenTaken) + f(F::Notified) + f(F::AdmittedU) + f(F::JoinWoken) > 0,
            rule: "a pending future was polled again with another waker, and one that was pending got to progress",
        },
        "C09" => Seq {
            profile: Profile {
                name: "strong and weak",
                handles: 14,
                weak: 16,
                chans: 8,
                sink: 3,
                hdrop: 14,
                send: 26,
                bcast: 8,
                max_actors: 3,
                ..BASE
            },
            kinds: &[Connected, Upgrade, UndrainedStop, LostStop, SpuriousStop, WakeRecvStop, LostMsg],
            only_with: &[],
            nontrivial: |f| f(F::StrongZero) > 0 && f(F::UpOk) + f(F::UpFail) + f(F::EitherStrong) + f(F::ChanSend) + f(F::StrongZeroQueued) > 0,
            rule: "the last strong handle went, and an upgrade, a strong either/channel handle, or queued messages were involved",
        },
        "C10" => Seq {
            profile: Profile {
                name: "life cycle",
                h_yield: 8,
                h_stop_self: 4,
                h_stop_all: 2,
                h_none: 12,
                spawn: 8,
                poll_actor: 24,
                start_fail: 3,
                h_sel: 1,
                pump: 3,
                complete: 1,
                next: 4,
                poll_recv: 4,
                max_actors: 3,
                max_extra_mb: 3,
                ..BASE
            },
            kinds: &[Lifecycle, Overlap, StopSelfIgnored, SpuriousStop, LostStop, LostStopAll, SendResult, Reply],
            only_with: &[],
            nontrivial: |f| f(F::Ran) > 0 && f(F::StopSelf) + f(F::StartFail) + f(F::Yielded) > 0,
            rule: "an actor ran, and stopped itself, failed to start, or suspended in a handler",
        },
        "C11" => Seq {
            profile: Profile {
                name: "stop_all",
                h_stop_all: 8,
                h_yield: 4,
                h_none: 10,
                h_panic: 0,
                max_actors: 4,
                max_extra_mb: 4,
                spawn: 5,
                mb_clone: 5,
                poll_actor: 20,
                hdrop: 1,
                bcast: 16,
                ..BASE
            },
            kinds: &[
                LostStopAll, WakeRecvStopAll, StopAllNotFirst, SpuriousStop, PhantomRecv, Phantom, LostMsg, LostBcast, Acceptance,
                BcastAcceptance, Len, SendResult,
            ],
            only_with: &[F::StopAllBusy, F::StopAllIdle, F::StopAllQueued],
            nontrivial: |f| f(F::StopAllBusy) + f(F::StopAllIdle) + f(F::StopAllQueued) > 0 && f(F::TwoOnAddr) > 0,
            rule: "stop_all was called with other mailboxes on the address",
        },
        "C12" => Seq {
            profile: Profile { name: "join and scoped", join: 24, mb_drop: 6, drop_actor: 4, hdrop: 6, exec: 4, ..BASE },
            kinds: &[Join, Scoped, ScopedPolled, WakeJoin, Connected],
            only_with: &[],
            nontrivial: |f| f(F::JoinWoken) + f(F::ScopedNone) + f(F::JoinReadyAtOnce) > 0,
            rule: "a join handle or scoped task was ended by the actor going away, or was created on a dead address",
        },
        "C13" => Seq {
            profile: Profile {
                name: "select and join",
                h_sel: 5,
                h_yield: 5,
                h_stop_self: 3,
                h_stop_all: 2,
                h_none: 12,
                pump: 10,
                complete: 14,
                spawn: 2,
                poll_actor: 20,
                drop_actor: 2,
                next: 4,
                poll_recv: 4,
                max_actors: 1,
                ..BASE
            },
            kinds: &[
                Select, Dup, Phantom, WrongActor, BcastWrong, LostMsg, LostBcast, LostStop, LostStopAll, PhantomRecv,
                SpuriousStop, UndrainedStop, StopAllNotFirst, OrderDefault, OrderPrio, SendResult, SendPending, Reply,
                WakeRecv, WakeRecvStop, WakeRecvStopAll, WakeReply, Lifecycle, Overlap, StopSelfIgnored, Leak,
            ],
            only_with: &[F::SelRan],
            nontrivial: |f| f(F::SelRan) > 0 && f(F::SelHandled) > 0 && f(F::SelLeft) + f(F::SelRight) + f(F::JoinAfterStop) > 0,
            rule: "a select or join handled a message and then ended",
        },
        "C15" => Seq {
            profile: Profile {
                name: "sinks",
                sink: 14,
                send: 16,
                handles: 10,
                weak: 8,
                hdrop: 5,
                h_yield: 6,
                h_none: 16,
                prio_other: 1,
                join: 2,
                chans: 1,
                spawn: 4,
                poll_actor: 18,
                unbounded: 1,
                ..BASE
            },
            kinds: &[
                Sink, Dup, Phantom, LostMsg, OrderDefault, OrderPrio, Connected, LostStop, SpuriousStop, UndrainedStop,
                WakeRecv, WakeRecvStop, Leak,
            ],
            only_with: &[F::SinkSend],
            nontrivial: |f| f(F::SinkDone) + f(F::SinkErr) > 0 && f(F::SinkSend) >= 2 && f(F::SinkWaits) > 0,
            rule: "a sink sent two items, had to wait, and one of its items was handled or failed",
        },
        "C20" => Seq {
            profile: Profile { name: "release", mb_drop: 5, hdrop: 5, drop_send: 6, drop_actor: 3, drop_recv: 6, h_sel: 1, pump: 2, complete: 1, sink: 2, ..BASE },
            kinds: &[Leak, DropTime],
            only_with: &[],
            nontrivial: |f| f(F::CloseQueued) + f(F::CloseBlocked) + f(F::DroppedBlocked) + f(F::HeldDropped) + f(F::MbDroppedLagging) > 0,
            rule: "messages were still queued, blocked or held when their mailbox or send was dropped",
        },
        "C21" => Seq {
            profile: Profile {
                name: "faults",
                h_panic: 6,
                h_yield: 6,
                h_none: 16,
                drop_disp: 4,
                drop_actor: 5,
                h_sel: 1,
                pump: 2,
                complete: 1,
                sink: 1,
                spawn: 6,
                max_actors: 3,
                max_extra_mb: 2,
                ..BASE
            },
            kinds: &[
                Dup, Phantom, WrongActor, BcastWrong, LostMsg, LostBcast, LostStop, LostStopAll, PhantomRecv, SendResult,
                SendPending, Reply, UndrainedStop, WakeRecv, WakeRecvStop, WakeReply, WakeBlocked, WakeJoin, Join, Leak,
                Acceptance, BcastAcceptance, SpuriousStop, Connected,
            ],
            only_with: &[F::Panic, F::DispDropped, F::ActorDropped],
            nontrivial: |f| f(F::Panic) + f(F::DispDropped) + f(F::ActorDropped) > 0 && f(F::AfterFault) > 0,
            rule: "a handler panicked or its dispatch was dropped, and the address was used afterwards",
        },
        _ => return None,
    };
    Some(s)
}

/// Fixed work; the time is only a backstop for slow machines.
fn budget(tier: &str, quick_cases: u64) -> Budget {
    if tier == "thorough" {
        Budget { cases: quick_cases * 40, time: Duration::from_secs(420) }
    } else {
        Budget { cases: quick_cases, time: Duration::from_secs(200) }
    }
}

fn go<E: Engine>(rep: &mut Report, e: &E, b: Budget) {
    search(rep, e, &b)
}

/// Run the check of a property; ends the process on a violation.
pub fn run(rep: &mut Report) {
    let p = rep.property.clone();
    let t = rep.tier.clone();
    let mut any = false;
    if let Some(s) = seq(&p) {
        any = true;
        go(rep, &s, budget(&t, 400_000));
    }
    if p == "C15" {
        any = true;
        go(rep, &chan(), budget(&t, 200_000));
    }
    if let Some(c) = conc(&p) {
        let main = matches!(p.as_str(), "C16" | "C17" | "C18" | "C19");
        any = true;
        go(rep, &c, budget(&t, if main { 64_000 } else { 24_000 }));
    }
    if p == "C14" {
        any = true;
        go(rep, &crate::ident::Ident, budget(&t, 300_000));
    }
    if p == "C23" {
        any = true;
        let (n, time) = if t == "thorough" { (40, 500) } else { (1, 200) };
        crate::derive::run(rep, 800, n, Duration::from_secs(time));
    }
    if p == "C22" {
        any = true;
        go(rep, &spans(), budget(&t, 150_000));
    }
    if p == "C20" {
        go(rep, &crate::reent::Reent, budget(&t, 150_000));
    }
    if !any {
        eprintln!("no check for property {p}");
        std::process::exit(2);
    }
}

fn chan() -> SeqChan {
    SeqChan { profile: Profile { name: "channels", chans: 10, handles: 8, send: 34, bcast: 6, hdrop: 6, join: 6, ..BASE } }
}

fn spans() -> SeqSpans {
    SeqSpans {
        profile: Profile {
            name: "spans",
            h_yield: 10,
            h_send: 4,
            h_none: 16,
            h_sel: 1,
            pump: 2,
            complete: 1,
            sink: 3,
            disp: 12,
            next: 14,
            bcast: 14,
            poll_recv: 14,
            ..BASE
        },
    }
}

pub fn replay(property: &str, engine: &str, file: &str, case: &serde_json::Value) -> ! {
    use crate::runner::replay;
    match engine {
        "seq" => match seq(property) {
            Some(s) => replay(&s, property, file, case),
            None => std::process::exit(2),
        },
        "identity" => replay(&crate::ident::Ident, property, file, case),
        "seq-spans" => replay(&spans(), property, file, case),
        "derive" => crate::derive::replay(property, file, case),
        "reent" => replay(&crate::reent::Reent, property, file, case),
        "conc" => match conc(property) {
            Some(s) => replay(&s, property, file, case),
            None => std::process::exit(2),
        },
        "seq-channel" => replay(&chan(), property, file, case),
        _ => {
            eprintln!("unknown engine {engine}");
            std::process::exit(2)
        }
    }
}
