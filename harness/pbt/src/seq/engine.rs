//! Sequential histories against the reference model, one profile per property.
use super::model::{Kind, F, FEAT_NAMES};
use super::ops::{self, Case, Profile};
use crate::real::world::{run_case, Mode};
use crate::spans::recorded;
use crate::runner::{Engine, Outcome, Verdict};
use proptest::strategy::BoxedStrategy;

pub struct Seq {
    pub profile: Profile,
    /// kinds of divergence from the model that break the property
    pub kinds: &'static [Kind],
    /// the divergence only counts if the case had one of these
    pub only_with: &'static [F],
    pub nontrivial: fn(&dyn Fn(F) -> u32) -> bool,
    pub rule: &'static str,
}

fn labels(feats: &[u32]) -> Vec<&'static str> {
    FEAT_NAMES.iter().zip(feats).filter(|(_, &n)| n > 0).map(|(&n, _)| n).collect()
}

/// Does the history deadlock when the locks are shuttle's?
pub fn deadlocks(case: &Case, only: Option<&'static [Kind]>) -> Option<String> {
    let case = case.clone();
    let r = std::panic::catch_unwind(|| {
        let mut cfg = shuttle::Config::new();
        cfg.stack_size = 1 << 20;
        cfg.failure_persistence = shuttle::FailurePersistence::None;
        cfg.max_steps = shuttle::MaxSteps::FailAfter(5_000_000);
        let runner = shuttle::Runner::new(shuttle::scheduler::DfsScheduler::new(Some(1), false), cfg);
        runner.run(move || {
            let (r, w) = crate::sched::world::run_case(&case, only.map_or(crate::sched::world::Mode::Normal, crate::sched::world::Mode::Only), false);
            w.leak();
            if let Err(d) = r {
                if d.msg.contains("deadlock") {
                    panic!("deadlock: {}", d.msg);
                }
            }
        });
    });
    match r {
        Err(p) => {
            let t = crate::util::panic_text(&p);
            t.contains("deadlock").then(|| format!("a single-threaded history deadlocks in the library: {t}"))
        }
        Ok(()) => None,
    }
}

impl Engine for Seq {
    type Case = Case;
    fn name(&self) -> &'static str {
        "seq"
    }
    fn rule(&self) -> String {
        format!(
            "random operation sequences (profile {}) run against the real crate and a reference model, compared after every operation; non-trivial: {}",
            self.profile.name, self.rule
        )
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        ops::case(&self.profile)
    }
    fn run(&self, case: &Case) -> Outcome {
        let (r, w) = run_case(case, Mode::Only(self.kinds), false);
        let feats = w.md.feats;
        let has = |f: F| feats[f as usize];
        let nontrivial = (self.nontrivial)(&has);
        let labels = labels(&feats);
        let verdict = match r {
            Ok(()) => Verdict::Pass,
            Err(d) => {
                w.leak();
                let counts = (self.kinds.contains(&d.kind) || d.kind == Kind::LibPanic)
                    && (self.only_with.is_empty() || self.only_with.iter().any(|&f| has(f) > 0));
                let msg = format!("{:?}: {}", d.kind, d.msg);
                if counts && !d.abort {
                    Verdict::Fail(msg)
                } else {
                    Verdict::Abort(msg)
                }
            }
        };
        Outcome { verdict, nontrivial, labels }
    }
    fn confirm_hang(&self, case: &Case) -> Option<String> {
        deadlocks(case, Some(self.kinds))
    }
}

/// The same history through addresses and through channels made from them.
pub struct SeqChan {
    pub profile: Profile,
}
impl Engine for SeqChan {
    type Case = Case;
    fn name(&self) -> &'static str {
        "seq-channel"
    }
    fn rule(&self) -> String {
        format!(
            "random operation sequences (profile {}) run twice against the real crate, with every operation on an address carried out directly and through a channel converted from it, traces of all observations compared; non-trivial: at least three sends handled and one of: blocked send, priority order decided, error result, dropped handle",
            self.profile.name
        )
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        ops::case(&self.profile)
    }
    fn run(&self, case: &Case) -> Outcome {
        let (r1, w1) = run_case(case, Mode::Direct, true);
        let feats = w1.md.feats;
        let has = |f: F| feats[f as usize];
        let nontrivial = has(F::Handled) >= 3
            && (has(F::BlockedU) + has(F::PrioTaken) + has(F::Interrupted) + has(F::Disconnected) + has(F::StrongZero) > 0);
        let labels = labels(&feats);
        let (r2, w2) = run_case(case, Mode::Via, true);
        let verdict = match (r1, r2) {
            (Err(a), Err(b)) => {
                w1.leak();
                w2.leak();
                Verdict::Abort(format!("{} / {}", a.msg, b.msg))
            }
            (Ok(()), Err(d)) => {
                w2.leak();
                if d.abort {
                    Verdict::Abort(d.msg)
                } else {
                    Verdict::Fail(format!("only through a channel: {:?}: {}", d.kind, d.msg))
                }
            }
            (Err(d), Ok(())) => {
                w1.leak();
                if d.abort || d.kind != Kind::Channel {
                    Verdict::Abort(d.msg)
                } else {
                    Verdict::Fail(format!("{:?}: {}", d.kind, d.msg))
                }
            }
            (Ok(()), Ok(())) => {
                if w1.trace == w2.trace {
                    Verdict::Pass
                } else {
                    let i = w1.trace.iter().zip(&w2.trace).position(|(a, b)| a != b);
                    let i = i.unwrap_or(w1.trace.len().min(w2.trace.len()));
                    Verdict::Fail(format!(
                        "observation {i} differs: through the address {:?}, through the channel {:?}",
                        w1.trace.get(i),
                        w2.trace.get(i)
                    ))
                }
            }
        };
        Outcome { verdict, nontrivial, labels }
    }
    fn confirm_hang(&self, case: &Case) -> Option<String> {
        deadlocks(case, None)
    }
}

/// The same history without instrumentation, with all spans recorded, and with debug spans disabled.
pub struct SeqSpans {
    pub profile: Profile,
}
impl Engine for SeqSpans {
    type Case = Case;
    fn name(&self) -> &'static str {
        "seq-spans"
    }
    fn rule(&self) -> String {
        format!(
            "random operation sequences (profile {}) run three times: against the crate compiled without instrumentation, with a subscriber that records every span, and with one that disables debug spans; the traces of all observations are compared, and the recorded spans with what the history did; non-trivial: three handlers ran, one was polled more than once, and one of: a send from a handler, a broadcast to several, a dispatch asked for its span",
            self.profile.name
        )
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        ops::case(&self.profile)
    }
    fn run(&self, case: &Case) -> Outcome {
        let (r0, w0) = crate::plain::world::run_case(case, crate::plain::world::Mode::Normal, true);
        let labels = labels(&w0.md.feats);
        let mut nontrivial = false;
        let verdict = 'v: {
            if let Err(d) = r0 {
                w0.leak();
                break 'v Verdict::Abort(d.msg);
            }
            for debug in [true, false] {
                let ((r, w), rec) = recorded(debug, || run_case(case, Mode::Normal, true));
                let how = if debug { "spans recorded" } else { "debug spans disabled" };
                if let Err(d) = r {
                    w.leak();
                    break 'v if d.abort {
                        Verdict::Abort(d.msg)
                    } else {
                        Verdict::Fail(format!("only with instrumentation ({how}): {:?}: {}", d.kind, d.msg))
                    };
                }
                if w.trace != w0.trace {
                    let i = w.trace.iter().zip(&w0.trace).position(|(a, b)| a != b);
                    let i = i.unwrap_or(w.trace.len().min(w0.trace.len()));
                    break 'v Verdict::Fail(format!(
                        "observation {i} differs: without instrumentation {:?}, with it ({how}) {:?}",
                        w0.trace.get(i),
                        w.trace.get(i)
                    ));
                }
                drop(w);
                match rec.judge() {
                    Err(e) => break 'v Verdict::Fail(format!("{how}: {e}")),
                    Ok(s) => {
                        if debug {
                            nontrivial = s.handled >= 3
                                && s.multi_poll > 0
                                && s.in_span > 0
                                && s.nested + s.bcast + s.asked + s.asked_only > 0
                        }
                    }
                }
            }
            Verdict::Pass
        };
        Outcome { verdict, nontrivial, labels }
    }
    fn confirm_hang(&self, case: &Case) -> Option<String> {
        deadlocks(case, None)
    }
}
