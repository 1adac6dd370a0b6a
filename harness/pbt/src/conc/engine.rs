//! Search over programs and schedules.
use super::oracle::{self, Feats, Kind};
use super::prog::{self, Case, Profile};
use super::run::{run, L};
use crate::runner::{hash_of, splitmix, Engine, Outcome, Verdict};
use proptest::strategy::BoxedStrategy;
use shuttle::scheduler::{PctScheduler, RandomScheduler, Scheduler};
use std::collections::HashSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub struct Conc {
    pub profile: Profile,
    pub kinds: &'static [Kind],
    pub nontrivial: fn(&Feats) -> bool,
    pub rule: &'static str,
    /// schedules per program and scheduler
    pub schedules: usize,
    pub executions: AtomicU64,
    pub distinct: AtomicU64,
}

struct Found;

#[derive(Default)]
struct Acc {
    found: Option<(Kind, String)>,
    feats: Vec<Feats>,
    logs: HashSet<u64>,
    execs: u64,
    cur: Option<L>,
    other: Option<String>,
}

impl Conc {
    fn phase<S: Scheduler + 'static>(&self, case: &Arc<Case>, sched: S, acc: &Arc<Mutex<Acc>>) -> Option<(Kind, String)> {
        let mut cfg = shuttle::Config::new();
        cfg.stack_size = 1 << 17;
        cfg.failure_persistence = shuttle::FailurePersistence::None;
        cfg.max_steps = shuttle::MaxSteps::FailAfter(300_000);
        cfg.silence_warnings = true;
        let runner = shuttle::Runner::new(sched, cfg);
        let (c, a, kinds) = (case.clone(), acc.clone(), self.kinds);
        let r = catch_unwind(AssertUnwindSafe(move || {
            runner.run(move || {
                let l = L::new();
                {
                    let mut a = a.lock().unwrap();
                    a.cur = Some(l.clone());
                    a.execs += 1;
                }
                let end = run(&c, &l);
                let log = l.0.lock().unwrap();
                let mut out = vec![];
                let f = oracle::check(&c, &log.ev, log.live, &end, &mut out);
                let mut a = a.lock().unwrap();
                a.feats.push(f);
                a.logs.insert(hash_of(&log.ev));
                for (k, m) in out {
                    if std::env::var_os("CONC_LOG").is_some() {
                        for (i, e) in log.ev.iter().enumerate() {
                            println!("{i:3} {e:?}");
                        }
                    }
                    if kinds.contains(&k) {
                        a.found = Some((k, m));
                        drop(a);
                        resume_unwind(Box::new(Found));
                    } else if a.other.is_none() {
                        a.other = Some(format!("{k:?}: {m}"));
                    }
                }
            });
        }));
        let p = match r {
            Ok(()) => return None,
            Err(p) => p,
        };
        let mut a = acc.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(f) = a.found.take() {
            return Some(f);
        }
        let t = crate::util::panic_text(&p);
        if t.contains("did not exercise any concurrency") {
            return None;
        }
        if t.contains("max_steps") {
            a.other = Some(t);
            return None;
        }
        if t.contains("deadlock") {
            let log = a.cur.take().unwrap();
            let log = log.0.lock().unwrap_or_else(|e| e.into_inner());
            let t: String = t.lines().next().unwrap_or("").into();
            return Some((Kind::Hang, format!("nothing can go on: {} ({t})", oracle::pending(&log.ev))));
        }
        Some((Kind::Panic, format!("panic: {t}")))
    }
}

impl Engine for Conc {
    type Case = Case;
    fn name(&self) -> &'static str {
        "conc"
    }
    fn rule(&self) -> String {
        format!(
            "random concurrent programs (profile {}), each run under {} random and {} PCT schedules of the crate compiled with shuttle's locks and atomics, its log checked against the rules of the property; non-trivial: {}",
            self.profile.name, self.schedules, self.schedules, self.rule
        )
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        prog::case(&self.profile)
    }
    fn run(&self, case: &Case) -> Outcome {
        let acc = Arc::new(Mutex::new(Acc::default()));
        let c = Arc::new(case.clone());
        let n = self.schedules;
        let mut found = self.phase(&c, RandomScheduler::new_from_seed(case.seed, n), &acc);
        if found.is_none() {
            let s = PctScheduler::new_from_seed(splitmix(case.seed), case.pct.max(1) as usize, n);
            found = self.phase(&c, s, &acc);
        }
        let a = acc.lock().unwrap_or_else(|e| e.into_inner());
        self.executions.fetch_add(a.execs, Ordering::Relaxed);
        self.distinct.fetch_add(a.logs.len() as u64, Ordering::Relaxed);
        let nontrivial = a.feats.iter().any(self.nontrivial);
        let mut labels = vec![];
        let mut any = |n: &'static str, f: fn(&Feats) -> bool| {
            if a.feats.iter().any(f) {
                labels.push(n)
            }
        };
        any("send raced with a stop", |f| f.send_vs_stop);
        any("receive dropped while a send was going on", |f| f.recv_dropped_busy);
        any("several actors took messages", |f| f.competing);
        any("upgrade succeeded", |f| f.up_ok);
        any("upgrade failed", |f| f.up_fail);
        any("upgrade raced with a drop", |f| f.up_vs_drop);
        any("join ended by a stop", |f| f.join_vs_stop);
        any("blocked send released", |f| f.blocked_released);
        any("broadcast handled by several", |f| f.bcast_many);
        any("Disconnected seen", |f| f.disc);
        any("Interrupted seen", |f| f.intr);
        let verdict = match found {
            Some((k, m)) if self.kinds.contains(&k) => Verdict::Fail(format!("{k:?}: {m}")),
            Some((k, m)) => Verdict::Abort(format!("{k:?}: {m}")),
            None => match &a.other {
                Some(m) => Verdict::Abort(m.clone()),
                None => Verdict::Pass,
            },
        };
        Outcome { verdict, nontrivial, labels }
    }
    fn crash(&self, _: &Case, text: &str) -> Option<String> {
        let k = if text.contains("deadlock") { Kind::Hang } else { Kind::Panic };
        self.kinds.contains(&k).then(|| format!("{k:?}: the process was aborted after: {text}"))
    }
    fn extra(&self) -> serde_json::Value {
        serde_json::json!({
            "executions": self.executions.load(Ordering::Relaxed),
            "distinct_executions_per_program_summed": self.distinct.load(Ordering::Relaxed),
        })
    }
    fn shrink_budget(&self) -> (usize, Duration) {
        (600, Duration::from_secs(30))
    }
}
