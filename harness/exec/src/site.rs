//! The executors, and waiting with a limit.
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll, Wake, Waker};
use std::thread::Thread;
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;
use xtra::{Actor, Address, Mailbox};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exec {
    Tokio,
    TokioLocal,
    Smol,
    AsyncStd,
    /// `run` on a thread of its own
    Hand,
    /// `yield_once` in a loop on a thread of its own
    HandLoop,
}
pub const EXECS: [Exec; 6] = [Exec::Tokio, Exec::TokioLocal, Exec::Smol, Exec::AsyncStd, Exec::Hand, Exec::HandLoop];

fn tokio_multi() -> &'static Runtime {
    static R: OnceLock<Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).build().expect("tokio"))
}
fn tokio_local() -> &'static tokio::runtime::Handle {
    static R: OnceLock<tokio::runtime::Handle> = OnceLock::new();
    R.get_or_init(|| {
        let rt = tokio::runtime::Builder::new_current_thread().build().expect("tokio");
        let h = rt.handle().clone();
        std::thread::spawn(move || rt.block_on(std::future::pending::<()>()));
        h
    })
}

struct Unpark(Thread, AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.1.store(true, Ordering::SeqCst);
        self.0.unpark();
    }
}
/// Set once something has not happened in time: from then on this process only shrinks.
static LATE: AtomicBool = AtomicBool::new(false);
/// A healthy actor needs microseconds.
pub fn limit() -> Duration {
    if LATE.load(Ordering::Relaxed) {
        Duration::from_secs(4)
    } else {
        Duration::from_secs(30)
    }
}
pub fn wait<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    let u = Arc::new(Unpark(std::thread::current(), AtomicBool::new(true)));
    let w = Waker::from(u.clone());
    let end = Instant::now() + limit();
    loop {
        if u.1.swap(false, Ordering::SeqCst) {
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                return Some(r);
            }
            continue;
        }
        let now = Instant::now();
        if now >= end {
            LATE.store(true, Ordering::Relaxed);
            return None;
        }
        std::thread::park_timeout(end - now);
    }
}
pub fn wait_cond(mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + limit();
    let mut n = 0;
    while !f() {
        if Instant::now() > end {
            LATE.store(true, Ordering::Relaxed);
            return false;
        }
        n += 1;
        if n < 100 {
            std::thread::yield_now()
        } else {
            std::thread::sleep(Duration::from_micros(200))
        }
    }
    true
}
/// Poll to the end on this thread, without a limit.
fn drive<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let u = Arc::new(Unpark(std::thread::current(), AtomicBool::new(true)));
    let w = Waker::from(u.clone());
    loop {
        if u.1.swap(false, Ordering::SeqCst) {
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                return r;
            }
        } else {
            std::thread::park()
        }
    }
}

pub fn spawn_actor<A: Actor<Stop = ()>>(e: Exec, actor: A, pair: (Address<A>, Mailbox<A>)) -> Address<A> {
    match e {
        Exec::Tokio => {
            let _g = tokio_multi().enter();
            xtra::spawn_tokio(actor, pair)
        }
        Exec::TokioLocal => {
            let _g = tokio_local().enter();
            xtra::spawn_tokio(actor, pair)
        }
        Exec::Smol => xtra::spawn_smol(actor, pair),
        Exec::AsyncStd => xtra::spawn_async_std(actor, pair),
        Exec::Hand => {
            let (a, m) = pair;
            std::thread::spawn(move || drive(xtra::run(m, actor)));
            a
        }
        Exec::HandLoop => {
            let (a, m) = pair;
            let mut actor = actor;
            std::thread::spawn(move || {
                drive(async move {
                    if actor.started(&m).await.is_err() {
                        return;
                    }
                    while xtra::yield_once(&m, &mut actor).await.is_continue() {}
                    actor.stopped().await
                })
            });
            a
        }
    }
}
/// Run a future as a task of its own somewhere.
pub fn task<F: Future<Output = ()> + Send + 'static>(site: u8, f: F) {
    match site % 5 {
        0 => drop(tokio_multi().spawn(f)),
        1 => smol::spawn(f).detach(),
        2 => drop(async_std::task::spawn(f)),
        3 => drop(tokio_local().spawn(f)),
        _ => drop(std::thread::spawn(move || drive(f))),
    }
}
/// Call a function from some task or thread that ends right after; None: it never ran.
pub fn at<R: Send + 'static>(site: u8, f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
    match site % 6 {
        5 => Some(f()),
        s => {
            let (tx, rx) = std::sync::mpsc::channel();
            task(s, async move {
                let _ = tx.send(f());
            });
            rx.recv_timeout(limit()).ok()
        }
    }
}

pub struct YieldNow(pub bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            Poll::Ready(())
        } else {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
/// A flag that can be awaited.
#[derive(Default)]
pub struct Flag(std::sync::Mutex<(bool, Vec<Waker>)>);
impl Flag {
    pub fn set(&self) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.0 = true;
            std::mem::take(&mut g.1)
        };
        for w in w {
            w.wake()
        }
    }
    pub fn get(&self) -> bool {
        self.0.lock().unwrap().0
    }
    pub fn wait(self: &Arc<Self>) -> impl Future<Output = ()> + Send + 'static {
        let f = self.clone();
        std::future::poll_fn(move |cx| {
            let mut g = f.0.lock().unwrap();
            if g.0 {
                Poll::Ready(())
            } else {
                g.1.push(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}
