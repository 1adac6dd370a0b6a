//! Identity of handles: same_actor, equality, order and hash of addresses and channels of every
//! kind, over histories in which handles are made in every way, actors serve and stop.
//! Oracle: a handle is the pair (address it came from, whether it is strong).
use crate::runner::{Engine, Outcome, Verdict};
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::Future;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use xtra::message_channel::MessageChannel;
use xtra::refcount::{Either, Strong, Weak};
use xtra::{Actor, Address, Handler, Mailbox};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// a new address; of which actor type, bounded or not
    New(bool, Option<u8>),
    Clone(u8),
    Down(u8),
    Either(u8),
    Upgrade(u8),
    ToChan(u8),
    Drop(u8),
    CloneMb(u8),
    DropMb(u8),
    /// a weak address from a mailbox
    MbAddr(u8),
    /// a weak address from inside a handler, which this makes run
    Serve(u8),
    Send(u8),
    /// a send, blocked or not, that is given up
    SendDrop(u8),
    /// insert into or remove from the sets
    Insert(u8),
    Remove(u8),
    /// a strong or weak handle dropped while a set still has a copy: put one back from the set
    Take(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pub ops: Vec<Op>,
}

/// An actor without state, and one with.
struct A0;
struct A1(#[allow(dead_code)] u64);
struct M(bool);
macro_rules! actor {
    ($t:ty) => {
        impl Actor for $t {
            type Stop = ();
            async fn stopped(self) {}
        }
        impl Handler<M> for $t {
            type Return = ();
            async fn handle(&mut self, m: M, ctx: &mut xtra::Context<Self>) {
                if m.0 {
                    ctx.stop_all()
                }
            }
        }
        impl Handler<Ask> for $t {
            type Return = Address<$t, Weak>;
            async fn handle(&mut self, _: Ask, ctx: &mut xtra::Context<Self>) -> Address<$t, Weak> {
                ctx.mailbox().address()
            }
        }
    };
}
struct Ask;
actor!(A0);
actor!(A1);

enum Ad<A> {
    S(Address<A, Strong>),
    W(Address<A, Weak>),
    E(Address<A, Either>),
}
enum Ch {
    S(MessageChannel<M, (), Strong>),
    W(MessageChannel<M, (), Weak>),
    E(MessageChannel<M, (), Either>),
}
enum H {
    A(Ad<A0>),
    B(Ad<A1>),
    C(Ch),
}
enum Mb {
    A(Mailbox<A0>, Option<A0>),
    B(Mailbox<A1>, Option<A1>),
}
macro_rules! ad {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            Ad::S($x) => $e,
            Ad::W($x) => $e,
            Ad::E($x) => $e,
        }
    };
}
macro_rules! ch {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            Ch::S($x) => $e,
            Ch::W($x) => $e,
            Ch::E($x) => $e,
        }
    };
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        let mut d = DefaultHasher::new();
        self.0.hash(&mut d);
        d.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hashes<T: Hash>(t: &T) -> (u64, u64) {
    let (mut a, mut b) = (DefaultHasher::new(), Rec::default());
    t.hash(&mut a);
    t.hash(&mut b);
    (a.finish(), b.finish())
}
fn poll<F: Future + Unpin>(f: &mut F) -> Poll<F::Output> {
    Pin::new(f).poll(&mut Context::from_waker(Waker::noop()))
}

type Id = (usize, bool);
type Hs<T> = HashSet<T, BuildHasherDefault<DefaultHasher>>;
struct Sets<A> {
    hs: Hs<Address<A, Strong>>,
    hw: Hs<Address<A, Weak>>,
    he: Hs<Address<A, Either>>,
    bs: BTreeSet<Address<A, Strong>>,
    bw: BTreeMap<Address<A, Weak>, usize>,
    be: BTreeSet<Address<A, Either>>,
    m: [BTreeSet<Id>; 3],
}
impl<A> Default for Sets<A> {
    fn default() -> Self {
        Sets {
            hs: Default::default(),
            hw: Default::default(),
            he: Default::default(),
            bs: Default::default(),
            bw: Default::default(),
            be: Default::default(),
            m: Default::default(),
        }
    }
}
impl<A> Sets<A> {
    fn insert(&mut self, h: &Ad<A>, id: Id) -> Result<(), String> {
        let (a, b, want) = match h {
            Ad::S(x) => (self.hs.insert(x.clone()), self.bs.insert(x.clone()), self.m[0].insert(id)),
            Ad::W(x) => (self.hw.insert(x.clone()), self.bw.insert(x.clone(), id.0).is_none(), self.m[1].insert(id)),
            Ad::E(x) => (self.he.insert(x.clone()), self.be.insert(x.clone()), self.m[2].insert(id)),
        };
        if a != want || b != want {
            return Err(format!("inserting {id:?}: hash set said {a}, tree said {b}, should be {want}"));
        }
        Ok(())
    }
    fn remove(&mut self, h: &Ad<A>, id: Id) -> Result<(), String> {
        let (a, b, want) = match h {
            Ad::S(x) => (self.hs.remove(x), self.bs.remove(x), self.m[0].remove(&id)),
            Ad::W(x) => {
                let v = self.bw.remove(x);
                if v.is_some_and(|v| v != id.0) {
                    return Err(format!("a tree keyed by addresses has the wrong value for {id:?}: {v:?}"));
                }
                (self.hw.remove(x), v.is_some(), self.m[1].remove(&id))
            }
            Ad::E(x) => (self.he.remove(x), self.be.remove(x), self.m[2].remove(&id)),
        };
        if a != want || b != want {
            return Err(format!("removing {id:?}: hash set said {a}, tree said {b}, should be {want}"));
        }
        Ok(())
    }
    fn contains(&self, h: &Ad<A>, id: Id) -> Result<(), String> {
        let (a, b, want) = match h {
            Ad::S(x) => (self.hs.contains(x), self.bs.contains(x), self.m[0].contains(&id)),
            Ad::W(x) => (self.hw.contains(x), self.bw.contains_key(x), self.m[1].contains(&id)),
            Ad::E(x) => (self.he.contains(x), self.be.contains(x), self.m[2].contains(&id)),
        };
        let n = [self.hs.len(), self.bs.len(), self.hw.len(), self.bw.len(), self.he.len(), self.be.len()];
        let m = [self.m[0].len(), self.m[0].len(), self.m[1].len(), self.m[1].len(), self.m[2].len(), self.m[2].len()];
        if a != want || b != want || n != m {
            return Err(format!("looking up {id:?}: hash set said {a}, tree said {b}, should be {want}; sizes {n:?}, should be {m:?}"));
        }
        Ok(())
    }
}

#[derive(Default)]
struct World {
    hs: Vec<(H, Id)>,
    mbs: Vec<(Mb, usize)>,
    sends: Vec<Pin<Box<dyn Future<Output = ()>>>>,
    sa: Sets<A0>,
    sb: Sets<A1>,
    next: usize,
    /// order between two addresses of one actor type, as first seen
    ord: BTreeMap<(usize, usize), Ordering>,
    hash: BTreeMap<(usize, bool, bool), (u64, u64)>,
    served: bool,
    /// a strong/weak pair of one address was compared; two addresses were
    pairs: [u64; 3],
    set_hit: bool,
}

fn ck(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(what())
    }
}

fn pair<A, R1, R2>(w: &mut World, a: &Address<A, R1>, i: Id, b: &Address<A, R2>, j: Id, typ: &str) -> Result<(), String>
where
    R1: xtra::refcount::RefCounter,
    R2: xtra::refcount::RefCounter,
{
    let same = i.0 == j.0;
    let eq = i == j;
    w.pairs[if eq { 0 } else if same { 1 } else { 2 }] += 1;
    let d = |s: &str| format!("{s} for {typ} {i:?} ({}) and {j:?} ({})", kind::<R1>(), kind::<R2>());
    ck(a.same_actor(b) == same, || d("same_actor is wrong"))?;
    ck((a == b) == eq, || d("== is wrong"))?;
    #[allow(clippy::nonminimal_bool)]
    ck((a != b) == !eq, || d("!= is wrong"))?;
    let Some(o) = a.partial_cmp(b) else { return Err(d("partial_cmp is None")) };
    if same {
        ck(o == i.1.cmp(&j.1), || d(&format!("partial_cmp is {o:?}")))?;
    } else {
        ck(o != Ordering::Equal, || d("partial_cmp is Equal"))?;
        let seen = *w.ord.entry((i.0, j.0)).or_insert(o);
        ck(seen == o, || d(&format!("partial_cmp is {o:?} and was {seen:?} for handles of the same two")))?;
        let back = *w.ord.entry((j.0, i.0)).or_insert(o.reverse());
        ck(back == o.reverse(), || d(&format!("partial_cmp is {o:?} and the other way round was {back:?}")))?;
    }
    ck(
        (a < b) == (o == Ordering::Less)
            && (a <= b) == (o != Ordering::Greater)
            && (a > b) == (o == Ordering::Greater)
            && (a >= b) == (o != Ordering::Less),
        || d("<, <=, >, >= disagree with partial_cmp"),
    )?;
    Ok(())
}
fn kind<R: 'static>() -> &'static str {
    let t = std::any::TypeId::of::<R>();
    if t == std::any::TypeId::of::<Strong>() {
        "strong"
    } else if t == std::any::TypeId::of::<Weak>() {
        "weak"
    } else {
        "either"
    }
}
fn total<T: Ord + Clone>(a: &T, i: Id, b: &T, j: Id) -> Result<(), String> {
    let o = a.cmp(b);
    ck(a.partial_cmp(b) == Some(o), || format!("cmp is {o:?} but partial_cmp is {:?} for {i:?} and {j:?}", a.partial_cmp(b)))?;
    ck((o == Ordering::Equal) == (i == j), || format!("cmp is {o:?} for {i:?} and {j:?}"))?;
    let max = a.clone().max(b.clone());
    let min = a.clone().min(b.clone());
    ck(
        if o == Ordering::Less { max == *b && min == *a } else { max == *a && min == *b },
        || format!("max or min is wrong for {i:?} and {j:?}"),
    )
}

impl World {
    fn ads<A>(&mut self, a: &Ad<A>, i: Id, b: &Ad<A>, j: Id, typ: &str) -> Result<(), String> {
        ad!(a, x => ad!(b, y => pair(self, x, i, y, j, typ)))?;
        match (a, b) {
            (Ad::S(x), Ad::S(y)) => total(x, i, y, j),
            (Ad::W(x), Ad::W(y)) => total(x, i, y, j),
            (Ad::E(x), Ad::E(y)) => total(x, i, y, j),
            _ => Ok(()),
        }
    }
    fn chs(&mut self, a: &Ch, i: Id, b: &Ch, j: Id) -> Result<(), String> {
        let d = |s: &str| format!("{s} for channels {i:?} and {j:?}");
        let same = ch!(a, x => ch!(b, y => x.same_actor(y)));
        ck(same == (i.0 == j.0), || d("same_actor is wrong"))?;
        let eq = match (a, b) {
            (Ch::S(x), Ch::S(y)) => Some((x == y, x != y)),
            (Ch::W(x), Ch::W(y)) => Some((x == y, x != y)),
            (Ch::E(x), Ch::E(y)) => Some((x == y, x != y)),
            _ => None,
        };
        if let Some((eq, ne)) = eq {
            ck(eq == (i == j), || d("== is wrong"))?;
            ck(ne == (i != j), || d("!= is wrong"))?;
        }
        Ok(())
    }
    fn hash_of(&mut self, h: &H, id: Id) -> Result<(), String> {
        let (v, chan) = match h {
            H::A(a) => (ad!(a, x => hashes(x)), false),
            H::B(a) => (ad!(a, x => hashes(x)), false),
            H::C(c) => (ch!(c, x => hashes(x)), true),
        };
        let seen = *self.hash.entry((id.0, id.1, chan)).or_insert(v);
        ck(seen == v, || format!("handle {id:?} (channel: {chan}) hashes differently from another one that equals it, or than before"))
    }
    /// Compare handle `k` with all (or all with all).
    fn check(&mut self, only: Option<usize>) -> Result<(), String> {
        let hs = std::mem::take(&mut self.hs);
        let r = (|| {
            for (n, (a, i)) in hs.iter().enumerate() {
                self.hash_of(a, *i)?;
                match a {
                    H::A(x) => self.sa.contains(x, *i)?,
                    H::B(x) => self.sb.contains(x, *i)?,
                    H::C(_) => {}
                }
                for (m, (b, j)) in hs.iter().enumerate() {
                    if only.is_some_and(|k| k != n && k != m) {
                        continue;
                    }
                    match (a, b) {
                        (H::A(a), H::A(b)) => self.ads(a, *i, b, *j, "addresses")?,
                        (H::B(a), H::B(b)) => self.ads(a, *i, b, *j, "addresses")?,
                        (H::C(a), H::C(b)) => self.chs(a, *i, b, *j)?,
                        _ => {}
                    }
                }
            }
            Ok(())
        })();
        self.hs = hs;
        r
    }
    /// The order between addresses seen so far must have no cycle.
    fn order(&self) -> Result<(), String> {
        for (&(a, b), &o) in &self.ord {
            for (&(_, c), &p) in self.ord.range((b, 0)..(b + 1, 0)) {
                if o == p && a != c {
                    if let Some(&q) = self.ord.get(&(a, c)) {
                        ck(q == o, || format!("the order of addresses {a}, {b}, {c} is not transitive"))?;
                    }
                }
            }
        }
        Ok(())
    }
    fn pick(&self, n: u8) -> Option<usize> {
        (!self.hs.is_empty()).then(|| n as usize % self.hs.len())
    }
    fn push(&mut self, h: H, id: Id) -> Result<(), String> {
        if self.hs.len() >= 14 {
            return Ok(());
        }
        self.hs.push((h, id));
        self.check(Some(self.hs.len() - 1))
    }
    fn step(&mut self, op: Op) -> Result<(), String> {
        match op {
            Op::New(second, cap) => {
                if self.mbs.len() >= 6 {
                    return Ok(());
                }
                let n = self.next;
                self.next += 1;
                if second {
                    let (a, m) = match cap {
                        Some(c) => Mailbox::bounded(1 + c as usize),
                        None => Mailbox::unbounded(),
                    };
                    self.mbs.push((Mb::B(m, Some(A1(7))), n));
                    self.push(H::B(Ad::S(a)), (n, true))?;
                } else {
                    let (a, m) = match cap {
                        Some(c) => Mailbox::bounded(1 + c as usize),
                        None => Mailbox::unbounded(),
                    };
                    self.mbs.push((Mb::A(m, Some(A0)), n));
                    self.push(H::A(Ad::S(a)), (n, true))?;
                }
            }
            Op::Clone(k) => {
                let Some(k) = self.pick(k) else { return Ok(()) };
                let (h, id) = &self.hs[k];
                let id = *id;
                let h = match h {
                    H::A(Ad::S(x)) => H::A(Ad::S(x.clone())),
                    H::A(Ad::W(x)) => H::A(Ad::W(x.clone())),
                    H::A(Ad::E(x)) => H::A(Ad::E(x.clone())),
                    H::B(Ad::S(x)) => H::B(Ad::S(x.clone())),
                    H::B(Ad::W(x)) => H::B(Ad::W(x.clone())),
                    H::B(Ad::E(x)) => H::B(Ad::E(x.clone())),
                    H::C(Ch::S(x)) => H::C(Ch::S(x.clone())),
                    H::C(Ch::W(x)) => H::C(Ch::W(x.clone())),
                    H::C(Ch::E(x)) => H::C(Ch::E(x.clone())),
                };
                self.push(h, id)?;
            }
            Op::Down(k) => {
                let Some(k) = self.pick(k) else { return Ok(()) };
                let (h, id) = &self.hs[k];
                let id = (id.0, false);
                let h = match h {
                    H::A(Ad::S(x)) => H::A(Ad::W(x.downgrade())),
                    H::A(Ad::E(x)) => H::A(Ad::W(x.downgrade())),
                    H::B(Ad::S(x)) => H::B(Ad::W(x.downgrade())),
                    H::B(Ad::E(x)) => H::B(Ad::W(x.downgrade())),
                    H::C(Ch::S(x)) => H::C(Ch::W(x.downgrade())),
                    H::C(Ch::E(x)) => H::C(Ch::W(x.downgrade())),
                    _ => return Ok(()),
                };
                self.push(h, id)?;
            }
            Op::Either(k) => {
                let Some(k) = self.pick(k) else { return Ok(()) };
                let (h, id) = &self.hs[k];
                let id = *id;
                let h = match h {
                    H::A(x) => H::A(Ad::E(ad!(x, y => y.as_either()))),
                    H::B(x) => H::B(Ad::E(ad!(x, y => y.as_either()))),
                    H::C(x) => H::C(Ch::E(ch!(x, y => y.as_either()))),
                };
                self.push(h, id)?;
            }
            Op::Upgrade(k) => {
                let Some(k) = self.pick(k) else { return Ok(()) };
                let (h, id) = &self.hs[k];
                let id = (id.0, true);
                let h = match h {
                    H::A(Ad::W(x)) => x.try_upgrade().map(|x| H::A(Ad::S(x))),
                    H::B(Ad::W(x)) => x.try_upgrade().map(|x| H::B(Ad::S(x))),
                    _ => None,
                };
                if let Some(h) = h {
                    self.push(h, id)?;
                }
            }
            Op::ToChan(k) => {
                let Some(k) = self.pick(k) else { return Ok(()) };
                let (h, id) = &self.hs[k];
                let id = *id;
                let h = match h {
                    H::A(Ad::S(x)) => Ch::S(MessageChannel::new(x.clone())),
                    H::A(Ad::W(x)) => Ch::W(MessageChannel::new(x.clone())),
                    H::A(Ad::E(x)) => Ch::E(x.clone().into()),
                    H::B(Ad::S(x)) => Ch::S(x.clone().into()),
                    H::B(Ad::W(x)) => Ch::W(x.clone().into()),
                    H::B(Ad::E(x)) => Ch::E(MessageChannel::new(x.clone())),
                    H::C(_) => return Ok(()),
                };
                self.push(H::C(h), id)?;
            }
            Op::Drop(k) => {
                let Some(k) = self.pick(k) else { return Ok(()) };
                drop(self.hs.swap_remove(k));
            }
            Op::CloneMb(k) => {
                if self.mbs.is_empty() || self.mbs.len() >= 6 {
                    return Ok(());
                }
                let (m, n) = &self.mbs[k as usize % self.mbs.len()];
                let n = *n;
                let m = match m {
                    Mb::A(m, _) => Mb::A(m.clone(), Some(A0)),
                    Mb::B(m, _) => Mb::B(m.clone(), Some(A1(8))),
                };
                self.mbs.push((m, n));
            }
            Op::DropMb(k) => {
                if !self.mbs.is_empty() {
                    let k = k as usize % self.mbs.len();
                    drop(self.mbs.swap_remove(k));
                }
            }
            Op::MbAddr(k) => {
                if !self.mbs.is_empty() {
                    let (m, n) = &self.mbs[k as usize % self.mbs.len()];
                    let n = *n;
                    let h = match m {
                        Mb::A(m, _) => H::A(Ad::W(m.address())),
                        Mb::B(m, _) => H::B(Ad::W(m.address())),
                    };
                    self.push(h, (n, false))?;
                }
            }
            Op::Serve(k) => {
                if self.mbs.is_empty() {
                    return Ok(());
                }
                let k = k as usize % self.mbs.len();
                let n = self.mbs[k].1;
                macro_rules! serve {
                    ($mb:expr, $act:expr, $v:path) => {{
                        // ask the actor for its own address, if there is a strong one to ask with
                        let ask = $mb.address().try_upgrade().map(|a| a.send(Ask));
                        let mut ask = match ask {
                            Some(mut s) => {
                                let _ = poll(&mut s);
                                Some(s)
                            }
                            None => None,
                        };
                        let mut got = None;
                        for _ in 0..8 {
                            let mut next = Box::pin($mb.next());
                            let Poll::Ready(m) = poll(&mut next) else { break };
                            drop(next);
                            let _ = poll(&mut m.dispatch_to($act));
                            if let Some(s) = &mut ask {
                                if let Poll::Ready(r) = poll(s) {
                                    got = r.ok();
                                    ask = None;
                                    break;
                                }
                            }
                        }
                        got.map($v)
                    }};
                }
                let h = match &mut self.mbs[k].0 {
                    Mb::A(m, a) => serve!(m, a.as_mut().unwrap(), Ad::W).map(H::A),
                    Mb::B(m, a) => serve!(m, a.as_mut().unwrap(), Ad::W).map(H::B),
                };
                if let Some(h) = h {
                    self.served = true;
                    self.push(h, (n, false))?;
                }
            }
            Op::Send(k) | Op::SendDrop(k) => {
                let Some(k) = self.pick(k) else { return Ok(()) };
                macro_rules! send {
                    ($x:expr) => {{
                        let mut s = $x.send(M(false));
                        let _ = poll(&mut s);
                        Box::pin(async move {
                            let _ = s.await;
                        }) as Pin<Box<dyn Future<Output = ()>>>
                    }};
                }
                let f = match &self.hs[k].0 {
                    H::A(x) => ad!(x, y => send!(y)),
                    H::B(x) => ad!(x, y => send!(y)),
                    H::C(x) => ch!(x, y => send!(y)),
                };
                if matches!(op, Op::Send(_)) && self.sends.len() < 8 {
                    self.sends.push(f);
                }
            }
            Op::Insert(k) => {
                let Some(k) = self.pick(k) else { return Ok(()) };
                let (h, id) = &self.hs[k];
                match h {
                    H::A(x) => self.sa.insert(x, *id)?,
                    H::B(x) => self.sb.insert(x, *id)?,
                    H::C(_) => {}
                }
            }
            Op::Remove(k) => {
                let Some(k) = self.pick(k) else { return Ok(()) };
                let (h, id) = &self.hs[k];
                match h {
                    H::A(x) => self.sa.remove(x, *id)?,
                    H::B(x) => self.sb.remove(x, *id)?,
                    H::C(_) => {}
                }
            }
            Op::Take(k) => {
                // the tree and the model list the handles of one set in possibly different orders of
                // addresses, but each address's in order of strength
                let it: Vec<(Address<A0, Either>, Option<Address<A0, Either>>)> =
                    self.sa.be.iter().map(|x| (x.clone(), self.sa.he.get(x).cloned())).collect();
                for (x, y) in &it {
                    let Some(y) = y else { return Err("a member of the tree is not in the hash set".into()) };
                    ck(x == y && x.same_actor(y), || "hash set get() gives another handle".into())?;
                }
                if !it.is_empty() {
                    let x = &it[k as usize % it.len()].0;
                    let mut hits = 0;
                    for id in self.sa.m[2].clone() {
                        for (h, j) in &self.hs {
                            if let (H::A(h), true) = (h, id == *j) {
                                hits += ad!(h, y => x == y) as u32;
                                break;
                            }
                        }
                    }
                    self.set_hit = true;
                    ck(hits <= 1, || "one address equals several that differ".into())?;
                }
            }
        }
        Ok(())
    }
}

pub struct Ident;
impl Engine for Ident {
    type Case = Case;
    fn name(&self) -> &'static str {
        "identity"
    }
    fn rule(&self) -> String {
        "handles that are equal, that differ only in strength, and of two addresses were all compared, and one was inserted into the sets".into()
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let n = any::<u8>;
        let op = Union::new_weighted(vec![
            (6, (any::<bool>(), prop_oneof![Just(None), (0u8..3).prop_map(Some)]).prop_map(|(b, c)| Op::New(b && c.is_none(), c)).boxed()),
            (2, Just(Op::New(true, None)).boxed()),
            (8, n().prop_map(Op::Clone).boxed()),
            (7, n().prop_map(Op::Down).boxed()),
            (9, n().prop_map(Op::Either).boxed()),
            (6, n().prop_map(Op::Upgrade).boxed()),
            (7, n().prop_map(Op::ToChan).boxed()),
            (6, n().prop_map(Op::Drop).boxed()),
            (3, n().prop_map(Op::CloneMb).boxed()),
            (3, n().prop_map(Op::DropMb).boxed()),
            (4, n().prop_map(Op::MbAddr).boxed()),
            (4, n().prop_map(Op::Serve).boxed()),
            (4, n().prop_map(Op::Send).boxed()),
            (2, n().prop_map(Op::SendDrop).boxed()),
            (10, n().prop_map(Op::Insert).boxed()),
            (4, n().prop_map(Op::Remove).boxed()),
            (2, n().prop_map(Op::Take).boxed()),
        ]);
        prop::collection::vec(op, 4..40).prop_map(|ops| Case { ops }).boxed()
    }
    fn run(&self, case: &Case) -> Outcome {
        let mut w = World::default();
        let mut r = Ok(());
        let mut inserted = false;
        for op in &case.ops {
            inserted |= matches!(op, Op::Insert(_));
            r = w.step(*op);
            if r.is_err() {
                break;
            }
        }
        let r = r.and_then(|()| w.check(None)).and_then(|()| w.order());
        let mut labels = vec![];
        if w.served {
            labels.push("address from a handler");
        }
        if w.set_hit {
            labels.push("set listed");
        }
        Outcome {
            verdict: match r {
                Ok(()) => Verdict::Pass,
                Err(e) => Verdict::Fail(e),
            },
            nontrivial: w.pairs.iter().all(|n| *n > 0) && inserted,
            labels,
        }
    }
}
