//! Executable contracts of the actor core: life of one actor, supervision, the local registry, timers, worker pools.
use crate::core::*;
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::lifecycle::Stop;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::timer::{Timer, TimerTick};
use coerce::actor::scheduler::{ActorCount, ActorType};
use coerce::actor::system::ActorSystem;
use coerce::actor::watch::{ActorTerminated, ActorWatch, Unwatch, Watch};
use coerce::actor::worker::{IntoWorker, WorkerRefExt};
use coerce::actor::{Actor, ActorId, ActorRef, ActorRefErr, BoxedActorRef, CoreActorRef, IntoActorId, LocalActorRef, Receiver};
use parking_lot::Mutex;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::oneshot;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Started,
    H(u32),
    Stopped,
    Child(String),
}
pub type Evs = Arc<Mutex<Vec<Ev>>>;
static N: AtomicU64 = AtomicU64::new(1);
fn uid(p: &str) -> String {
    format!("{p}{}", N.fetch_add(1, Ordering::SeqCst))
}

pub struct Sub {
    log: Evs,
    fail: bool,
}
#[async_trait]
impl Actor for Sub {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.log.lock().push(Ev::Started);
        if self.fail {
            ctx.stop(None);
        }
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        tokio::task::yield_now().await;
        self.log.lock().push(Ev::Stopped);
    }
}
pub struct Do(u32, bool);
impl Message for Do {
    type Result = u32;
}
#[async_trait]
impl Handler<Do> for Sub {
    async fn handle(&mut self, m: Do, ctx: &mut ActorContext) -> u32 {
        tokio::task::yield_now().await;
        self.log.lock().push(Ev::H(m.0));
        if m.1 {
            ctx.stop(None);
        }
        m.0 + 1000
    }
}
pub struct Gate(oneshot::Receiver<()>);
impl Message for Gate {
    type Result = ();
}
#[async_trait]
impl Handler<Gate> for Sub {
    async fn handle(&mut self, m: Gate, _: &mut ActorContext) {
        let _ = m.0.await;
    }
}
#[derive(Default)]
pub struct Watcher {
    seen: Vec<String>,
}
impl Actor for Watcher {}
#[async_trait]
impl Handler<ActorTerminated> for Watcher {
    async fn handle(&mut self, m: ActorTerminated, _: &mut ActorContext) {
        self.seen.push(m.actor_ref().actor_id().to_string());
    }
}
/// watches (true) or stops watching (false), as an actor does from its own handlers
pub struct DoWatch(LocalActorRef<Sub>, bool);
impl Message for DoWatch {
    type Result = ();
}
#[async_trait]
impl Handler<DoWatch> for Watcher {
    async fn handle(&mut self, m: DoWatch, ctx: &mut ActorContext) {
        if m.1 {
            self.watch(&m.0, ctx)
        } else {
            self.unwatch(&m.0, ctx)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum L {
    /// a message with an answer: through deliver, through the typed receiver, through the transparent reference
    D,
    R,
    T,
    /// without an answer
    N,
    /// stop and be told, stop, stop by the actor itself
    S,
    Q,
    X,
    W1,
    W2,
    U1,
}

async fn life(w: Vec<L>, tracked: bool, sys: ActorSystem) -> CaseResult {
    let id = uid("life");
    let log: Evs = Default::default();
    let ty = if tracked { ActorType::Tracked } else { ActorType::Anonymous };
    let a = sys.new_actor(id.clone(), Sub { log: log.clone(), fail: false }, ty).await.map_err(|e| format!("{e:?}"))?;
    eq("events when the start is reported", log.lock().clone(), vec![Ev::Started])?;
    let wat = [
        sys.new_anon_actor(Watcher::default()).await.map_err(|e| format!("{e:?}"))?,
        sys.new_anon_actor(Watcher::default()).await.map_err(|e| format!("{e:?}"))?,
    ];
    let (open, gate) = oneshot::channel();
    a.notify(Gate(gate)).map_err(|e| format!("{e:?}"))?;
    let mut replies: Vec<(u32, oneshot::Receiver<Result<u32, ActorRefErr>>, bool)> = vec![];
    let mut acks: Vec<(oneshot::Receiver<()>, bool)> = vec![];
    let mut want = vec![Ev::Started];
    let mut watching = BTreeSet::new();
    let mut over = false;
    for (i, o) in w.iter().enumerate() {
        let n = i as u32;
        match o {
            L::D | L::R | L::T => {
                let (tx, rx) = oneshot::channel();
                if *o == L::D {
                    let (tx2, rx2) = oneshot::channel();
                    a.deliver(Do(n, false), tx2).map_err(|e| format!("{e:?}"))?;
                    tokio::spawn(async move {
                        let _ = tx.send(rx2.await.map_err(|_| ActorRefErr::ResultChannelClosed));
                    });
                } else {
                    // polled here once, so that the message is in the mailbox before the next one
                    let (a, o) = (a.clone(), *o);
                    let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<u32, ActorRefErr>> + Send>> = Box::pin(async move {
                        if o == L::R {
                            Receiver::<Do>::from(a).send(Do(n, false)).await
                        } else {
                            ActorRef::from(a).send(Do(n, false)).await
                        }
                    });
                    ensure(futures::poll!(&mut f).is_pending(), "a message was answered while the actor is busy")?;
                    tokio::spawn(async move {
                        let _ = tx.send(f.await);
                    });
                }
                replies.push((n, rx, !over));
            }
            L::N => match i % 3 {
                0 => a.notify(Do(n, false)).map_err(|e| format!("{e:?}"))?,
                1 => ActorRef::from(a.clone()).notify(Do(n, false)).await.map_err(|e| format!("{e:?}"))?,
                _ => Receiver::<Do>::from(a.clone()).notify(Do(n, false)).map_err(|e| format!("{e:?}"))?,
            },
            L::X => a.notify(Do(n, true)).map_err(|e| format!("{e:?}"))?,
            L::S => {
                let (tx, rx) = oneshot::channel();
                a.notify(Stop(Some(tx))).map_err(|e| format!("{e:?}"))?;
                acks.push((rx, !over));
            }
            L::Q => BoxedActorRef::from(a.clone()).notify_stop().map_err(|e| format!("{e:?}"))?,
            L::W1 => a.notify(Watch::from(Receiver::from(wat[0].clone()))).map_err(|e| format!("{e:?}"))?,
            L::W2 => wat[1].send(DoWatch(a.clone(), true)).await.map_err(|e| format!("{e:?}"))?,
            L::U1 => {
                if i % 2 == 0 {
                    a.notify(Unwatch::from(wat[0].actor_id().clone())).map_err(|e| format!("{e:?}"))?
                } else {
                    wat[0].send(DoWatch(a.clone(), false)).await.map_err(|e| format!("{e:?}"))?
                }
            }
        }
        if !over {
            match o {
                L::D | L::R | L::T | L::N => want.push(Ev::H(n)),
                L::X => {
                    want.push(Ev::H(n));
                    over = true;
                }
                L::S | L::Q => over = true,
                L::W1 => {
                    watching.insert(0);
                }
                L::W2 => {
                    watching.insert(1);
                }
                L::U1 => {
                    watching.remove(&0);
                }
            }
        }
    }
    ensure(a.is_valid(), "the actor ended early")?;
    let _ = open.send(());
    let mut last = None;
    if !over {
        // the word never stops the actor: check that it is alive, then stop it
        eq("answer of a live actor", a.send(Do(900, false)).await, Ok(1900))?;
        want.push(Ev::H(900));
        last = Some(BoxedActorRef::from(a.clone()).stop().await);
    }
    want.push(Ev::Stopped);
    for (rx, ok) in acks {
        let r = tokio::time::timeout(Duration::from_secs(5), rx).await.map_err(|_| "a stop request is never answered")?;
        if ok {
            ensure(r.is_ok(), "the request that stopped the actor was not confirmed")?;
            eq("last event when the stop is confirmed", log.lock().last().cloned(), Some(Ev::Stopped))?;
            ensure(sys.get_tracked_actor::<Sub>(id.clone().into_actor_id()).await.is_none(), "stop confirmed while the actor can be found")?;
        } else {
            ensure(r.is_err(), "a stop request behind the one that stopped the actor was confirmed")?;
        }
    }
    if let Some(r) = last {
        eq("stop", r, Ok(()))?;
        eq("last event when the stop is confirmed", log.lock().last().cloned(), Some(Ev::Stopped))?;
    }
    for (n, rx, ok) in replies {
        let r = tokio::time::timeout(Duration::from_secs(5), rx).await.map_err(|_| format!("message {n} is never answered"))?.unwrap();
        eq(&format!("answer of message {n}"), r, if ok { Ok(n + 1000) } else { Err(ActorRefErr::ResultChannelClosed) })?;
    }
    ensure(crate::peer::until(5000, || !a.is_valid()).await, "the actor never ended")?;
    eq("events", log.lock().clone(), want)?;
    eq("a message to a stopped actor", a.send(Do(1, false)).await, Err(ActorRefErr::InvalidRef))?;
    eq("a notification to a stopped actor", a.notify(Do(1, false)), Err(ActorRefErr::InvalidRef))?;
    eq("stopping a stopped actor", a.stop().await, Err(ActorRefErr::InvalidRef))?;
    for k in 0..2 {
        let seen = wat[k].exec(|w| w.seen.clone()).await.map_err(|e| format!("{e:?}"))?;
        eq(&format!("termination notices of watcher {k}"), seen, if watching.contains(&k) { vec![id.clone()] } else { vec![] })?;
        let _ = wat[k].notify_stop();
    }
    Ok(())
}

/// An actor that stops itself while starting.
async fn failed_start(deferred: bool, tracked: bool, sys: ActorSystem) -> CaseResult {
    let id = uid("fail");
    let log: Evs = Default::default();
    let ty = if tracked { ActorType::Tracked } else { ActorType::Anonymous };
    let a = Sub { log: log.clone(), fail: true };
    if deferred {
        let r = sys.new_actor_deferred(id.clone(), a, ty).await;
        let q = r.send(Do(1, false)).await;
        ensure(matches!(q, Err(ActorRefErr::InvalidRef) | Err(ActorRefErr::ResultChannelClosed)), format!("an actor that did not start answered {q:?}"))?;
        ensure(crate::peer::until(3000, || !r.is_valid()).await, "the actor never ended")?;
    } else {
        let r = sys.new_actor(id.clone(), a, ty).await;
        ensure(matches!(r, Err(ActorRefErr::ActorStartFailed)), "an actor that stopped while starting was reported as started")?;
    }
    ensure(crate::peer::until(3000, || log.lock().len() >= 2).await, "the stopped hook did not run")?;
    eq("events", log.lock().clone(), vec![Ev::Started, Ev::Stopped])?;
    let mut found = true;
    for _ in 0..50 {
        found = sys.get_tracked_actor::<Sub>(id.clone().into_actor_id()).await.is_some();
        if !found {
            break;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    ensure(!found, "an actor that did not start can still be found")
}

pub async fn lifecycle(cx: &mut Cx) {
    let sys = ActorSystem::new();
    let max = if cx.thorough { 5 } else { 4 };
    for (k, w) in words(&[L::D, L::N, L::S, L::Q, L::X, L::W1, L::W2, L::U1], max).into_iter().enumerate() {
        let sys = sys.clone();
        let t = k % 2 == 0;
        cx.case("life", format!("{w:?} tracked={t}"), move || life(w.clone(), t, sys.clone())).await;
    }
    let mut r = cx.rng(31);
    for _ in 0..if cx.thorough { 2000 } else { 200 } {
        let all = [L::D, L::R, L::T, L::N, L::D, L::R, L::T, L::N, L::N, L::W1, L::W2, L::U1, L::S, L::Q, L::X];
        let w: Vec<L> = (0..3 + r.below(20)).map(|_| *r.pick(&all)).collect();
        let sys = sys.clone();
        cx.case("life", format!("{w:?} tracked=true"), move || life(w.clone(), true, sys.clone())).await;
    }
    for i in 0..if cx.thorough { 2000 } else { 300 } {
        let (d, t) = (i % 2 == 1, i % 4 < 2);
        let sys = sys.clone();
        cx.case("failed-start", format!("deferred={d} tracked={t} #{i}"), move || failed_start(d, t, sys.clone())).await;
    }
}

// ------------------------------------------------------------------------------------------------ supervision

pub struct Node {
    name: String,
    log: Arc<Mutex<Vec<(String, Ev)>>>,
    depth: u32,
    fail: bool,
}
#[async_trait]
impl Actor for Node {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.log.lock().push((self.name.clone(), Ev::Started));
        if self.fail {
            ctx.stop(None);
        } else if self.depth > 0 {
            let n = Node { name: format!("{}/g", self.name), log: self.log.clone(), depth: self.depth - 1, fail: false };
            ctx.spawn(n.name.clone().into_actor_id(), n).await.unwrap();
        }
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        tokio::task::yield_now().await;
        self.log.lock().push((self.name.clone(), Ev::Stopped));
    }
    async fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext) {
        assert!(ctx.boxed_child_ref(id).is_none());
        self.log.lock().push((self.name.clone(), Ev::Child(id.to_string())));
    }
}
pub enum Kid {
    Spawn { id: String, fail: bool, deferred: bool },
    Attach(BoxedActorRef),
    Get(String),
    Info,
}
#[derive(Debug)]
pub enum KidRes {
    Spawned(Result<LocalActorRef<Node>, ActorRefErr>),
    Got(Option<LocalActorRef<Node>>, Option<BoxedActorRef>),
    Info(usize, Option<String>),
}
impl Message for Kid {
    type Result = KidRes;
}
#[async_trait]
impl Handler<Kid> for Node {
    async fn handle(&mut self, m: Kid, ctx: &mut ActorContext) -> KidRes {
        match m {
            Kid::Spawn { id, fail, deferred } => {
                let n = Node { name: id.clone(), log: self.log.clone(), depth: 1, fail };
                KidRes::Spawned(if deferred { ctx.spawn_deferred(id.into_actor_id(), n) } else { ctx.spawn(id.into_actor_id(), n).await })
            }
            Kid::Attach(r) => {
                ctx.attach_child_ref(r);
                KidRes::Info(ctx.supervised_count(), None)
            }
            Kid::Get(id) => KidRes::Got(ctx.child_ref(&id.clone().into_actor_id()), ctx.boxed_child_ref(&id.into_actor_id())),
            Kid::Info => KidRes::Info(ctx.supervised_count(), ctx.boxed_parent().map(|p| p.actor_id().to_string())),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum C {
    /// spawn a / b, spawn a without waiting, spawn an a that stops while starting
    A,
    B,
    Da,
    Fa,
    /// stop child a / b
    Xa,
    Xb,
    /// attach an actor that runs on its own; it stops
    At,
    Xt,
}

async fn family(w: Vec<C>, sys: ActorSystem) -> CaseResult {
    let id = uid("p");
    let log: Arc<Mutex<Vec<(String, Ev)>>> = Default::default();
    let mk = |n: &str, d| Node { name: n.to_string(), log: log.clone(), depth: d, fail: false };
    let top = sys.new_tracked_actor(mk(&format!("{id}top"), 0)).await.map_err(|e| format!("{e:?}"))?;
    let KidRes::Spawned(Ok(p)) = top.send(Kid::Spawn { id: id.clone(), fail: false, deferred: false }).await.map_err(|e| format!("{e:?}"))? else {
        return Err("spawn failed".into());
    };
    // p has one child already, its grandchild "g"
    let g = format!("{id}/g");
    let (a, b, t) = (format!("{id}a"), format!("{id}b"), format!("{id}t"));
    let free = sys.new_actor(t.clone(), mk(&t, 0), ActorType::Tracked).await.map_err(|e| format!("{e:?}"))?;
    let mut live: BTreeMap<String, LocalActorRef<Node>> = BTreeMap::new();
    let mut noticed: Vec<String> = vec![];
    let mut attached = false;
    let mut free_up = true;
    let info = || async { p.send(Kid::Info).await.map_err(|e| format!("parent gone: {e:?}")) };
    for (i, o) in w.iter().enumerate() {
        let at = format!("op {i} {o:?}");
        match o {
            C::A | C::B | C::Da | C::Fa => {
                let k = if *o == C::B { &b } else { &a };
                let KidRes::Spawned(r) = p.send(Kid::Spawn { id: k.clone(), fail: *o == C::Fa, deferred: *o == C::Da }).await.map_err(|e| format!("{e:?}"))? else { unreachable!() };
                if live.contains_key(k) {
                    ensure(matches!(&r, Err(ActorRefErr::AlreadyExists(x)) if x.as_ref() == k.as_str()), format!("{at}: second child of that id, got {r:?}"))?;
                } else if *o == C::Fa {
                    ensure(matches!(&r, Err(ActorRefErr::ActorStartFailed)), format!("{at}: got {r:?}"))?;
                    noticed.push(k.clone());
                } else {
                    let r = r.map_err(|e| format!("{at}: {e:?}"))?;
                    let KidRes::Info(_, par) = r.send(Kid::Info).await.map_err(|e| format!("{at}: {e:?}"))? else { unreachable!() };
                    eq(&format!("{at}: parent"), par, Some(id.clone()))?;
                    eq(&format!("{at}: path"), r.actor_path().to_string(), format!("{}/{}", p.actor_path(), id))?;
                    live.insert(k.clone(), r);
                }
            }
            C::Xa | C::Xb => {
                let k = if *o == C::Xb { &b } else { &a };
                if let Some(r) = live.remove(k) {
                    eq(&format!("{at}: stop"), r.stop().await, Ok(()))?;
                    noticed.push(k.clone());
                }
            }
            C::At => {
                p.send(Kid::Attach(free.clone().into())).await.map_err(|e| format!("{e:?}"))?;
                attached = true;
            }
            C::Xt => {
                // an attached actor keeps its own parent: the one it is attached to is not told
                if free_up {
                    eq(&format!("{at}: stop"), free.stop().await, Ok(()))?;
                    free_up = false;
                }
            }
        }
        let want = live.len() + 1 + attached as usize;
        let mut got = 0;
        for _ in 0..1500 {
            let KidRes::Info(n, _) = info().await? else { unreachable!() };
            got = n;
            if n == want {
                break;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        eq(&format!("{at}: number of children"), got, want)?;
        for k in [&a, &b] {
            let KidRes::Got(r, bx) = p.send(Kid::Get(k.clone())).await.map_err(|e| format!("{e:?}"))? else { unreachable!() };
            eq(&format!("{at}: child {k} found"), (r.is_some(), bx.is_some()), (live.contains_key(k), live.contains_key(k)))?;
            if let (Some(x), Some(y)) = (&r, live.get(k)) {
                ensure(x.sender().same_channel(y.sender()), format!("{at}: another actor is found under {k}"))?;
            }
        }
        let seen: Vec<String> = log.lock().iter().filter_map(|(n, e)| if let (true, Ev::Child(c)) = (*n == id, e) { Some(c.clone()) } else { None }).collect();
        eq(&format!("{at}: children reported stopped"), seen, noticed.clone())?;
    }
    // the parent goes: so do its children, and only then its own parent is told
    eq("stop of the parent", p.stop().await, Ok(()))?;
    let told = || log.lock().iter().any(|(n, e)| *n == format!("{id}top") && *e == Ev::Child(id.clone()));
    ensure(crate::peer::until(5000, told).await, "the parent's parent was not told that it stopped")?;
    let mut must: Vec<String> = live.keys().cloned().collect();
    must.push(g.clone());
    {
        let l = log.lock();
        let pos = l.iter().position(|(n, e)| *n == format!("{id}top") && *e == Ev::Child(id.clone())).unwrap();
        for k in &must {
            ensure(l[..pos].iter().any(|x| *x == (k.clone(), Ev::Stopped)), format!("child {k} still runs after its parent is reported stopped"))?;
        }
    }
    if attached && free_up {
        ensure(crate::peer::until(3000, || !free.is_valid()).await, "an attached child outlived the actor it is attached to")?;
    }
    ensure(attached || !free_up || free.is_valid(), "an unrelated actor was stopped")?;
    // and so do the grandchildren; nobody's stopped hook runs twice
    for k in live.keys() {
        ensure(crate::peer::until(3000, || log.lock().iter().any(|x| *x == (format!("{k}/g"), Ev::Stopped))).await, format!("grandchild {k}/g outlived its parent"))?;
    }
    let l = log.lock().clone();
    for (n, e) in &l {
        if *e == Ev::Stopped {
            let s = l.iter().filter(|x| x.0 == *n && x.1 == Ev::Stopped).count();
            let b = l.iter().filter(|x| x.0 == *n && x.1 == Ev::Started).count();
            ensure(s <= b, format!("{n}: stopped {s} times, started {b} times"))?;
        }
    }
    let _ = free.notify_stop();
    let _ = top.notify_stop();
    Ok(())
}

/// Watchers by id: seats 0 and 1 share one actor id, seat 2 has its own.
#[derive(Clone, Copy, Debug)]
pub enum Wt { In(usize), Out(usize), Ask }
async fn watching(w: Vec<Wt>, by_ctx: bool, sys: ActorSystem) -> CaseResult {
    let log: Evs = Default::default();
    let a = sys.new_actor(uid("w"), Sub { log: log.clone(), fail: false }, ActorType::Anonymous).await.map_err(|e| format!("{e:?}"))?;
    let ids = [uid("wat"), uid("wat")];
    let seat_id = |i: usize| ids[i / 2].clone();
    let mut wat = vec![];
    for i in 0..3 {
        wat.push(sys.new_actor(seat_id(i), Watcher::default(), ActorType::Anonymous).await.map_err(|e| format!("{e:?}"))?);
    }
    let mut model: BTreeMap<String, usize> = BTreeMap::new();
    for x in &w {
        match x {
            Wt::In(i) => {
                if by_ctx { wat[*i].send(DoWatch(a.clone(), true)).await.map_err(|e| format!("{e:?}"))? } else { a.notify(Watch::from(Receiver::from(wat[*i].clone()))).map_err(|e| format!("{e:?}"))? }
                model.insert(seat_id(*i), *i);
            }
            Wt::Out(i) => {
                if by_ctx { wat[*i].send(DoWatch(a.clone(), false)).await.map_err(|e| format!("{e:?}"))? } else { a.notify(Unwatch::from(wat[*i].actor_id().clone())).map_err(|e| format!("{e:?}"))? }
                model.remove(&seat_id(*i));
            }
            Wt::Ask => { a.send(Do(1, false)).await.map_err(|e| format!("{e:?}"))?; }
        }
    }
    a.stop().await.map_err(|e| format!("{e:?}"))?;
    let want: Vec<usize> = (0..3).map(|i| model.values().filter(|x| **x == i).count()).collect();
    let t = Instant::now();
    let mut seen: Vec<Vec<String>>;
    loop {
        seen = vec![];
        for x in &wat { seen.push(x.exec(|w| w.seen.clone()).await.map_err(|e| format!("{e:?}"))?); }
        let got: Vec<usize> = seen.iter().map(|s| s.len()).collect();
        if got == want || t.elapsed() > Duration::from_secs(2) { break }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    for x in &wat { let _ = x.stop().await; }
    for i in 0..3 {
        let s = seen[i].clone();
        eq(&format!("notices to watcher {i} (id {})", seat_id(i)), s.len(), want[i])?;
        ensure(s.iter().all(|x| *x == a.actor_id().to_string()), format!("watcher {i} was told of {s:?}, {} ended", a.actor_id()))?;
    }
    Ok(())
}

pub async fn supervision(cx: &mut Cx) {
    let ops = [Wt::In(0), Wt::In(1), Wt::In(2), Wt::Out(0), Wt::Out(1), Wt::Out(2), Wt::Ask];
    for (k, w) in words(&ops, if cx.thorough { 4 } else { 3 }).into_iter().enumerate() {
        let sys = ActorSystem::new();
        cx.case("watching", format!("{w:?} by-context={}", k % 2 == 0), move || watching(w.clone(), k % 2 == 0, sys.clone())).await;
    }
    let sys = ActorSystem::new();
    let max = if cx.thorough { 4 } else { 3 };
    let mut ws = words(&[C::A, C::B, C::Da, C::Fa, C::Xa, C::Xb, C::At, C::Xt], max);
    let mut r = cx.rng(41);
    for _ in 0..if cx.thorough { 600 } else { 100 } {
        ws.push((0..8).map(|_| *r.pick(&[C::A, C::B, C::Da, C::Fa, C::Xa, C::Xb, C::At, C::Xt])).collect());
    }
    for w in ws {
        let sys = sys.clone();
        cx.case("family", format!("{w:?}"), move || family(w.clone(), sys.clone())).await;
    }
}

// ------------------------------------------------------------------------------------------------ registry

pub struct Other;
impl Actor for Other {}

#[derive(Clone, Copy, Debug, PartialEq)]
enum G {
    /// a tracked actor of id 0/1, started and waited for / not waited for
    T(usize),
    D(usize),
    /// one that stops while starting
    F(usize),
    /// an anonymous one of that id
    An(usize),
    /// stop the newest / the oldest running actor of that id
    Xn(usize),
    Xo(usize),
}

async fn registry_case(w: Vec<G>) -> CaseResult {
    let sys = ActorSystem::new();
    let ids = [uid("r"), uid("r")];
    let mut running: [Vec<(LocalActorRef<Sub>, Evs, bool)>; 2] = Default::default();
    let mut reg: [Option<LocalActorRef<Sub>>; 2] = [None, None];
    for (i, o) in w.iter().enumerate() {
        let at = format!("op {i} {o:?}");
        let log: Evs = Default::default();
        let mk = |fail| Sub { log: log.clone(), fail };
        match *o {
            G::T(k) => {
                let r = sys.new_actor(ids[k].clone(), mk(false), ActorType::Tracked).await.map_err(|e| format!("{at}: {e:?}"))?;
                running[k].push((r.clone(), log.clone(), true));
                reg[k] = Some(r);
            }
            G::D(k) => {
                let r = sys.new_actor_deferred(ids[k].clone(), mk(false), ActorType::Tracked).await;
                running[k].push((r.clone(), log.clone(), true));
                reg[k] = Some(r);
            }
            G::F(k) => {
                let r = sys.new_actor(ids[k].clone(), mk(true), ActorType::Tracked).await;
                ensure(matches!(r, Err(ActorRefErr::ActorStartFailed)), format!("{at}: reported as started"))?;
                reg[k] = None;
            }
            G::An(k) => {
                let r = sys.new_actor(ids[k].clone(), mk(false), ActorType::Anonymous).await.map_err(|e| format!("{at}: {e:?}"))?;
                running[k].push((r.clone(), log.clone(), false));
            }
            G::Xn(k) | G::Xo(k) => {
                if !running[k].is_empty() {
                    let j = if matches!(o, G::Xo(_)) { 0 } else { running[k].len() - 1 };
                    let (r, _, _) = running[k].remove(j);
                    eq(&format!("{at}: stop"), r.stop().await, Ok(()))?;
                    if reg[k].as_ref().map_or(false, |x| x.sender().same_channel(r.sender())) {
                        reg[k] = None;
                    }
                }
            }
        }
        for k in 0..2 {
            let got = sys.get_tracked_actor::<Sub>(ids[k].clone().into_actor_id()).await;
            match (&got, &reg[k]) {
                (None, None) => {}
                (Some(x), Some(y)) if x.sender().same_channel(y.sender()) => {}
                _ => return Err(format!("{at}: id {k}: found {}, contract requires {}", got.is_some(), reg[k].is_some())),
            }
            ensure(sys.get_tracked_actor::<Other>(ids[k].clone().into_actor_id()).await.is_none(), format!("{at}: found as an actor of another type"))?;
        }
        let n = sys.scheduler().send(ActorCount).await.map_err(|e| format!("{at}: {e:?}"))?;
        eq(&format!("{at}: number of tracked actors"), n, reg.iter().flatten().count())?;
        for (r, _, _) in running.iter().flatten() {
            ensure(r.is_valid(), format!("{at}: an actor nobody stopped has ended"))?;
        }
    }
    // shutting down stops every tracked actor before it returns
    sys.shutdown().await;
    for k in 0..2 {
        for (r, log, tracked) in &running[k] {
            let is_reg = reg[k].as_ref().map_or(false, |x| x.sender().same_channel(r.sender()));
            if *tracked && is_reg {
                eq("last event of a tracked actor after shutdown", log.lock().last().cloned(), Some(Ev::Stopped))?;
            }
        }
    }
    ensure(sys.is_terminated(), "terminated after shutdown")
}

/// Actors that stop while starting, on a runtime whose other threads may run them before they are registered.
async fn early(n: usize) -> CaseResult {
    let sys = ActorSystem::new();
    for i in 0..n {
        let s = Sub { log: Default::default(), fail: true };
        let _ = if i % 2 == 0 { sys.new_actor(uid("e"), s, ActorType::Tracked).await.map(|_| ()) } else { sys.new_actor_deferred(uid("e"), s, ActorType::Tracked).await; Ok(()) };
    }
    for _ in 0..2000 {
        if sys.scheduler().send(ActorCount).await == Ok(0) {
            return Ok(());
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    Err("actors that have stopped are still registered".into())
}

/// Actors that stop on their own while the system shuts down: shutdown returns, and every stop is answered.
async fn closing(n: usize) -> CaseResult {
    for i in 0..n {
        let sys = ActorSystem::new();
        let mut v = vec![];
        for k in 0..4 {
            v.push(sys.new_actor(format!("c{i}-{k}"), Sub { log: Default::default(), fail: false }, ActorType::Tracked).await.map_err(|e| format!("{e:?}"))?);
        }
        let hs: Vec<_> = v.iter().cloned().map(|r| tokio::spawn(async move { let _ = r.stop().await; })).collect();
        let s = sys.clone();
        let h = tokio::spawn(async move { s.shutdown().await });
        ensure(tokio::time::timeout(Duration::from_secs(4), h).await.is_ok(), format!("round {i}: shutdown does not return while actors are stopping"))?;
        for h in hs {
            ensure(tokio::time::timeout(Duration::from_secs(4), h).await.is_ok(), format!("round {i}: a stop request is never answered"))?;
        }
    }
    Ok(())
}

/// Different systems in the same process do not see each other's actors.
pub async fn registry(cx: &mut Cx) {
    let max = if cx.thorough { 4 } else { 3 };
    let mut ws = words(&[G::T(0), G::D(0), G::F(0), G::An(0), G::Xn(0), G::Xo(0), G::T(1), G::Xn(1)], max);
    let mut r = cx.rng(51);
    for _ in 0..if cx.thorough { 600 } else { 150 } {
        ws.push((0..7).map(|_| *r.pick(&[G::T(0), G::T(0), G::D(0), G::F(0), G::An(0), G::Xn(0), G::Xo(0), G::T(1), G::D(1), G::Xo(1), G::F(1)])).collect());
    }
    let n = if cx.thorough { 40000 } else { 6000 };
    cx.case("early-stop", format!("{n} actors"), move || early(n)).await;
    cx.case("shutdown", format!("{} systems", n / 4), move || closing(n / 4)).await;
    for w in ws {
        cx.case("registry", format!("{w:?}"), move || registry_case(w.clone())).await;
    }
}

// ------------------------------------------------------------------------------------------------ timers

#[derive(Clone)]
pub struct Tick;
impl Message for Tick {
    type Result = ();
}
impl TimerTick for Tick {}
pub struct Ticked {
    at: Arc<Mutex<Vec<(Instant, Instant)>>>,
    takes: u64,
    stop_after: usize,
}
impl Actor for Ticked {}
#[async_trait]
impl Handler<Tick> for Ticked {
    async fn handle(&mut self, _: Tick, ctx: &mut ActorContext) {
        let t = Instant::now();
        tokio::time::sleep(Duration::from_millis(self.takes)).await;
        let n = {
            let mut v = self.at.lock();
            v.push((t, Instant::now()));
            v.len()
        };
        if n == self.stop_after {
            ctx.stop(None);
        }
    }
}
/// Ticks: the first at once or one period later, each at least a period after the one before has been handled,
/// none after the timer is stopped or the actor is gone.
async fn ticks(now: bool, period: u64, takes: u64, how: u8) -> CaseResult {
    let sys = ActorSystem::new();
    let at: Arc<Mutex<Vec<(Instant, Instant)>>> = Default::default();
    let a = sys.new_anon_actor(Ticked { at: at.clone(), takes, stop_after: if how == 1 { 3 } else { 0 } }).await.map_err(|e| format!("{e:?}"))?;
    let p = Duration::from_millis(period);
    let t0 = Instant::now();
    let t = if now { Timer::start_immediately(a.clone(), p, Tick) } else { Timer::start(a.clone(), p, Tick) };
    ensure(crate::peer::until(10000, || at.lock().len() >= 3).await, "the timer does not tick")?;
    let stopped_at = Instant::now();
    let (r, n) = {
        let v = at.lock();
        (if how == 0 { Some(t.stop()) } else { std::mem::forget(t); None }, v.len())
    };
    if let Some(r) = r {
        ensure(r, "stopping a running timer reports failure")?;
    } else {
        ensure(crate::peer::until(3000, || !a.is_valid()).await, "the actor did not stop")?;
    }
    tokio::time::sleep(p * 3 + Duration::from_millis(2 * takes)).await;
    let v = at.lock().clone();
    ensure(v.len() <= n + 1, format!("{} ticks after the timer was stopped", v.len() - n))?;
    for (s, _) in &v[n..] {
        ensure(*s <= stopped_at + Duration::from_millis(5) || v.len() == n + 1 && how == 0 && *s < stopped_at + p, "a tick long after the timer was stopped")?;
    }
    let slack = Duration::from_millis(2);
    ensure(now || v[0].0 + slack >= t0 + p, format!("the first tick came after {:?}, the period is {p:?}", v[0].0 - t0))?;
    if now {
        ensure(v[0].0 < t0 + p.max(Duration::from_millis(40)), "an immediate timer waited for its first period")?;
    }
    for x in v.windows(2) {
        ensure(x[1].0 >= x[0].1, "two ticks at the same time")?;
        ensure(x[1].0 + slack >= x[0].1 + p, format!("ticks {:?} apart, the period is {p:?}", x[1].0 - x[0].1))?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ worker pools

#[derive(Clone)]
pub struct Hand(Arc<Mutex<Vec<(String, u32)>>>);
impl Actor for Hand {}
#[async_trait]
impl Handler<Do> for Hand {
    async fn handle(&mut self, m: Do, ctx: &mut ActorContext) -> u32 {
        self.0.lock().push((ctx.id().to_string(), m.0));
        m.0 + 1000
    }
}
/// Every task is handled once, answered with its own result, and the tasks go around the workers in turn.
async fn pool(size: usize, tasks: usize, gang: bool) -> CaseResult {
    let mut sys = ActorSystem::new();
    let log: Arc<Mutex<Vec<(String, u32)>>> = Default::default();
    let w = Hand(log.clone()).into_worker(size, "hand", &mut sys).await.map_err(|e| format!("{e:?}"))?;
    if gang {
        let hs: Vec<_> = (0..tasks as u32).map(|i| { let mut w = w.clone(); tokio::spawn(async move { w.dispatch(Do(i, false)).await }) }).collect();
        for (i, h) in hs.into_iter().enumerate() {
            eq(&format!("answer of task {i}"), h.await.unwrap(), Ok(i as u32 + 1000))?;
        }
    } else {
        for i in 0..tasks as u32 {
            eq(&format!("answer of task {i}"), w.clone().dispatch(Do(i, false)).await, Ok(i + 1000))?;
        }
    }
    let l = log.lock().clone();
    let mut all: Vec<u32> = l.iter().map(|x| x.1).collect();
    all.sort();
    eq("tasks handled", all, (0..tasks as u32).collect())?;
    for k in 1..=size {
        let n = l.iter().filter(|x| x.0 == format!("hand-{k}")).count();
        ensure(n == tasks / size || n == (tasks + size - 1) / size, format!("worker {k} of {size} got {n} of {tasks} tasks"))?;
    }
    Ok(())
}

pub async fn timer(cx: &mut Cx) {
    for now in [true, false] {
        for (period, takes) in [(10, 0), (5, 12), (40, 3)] {
            for how in [0, 1] {
                cx.case("timer", format!("immediate={now} period={period}ms takes={takes}ms stopped-by={}", ["timer", "actor"][how as usize]), move || ticks(now, period, takes, how)).await;
            }
        }
    }
    for size in 1..=5 {
        for tasks in [0, 1, size - 1, size, size + 1, 3 * size + 2] {
            for gang in [false, true] {
                cx.case("pool", format!("workers={size} tasks={tasks} at-once={gang}"), move || pool(size, tasks, gang)).await;
            }
        }
    }
}
