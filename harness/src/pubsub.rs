//! Executable contracts of publish and subscribe: one real node with two scripted other nodes. A message that is
//! published under a topic and key reaches every actor that is subscribed to them once and in order, and, if it is
//! published to the cluster, every other node of the cluster once.
use crate::core::*;
use crate::peer::*;
use crate::remote::{free_port, Dialer};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::{Actor, IntoActor, LocalActorRef};
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::remote::cluster::node::RemoteNode;
use coerce::remote::net::message::SessionEvent;
use coerce::remote::net::proto::network as proto;
use coerce::remote::net::StreamData;
use coerce::remote::stream::mediator::{Publish, PublishErr, PublishRaw, Reach};
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription, Topic};
use coerce::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use coerce::remote::system::RemoteActorSystem;
use parking_lot::Mutex;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
struct Num(u32);
/// 13 cannot be written; bytes that do not begin with 7 cannot be read
impl StreamData for Num {
    fn read_from_bytes(d: Vec<u8>) -> Option<Self> {
        match d.as_slice() {
            [7, a, b, c, e] => Some(Num(u32::from_be_bytes([*a, *b, *c, *e]))),
            _ => None,
        }
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        let b = self.0.to_be_bytes();
        (self.0 != 13).then(|| vec![7, b[0], b[1], b[2], b[3]])
    }
}
struct Other(#[allow(dead_code)] u32);
impl StreamData for Other {
    fn read_from_bytes(_: Vec<u8>) -> Option<Self> {
        None
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        Some(vec![1])
    }
}
struct A(String);
struct B(String);
/// has the name of A
struct C(String);
/// nobody ever subscribes to it
struct D(String);
macro_rules! topic {
    ($t:ident, $m:ty, $n:expr) => {
        impl Topic for $t {
            type Message = $m;
            fn topic_name() -> &'static str {
                $n
            }
            fn key(&self) -> String {
                self.0.clone()
            }
        }
    };
}
topic!(A, Num, "topic-a");
topic!(B, Num, "topic-b");
topic!(C, Other, "topic-a");
topic!(D, Num, "topic-d");

type Got = Arc<Mutex<Vec<String>>>;
struct Sub {
    got: Got,
    subs: Vec<Subscription>,
}
impl Actor for Sub {}
struct Join(u8, String);
struct Leave;
impl Message for Join {
    type Result = bool;
}
impl Message for Leave {
    type Result = ();
}
#[async_trait]
impl Handler<Join> for Sub {
    async fn handle(&mut self, m: Join, ctx: &mut ActorContext) -> bool {
        let r = match m.0 {
            0 => PubSub::subscribe::<Self, A>(A(m.1), ctx).await,
            1 => PubSub::subscribe::<Self, B>(B(m.1), ctx).await,
            _ => PubSub::subscribe::<Self, C>(C(m.1), ctx).await,
        };
        match r {
            Ok(s) => {
                self.subs.push(s);
                true
            }
            Err(_) => false,
        }
    }
}
#[async_trait]
impl Handler<Leave> for Sub {
    async fn handle(&mut self, _: Leave, _: &mut ActorContext) {
        if self.subs.len() % 2 == 0 {
            self.subs.iter_mut().for_each(|s| s.unsubscribe());
        }
        self.subs.clear();
    }
}
macro_rules! receive {
    ($t:ident, $f:expr) => {
        #[async_trait]
        impl Handler<Receive<$t>> for Sub {
            async fn handle(&mut self, m: Receive<$t>, _: &mut ActorContext) {
                let f: fn(&<$t as Topic>::Message) -> String = $f;
                self.got.lock().push(f(&m.0));
            }
        }
    };
}
receive!(A, |n| format!("a{}", n.0));
receive!(B, |n| format!("b{}", n.0));
receive!(C, |_| "c".to_string());

#[derive(Clone)]
struct Fix {
    remote: RemoteActorSystem,
    log: Log,
    dialer: Arc<Dialer>,
}
static SERIAL: AtomicU64 = AtomicU64::new(0);

fn published(log: &Log, key: &str) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for (n, e) in log.lock().iter() {
        if let SessionEvent::StreamPublish(p) = e {
            if p.key.starts_with(key) {
                *m.entry(format!("{n} {} {} {:?}", p.topic, &p.key[key.len()..], p.message)).or_insert(0) += 1;
            }
        }
    }
    m
}
impl Fix {
    async fn system(&self, e: ClusterEvent) {
        PubSub::publish_locally(SystemTopic, SystemEvent::Cluster(e), &self.remote).await
    }
    /// Waits until publications reach node 2 and, as said, node 3 too or no longer.
    async fn reach(&self, three: bool) -> CaseResult {
        for _ in 0..150 {
            let key = format!("probe-{}-", SERIAL.fetch_add(1, Ordering::SeqCst));
            PubSub::publish(D(key.clone()), Num(1), &self.remote).await;
            let has = |n: u64| published(&self.log, &key).keys().any(|k| k.starts_with(&format!("{n} ")));
            ensure(until(3000, || has(2)).await, "a publication to the cluster does not reach node 2".to_string())?;
            // (the nodes are given it one after the other)
            if three && until(10, || has(3)).await {
                return Ok(());
            }
            if !three && !until(10, || has(3)).await {
                return Ok(());
            }
        }
        Err(if three { "a node that was added is not given publications".into() } else { "a node that was removed is still given publications".into() })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// actor, topic, key
    Join(usize, u8, u8),
    Leave(usize),
    Stop(usize),
    /// topic, key, to the cluster
    Pub(u8, u8, bool),
    /// to the cluster, of a value that cannot be written
    Unwritable(u8),
    /// from another node: topic, key, readable
    Raw(u8, u8, bool),
    /// the same over a connection
    Wire(u8, u8),
    /// node 3 leaves the cluster, joins it; this node is announced itself
    Drop3,
    Add3,
    AddSelf,
}
const NAMES: [&str; 4] = ["topic-a", "topic-b", "topic-a", "topic-d"];
const LETTER: [&str; 4] = ["a", "b", "c", "d"];

struct Model {
    /// subscriptions in the order they were made (topic, key), whether it runs
    subs: Vec<(u8, u8)>,
    alive: bool,
    want: Vec<String>,
}

async fn run(f: Fix, word: Vec<Op>) -> CaseResult {
    let tag = format!("k{}-", SERIAL.fetch_add(1, Ordering::SeqCst));
    let key = |k: u8| format!("{tag}{}", ["", "x"][k as usize]);
    let sys = f.remote.actor_system();
    let mut actors: Vec<(LocalActorRef<Sub>, Got)> = vec![];
    let mut ms: Vec<Model> = vec![];
    for i in 0..2 {
        let got: Got = Default::default();
        let a = Sub { got: got.clone(), subs: vec![] }.into_actor(Some(format!("{tag}{i}")), sys).await.map_err(|e| format!("{e:?}"))?;
        actors.push((a, got));
        ms.push(Model { subs: vec![], alive: true, want: vec![] });
    }
    let mut wire: BTreeMap<String, usize> = BTreeMap::new();
    let mut three = true;
    let mut n = 100u32;
    let mut ops = word.clone();
    // a last message to every topic and key
    ops.extend([Op::Pub(0, 0, false), Op::Pub(0, 1, false), Op::Pub(1, 0, false), Op::Pub(1, 1, false)]);
    for op in ops {
        n += 1;
        let mut deliver: Option<(u8, u8)> = None;
        match op {
            Op::Join(a, t, k) => {
                let r = actors[a].0.send(Join(t, key(k))).await;
                match (ms[a].alive, t) {
                    (false, _) => ensure(r.is_err(), "an actor that has stopped answered")?,
                    (_, 2) => eq("subscribing with another type of the same name", r.ok(), Some(false))?,
                    _ => {
                        eq(&format!("{op:?}"), r.ok(), Some(true))?;
                        ms[a].subs.push((t, k));
                    }
                }
            }
            Op::Leave(a) => {
                let _ = actors[a].0.send(Leave).await;
                ms[a].subs.clear();
            }
            Op::Stop(a) => {
                let _ = actors[a].0.stop().await;
                ms[a].alive = false;
            }
            Op::Pub(t, k, cluster) => {
                match (t, cluster) {
                    (0, true) => PubSub::publish(A(key(k)), Num(n), &f.remote).await,
                    (0, _) => PubSub::publish_locally(A(key(k)), Num(n), &f.remote).await,
                    (1, true) => PubSub::publish(B(key(k)), Num(n), &f.remote).await,
                    (1, _) => PubSub::publish_locally(B(key(k)), Num(n), &f.remote).await,
                    (2, true) => PubSub::publish(C(key(k)), Other(n), &f.remote).await,
                    (2, _) => PubSub::publish_locally(C(key(k)), Other(n), &f.remote).await,
                    (_, true) => PubSub::publish(D(key(k)), Num(n), &f.remote).await,
                    _ => PubSub::publish_locally(D(key(k)), Num(n), &f.remote).await,
                }
                if cluster {
                    for node in if three { vec![2, 3] } else { vec![2] } {
                        let b = if t == 2 { Other(n).write_to_bytes() } else { Num(n).write_to_bytes() };
                        *wire.entry(format!("{node} {} {} {:?}", NAMES[t as usize], &key(k)[tag.len()..], b.unwrap())).or_insert(0) += 1;
                    }
                }
                if t < 2 {
                    deliver = Some((t, k));
                }
            }
            Op::Unwritable(k) => {
                let r = f.remote.stream_mediator().unwrap().send(Publish { topic: A(key(k)), message: Num(13), reach: Reach::Cluster }).await;
                ensure(matches!(r, Ok(Err(PublishErr::SerializationErr))), format!("a message that cannot be written was published: {r:?}"))?;
                for m in ms.iter_mut().filter(|m| m.alive) {
                    for _ in m.subs.iter().filter(|s| **s == (0, k)) {
                        m.want.push("a13".into());
                    }
                }
            }
            Op::Raw(t, k, good) => {
                let message = if good { Num(n).write_to_bytes().unwrap() } else { vec![8, 8] };
                let r = f.remote.stream_mediator().unwrap().send(PublishRaw { topic: NAMES[t as usize].to_string(), key: key(k), message }).await;
                ensure(r.is_ok(), format!("the mediator has ended: {r:?}"))?;
                if good && t < 2 {
                    deliver = Some((t, k));
                }
            }
            // (if nobody is subscribed nobody can tell when it has arrived)
            Op::Wire(t, k) if !ms.iter().any(|m| m.alive && m.subs.contains(&(t, k))) => {}
            Op::Wire(t, k) => {
                f.dialer.send(&SessionEvent::StreamPublish(
                    proto::StreamPublishEvent { topic: NAMES[t as usize].to_string(), key: key(k), message: Num(n).write_to_bytes().unwrap(), ..Default::default() }.into(),
                ));
                deliver = Some((t, k));
            }
            Op::Drop3 => {
                f.system(ClusterEvent::NodeRemoved(Arc::new(RemoteNode::new(3, String::new(), String::new(), None, Default::default())))).await;
                three = false;
                f.reach(three).await?;
            }
            Op::Add3 => {
                f.system(ClusterEvent::NodeAdded(Arc::new(RemoteNode::new(3, String::new(), String::new(), None, Default::default())))).await;
                three = true;
                f.reach(three).await?;
            }
            Op::AddSelf => {
                f.system(ClusterEvent::NodeAdded(Arc::new(RemoteNode::new(1, String::new(), String::new(), None, Default::default())))).await;
                f.reach(three).await?;
            }
        }
        if let Some((t, k)) = deliver {
            for m in ms.iter_mut().filter(|m| m.alive) {
                for _ in m.subs.iter().filter(|s| **s == (t, k)) {
                    m.want.push(format!("{}{n}", LETTER[t as usize]));
                }
            }
        }
        // (what was published before a subscription is given up or its actor stopped is handed over first)
        for (i, m) in ms.iter().enumerate() {
            let (got, want) = (&actors[i].1, &m.want);
            until(3000, || got.lock().len() >= want.len()).await;
            eq(&format!("messages given to subscriber {i} up to {op:?}"), got.lock().clone(), want.clone())?;
        }
    }
    let w = wire.clone();
    until(3000, || published(&f.log, &tag) == w).await;
    tokio::time::sleep(Duration::from_millis(1)).await;
    for (i, m) in ms.iter().enumerate() {
        eq(&format!("messages given to subscriber {i}"), actors[i].1.lock().clone(), m.want.clone())?;
    }
    let got = published(&f.log, &tag);
    for (a, _) in actors {
        let _ = a.stop().await;
    }
    if !three {
        f.system(ClusterEvent::NodeAdded(Arc::new(RemoteNode::new(3, String::new(), String::new(), None, Default::default())))).await;
        f.reach(true).await?;
    }
    eq("publications given to the other nodes", got, wire)
}

/// A subscriber that falls behind misses messages, but what is published later still reaches it.
fn lagging() -> CaseResult {
    let t = std::thread::spawn(|| {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        rt.block_on(async {
            let remote = node(InMemoryStorageProvider::new(), 1, |c| c).await;
            let got: Got = Default::default();
            let a = Sub { got: got.clone(), subs: vec![] }.into_actor(Some("slow".to_string()), remote.actor_system()).await.map_err(|e| format!("{e:?}"))?;
            let _ = a.send(Join(0, String::new())).await;
            let m = remote.stream_mediator().unwrap().clone();
            for round in 0..6u32 {
            let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
            for _ in 0..8 {
                let stop = stop.clone();
                tokio::spawn(async move {
                    while !stop.load(Ordering::SeqCst) {
                        std::thread::sleep(Duration::from_millis(3));
                        tokio::task::yield_now().await;
                    }
                });
            }
            // (this thread is not one of the workers)
            for i in round * 100_000..round * 100_000 + 60_000 {
                let _ = m.notify(Publish { topic: A(String::new()), message: Num(i), reach: Reach::Local });
            }
            tokio::time::timeout(Duration::from_secs(15), m.send(Publish { topic: A(String::new()), message: Num(round * 100_000 + 60_000), reach: Reach::Local })).await.map_err(|_| "the mediator is stuck".to_string())?.map_err(|e| format!("{e}"))?.map_err(|e| format!("{e:?}"))?;
            stop.store(true, Ordering::SeqCst);
            tokio::time::sleep(Duration::from_millis(20)).await;
            let mut last = round * 100_000 + 70_000;
            let ok = {
                let mut ok = false;
                for _ in 0..20 {
                    last += 1;
                    PubSub::publish(A(String::new()), Num(last), &remote).await;
                    let (g, w) = (got.clone(), format!("a{last}"));
                    if until(200, move || g.lock().iter().any(|x| *x == w)).await {
                        ok = true;
                        break;
                    }
                }
                ok
            };
            let v: Vec<u32> = got.lock().iter().map(|s| s[1..].parse().unwrap()).collect();
            ensure(v.windows(2).all(|w| w[0] < w[1]), "messages out of order or twice".to_string())?;
            ensure(ok, format!("a subscriber that fell behind (it got {} of {} messages) gets nothing any more", v.len(), 60_001 * (round + 1)))?;
            }
            Ok(())
        })
    });
    t.join().unwrap_or_else(|_| Err("panic".into()))
}

/// Nobody else is known: a publication to the cluster goes to the subscribers here, and nothing is given to others; a node that joins is given what is published from then on.
async fn joining() -> CaseResult {
    let log: Log = Default::default();
    let peer = Peer::start(2, log.clone(), Arc::new(|_, _| vec![])).await;
    tokio::task::block_in_place(|| {
        tokio::runtime::Handle::current().block_on(async {
            let remote = node(InMemoryStorageProvider::new(), 1, |c| c).await;
            let r = remote.stream_mediator().unwrap().send(Publish { topic: A("j".into()), message: Num(13), reach: Reach::Cluster }).await;
            ensure(matches!(r, Ok(Ok(()))), format!("nothing has to be written, but: {r:?}"))?;
            join(&remote, &peer).await;
            let l = log.clone();
            let mut n = 0;
            let mut ok = false;
            while n < 100 && !ok {
                n += 1;
                PubSub::publish(A("j".into()), Num(n), &remote).await;
                ok = until(30, || !published(&l, "j").is_empty()).await;
            }
            ensure(ok, "a node that joined is not given publications".to_string())?;
            remote.actor_system().shutdown().await;
            Ok(())
        })
    })
}

pub async fn pubsub(cx: &mut Cx) {
    let log: Log = Default::default();
    let p2 = Peer::start(2, log.clone(), Arc::new(|_, _| vec![])).await;
    let p3 = Peer::start(3, log.clone(), Arc::new(|_, _| vec![])).await;
    let remote = node(InMemoryStorageProvider::new(), 1, |c| c).await;
    let addr = format!("127.0.0.1:{}", free_port());
    let server = remote.clone().cluster_worker().listen_addr(addr.clone()).start().await;
    std::mem::forget(server);
    let dialer = Arc::new(Dialer::dial(&addr).await);
    dialer.identify(2);
    join(&remote, &p2).await;
    join(&remote, &p3).await;
    let f = Fix { remote, log, dialer };
    // (A is the topic its name is known for)
    let got: Got = Default::default();
    if let Ok(a) = (Sub { got, subs: vec![] }).into_actor(Some("first".to_string()), f.remote.actor_system()).await {
        let _ = a.send(Join(0, "first".into())).await;
    }
    let clause = "a publication reaches every subscriber of its topic and key and every other node once";
    let ff = f.clone();
    cx.case(clause, "two nodes join".into(), move || {
        let f = ff.clone();
        async move { f.reach(true).await }
    })
    .await;
    cx.case(clause, "a node joins later".into(), joining).await;
    let alphabet = vec![
        Op::Join(0, 0, 0),
        Op::Join(0, 0, 1),
        Op::Join(1, 0, 0),
        Op::Join(1, 1, 0),
        Op::Join(1, 2, 0),
        Op::Leave(0),
        Op::Stop(0),
        Op::Pub(0, 0, true),
        Op::Pub(0, 1, false),
        Op::Pub(1, 0, true),
        Op::Pub(2, 0, true),
        Op::Raw(0, 0, true),
        Op::Raw(0, 0, false),
        Op::Raw(3, 0, true),
        Op::Wire(0, 0),
        Op::Unwritable(0),
    ];
    for w in words(&alphabet, if cx.thorough { 4 } else { 3 }) {
        // without a subscription only what goes to other nodes can be seen: shorter words suffice
        if w.len() > 2 && !w.iter().any(|o| matches!(o, Op::Join(..))) {
            continue;
        }
        let ff = f.clone();
        cx.case(clause, format!("{w:?}"), move || run(ff.clone(), w.clone())).await;
    }
    let mut more = alphabet.clone();
    more.extend([Op::Pub(3, 0, true), Op::Pub(0, 0, true), Op::Pub(1, 1, true), Op::Drop3, Op::Add3, Op::AddSelf, Op::Join(0, 1, 1), Op::Join(1, 0, 1)]);
    let mut r = cx.rng(19);
    for _ in 0..if cx.thorough { 2000 } else { 150 } {
        let w: Vec<Op> = (0..9).map(|_| *r.pick(&more)).collect();
        let ff = f.clone();
        cx.case(clause, format!("random {w:?}"), move || run(ff.clone(), w.clone())).await;
    }
    cx.check("a subscriber that falls behind keeps its subscription", "a burst of 60000 messages while the workers are busy".into(), lagging).await;
}
