//! Executable contracts of the cluster singleton: one real node with two scripted other nodes, whose managers ask
//! for and acknowledge leases. The singleton is started once every other manager has acknowledged it, is stopped
//! before the lease is given away, and every message given to it is handed over once and answered.
use crate::core::*;
use crate::peer::*;
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::{Actor, IntoActorId};
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::remote::cluster::node::{RemoteNode, RemoteNodeRef};
use coerce::remote::net::message::SessionEvent;
use coerce::remote::stream::pubsub::PubSub;
use coerce::remote::stream::system::{ClusterEvent, ClusterMemberUp, SystemEvent, SystemTopic};
use coerce::remote::system::RemoteActorSystem;
use coerce::singleton::factory::SingletonFactory;
use coerce::singleton::{singleton as handlers, SingletonBuilder};
use parking_lot::Mutex;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::Semaphore;

#[derive(Default)]
struct Seen {
    created: usize,
    running: usize,
    most: usize,
    stopped: usize,
    handled: Vec<u32>,
}
type Log2 = Arc<Mutex<Seen>>;

struct Single(Log2, Arc<Semaphore>);
#[async_trait]
impl Actor for Single {
    async fn started(&mut self, _: &mut ActorContext) {
        let mut s = self.0.lock();
        s.running += 1;
        s.most = s.most.max(s.running);
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        self.1.acquire().await.unwrap().forget();
        let mut s = self.0.lock();
        s.running -= 1;
        s.stopped += 1;
    }
}
struct Factory(Log2, Arc<Semaphore>);
impl SingletonFactory for Factory {
    type Actor = Single;
    fn create(&self) -> Single {
        self.0.lock().created += 1;
        Single(self.0.clone(), self.1.clone())
    }
}
struct Echo(u32);
impl Message for Echo {
    type Result = u32;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(self.0.to_be_bytes().to_vec())
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        Ok(Echo(num(&b)))
    }
    fn read_remote_result(b: Vec<u8>) -> Result<u32, MessageUnwrapErr> {
        Ok(num(&b))
    }
    fn write_remote_result(r: u32) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(r.to_be_bytes().to_vec())
    }
}
fn num(b: &[u8]) -> u32 {
    b.iter().fold(0, |a, x| a << 8 | *x as u32)
}
#[async_trait]
impl Handler<Echo> for Single {
    async fn handle(&mut self, m: Echo, _: &mut ActorContext) -> u32 {
        self.0.lock().handled.push(m.0);
        m.0 + 1000
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// the cluster is up: leader, whether node 2 and node 3 are members
    Up(u64, bool, bool),
    Add(u64),
    Removed(u64),
    Leader(u64),
    /// from the manager of the node: it asks for the lease, acknowledges, its singleton has started, stops
    Lease(u64),
    Ack(u64),
    Started(u64),
    Stopped(u64),
    Send,
    Notify,
    /// the singleton that was told to stop has stopped
    Gone,
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Joining(Option<u64>),
    Idle,
    Starting(BTreeSet<u64>),
    Running,
    Stopping(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Px {
    Keep,
    Local,
    Remote(u64),
}
struct Model {
    st: St,
    managers: BTreeSet<u64>,
    px: Px,
    kept: Vec<u32>,
    /// what the managers of the other nodes are told, in order
    told: BTreeMap<u64, Vec<String>>,
    created: usize,
    here: BTreeSet<u32>,
    there: BTreeMap<u64, BTreeSet<u32>>,
}
impl Model {
    fn new() -> Model {
        Model { st: St::Joining(None), managers: Default::default(), px: Px::Keep, kept: vec![], told: Default::default(), created: 0, here: Default::default(), there: Default::default() }
    }
    fn tell(&mut self, n: u64, what: &str) {
        if self.managers.contains(&n) {
            self.told.entry(n).or_default().push(what.to_string())
        }
    }
    fn all(&mut self, what: &str) {
        for n in self.managers.clone() {
            self.tell(n, what)
        }
    }
    fn give(&mut self, m: u32) {
        match self.px {
            Px::Keep => self.kept.push(m),
            Px::Local => {
                self.here.insert(m);
            }
            Px::Remote(n) => {
                self.there.entry(n).or_default().insert(m);
            }
        }
    }
    fn active(&mut self, px: Px) {
        self.px = px;
        for m in std::mem::take(&mut self.kept) {
            self.give(m)
        }
    }
    fn start(&mut self) {
        self.created += 1;
        self.st = St::Running;
        self.active(Px::Local);
        self.all("SingletonStarted 1");
    }
    fn starting(&mut self) {
        self.st = St::Starting(Default::default());
        if self.managers.is_empty() {
            self.start()
        } else {
            self.all("RequestLease 1")
        }
    }
    fn complete(&mut self) {
        if matches!(&self.st, St::Starting(a) if *a == self.managers) {
            self.start()
        }
    }
    /// Whether the operation is part of the histories the contract speaks about.
    fn fits(&self, op: Op) -> bool {
        let joining = matches!(self.st, St::Joining(_));
        match op {
            Op::Up(..) => joining,
            // the contract says nothing about a manager that becomes the leader again while its singleton stops
            Op::Leader(n) => n != 1 || !matches!(self.st, St::Stopping(_)),
            Op::Gone => matches!(self.st, St::Stopping(_)),
            // a message on its way to a singleton that is being stopped may be refused
            Op::Send | Op::Notify => !(matches!(self.st, St::Stopping(_)) && self.px == Px::Local),
            _ => true,
        }
    }
    fn step(&mut self, op: Op, m: u32) {
        match op {
            Op::Up(leader, two, three) => {
                if two {
                    self.managers.insert(2);
                }
                if three {
                    self.managers.insert(3);
                }
                if let St::Joining(Some(n)) = std::mem::replace(&mut self.st, St::Idle) {
                    self.tell(n, "LeaseAck 1")
                }
                if leader == 1 {
                    self.starting()
                }
            }
            Op::Add(n) => {
                if n != 1 && self.managers.insert(n) {
                    match self.st {
                        St::Starting(_) => self.tell(n, "RequestLease 1"),
                        St::Running => self.tell(n, "SingletonStarted 1"),
                        _ => {}
                    }
                }
            }
            Op::Removed(n) => {
                self.managers.remove(&n);
                if let St::Starting(a) = &mut self.st {
                    a.remove(&n);
                }
                self.complete()
            }
            Op::Leader(n) => {
                if n == 1 && matches!(self.st, St::Idle) {
                    self.starting()
                }
            }
            Op::Lease(n) => match &mut self.st {
                St::Joining(p) => *p = Some(n),
                St::Idle => self.tell(n, "LeaseAck 1"),
                St::Starting(_) => {}
                St::Stopping(p) => *p = n,
                St::Running => {
                    self.st = St::Stopping(n);
                    if self.px != Px::Keep {
                        self.px = Px::Keep
                    }
                    self.all("SingletonStopped 1")
                }
            },
            Op::Ack(n) => {
                let known = self.managers.contains(&n);
                if let St::Starting(a) = &mut self.st {
                    if known {
                        a.insert(n);
                        self.complete()
                    }
                }
            }
            Op::Started(n) => self.active(Px::Remote(n)),
            Op::Stopped(_) => self.px = Px::Keep,
            Op::Send | Op::Notify => self.give(m),
            Op::Gone => {
                if let St::Stopping(n) = self.st {
                    self.st = St::Idle;
                    self.tell(n, "LeaseAck 1")
                }
            }
        }
    }
}

fn noderef(id: u64) -> RemoteNodeRef {
    Arc::new(RemoteNode::new(id, String::new(), String::new(), None, Default::default()))
}
/// What the manager of the node was told, and what the singleton there was given.
fn frames(log: &Log, node: u64) -> (Vec<String>, Vec<u32>, bool) {
    let (mut told, mut given, mut odd) = (vec![], vec![], false);
    for (n, e) in log.lock().iter() {
        if let (true, SessionEvent::NotifyActor(m)) = (*n == node, e) {
            if m.handler_type == "Single.Echo" {
                given.push(num(&m.message));
                odd |= m.actor_id != Single::type_name();
            } else {
                let id = if m.message.is_empty() { 0 } else { num(&m.message[1..]) };
                told.push(format!("{} {id}", m.handler_type.rsplit('.').next().unwrap()));
                odd |= m.actor_id != format!("singleton-manager<{}>-{node}", Single::type_name());
            }
        }
    }
    (told, given, odd)
}

async fn history(word: Vec<Op>) -> CaseResult {
    let log: Log = Default::default();
    let script: Script = Arc::new(|_, e| match e {
        SessionEvent::NotifyActor(m) if m.handler_type == "Single.Echo" => vec![result_of(&m.message_id, (num(&m.message) + 1000).to_be_bytes().to_vec())],
        SessionEvent::NotifyActor(m) if m.requires_response => vec![result_of(&m.message_id, vec![])],
        _ => vec![],
    });
    let p2 = Peer::start(2, log.clone(), script.clone()).await;
    let p3 = Peer::start(3, log.clone(), script).await;
    tokio::task::block_in_place(|| {
        tokio::runtime::Handle::current().block_on(async {
            let remote = node(InMemoryStorageProvider::new(), 1, |c| handlers::<Factory>(c).with_handler::<Single, Echo>("Single.Echo")).await;
            join(&remote, &p2).await;
            join(&remote, &p3).await;
            tokio::time::sleep(Duration::from_millis(5)).await;
            let r = {
                let gate = Arc::new(Semaphore::new(0));
                let r = drive(&remote, &log, gate.clone(), word).await;
                gate.add_permits(99);
                r
            };
            remote.actor_system().shutdown().await;
            r
        })
    })
}

async fn drive(remote: &RemoteActorSystem, log: &Log, gate: Arc<Semaphore>, word: Vec<Op>) -> CaseResult {
    let seen: Log2 = Default::default();
    let single = SingletonBuilder::new(remote.clone()).factory(Factory(seen.clone(), gate.clone())).build().await;
    let manager = format!("singleton-manager<{}>-1", Single::type_name());
    let answers: Arc<Mutex<BTreeMap<u32, String>>> = Default::default();
    let mut sent: BTreeSet<u32> = Default::default();
    let mut m = Model::new();
    let mut n = 0u32;
    let mut done = vec![];
    for op in word {
        if !m.fits(op) {
            continue;
        }
        n += 1;
        done.push(op);
        let publish = |e: ClusterEvent| async move { PubSub::publish_locally(SystemTopic, SystemEvent::Cluster(e), remote).await };
        let raw = |name: &str, from: u64| {
            let (h, id) = (format!("SingletonManager<{}>.{name}", Single::type_name()), manager.clone().into_actor_id());
            async move { remote.handle_message(&h, id, &[8, from as u8]).await }
        };
        m.step(op, n);
        match op {
            Op::Up(leader, two, three) => {
                let mut nodes = vec![noderef(1)];
                nodes.extend(two.then(|| noderef(2)));
                nodes.extend(three.then(|| noderef(3)));
                publish(ClusterEvent::MemberUp(ClusterMemberUp { leader_id: leader, nodes })).await
            }
            Op::Add(i) => publish(ClusterEvent::NodeAdded(noderef(i))).await,
            Op::Removed(i) => publish(ClusterEvent::NodeRemoved(noderef(i))).await,
            Op::Leader(i) => publish(ClusterEvent::LeaderChanged(i)).await,
            Op::Lease(i) => eq("the request is taken", raw("RequestLease", i).await.is_ok(), true)?,
            Op::Ack(i) => eq("the acknowledgement is taken", raw("LeaseAck", i).await.is_ok(), true)?,
            Op::Started(i) => eq("the notice is taken", raw("SingletonStarted", i).await.is_ok(), true)?,
            Op::Stopped(i) => eq("the notice is taken", raw("SingletonStopped", i).await.is_ok(), true)?,
            Op::Send => {
                sent.insert(n);
                let (s, a) = (single.clone(), answers.clone());
                tokio::spawn(async move {
                    let r = s.send(Echo(n)).await;
                    a.lock().insert(n, format!("{r:?}"));
                });
            }
            Op::Notify => {
                let r = single.notify(Echo(n)).await;
                ensure(r.is_ok(), format!("notify: {r:?}"))?;
            }
            Op::Gone => gate.add_permits(1),
        }
        // what is published, or sent by a task of its own, is on its way
        tokio::time::sleep(Duration::from_millis(4)).await;
        let at = format!("after {done:?}");
        let stops = matches!(m.st, St::Stopping(_));
        let now = || {
            let s = seen.lock();
            let mut here = s.handled.clone();
            here.sort();
            let mut v = vec![format!("created {} running {}", s.created, s.running), format!("given here {here:?}")];
            for i in [2, 3] {
                let (told, mut given, odd) = frames(log, i);
                given.sort();
                v.push(format!("node {i}: told {told:?} given {given:?}{}", if odd { " to another actor" } else { "" }));
            }
            v.push(format!("answers {:?}", answers.lock()));
            v
        };
        let there = |i: u64| m.there.get(&i).cloned().unwrap_or_default();
        let mut want = vec![
            format!("created {} running {}", m.created, (m.st == St::Running || stops) as usize),
            format!("given here {:?}", m.here.iter().collect::<Vec<_>>()),
        ];
        for i in [2, 3] {
            want.push(format!("node {i}: told {:?} given {:?}", m.told.get(&i).cloned().unwrap_or_default(), there(i).iter().collect::<Vec<_>>()));
        }
        let ans: BTreeMap<u32, String> =
            sent.iter().filter(|x| m.here.contains(x) || m.there.values().any(|s| s.contains(x))).map(|x| (*x, format!("Ok({})", x + 1000))).collect();
        want.push(format!("answers {ans:?}"));
        until(3000, || now() == want).await;
        eq(&at, now(), want)?;
    }
    let most = seen.lock().most;
    eq("most singletons running at once", most <= 1, true)
}

const CLAUSE: &str = "the singleton is started on the leases of all, stopped before its lease is given away, and given every message once";
pub async fn singleton(cx: &mut Cx) {
    use Op::*;
    let fixed: Vec<Vec<Op>> = vec![
        vec![Send, Up(1, false, false), Send, Notify],
        vec![Notify, Send, Send, Up(1, true, true), Ack(2), Ack(2), Send, Ack(3), Send],
        vec![Up(1, true, true), Ack(9), Ack(3), Ack(1), Removed(3), Add(3), Ack(2), Send, Ack(3)],
        vec![Up(1, true, true), Removed(2), Ack(2), Send, Ack(3), Send],
        vec![Up(1, true, false), Ack(2), Send, Add(3), Lease(3), Send, Lease(2), Notify, Gone, Started(2), Send, Stopped(2), Send, Leader(1), Ack(2), Ack(3), Send],
        vec![Lease(2), Lease(3), Leader(1), Up(2, true, true), Send, Started(2), Send, Removed(2), Leader(1), Ack(3), Send],
        vec![Up(2, true, true), Started(2), Send, Started(3), Send, Stopped(3), Send, Send, Started(2), Lease(2), Lease(7), Leader(3)],
        vec![Up(1, true, true), Removed(2), Removed(3), Send, Add(2), Add(2), Add(1), Lease(2), Removed(2), Gone, Add(2), Lease(2)],
        vec![Up(1, true, true), Lease(2), Ack(2), Ack(3), Lease(3), Stopped(2), Send, Gone, Started(3)],
    ];
    for w in fixed {
        cx.case(CLAUSE, format!("{w:?}"), move || history(w.clone())).await;
    }
    let mut r = cx.rng(20);
    let n = if cx.thorough { 1500 } else { 120 };
    for _ in 0..n {
        let mut w = vec![];
        let up = Up(1 + r.below(2) as u64, r.below(3) > 0, r.below(3) > 0);
        let at = r.below(4);
        for i in 0..4 + r.below(12) {
            if i == at {
                w.push(up)
            }
            let node = 2 + r.below(2) as u64;
            w.push(match r.below(16) {
                0 | 1 => Add(1 + r.below(3) as u64),
                2 => Removed(node),
                3 => Leader(1 + r.below(3) as u64),
                4 | 5 => Lease(node),
                6 | 7 | 8 => Ack(node),
                9 => Started(node),
                10 => Stopped(node),
                11 | 12 => Send,
                13 => Notify,
                _ => Gone,
            });
        }
        cx.case(CLAUSE, format!("{w:?}"), move || history(w.clone())).await;
    }
}
