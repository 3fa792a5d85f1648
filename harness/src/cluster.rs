//! Executable contracts of what a node knows of the cluster: the node store and its hash ring, the health of the nodes
//! and the leader. Ticks of the heartbeat are made one by one (the timer is quiet; a node that is unknown is reported
//! terminated, which makes a tick and nothing else).
use crate::core::*;
use crate::peer::*;
use async_trait::async_trait;
use chrono::{DateTime, TimeZone, Utc};
use coerce::actor::context::ActorContext;
use coerce::actor::message::Handler;
use coerce::actor::{Actor, IntoActor};
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::remote::actor::message::NodeTerminated;
use coerce::remote::cluster::node::{NodeStatus, RemoteNode, RemoteNodeState, RemoteNodeStore};
use coerce::remote::heartbeat::{HeartbeatConfig, NodePing, OnLeaderChanged, PingResult};
use coerce::remote::net::proto::network as proto;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription};
use coerce::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use parking_lot::Mutex;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::time::Duration;

fn at(n: i64) -> DateTime<Utc> {
    Utc.timestamp_opt(1_600_000_000 + n, (n as u32 % 7) * 142_857_142 + 1).unwrap()
}
fn attrs(v: u8) -> Arc<HashMap<Arc<str>, Arc<str>>> {
    let mut m: HashMap<Arc<str>, Arc<str>> = HashMap::new();
    for i in 0..v % 3 {
        m.insert(format!("key-{i}").into(), format!("value-{v}").into());
    }
    m.into()
}
/// A node as it registers for the v-th time.
fn described(id: u64, v: u8) -> RemoteNode {
    RemoteNode::new(id, format!("10.0.0.{}:{}", id % 250, 1000 + v as u32 % 2), format!("tag-{}", v / 2), if v == 3 { None } else { Some(at(id as i64 % 1000 + v as i64)) }, attrs(v))
}
type Shown = (u64, String, String, Option<DateTime<Utc>>, BTreeMap<String, String>);
fn show(n: &RemoteNode) -> Shown {
    (n.id, n.addr.clone(), n.tag.clone(), n.node_started_at, n.attributes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect())
}

#[derive(Clone, Debug)]
enum St {
    Add(u64, u8),
    Remove(u64),
    /// health of the nodes as they were known at the start of the history (or one step ago)
    Update(bool),
    Gone(u64),
}
const BIG: u64 = (1 << 63) + 5;

fn store(first: Vec<RemoteNode>, word: Vec<St>) -> CaseResult {
    let mut s = RemoteNodeStore::new(first.clone());
    let mut m: BTreeMap<u64, (Shown, NodeStatus)> = first.iter().map(|n| (n.id, (show(n), NodeStatus::Joining))).collect();
    let begin = s.get_all();
    let mut prev = s.get_all();
    for op in &word {
        let now = s.get_all();
        match op {
            St::Add(id, v) => {
                s.add(described(*id, *v));
                m.insert(*id, (show(&described(*id, *v)), NodeStatus::Joining));
            }
            St::Remove(id) => {
                let r = s.remove(id).map(|n| show(&n));
                eq("removed node", r, m.remove(id).map(|x| x.0))?;
            }
            St::Update(stale) => {
                let mut us: Vec<RemoteNodeState> = if *stale { begin.clone() } else { prev.clone() };
                for u in us.iter_mut() {
                    u.status = NodeStatus::Healthy;
                    u.last_heartbeat = Some(at(5));
                    m.entry(u.id).and_modify(|x| x.1 = NodeStatus::Healthy).or_insert_with(|| (show(&u.clone().into()), NodeStatus::Healthy));
                }
                s.update_nodes(us);
            }
            St::Gone(id) => {
                s.node_terminated(*id);
                if let Some(x) = m.get_mut(id) {
                    x.1 = NodeStatus::Terminated;
                }
            }
        }
        prev = now;
        let mut got: Vec<_> = s.get_all().into_iter().map(|n| (n.id, (show(&n.clone().into()), n.status))).collect();
        got.sort_by_key(|x| x.0);
        eq("known nodes", got, m.iter().map(|(k, v)| (*k, v.clone())).collect())?;
        for id in [1, 2, 3, BIG] {
            eq("registered", s.is_registered(id), m.contains_key(&id))?;
            eq("state of a node", s.get(&id).map(|n| (show(&n.clone().into()), n.status)), m.get(&id).cloned())?;
        }
        // a store that learned of the same nodes in another way agrees on who is in charge of each key
        let mut nodes: Vec<RemoteNode> = s.get_all().into_iter().map(|n| n.into()).collect();
        nodes.sort_by_key(|n| std::cmp::Reverse(n.id));
        let mut other = RemoteNodeStore::new(nodes.clone());
        let mut third = RemoteNodeStore::new(vec![]);
        for n in nodes.iter().rev() {
            // over the wire
            let w: proto::RemoteNode = n.into();
            third.add(w.into());
        }
        for k in 0..24 {
            let key = format!("key-{k}");
            let a = s.get_by_key(&key).map(show);
            eq("node in charge of a key (two stores with the same nodes)", a.clone(), other.get_by_key(&key).map(show))?;
            eq("node in charge of a key (told over the wire)", a.clone(), third.get_by_key(&key).map(show))?;
            match a {
                Some(n) => eq("the node in charge is known as", Some(&n), m.get(&n.0).map(|x| &x.0))?,
                None => ensure(m.is_empty(), "nobody is in charge of a key although nodes are known")?,
            }
        }
    }
    Ok(())
}

fn wire(id: u64, v: u8) -> CaseResult {
    let n = described(id, v);
    let back = |w: proto::RemoteNode| show(&RemoteNode::from(w));
    eq("node over the wire", back((&n).into()), show(&n))?;
    eq("node over the wire (by value)", back(n.clone().into()), show(&n))?;
    let mut s = RemoteNodeState::new(n.clone());
    s.status = NodeStatus::Healthy;
    eq("node state over the wire", back(s.into()), show(&n))?;
    let w: proto::RemoteNode = (&n).into();
    let i = proto::NodeIdentity { node_id: n.id, node_tag: n.tag.clone(), addr: n.addr.clone(), node_started_at: w.node_started_at.clone(), attributes: w.attributes.clone(), ..Default::default() };
    eq("node by its identity", show(&RemoteNode::from(&i)), show(&n))
}

pub async fn nodes(cx: &mut Cx) {
    for id in [0, 1, 7, BIG, u64::MAX - 1] {
        for v in 0..8 {
            cx.check("what a node is told of another node is what that node is", format!("wire {id} {v}"), move || wire(id, v)).await;
        }
    }
    let alphabet = [St::Add(1, 0), St::Add(1, 1), St::Add(2, 0), St::Add(2, 2), St::Add(BIG, 0), St::Add(3, 3), St::Remove(1), St::Remove(2), St::Update(true), St::Update(false), St::Gone(1), St::Gone(BIG)];
    for f in [vec![], vec![described(2, 0)], vec![described(BIG, 1), described(1, 0)]] {
        for w in words(&alphabet, if cx.thorough { 4 } else { 3 }) {
            let (f, w2) = (f.clone(), w.clone());
            let key = format!("{:?} {w:?}", f.iter().map(|n| n.id).collect::<Vec<_>>());
            cx.check("a node has one entry in the store and one place on the ring", key, move || store(f.clone(), w2.clone())).await;
        }
    }
    let mut r = cx.rng(17);
    for _ in 0..if cx.thorough { 20000 } else { 400 } {
        let w: Vec<St> = (0..8).map(|_| match r.below(6) {
            0 | 1 | 2 => St::Add(*r.pick(&[1, 2, 3, BIG]), r.below(8) as u8),
            3 => St::Remove(*r.pick(&[1, 2, 3, BIG])),
            4 => St::Update(r.below(2) == 0),
            _ => St::Gone(*r.pick(&[1, 2, 3, BIG])),
        }).collect();
        let key = format!("random {w:?}");
        cx.check("a node has one entry in the store and one place on the ring", key, move || store(vec![described(2, 0)], w.clone())).await;
    }
}

// ---------------------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Pg {
    Fresh,
    Slow,
    Old,
    Ancient,
    Future,
    Timeout,
    Disconnected,
    Err,
}
#[derive(Clone, Debug)]
enum Hb {
    Ping(usize, Pg),
    Gone(usize),
    Again(usize, i64),
    Wait,
    Tick,
}
struct Listener {
    log: Arc<Mutex<Vec<String>>>,
    sub: Option<Subscription>,
}
#[async_trait]
impl Actor for Listener {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.sub = PubSub::subscribe::<Self, SystemTopic>(SystemTopic, ctx).await.ok();
    }
}
#[async_trait]
impl Handler<Receive<SystemTopic>> for Listener {
    async fn handle(&mut self, m: Receive<SystemTopic>, _: &mut ActorContext) {
        match m.0.as_ref() {
            SystemEvent::Cluster(ClusterEvent::LeaderChanged(n)) => self.log.lock().push(format!("leader {n}")),
            SystemEvent::Cluster(ClusterEvent::MemberUp(u)) => {
                let mut ids: Vec<u64> = u.nodes.iter().map(|n| n.id).collect();
                ids.sort();
                self.log.lock().push(format!("up {} {ids:?}", u.leader_id))
            }
            _ => {}
        }
    }
}
#[derive(Clone, Debug)]
struct Known {
    start: Option<DateTime<Utc>>,
    status: NodeStatus,
    last: Option<DateTime<Utc>>,
    latency: Option<Duration>,
}
const UNHEALTHY: i64 = 1000;
const TERMINATED: i64 = 10000;
fn secs(n: i64) -> chrono::Duration {
    chrono::Duration::seconds(n)
}

async fn beats(ids: Vec<u64>, starts: Vec<Option<i64>>, min: Option<usize>, word: Vec<Hb>) -> CaseResult {
    let me = ids[0];
    // (building a node is not a Send future)
    let remote = tokio::task::block_in_place(|| tokio::runtime::Handle::current().block_on(node(InMemoryStorageProvider::new(), me, move |c| {
        c.heartbeat(HeartbeatConfig {
            unhealthy_node_heartbeat_timeout: Duration::from_secs(UNHEALTHY as u64),
            terminated_node_heartbeat_timeout: Duration::from_secs(TERMINATED as u64),
            minimum_cluster_size: min,
            ..quiet_heartbeat()
        })
    })));
    let log = Arc::new(Mutex::new(vec![]));
    let l = Listener { log: log.clone(), sub: None }.into_actor(Some("listener".to_string()), remote.actor_system()).await.map_err(|e| format!("{e:?}"))?;
    let mut m: BTreeMap<u64, Known> = BTreeMap::new();
    let mut pings: BTreeMap<u64, (Pg, DateTime<Utc>)> = BTreeMap::new();
    let mut leader: Option<u64> = None;
    let mut up = false;
    let mut events: Vec<String> = vec![];
    let mut waiting: Vec<tokio::sync::oneshot::Receiver<u64>> = vec![];
    let mut regs = 0;
    let mut ops: Vec<Hb> = vec![];
    for (i, s) in starts.iter().enumerate() {
        ops.push(Hb::Again(i, s.unwrap_or(i64::MIN)));
    }
    ops.push(Hb::Tick);
    ops.extend(word);
    for op in ops {
        let mut tick = true;
        match &op {
            Hb::Again(i, s) => {
                regs += 1;
                let start = if *s == i64::MIN { None } else { Some(at(*s)) };
                remote.register_node(RemoteNode::new(ids[*i], format!("127.0.0.1:{}", 1 + regs), format!("n{i}"), start, attrs(0))).await;
                m.insert(ids[*i], Known { start, status: NodeStatus::Joining, last: None, latency: None });
                tick = false;
            }
            Hb::Ping(i, p) => {
                let now = Utc::now();
                let t = match p {
                    Pg::Old => now - secs(UNHEALTHY + 100),
                    Pg::Ancient => now - secs(TERMINATED + 100),
                    Pg::Future => now + secs(500),
                    _ => now,
                };
                let lat = Duration::from_secs(if *p == Pg::Slow { UNHEALTHY as u64 + 100 } else { 1 });
                let r = match p {
                    Pg::Timeout => PingResult::Timeout,
                    Pg::Disconnected => PingResult::Disconnected,
                    Pg::Err => PingResult::Err,
                    _ => PingResult::Ok(proto::PongEvent::default(), lat, t),
                };
                remote.heartbeat().send(NodePing(ids[*i], r)).await.map_err(|e| format!("{e}"))?;
                pings.insert(ids[*i], (*p, t));
            }
            Hb::Gone(i) => {
                pings.remove(&ids[*i]);
                if let Some(k) = m.get_mut(&ids[*i]) {
                    k.status = NodeStatus::Terminated;
                }
            }
            Hb::Wait => {
                let (tx, rx) = tokio::sync::oneshot::channel();
                remote.heartbeat().send(OnLeaderChanged(tx)).await.map_err(|e| format!("{e}"))?;
                waiting.push(rx);
                tick = false;
            }
            Hb::Tick => {}
        }
        if !tick {
            continue;
        }
        let gone = if let Hb::Gone(i) = &op { ids[*i] } else { 999_999 };
        remote.heartbeat().send(NodeTerminated(gone)).await.map_err(|e| format!("the heartbeat has ended: {e}"))?;
        // what the contract makes of it
        let now = Utc::now();
        for (id, k) in m.iter_mut() {
            if *id == me {
                k.status = NodeStatus::Healthy;
                continue;
            }
            let ping = pings.get(id);
            match ping {
                Some((Pg::Fresh | Pg::Slow | Pg::Old | Pg::Ancient | Pg::Future, t)) => {
                    k.last = Some(*t);
                    k.latency = Some(Duration::from_secs(if ping.unwrap().0 == Pg::Slow { UNHEALTHY as u64 + 100 } else { 1 }));
                }
                Some(_) => k.latency = None,
                None => {}
            }
            k.status = match ping.map(|p| p.0) {
                None if k.status == NodeStatus::Terminated => NodeStatus::Terminated,
                None => NodeStatus::Joining,
                Some(Pg::Fresh | Pg::Future) => NodeStatus::Healthy,
                Some(Pg::Slow | Pg::Old) => NodeStatus::Unhealthy,
                Some(Pg::Ancient | Pg::Disconnected) => NodeStatus::Terminated,
                Some(Pg::Timeout) if k.last.map_or(true, |t| t + secs(TERMINATED) <= now) => NodeStatus::Terminated,
                Some(Pg::Timeout) => NodeStatus::Unhealthy,
                Some(Pg::Err) if k.status == NodeStatus::Unhealthy => NodeStatus::Terminated,
                Some(Pg::Err) => NodeStatus::Unhealthy,
            };
        }
        let first = m.iter().filter(|(_, k)| k.status == NodeStatus::Healthy).min_by_key(|(id, k)| (k.start.unwrap_or(DateTime::<Utc>::MIN_UTC), **id)).map(|x| *x.0);
        let new = first.is_some() && first != leader;
        if new {
            leader = first;
        }
        if !up && leader.is_some() && min.map_or(true, |n| m.values().filter(|k| k.status == NodeStatus::Healthy).count() >= n) {
            up = true;
            events.push(format!("up {} {:?}", leader.unwrap(), m.keys().collect::<Vec<_>>()));
        }
        if new {
            events.push(format!("leader {}", leader.unwrap()));
        }
        // what the node made of it
        let mut got: Vec<_> = remote.get_nodes().await.into_iter().map(|n| (n.id, n.status, n.node_started_at, if n.id == me { None } else { n.last_heartbeat }, n.ping_latency)).collect();
        got.sort_by_key(|x| x.0);
        eq(&format!("nodes after {op:?}"), got, m.iter().map(|(id, k)| (*id, k.status, k.start, k.last, k.latency)).collect())?;
        eq(&format!("leader after {op:?}"), remote.current_leader(), leader)?;
        for w in waiting.iter_mut() {
            let told = w.try_recv().ok();
            eq(&format!("told to one who waits for a leader, after {op:?}"), told, if new { leader } else { None })?;
        }
        if new {
            waiting.clear();
        }
    }
    let n = events.len();
    until(2000, || log.lock().len() >= n).await;
    tokio::task::yield_now().await;
    let mut got = log.lock().clone();
    got.sort();
    events.sort();
    let _ = l.stop().await;
    remote.actor_system().shutdown().await;
    eq("announced", got, events)
}

pub async fn heartbeat(cx: &mut Cx) {
    use Pg::*;
    let alphabet: Vec<Hb> = [Fresh, Slow, Old, Ancient, Future, Timeout, Disconnected, Err]
        .iter()
        .map(|p| Hb::Ping(1, *p))
        .chain([Hb::Ping(2, Fresh), Hb::Ping(2, Disconnected), Hb::Gone(1), Hb::Gone(2), Hb::Again(1, 9), Hb::Again(1, 0), Hb::Wait])
        .collect();
    let clause = "nodes are judged by their pings and the most senior healthy node leads";
    let setups: Vec<(Vec<u64>, Vec<Option<i64>>, Option<usize>)> = vec![
        (vec![1, 2, 3], vec![Some(5), Some(3), Some(4)], None),
        (vec![2, 1, 3], vec![Some(5), Some(5), Some(5)], Some(2)),
        (vec![1, BIG, BIG + 2], vec![Some(5), Some(3), None], Some(3)),
        (vec![BIG, 7, 3], vec![Some(1), Some(3), Some(4)], Some(1)),
    ];
    for (n, (ids, starts, min)) in setups.iter().enumerate() {
        for w in words(&alphabet, if cx.thorough { 3 } else { 2 }) {
            if !cx.thorough && n > 1 && w.len() == 2 && matches!(w[0], Hb::Wait) {
                continue;
            }
            let mut w = w;
            w.push(Hb::Tick);
            let key = format!("ids {ids:?} started {starts:?} minimum {min:?}: {w:?}");
            let (ids, starts, min) = (ids.clone(), starts.clone(), *min);
            cx.case(clause, key, move || beats(ids.clone(), starts.clone(), min, w.clone())).await;
        }
    }
    let mut r = cx.rng(16);
    let mut more = alphabet.clone();
    more.extend([Hb::Ping(2, Timeout), Hb::Ping(2, Err), Hb::Ping(2, Slow), Hb::Again(2, 1), Hb::Again(0, 8), Hb::Tick]);
    for _ in 0..if cx.thorough { 3000 } else { 250 } {
        let (ids, starts, min) = r.pick(&setups).clone();
        let w: Vec<Hb> = (0..9).map(|_| r.pick(&more).clone()).collect();
        let key = format!("random ids {ids:?} started {starts:?} minimum {min:?}: {w:?}");
        cx.case(clause, key, move || beats(ids.clone(), starts.clone(), min, w.clone())).await;
    }
    cx.case("the heartbeat goes on by itself", "a node alone, a tick every 20 ms".into(), || async { tokio::task::block_in_place(|| tokio::runtime::Handle::current().block_on(alone())) }).await;
}

/// A node that is left to itself judges itself healthy, again and again, leads itself and is up.
async fn alone() -> CaseResult {
    let remote = node(InMemoryStorageProvider::new(), 7, |c| c.heartbeat(HeartbeatConfig { interval: Duration::from_millis(20), ..quiet_heartbeat() })).await;
    remote.register_node(RemoteNode::new(7, "127.0.0.1:1".into(), "alone".into(), Some(at(1)), attrs(0))).await;
    let mut beats = vec![];
    let t = std::time::Instant::now();
    while beats.len() < 4 && t.elapsed() < Duration::from_secs(5) {
        if let Some(h) = remote.get_nodes().await.into_iter().find(|n| n.id == 7).and_then(|n| n.last_heartbeat) {
            if beats.last() != Some(&h) {
                beats.push(h);
            }
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    let leader = remote.current_leader();
    remote.actor_system().shutdown().await;
    ensure(beats.len() >= 4, format!("{} heartbeats within 5 s", beats.len()))?;
    eq("leader of a node alone", leader, Some(7))
}
