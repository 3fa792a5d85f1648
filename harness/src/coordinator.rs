//! Executable contracts of the shard coordinator: a real coordinator on a real node, whose other hosts are
//! scripted peers that record what they are told.
use crate::core::*;
use crate::journal::{FaultyProvider, FaultyStorage};
use crate::peer::*;
use async_trait::async_trait;
use coerce::actor::message::{Handler, Message};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorRecipe, IntoActor, LocalActorRef};
use coerce::persistent::journal::storage::JournalStorage;
use coerce::remote::cluster::node::RemoteNode;
use coerce::remote::handler::{ActorHandler, RemoteActorHandler};
use coerce::remote::net::message::{ClientEvent, SessionEvent};
use coerce::remote::stream::pubsub::Receive;
use coerce::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use coerce::remote::system::RemoteActorSystem;
use coerce::sharding::coordinator::allocation::{AllocateShard, AllocateShardErr, AllocateShardResult, DefaultAllocator};
use coerce::sharding::coordinator::balancing::Rebalance;
use coerce::sharding::coordinator::stats::GetShardingStats;
use coerce::sharding::coordinator::{ShardCoordinator, ShardHostState, ShardHostStatus};
use coerce::sharding::host::{ShardAllocated, ShardAllocator, ShardHost, ShardReallocating, StopShard};
use coerce::sharding::proto::sharding as sproto;
use parking_lot::Mutex;
use protobuf::Message as PM;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub struct Nop;
impl Actor for Nop {}
pub struct NopR;
impl ActorRecipe for NopR {
    fn read_from_bytes(_: &Vec<u8>) -> Option<Self> {
        Some(NopR)
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        Some(vec![])
    }
}
#[derive(Clone)]
pub struct NopF;
#[async_trait]
impl ActorFactory for NopF {
    type Actor = Nop;
    type Recipe = NopR;
    async fn create(&self, _: NopR) -> Result<Nop, ActorCreationErr> {
        Ok(Nop)
    }
}

static N: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Alloc(u32),
    /// an allocation whose journal write fails
    AllocFault(u32),
    Move(Vec<u32>),
    /// like Move, but the owners' confirmations are held back until checked
    MoveHeld(Vec<u32>),
    All,
    Down(u64),
    Up(u64),
    Restart,
    /// a host known beforehand: 0 unknown, 1 starting, 2 ready, 3 unavailable
    Host(u64, u8),
}

#[derive(Clone)]
pub struct Env {
    pub remote: RemoteActorSystem,
    pub peers: Vec<Peer>,
    pub log: Log,
    pub store: Arc<FaultyStorage>,
    /// confirmations held back: (peer, frame)
    pub held: Arc<Mutex<Option<Vec<(u64, ClientEvent)>>>>,
}

fn stopped(shard: u32, request: &str) -> ClientEvent {
    let b = sproto::ShardStopped { shard_id: shard, is_successful: true, ..Default::default() }.write_to_bytes().unwrap();
    result_of(request, b)
}

pub async fn env(ids: &[u64]) -> Env {
    let store = FaultyStorage::new();
    let log: Log = Default::default();
    let held: Arc<Mutex<Option<Vec<(u64, ClientEvent)>>>> = Default::default();
    let remote = node(FaultyProvider(store.clone()), 1, |c| c.with_actor(NopF)).await;
    let h = held.clone();
    let script: Script = Arc::new(move |id, ev| {
        let mut out = vec![];
        if let SessionEvent::NotifyActor(m) = ev {
            if m.handler_type == "ShardHost.StopShard" {
                if let Ok(s) = StopShard::from_bytes(m.message.clone()) {
                    let f = stopped(s.shard_id, &s.request_id.to_string());
                    match &mut *h.lock() {
                        Some(v) => v.push((id, f)),
                        None => out.push(f),
                    }
                }
            }
            if m.requires_response {
                out.push(result_of(&m.message_id, vec![]));
            }
        }
        out
    });
    let mut peers = vec![];
    for id in ids {
        let p = Peer::start(*id, log.clone(), script.clone()).await;
        join(&remote, &p).await;
        peers.push(p);
    }
    Env { remote, peers, log, store, held }
}

pub struct View {
    pub shards: BTreeMap<u32, u64>,
    pub nodes: BTreeMap<u64, (u64, bool)>,
}
async fn view(c: &LocalActorRef<ShardCoordinator>) -> Result<View, String> {
    let s = c.send(GetShardingStats).await.map_err(|e| format!("coordinator did not answer: {e}"))?;
    let mut shards = BTreeMap::new();
    for x in &s.shards {
        if shards.insert(x.shard_id, x.node_id).is_some() {
            return Err(format!("shard {} listed twice", x.shard_id));
        }
    }
    let v = View { shards, nodes: s.nodes.iter().map(|n| (n.node_id, (n.shard_count, n.status == ShardHostStatus::Ready))).collect() };
    for (n, (count, _)) in &v.nodes {
        let owned = v.shards.values().filter(|o| *o == n).count() as u64;
        eq(&format!("shards held by host {n} against shards mapped to it"), *count, owned)?;
    }
    for (k, o) in &v.shards {
        ensure(v.nodes.contains_key(o), format!("shard {k} owned by unknown host {o}"))?;
    }
    Ok(v)
}

impl Env {
    pub fn ent(&self, e: &SessionEvent, entity: &str) -> Option<(String, Vec<u8>)> {
        match e {
            SessionEvent::NotifyActor(m) if m.actor_id.starts_with(&format!("shard-host-{entity}-")) => {
                Some((m.handler_type.clone(), m.message.clone()))
            }
            _ => None,
        }
    }
    fn told(&self, from: usize, entity: &str) -> Vec<(u64, u32, u64)> {
        let l = self.log.lock();
        l[from..]
            .iter()
            .filter_map(|(n, e)| self.ent(e, entity).map(|x| (*n, x)))
            .filter(|(_, (t, _))| t == "ShardHost.ShardAllocated")
            .map(|(n, (_, b))| {
                let a = ShardAllocated::from_bytes(b).ok().unwrap();
                (n, a.0, a.1)
            })
            .collect()
    }
    fn moving(&self, from: usize, entity: &str) -> BTreeSet<(u64, u32)> {
        let l = self.log.lock();
        l[from..]
            .iter()
            .filter_map(|(n, e)| self.ent(e, entity).map(|x| (*n, x)))
            .filter(|(_, (t, _))| t == "ShardHost.ShardReallocating")
            .map(|(n, (_, b))| (n, ShardReallocating::from_bytes(b).ok().unwrap().0))
            .collect()
    }
    fn stops(&self, from: usize, entity: &str) -> Vec<(u64, u32)> {
        let l = self.log.lock();
        let mut v: Vec<_> = l[from..]
            .iter()
            .filter_map(|(n, e)| self.ent(e, entity).map(|x| (*n, x)))
            .filter(|(_, (t, _))| t == "ShardHost.StopShard")
            .map(|(n, (_, b))| (n, StopShard::from_bytes(b).ok().unwrap().shard_id))
            .collect();
        v.sort();
        v
    }
    async fn records(&self, entity: &str) -> Vec<u32> {
        self.store
            .inner
            .read_latest_messages(&format!("{entity}-ShardCoordinator"), 0)
            .await
            .ok()
            .flatten()
            .unwrap_or_default()
            .into_iter()
            .map(|e| AllocateShard::from_bytes(e.bytes.to_vec()).ok().unwrap().shard_id)
            .collect()
    }
    async fn coordinator(&self, entity: &str, host: &LocalActorRef<ShardHost>, hosts: &[(u64, u8)]) -> Result<LocalActorRef<ShardCoordinator>, String> {
        let mut c = ShardCoordinator::new(entity.to_string(), host.clone());
        for (n, s) in hosts {
            let status = [ShardHostStatus::Unknown, ShardHostStatus::Starting, ShardHostStatus::Ready, ShardHostStatus::Unavailable][*s as usize];
            c.add_host(ShardHostState { node_id: *n, node_tag: String::new(), shards: Default::default(), actor: ShardHost::remote_ref(entity, *n, &self.remote), status });
        }
        let c = c.into_actor(Some(format!("coordinator-{entity}-{}", N.fetch_add(1, Ordering::SeqCst))), self.remote.actor_system())
            .await
            .map_err(|e| format!("start: {e}"))?;
        Ok(c)
    }
}

fn node_ref(env: &Env, n: u64) -> Arc<RemoteNode> {
    let addr = env.peers.iter().find(|p| p.id == n).map(|p| p.addr.clone()).unwrap_or_default();
    Arc::new(RemoteNode::new(n, addr, format!("peer-{n}"), None, Default::default()))
}

fn check_alloc(pre: &View, post: &View, k: u32, r: &AllocateShardResult) -> Result<Option<u64>, String> {
    let ready: Vec<u64> = pre.nodes.iter().filter(|(_, (_, r))| *r).map(|(n, _)| *n).collect();
    let mut want = pre.shards.clone();
    let mut placed = None;
    match (pre.shards.get(&k), r) {
        (Some(o), AllocateShardResult::AlreadyAllocated(k2, n)) => {
            eq("owner reported", (*k2, *n), (k, *o))?;
        }
        (None, AllocateShardResult::Allocated(k2, n)) => {
            eq("shard reported", *k2, k)?;
            ensure(ready.contains(n), format!("shard {k} placed on host {n}, which is not ready"))?;
            let min = ready.iter().map(|m| pre.nodes[m].0).min().unwrap();
            eq(&format!("shards owned by the chosen host {n} (fewest: {min})"), pre.nodes[n].0, min)?;
            want.insert(k, *n);
            placed = Some(*n);
        }
        (None, AllocateShardResult::NotAllocated) => {
            ensure(ready.is_empty(), format!("shard {k} not allocated though hosts {ready:?} are ready"))?;
        }
        (o, r) => return Err(format!("allocate shard {k} (owner {o:?}) answered {r:?}")),
    }
    eq("owners after allocation", &post.shards, &want)?;
    Ok(placed)
}

pub async fn run(env: Env, ops: Vec<Op>) -> CaseResult {
    let entity = format!("E{}x", N.fetch_add(1, Ordering::SeqCst));
    let sys = env.remote.actor_system();
    let host = ShardHost::new(entity.clone(), RemoteActorHandler::<Nop, NopF>::new(NopF).new_boxed(), None)
        .into_actor(Some(ShardHost::actor_id(&entity, 1)), sys)
        .await
        .map_err(|e| format!("host: {e}"))?;
    let hosts: Vec<(u64, u8)> = ops.iter().filter_map(|o| if let Op::Host(n, s) = o { Some((*n, *s)) } else { None }).collect();
    let mut c = env.coordinator(&entity, &host, &hosts).await?;
    *env.held.lock() = None;
    let mut expected_records: Vec<u32> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let at = |m: String| format!("op {i} {op:?}: {m}");
        let pre = view(&c).await.map_err(at)?;
        let mark = env.log.lock().len();
        let ready: BTreeSet<u64> = pre.nodes.iter().filter(|(_, (_, r))| *r).map(|(n, _)| *n).collect();
        let peers: BTreeSet<u64> = env.peers.iter().map(|p| p.id).collect();
        match op {
            Op::Alloc(k) => {
                let r = c.send(AllocateShard { shard_id: *k, rebalancing: false }).await.map_err(|e| at(format!("{e}")))?;
                let post = view(&c).await.map_err(at)?;
                if let Some(n) = check_alloc(&pre, &post, *k, &r).map_err(at)? {
                    let want: BTreeSet<(u64, u32, u64)> = ready.intersection(&peers).map(|p| (*p, *k, n)).collect();
                    let ok = until(3000, || env.told(mark, &entity).into_iter().filter(|x| x.1 == *k).collect::<BTreeSet<_>>() == want).await;
                    ensure(ok, at(format!("ready hosts told of the owner: {:?}, contract requires {want:?}", env.told(mark, &entity))))?;
                }
                if !pre.shards.contains_key(k) {
                    expected_records.push(*k);
                }
                eq("allocations on record", env.records(&entity).await, expected_records.clone()).map_err(at)?;
            }
            Op::AllocFault(k) => {
                // the write fails at first: nothing may be placed before the record is durable
                let key = format!("{entity}-ShardCoordinator");
                env.store.f.lock().writes.push_back(true);
                let r = c.send(AllocateShard { shard_id: *k, rebalancing: false }).await.map_err(|e| at(format!("{e}")))?;
                env.store.f.lock().writes.clear();
                let post = view(&c).await.map_err(at)?;
                let _ = key;
                match (&r, pre.shards.get(k)) {
                    (AllocateShardResult::Err(AllocateShardErr::Persistence), None) => {
                        eq("owners after a failed record", post.shards.clone(), pre.shards.clone()).map_err(at)?;
                    }
                    _ => {
                        check_alloc(&pre, &post, *k, &r).map_err(at)?;
                        if !pre.shards.contains_key(k) {
                            expected_records.push(*k);
                        }
                    }
                }
                eq("allocations on record", env.records(&entity).await, expected_records.clone()).map_err(at)?;
            }
            Op::Move(ks) | Op::MoveHeld(ks) => {
                let hold = matches!(op, Op::MoveHeld(_));
                if hold {
                    *env.held.lock() = Some(vec![]);
                }
                c.send(Rebalance::Shards(ks.clone())).await.map_err(|e| at(format!("{e}")))?;
                moved(&env, &c, &entity, &pre, ks, mark, hold, &peers, &ready).await.map_err(at)?;
                eq("allocations on record", env.records(&entity).await, expected_records.clone()).map_err(at)?;
            }
            Op::All => {
                *env.held.lock() = Some(vec![]);
                c.send(Rebalance::All).await.map_err(|e| at(format!("{e}")))?;
                let mid = view(&c).await.map_err(at)?;
                let fair = pre.shards.len() as u64 / pre.nodes.len() as u64;
                // shards may come back from the local host at once; the others wait for their confirmation
                let moved_off: Vec<u32> = pre.shards.keys().filter(|k| mid.shards.get(k) != pre.shards.get(k)).copied().collect();
                for n in peers.iter() {
                    if let Some((before, _)) = pre.nodes.get(n) {
                        let gone = moved_off.iter().filter(|k| pre.shards[k] == *n).count() as u64;
                        ensure(before - gone <= fair.max(0), at(format!("host {n} kept {} shards, fair share {fair}", before - gone)))?;
                        ensure(*before <= fair || before - gone == fair, at(format!("host {n} gave up {gone} of {before} shards, fair share {fair}")))?;
                    }
                }
                moved(&env, &c, &entity, &pre, &moved_off.iter().filter(|k| pre.shards[k] != 1).copied().collect::<Vec<_>>(), mark, true, &peers, &ready)
                    .await
                    .map_err(at)?;
                let ok = until_async(&c, |v| v.shards.len() == pre.shards.len()).await;
                ensure(ok, at("a shard taken for levelling was not allocated again".into()))?;
            }
            Op::Down(n) => {
                c.send(Receive::<SystemTopic>(Arc::new(SystemEvent::Cluster(ClusterEvent::NodeRemoved(node_ref(&env, *n))))))
                    .await
                    .map_err(|e| at(format!("{e}")))?;
                let post = view(&c).await.map_err(at)?;
                let left: Vec<u64> = ready.iter().filter(|x| *x != n).copied().collect();
                if pre.nodes.contains_key(n) {
                    ensure(!post.nodes[n].1, at(format!("host {n} still ready")))?;
                }
                for (k, o) in &pre.shards {
                    let now = post.shards.get(k);
                    if o != n {
                        eq(&format!("owner of shard {k}, not on the lost host"), now, Some(o)).map_err(at)?;
                    } else if left.is_empty() {
                        eq(&format!("owner of shard {k} with no host left"), now, None).map_err(at)?;
                    } else {
                        ensure(now.map_or(false, |m| left.contains(m)), at(format!("shard {k} of the lost host {n} is now on {now:?}")))?;
                    }
                }
                ensure(post.shards.keys().all(|k| pre.shards.contains_key(k)), at("a shard appeared".into()))?;
                eq("allocations on record", env.records(&entity).await, expected_records.clone()).map_err(at)?;
                if !left.is_empty() {
                    let want: BTreeSet<(u64, u32, u64)> = left
                        .iter()
                        .filter(|p| peers.contains(p))
                        .flat_map(|p| pre.shards.iter().filter(|(_, o)| *o == n).map(|(k, _)| (*p, *k, post.shards[k])).collect::<Vec<_>>())
                        .collect();
                    let ok = until(3000, || want.is_subset(&env.told(mark, &entity).into_iter().collect())).await;
                    ensure(ok, at(format!("ready hosts told of the new owners: {:?}, contract requires {want:?}", env.told(mark, &entity))))?;
                }
            }
            Op::Up(n) => {
                let was = pre.nodes.get(n).map(|x| x.1);
                c.send(Receive::<SystemTopic>(Arc::new(SystemEvent::Cluster(ClusterEvent::NodeAdded(node_ref(&env, *n))))))
                    .await
                    .map_err(|e| at(format!("{e}")))?;
                let post = view(&c).await.map_err(at)?;
                ensure(post.nodes.get(n).map_or(false, |x| x.1), at(format!("host {n} not ready after it joined")))?;
                eq("owners", &post.shards, &pre.shards).map_err(at)?;
                if was != Some(true) {
                    // a newly available host triggers a full rebalance
                    let fair = pre.shards.len() as u64 / post.nodes.len() as u64;
                    let need = post.nodes.iter().any(|(_, (x, _))| *x > fair);
                    if need {
                        let base = pre.shards.clone();
                        let ok = until(4000, || !env.moving(mark, &entity).is_empty() || peers.is_empty()).await;
                        ensure(ok, at("no rebalance followed".into()))?;
                        let ok = until_async(&c, |v| v.shards.len() == base.len()).await;
                        ensure(ok, at("a shard taken for levelling was not allocated again".into()))?;
                    } else {
                        tokio::time::sleep(Duration::from_millis(700)).await;
                    }
                }
            }
            Op::Host(..) => {}
            Op::Restart => {
                let _ = c.stop().await;
                c = env.coordinator(&entity, &host, &hosts).await.map_err(at)?;
                let post = view(&c).await.map_err(at)?;
                let known: BTreeSet<u32> = expected_records.iter().copied().collect();
                eq("shards with an owner after recovery", post.shards.keys().copied().collect::<BTreeSet<_>>(), known).map_err(at)?;
                eq("allocations on record", env.records(&entity).await, expected_records.clone()).map_err(at)?;
            }
        }
        view(&c).await.map_err(at)?;
    }
    let _ = c.stop().await;
    let _ = host.stop().await;
    Ok(())
}

async fn until_async<F: Fn(&View) -> bool>(c: &LocalActorRef<ShardCoordinator>, f: F) -> bool {
    for _ in 0..600 {
        if let Ok(v) = view(c).await {
            if f(&v) {
                return true;
            }
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    false
}

/// The handover protocol for the shards `ks` that had an owner in `pre`.
async fn moved(
    env: &Env,
    c: &LocalActorRef<ShardCoordinator>,
    entity: &str,
    pre: &View,
    ks: &[u32],
    mark: usize,
    hold: bool,
    peers: &BTreeSet<u64>,
    ready: &BTreeSet<u64>,
) -> CaseResult {
    let owned: BTreeMap<u32, u64> = ks.iter().filter_map(|k| pre.shards.get(k).map(|o| (*k, *o))).collect();
    let want: BTreeSet<(u64, u32)> =
        pre.nodes.keys().filter(|p| peers.contains(p)).flat_map(|p| ks.iter().map(|k| (*p, *k)).collect::<Vec<_>>()).collect();
    let ok = until(3000, || want.is_subset(&env.moving(mark, entity))).await;
    ensure(ok, format!("hosts told of the move: {:?}, contract requires {want:?}", env.moving(mark, entity)))?;
    let mut want: Vec<(u64, u32)> = owned.iter().filter(|(_, o)| peers.contains(o)).map(|(k, o)| (*o, *k)).collect();
    want.sort();
    let ok = until(3000, || env.stops(mark, entity).len() >= want.len()).await;
    ensure(ok, format!("owners asked to stop: {:?}, contract requires {want:?}", env.stops(mark, entity)))?;
    if hold {
        tokio::time::sleep(Duration::from_millis(15)).await;
        let v = view(c).await?;
        for (k, o) in owned.iter().filter(|(_, o)| peers.contains(o)) {
            ensure(v.shards.get(k).is_none(), format!("shard {k} has an owner ({:?}) before its old owner {o} confirmed that it stopped", v.shards.get(k)))?;
        }
        let told = env.told(mark, entity);
        for (n, k, o) in told {
            ensure(!owned.get(&k).map_or(false, |o| peers.contains(o)), format!("host {n} told that {o} owns shard {k} before the old owner confirmed"))?;
        }
        let held = env.held.lock().take().unwrap_or_default();
        for (n, f) in held {
            env.peers.iter().find(|p| p.id == n).unwrap().send(&f);
        }
    }
    eq("owners asked to stop", env.stops(mark, entity), want)?;
    if !ready.is_empty() {
        let ok = until_async(c, |v| owned.keys().all(|k| v.shards.contains_key(k))).await;
        ensure(ok, "a shard in handover was not allocated again after its owner confirmed")?;
        let v = view(c).await?;
        for k in owned.keys() {
            ensure(ready.contains(&v.shards[k]), format!("shard {k} moved to host {}, which is not ready", v.shards[k]))?;
        }
        let want: BTreeSet<(u64, u32, u64)> =
            ready.intersection(peers).flat_map(|p| owned.keys().map(|k| (*p, *k, v.shards[k])).collect::<Vec<_>>()).collect();
        let ok = until(3000, || want.is_subset(&env.told(mark, entity).into_iter().collect())).await;
        ensure(ok, format!("ready hosts told of the new owners: {:?}, contract requires {want:?}", env.told(mark, entity)))?;
    }
    let v = view(c).await?;
    for (k, o) in pre.shards.iter().filter(|(k, _)| !owned.contains_key(k) && hold == false) {
        eq(&format!("owner of shard {k}, not being moved"), v.shards.get(k), Some(o))?;
    }
    Ok(())
}

pub async fn coordinator(cx: &mut Cx) {
    let e = env(&[2, 3]).await;
    use Op::*;
    let alphabet = [Alloc(1), Alloc(2), Move(vec![1]), Down(2)];
    let mut all: Vec<Vec<Op>> = words(&alphabet, if cx.thorough { 4 } else { 3 });
    let pre = vec![Alloc(1), Alloc(2), Alloc(3), Alloc(4), Alloc(5)];
    for extra in [
        vec![MoveHeld(vec![1, 2, 3])],
        vec![MoveHeld(vec![5, 9])],
        vec![Move(vec![1, 2, 3, 4, 5]), MoveHeld(vec![1, 2, 3])],
        vec![Down(2), Down(3)],
        vec![Down(2), Alloc(6), Alloc(7), Alloc(8), All],
        vec![Down(2), Down(3), Alloc(6), Alloc(7), Alloc(8), All],
        vec![Alloc(6), Alloc(7), All],
        vec![Restart],
        vec![Host(4, 0), Alloc(6)],
        vec![Host(4, 1), Alloc(6), Down(2), Down(3)],
        vec![Host(4, 3), Host(5, 3), Alloc(6)],
        vec![Host(4, 3), Host(5, 1), Down(1), Down(2), Down(3), Alloc(9)],
        vec![Restart, Alloc(1), Alloc(9), Restart],
        vec![Down(1), Alloc(6), Alloc(7)],
        vec![Down(2), Down(3), Up(2), Alloc(9)],
        vec![Up(2), Alloc(9)],
        vec![Down(3), Up(3), Down(2), MoveHeld(vec![1, 2, 3, 4, 5])],
        vec![Down(9), Alloc(9)],
        vec![Down(1), Down(2), Down(3), Alloc(9), Move(vec![1])],
        vec![AllocFault(7), Alloc(7), AllocFault(7), Restart],
    ] {
        all.push(pre.iter().cloned().chain(extra).collect());
    }
    let mut r = cx.rng(5);
    for _ in 0..(if cx.thorough { 400 } else { 40 }) {
        let len = 4 + r.below(8);
        let mut w = vec![];
        for _ in 0..len {
            let k = 1 + r.below(7) as u32;
            w.push(match r.below(8) {
                0 | 1 | 2 | 3 => Alloc(k),
                4 => Move(vec![k, 1 + r.below(7) as u32]).dedup(),
                5 => MoveHeld(vec![k]),
                6 => Down(1 + r.below(3) as u64),
                _ => All,
            });
        }
        all.push(w);
    }
    for w in all {
        let key = format!("{w:?}");
        let clause = if w.iter().any(|o| matches!(o, Move(_) | MoveHeld(_) | All | Down(_) | Up(_))) { "handover" } else { "allocation" };
        let (e, w) = (e.clone(), w.clone());
        cx.case(clause, key, move || run(e.clone(), w.clone())).await;
    }
    // a request that arrives while the shard is being handed over
    let e2 = e.clone();
    cx.case("race", "allocation requested during a handover".into(), move || during(e2.clone())).await;
    // shard of an entity
    for n in 0..(if cx.thorough { 3000 } else { 300 }) {
        let id = format!("entity-{n}-{}", r.next());
        for max in [1u32, 2, 7, 64, 100, 1000] {
            let id = id.clone();
            cx.check("placement", format!("{id} over {max} shards"), move || {
                use coerce::actor::IntoActorId;
                let a = DefaultAllocator { max_shards: max }.allocate(&id.clone().into_actor_id());
                let b = DefaultAllocator { max_shards: max }.allocate(&id.clone().into_actor_id());
                eq("shard on two nodes", a, b)?;
                ensure(a < max, format!("shard {a} of {max}"))
            })
            .await;
        }
    }
}

impl Op {
    fn dedup(self) -> Op {
        match self {
            Op::Move(mut v) => {
                v.dedup();
                Op::Move(v)
            }
            o => o,
        }
    }
}

async fn during(env: Env) -> CaseResult {
    let entity = format!("E{}x", N.fetch_add(1, Ordering::SeqCst));
    let sys = env.remote.actor_system();
    let host = ShardHost::new(entity.clone(), RemoteActorHandler::<Nop, NopF>::new(NopF).new_boxed(), None)
        .into_actor(Some(ShardHost::actor_id(&entity, 1)), sys)
        .await
        .map_err(|e| format!("host: {e}"))?;
    let c = env.coordinator(&entity, &host, &[]).await?;
    for k in 1..=6 {
        let _ = c.send(AllocateShard { shard_id: k, rebalancing: false }).await;
    }
    let v = view(&c).await?;
    let k = *v.shards.iter().find(|(_, o)| **o != 1).ok_or("no remote owner")?.0;
    *env.held.lock() = Some(vec![]);
    let _ = c.send(Rebalance::Shards(vec![k])).await;
    let r = c.send(AllocateShard { shard_id: k, rebalancing: false }).await;
    let held = env.held.lock().take().unwrap_or_default();
    for (n, f) in held {
        env.peers.iter().find(|p| p.id == n).unwrap().send(&f);
    }
    let _ = c.stop().await;
    let _ = host.stop().await;
    ensure(!matches!(r, Ok(AllocateShardResult::Allocated(..))), format!("shard {k} was given to a new owner before its old owner confirmed that it stopped: {r:?}"))
}
