//! Executable contracts of the shard host (routing, handover) and of the shard (entity start-up), on a real node
//! whose other member is a scripted peer.
use crate::core::*;
use crate::journal::{FaultyProvider, FaultyStorage};
use crate::peer::*;
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorId, ActorRecipe, ActorRefErr, IntoActor, LocalActorRef};
use coerce::persistent::journal::storage::JournalStorage;
use coerce::remote::actor::RemoteResponse;
use coerce::remote::handler::{ActorHandler, RemoteActorHandler};
use coerce::remote::net::message::SessionEvent;
use coerce::remote::system::RemoteActorSystem;
use coerce::sharding::coordinator::factory::CoordinatorFactory;
use coerce::sharding::coordinator::ShardCoordinator;
use coerce::sharding::host::request::{EntityRequest, RemoteEntityRequest};
use coerce::sharding::host::stats::GetStats;
use coerce::sharding::host::*;
use coerce::sharding::shard::Shard;
use coerce::sharding::Sharding;
use coerce::singleton::Singleton;
use parking_lot::Mutex;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::oneshot;
use uuid::Uuid;

/// recipe key -> (creations begun, gate: 0 wait, 1 go, 2 fail)
static GATES: Mutex<BTreeMap<u64, (u32, u8)>> = Mutex::new(BTreeMap::new());
/// payloads handled by entities of this process
static HANDLED: Mutex<Vec<u32>> = Mutex::new(vec![]);
static N: AtomicU64 = AtomicU64::new(1);
static PAY: AtomicU32 = AtomicU32::new(1);

/// entities alive, by recipe key
static LIVE: Mutex<BTreeMap<u64, i32>> = Mutex::new(BTreeMap::new());
fn live(key: u64) -> i32 {
    LIVE.lock().get(&key).copied().unwrap_or(0)
}
/// a payload with this bit asks the entity to stop after it has answered
const HALT: u32 = 1 << 31;

pub struct Ent(u64);
#[async_trait]
impl Actor for Ent {
    async fn started(&mut self, _: &mut ActorContext) {
        *LIVE.lock().entry(self.0).or_default() += 1;
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        *LIVE.lock().entry(self.0).or_default() -= 1;
    }
}
pub struct EntR(u64);
impl ActorRecipe for EntR {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Self> {
        Some(EntR(u64::from_be_bytes(b[..8].try_into().ok()?)))
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        Some(self.0.to_be_bytes().to_vec())
    }
}
#[derive(Clone)]
pub struct EntF;
#[async_trait]
impl ActorFactory for EntF {
    type Actor = Ent;
    type Recipe = EntR;
    async fn create(&self, r: EntR) -> Result<Ent, ActorCreationErr> {
        if r.0 == 0 {
            return Ok(Ent(0));
        }
        GATES.lock().entry(r.0).or_default().0 += 1;
        loop {
            {
                let mut g = GATES.lock();
                let e = g.entry(r.0).or_default();
                match std::mem::replace(&mut e.1, 0) {
                    1 => return Ok(Ent(r.0)),
                    2 => return Err(ActorCreationErr::InvalidRecipe("scripted".into())),
                    _ => {}
                }
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
}
pub struct Ask(u32);
impl Message for Ask {
    type Result = Vec<u8>;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(self.0.to_be_bytes().to_vec())
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        b[..].try_into().map(|b| Ask(u32::from_be_bytes(b))).map_err(|_| MessageUnwrapErr::DeserializationErr)
    }
    fn read_remote_result(b: Vec<u8>) -> Result<Vec<u8>, MessageUnwrapErr> {
        Ok(b)
    }
    fn write_remote_result(r: Vec<u8>) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(r)
    }
}
#[async_trait]
impl Handler<Ask> for Ent {
    async fn handle(&mut self, m: Ask, ctx: &mut ActorContext) -> Vec<u8> {
        HANDLED.lock().push(m.0);
        if m.0 & HALT != 0 {
            ctx.stop(None);
        }
        answer(m.0, 1)
    }
}
fn answer(p: u32, by: u8) -> Vec<u8> {
    let mut v = p.to_be_bytes().to_vec();
    v.push(by);
    v
}
fn handled(p: u32) -> usize {
    HANDLED.lock().iter().filter(|x| **x == p).count()
}

/// The shard is the number before the dash.
struct ByPrefix;
impl ShardAllocator for ByPrefix {
    fn allocate(&mut self, id: &ActorId) -> u32 {
        id.split('-').next().unwrap().parse().unwrap()
    }
}

#[derive(Clone)]
struct Env {
    remote: RemoteActorSystem,
    log: Log,
    store: Arc<FaultyStorage>,
    coordinator: Option<Singleton<ShardCoordinator, CoordinatorFactory>>,
    _peer: Option<Peer>,
}

async fn env(with_peer: bool) -> Env {
    let store = FaultyStorage::new();
    let log: Log = Default::default();
    let remote = node(FaultyProvider(store.clone()), 1, |c| c.with_actor(EntF).with_handler::<Ent, Ask>("Ent.Ask")).await;
    if !with_peer {
        return Env { remote, log, store, coordinator: None, _peer: None };
    }
    let script: Script = Arc::new(move |id, ev| match ev {
        SessionEvent::NotifyActor(m) if m.handler_type == "Shard.RemoteEntityRequest" => {
            match RemoteEntityRequest::from_bytes(m.message.clone()) {
                Ok(r) => {
                    let mut b = r.message.clone();
                    b.push(id as u8);
                    vec![result_of(&r.request_id.to_string(), b)]
                }
                Err(_) => vec![],
            }
        }
        _ => vec![],
    });
    let p = Peer::start(2, log.clone(), script).await;
    join(&remote, &p).await;
    // the peer never grants the lease of the coordinator, so nobody but the case allocates shards
    let sharding = Sharding::<EntF>::start(format!("Main{}", N.fetch_add(1, Ordering::SeqCst)), remote.clone(), None).await;
    std::mem::forget(sharding);
    let coordinator = remote
        .actor_system()
        .get_tracked_actor::<ShardHost>(ShardHost::actor_id(&format!("Main{}", N.load(Ordering::SeqCst) - 1), 1))
        .await
        .unwrap()
        .send(GetCoordinator)
        .await
        .unwrap();
    Env { remote, log, store, coordinator: Some(coordinator), _peer: Some(p) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum H {
    Req,
    Here,
    There,
    Moving,
    Stop,
    Ready,
}
#[derive(Clone, Debug, PartialEq)]
enum Hosted {
    No,
    Starting(Vec<usize>, bool),
    Ready,
}
/// Where each request has to end up.
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Waiting,
    Local,
    Remote,
}
struct Model {
    hosted: Hosted,
    remote: bool,
    pending: Vec<usize>,
    at: Vec<At>,
}
impl Model {
    fn request(&mut self, i: usize) {
        match &mut self.hosted {
            Hosted::Starting(b, _) => b.push(i),
            Hosted::Ready => self.at[i] = At::Local,
            Hosted::No if self.remote => self.at[i] = At::Remote,
            Hosted::No => self.pending.push(i),
        }
    }
    fn flush(&mut self) {
        for i in std::mem::take(&mut self.pending) {
            self.request(i)
        }
    }
}

/// Words the contract says nothing about: a second stop while one is outstanding, and a shard that comes back
/// while the start of an earlier incarnation has not ended.
fn valid(w: &[H]) -> bool {
    let (mut starting, mut ready, mut stop, mut abandoned) = (false, false, false, false);
    for h in w {
        match h {
            H::Here => {
                if abandoned {
                    return false;
                }
                if !ready {
                    starting = true;
                }
            }
            H::There => {
                abandoned |= starting;
                starting = false;
                ready = false;
                stop = false;
            }
            H::Stop => {
                if starting && stop {
                    return false;
                }
                stop = starting;
                ready = false;
            }
            H::Ready => {
                if !starting && !abandoned {
                    return false;
                }
                if starting {
                    ready = !stop;
                }
                starting = false;
                stop = false;
                abandoned = false;
            }
            H::Req | H::Moving => {}
        }
    }
    true
}

async fn routing(e: Env, w: Vec<H>) -> CaseResult {
    let ent = format!("H{}", N.fetch_add(1, Ordering::SeqCst));
    let shard_id = format!("{ent}-Shard-1");
    let sys = e.remote.actor_system().clone();
    let handler = RemoteActorHandler::<Ent, EntF>::new(EntF).new_boxed();
    let host = ShardHost::new(ent.clone(), handler, Some(Box::new(ByPrefix)))
        .into_actor(Some(ShardHost::actor_id(&ent, 1)), &sys)
        .await
        .map_err(|e| format!("{e:?}"))?;
    host.send(Init(e.coordinator.clone().unwrap())).await.unwrap();
    let mut m = Model { hosted: Hosted::No, remote: false, pending: vec![], at: vec![] };
    let mut pays: Vec<u32> = vec![];
    let mut ids: Vec<String> = vec![];
    let mut rxs: Vec<Option<oneshot::Receiver<Result<Vec<u8>, ActorRefErr>>>> = vec![];
    let mut stops: Vec<(oneshot::Receiver<RemoteResponse>, bool)> = vec![];
    let mut abandoned = false;
    e.store.f.lock().gated.insert(shard_id.clone());
    let full: Vec<H> = w.iter().cloned().chain([H::Req, H::Ready, H::Req, H::There, H::Req]).collect();
    // another shard's request, which none of this concerns
    let (tx, mut other) = oneshot::channel();
    let op = PAY.fetch_add(1, Ordering::SeqCst);
    host.send(EntityRequest {
        actor_id: format!("2-x{ent}").into(),
        message_type: "Ent.Ask".into(),
        message: op.to_be_bytes().to_vec(),
        recipe: Some(Arc::new(vec![0; 8])),
        result_channel: Some(tx),
    })
    .await
    .unwrap();
    for (n, h) in full.iter().enumerate() {
        let at = format!("op {n} {h:?}");
        match h {
            H::Req => {
                let (tx, rx) = oneshot::channel();
                let p = PAY.fetch_add(1, Ordering::SeqCst);
                let id = format!("1-{ent}-{}", pays.len() % 2);
                let r = host
                    .send(EntityRequest {
                        actor_id: id.clone().into(),
                        message_type: "Ent.Ask".into(),
                        message: p.to_be_bytes().to_vec(),
                        recipe: Some(Arc::new(vec![0; 8])),
                        result_channel: Some(tx),
                    })
                    .await;
                ensure(r.is_ok(), format!("{at}: host gone"))?;
                pays.push(p);
                ids.push(id);
                rxs.push(Some(rx));
                m.at.push(At::Waiting);
                m.request(pays.len() - 1);
            }
            H::Here => {
                if m.hosted == Hosted::No {
                    e.store.f.lock().gated.insert(shard_id.clone());
                }
                ensure(host.send(ShardAllocated(1, 1)).await.is_ok(), format!("{at}: host gone"))?;
                m.remote = false;
                if m.hosted == Hosted::No {
                    m.hosted = Hosted::Starting(vec![], false);
                }
                m.flush();
            }
            H::There => {
                ensure(host.send(ShardAllocated(1, 2)).await.is_ok(), format!("{at}: host gone"))?;
                let was = std::mem::replace(&mut m.hosted, Hosted::No);
                m.remote = true;
                match was {
                    Hosted::Starting(b, _) => {
                        m.pending.extend(b);
                        abandoned = true;
                    }
                    Hosted::Ready => gone(&e, &shard_id, &at).await?,
                    Hosted::No => {}
                }
                m.flush();
            }
            H::Moving => {
                ensure(host.send(ShardReallocating(1)).await.is_ok(), format!("{at}: host gone"))?;
                m.remote = false;
            }
            H::Stop => {
                let (tx, rx) = oneshot::channel();
                let id = Uuid::new_v4();
                e.remote.push_request(id, tx);
                let r = host.send(StopShard { shard_id: 1, origin_node_id: 1, request_id: id }).await;
                ensure(r.is_ok(), format!("{at}: host gone"))?;
                stops.push((rx, true));
                match &mut m.hosted {
                    Hosted::Starting(_, s) => {
                        *s = true;
                        stops.last_mut().unwrap().1 = false;
                    }
                    _ => {
                        answered(&mut stops.last_mut().unwrap().0, &at).await?;
                        if m.hosted == Hosted::Ready {
                            ensure(sys.get_tracked_actor::<Shard>(shard_id.clone().into()).await.is_none(), format!("{at}: stop confirmed while the shard runs"))?;
                        }
                        stops.pop();
                        m.hosted = Hosted::No;
                    }
                }
            }
            H::Ready => {
                e.store.f.lock().gated.remove(&shard_id);
                match m.hosted.clone() {
                    Hosted::Starting(b, stop) => {
                        // the shard answers the host's question only after it has said it is ready
                        if stop {
                            let (mut rx, _) = stops.pop().unwrap();
                            answered(&mut rx, &at).await?;
                            ensure(sys.get_tracked_actor::<Shard>(shard_id.clone().into()).await.is_none(), format!("{at}: stop confirmed while the shard runs"))?;
                            m.hosted = Hosted::No;
                            m.pending.extend(b);
                        } else {
                            for _ in 0..2 {
                                let rx = host.send(GetStats).await.map_err(|_| format!("{at}: host gone"))?;
                                let s = tokio::time::timeout(Duration::from_secs(3), rx).await;
                                let s = s.map_err(|_| format!("{at}: the shard never became ready"))?.map_err(|_| format!("{at}: no stats"))?;
                                ensure(s.hosted_shards.contains_key(&1), format!("{at}: the shard does not answer"))?;
                            }
                            m.hosted = Hosted::Ready;
                            for i in b {
                                m.request(i)
                            }
                        }
                    }
                    _ if abandoned => {
                        gone(&e, &shard_id, &at).await?;
                        abandoned = false;
                    }
                    _ => {}
                }
            }
        }
        // every request that has to be answered by now is, and by the right node
        for i in 0..pays.len() {
            let by = match m.at[i] {
                At::Waiting => continue,
                At::Local => 1,
                At::Remote => 2,
            };
            if let Some(rx) = rxs[i].take() {
                let r = tokio::time::timeout(Duration::from_secs(3), rx).await;
                let r = r.map_err(|_| format!("{at}: request {i} not answered"))?;
                let r = r.map_err(|_| format!("{at}: request {i} was dropped"))?;
                let r = r.map_err(|e| format!("{at}: request {i} answered {e:?}"))?;
                eq(&format!("{at}: answer (payload, node) of request {i}"), r, answer(pays[i], by))?;
            }
        }
        for i in 0..pays.len() {
            if m.at[i] == At::Waiting {
                if let Some(rx) = &mut rxs[i] {
                    ensure(matches!(rx.try_recv(), Err(oneshot::error::TryRecvError::Empty)), format!("{at}: request {i} was dropped or answered while its shard is nowhere"))?;
                }
            }
        }
        // and what the host reports is what it was told
        if m.hosted == Hosted::No || m.hosted == Hosted::Ready {
            let rx = host.send(GetStats).await.map_err(|_| format!("{at}: host gone"))?;
            let s = tokio::time::timeout(Duration::from_secs(3), rx).await.map_err(|_| format!("{at}: no stats"))?.map_err(|_| format!("{at}: no stats"))?;
            eq(&format!("{at}: (hosted, remote)"), (s.hosted_shard_count, s.remote_shard_count), ((m.hosted == Hosted::Ready) as usize, m.remote as usize))?;
        }
    }
    // exactly once, with the request unchanged
    let fw: Vec<RemoteEntityRequest> = e
        .log
        .lock()
        .iter()
        .filter_map(|(_, ev)| match ev {
            SessionEvent::NotifyActor(n) if n.actor_id == shard_id => RemoteEntityRequest::from_bytes(n.message.clone()).ok(),
            _ => None,
        })
        .collect();
    for i in 0..pays.len() {
        let f: Vec<_> = fw.iter().filter(|r| r.message == pays[i].to_be_bytes().to_vec()).collect();
        eq(&format!("request {i} {:?}: (handled here, forwarded)", m.at[i]), (handled(pays[i]), f.len()), ((m.at[i] == At::Local) as usize, (m.at[i] == At::Remote) as usize))?;
        for r in f {
            eq("forwarded request", (r.actor_id.to_string(), r.message_type.clone(), r.recipe.clone(), r.origin_node), (ids[i].clone(), "Ent.Ask".into(), Some(vec![0; 8]), 1))?;
        }
    }
    ensure(matches!(other.try_recv(), Err(oneshot::error::TryRecvError::Empty)) && handled(op) == 0, "a request of another shard was touched")?;
    let _ = host.stop().await;
    Ok(())
}
async fn answered(rx: &mut oneshot::Receiver<RemoteResponse>, at: &str) -> CaseResult {
    match tokio::time::timeout(Duration::from_secs(3), rx).await {
        Ok(Ok(RemoteResponse::Ok(b))) => {
            use protobuf::Message as _;
            let s = coerce::sharding::proto::sharding::ShardStopped::parse_from_bytes(&b).map_err(|e| format!("{at}: {e}"))?;
            eq(&format!("{at}: stop answer"), (s.shard_id, s.is_successful), (1, true))
        }
        _ => Err(format!("{at}: the stop request was not answered")),
    }
}
async fn gone(e: &Env, id: &str, at: &str) -> CaseResult {
    for _ in 0..1500 {
        if e.remote.actor_system().get_tracked_actor::<Shard>(id.into()).await.is_none() {
            return Ok(());
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    Err(format!("{at}: the shard still runs on a node that does not own it"))
}

pub async fn host(cx: &mut Cx) {
    let e = env(true).await;
    let max = if cx.thorough { 5 } else { 4 };
    let mut ws = words(&[H::Req, H::Here, H::There, H::Moving, H::Stop, H::Ready], max);
    ws.retain(|w| valid(w) && w.windows(2).all(|p| !(p[0] == p[1] && p[0] != H::Req) && !(p[0] == H::Req && p[1] == H::Req && max == 4 && w.len() == 4 && w[0] == H::Req)));
    let mut r = cx.rng(71);
    let all = [H::Req, H::Req, H::Here, H::There, H::Moving, H::Stop, H::Ready];
    let mut random = vec![];
    while random.len() < if cx.thorough { 400 } else { 60 } {
        let w: Vec<H> = (0..10).map(|_| *r.pick(&all)).collect();
        if valid(&w) {
            random.push(w)
        }
    }
    for w in ws.into_iter().chain(random) {
        let e = e.clone();
        cx.case("routing", format!("{w:?}"), move || routing(e.clone(), w.clone())).await;
    }
}

// ------------------------------------------------------------------------------------------------ entities

#[derive(Clone, Copy, Debug, PartialEq)]
enum E {
    /// a request with a recipe, one without, one of an unknown type, one from another node
    R,
    N,
    U,
    Rr,
    /// the pending creation succeeds / fails
    Go,
    Fail,
    /// the shard stops and starts again
    Restart,
    /// the entity stops
    Halt,
}
fn evalid(w: &[E]) -> bool {
    let (mut st, mut rec) = (0, false); // absent, starting, active
    for o in w {
        match o {
            E::R | E::Rr => {
                if st == 0 {
                    st = 1;
                    rec = true;
                }
            }
            E::N | E::U => {}
            E::Go | E::Fail => {
                if st != 1 {
                    return false;
                }
                st = if *o == E::Go { 2 } else { 0 };
            }
            E::Restart => {
                if st == 1 {
                    return false;
                }
                st = rec as i32;
            }
            E::Halt => {
                if st != 2 {
                    return false;
                }
                st = 0;
            }
        }
    }
    true
}
enum Rx {
    L(oneshot::Receiver<Result<Vec<u8>, ActorRefErr>>),
    R(oneshot::Receiver<RemoteResponse>),
}
impl Rx {
    async fn get(self) -> Result<Result<Vec<u8>, ActorRefErr>, String> {
        let t = Duration::from_secs(3);
        match self {
            Rx::L(r) => tokio::time::timeout(t, r).await.map_err(|_| "not answered".to_string())?.map_err(|_| "dropped without an answer".into()),
            Rx::R(r) => match tokio::time::timeout(t, r).await.map_err(|_| "not answered".to_string())?.map_err(|_| "dropped without an answer".to_string())? {
                RemoteResponse::Ok(b) => Ok(Ok(b)),
                RemoteResponse::Err(e) => Ok(Err(e)),
            },
        }
    }
    fn open(&mut self) -> bool {
        match self {
            Rx::L(r) => matches!(r.try_recv(), Err(oneshot::error::TryRecvError::Empty)),
            Rx::R(r) => matches!(r.try_recv(), Err(oneshot::error::TryRecvError::Empty)),
        }
    }
}

async fn entities(e: Env, w: Vec<E>) -> CaseResult {
    let key = N.fetch_add(1, Ordering::SeqCst);
    let sid = format!("S{key}");
    let sys = e.remote.actor_system().clone();
    let mk = || RemoteActorHandler::<Ent, EntF>::new(EntF).new_boxed();
    let host = ShardHost::new(sid.clone(), mk(), None).into_actor(Some(ShardHost::actor_id(&sid, 1)), &sys).await.map_err(|e| format!("{e:?}"))?;
    let start = || async { Shard::new(1, mk(), true, host.clone()).into_actor(Some(sid.clone()), &sys).await.map_err(|e| format!("{e:?}")) };
    let mut shard: LocalActorRef<Shard> = start().await?;
    let ent: ActorId = format!("e{key}").into();
    let recipe = key.to_be_bytes().to_vec();
    let begun = || GATES.lock().entry(key).or_default().0;
    // 0 absent, 1 starting, 2 active
    let (mut st, mut recorded, mut starts) = (0u8, 0usize, 0u32);
    let mut buf: Vec<(u32, Rx)> = vec![];
    let mut pays: Vec<(u32, bool)> = vec![];
    let mut ops = w.clone();
    ops.extend([E::R, E::Go, E::N]);
    for (n, o) in ops.iter().enumerate() {
        let at = format!("op {n} {o:?}");
        match o {
            E::R | E::N | E::U | E::Rr => {
                let p = PAY.fetch_add(1, Ordering::SeqCst);
                let ty = if *o == E::U { "Nobody.Knows" } else { "Ent.Ask" };
                let r = if *o == E::N { None } else { Some(recipe.clone()) };
                let rx = if *o == E::Rr {
                    let (tx, rx) = oneshot::channel();
                    let id = Uuid::new_v4();
                    e.remote.push_request(id, tx);
                    let m = RemoteEntityRequest { request_id: id, actor_id: ent.clone(), message_type: ty.into(), message: p.to_be_bytes().to_vec(), recipe: r, origin_node: 1 };
                    ensure(shard.send(m).await.is_ok(), format!("{at}: shard gone"))?;
                    Rx::R(rx)
                } else {
                    let (tx, rx) = oneshot::channel();
                    let m = EntityRequest { actor_id: ent.clone(), message_type: ty.into(), message: p.to_be_bytes().to_vec(), recipe: r.map(Arc::new), result_channel: Some(tx) };
                    ensure(shard.send(m).await.is_ok(), format!("{at}: shard gone"))?;
                    Rx::L(rx)
                };
                if *o == E::U {
                    let r = rx.get().await.map_err(|m| format!("{at}: {m}"))?;
                    ensure(matches!(r, Err(ActorRefErr::NotSupported { .. })), format!("{at}: got {r:?}, contract requires NotSupported"))?;
                    pays.push((p, false));
                } else if st == 0 && *o == E::N {
                    let r = rx.get().await.map_err(|m| format!("{at}: {m}"))?;
                    ensure(matches!(&r, Err(ActorRefErr::NotFound(id)) if *id == ent), format!("{at}: got {r:?}, contract requires NotFound"))?;
                    pays.push((p, false));
                } else if st == 2 {
                    let r = rx.get().await.map_err(|m| format!("{at}: {m}"))?;
                    let r = r.map_err(|e| format!("{at}: active entity, answered {e:?}"))?;
                    eq(&format!("{at}: answer"), r, answer(p, 1))?;
                    pays.push((p, true));
                } else {
                    if st == 0 {
                        st = 1;
                        starts += 1;
                        recorded += 1;
                    }
                    buf.push((p, rx));
                }
            }
            E::Go | E::Fail => {
                if st == 1 {
                    let b = begun();
                    GATES.lock().entry(key).or_default().1 = if *o == E::Go { 1 } else { 2 };
                    ensure(b > 0, format!("{at}: no creation begun"))?;
                    for (p, rx) in buf.drain(..) {
                        let r = rx.get().await.map_err(|m| format!("{at}: a request that waited for the entity was {m}"))?;
                        if *o == E::Go {
                            let r = r.map_err(|e| format!("{at}: waiting request answered {e:?}"))?;
                            eq(&format!("{at}: answer"), r, answer(p, 1))?;
                        } else {
                            ensure(matches!(&r, Err(e) if !matches!(e, ActorRefErr::ResultChannelClosed)), format!("{at}: entity failed to start, its requests have to be answered with the error, got {r:?}"))?;
                        }
                        pays.push((p, *o == E::Go));
                    }
                    // the answer to one more request says that the shard has heard of the outcome
                    let (tx, rx) = oneshot::channel();
                    let p = PAY.fetch_add(1, Ordering::SeqCst);
                    let m = EntityRequest { actor_id: ent.clone(), message_type: "Ent.Ask".into(), message: p.to_be_bytes().to_vec(), recipe: None, result_channel: Some(tx) };
                    ensure(shard.send(m).await.is_ok(), format!("{at}: shard gone"))?;
                    let r = Rx::L(rx).get().await.map_err(|m| format!("{at}: next request {m}"))?;
                    ensure(r.is_ok() == (*o == E::Go), format!("{at}: next request answered {r:?}"))?;
                    pays.push((p, r.is_ok()));
                    st = if *o == E::Go { 2 } else { 0 };
                }
            }
            E::Restart => {
                let _ = shard.stop().await;
                ensure(until(1500, || live(key) == 0).await, format!("{at}: an entity lives on although its shard has stopped"))?;
                gone(&e, &sid, &at).await?;
                shard = start().await?;
                st = (recorded > 0) as u8;
                starts += st as u32;
            }
            E::Halt => {
                let p = PAY.fetch_add(1, Ordering::SeqCst) | HALT;
                let (tx, rx) = oneshot::channel();
                let m = EntityRequest { actor_id: ent.clone(), message_type: "Ent.Ask".into(), message: p.to_be_bytes().to_vec(), recipe: None, result_channel: Some(tx) };
                ensure(shard.send(m).await.is_ok(), format!("{at}: shard gone"))?;
                let r = Rx::L(rx).get().await.map_err(|m| format!("{at}: {m}"))?.map_err(|e| format!("{at}: active entity, answered {e:?}"))?;
                eq(&format!("{at}: answer"), r, answer(p, 1))?;
                pays.push((p, true));
                ensure(until(1500, || live(key) == 0).await, format!("{at}: the entity did not stop"))?;
                // until the shard has heard of it, requests may still be answered with an error of the old one
                let mut known = true;
                for _ in 0..300 {
                    let (tx, rx) = oneshot::channel();
                    let p = PAY.fetch_add(1, Ordering::SeqCst);
                    let m = EntityRequest { actor_id: ent.clone(), message_type: "Ent.Ask".into(), message: p.to_be_bytes().to_vec(), recipe: None, result_channel: Some(tx) };
                    ensure(shard.send(m).await.is_ok(), format!("{at}: shard gone"))?;
                    let r = Rx::L(rx).get().await;
                    pays.push((p, false));
                    if matches!(r, Ok(Err(ActorRefErr::NotFound(_)))) {
                        known = false;
                        break;
                    }
                    ensure(!matches!(r, Ok(Ok(_))), format!("{at}: an entity that has stopped answered"))?;
                    tokio::time::sleep(Duration::from_millis(5)).await;
                }
                ensure(!known, format!("{at}: the shard keeps an entity that has stopped"))?;
                st = 0;
            }
        }
        eq(&format!("{at}: entities alive"), until(1500, || live(key) == (st == 2) as i32).await, true)?;
        for (_, rx) in buf.iter_mut() {
            ensure(rx.open(), format!("{at}: a request of a starting entity was dropped or answered"))?;
        }
        // one creation per start, never two for one start
        let ok = until(1500, || begun() >= starts).await;
        eq(&format!("{at}: creations begun"), (begun(), ok), (starts, true))?;
        let log = e.store.inner.read_latest_messages(&sid, 0).await.unwrap().unwrap_or_default();
        eq(&format!("{at}: recorded starts"), log.len(), recorded)?;
    }
    for (p, h) in pays {
        eq("times handled", handled(p), h as usize)?;
    }
    let _ = shard.stop().await;
    ensure(until(1500, || live(key) == 0).await, "an entity lives on although its shard has stopped")?;
    let _ = host.stop().await;
    Ok(())
}
/// The shard stops while an entity is being made: the entity, if it is made all the same, ends too.
async fn cut(e: Env, fails: bool, n: u32) -> CaseResult {
    let key = N.fetch_add(1, Ordering::SeqCst);
    let sid = format!("S{key}");
    let sys = e.remote.actor_system().clone();
    let mk = || RemoteActorHandler::<Ent, EntF>::new(EntF).new_boxed();
    let host = ShardHost::new(sid.clone(), mk(), None).into_actor(Some(ShardHost::actor_id(&sid, 1)), &sys).await.map_err(|e| format!("{e:?}"))?;
    let shard = Shard::new(1, mk(), true, host.clone()).into_actor(Some(sid.clone()), &sys).await.map_err(|e| format!("{e:?}"))?;
    for i in 0..n {
        let (tx, _rx) = oneshot::channel();
        let m = EntityRequest { actor_id: format!("e{key}").into(), message_type: "Ent.Ask".into(), message: (i | HALT >> 1).to_be_bytes().to_vec(), recipe: Some(Arc::new(key.to_be_bytes().to_vec())), result_channel: Some(tx) };
        ensure(shard.send(m).await.is_ok(), "shard gone")?;
    }
    ensure(until(1500, || GATES.lock().entry(key).or_default().0 == 1).await, "no creation begun")?;
    let _ = shard.stop().await;
    gone(&e, &sid, "stopped").await?;
    GATES.lock().entry(key).or_default().1 = if fails { 2 } else { 1 };
    if !fails {
        // it starts, and then ends
        let seen = until(1500, || LIVE.lock().contains_key(&key)).await;
        ensure(!seen || until(1500, || live(key) == 0).await, "an entity lives on although its shard has stopped")?;
    }
    let _ = host.stop().await;
    Ok(())
}
pub async fn entity(cx: &mut Cx) {
    let e = env(false).await;
    let max = if cx.thorough { 5 } else { 4 };
    let mut ws = words(&[E::R, E::N, E::U, E::Rr, E::Go, E::Fail, E::Restart, E::Halt], max);
    ws.retain(|w| evalid(w));
    for w in ws {
        let e = e.clone();
        cx.case("entity", format!("{w:?}"), move || entities(e.clone(), w.clone())).await;
    }
    for fails in [false, true] {
        for n in 1..3 {
            let e = e.clone();
            cx.case("an entity ends with its shard", format!("shard stops while the entity is made, fails={fails}, {n} request(s)"), move || cut(e.clone(), fails, n)).await;
        }
    }
}
