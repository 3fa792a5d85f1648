//! Executable contracts of messages between nodes (correlation, serving) and of finding and making actors, on a real node
//! whose other member is a scripted peer, reached over the loopback network.
use crate::core::*;
use crate::peer::*;
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorRecipe, ActorRef, ActorRefErr, IntoActor, IntoActorId};
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::remote::net::message::{ClientEvent, SessionEvent};
use coerce::remote::net::proto::network as proto;
use coerce::remote::net::StreamData;
use coerce::remote::system::{RemoteActorErr, RemoteActorSystem};
use coerce::remote::RemoteActorRef;
use futures::{SinkExt, StreamExt};
use parking_lot::Mutex;
use protobuf::well_known_types::wrappers::UInt64Value;
use protobuf::Message as ProtoMessage;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::net::TcpStream;
use tokio::sync::mpsc;
use tokio_util::codec::{FramedRead, FramedWrite, LengthDelimitedCodec};
use uuid::Uuid;

static N: AtomicU64 = AtomicU64::new(1);
/// (actor, payload) in the order in which actors of this process handled them
static HANDLED: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(vec![]);
/// actors made from recipes
static MADE: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);

const CANNOT_SEND: u8 = 0xEE;
const CANNOT_READ: u8 = 0xDD;
const CANNOT_ANSWER: u8 = 0xCC;
const SLOW: u8 = 0xBB;

pub struct Rem;
#[async_trait]
impl Actor for Rem {}
#[derive(Clone, Debug, PartialEq)]
pub struct Req(pub Vec<u8>);
#[derive(Clone, Debug, PartialEq)]
pub struct Unknown;
fn answer_to(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v.reverse();
    v.push(7);
    v
}
impl Message for Req {
    type Result = Vec<u8>;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        if self.0.first() == Some(&CANNOT_SEND) {
            return Err(MessageWrapErr::NotTransmittable);
        }
        Ok(self.0.clone())
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        if b.first() == Some(&CANNOT_READ) {
            return Err(MessageUnwrapErr::NotTransmittable);
        }
        Ok(Req(b))
    }
    fn read_remote_result(b: Vec<u8>) -> Result<Vec<u8>, MessageUnwrapErr> {
        if b.first() == Some(&CANNOT_READ) {
            return Err(MessageUnwrapErr::NotTransmittable);
        }
        Ok(b)
    }
    fn write_remote_result(r: Vec<u8>) -> Result<Vec<u8>, MessageWrapErr> {
        if r.first() == Some(&CANNOT_ANSWER) || r.get(r.len().wrapping_sub(2)) == Some(&CANNOT_ANSWER) {
            return Err(MessageWrapErr::NotTransmittable);
        }
        Ok(r)
    }
}
impl Message for Unknown {
    type Result = ();
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(vec![])
    }
}
#[async_trait]
impl Handler<Req> for Rem {
    async fn handle(&mut self, m: Req, ctx: &mut ActorContext) -> Vec<u8> {
        if m.0.first() == Some(&SLOW) {
            tokio::time::sleep(Duration::from_millis(30)).await;
        }
        HANDLED.lock().push((ctx.id().to_string(), m.0.clone()));
        answer_to(&m.0)
    }
}
#[async_trait]
impl Handler<Unknown> for Rem {
    async fn handle(&mut self, _: Unknown, _: &mut ActorContext) {}
}
pub struct RemR(pub Vec<u8>);
impl ActorRecipe for RemR {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Self> {
        (b.first() != Some(&CANNOT_READ)).then(|| RemR(b.clone()))
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        (self.0.first() != Some(&CANNOT_SEND)).then(|| self.0.clone())
    }
}
#[derive(Clone)]
pub struct RemF;
#[async_trait]
impl ActorFactory for RemF {
    type Actor = Rem;
    type Recipe = RemR;
    async fn create(&self, r: RemR) -> Result<Rem, ActorCreationErr> {
        if r.0.first() == Some(&CANNOT_ANSWER) {
            return Err(ActorCreationErr::InvalidRecipe("scripted".into()));
        }
        MADE.lock().push(r.0);
        Ok(Rem)
    }
}

/// A connection of another node to this one.
pub struct Dialer {
    tx: mpsc::UnboundedSender<Vec<u8>>,
    pub log: Arc<Mutex<Vec<ClientEvent>>>,
    pub closed: Arc<Mutex<bool>>,
}
impl Dialer {
    pub async fn dial(addr: &str) -> Dialer {
        let s = TcpStream::connect(addr).await.unwrap();
        let (r, w) = s.into_split();
        let mut read = FramedRead::new(r, LengthDelimitedCodec::new());
        let mut write = FramedWrite::new(w, LengthDelimitedCodec::new());
        let (tx, mut rx) = mpsc::unbounded_channel::<Vec<u8>>();
        let log: Arc<Mutex<Vec<ClientEvent>>> = Default::default();
        let closed: Arc<Mutex<bool>> = Default::default();
        tokio::spawn(async move {
            while let Some(b) = rx.recv().await {
                if write.send(b.into()).await.is_err() {
                    break;
                }
            }
        });
        let (l, c) = (log.clone(), closed.clone());
        tokio::spawn(async move {
            while let Some(Ok(b)) = read.next().await {
                if let Some(e) = ClientEvent::read_from_bytes(b.to_vec()) {
                    l.lock().push(e);
                }
            }
            *c.lock() = true;
        });
        Dialer { tx, log, closed }
    }
    pub fn raw(&self, b: Vec<u8>) {
        let _ = self.tx.send(b);
    }
    pub fn send(&self, e: &SessionEvent) {
        self.raw(e.write_to_bytes().unwrap())
    }
    pub fn identify(&self, id: u64) {
        self.send(&SessionEvent::Identify(proto::IdentifyEvent { source_node_id: id, source_node_tag: "dialer".into(), ..Default::default() }.into()))
    }
}

pub fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

type Locations = Arc<Mutex<BTreeMap<String, Option<u64>>>>;
type Creations = Arc<Mutex<BTreeMap<String, u8>>>;
#[derive(Clone)]
struct Fix {
    remote: RemoteActorSystem,
    peer: Peer,
    log: Log,
    dialer: Arc<Dialer>,
    /// what the peer answers when asked where an actor is
    locations: Locations,
    /// what the peer answers when asked to make an actor: 0 address, 1 error, 2 unreadable
    creations: Creations,
}
async fn fixture() -> Fix {
    let log: Log = Default::default();
    let locations: Locations = Default::default();
    let creations: Creations = Default::default();
    let (l, c) = (locations.clone(), creations.clone());
    let script: Script = Arc::new(move |_, ev| match ev {
        SessionEvent::FindActor(f) => {
            let a = proto::ActorAddress {
                actor_id: f.actor_id.clone(),
                node_id: l.lock().get(&f.actor_id).cloned().flatten().map(UInt64Value::from).into(),
                ..Default::default()
            };
            vec![result_of(&f.message_id, a.write_to_bytes().unwrap())]
        }
        SessionEvent::CreateActor(q) => match c.lock().get(&q.actor_id).cloned().unwrap_or(0) {
            0 => {
                let a = proto::ActorAddress { actor_id: q.actor_id.clone(), node_id: Some(UInt64Value::from(2)).into(), ..Default::default() };
                vec![result_of(&q.message_id, a.write_to_bytes().unwrap())]
            }
            1 => vec![err_of(&q.message_id, ActorRefErr::ActorUnavailable)],
            _ => vec![result_of(&q.message_id, vec![0xff; 3])],
        },
        _ => vec![],
    });
    let peer = Peer::start(2, log.clone(), script).await;
    let remote = node(InMemoryStorageProvider::new(), 1, |c| c.with_actor(RemF).with_handler::<Rem, Req>("Rem.Req")).await;
    let addr = format!("127.0.0.1:{}", free_port());
    let server = remote.clone().cluster_worker().listen_addr(addr.clone()).start().await;
    std::mem::forget(server);
    join(&remote, &peer).await;
    let dialer = Arc::new(Dialer::dial(&addr).await);
    dialer.identify(2);
    let l = dialer.log.clone();
    until(3000, || l.lock().iter().any(|e| matches!(e, ClientEvent::Identity(_)))).await;
    Fix { remote, peer, log, dialer, locations, creations }
}
fn err_of(id: &str, e: ActorRefErr) -> ClientEvent {
    ClientEvent::Err(proto::ClientErr { message_id: id.to_string(), error: Some(e.into()).into(), ..Default::default() })
}
fn unique(s: &str) -> String {
    format!("{s}-{}", N.fetch_add(1, Ordering::SeqCst))
}
impl Fix {
    fn asked(&self, actor: &str) -> Vec<proto::MessageRequest> {
        self.log.lock().iter().filter_map(|(_, e)| match e { SessionEvent::NotifyActor(q) if q.actor_id == actor => Some(q.clone()), _ => None }).collect()
    }
    fn errors(&self, id: &str) -> Vec<ActorRefErr> {
        self.log
            .lock()
            .iter()
            .filter_map(|(_, e)| match e {
                SessionEvent::Err(q) if q.message_id == id => q.error.clone().into_option().map(|e| e.into()),
                _ => None,
            })
            .chain(self.dialer.log.lock().iter().filter_map(|e| match e {
                ClientEvent::Err(q) if q.message_id == id => q.error.clone().into_option().map(|e| e.into()),
                _ => None,
            }))
            .collect()
    }
    fn results(&self, id: &str) -> Vec<Vec<u8>> {
        self.dialer
            .log
            .lock()
            .iter()
            .filter_map(|e| match e { ClientEvent::Result(q) if q.message_id == id => Some(q.result.clone()), _ => None })
            .chain(self.log.lock().iter().filter_map(|(_, e)| match e { SessionEvent::Result(q) if q.message_id == id => Some(q.result.clone()), _ => None }))
            .collect()
    }
    fn answers(&self, id: &str) -> usize {
        self.errors(id).len() + self.results(id).len()
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Back {
    Ok,
    Err,
    Unreadable,
}

/// Asks, answered in this order and in this way, with answers nobody asked for and second answers in between.
async fn outgoing(f: Fix, order: Vec<usize>, backs: Vec<Back>, via: bool) -> CaseResult {
    let n = order.len();
    let ids: Vec<String> = (0..n).map(|i| unique(&format!("out{i}"))).collect();
    let mut asks = vec![];
    for (i, id) in ids.iter().enumerate() {
        let r: ActorRef<Rem> = RemoteActorRef::<Rem>::new(id.clone().into_actor_id(), 2, f.remote.clone()).into();
        asks.push(tokio::spawn(async move { r.send(Req(vec![1, i as u8, (i >> 8) as u8])).await }));
    }
    let g = f.clone();
    let ids2 = ids.clone();
    ensure(until(3000, || ids2.iter().all(|i| g.asked(i).len() >= 1)).await, "a request was not sent to the node of its actor")?;
    let mut seen = vec![];
    for (i, id) in ids.iter().enumerate() {
        let q = &f.asked(id)[0];
        eq("handler named in the request", q.handler_type.as_str(), "Rem.Req")?;
        eq("payload of the request", q.message.clone(), vec![1, i as u8, (i >> 8) as u8])?;
        eq("request wants an answer", q.requires_response, true)?;
        eq("node the answer goes to", q.origin_node_id, 1)?;
        ensure(!seen.contains(&q.message_id), "two requests have the same id")?;
        seen.push(q.message_id.clone());
    }
    eq("requests waiting", f.remote.inflight_remote_request_count(), n)?;
    let put = |e: ClientEvent| {
        if via {
            // (an answer may also come on the other connection, as a message of the other node)
            let e = match e {
                ClientEvent::Result(r) => SessionEvent::Result(r),
                ClientEvent::Err(r) => SessionEvent::Err(r),
                _ => return,
            };
            f.dialer.send(&e)
        } else {
            f.peer.send(&e)
        }
    };
    for i in order {
        put(result_of(&Uuid::new_v4().to_string(), vec![0]));
        put(err_of(&Uuid::new_v4().to_string(), ActorRefErr::ActorUnavailable));
        let e = match backs[i] {
            Back::Ok => result_of(&seen[i], vec![9, i as u8, (i >> 8) as u8]),
            Back::Err => err_of(&seen[i], ActorRefErr::NotFound(format!("gone{i}").into_actor_id())),
            Back::Unreadable => result_of(&seen[i], vec![CANNOT_READ]),
        };
        put(e);
        put(result_of(&seen[i], vec![0xee]));
        let r = tokio::time::timeout(Duration::from_secs(3), &mut asks[i]).await.map_err(|_| format!("ask {i} was answered but is still waiting"))?.map_err(|e| format!("{e}"))?;
        match (backs[i], r) {
            (Back::Ok, Ok(v)) => eq("answer", v, vec![9, i as u8, (i >> 8) as u8])?,
            (Back::Err, Err(ActorRefErr::NotFound(id))) => eq("error", id.to_string(), format!("gone{i}"))?,
            (Back::Unreadable, Err(ActorRefErr::Deserialisation(_))) => {}
            (b, r) => return Err(format!("ask {i}, answered {b:?}, got {r:?}")),
        }
    }
    for id in &ids {
        eq("requests sent for one ask", f.asked(id).len(), 1)?;
    }
    eq("requests waiting after all answers", f.remote.inflight_remote_request_count(), 0)
}

/// Asks and tells that are sent or cannot be.
async fn unsent(f: Fix, word: Vec<char>) -> CaseResult {
    let id = unique("un");
    let r: ActorRef<Rem> = RemoteActorRef::<Rem>::new(id.clone().into_actor_id(), 2, f.remote.clone()).into();
    let mut tells = 0;
    for (i, c) in word.iter().enumerate() {
        match c {
            't' => {
                eq("tell", r.notify(Req(vec![2, i as u8])).await.is_ok(), true)?;
                tells += 1;
            }
            'T' => ensure(matches!(r.notify(Req(vec![CANNOT_SEND])).await, Err(ActorRefErr::Serialisation(_))), "a message that cannot be written is reported")?,
            'A' => ensure(matches!(r.send(Req(vec![CANNOT_SEND])).await, Err(ActorRefErr::Serialisation(_))), "an ask that cannot be written is reported")?,
            'u' => ensure(matches!(r.send(Unknown).await, Err(ActorRefErr::NotSupported { .. })), "a message without a handler is reported")?,
            _ => ensure(matches!(r.notify(Unknown).await, Err(ActorRefErr::NotSupported { .. })), "a message without a handler is reported")?,
        }
    }
    let g = f.clone();
    let i2 = id.clone();
    until(2000, || g.asked(&i2).len() >= tells).await;
    tokio::time::sleep(Duration::from_millis(5)).await;
    let got: Vec<_> = f.asked(&id).into_iter().map(|q| (q.requires_response, q.message)).collect();
    let want: Vec<_> = word.iter().enumerate().filter(|(_, c)| **c == 't').map(|(i, _)| (false, vec![2, i as u8])).collect();
    eq("messages sent", got, want)?;
    eq("requests waiting", f.remote.inflight_remote_request_count(), 0)
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct In {
    /// live, missing, ended, replaced
    actor: u8,
    handler: bool,
    payload: u8,
    wants: bool,
    /// the answer goes back to the asking node
    origin: u64,
}
/// Messages from another node for actors of this one, all at once.
async fn incoming(f: Fix, ins: Vec<In>) -> CaseResult {
    let mut all = vec![];
    for (i, x) in ins.iter().enumerate() {
        let id = unique(&format!("in{i}"));
        if x.actor != 1 {
            let a = Rem.into_actor(Some(id.clone()), f.remote.actor_system()).await.map_err(|e| e.to_string())?;
            if x.actor >= 2 {
                // it has been talked to before, then it ended
                let m = Uuid::new_v4().to_string();
                f.dialer.send(&request(&m, &id, "Rem.Req", vec![5], true, 2));
                let g = f.clone();
                ensure(until(3000, || g.answers(&m) >= 1).await, "no answer")?;
                let _ = a.stop().await;
                HANDLED.lock().retain(|h| h.0 != id);
                if x.actor == 3 {
                    Rem.into_actor(Some(id.clone()), f.remote.actor_system()).await.map_err(|e| e.to_string())?;
                }
            }
        }
        all.push((id, Uuid::new_v4().to_string(), *x, vec![x.payload, i as u8]));
    }
    for (id, m, x, b) in &all {
        f.dialer.send(&request(m, id, if x.handler { "Rem.Req" } else { "Rem.Other" }, b.clone(), x.wants, x.origin));
    }
    for (id, m, x, b) in &all {
        let g = f.clone();
        let (i2, m2) = (id.clone(), m.clone());
        let handled = || HANDLED.lock().iter().filter(|h| h.0 == *id).map(|h| h.1.clone()).collect::<Vec<_>>();
        let runs = x.handler && x.actor != 1 && x.actor != 2 && x.payload != CANNOT_READ;
        if x.wants {
            ensure(until(4000, || g.answers(&m2) >= 1).await, format!("no answer to {x:?}"))?;
        } else if runs {
            ensure(until(4000, || HANDLED.lock().iter().any(|h| h.0 == i2)).await, format!("{x:?} was not handled"))?;
        }
        tokio::time::sleep(Duration::from_millis(4)).await;
        eq(&format!("messages handled, {x:?}"), handled(), if runs { vec![b.clone()] } else { vec![] })?;
        let (rs, es) = (f.results(m), f.errors(m));
        if runs && x.payload != CANNOT_ANSWER {
            eq(&format!("results of {x:?}"), rs, if x.wants { vec![answer_to(b)] } else { vec![] })?;
            eq(&format!("errors of {x:?}"), es.len(), 0)?;
        } else {
            eq(&format!("results of {x:?}"), rs.len(), 0)?;
            if x.wants {
                eq(&format!("errors of {x:?}"), es.len(), 1)?;
            }
            for e in es {
                let ok = match &e {
                    ActorRefErr::NotSupported { actor_id, message_type, .. } => !x.handler && actor_id.to_string() == *id && message_type == "Rem.Other",
                    ActorRefErr::NotFound(a) => x.handler && (x.actor == 1 || x.actor == 2) && a.to_string() == *id,
                    ActorRefErr::Deserialisation(_) => x.handler && x.payload == CANNOT_READ,
                    ActorRefErr::Serialisation(_) => runs && x.payload == CANNOT_ANSWER,
                    // (an actor that ended may also be found gone while asked)
                    ActorRefErr::ActorUnavailable | ActorRefErr::InvalidRef | ActorRefErr::ResultChannelClosed | ActorRefErr::ResultSendFailed => x.actor == 2,
                    _ => false,
                };
                ensure(ok, format!("{x:?} was answered {e:?}"))?;
            }
        }
    }
    Ok(())
}
fn request(m: &str, actor: &str, handler: &str, b: Vec<u8>, wants: bool, origin: u64) -> SessionEvent {
    SessionEvent::NotifyActor(proto::MessageRequest {
        message_id: m.to_string(),
        handler_type: handler.to_string(),
        actor_id: actor.to_string(),
        message: b,
        requires_response: wants,
        origin_node_id: origin,
        ..Default::default()
    })
}

/// Pings are answered under their id.
async fn pings(f: Fix, n: usize) -> CaseResult {
    let ids: Vec<String> = (0..n).map(|_| Uuid::new_v4().to_string()).collect();
    for i in &ids {
        f.dialer.send(&SessionEvent::Ping(proto::PingEvent { message_id: i.clone(), node_id: 2, ..Default::default() }));
    }
    let g = f.clone();
    let count = |i: &str| g.dialer.log.lock().iter().filter(|e| matches!(e, ClientEvent::Pong(p) if p.message_id == i)).count();
    ensure(until(3000, || ids.iter().all(|i| count(i) >= 1)).await, "a ping was not answered")?;
    for i in &ids {
        eq("answers to a ping", count(i), 1)?;
    }
    Ok(())
}

pub async fn rpc(cx: &mut Cx) {
    let f = fixture().await;
    let kinds = [Back::Ok, Back::Err, Back::Unreadable];
    for n in 1..=(if cx.thorough { 4 } else { 3 }) {
        for order in permutations(n) {
            for backs in words(&kinds, n).into_iter().filter(|w| w.len() == n) {
                for via in [false, true] {
                    let key = format!("asks answered in order {order:?} by {backs:?}{}", if via { " on the other connection" } else { "" });
                    let (f, order, backs) = (f.clone(), order.clone(), backs.clone());
                    cx.case("caller gets exactly the answer to its request", key, move || outgoing(f.clone(), order.clone(), backs.clone(), via)).await;
                }
            }
        }
    }
    for n in if cx.thorough { vec![10, 100, 1000] } else { vec![10, 200] } {
        let order: Vec<usize> = (0..n).rev().collect();
        let backs: Vec<Back> = (0..n).map(|i| kinds[i % 3]).collect();
        let f = f.clone();
        cx.case("caller gets exactly the answer to its request", format!("{n} asks, answered last first"), move || outgoing(f.clone(), order.clone(), backs.clone(), n == 100)).await;
    }
    for w in words(&['t', 'T', 'A', 'u', 'U'], if cx.thorough { 4 } else { 3 }) {
        let key = format!("messages {}", w.iter().collect::<String>());
        let f = f.clone();
        cx.case("sent once, or reported and not waiting", key, move || unsent(f.clone(), w.clone())).await;
    }
    let mut ins = vec![];
    for actor in [0u8, 1, 2, 3] {
        for handler in [true, false] {
            for payload in [1u8, CANNOT_READ, CANNOT_ANSWER, SLOW] {
                for wants in [true, false] {
                    ins.push(In { actor, handler, payload, wants, origin: 2 });
                }
            }
        }
    }
    let key = |w: &Vec<In>| {
        w.iter().map(|x| format!("{}{}{:x}{}", ["live", "missing", "ended", "replaced"][x.actor as usize], if x.handler { "" } else { " unknown handler" }, x.payload, if x.wants { " ask" } else { " tell" })).collect::<Vec<_>>().join(", ")
    };
    for x in &ins {
        let w = vec![*x];
        let f = f.clone();
        cx.case("served once and answered once", format!("incoming {}", key(&w)), move || incoming(f.clone(), w.clone())).await;
    }
    let mut rng = cx.rng(13);
    for _ in 0..(if cx.thorough { 400 } else { 60 }) {
        let w: Vec<In> = (0..2 + rng.below(4)).map(|_| *rng.pick(&ins)).collect();
        let f = f.clone();
        cx.case("served once and answered once", format!("incoming {}", key(&w)), move || incoming(f.clone(), w.clone())).await;
    }
    for n in 1..4 {
        let f = f.clone();
        cx.case("pings answered under their id", format!("{n} pings"), move || pings(f.clone(), n)).await;
    }
}

// ------------------------------------------------------------------ where actors are, and making them
/// What is done about one id.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Loc {
    /// an actor starts here under that id
    Start,
    /// another node says the actor is on node 2 / 3
    Said2,
    Said3,
    /// the other node, if it is the one in charge, knows it to be on node 1 / 2 / nowhere
    There1,
    There2,
    Nowhere,
}
impl Fix {
    fn found(&self, id: &str) -> usize {
        self.log.lock().iter().filter(|(_, e)| matches!(e, SessionEvent::FindActor(f) if f.actor_id == id)).count()
    }
    fn registered(&self, id: &str) -> Vec<u64> {
        self.log.lock().iter().filter_map(|(_, e)| match e { SessionEvent::RegisterActor(a) if a.actor_id == id => Some(a.node_id.value), _ => None }).collect()
    }
    /// Whether this node is in charge of the id (an id like it that nobody knows of is not asked for elsewhere).
    async fn own(&self, id: &str) -> bool {
        let n = self.found(id);
        let _ = self.remote.locate_actor_node(id.to_string().into_actor_id()).await;
        self.found(id) == n
    }
}
async fn location(f: Fix, own: bool, word: Vec<Loc>) -> CaseResult {
    let mut id = unique("loc");
    for _ in 0..200 {
        if f.own(&id).await == own {
            break;
        }
        id = unique("loc");
    }
    let aid = id.clone().into_actor_id();
    // where this node itself knows it to be; whether it runs here; where the other node says it is
    let (mut here, mut live, mut there) = (None::<u64>, false, None::<u64>);
    for x in &word {
        match x {
            Loc::Start => {
                if live {
                    continue;
                }
                let n = f.registered(&id).len();
                Rem.into_actor(Some(id.clone()), f.remote.actor_system()).await.map_err(|e| e.to_string())?;
                live = true;
                if own {
                    here = Some(1);
                    let (g, a) = (f.clone(), aid.clone());
                    for _ in 0..400 {
                        if g.remote.locate_actor_node(a.clone()).await == Some(1) {
                            break;
                        }
                        tokio::time::sleep(Duration::from_millis(2)).await;
                    }
                } else {
                    let (g, i) = (f.clone(), id.clone());
                    ensure(until(3000, || g.registered(&i).len() > n).await, "the node in charge is not told of a new actor")?;
                    eq("what the node in charge is told", f.registered(&id).last().cloned(), Some(1))?;
                }
            }
            Loc::Said2 | Loc::Said3 => {
                let n = if *x == Loc::Said2 { 2 } else { 3 };
                f.dialer.send(&SessionEvent::RegisterActor(proto::ActorAddress { actor_id: id.clone(), node_id: Some(UInt64Value::from(n)).into(), ..Default::default() }));
                here = Some(n);
                for _ in 0..400 {
                    if f.remote.locate_actor_node(aid.clone()).await == Some(n) {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
            }
            Loc::There1 | Loc::There2 | Loc::Nowhere => {
                there = match x { Loc::There1 => Some(1), Loc::There2 => Some(2), _ => None };
                f.locations.lock().insert(id.clone(), there);
            }
        }
        let want = here.or(if own { None } else { there });
        let n = f.found(&id);
        let got = f.remote.locate_actor_node(aid.clone()).await;
        eq(&format!("location after {word:?} up to {x:?}"), got, want)?;
        eq("lookups at the node in charge", f.found(&id) - n, (here.is_none() && !own) as usize)?;
        let r = f.remote.actor_ref::<Rem>(aid.clone()).await;
        match want {
            None => ensure(r.is_none(), "a reference to an actor that is nowhere")?,
            Some(1) => {
                ensure(r.is_some() == live, format!("reference to a local actor (live: {live}): {r:?}"))?;
                if let Some(r) = r {
                    eq("a local actor is reached locally", r.node_id(), None)?;
                    eq("id of the reference", r.actor_id().to_string(), id.clone())?;
                    eq("the actor answers", r.send(Req(vec![4])).await.ok(), Some(answer_to(&[4])))?;
                }
            }
            Some(k) => {
                let r = r.ok_or("no reference to an actor on another node")?;
                eq("node of the reference", r.node_id(), Some(k))?;
                eq("id of the reference", r.actor_id().to_string(), id.clone())?;
            }
        }
        // another node asks
        let m = Uuid::new_v4().to_string();
        f.dialer.send(&SessionEvent::FindActor(proto::FindActorEvent { message_id: m.clone(), actor_id: id.clone(), ..Default::default() }));
        let (g, m2) = (f.clone(), m.clone());
        ensure(until(6000, || g.answers(&m2) > 0).await, "a lookup by another node is not answered")?;
        let rs = f.results(&m);
        eq("answers to a lookup", rs.len(), 1)?;
        let a = proto::ActorAddress::parse_from_bytes(&rs[0]).map_err(|e| e.to_string())?;
        eq("id in the answer to a lookup", a.actor_id.clone(), id.clone())?;
        eq("node in the answer to a lookup", a.node_id.as_ref().map(|v| v.value), want)?;
    }
    Ok(())
}

/// Another node asks this one to make an actor.
async fn created(f: Fix, ty: bool, recipe: u8, taken: u8, named: bool, twice: bool) -> CaseResult {
    let id = unique("new");
    let tag = vec![recipe, 0, (N.load(Ordering::SeqCst) >> 8) as u8, N.load(Ordering::SeqCst) as u8, taken, named as u8];
    match taken {
        1 => {
            Rem.into_actor(Some(id.clone()), f.remote.actor_system()).await.map_err(|e| e.to_string())?;
            f.locations.lock().insert(id.clone(), Some(1));
            for _ in 0..400 {
                if f.remote.locate_actor_node(id.clone().into_actor_id()).await == Some(1) {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        2 => {
            f.dialer.send(&SessionEvent::RegisterActor(proto::ActorAddress { actor_id: id.clone(), node_id: Some(UInt64Value::from(2)).into(), ..Default::default() }));
            for _ in 0..400 {
                if f.remote.locate_actor_node(id.clone().into_actor_id()).await == Some(2) {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        _ => {}
    }
    let before = MADE.lock().iter().filter(|m| **m == tag).count();
    for round in 0..(1 + twice as usize) {
        let m = Uuid::new_v4().to_string();
        f.dialer.send(&SessionEvent::CreateActor(proto::CreateActorEvent {
            message_id: m.clone(),
            actor_id: if named { id.clone() } else { String::new() },
            actor_type: if ty { Rem::type_name().to_string() } else { "Nothing".into() },
            recipe: tag.clone(),
            ..Default::default()
        }));
        let (g, m2) = (f.clone(), m.clone());
        ensure(until(6000, || g.answers(&m2) > 0).await, "a request to make an actor is not answered")?;
        tokio::time::sleep(Duration::from_millis(3)).await;
        eq("answers", f.answers(&m), 1)?;
        let fine = ty && recipe == 1 && !(named && taken > 0) && !(named && round == 1);
        let made = MADE.lock().iter().filter(|m| **m == tag).count() - before;
        eq("actors made", made, if !ty || recipe != 1 || (named && taken > 0) { 0 } else if named { 1 } else { round + 1 })?;
        let rs = f.results(&m);
        eq("answered with an address", rs.len() == 1, fine)?;
        if fine {
            let a = proto::ActorAddress::parse_from_bytes(&rs[0]).map_err(|e| e.to_string())?;
            eq("node of the new actor", a.node_id.value, 1)?;
            if named {
                eq("id of the new actor", a.actor_id.clone(), id.clone())?;
                // (where the other node is in charge, it has been told)
                f.locations.lock().insert(id.clone(), Some(1));
            }
            let x = f.remote.actor_system().get_tracked_actor::<Rem>(a.actor_id.into_actor_id()).await.ok_or("the new actor is not there")?;
            eq("the new actor answers", x.send(Req(vec![8])).await.ok(), Some(answer_to(&[8])))?;
        }
    }
    Ok(())
}

/// This node makes an actor, here or elsewhere.
async fn deployed(f: Fix, on: Option<u64>, recipe: u8, named: bool, answer: u8, taken: bool) -> CaseResult {
    let id = unique("dep");
    let tag = vec![recipe, 1, (N.load(Ordering::SeqCst) >> 8) as u8, N.load(Ordering::SeqCst) as u8];
    f.creations.lock().insert(id.clone(), answer);
    if taken {
        f.dialer.send(&SessionEvent::RegisterActor(proto::ActorAddress { actor_id: id.clone(), node_id: Some(UInt64Value::from(3)).into(), ..Default::default() }));
        for _ in 0..400 {
            if f.remote.locate_actor_node(id.clone().into_actor_id()).await == Some(3) {
                break;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }
    let asked = |f: &Fix| {
        f.log.lock().iter().filter_map(|(_, e)| match e { SessionEvent::CreateActor(q) if q.recipe == tag => Some(q.clone()), _ => None }).collect::<Vec<_>>()
    };
    let r = f.remote.deploy_actor::<RemF>(named.then(|| id.clone().into_actor_id()), RemR(tag.clone()), on).await;
    let (here, sent) = (on != Some(2), recipe != CANNOT_SEND);
    let made = MADE.lock().iter().filter(|m| **m == tag).count();
    let q = asked(&f);
    eq("actors made here", made, (here && recipe == 1 && !taken) as usize)?;
    eq("requests to the other node", q.len(), (!here && sent) as usize)?;
    eq("requests waiting", f.remote.inflight_remote_request_count(), 0)?;
    if let Some(q) = q.first() {
        eq("type in the request", q.actor_type.as_str(), Rem::type_name())?;
        if named {
            eq("id in the request", q.actor_id.clone(), id.clone())?;
        }
    }
    match r {
        Ok(r) => {
            ensure(if here { recipe == 1 && !taken } else { sent && (answer == 0 || !named) }, "an actor that was not made")?;
            eq("node of the reference", r.node_id(), if here { None } else { Some(2) })?;
            if named {
                eq("id of the reference", r.actor_id().to_string(), id.clone())?;
            }
            if here {
                eq("the new actor answers", r.send(Req(vec![6])).await.ok(), Some(answer_to(&[6])))?;
            }
        }
        Err(e) => {
            let ok = match &e {
                RemoteActorErr::RecipeSerializationErr => !sent,
                RemoteActorErr::ActorExists => here && sent && taken,
                RemoteActorErr::ActorUnavailable => here && sent && !taken && recipe != 1,
                RemoteActorErr::NodeErr(_) => !here && sent && named && answer > 0,
                _ => false,
            };
            ensure(ok, format!("refused with {e:?}"))?;
        }
    }
    Ok(())
}

pub async fn location_suite(cx: &mut Cx) {
    let f = fixture().await;
    let alphabet = [Loc::Start, Loc::Said2, Loc::Said3, Loc::There1, Loc::There2, Loc::Nowhere];
    for w in words(&alphabet, if cx.thorough { 4 } else { 3 }) {
        for own in [true, false] {
            if own && w.iter().any(|x| matches!(x, Loc::There1 | Loc::There2 | Loc::Nowhere)) && w.len() > 1 {
                continue;
            }
            let key = format!("{} {w:?}", if own { "own id" } else { "other node's id" });
            let (f, w) = (f.clone(), w.clone());
            cx.case("an actor is found where it was last said to be", key, move || location(f.clone(), own, w.clone())).await;
        }
    }
    for ty in [true, false] {
        for recipe in [1u8, CANNOT_READ, CANNOT_ANSWER] {
            for taken in [0u8, 1, 2] {
                for named in [true, false] {
                    for twice in [false, true] {
                        let key = format!("create: type {ty}, recipe {recipe:x}, {}, {}{}", ["free", "taken here", "taken elsewhere"][taken as usize], if named { "named" } else { "unnamed" }, if twice { ", twice" } else { "" });
                        let f = f.clone();
                        cx.case("a request to make an actor is answered", key, move || created(f.clone(), ty, recipe, taken, named, twice)).await;
                    }
                }
            }
        }
    }
    for on in [None, Some(1), Some(2)] {
        for recipe in [1u8, CANNOT_READ, CANNOT_ANSWER, CANNOT_SEND] {
            for named in [true, false] {
                for answer in [0u8, 1, 2] {
                    for taken in [false, true] {
                        if taken && !named {
                            continue;
                        }
                        let key = format!("deploy: on {on:?}, recipe {recipe:x}, {}, answer {answer}, taken {taken}", if named { "named" } else { "unnamed" });
                        let f = f.clone();
                        cx.case("an actor is made where it is asked for", key, move || deployed(f.clone(), on, recipe, named, answer, taken)).await;
                    }
                }
            }
        }
    }
}
