//! What one node writes for another reads back as it was; what is no message is refused (C18).
use crate::core::*;
use coerce::actor::message::{Message as ActorMessage, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::system::ActorSystem;
use coerce::actor::{ActorRefErr, IntoActorId};
use coerce::remote::cluster::node::RemoteNode;
use coerce::remote::net::message::{ClientEvent, SessionEvent};
use coerce::remote::net::proto::network as net;
use coerce::remote::net::{receive_loop, StreamData, StreamReceiver};
use coerce::remote::stream::system::{ClusterEvent, ClusterMemberUp, SystemEvent};
use coerce::remote::system::RemoteActorSystem;
use coerce::sharding::coordinator::allocation::{AllocateShard, AllocateShardErr, AllocateShardResult};
use coerce::sharding::host::request::RemoteEntityRequest;
use coerce::sharding::host::{ShardAllocated, ShardReallocating, ShardStopped, StopShard};
use coerce::sharding::proto::sharding as shp;
use coerce::sharding::shard::message::{PassivateEntity, RemoveEntity, StartEntity};
use parking_lot::Mutex;
use protobuf::{Enum, Message};
use std::sync::Arc;
use tokio_util::codec::{FramedRead, LengthDelimitedCodec};
use uuid::Uuid;

fn text(r: &mut Rng) -> String {
    let n = r.below(4);
    (0..n).map(|_| *r.pick(&['a', 'Z', '0', '-', '/', ' ', '\u{e9}', '\u{1F600}', '\0'])).collect()
}
fn data(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 2, 7, 130, 300]);
    (0..n).map(|_| r.next() as u8).collect()
}
fn num(r: &mut Rng) -> u64 {
    let x = r.next();
    *r.pick(&[0, 1, 127, 128, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, 1 << 63, u64::MAX, x])
}
fn num32(r: &mut Rng) -> u32 {
    let x = r.next() as u32;
    *r.pick(&[0, 1, 127, 128, i32::MAX as u32, 1 << 31, u32::MAX, x])
}
fn flag(r: &mut Rng) -> bool {
    r.below(2) == 1
}
fn node(r: &mut Rng) -> RemoteNode {
    let started = if flag(r) { chrono::TimeZone::timestamp_opt(&chrono::Utc, (r.next() % 4_000_000_000) as i64, (r.next() % 1_000_000_000) as u32).single() } else { None };
    let mut attrs = std::collections::HashMap::new();
    for _ in 0..r.below(3) {
        attrs.insert(text(r).into(), text(r).into());
    }
    RemoteNode::new(num(r), text(r), text(r), started, Arc::new(attrs))
}
fn show_node(n: &RemoteNode) -> String {
    let mut a: Vec<String> = n.attributes.iter().map(|(k, v)| format!("{k:?}={v:?}")).collect();
    a.sort();
    format!("{} {:?} {:?} {:?} {a:?}", n.id, n.addr, n.tag, n.node_started_at)
}
fn show_system(e: &SystemEvent) -> String {
    let SystemEvent::Cluster(e) = e;
    match e {
        ClusterEvent::MemberUp(u) => format!("up {} {:?}", u.leader_id, u.nodes.iter().map(|n| show_node(n)).collect::<Vec<_>>()),
        ClusterEvent::NodeAdded(n) => format!("added {}", show_node(n)),
        ClusterEvent::NodeRemoved(n) => format!("removed {}", show_node(n)),
        ClusterEvent::LeaderChanged(n) => format!("leader {n}"),
    }
}
fn pnode(r: &mut Rng) -> net::RemoteNode {
    net::RemoteNode { node_id: num(r), addr: text(r), tag: text(r), ..Default::default() }
}

/// A message of each kind this node can write, with fields from `r`.
fn client_event(k: usize, r: &mut Rng) -> ClientEvent {
    match k {
        0 => ClientEvent::Identity(net::NodeIdentity { node_id: num(r), node_tag: text(r), addr: text(r), application_version: text(r), protocol_version: text(r), peers: vec![pnode(r); r.below(3)], ..Default::default() }),
        1 => ClientEvent::Handshake(net::ClientHandshake { node_id: num(r), nodes: vec![pnode(r); r.below(3)], node_tag: text(r), trace_id: text(r), ..Default::default() }),
        2 => ClientEvent::Result(net::ClientResult { message_id: text(r), result: data(r), trace_id: text(r), ..Default::default() }),
        3 => ClientEvent::Err(net::ClientErr { message_id: text(r), error: if flag(r) { Some(net::ActorRefErr::from(err(r.below(15), r))).into() } else { None.into() }, trace_id: text(r), ..Default::default() }),
        4 => ClientEvent::Ping(net::PingEvent { message_id: text(r), trace_id: text(r), node_id: num(r), system_terminated: flag(r), ..Default::default() }),
        _ => ClientEvent::Pong(net::PongEvent { message_id: text(r), trace_id: text(r), ..Default::default() }),
    }
}
fn show_client(e: &ClientEvent) -> (usize, String) {
    match e {
        ClientEvent::Identity(m) => (0, format!("{m}")),
        ClientEvent::Handshake(m) => (1, format!("{m}")),
        ClientEvent::Result(m) => (2, format!("{m}")),
        ClientEvent::Err(m) => (3, format!("{m}")),
        ClientEvent::Ping(m) => (4, format!("{m}")),
        ClientEvent::Pong(m) => (5, format!("{m}")),
    }
}
fn session_event(k: usize, r: &mut Rng) -> SessionEvent {
    match k {
        0 => SessionEvent::Identify(net::IdentifyEvent { source_node_id: num(r), source_node_tag: text(r), token: text(r), ..Default::default() }),
        1 => SessionEvent::Ping(net::PingEvent { message_id: text(r), trace_id: text(r), node_id: num(r), system_terminated: flag(r), ..Default::default() }),
        2 => SessionEvent::Pong(net::PongEvent { message_id: text(r), trace_id: text(r), ..Default::default() }),
        3 => SessionEvent::Handshake(net::SessionHandshake { node_id: num(r), nodes: vec![pnode(r); r.below(3)], token: data(r), node_tag: text(r), trace_id: text(r), client_type: if flag(r) { net::ClientType::Worker } else { net::ClientType::Client }.into(), ..Default::default() }),
        4 => SessionEvent::NotifyActor(net::MessageRequest { message_id: text(r), handler_type: text(r), actor_id: text(r), message: data(r), trace_id: text(r), requires_response: flag(r), origin_node_id: num(r), ..Default::default() }),
        5 => SessionEvent::CreateActor(net::CreateActorEvent { message_id: text(r), actor_id: text(r), actor_type: text(r), recipe: data(r), trace_id: text(r), ..Default::default() }),
        6 => SessionEvent::RegisterActor(net::ActorAddress { actor_id: text(r), trace_id: text(r), ..Default::default() }),
        7 => SessionEvent::FindActor(net::FindActorEvent { message_id: text(r), actor_id: text(r), trace_id: text(r), ..Default::default() }),
        8 => SessionEvent::StreamPublish(Arc::new(net::StreamPublishEvent { topic: text(r), key: text(r), message: data(r), trace_id: text(r), ..Default::default() })),
        9 => SessionEvent::Result(net::ClientResult { message_id: text(r), result: data(r), trace_id: text(r), ..Default::default() }),
        _ => SessionEvent::Err(net::ClientErr { message_id: text(r), error: Some(net::ActorRefErr::from(err(r.below(15), r))).into(), trace_id: text(r), ..Default::default() }),
    }
}
fn show_session(e: &SessionEvent) -> (usize, String) {
    match e {
        SessionEvent::Identify(m) => (0, format!("{m}")),
        SessionEvent::Ping(m) => (1, format!("{m}")),
        SessionEvent::Pong(m) => (2, format!("{m}")),
        SessionEvent::Handshake(m) => (3, format!("{m}")),
        SessionEvent::NotifyActor(m) => (4, format!("{m}")),
        SessionEvent::CreateActor(m) => (5, format!("{m}")),
        SessionEvent::RegisterActor(m) => (6, format!("{m}")),
        SessionEvent::FindActor(m) => (7, format!("{m}")),
        SessionEvent::StreamPublish(m) => (8, format!("{m}")),
        SessionEvent::Result(m) => (9, format!("{m}")),
        SessionEvent::Err(m) => (10, format!("{m}")),
        SessionEvent::Raft(m) => (11, format!("{m}")),
    }
}
fn system_event(k: usize, r: &mut Rng) -> SystemEvent {
    SystemEvent::Cluster(match k {
        0 => ClusterEvent::NodeAdded(Arc::new(node(r))),
        1 => ClusterEvent::NodeRemoved(Arc::new(node(r))),
        2 => ClusterEvent::LeaderChanged(num(r)),
        _ => ClusterEvent::MemberUp(ClusterMemberUp { leader_id: num(r), nodes: (0..r.below(4)).map(|_| Arc::new(node(r))).collect() }),
    })
}
fn err(k: usize, r: &mut Rng) -> ActorRefErr {
    match k {
        0 => ActorRefErr::ActorUnavailable,
        1 => ActorRefErr::NotFound(text(r).into_actor_id()),
        2 => ActorRefErr::AlreadyExists(text(r).into_actor_id()),
        3 => ActorRefErr::Serialisation(MessageWrapErr::Unknown),
        4 => ActorRefErr::Serialisation(MessageWrapErr::NotTransmittable),
        5 => ActorRefErr::Serialisation(MessageWrapErr::SerializationErr),
        6 => ActorRefErr::Deserialisation(MessageUnwrapErr::Unknown),
        7 => ActorRefErr::Deserialisation(MessageUnwrapErr::NotTransmittable),
        8 => ActorRefErr::Deserialisation(MessageUnwrapErr::DeserializationErr),
        9 => ActorRefErr::Timeout { time_taken_millis: num(r) },
        10 => ActorRefErr::ActorStartFailed,
        11 => ActorRefErr::InvalidRef,
        12 => ActorRefErr::ResultChannelClosed,
        13 => ActorRefErr::ResultSendFailed,
        14 => ActorRefErr::NotSupported { actor_id: text(r).into_actor_id(), message_type: text(r), actor_type: text(r) },
        _ => ActorRefErr::NotImplemented,
    }
}

/// What the bytes are, by kind and protobuf type, worked out without the code under test.
fn client_expected(d: &[u8]) -> Option<(usize, String)> {
    let (t, b) = d.split_first()?;
    fn p<M: Message + std::fmt::Display>(k: usize, b: &[u8]) -> Option<(usize, String)> { M::parse_from_bytes(b).ok().map(|m| (k, format!("{m}"))) }
    match *t {
        12 => p::<net::NodeIdentity>(0, b),
        1 => p::<net::ClientHandshake>(1, b),
        2 => p::<net::ClientResult>(2, b),
        3 => p::<net::ClientErr>(3, b),
        4 => p::<net::PingEvent>(4, b),
        5 => p::<net::PongEvent>(5, b),
        _ => None,
    }
}
fn session_expected(d: &[u8]) -> Option<(usize, String)> {
    let (t, b) = d.split_first()?;
    fn p<M: Message + std::fmt::Display>(k: usize, b: &[u8]) -> Option<(usize, String)> { M::parse_from_bytes(b).ok().map(|m| (k, format!("{m}"))) }
    match *t {
        0 => p::<net::IdentifyEvent>(0, b),
        4 => p::<net::PingEvent>(1, b),
        5 => p::<net::PongEvent>(2, b),
        1 => p::<net::SessionHandshake>(3, b),
        9 => p::<net::MessageRequest>(4, b),
        6 => p::<net::CreateActorEvent>(5, b),
        8 => p::<net::ActorAddress>(6, b),
        7 => p::<net::FindActorEvent>(7, b),
        10 => p::<net::StreamPublishEvent>(8, b),
        2 => p::<net::ClientResult>(9, b),
        3 => p::<net::ClientErr>(10, b),
        _ => None,
    }
}
/// whether a system event is expected of the bytes
fn system_expected(d: &[u8]) -> bool {
    let Some((t, b)) = d.split_first() else { return false };
    let ok = |n: &net::RemoteNode| n.node_started_at.as_ref().map_or(true, |t| t.seconds >= 0 && (0..1_000_000_000).contains(&t.nanos) && t.seconds < 4_000_000_000);
    match net::SystemEvent::from_i32(*t as i32) {
        Some(net::SystemEvent::ClusterNewNode) => net::NewNodeEvent::parse_from_bytes(b).map_or(false, |e| e.node.as_ref().map_or(false, ok)),
        Some(net::SystemEvent::ClusterNodeRemoved) => net::NodeRemovedEvent::parse_from_bytes(b).map_or(false, |e| e.node.as_ref().map_or(false, ok)),
        Some(net::SystemEvent::ClusterLeaderChanged) => net::LeaderChangedEvent::parse_from_bytes(b).is_ok(),
        Some(net::SystemEvent::ClusterMemberUp) => net::MemberUpEvent::parse_from_bytes(b).map_or(false, |e| e.nodes.iter().all(ok)),
        None => false,
    }
}

/// Bytes near `d`: cut off, with a byte changed or added, or with another tag.
fn near(d: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut v = d.to_vec();
    match r.below(5) {
        0 => v.truncate(r.below(v.len() + 1)),
        1 if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] = r.next() as u8;
        }
        2 => v.push(r.next() as u8),
        3 if !v.is_empty() => v[0] = r.below(16) as u8,
        _ => {
            let n = r.below(12);
            v = (0..n).map(|_| r.next() as u8).collect();
            if !v.is_empty() && flag(r) {
                v[0] = r.below(13) as u8;
            }
        }
    }
    v
}

fn back<M: ActorMessage>(m: &M) -> Result<M, String> {
    let b = m.as_bytes().map_err(|_| "not written".to_string())?;
    M::from_bytes(b).map_err(|_| "what was written is refused".to_string())
}
fn sharding_case(k: usize, r: &mut Rng) -> CaseResult {
    match k {
        0 => {
            let m = ShardAllocated(num32(r), num(r));
            let b = back(&m)?;
            eq("ShardAllocated", (b.0, b.1), (m.0, m.1))
        }
        1 => {
            let m = ShardReallocating(num32(r));
            eq("ShardReallocating", back(&m)?.0, m.0)
        }
        2 => {
            let m = StopShard { shard_id: num32(r), origin_node_id: num(r), request_id: Uuid::from_u64_pair(r.next(), r.next()) };
            let b = back(&m)?;
            eq("StopShard", (b.shard_id, b.origin_node_id, b.request_id), (m.shard_id, m.origin_node_id, m.request_id))
        }
        3 => {
            let p = shp::ShardStopped { shard_id: num32(r), is_successful: flag(r), ..Default::default() };
            let m = ShardStopped::from_bytes(p.write_to_bytes().unwrap()).map_err(|_| "ShardStopped refused".to_string())?;
            let q = shp::ShardStopped::parse_from_bytes(&m.as_bytes().map_err(|_| "not written".to_string())?).map_err(|e| e.to_string())?;
            eq("ShardStopped", (q.shard_id, q.is_successful), (p.shard_id, p.is_successful))
        }
        4 => {
            let m = RemoteEntityRequest { request_id: Uuid::from_u64_pair(r.next(), r.next()), actor_id: text(r).into_actor_id(), message_type: text(r), message: data(r), recipe: if flag(r) { Some(data(r)) } else { None }, origin_node: num(r) };
            let b = back(&m)?;
            eq("RemoteEntityRequest", (b.request_id, b.actor_id, b.message_type, b.message, b.recipe, b.origin_node), (m.request_id, m.actor_id, m.message_type, m.message, m.recipe, m.origin_node))
        }
        5 => {
            let m = StartEntity { actor_id: text(r).into_actor_id(), recipe: Arc::new(data(r)) };
            let b = back(&m)?;
            eq("StartEntity", (b.actor_id, b.recipe), (m.actor_id, m.recipe))
        }
        6 => {
            let m = RemoveEntity { actor_id: text(r).into_actor_id() };
            eq("RemoveEntity", back(&m)?.actor_id, m.actor_id)
        }
        7 => {
            let m = PassivateEntity { actor_id: text(r).into_actor_id() };
            eq("PassivateEntity", back(&m)?.actor_id, m.actor_id)
        }
        8 => {
            let m = AllocateShard { shard_id: num32(r), rebalancing: flag(r) };
            let b = back(&m)?;
            eq("AllocateShard", (b.shard_id, b.rebalancing), (m.shard_id, m.rebalancing))
        }
        _ => {
            let (s, n) = (num32(r), num(r));
            let j = k - 9;
            let mk = || match j {
                0 => AllocateShardResult::Allocated(s, n),
                1 => AllocateShardResult::AlreadyAllocated(s, n),
                2 => AllocateShardResult::NotAllocated,
                3 => AllocateShardResult::Err(AllocateShardErr::Unknown),
                _ => AllocateShardResult::Err(AllocateShardErr::Persistence),
            };
            let b = AllocateShard::write_remote_result(mk()).map_err(|_| "not written".to_string())?;
            let b = AllocateShard::read_remote_result(b).map_err(|_| "what was written is refused".to_string())?;
            eq("answer to AllocateShard", b, mk())
        }
    }
}
/// Bytes that are no such message are an error, and those that are, are read: neither panics.
fn sharding_bytes(k: usize, d: Vec<u8>) -> CaseResult {
    fn uuid(s: &str) -> bool { s.parse::<Uuid>().is_ok() }
    let (got, want) = match k {
        0 => (ShardAllocated::from_bytes(d.clone()).is_ok(), shp::ShardAllocated::parse_from_bytes(&d).map_or(false, |p| p.shard.is_some())),
        1 => {
            let (a, b) = (shp::StopShard::parse_from_bytes(&d).is_ok(), shp::ShardReallocating::parse_from_bytes(&d).is_ok());
            let got = ShardReallocating::from_bytes(d.clone()).is_ok();
            // the two are read alike but for fields only the one has
            (got, if a == b { a } else { got })
        }
        2 => (StopShard::from_bytes(d.clone()).is_ok(), shp::StopShard::parse_from_bytes(&d).map_or(false, |p| uuid(&p.request_id))),
        3 => (ShardStopped::from_bytes(d.clone()).is_ok(), shp::ShardStopped::parse_from_bytes(&d).is_ok()),
        4 => (RemoteEntityRequest::from_bytes(d.clone()).is_ok(), shp::RemoteEntityRequest::parse_from_bytes(&d).map_or(false, |p| uuid(&p.request_id))),
        5 => (StartEntity::from_bytes(d.clone()).is_ok(), shp::StartEntity::parse_from_bytes(&d).is_ok()),
        6 => (RemoveEntity::from_bytes(d.clone()).is_ok(), shp::RemoveEntity::parse_from_bytes(&d).is_ok()),
        7 => (PassivateEntity::from_bytes(d.clone()).is_ok(), shp::PassivateEntity::parse_from_bytes(&d).is_ok()),
        8 => (AllocateShard::from_bytes(d.clone()).is_ok(), shp::AllocateShard::parse_from_bytes(&d).is_ok()),
        _ => (
            AllocateShard::read_remote_result(d.clone()).is_ok(),
            shp::AllocateShardResult::parse_from_bytes(&d).map_or(false, |p| match p.result_type.enum_value() {
                Ok(shp::allocate_shard_result::Type::ALLOCATED) | Ok(shp::allocate_shard_result::Type::ALREADY_ALLOCATED) => p.allocation.is_some(),
                Ok(_) => true,
                Err(_) => false,
            }),
        ),
    };
    // reading leniently what could also be refused is not at issue; refusing what is a message, or reading what is none, is
    eq("accepted", got, want)
}
fn sharding_sample(k: usize, r: &mut Rng) -> Vec<u8> {
    let id = Uuid::from_u64_pair(r.next(), r.next()).to_string();
    let id = if r.below(4) == 0 { text(r) } else { id };
    let shard = shp::RemoteShard { shard_id: num32(r), node_id: num(r), ..Default::default() };
    match k {
        0 => shp::ShardAllocated { shard: if flag(r) { Some(shard).into() } else { None.into() }, ..Default::default() }.write_to_bytes(),
        1 => shp::ShardReallocating { shard_id: num32(r), ..Default::default() }.write_to_bytes(),
        2 => shp::StopShard { shard_id: num32(r), origin_node_id: num(r), request_id: id, ..Default::default() }.write_to_bytes(),
        3 => shp::ShardStopped { shard_id: num32(r), is_successful: flag(r), ..Default::default() }.write_to_bytes(),
        4 => shp::RemoteEntityRequest { request_id: id, actor_id: text(r), message_type: text(r), message: data(r), origin_node: num(r), ..Default::default() }.write_to_bytes(),
        5 => shp::StartEntity { actor_id: text(r), recipe: data(r), ..Default::default() }.write_to_bytes(),
        6 => shp::RemoveEntity { actor_id: text(r), ..Default::default() }.write_to_bytes(),
        7 => shp::PassivateEntity { actor_id: text(r), ..Default::default() }.write_to_bytes(),
        8 => shp::AllocateShard { shard_id: num32(r), rebalancing: flag(r), ..Default::default() }.write_to_bytes(),
        _ => shp::AllocateShardResult {
            result_type: protobuf::EnumOrUnknown::from_i32(r.below(6) as i32),
            allocation: if flag(r) { Some(shard).into() } else { None.into() },
            err: protobuf::EnumOrUnknown::from_i32(r.below(4) as i32),
            ..Default::default()
        }
        .write_to_bytes(),
    }
    .unwrap()
}

type Log = Arc<Mutex<Vec<String>>>;
struct Recorder {
    log: Log,
    close_at: Option<String>,
    closing: bool,
}
#[async_trait::async_trait]
impl StreamReceiver for Recorder {
    type Message = SessionEvent;
    async fn on_receive(&mut self, msg: SessionEvent, _: &RemoteActorSystem) {
        let s = show_session(&msg).1;
        if self.close_at.as_deref() == Some(s.as_str()) {
            self.closing = true;
        }
        self.log.lock().push(s);
    }
    async fn on_close(&mut self, _: &RemoteActorSystem) {
        self.log.lock().push("closed".into());
    }
    fn on_deserialisation_failed(&mut self) {
        self.log.lock().push("failed".into());
    }
    fn on_stream_lost(&mut self, _: std::io::Error) {
        self.log.lock().push("lost".into());
    }
    async fn close(&mut self) {}
    fn should_close(&self) -> bool {
        self.closing
    }
}

/// A frame of the connection: `0..=10` an event of that kind, then bytes that are none, of three sorts, a frame with an
/// event after which the receiver wants to close, and one that is cut off by the end of the connection.
async fn loop_case(remote: RemoteActorSystem, w: Vec<u8>, seed: u64) -> CaseResult {
    let mut r = Rng(seed);
    let (mut bytes, mut want, mut close_at, mut over) = (vec![], vec![], None, false);
    for f in &w {
        let payload = match f {
            b'e' | b'c' => {
                let e = loop {
                    let e = session_event(r.below(11), &mut r);
                    if !want.contains(&show_session(&e).1) {
                        break e;
                    }
                };
                let s = show_session(&e).1;
                if !over {
                    want.push(s.clone());
                    if *f == b'c' {
                        close_at = Some(s);
                        over = true;
                    }
                }
                e.write_to_bytes().ok_or("not written")?
            }
            b'x' => vec![200, 1, 2],
            b'z' => vec![],
            b'u' => vec![9, 0xff, 0xff],
            _ => vec![4, 0x0a, 20, b'a'],
        };
        if b"xzut".contains(f) && !over {
            want.push("failed".into());
        }
        if *f == b'l' {
            bytes.extend_from_slice(&[0, 0, 0, 9, 1, 2]);
            if !over {
                want.push("lost".into());
            }
            over = true;
            break;
        }
        bytes.extend_from_slice(&(payload.len() as u32).to_be_bytes());
        bytes.extend_from_slice(&payload);
    }
    want.push("closed".into());
    let log: Log = Default::default();
    let read = FramedRead::new(std::io::Cursor::new(bytes), LengthDelimitedCodec::new());
    receive_loop(remote, read, Recorder { log: log.clone(), close_at, closing: false }).await;
    let got = log.lock().clone();
    eq("what the receiver was given", got, want)
}

pub async fn wire(cx: &mut Cx) {
    let rounds = if cx.thorough { 400 } else { 40 };
    for i in 0..rounds as u64 {
        let seed = cx.rng(900 + i).next();
        for k in 0..6 {
            cx.check("an event for a client reads back as it was written", format!("client event {k}, fields {i}"), move || {
                let e = client_event(k, &mut Rng(seed));
                let b = e.write_to_bytes().ok_or("not written")?;
                eq("event", ClientEvent::read_from_bytes(b).map(|e| show_client(&e)), Some(show_client(&e)))
            })
            .await;
        }
        for k in 0..11 {
            cx.check("an event for a session reads back as it was written", format!("session event {k}, fields {i}"), move || {
                let e = session_event(k, &mut Rng(seed));
                let b = e.write_to_bytes().ok_or("not written")?;
                eq("event", SessionEvent::read_from_bytes(b).map(|e| show_session(&e)), Some(show_session(&e)))
            })
            .await;
        }
        for k in 0..4 {
            cx.check("a cluster event reads back as it was written", format!("system event {k}, fields {i}"), move || {
                let e = system_event(k, &mut Rng(seed));
                let b = e.write_to_bytes().ok_or("not written")?;
                eq("event", SystemEvent::read_from_bytes(b).map(|e| show_system(&e)), Some(show_system(&e)))
            })
            .await;
        }
        for k in 0..16 {
            cx.check("an error arrives as the error it was", format!("error {k}, fields {i}"), move || {
                let e = err(k, &mut Rng(seed));
                let want = format!("{e:?}");
                let p = net::ActorRefErr::from(e);
                let p = net::ActorRefErr::parse_from_bytes(&p.write_to_bytes().unwrap()).unwrap();
                eq("error", format!("{:?}", ActorRefErr::from(p)), want)
            })
            .await;
        }
        for k in 0..14 {
            cx.check("a sharding message reads back as it was written", format!("sharding message {k}, fields {i}"), move || sharding_case(k, &mut Rng(seed))).await;
        }
        for k in 0..6 {
            cx.check("what is no event for a client is refused", format!("bytes near client event {k}, {i}"), move || {
                let mut r = Rng(seed ^ 1);
                let b = client_event(k, &mut r).write_to_bytes().unwrap();
                for _ in 0..20 {
                    let d = near(&b, &mut r);
                    eq(&format!("read of {d:?}"), ClientEvent::read_from_bytes(d.clone()).map(|e| show_client(&e)), client_expected(&d))?;
                }
                Ok(())
            })
            .await;
        }
        for k in 0..11 {
            cx.check("what is no event for a session is refused", format!("bytes near session event {k}, {i}"), move || {
                let mut r = Rng(seed ^ 2);
                let b = session_event(k, &mut r).write_to_bytes().unwrap();
                for _ in 0..20 {
                    let d = near(&b, &mut r);
                    eq(&format!("read of {d:?}"), SessionEvent::read_from_bytes(d.clone()).map(|e| show_session(&e)), session_expected(&d))?;
                }
                Ok(())
            })
            .await;
        }
        for k in 0..4 {
            cx.check("what is no cluster event is refused", format!("bytes near system event {k}, {i}"), move || {
                let mut r = Rng(seed ^ 3);
                let b = system_event(k, &mut r).write_to_bytes().unwrap();
                for _ in 0..20 {
                    let d = near(&b, &mut r);
                    // a time out of range is not at issue here
                    let skewed = |ns: &[net::RemoteNode]| ns.iter().any(|n| n.node_started_at.as_ref().map_or(false, |t| !(0..4_000_000_000).contains(&t.seconds) || !(0..1_000_000_000).contains(&t.nanos)));
                    let b = d.get(1..).unwrap_or(&[]);
                    if net::NewNodeEvent::parse_from_bytes(b).map_or(false, |e| e.node.as_ref().map_or(false, |n| skewed(&[n.clone()])))
                        || net::MemberUpEvent::parse_from_bytes(b).map_or(false, |e| skewed(&e.nodes))
                    {
                        continue;
                    }
                    eq(&format!("read of {d:?}"), SystemEvent::read_from_bytes(d.clone()).is_some(), system_expected(&d))?;
                }
                Ok(())
            })
            .await;
        }
        for k in 0..10 {
            cx.check("what is no sharding message is an error", format!("bytes near sharding message {k}, {i}"), move || {
                let mut r = Rng(seed ^ 4);
                for j in 0..20 {
                    let b = sharding_sample(k, &mut r);
                    let d = if j % 3 == 0 { b } else { near(&b, &mut r) };
                    sharding_bytes(k, d.clone()).map_err(|m| format!("{d:?}: {m}"))?;
                }
                Ok(())
            })
            .await;
        }
        cx.check("an error of a kind this node does not know is still an error", format!("unknown kinds of error, {i}"), move || {
            let mut r = Rng(seed ^ 5);
            for t in [0, 1, 3, 4, 11, 12, 99, -1] {
                let p = net::ActorRefErr {
                    type_: protobuf::EnumOrUnknown::from_i32(t),
                    serialization_error: protobuf::EnumOrUnknown::from_i32(r.below(6) as i32),
                    deserialization_error: protobuf::EnumOrUnknown::from_i32(r.below(6) as i32),
                    ..Default::default()
                };
                let _ = ActorRefErr::from(p);
            }
            Ok(())
        })
        .await;
    }
    let remote = RemoteActorSystem::builder().with_tag("n").with_id(1).with_actor_system(ActorSystem::new()).build().await;
    let mut ws: Vec<Vec<u8>> = words(b"exuzt", if cx.thorough { 4 } else { 3 });
    for w in [&b"ec"[..], b"cex", b"xce", b"el", b"xel", b"l", b"exlee", b"uecxe", b"eecee", b"cl"] {
        ws.push(w.to_vec());
    }
    for (i, w) in ws.into_iter().enumerate() {
        let seed = cx.rng(5000 + i as u64).next();
        let key = format!("frames {}", String::from_utf8_lossy(&w));
        cx.case("every frame is dealt with in order, and one that is no message does not end the connection", key, {
            let remote = remote.clone();
            move || loop_case(remote.clone(), w.clone(), seed)
        }).await;
    }
}
