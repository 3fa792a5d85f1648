//@include head.inc
verus! {
//@include std.inc
//@file M coerce/src/remote/net/message.rs
//@file N coerce/src/remote/net/proto/network.rs
//@file S coerce/src/remote/stream/system.rs
//@file T coerce/src/remote/stream/mediator/mod.rs
//@file Q coerce/src/sharding/proto/sharding.rs
//@file H coerce/src/sharding/host/mod.rs
//@file E coerce/src/sharding/host/request.rs
//@file A coerce/src/sharding/coordinator/allocation.rs
//@file D coerce/src/sharding/shard/message.rs
//@file F coerce/src/actor/refs/mod.rs
//@file W coerce/src/actor/message/mod.rs
//@file L coerce/src/remote/net/mod.rs
//@# text (actor ids, names) is an opaque value; a uuid and its text form are different types, see uparse
//@rw :: std :: option :: Option ==> Option
//@rw :: std :: string :: String ==> u64
//@rw :: std :: vec :: Vec ==> Vec
//@rw :: protobuf :: MessageField ==> MessageField
//@rw :: protobuf :: EnumOrUnknown ==> EnumOrUnknown
//@rw actor_ref_err :: ErrorType ==> ErrorType
//@rw allocate_shard_result :: Type ==> AllocType
//@rw allocate_shard_result :: AllocateShardErr ==> PAllocErr
//@rw remote_entity_request :: Recipe ==> PRecipe
//@rw proto :: remote_entity_request :: Recipe ==> PRecipe
//@rw proto :: PRecipe ==> PRecipe
//@rw EnumOrUnknown < MessageWrapErr > ==> EnumOrUnknown < ProtoWrapErr >
//@rw EnumOrUnknown < MessageUnwrapErr > ==> EnumOrUnknown < ProtoUnwrapErr >
//@rw MessageField < RemoteNode > ==> MessageField < PNode >
//@rw Vec < RemoteNode > ==> Vec < PNode >
//@rw MessageField < RemoteShard > ==> MessageField < PRemoteShard >
//@rw proto :: network :: ActorRefErr ==> PActorRefErr
//@rw proto :: ShardAllocated ==> PShardAllocated
//@rw proto :: ShardReallocating ==> PShardReallocating
//@rw proto :: StopShard ==> PStopShard
//@rw proto :: ShardStopped ==> PShardStopped
//@rw proto :: RemoteShard ==> PRemoteShard
//@rw proto :: AllocateShardResult ==> PAllocateShardResult
//@rw proto :: AllocateShard ==> PAllocateShard
//@rw proto :: RemoteEntityRequest ==> PRemoteEntityRequest
//@rw proto :: StartEntity ==> PStartEntity
//@rw proto :: RemoveEntity ==> PRemoveEntity
//@rw proto :: PassivateEntity ==> PPassivateEntity
//@rw String ==> u64
//@rw Arc < StreamPublishEvent > ==> StreamPublishEvent
//@rw RemoteNodeRef ==> RemoteNode
//@rw Arc :: new ( $x... , ) ==> ( $x... )
//@rw Arc :: new ( $x... ) ==> ( $x... )
//@rw . as_ref ( ) ==>
//@rw . to_actor_id ( ) ==>
//@rw . into_actor_id ( ) ==>
//@rw data . split_first ( ) ==> vsplit ( & data )
//@rw $t :: parse_from_bytes ( $x... ) ==> vparse :: < $t , _ > ( $x... )
//@rw . write_to_bytes ( ) ==> . vwrite ( )
//@rw Default :: default ( ) ==> vdefault ( )
//@rw PActorRefErr :: default ( ) ==> vdefault :: < PActorRefErr > ( )
//@rw Some ( $x... ) . into ( ) ==> vfield ( $x... )
//@rw None . into ( ) ==> vnofield ( )
//@rw . into ( ) ==> . vinto ( )
//@rw Result < Vec < u8 > , Error > ==> Result < Vec < u8 > , PErr >
//@rw use proto :: network :: actor_ref_err :: ErrorType ; ==>
//@noinline vparse,vwrite,vinto,write_event,from_i32
pub type ActorId = u64;
pub type NodeId = u64;
pub type ShardId = u32;
pub struct PErr { pub x: u64 }
#[derive(Clone, Copy)]
pub struct Uuid { pub v: u64 }
pub struct NodeIdentity { pub x: u64 } pub struct ClientHandshake { pub x: u64 } pub struct ClientResult { pub x: u64 } pub struct ClientErr { pub x: u64 } pub struct PingEvent { pub x: u64 } pub struct PongEvent { pub x: u64 }
pub struct IdentifyEvent { pub x: u64 } pub struct SessionHandshake { pub x: u64 } pub struct MessageRequest { pub x: u64 } pub struct CreateActorEvent { pub x: u64 } pub struct ActorAddress { pub x: u64 } pub struct FindActorEvent { pub x: u64 }
pub struct RaftRequest { pub x: u64 }
#[verifier::reject_recursive_types(T)]
pub struct MessageField<T> { pub v: Option<T> }
#[verifier::reject_recursive_types(T)]
pub struct EnumOrUnknown<T> { pub v: Option<T> }
//@struct N StreamPublishEvent drop=special_fields
//@enum N Event attr=#[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@enum N SystemEvent as=SysEvent attr=#[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@enum M ClientEvent
//@enum M SessionEvent

// ---------------------------------------------------------------------------------------------
// Assumed of crate protobuf: writing gives the bytes of the message (or fails, for one that cannot be written), and reading
// them gives it back; what else reads as a message is not said.
pub uninterp spec fn pbytes<T>(x: T) -> Seq<u8>;
pub uninterp spec fn pvalue<T>(b: Seq<u8>) -> Option<T>;
pub uninterp spec fn unwritable(b: Seq<u8>) -> bool;
pub axiom fn axiom_proto<T>(x: T) ensures pvalue::<T>(pbytes::<T>(x)) == Some(x);
pub trait VWrite: Sized { fn vwrite(&self) -> (r: Result<Vec<u8>, PErr>) ensures r is Ok ==> r->Ok_0@ == pbytes::<Self>(*self), r is Err ==> unwritable(pbytes::<Self>(*self)); }
impl<T> VWrite for T { #[verifier::external_body] fn vwrite(&self) -> (r: Result<Vec<u8>, PErr>) { unimplemented!() } }
pub trait VBytes { spec fn bs(&self) -> Seq<u8>; }
impl VBytes for [u8] { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl VBytes for Vec<u8> { open spec fn bs(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn vparse<T, B: VBytes + ?Sized>(b: &B) -> (r: Result<T, PErr>) ensures r is Ok <==> pvalue::<T>(b.bs()) is Some, r is Ok ==> r->Ok_0 == pvalue::<T>(b.bs())->0 { unimplemented!() }
#[verifier::external_body]
pub fn vdefault<T>() -> T { unimplemented!() }
pub fn vfield<T>(x: T) -> (r: MessageField<T>) ensures r.v == Some(x) { MessageField { v: Some(x) } }
pub fn vnofield<T>() -> (r: MessageField<T>) ensures r.v is None { MessageField { v: None } }
impl<T> MessageField<T> {
    pub fn is_none(&self) -> (r: bool) ensures r == (self.v is None) { self.v.is_none() }
    pub fn is_some(&self) -> (r: bool) ensures r == (self.v is Some) { self.v.is_some() }
    pub fn into_option(self) -> (r: Option<T>) ensures r == self.v { self.v }
    pub fn unwrap(self) -> (r: T) requires self.v is Some ensures r == self.v->0 { self.v.unwrap() }
}
pub trait VDef: Sized { spec fn vdef() -> Self; }
impl<T: VDef> EnumOrUnknown<T> {
    #[verifier::external_body]
    pub fn enum_value_or_default(&self) -> (r: T) ensures r == (match self.v { Some(x) => x, None => T::vdef() }) { unimplemented!() }
}
impl<T> EnumOrUnknown<T> {
    #[verifier::external_body]
    pub fn enum_value(&self) -> (r: Result<T, i32>) ensures r is Ok <==> self.v is Some, r is Ok ==> r->Ok_0 == self.v->0 { unimplemented!() }
    pub fn unwrap(self) -> (r: T) requires self.v is Some ensures r == self.v->0 { self.v.unwrap() }
}
/// `into()`: which conversion is meant follows from the types, as in the source
pub trait VInto<T>: Sized { spec fn can(self) -> bool; spec fn goes(self, r: T) -> bool; fn vinto(self) -> (r: T) requires self.can() ensures self.goes(r); }
#[verifier::external_body]
pub fn vsplit<'a>(d: &'a Vec<u8>) -> (r: Option<(&'a u8, &'a [u8])>)
    ensures match r { None => d@.len() == 0, Some(p) => d@.len() > 0 && *p.0 == d@[0] && p.1@ == d@.skip(1) }
{ d.split_first() }
pub trait VIns { fn vfront(&mut self, i: usize, x: u8); }
/// what follows the tag is what was tagged
pub broadcast proof fn lemma_tagged(b: u8, m: Seq<u8>) ensures (#[trigger] (seq![b] + m)).skip(1) == m { assert((seq![b] + m).skip(1) =~= m); }
pub open spec fn event_of(n: i32) -> Option<Event> { match n {
    0 => Some(Event::Identify), 1 => Some(Event::Handshake), 2 => Some(Event::Result), 3 => Some(Event::Err), 4 => Some(Event::Ping), 5 => Some(Event::Pong), 6 => Some(Event::CreateActor),
    7 => Some(Event::FindActor), 8 => Some(Event::RegisterActor), 9 => Some(Event::NotifyActor), 10 => Some(Event::StreamPublish), 11 => Some(Event::Raft), 12 => Some(Event::Identity), _ => None } }
pub open spec fn sys_event_of(n: i32) -> Option<SysEvent> { match n {
    0 => Some(SysEvent::ClusterNewNode), 1 => Some(SysEvent::ClusterNodeRemoved), 2 => Some(SysEvent::ClusterLeaderChanged), 3 => Some(SysEvent::ClusterMemberUp), _ => None } }
//@fn N ::protobuf::Enum@Event::from_i32 as=from_i32 sig="pub fn from_i32(value: i32) -> (r: Option<Event>)"
    ensures r == event_of(value)
//@end
//@fn M write_event
    ensures match message { Ok(m) => r is Some && r->0@ == seq![event_id as u8] + m@, Err(_) => r is None }
//@start
    let ghost m0 = message;
//@end
// ---------------------------------------------------------------------------------------------
pub open spec fn clientevent_kind(e: ClientEvent) -> Option<Event> { match e {
    ClientEvent::Identity(_) => Some(Event::Identity),
    ClientEvent::Handshake(_) => Some(Event::Handshake),
    ClientEvent::Result(_) => Some(Event::Result),
    ClientEvent::Err(_) => Some(Event::Err),
    ClientEvent::Ping(_) => Some(Event::Ping),
    ClientEvent::Pong(_) => Some(Event::Pong),
} }
pub open spec fn clientevent_body(e: ClientEvent) -> Seq<u8> { match e {
    ClientEvent::Identity(m) => pbytes::<NodeIdentity>(m),
    ClientEvent::Handshake(m) => pbytes::<ClientHandshake>(m),
    ClientEvent::Result(m) => pbytes::<ClientResult>(m),
    ClientEvent::Err(m) => pbytes::<ClientErr>(m),
    ClientEvent::Ping(m) => pbytes::<PingEvent>(m),
    ClientEvent::Pong(m) => pbytes::<PongEvent>(m),
} }
pub open spec fn clientevent_read(d: Seq<u8>) -> Option<ClientEvent> { if d.len() == 0 { None } else { match event_of(d[0] as i32) {
    Some(Event::Identity) => match pvalue::<NodeIdentity>(d.skip(1)) { Some(m) => Some(ClientEvent::Identity(m)), None => None },
    Some(Event::Handshake) => match pvalue::<ClientHandshake>(d.skip(1)) { Some(m) => Some(ClientEvent::Handshake(m)), None => None },
    Some(Event::Result) => match pvalue::<ClientResult>(d.skip(1)) { Some(m) => Some(ClientEvent::Result(m)), None => None },
    Some(Event::Err) => match pvalue::<ClientErr>(d.skip(1)) { Some(m) => Some(ClientEvent::Err(m)), None => None },
    Some(Event::Ping) => match pvalue::<PingEvent>(d.skip(1)) { Some(m) => Some(ClientEvent::Ping(m)), None => None },
    Some(Event::Pong) => match pvalue::<PongEvent>(d.skip(1)) { Some(m) => Some(ClientEvent::Pong(m)), None => None },
    _ => None,
} } }
/// ClientEvent: what is written reads back as it was.
pub proof fn lemma_clientevent(e: ClientEvent, d: Seq<u8>)
    requires clientevent_kind(e) is Some, d == seq![clientevent_kind(e)->0 as u8] + clientevent_body(e)
    ensures clientevent_read(d) == Some(e)
{
    assert(d.skip(1) =~= clientevent_body(e));
    assert(event_of(d[0] as i32) == Some(clientevent_kind(e)->0));
    match e {
        ClientEvent::Identity(m) => axiom_proto::<NodeIdentity>(m),
        ClientEvent::Handshake(m) => axiom_proto::<ClientHandshake>(m),
        ClientEvent::Result(m) => axiom_proto::<ClientResult>(m),
        ClientEvent::Err(m) => axiom_proto::<ClientErr>(m),
        ClientEvent::Ping(m) => axiom_proto::<PingEvent>(m),
        ClientEvent::Pong(m) => axiom_proto::<PongEvent>(m),
    }
}
//@fn M StreamData@ClientEvent::write_to_bytes as=clientevent_write impl=none sig="pub fn clientevent_write(this: &ClientEvent) -> (r: Option<Vec<u8>>)"
//@rw & self ==> this
//@rw match self ==> match this
    ensures r is Some ==> clientevent_kind(*this) is Some && r->0@ == seq![clientevent_kind(*this)->0 as u8] + clientevent_body(*this),
        clientevent_kind(*this) is None ==> r is None,
        r is None && clientevent_kind(*this) is Some ==> unwritable(clientevent_body(*this)),
//@end
//@fn M StreamData@ClientEvent::read_from_bytes as=clientevent_from impl=none sig="pub fn clientevent_from(data: Vec<u8>) -> (r: Option<ClientEvent>)" kinds
    ensures r == clientevent_read(data@)
//@end
pub open spec fn sessionevent_kind(e: SessionEvent) -> Option<Event> { match e {
    SessionEvent::Identify(_) => Some(Event::Identify),
    SessionEvent::Ping(_) => Some(Event::Ping),
    SessionEvent::Pong(_) => Some(Event::Pong),
    SessionEvent::Handshake(_) => Some(Event::Handshake),
    SessionEvent::NotifyActor(_) => Some(Event::NotifyActor),
    SessionEvent::CreateActor(_) => Some(Event::CreateActor),
    SessionEvent::RegisterActor(_) => Some(Event::RegisterActor),
    SessionEvent::FindActor(_) => Some(Event::FindActor),
    SessionEvent::StreamPublish(_) => Some(Event::StreamPublish),
    SessionEvent::Result(_) => Some(Event::Result),
    SessionEvent::Err(_) => Some(Event::Err),
    SessionEvent::Raft(_) => None,
} }
pub open spec fn sessionevent_body(e: SessionEvent) -> Seq<u8> { match e {
    SessionEvent::Identify(m) => pbytes::<IdentifyEvent>(m),
    SessionEvent::Ping(m) => pbytes::<PingEvent>(m),
    SessionEvent::Pong(m) => pbytes::<PongEvent>(m),
    SessionEvent::Handshake(m) => pbytes::<SessionHandshake>(m),
    SessionEvent::NotifyActor(m) => pbytes::<MessageRequest>(m),
    SessionEvent::CreateActor(m) => pbytes::<CreateActorEvent>(m),
    SessionEvent::RegisterActor(m) => pbytes::<ActorAddress>(m),
    SessionEvent::FindActor(m) => pbytes::<FindActorEvent>(m),
    SessionEvent::StreamPublish(m) => pbytes::<StreamPublishEvent>(m),
    SessionEvent::Result(m) => pbytes::<ClientResult>(m),
    SessionEvent::Err(m) => pbytes::<ClientErr>(m),
    SessionEvent::Raft(_) => seq![],
} }
pub open spec fn sessionevent_read(d: Seq<u8>) -> Option<SessionEvent> { if d.len() == 0 { None } else { match event_of(d[0] as i32) {
    Some(Event::Identify) => match pvalue::<IdentifyEvent>(d.skip(1)) { Some(m) => Some(SessionEvent::Identify(m)), None => None },
    Some(Event::Ping) => match pvalue::<PingEvent>(d.skip(1)) { Some(m) => Some(SessionEvent::Ping(m)), None => None },
    Some(Event::Pong) => match pvalue::<PongEvent>(d.skip(1)) { Some(m) => Some(SessionEvent::Pong(m)), None => None },
    Some(Event::Handshake) => match pvalue::<SessionHandshake>(d.skip(1)) { Some(m) => Some(SessionEvent::Handshake(m)), None => None },
    Some(Event::NotifyActor) => match pvalue::<MessageRequest>(d.skip(1)) { Some(m) => Some(SessionEvent::NotifyActor(m)), None => None },
    Some(Event::CreateActor) => match pvalue::<CreateActorEvent>(d.skip(1)) { Some(m) => Some(SessionEvent::CreateActor(m)), None => None },
    Some(Event::RegisterActor) => match pvalue::<ActorAddress>(d.skip(1)) { Some(m) => Some(SessionEvent::RegisterActor(m)), None => None },
    Some(Event::FindActor) => match pvalue::<FindActorEvent>(d.skip(1)) { Some(m) => Some(SessionEvent::FindActor(m)), None => None },
    Some(Event::StreamPublish) => match pvalue::<StreamPublishEvent>(d.skip(1)) { Some(m) => Some(SessionEvent::StreamPublish(m)), None => None },
    Some(Event::Result) => match pvalue::<ClientResult>(d.skip(1)) { Some(m) => Some(SessionEvent::Result(m)), None => None },
    Some(Event::Err) => match pvalue::<ClientErr>(d.skip(1)) { Some(m) => Some(SessionEvent::Err(m)), None => None },
    _ => None,
} } }
/// SessionEvent: what is written reads back as it was.
pub proof fn lemma_sessionevent(e: SessionEvent, d: Seq<u8>)
    requires sessionevent_kind(e) is Some, d == seq![sessionevent_kind(e)->0 as u8] + sessionevent_body(e)
    ensures sessionevent_read(d) == Some(e)
{
    assert(d.skip(1) =~= sessionevent_body(e));
    assert(event_of(d[0] as i32) == Some(sessionevent_kind(e)->0));
    match e {
        SessionEvent::Identify(m) => axiom_proto::<IdentifyEvent>(m),
        SessionEvent::Ping(m) => axiom_proto::<PingEvent>(m),
        SessionEvent::Pong(m) => axiom_proto::<PongEvent>(m),
        SessionEvent::Handshake(m) => axiom_proto::<SessionHandshake>(m),
        SessionEvent::NotifyActor(m) => axiom_proto::<MessageRequest>(m),
        SessionEvent::CreateActor(m) => axiom_proto::<CreateActorEvent>(m),
        SessionEvent::RegisterActor(m) => axiom_proto::<ActorAddress>(m),
        SessionEvent::FindActor(m) => axiom_proto::<FindActorEvent>(m),
        SessionEvent::StreamPublish(m) => axiom_proto::<StreamPublishEvent>(m),
        SessionEvent::Result(m) => axiom_proto::<ClientResult>(m),
        SessionEvent::Err(m) => axiom_proto::<ClientErr>(m),
        SessionEvent::Raft(_) => {},
    }
}
//@fn M StreamData@SessionEvent::write_to_bytes as=sessionevent_write impl=none sig="pub fn sessionevent_write(this: &SessionEvent) -> (r: Option<Vec<u8>>)"
//@rw & self ==> this
//@rw match self ==> match this
    ensures r is Some ==> sessionevent_kind(*this) is Some && r->0@ == seq![sessionevent_kind(*this)->0 as u8] + sessionevent_body(*this),
        sessionevent_kind(*this) is None ==> r is None,
        r is None && sessionevent_kind(*this) is Some ==> unwritable(sessionevent_body(*this)),
//@end
//@fn M StreamData@SessionEvent::read_from_bytes as=sessionevent_from impl=none sig="pub fn sessionevent_from(data: Vec<u8>) -> (r: Option<SessionEvent>)" kinds
    ensures r == sessionevent_read(data@)
//@end

// ---------------------------------------------------------------------------------------------
// errors of an actor
//@enum W MessageWrapErr
//@enum W MessageUnwrapErr
//@enum N MessageWrapErr as=ProtoWrapErr
//@enum N MessageUnwrapErr as=ProtoUnwrapErr
//@enum N ErrorType
//@struct N ActorRefErr as=PActorRefErr drop=special_fields
//@enum F ActorRefErr
impl VInto<EnumOrUnknown<ErrorType>> for ErrorType { open spec fn can(self) -> bool { true } open spec fn goes(self, r: EnumOrUnknown<ErrorType>) -> bool { r.v == Some(self) } fn vinto(self) -> (r: EnumOrUnknown<ErrorType>) { EnumOrUnknown { v: Some(self) } } }
impl VInto<EnumOrUnknown<ProtoWrapErr>> for ProtoWrapErr { open spec fn can(self) -> bool { true } open spec fn goes(self, r: EnumOrUnknown<ProtoWrapErr>) -> bool { r.v == Some(self) } fn vinto(self) -> (r: EnumOrUnknown<ProtoWrapErr>) { EnumOrUnknown { v: Some(self) } } }
impl VInto<EnumOrUnknown<ProtoUnwrapErr>> for ProtoUnwrapErr { open spec fn can(self) -> bool { true } open spec fn goes(self, r: EnumOrUnknown<ProtoUnwrapErr>) -> bool { r.v == Some(self) } fn vinto(self) -> (r: EnumOrUnknown<ProtoUnwrapErr>) { EnumOrUnknown { v: Some(self) } } }
// the value with number 0 is the default of a protobuf enum
impl VDef for ErrorType { open spec fn vdef() -> Self { ErrorType::ActorUnavailable } }
pub uninterp spec fn wrap_def() -> ProtoWrapErr;
pub uninterp spec fn unwrap_def() -> ProtoUnwrapErr;
impl VDef for ProtoWrapErr { open spec fn vdef() -> Self { wrap_def() } }
impl VDef for ProtoUnwrapErr { open spec fn vdef() -> Self { unwrap_def() } }
pub open spec fn wrap_of(p: ProtoWrapErr) -> MessageWrapErr { match p { ProtoWrapErr::WrapUnsupported => MessageWrapErr::NotTransmittable, ProtoWrapErr::SerializationErr => MessageWrapErr::SerializationErr, ProtoWrapErr::UnknownWrapErr => MessageWrapErr::Unknown } }
pub open spec fn unwrap_of(p: ProtoUnwrapErr) -> MessageUnwrapErr { match p { ProtoUnwrapErr::UnwrapUnsupported => MessageUnwrapErr::NotTransmittable, ProtoUnwrapErr::DeserializationErr => MessageUnwrapErr::DeserializationErr, ProtoUnwrapErr::UnknownUnwrapErr => MessageUnwrapErr::Unknown } }
/// the error a received error stands for; a kind this node does not know counts as unavailable
pub open spec fn err_of(p: PActorRefErr) -> ActorRefErr {
    match (match p.type_.v { Some(t) => t, None => ErrorType::ActorUnavailable }) {
        ErrorType::ActorUnavailable => ActorRefErr::ActorUnavailable,
        ErrorType::NotFound => ActorRefErr::NotFound(p.actor_id),
        ErrorType::AlreadyExists => ActorRefErr::AlreadyExists(p.actor_id),
        ErrorType::Serialisation => ActorRefErr::Serialisation(wrap_of(match p.serialization_error.v { Some(e) => e, None => wrap_def() })),
        ErrorType::Deserialisation => ActorRefErr::Deserialisation(unwrap_of(match p.deserialization_error.v { Some(e) => e, None => unwrap_def() })),
        ErrorType::Timeout => ActorRefErr::Timeout { time_taken_millis: p.time_taken_millis },
        ErrorType::ActorStartFailed => ActorRefErr::ActorStartFailed,
        ErrorType::InvalidRef => ActorRefErr::InvalidRef,
        ErrorType::ResultChannelClosed => ActorRefErr::ResultChannelClosed,
        ErrorType::ResultSendFailed => ActorRefErr::ResultSendFailed,
        ErrorType::NotSupported => ActorRefErr::NotSupported { actor_id: p.actor_id, message_type: p.message_type, actor_type: p.actor_type },
        ErrorType::NotImplemented => ActorRefErr::NotImplemented,
    }
}
//@fn M From<ActorRefErr>@proto::network::ActorRefErr::from as=err_to_wire impl=none sig="pub fn err_to_wire(err: ActorRefErr) -> (r: PActorRefErr)"
//@rw . to_string ( ) ==> . vtext ( )
//@rw use $x... ; ==>
    // an error sent is the same error where it is received
    ensures err_of(r) == err
//@end
//@fn M From<proto::network::ActorRefErr>@ActorRefErr::from as=err_from_wire impl=none sig="pub fn err_from_wire(err: PActorRefErr) -> (r: ActorRefErr)"
//@rw use $x... ; ==>
    ensures r == err_of(err)
//@end
// ---------------------------------------------------------------------------------------------
// events of the cluster; how a node is described on the wire, and that it is read back, is in nodes.rs
pub struct RemoteNode { pub x: u64 }
pub struct PNode { pub x: u64 }
pub uninterp spec fn node_wire(n: RemoteNode) -> PNode;
pub uninterp spec fn wire_node(n: PNode) -> RemoteNode;
pub axiom fn axiom_node(n: RemoteNode) ensures wire_node(node_wire(n)) == n;
impl<'a> VInto<PNode> for &'a RemoteNode { open spec fn can(self) -> bool { true } open spec fn goes(self, r: PNode) -> bool { r == node_wire(*self) } #[verifier::external_body] fn vinto(self) -> (r: PNode) { unimplemented!() } }
impl VInto<PNode> for RemoteNode { open spec fn can(self) -> bool { true } open spec fn goes(self, r: PNode) -> bool { r == node_wire(self) } #[verifier::external_body] fn vinto(self) -> (r: PNode) { unimplemented!() } }
impl VInto<RemoteNode> for PNode { open spec fn can(self) -> bool { true } open spec fn goes(self, r: RemoteNode) -> bool { r == wire_node(self) } #[verifier::external_body] fn vinto(self) -> (r: RemoteNode) { unimplemented!() } }
impl Clone for RemoteNode { #[verifier::external_body] fn clone(&self) -> (r: RemoteNode) ensures r == *self { unimplemented!() } }
//@struct N NewNodeEvent drop=special_fields
//@struct N NodeRemovedEvent drop=special_fields
//@struct N LeaderChangedEvent drop=special_fields
//@struct N MemberUpEvent drop=special_fields
//@struct S ClusterMemberUp
//@enum S ClusterEvent
//@enum S SystemEvent
pub open spec fn wire_nodes(s: Seq<PNode>) -> Seq<RemoteNode> { s.map_values(|n: PNode| wire_node(n)) }
/// the event a received event stands for
pub open spec fn added_of(p: NewNodeEvent) -> Option<SystemEvent> { match p.node.v { Some(n) => Some(SystemEvent::Cluster(ClusterEvent::NodeAdded(wire_node(n)))), None => None } }
pub open spec fn removed_of(p: NodeRemovedEvent) -> Option<SystemEvent> { match p.node.v { Some(n) => Some(SystemEvent::Cluster(ClusterEvent::NodeRemoved(wire_node(n)))), None => None } }
pub open spec fn leader_of(p: LeaderChangedEvent) -> SystemEvent { SystemEvent::Cluster(ClusterEvent::LeaderChanged(p.node_id)) }
pub open spec fn up_is(p: MemberUpEvent, e: SystemEvent) -> bool { match e { SystemEvent::Cluster(ClusterEvent::MemberUp(m)) => m.leader_id == p.leader_id && m.nodes@ == wire_nodes(p.nodes@), _ => false } }
//@fn N ::protobuf::Enum@SystemEvent::from_i32 as=sys_from_i32 impl=none sig="pub fn sys_from_i32(value: i32) -> (r: Option<SysEvent>)"
//@rw SystemEvent ==> SysEvent
    ensures r == sys_event_of(value)
//@end
//@fn S write_event as=write_sys_event
    ensures match message { Ok(m) => r is Some && r->0@ == seq![system_event as u8] + m@, Err(_) => r is None }
//@end
//@fn S From<NewNodeEvent>@SystemEvent::from as=added_from impl=none sig="pub fn added_from(message: NewNodeEvent) -> (r: SystemEvent)"
    requires message.node.v is Some
    ensures Some(r) == added_of(message)
//@end
//@fn S From<NodeRemovedEvent>@SystemEvent::from as=removed_from impl=none sig="pub fn removed_from(message: NodeRemovedEvent) -> (r: SystemEvent)"
    requires message.node.v is Some
    ensures Some(r) == removed_of(message)
//@end
//@fn S From<LeaderChangedEvent>@SystemEvent::from as=leader_from impl=none sig="pub fn leader_from(message: LeaderChangedEvent) -> (r: SystemEvent)"
    ensures r == leader_of(message)
//@end
//@fn S From<MemberUpEvent>@SystemEvent::from as=up_from impl=none sig="pub fn up_from(e: MemberUpEvent) -> (r: SystemEvent)" desugar
    ensures up_is(e, r)
//@start
    let ghost ns = e.nodes@;
//@loop 0
    invariant it0.seq() == ns, e.nodes@ == ns, collected@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> collected@[i] == wire_node(#[trigger] ns[i]),
//@after 0
    proof { assert(collected@ =~= wire_nodes(ns)); }
//@end
impl VInto<SystemEvent> for NewNodeEvent { open spec fn can(self) -> bool { self.node.v is Some } open spec fn goes(self, r: SystemEvent) -> bool { Some(r) == added_of(self) } fn vinto(self) -> (r: SystemEvent) { added_from(self) } }
impl VInto<SystemEvent> for NodeRemovedEvent { open spec fn can(self) -> bool { self.node.v is Some } open spec fn goes(self, r: SystemEvent) -> bool { Some(r) == removed_of(self) } fn vinto(self) -> (r: SystemEvent) { removed_from(self) } }
impl VInto<SystemEvent> for LeaderChangedEvent { open spec fn can(self) -> bool { true } open spec fn goes(self, r: SystemEvent) -> bool { r == leader_of(self) } fn vinto(self) -> (r: SystemEvent) { leader_from(self) } }
impl VInto<SystemEvent> for MemberUpEvent { open spec fn can(self) -> bool { true } open spec fn goes(self, r: SystemEvent) -> bool { up_is(self, r) } fn vinto(self) -> (r: SystemEvent) { up_from(self) } }
/// the bytes are those of the event
pub open spec fn sys_written(e: SystemEvent, d: Seq<u8>) -> bool { d.len() > 0 && match e {
    SystemEvent::Cluster(ClusterEvent::NodeAdded(n)) => d[0] == SysEvent::ClusterNewNode as u8 && exists|p: NewNodeEvent| p.node.v == Some(node_wire(n)) && d.skip(1) == #[trigger] pbytes(p),
    SystemEvent::Cluster(ClusterEvent::NodeRemoved(n)) => d[0] == SysEvent::ClusterNodeRemoved as u8 && exists|p: NodeRemovedEvent| p.node.v == Some(node_wire(n)) && d.skip(1) == #[trigger] pbytes(p),
    SystemEvent::Cluster(ClusterEvent::LeaderChanged(n)) => d[0] == SysEvent::ClusterLeaderChanged as u8 && exists|p: LeaderChangedEvent| p.node_id == n && d.skip(1) == #[trigger] pbytes(p),
    SystemEvent::Cluster(ClusterEvent::MemberUp(m)) => d[0] == SysEvent::ClusterMemberUp as u8 && exists|p: MemberUpEvent| p.leader_id == m.leader_id && p.nodes@ == nodes_wire(m.nodes@) && d.skip(1) == #[trigger] pbytes(p),
} }
pub open spec fn nodes_wire(s: Seq<RemoteNode>) -> Seq<PNode> { s.map_values(|n: RemoteNode| node_wire(n)) }
/// what is read from the bytes
pub open spec fn sys_read(d: Seq<u8>, r: Option<SystemEvent>) -> bool {
    if d.len() == 0 { r is None } else { match sys_event_of(d[0] as i32) {
        Some(SysEvent::ClusterNewNode) => match pvalue::<NewNodeEvent>(d.skip(1)) { Some(p) => r == added_of(p), None => r is None },
        Some(SysEvent::ClusterNodeRemoved) => match pvalue::<NodeRemovedEvent>(d.skip(1)) { Some(p) => r == removed_of(p), None => r is None },
        Some(SysEvent::ClusterLeaderChanged) => match pvalue::<LeaderChangedEvent>(d.skip(1)) { Some(p) => r == Some(leader_of(p)), None => r is None },
        Some(SysEvent::ClusterMemberUp) => match pvalue::<MemberUpEvent>(d.skip(1)) { Some(p) => r is Some && up_is(p, r->0), None => r is None },
        None => r is None,
    } }
}
pub open spec fn same_event(a: SystemEvent, b: SystemEvent) -> bool { match (a, b) {
    (SystemEvent::Cluster(ClusterEvent::MemberUp(x)), SystemEvent::Cluster(ClusterEvent::MemberUp(y))) => x.leader_id == y.leader_id && x.nodes@ == y.nodes@,
    _ => a == b } }
/// SystemEvent: what is written reads back as it was.
pub proof fn lemma_system_event(e: SystemEvent, d: Seq<u8>, r: Option<SystemEvent>)
    requires sys_written(e, d), sys_read(d, r)
    ensures r is Some, same_event(r->0, e)
{
    match e {
        SystemEvent::Cluster(ClusterEvent::NodeAdded(n)) => { let p = choose|p: NewNodeEvent| p.node.v == Some(node_wire(n)) && d.skip(1) == #[trigger] pbytes(p); axiom_proto(p); axiom_node(n); },
        SystemEvent::Cluster(ClusterEvent::NodeRemoved(n)) => { let p = choose|p: NodeRemovedEvent| p.node.v == Some(node_wire(n)) && d.skip(1) == #[trigger] pbytes(p); axiom_proto(p); axiom_node(n); },
        SystemEvent::Cluster(ClusterEvent::LeaderChanged(n)) => { let p = choose|p: LeaderChangedEvent| p.node_id == n && d.skip(1) == #[trigger] pbytes(p); axiom_proto(p); },
        SystemEvent::Cluster(ClusterEvent::MemberUp(m)) => {
            let p = choose|p: MemberUpEvent| p.leader_id == m.leader_id && p.nodes@ == nodes_wire(m.nodes@) && d.skip(1) == #[trigger] pbytes(p); axiom_proto(p);
            assert forall|i: int| 0 <= i < m.nodes@.len() implies wire_nodes(p.nodes@)[i] == m.nodes@[i] by { axiom_node(m.nodes@[i]); }
            assert(wire_nodes(p.nodes@) =~= m.nodes@);
        },
    }
}
//@fn S StreamData@SystemEvent::read_from_bytes as=system_from impl=none sig="pub fn system_from(data: Vec<u8>) -> (r: Option<SystemEvent>)" kinds
//@rw SysEvent :: from_i32 ( $x... ) ==> sys_from_i32 ( $x... )
    ensures sys_read(data@, r)
//@end
//@fn S StreamData@SystemEvent::write_to_bytes as=system_write impl=none sig="pub fn system_write(this: &SystemEvent) -> (r: Option<Vec<u8>>)" desugar
//@rw match self ==> match this
//@rw write_event ( $x... ) ==> write_sys_event ( $x... )
    ensures r is Some ==> sys_written(*this, r->0@)
//@start
    broadcast use lemma_tagged;
//@loop 0
    invariant it0.seq() == refs(member_up.nodes@), collected@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> collected@[i] == node_wire(#[trigger] member_up.nodes@[i]),
//@after 0
    proof { assert(collected@ =~= nodes_wire(member_up.nodes@)); }
//@end
// ---------------------------------------------------------------------------------------------
// messages of sharding.  `X_rel(m, p)`: the protobuf message p stands for m.
pub uninterp spec fn uparse(t: u64) -> Option<Uuid>;
pub trait VText { spec fn text_is(&self, t: u64) -> bool; fn vtext(&self) -> (r: u64) ensures self.text_is(r); }
impl VText for u64 { open spec fn text_is(&self, t: u64) -> bool { t == *self } fn vtext(&self) -> (r: u64) { *self } }
/// assumed of crate uuid: the text of a uuid reads as that uuid
impl VText for Uuid { open spec fn text_is(&self, t: u64) -> bool { uparse(t) == Some(*self) } #[verifier::external_body] fn vtext(&self) -> (r: u64) { unimplemented!() } }
#[verifier::external_body]
pub fn vuuid(t: &u64) -> (r: Result<Uuid, PErr>) ensures r is Ok <==> uparse(*t) is Some, r is Ok ==> r->Ok_0 == uparse(*t)->0 { unimplemented!() }
pub trait VCopy: Sized { spec fn copy_is(&self, r: Self) -> bool; fn vcopy(&self) -> (r: Self) ensures self.copy_is(r); }
impl VCopy for u64 { open spec fn copy_is(&self, r: Self) -> bool { r == *self } fn vcopy(&self) -> (r: u64) { *self } }
impl VCopy for Vec<u8> { open spec fn copy_is(&self, r: Self) -> bool { r@ == self@ } #[verifier::external_body] fn vcopy(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VCopy for Option<Vec<u8>> { open spec fn copy_is(&self, r: Self) -> bool { match (*self, r) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } } #[verifier::external_body] fn vcopy(&self) -> (r: Option<Vec<u8>>) { unimplemented!() } }
pub type RecipeRef = Vec<u8>;
//@struct Q RemoteShard as=PRemoteShard drop=special_fields
//@struct Q Recipe as=PRecipe drop=special_fields
//@struct Q ShardAllocated as=PShardAllocated drop=special_fields
//@struct H ShardAllocated
//@struct Q ShardReallocating as=PShardReallocating drop=special_fields
//@struct H ShardReallocating
//@struct Q StopShard as=PStopShard drop=special_fields
//@struct H StopShard
//@struct Q ShardStopped as=PShardStopped drop=special_fields
//@struct H ShardStopped
//@struct Q RemoteEntityRequest as=PRemoteEntityRequest drop=special_fields
//@struct E RemoteEntityRequest
//@struct Q StartEntity as=PStartEntity drop=special_fields
//@struct D StartEntity
//@struct Q RemoveEntity as=PRemoveEntity drop=special_fields
//@struct D RemoveEntity
//@struct Q PassivateEntity as=PPassivateEntity drop=special_fields
//@struct D PassivateEntity
//@struct Q AllocateShard as=PAllocateShard drop=special_fields
//@struct A AllocateShard
/// assumed of crate protobuf: bytes of one message read as another whose fields have the same numbers and types
pub axiom fn axiom_reallocating(p: PShardReallocating) ensures ({ let q = pvalue::<PStopShard>(pbytes(p)); q is Some && q->0.shard_id == p.shard_id });
pub open spec fn shardallocated_rel(m: ShardAllocated, p: PShardAllocated) -> bool { p.shard.v is Some && p.shard.v->0.shard_id == m.0 && p.shard.v->0.node_id == m.1 }
pub open spec fn shardallocated_written(m: ShardAllocated, d: Seq<u8>) -> bool { exists|p: PShardAllocated| shardallocated_rel(m, p) && d == #[trigger] pbytes(p) }
pub open spec fn shardallocated_read(d: Seq<u8>, r: Result<ShardAllocated, MessageUnwrapErr>) -> bool { (match pvalue::<PShardAllocated>(d) {
    None => r is Err,
    Some(p) => if p.shard.v is Some { r is Ok && shardallocated_rel(r->Ok_0, p) } else { r is Err } }) }
pub open spec fn shardallocated_same(a: ShardAllocated, b: ShardAllocated) -> bool { a == b }
/// ShardAllocated: what is written reads back as it was.
pub proof fn lemma_shardallocated(m: ShardAllocated, d: Seq<u8>, r: Result<ShardAllocated, MessageUnwrapErr>)
    requires shardallocated_written(m, d), shardallocated_read(d, r)
    ensures r is Ok, shardallocated_same(r->Ok_0, m)
{ let p = choose|p: PShardAllocated| shardallocated_rel(m, p) && d == #[trigger] pbytes(p); axiom_proto(p); }
//@fn H Message@ShardAllocated::as_bytes as=shardallocated_write impl=none sig="pub fn shardallocated_write(this: &ShardAllocated) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
//@rw self ==> this
//@rw . to_string ( ) ==> . vtext ( )
//@rw . clone ( ) ==> . vcopy ( )
    ensures r is Ok ==> shardallocated_written(*this, r->Ok_0@)
//@end
//@fn H Message@ShardAllocated::from_bytes as=shardallocated_from impl=none sig="pub fn shardallocated_from(b: Vec<u8>) -> (r: Result<ShardAllocated, MessageUnwrapErr>)" kinds
//@rw Self ==> ShardAllocated
//@rw Uuid :: parse_str ( $x... ) ==> vuuid ( $x... )
//@rw Uuid :: from_str ( $x... ) ==> vuuid ( $x... )
    ensures shardallocated_read(b@, r)
//@end
pub open spec fn shardreallocating_rel(m: ShardReallocating, p: PShardReallocating) -> bool { p.shard_id == m.0 }
pub open spec fn shardreallocating_written(m: ShardReallocating, d: Seq<u8>) -> bool { exists|p: PShardReallocating| shardreallocating_rel(m, p) && d == #[trigger] pbytes(p) }
pub open spec fn shardreallocating_read(d: Seq<u8>, r: Result<ShardReallocating, MessageUnwrapErr>) -> bool { (match pvalue::<PShardReallocating>(d) {
    None => r is Err,
    Some(p) => if true { r is Ok && shardreallocating_rel(r->Ok_0, p) } else { r is Err } })
    // either of the two messages is fine, they agree on the field that counts
    || (match pvalue::<PStopShard>(d) { None => r is Err, Some(p) => r is Ok && p.shard_id == r->Ok_0.0 }) }
pub open spec fn shardreallocating_same(a: ShardReallocating, b: ShardReallocating) -> bool { a == b }
/// ShardReallocating: what is written reads back as it was.
pub proof fn lemma_shardreallocating(m: ShardReallocating, d: Seq<u8>, r: Result<ShardReallocating, MessageUnwrapErr>)
    requires shardreallocating_written(m, d), shardreallocating_read(d, r)
    ensures r is Ok, shardreallocating_same(r->Ok_0, m)
{ let p = choose|p: PShardReallocating| shardreallocating_rel(m, p) && d == #[trigger] pbytes(p); axiom_proto(p); axiom_reallocating(p); }
//@fn H Message@ShardReallocating::as_bytes as=shardreallocating_write impl=none sig="pub fn shardreallocating_write(this: &ShardReallocating) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
//@rw self ==> this
//@rw . to_string ( ) ==> . vtext ( )
//@rw . clone ( ) ==> . vcopy ( )
    ensures r is Ok ==> shardreallocating_written(*this, r->Ok_0@)
//@end
//@fn H Message@ShardReallocating::from_bytes as=shardreallocating_from impl=none sig="pub fn shardreallocating_from(b: Vec<u8>) -> (r: Result<ShardReallocating, MessageUnwrapErr>)" kinds
//@rw Self ==> ShardReallocating
//@rw Uuid :: parse_str ( $x... ) ==> vuuid ( $x... )
//@rw Uuid :: from_str ( $x... ) ==> vuuid ( $x... )
    ensures shardreallocating_read(b@, r)
//@end
pub open spec fn stopshard_rel(m: StopShard, p: PStopShard) -> bool { p.shard_id == m.shard_id && p.origin_node_id == m.origin_node_id && uparse(p.request_id) == Some(m.request_id) }
pub open spec fn stopshard_written(m: StopShard, d: Seq<u8>) -> bool { exists|p: PStopShard| stopshard_rel(m, p) && d == #[trigger] pbytes(p) }
pub open spec fn stopshard_read(d: Seq<u8>, r: Result<StopShard, MessageUnwrapErr>) -> bool { (match pvalue::<PStopShard>(d) {
    None => r is Err,
    Some(p) => if uparse(p.request_id) is Some { r is Ok && stopshard_rel(r->Ok_0, p) } else { r is Err } }) }
pub open spec fn stopshard_same(a: StopShard, b: StopShard) -> bool { a == b }
/// StopShard: what is written reads back as it was.
pub proof fn lemma_stopshard(m: StopShard, d: Seq<u8>, r: Result<StopShard, MessageUnwrapErr>)
    requires stopshard_written(m, d), stopshard_read(d, r)
    ensures r is Ok, stopshard_same(r->Ok_0, m)
{ let p = choose|p: PStopShard| stopshard_rel(m, p) && d == #[trigger] pbytes(p); axiom_proto(p); }
//@fn H Message@StopShard::as_bytes as=stopshard_write impl=none sig="pub fn stopshard_write(this: &StopShard) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
//@rw self ==> this
//@rw . to_string ( ) ==> . vtext ( )
//@rw . clone ( ) ==> . vcopy ( )
    ensures r is Ok ==> stopshard_written(*this, r->Ok_0@)
//@end
//@fn H Message@StopShard::from_bytes as=stopshard_from impl=none sig="pub fn stopshard_from(b: Vec<u8>) -> (r: Result<StopShard, MessageUnwrapErr>)" kinds
//@rw Self ==> StopShard
//@rw Uuid :: parse_str ( $x... ) ==> vuuid ( $x... )
//@rw Uuid :: from_str ( $x... ) ==> vuuid ( $x... )
    ensures stopshard_read(b@, r)
//@end
pub open spec fn shardstopped_rel(m: ShardStopped, p: PShardStopped) -> bool { p.shard_id == m.shard_id && p.is_successful == m.stopped_successfully }
pub open spec fn shardstopped_written(m: ShardStopped, d: Seq<u8>) -> bool { exists|p: PShardStopped| shardstopped_rel(m, p) && d == #[trigger] pbytes(p) }
pub open spec fn shardstopped_read(d: Seq<u8>, r: Result<ShardStopped, MessageUnwrapErr>) -> bool { (match pvalue::<PShardStopped>(d) {
    None => r is Err,
    Some(p) => if true { r is Ok && shardstopped_rel(r->Ok_0, p) } else { r is Err } }) }
pub open spec fn shardstopped_same(a: ShardStopped, b: ShardStopped) -> bool { a == b }
/// ShardStopped: what is written reads back as it was.
pub proof fn lemma_shardstopped(m: ShardStopped, d: Seq<u8>, r: Result<ShardStopped, MessageUnwrapErr>)
    requires shardstopped_written(m, d), shardstopped_read(d, r)
    ensures r is Ok, shardstopped_same(r->Ok_0, m)
{ let p = choose|p: PShardStopped| shardstopped_rel(m, p) && d == #[trigger] pbytes(p); axiom_proto(p); }
//@fn H Message@ShardStopped::as_bytes as=shardstopped_write impl=none sig="pub fn shardstopped_write(this: &ShardStopped) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
//@rw self ==> this
//@rw . to_string ( ) ==> . vtext ( )
//@rw . clone ( ) ==> . vcopy ( )
    ensures r is Ok ==> shardstopped_written(*this, r->Ok_0@)
//@end
//@fn H Message@ShardStopped::from_bytes as=shardstopped_from impl=none sig="pub fn shardstopped_from(b: Vec<u8>) -> (r: Result<ShardStopped, MessageUnwrapErr>)" kinds
//@rw Self ==> ShardStopped
//@rw Uuid :: parse_str ( $x... ) ==> vuuid ( $x... )
//@rw Uuid :: from_str ( $x... ) ==> vuuid ( $x... )
    ensures shardstopped_read(b@, r)
//@end
pub open spec fn remoteentityrequest_rel(m: RemoteEntityRequest, p: PRemoteEntityRequest) -> bool { uparse(p.request_id) == Some(m.request_id) && p.actor_id == m.actor_id && p.message_type == m.message_type && p.message@ == m.message@ && p.origin_node == m.origin_node
        && match (p.recipe.v, m.recipe) { (Some(x), Some(y)) => x.recipe@ == y@, (None, None) => true, _ => false } }
pub open spec fn remoteentityrequest_written(m: RemoteEntityRequest, d: Seq<u8>) -> bool { exists|p: PRemoteEntityRequest| remoteentityrequest_rel(m, p) && d == #[trigger] pbytes(p) }
pub open spec fn remoteentityrequest_read(d: Seq<u8>, r: Result<RemoteEntityRequest, MessageUnwrapErr>) -> bool { (match pvalue::<PRemoteEntityRequest>(d) {
    None => r is Err,
    Some(p) => if uparse(p.request_id) is Some { r is Ok && remoteentityrequest_rel(r->Ok_0, p) } else { r is Err } }) }
pub open spec fn remoteentityrequest_same(a: RemoteEntityRequest, b: RemoteEntityRequest) -> bool { a.request_id == b.request_id && a.actor_id == b.actor_id && a.message_type == b.message_type && a.message@ == b.message@ && a.origin_node == b.origin_node
        && match (a.recipe, b.recipe) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
/// RemoteEntityRequest: what is written reads back as it was.
pub proof fn lemma_remoteentityrequest(m: RemoteEntityRequest, d: Seq<u8>, r: Result<RemoteEntityRequest, MessageUnwrapErr>)
    requires remoteentityrequest_written(m, d), remoteentityrequest_read(d, r)
    ensures r is Ok, remoteentityrequest_same(r->Ok_0, m)
{ let p = choose|p: PRemoteEntityRequest| remoteentityrequest_rel(m, p) && d == #[trigger] pbytes(p); axiom_proto(p); }
//@fn E Message@RemoteEntityRequest::as_bytes as=remoteentityrequest_write impl=none sig="pub fn remoteentityrequest_write(this: &RemoteEntityRequest) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
//@rw self ==> this
//@rw . to_string ( ) ==> . vtext ( )
//@rw . clone ( ) ==> . vcopy ( )
    ensures r is Ok ==> remoteentityrequest_written(*this, r->Ok_0@)
//@end
//@fn E Message@RemoteEntityRequest::from_bytes as=remoteentityrequest_from impl=none sig="pub fn remoteentityrequest_from(b: Vec<u8>) -> (r: Result<RemoteEntityRequest, MessageUnwrapErr>)" kinds
//@rw Self ==> RemoteEntityRequest
//@rw Uuid :: parse_str ( $x... ) ==> vuuid ( $x... )
//@rw Uuid :: from_str ( $x... ) ==> vuuid ( $x... )
//@rw buffer ==> b
    ensures remoteentityrequest_read(b@, r)
//@end
pub open spec fn startentity_rel(m: StartEntity, p: PStartEntity) -> bool { p.actor_id == m.actor_id && p.recipe@ == m.recipe@ }
pub open spec fn startentity_written(m: StartEntity, d: Seq<u8>) -> bool { exists|p: PStartEntity| startentity_rel(m, p) && d == #[trigger] pbytes(p) }
pub open spec fn startentity_read(d: Seq<u8>, r: Result<StartEntity, MessageUnwrapErr>) -> bool { (match pvalue::<PStartEntity>(d) {
    None => r is Err,
    Some(p) => if true { r is Ok && startentity_rel(r->Ok_0, p) } else { r is Err } }) }
pub open spec fn startentity_same(a: StartEntity, b: StartEntity) -> bool { a.actor_id == b.actor_id && a.recipe@ == b.recipe@ }
/// StartEntity: what is written reads back as it was.
pub proof fn lemma_startentity(m: StartEntity, d: Seq<u8>, r: Result<StartEntity, MessageUnwrapErr>)
    requires startentity_written(m, d), startentity_read(d, r)
    ensures r is Ok, startentity_same(r->Ok_0, m)
{ let p = choose|p: PStartEntity| startentity_rel(m, p) && d == #[trigger] pbytes(p); axiom_proto(p); }
//@fn D Message@StartEntity::as_bytes as=startentity_write impl=none sig="pub fn startentity_write(this: &StartEntity) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
//@rw self ==> this
//@rw . to_string ( ) ==> . vtext ( )
//@rw . clone ( ) ==> . vcopy ( )
    ensures r is Ok ==> startentity_written(*this, r->Ok_0@)
//@end
//@fn D Message@StartEntity::from_bytes as=startentity_from impl=none sig="pub fn startentity_from(b: Vec<u8>) -> (r: Result<StartEntity, MessageUnwrapErr>)" kinds
//@rw Self ==> StartEntity
//@rw Uuid :: parse_str ( $x... ) ==> vuuid ( $x... )
//@rw Uuid :: from_str ( $x... ) ==> vuuid ( $x... )
    ensures startentity_read(b@, r)
//@end
pub open spec fn removeentity_rel(m: RemoveEntity, p: PRemoveEntity) -> bool { p.actor_id == m.actor_id }
pub open spec fn removeentity_written(m: RemoveEntity, d: Seq<u8>) -> bool { exists|p: PRemoveEntity| removeentity_rel(m, p) && d == #[trigger] pbytes(p) }
pub open spec fn removeentity_read(d: Seq<u8>, r: Result<RemoveEntity, MessageUnwrapErr>) -> bool { (match pvalue::<PRemoveEntity>(d) {
    None => r is Err,
    Some(p) => if true { r is Ok && removeentity_rel(r->Ok_0, p) } else { r is Err } }) }
pub open spec fn removeentity_same(a: RemoveEntity, b: RemoveEntity) -> bool { a == b }
/// RemoveEntity: what is written reads back as it was.
pub proof fn lemma_removeentity(m: RemoveEntity, d: Seq<u8>, r: Result<RemoveEntity, MessageUnwrapErr>)
    requires removeentity_written(m, d), removeentity_read(d, r)
    ensures r is Ok, removeentity_same(r->Ok_0, m)
{ let p = choose|p: PRemoveEntity| removeentity_rel(m, p) && d == #[trigger] pbytes(p); axiom_proto(p); }
//@fn D Message@RemoveEntity::as_bytes as=removeentity_write impl=none sig="pub fn removeentity_write(this: &RemoveEntity) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
//@rw self ==> this
//@rw . to_string ( ) ==> . vtext ( )
//@rw . clone ( ) ==> . vcopy ( )
    ensures r is Ok ==> removeentity_written(*this, r->Ok_0@)
//@end
//@fn D Message@RemoveEntity::from_bytes as=removeentity_from impl=none sig="pub fn removeentity_from(b: Vec<u8>) -> (r: Result<RemoveEntity, MessageUnwrapErr>)" kinds
//@rw Self ==> RemoveEntity
//@rw Uuid :: parse_str ( $x... ) ==> vuuid ( $x... )
//@rw Uuid :: from_str ( $x... ) ==> vuuid ( $x... )
    ensures removeentity_read(b@, r)
//@end
pub open spec fn passivateentity_rel(m: PassivateEntity, p: PPassivateEntity) -> bool { p.actor_id == m.actor_id }
pub open spec fn passivateentity_written(m: PassivateEntity, d: Seq<u8>) -> bool { exists|p: PPassivateEntity| passivateentity_rel(m, p) && d == #[trigger] pbytes(p) }
pub open spec fn passivateentity_read(d: Seq<u8>, r: Result<PassivateEntity, MessageUnwrapErr>) -> bool { (match pvalue::<PPassivateEntity>(d) {
    None => r is Err,
    Some(p) => if true { r is Ok && passivateentity_rel(r->Ok_0, p) } else { r is Err } }) }
pub open spec fn passivateentity_same(a: PassivateEntity, b: PassivateEntity) -> bool { a == b }
/// PassivateEntity: what is written reads back as it was.
pub proof fn lemma_passivateentity(m: PassivateEntity, d: Seq<u8>, r: Result<PassivateEntity, MessageUnwrapErr>)
    requires passivateentity_written(m, d), passivateentity_read(d, r)
    ensures r is Ok, passivateentity_same(r->Ok_0, m)
{ let p = choose|p: PPassivateEntity| passivateentity_rel(m, p) && d == #[trigger] pbytes(p); axiom_proto(p); }
//@fn D Message@PassivateEntity::as_bytes as=passivateentity_write impl=none sig="pub fn passivateentity_write(this: &PassivateEntity) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
//@rw self ==> this
//@rw . to_string ( ) ==> . vtext ( )
//@rw . clone ( ) ==> . vcopy ( )
    ensures r is Ok ==> passivateentity_written(*this, r->Ok_0@)
//@end
//@fn D Message@PassivateEntity::from_bytes as=passivateentity_from impl=none sig="pub fn passivateentity_from(b: Vec<u8>) -> (r: Result<PassivateEntity, MessageUnwrapErr>)" kinds
//@rw Self ==> PassivateEntity
//@rw Uuid :: parse_str ( $x... ) ==> vuuid ( $x... )
//@rw Uuid :: from_str ( $x... ) ==> vuuid ( $x... )
    ensures passivateentity_read(b@, r)
//@end
pub open spec fn allocateshard_rel(m: AllocateShard, p: PAllocateShard) -> bool { p.shard_id == m.shard_id && p.rebalancing == m.rebalancing }
pub open spec fn allocateshard_written(m: AllocateShard, d: Seq<u8>) -> bool { exists|p: PAllocateShard| allocateshard_rel(m, p) && d == #[trigger] pbytes(p) }
pub open spec fn allocateshard_read(d: Seq<u8>, r: Result<AllocateShard, MessageUnwrapErr>) -> bool { (match pvalue::<PAllocateShard>(d) {
    None => r is Err,
    Some(p) => if true { r is Ok && allocateshard_rel(r->Ok_0, p) } else { r is Err } }) }
pub open spec fn allocateshard_same(a: AllocateShard, b: AllocateShard) -> bool { a == b }
/// AllocateShard: what is written reads back as it was.
pub proof fn lemma_allocateshard(m: AllocateShard, d: Seq<u8>, r: Result<AllocateShard, MessageUnwrapErr>)
    requires allocateshard_written(m, d), allocateshard_read(d, r)
    ensures r is Ok, allocateshard_same(r->Ok_0, m)
{ let p = choose|p: PAllocateShard| allocateshard_rel(m, p) && d == #[trigger] pbytes(p); axiom_proto(p); }
//@fn A Message@AllocateShard::as_bytes as=allocateshard_write impl=none sig="pub fn allocateshard_write(this: &AllocateShard) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
//@rw self ==> this
//@rw . to_string ( ) ==> . vtext ( )
//@rw . clone ( ) ==> . vcopy ( )
    ensures r is Ok ==> allocateshard_written(*this, r->Ok_0@)
//@end
//@fn A Message@AllocateShard::from_bytes as=allocateshard_from impl=none sig="pub fn allocateshard_from(b: Vec<u8>) -> (r: Result<AllocateShard, MessageUnwrapErr>)" kinds
//@rw Self ==> AllocateShard
//@rw Uuid :: parse_str ( $x... ) ==> vuuid ( $x... )
//@rw Uuid :: from_str ( $x... ) ==> vuuid ( $x... )
//@rw buffer ==> b
    ensures allocateshard_read(b@, r)
//@end
// the answer to a request for the allocation of a shard
//@enum Q Type as=AllocType
//@enum Q AllocateShardErr as=PAllocErr
//@struct Q AllocateShardResult as=PAllocateShardResult drop=special_fields
//@enum A AllocateShardErr
//@enum A AllocateShardResult
impl VDef for PAllocErr { open spec fn vdef() -> Self { PAllocErr::UNKNOWN } }
impl VInto<EnumOrUnknown<AllocType>> for AllocType { open spec fn can(self) -> bool { true } open spec fn goes(self, r: EnumOrUnknown<AllocType>) -> bool { r.v == Some(self) } fn vinto(self) -> (r: EnumOrUnknown<AllocType>) { EnumOrUnknown { v: Some(self) } } }
impl VInto<EnumOrUnknown<PAllocErr>> for PAllocErr { open spec fn can(self) -> bool { true } open spec fn goes(self, r: EnumOrUnknown<PAllocErr>) -> bool { r.v == Some(self) } fn vinto(self) -> (r: EnumOrUnknown<PAllocErr>) { EnumOrUnknown { v: Some(self) } } }
/// the result p stands for; nothing, if its kind is unknown or the allocation it is about is missing
pub open spec fn result_of(p: PAllocateShardResult) -> Option<AllocateShardResult> { match p.result_type.v {
    Some(AllocType::ALLOCATED) => match p.allocation.v { Some(a) => Some(AllocateShardResult::Allocated(a.shard_id, a.node_id)), None => None },
    Some(AllocType::ALREADY_ALLOCATED) => match p.allocation.v { Some(a) => Some(AllocateShardResult::AlreadyAllocated(a.shard_id, a.node_id)), None => None },
    Some(AllocType::NOT_ALLOCATED) => Some(AllocateShardResult::NotAllocated),
    Some(AllocType::ERR) => Some(AllocateShardResult::Err(match p.err.v { Some(PAllocErr::PERSISTENCE) => AllocateShardErr::Persistence, _ => AllocateShardErr::Unknown })),
    None => None,
} }
pub open spec fn result_written(m: AllocateShardResult, d: Seq<u8>) -> bool { exists|p: PAllocateShardResult| result_of(p) == Some(m) && d == #[trigger] pbytes(p) }
pub open spec fn result_read(d: Seq<u8>, r: Result<AllocateShardResult, MessageUnwrapErr>) -> bool { match pvalue::<PAllocateShardResult>(d) {
    None => r is Err,
    Some(p) => match result_of(p) { Some(m) => r == Ok::<AllocateShardResult, MessageUnwrapErr>(m), None => r is Err } } }
/// the answer to AllocateShard: what is written reads back as it was
pub proof fn lemma_result(m: AllocateShardResult, d: Seq<u8>, r: Result<AllocateShardResult, MessageUnwrapErr>)
    requires result_written(m, d), result_read(d, r)
    ensures r == Ok::<AllocateShardResult, MessageUnwrapErr>(m)
{ let p = choose|p: PAllocateShardResult| result_of(p) == Some(m) && d == #[trigger] pbytes(p); axiom_proto(p); }
//@fn A Message@AllocateShard::write_remote_result as=result_write impl=none sig="pub fn result_write(res: AllocateShardResult) -> (r: Result<Vec<u8>, MessageWrapErr>)" kinds
    ensures r is Ok ==> result_written(res, r->Ok_0@)
//@end
//@fn A Message@AllocateShard::read_remote_result as=result_from impl=none sig="pub fn result_from(buffer: Vec<u8>) -> (r: Result<AllocateShardResult, MessageUnwrapErr>)" kinds
    ensures result_read(buffer@, r)
//@end
// ---------------------------------------------------------------------------------------------
// the loop that reads a connection
pub struct RemoteActorSystem { pub x: u64 }
pub struct Msg { pub x: u64 }
/// what a frame holds, for the kind of message the receiver handles
pub uninterp spec fn frame_msg(f: Seq<u8>) -> Option<Msg>;
#[verifier::external_body]
pub fn vread(data: Vec<u8>) -> (r: Option<Msg>) ensures r == frame_msg(data@) { unimplemented!() }
/// a framed connection: the frames it has yet to give; it ends, or ends with an error
#[verifier::external_body]
pub struct Reader { x: u64 }
impl Reader {
    pub uninterp spec fn view(&self) -> Seq<Result<Frame, PErr>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<Frame, PErr>>)
        ensures match r { Some(f) => old(self)@.len() > 0 && f == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Frame { x: u64 }
impl Frame {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
pub enum Got { Message(Msg), Failed, Lost, Closed }
/// the receiver: what it was given, in order; whether it wants to close is up to it
#[verifier::external_body]
pub struct Receiver { x: u64 }
impl Receiver {
    pub uninterp spec fn view(&self) -> Seq<Got>;
    pub uninterp spec fn closing(&self) -> bool;
    #[verifier::external_body] pub fn on_receive(&mut self, m: Msg, s: &RemoteActorSystem) ensures final(self)@ == old(self)@.push(Got::Message(m)) { unimplemented!() }
    #[verifier::external_body] pub fn on_deserialisation_failed(&mut self) ensures final(self)@ == old(self)@.push(Got::Failed) { unimplemented!() }
    #[verifier::external_body] pub fn on_stream_lost(&mut self, e: PErr) ensures final(self)@ == old(self)@.push(Got::Lost) { unimplemented!() }
    #[verifier::external_body] pub fn on_close(&mut self, s: &mut RemoteActorSystem) ensures final(self)@ == old(self)@.push(Got::Closed), final(self).closing() == old(self).closing() { unimplemented!() }
    #[verifier::external_body] pub fn should_close(&self) -> (r: bool) ensures r == self.closing() { unimplemented!() }
}
pub open spec fn got(f: Result<Frame, PErr>) -> Got { match f { Ok(b) => match frame_msg(b@) { Some(m) => Got::Message(m), None => Got::Failed }, Err(_) => Got::Lost } }
pub open spec fn gots(s: Seq<Result<Frame, PErr>>) -> Seq<Got> { s.map_values(|f: Result<Frame, PErr>| got(f)) }
/// Every frame is dealt with, in order, once: its message is handled, or it is reported as unreadable. That ends with the
/// connection, with an error of it, or when the receiver asks to close after a message, and not with an unreadable frame.
pub open spec fn received(fs: Seq<Result<Frame, PErr>>, log: Seq<Got>, closing: bool) -> bool {
    exists|k: int| 0 <= k <= fs.len() && log == #[trigger] gots(fs.take(k)) && (k == fs.len() || (k > 0 && got(fs[k - 1]) is Lost) || (k > 0 && got(fs[k - 1]) is Message && closing))
        && (forall|j: int| 0 <= j < k - 1 ==> !(#[trigger] got(fs[j]) is Lost))
}
pub proof fn lemma_take(fs: Seq<Result<Frame, PErr>>, i: int) requires 0 <= i < fs.len() ensures gots(fs.take(i + 1)) == gots(fs.take(i)).push(got(fs[i])), fs.skip(i)[0] == fs[i], fs.skip(i).skip(1) == fs.skip(i + 1)
{ assert(gots(fs.take(i + 1)) =~= gots(fs.take(i)).push(got(fs[i]))); assert(fs.skip(i).skip(1) =~= fs.skip(i + 1)); }
//@fn L receive_loop as=receive_loop sig="pub fn receive_loop(mut system: RemoteActorSystem, read: Reader, receiver: &mut Receiver)"
//@rw R :: Message :: read_from_bytes ( $x... ) ==> vread ( $x... )
    requires old(receiver)@.len() == 0
    ensures final(receiver)@.len() > 0, final(receiver)@.last() is Closed, received(read@, final(receiver)@.drop_last(), final(receiver).closing())
//@start
    let ghost fs = read@;
    let ghost mut i: int = 0;
    proof { assert(gots(fs.take(0)) =~= Seq::empty()); assert(fs.skip(0) =~= fs); }
//@loop 0
    invariant 0 <= i <= fs.len(), reader@ == fs.skip(i), receiver@ == gots(fs.take(i)), forall|j: int| 0 <= j < i ==> !(#[trigger] got(fs[j]) is Lost),
    ensures received(fs, receiver@, receiver.closing()), receiver@ == gots(fs.take(i)),
//@loopstart 0
    proof { lemma_take(fs, i); i = i + 1; }
//@tail
    proof { assert(receiver@.drop_last() =~= gots(fs.take(i))); }
//@end
} // verus!
fn main() {}
