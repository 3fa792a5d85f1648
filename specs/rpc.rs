//@include head.inc
verus! {
//@include std.inc
//@file P coerce/src/remote/system/rpc.rs
//@file R coerce/src/remote/actor_ref.rs
//@file Y coerce/src/remote/system/actor.rs
//@file H coerce/src/remote/handler.rs
//@file A coerce/src/remote/actor/mod.rs
//@file G coerce/src/remote/actor/message.rs
//@file T coerce/src/remote/actor/registry.rs
//@file S coerce/src/remote/net/server/session/mod.rs
//@file C coerce/src/remote/net/client/receive.rs
//@file N coerce/src/remote/net/proto/network.rs
//@file M coerce/src/remote/net/message.rs
//@file F coerce/src/actor/refs/mod.rs
//@file K coerce/src/remote/net/server/session/store.rs
//@# identifiers (actor ids, message ids and their text form, handler names) are opaque values; text form and parse are inverse
//@rw :: std :: string :: String ==> u64
//@rw :: std :: vec :: Vec < u8 > ==> Vec < u8 >
//@rw :: protobuf :: MessageField < :: protobuf :: well_known_types :: wrappers :: UInt64Value > ==> MessageField < UInt64Value >
//@rw :: protobuf :: MessageField < ActorRefErr > ==> MessageField < ProtoErr >
//@rw String :: new ( ) ==> vtext ( )
//@rw String :: default ( ) ==> vtext ( )
//@rw String ==> u64
//@rw & str ==> u64
//@rw . as_str ( ) ==>
//@rw . actor_id ( ) . to_string ( ) ==> . actor_id ( ) . clone ( )
//@rw . to_string ( ) ==>
//@rw . into_actor_id ( ) ==>
//@rw Uuid :: from_str ( $x ) . unwrap ( ) ==> vparse ( $x )
//@rw Uuid :: from_str ( & $x . $y ) . unwrap ( ) ==> vparse ( & $x . $y )
//@rw . parse ( ) . unwrap ( ) ==>
//@rw Uuid :: new_v4 ( ) ==> vuuid ( Tracked ( & mut * w ) )
//@rw Default :: default ( ) ==> vdefault ( )
//@rw ActorAddress :: default ( ) ==> vdefault ( )
//@rw ClientResult :: default ( ) ==> vdefault ( )
//@rw ClientErr :: default ( ) ==> vdefault ( )
//@rw < A : Actor , F : ActorFactory > where F : Send + Sync , A : Send + Sync , ==>
//@rw < A : Actor , F : ActorFactory > ==>
//@rw < A : Actor , F : ActorFactory < Actor = A > > ==>
//@rw RemoteActorHandler < A , F > ==> RemoteActorHandler
//@rw where A : 'static + Sync + Send , F : 'static + Send + Sync , ==>
//@rw factory : F ==> factory : Factory
//@rw < A : Actor > ==>
//@rw < A : Actor , M : Message > ==>
//@rw < Msg : Message > ==>
//@rw where A : Handler < Msg > , Msg : 'static + Send + Sync , < Msg as Message > :: Result : 'static + Send + Sync , ==>
//@rw where A : Handler < Msg > , Msg : 'static + Send + Sync , ==>
//@rw where Msg : 'static + Send + Sync , ==>
//@rw where A : 'static + Sync + Send , ==>
//@rw where A : 'static + Sync + Send ==>
//@rw where M : 'static + Sync + Send , ==>
//@rw :: < A , Msg > ==>
//@rw :: < A , M > ==>
//@rw :: < A > ==>
//@rw :: < F :: Actor > ==>
//@rw RemoteActorRef < A > ==> RemoteActorRef
//@rw LocalActorRef < A > ==> LocalActorRef
//@rw LocalActorRef < RemoteSession > ==> SessionRef
//@rw Envelope < Msg > ==> Envelope
//@rw ActorRef < A > ==> ActorRef
//@rw ActorRef < F :: Actor > ==> ActorRef
//@rw Ref < A > ==> Ref
//@rw . map ( ActorRef :: from ) ==> . vlocal ( )
//@rw . ok_or ( $x... ) ==> . vok_or ( $x... )
//@rw ActorRef :: from ( $x... ) ==> ( $x... ) . into_ref ( )
//@rw Result < Msg :: Result , ActorRefErr > ==> Result < R , ActorRefErr >
//@rw Msg :: read_remote_result ==> read_remote_result
//@rw M :: type_name ( ) ==> vtext ( )
//@rw A :: type_name ( ) ==> vtext ( )
//@rw M :: from_envelope ( Envelope :: Remote ( $x... ) ) ==> from_bytes ( $x... )
//@rw M :: write_remote_result ( $x ) ==> write_remote_result ( $x )
//@rw & [ u8 ] ==> & Vec < u8 >
//@rw . to_vec ( ) ==> . vcopy ( )
//@rw . as_slice ( ) ==> . vref ( )
//@rw oneshot :: Sender < RemoteResponse > ==> RpcTx
//@rw tokio :: sync :: oneshot :: Sender < RemoteResponse > ==> RpcTx
//@rw tokio :: sync :: RpcTx ==> RpcTx
//@rw tokio :: sync :: oneshot :: Sender < Option < NodeId > > ==> NodeTx
//@rw Sender < Result < Vec < u8 > , ActorRefErr > > ==> ResTx
//@rw Sender < Vec < u8 > > ==> BytesTx
//@rw tokio :: sync :: oneshot :: channel ( ) ==> vchannel ( )
//@rw oneshot :: channel ( ) ==> vchannel ( )
//@rw . lock ( ) ==> . lock ( Tracked ( & mut * w ) )
//@rw Some ( $x... ) . into ( ) ==> vfield ( $x... )
//@rw PhantomData < A > ==> u64
//@rw _a : PhantomData ==> _a : 0
//@rw tokio :: time :: sleep ( $x... ) ==> vsleep ( )
//@rw Duration :: from_millis ( $x... ) ==> 0
//@rw tokio :: spawn ( async move { $b... } ) ==> { $b... }
//@rw tokio :: spawn ( $f ( $x... ) ) ==> $f ( $x... )
//@rw ACTOR_REF_CACHE . add ( $x... , ) ==> vcache ( ) . add ( $x... , Tracked ( & mut * w ) )
//@rw ACTOR_REF_CACHE . add ( $x... ) ==> vcache ( ) . add ( $x... , Tracked ( & mut * w ) )
//@rw ACTOR_REF_CACHE . get ( $x... ) ==> vcache ( ) . get ( $x... , Tracked ( & mut * w ) )
//@rw parking_lot :: Mutex < HashMap < ( Uuid , ActorId ) , BoxedActorRef > > ==> CacheLock
//@rw RemoteActorMessageHandler < A , M > ==> RemoteActorMessageHandler
//@rw where A : Handler < M > , ==>
//@rw tokio :: time :: timeout ( $d... , rx ) ==> vtimeout ( rx , Tracked ( & mut * w ) )
//@effect send,notify,notify_node,push_request,pop_request,node_rpc_raw,node_rpc,node_rpc_proto,notify_rpc_err,notify_raw_rpc_result,handle_message,handle_attempt,handle_direct,get_actor_ref,get_tracked_actor,locate_actor_node,handle_create_actor,create,deploy_actor,send_result,send_err,session_handle_lookup,session_handle_message,session_create_actor,session_handshake,session_stream_publish,send_proto_result,register_actor,new_actor,new_supervised_actor,add_entry,get_entry
//@noinline type_name,vref,lock,vcopy
pub type ActorId = u64;
pub type NodeId = u64;
pub type Uuid = u64;
pub struct RpcTx { pub id: u64 }
pub struct ResTx { pub id: u64 }
pub struct BytesTx { pub id: u64 }
pub struct NodeTx { pub id: u64 }
pub struct RecvErr { pub x: u64 }
pub struct M { pub x: u64 }
pub struct R { pub x: u64 }
pub struct MessageWrapErr2 { pub x: u64 }
pub enum MessageWrapErr { NotTransmittable, Other(u64) }
pub enum MessageUnwrapErr { NotTransmittable, Other(u64) }
pub enum Envelope { Remote(Vec<u8>), Local(M) }
pub struct ProtoErr { pub x: u64 }
pub enum ActorRefErr { ActorUnavailable, NotFound(ActorId), Serialisation(MessageWrapErr), Deserialisation(MessageUnwrapErr), InvalidRef, ResultChannelClosed, NotSupported { actor_id: ActorId, message_type: u64, actor_type: u64 }, Other(u64) }
pub struct UInt64Value { pub value: u64 }
#[verifier::reject_recursive_types(T)]
pub struct MessageField<T> { pub v: Option<T> }
pub struct NodeIdentityProto { pub x: u64 }
pub struct Opaque { pub x: u64 }
pub struct ActorContext { pub x: u64 }
impl UInt64Value { pub fn from(x: u64) -> (r: UInt64Value) ensures r.value == x { UInt64Value { value: x } } }
pub type IdentifyEvent = Opaque; pub type SessionHandshake = Opaque; pub type RaftRequest = Opaque; pub type StreamPublishEvent = Opaque; pub type ClientHandshake = Opaque; pub type NodeIdentity = Opaque;
//@struct N ClientResult drop=special_fields
//@struct N ClientErr drop=special_fields
//@struct N PingEvent drop=special_fields
//@struct N PongEvent drop=special_fields
//@struct N CreateActorEvent drop=special_fields
//@struct N FindActorEvent drop=special_fields
//@struct N ActorAddress drop=special_fields
//@struct N MessageRequest drop=special_fields
//@enum M SessionEvent
//@enum M ClientEvent
//@enum P NodeRpcErr
//@enum A RemoteResponse
//@struct A RemoteRequest
//@struct A RemoteHandler
//@struct R RemoteMessageHeader
//@struct R RemoteActorRef
//@struct K SessionWrite

#[verifier::external_body]
pub fn vtext() -> u64 { 0 }
#[verifier::external_body]
pub fn vdefault<T>() -> T { unimplemented!() }
pub fn vparse(x: &u64) -> (r: u64) ensures r == *x { *x }
pub fn vfield<T>(x: T) -> (r: MessageField<T>) ensures r.v == Some(x) { MessageField { v: Some(x) } }
#[verifier::external_body]
pub fn vsleep() { }
pub trait VRef: Sized { fn vref(&self) -> (r: &Self) ensures *r == *self; fn vcopy(&self) -> (r: Self) ensures r == *self; }
impl VRef for Vec<u8> {
    fn vref(&self) -> (r: &Self) { self }
    #[verifier::external_body]
    fn vcopy(&self) -> (r: Self) { unimplemented!() }
}
/// What the messages of this type are on the wire (user code, a fixed function of the bytes).
pub uninterp spec fn decoded(b: Seq<u8>) -> Result<M, MessageUnwrapErr>;
pub uninterp spec fn decoded_result(b: Seq<u8>) -> Result<R, MessageUnwrapErr>;
pub uninterp spec fn encoded_result(r: R) -> Result<Seq<u8>, MessageWrapErr>;
pub open spec fn bytes_of<E>(r: Result<Vec<u8>, E>) -> Result<Seq<u8>, E> { match r { Ok(v) => Ok(v@), Err(e) => Err(e) } }
#[verifier::external_body]
pub fn from_bytes(b: Vec<u8>) -> (r: Result<M, MessageUnwrapErr>) ensures r == decoded(b@) { unimplemented!() }
#[verifier::external_body]
pub fn read_remote_result(b: Vec<u8>) -> (r: Result<R, MessageUnwrapErr>) ensures r == decoded_result(b@) { unimplemented!() }
#[verifier::external_body]
pub fn write_remote_result(x: R) -> (r: Result<Vec<u8>, MessageWrapErr>) ensures bytes_of(r) == encoded_result(x) { unimplemented!() }

// ------------------------------------------------------------------ effects
pub enum Ev {
    /// one message to another node
    Node { to: NodeId, m: SessionEvent },
    /// the waiting caller is answered
    Answer { to: RpcTx, v: RemoteResponse },
    Res { to: ResTx, v: Result<Seq<u8>, ActorRefErr> },
    /// an actor of this type is made under this id
    Create { ty: u64, id: Option<ActorId>, recipe: Seq<u8>, parent: Option<BoxedActorRef>, sys: Option<Uuid>, r: Result<BoxedActorRef, ActorRefErr> },
    Located { to: NodeTx, v: Option<NodeId> },
    /// the handler of that name is asked to handle a message for that actor
    Attempt { name: u64, actor: ActorId, bytes: Seq<u8>, res: ResTx },
    /// the actor is asked, and this is its answer / is told
    Ask { to: LocalActorRef, m: M, r: Result<R, ActorRefErr> },
    Tell { to: LocalActorRef, m: M },
    /// the registry of this node is asked where an actor is / is told of an actor
    Start { sys: Uuid, id: ActorId, a: A, parent: Option<BoxedActorRef>, kept: bool, r: Result<LocalActorRef, ActorRefErr> },
    Locate { id: ActorId, to: NodeTx, ok: bool },
    Register { id: ActorId, node: Option<NodeId> },
    TimeUp,
    /// the heart of this node hears that a node is gone
    Gone { node: NodeId },
    /// a message to the peer of that session
    Session { to: SessionRef, id: i64, m: ClientEvent },
}
pub tracked struct World {
    pub ghost log: Seq<Ev>,
    /// requests of this node that wait for an answer
    pub ghost pending: Map<Uuid, RemoteRequest>,
    /// references to local actors kept at hand, by system and id
    pub ghost cache: Map<(Uuid, ActorId), BoxedActorRef>,
    /// what the registry of local actors was asked, and its answers
    /// what was put into the channels of this node's own
    pub ghost sent: Map<u64, Seq<u8>>,
    pub ghost looked: Seq<(Uuid, ActorId, Option<LocalActorRef>)>,
}
pub open spec fn quiet(w0: World, w1: World) -> bool { w1.log == w0.log && w1.pending == w0.pending }
pub open spec fn added(w0: World, w1: World, s: Seq<Ev>) -> bool { w1.log =~= w0.log + s && w1.pending == w0.pending }
pub uninterp spec fn outcome<T: Chan>(t: T) -> Result<T::Out, RecvErr>;
pub trait Chan { type Out; }
impl Chan for RpcTx { type Out = RemoteResponse; }
impl Chan for ResTx { type Out = Result<Vec<u8>, ActorRefErr>; }
impl Chan for NodeTx { type Out = Option<NodeId>; }
/// Assumed (tokio): the two ends of one fresh channel; the receiving end stands for what will come out of it.
#[verifier::external_body]
pub fn vchannel<T: Chan>() -> (r: (T, Result<T::Out, RecvErr>)) ensures r.1 == outcome::<T>(r.0) { unimplemented!() }
/// Assumed: a fresh random id is that of no pending request.
#[verifier::external_body]
pub fn vuuid(Tracked(w): Tracked<&mut World>) -> (r: Uuid) ensures *final(w) == *old(w), !old(w).pending.contains_key(r) { unimplemented!() }
impl RpcTx {
    #[verifier::external_body]
    pub fn send(self, v: RemoteResponse, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>) ensures *final(w) == (World { log: old(w).log.push(Ev::Answer { to: self, v }), ..*old(w) }) { unimplemented!() }
}
impl ResTx {
    #[verifier::external_body]
    pub fn send(self, v: Result<Vec<u8>, ActorRefErr>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>) ensures *final(w) == (World { log: old(w).log.push(Ev::Res { to: self, v: bytes_of(v) }), ..*old(w) }) { unimplemented!() }
}
impl BytesTx {
    #[verifier::external_body]
    pub fn send(self, v: Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>) ensures *final(w) == (World { sent: old(w).sent.insert(self.id, v@), ..*old(w) }) { unimplemented!() }
}
impl NodeTx {
    #[verifier::external_body]
    pub fn send(self, v: Option<NodeId>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>) ensures *final(w) == (World { log: old(w).log.push(Ev::Located { to: self, v }), ..*old(w) }) { unimplemented!() }
}
pub struct SessionRef { pub id: u64 }
impl Clone for SessionRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl SessionRef {
    #[verifier::external_body]
    pub fn send(&self, m: SessionWrite, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures *final(w) == (World { log: old(w).log.push(Ev::Session { to: *self, id: m.0, m: m.1 }), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_stop(&self) -> (r: Result<(), ActorRefErr>) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct ActorSystem { pub id: Uuid }
impl ActorSystem {
    #[verifier::external_body]
    pub fn system_id(&self) -> (r: &Uuid) ensures *r == self.id { unimplemented!() }
    /// Assumed (C11): the live actor registered under that id.
    #[verifier::external_body]
    pub fn get_tracked_actor(&self, id: ActorId, Tracked(w): Tracked<&mut World>) -> (r: Option<LocalActorRef>)
        ensures *final(w) == (World { looked: old(w).looked.push((self.id, id, r)), ..*old(w) }), r is Some ==> registered(self.id, id, r->0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_terminated(&self) -> bool { unimplemented!() }
}
pub uninterp spec fn registered(sys: Uuid, id: ActorId, a: LocalActorRef) -> bool;
pub struct LocalActorRef { pub chan: u64, pub id: ActorId }
impl Clone for LocalActorRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl LocalActorRef {
    #[verifier::external_body]
    pub fn is_valid(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn actor_id(&self) -> (r: &ActorId) ensures *r == self.id { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<R, ActorRefErr>) ensures *final(w) == (World { log: old(w).log.push(Ev::Ask { to: *self, m, r }), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures *final(w) == (World { log: old(w).log.push(Ev::Tell { to: *self, m }), ..*old(w) }) { unimplemented!() }
}
/// A type-erased reference (std Any): the local reference it was made from.
pub struct BoxedActorRef { pub r: LocalActorRef, pub is_a: bool }
impl Clone for BoxedActorRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl BoxedActorRef {
    #[verifier::external_body]
    pub fn actor_id(&self) -> (r: &ActorId) ensures *r == self.r.id { unimplemented!() }
    #[verifier::external_body]
    pub fn actor_type(&self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_actor(&self) -> (r: Option<LocalActorRef>) ensures r == (if self.is_a { Some(self.r) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(x: LocalActorRef) -> (r: BoxedActorRef) ensures r == (BoxedActorRef { r: x, is_a: true }) { unimplemented!() }
}
/// The pending requests, behind a lock: what is done to the table while it is held is done to the node's pending requests.
pub struct HandlerLock { pub x: u64 }
impl HandlerLock {
    #[verifier::external_body]
    pub fn lock<'a>(&self, Tracked(w): Tracked<&'a mut World>) -> (r: &'a mut RemoteHandler)
        ensures r.requests@ == old(w).pending, *final(w) == (World { pending: final(r).requests@, ..*old(w) }) { unimplemented!() }
}
pub struct Core { pub node_id: NodeId, pub registry_ref: RegistryRef, pub handler_ref: HandlerLock, pub inner: ActorSystem, pub config: Config }
pub struct RemoteActorSystem { pub inner: Core }
impl Clone for RemoteActorSystem { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Config { pub x: u64 }
pub struct MsgHandler { pub name: u64 }
/// the name under which the handler of this actor and message type is registered
pub uninterp spec fn handler_name_of(c: Config) -> Option<u64>;
pub uninterp spec fn known_handler(c: Config, name: u64) -> bool;
impl Config {
    #[verifier::external_body]
    pub fn handler_name(&self) -> (r: Option<u64>) ensures r == handler_name_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn message_handler(&self, ty: u64) -> (r: Option<MsgHandler>) ensures r is Some <==> known_handler(*self, ty), r is Some ==> r->0.name == ty { unimplemented!() }
}
impl MsgHandler {
    /// Assumed of the registered handler: what is proved of RemoteActorMessageHandler::handle_attempt.
    #[verifier::external_body]
    pub fn handle_attempt(&self, actor: ActorId, b: &Vec<u8>, res: ResTx, n: usize, Tracked(w): Tracked<&mut World>)
        ensures added(*old(w), *final(w), seq![Ev::Attempt { name: self.name, actor, bytes: b@, res }]) { unimplemented!() }
}
impl RemoteActorSystem {
    #[verifier::external_body]
    pub fn node_id(&self) -> (r: NodeId) ensures r == self.inner.node_id { unimplemented!() }
    #[verifier::external_body]
    pub fn actor_system(&self) -> (r: &ActorSystem) ensures *r == self.inner.inner { unimplemented!() }
    /// Assumed (transport, C15): one message to that node.
    #[verifier::external_body]
    pub fn notify_node(&self, to: NodeId, m: SessionEvent, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { log: old(w).log.push(Ev::Node { to, m }), ..*old(w) }) { unimplemented!() }
}
pub uninterp spec fn proto_of(e: ActorRefErr) -> ProtoErr;
pub uninterp spec fn err_of(e: ProtoErr) -> ActorRefErr;
impl ActorRefErr {
    #[verifier::external_body]
    pub fn into(self) -> (r: ProtoErr) ensures r == proto_of(self) { unimplemented!() }
}
impl ProtoErr {
    #[verifier::external_body]
    pub fn into(self) -> (r: ActorRefErr) ensures r == err_of(self) { unimplemented!() }
}
impl<T> MessageField<T> {
    pub fn some(x: T) -> (r: MessageField<T>) ensures r.v == Some(x) { MessageField { v: Some(x) } }
    pub fn from_option(x: Option<T>) -> (r: MessageField<T>) ensures r.v == x { MessageField { v: x } }
    pub fn into_option(self) -> (r: Option<T>) ensures r == self.v { self.v }
    pub fn is_none(&self) -> (r: bool) ensures r == (self.v is None) { self.v.is_none() }
    pub fn unwrap(self) -> (r: T) requires self.v is Some ensures r == self.v->0 { self.v.unwrap() }
}

/// What a value of that type is on the wire (a fixed function of the bytes).
pub uninterp spec fn proto_value<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body]
pub fn vparse_proto<T>(b: &Vec<u8>) -> (r: Result<T, u64>) ensures r is Ok <==> proto_value::<T>(b@) is Some, r is Ok ==> r->Ok_0 == proto_value::<T>(b@)->0 { unimplemented!() }
#[verifier::external_body]
pub fn vread_data<T>(b: Vec<u8>) -> (r: Option<T>) ensures r == proto_value::<T>(b@) { unimplemented!() }
// ------------------------------------------------------------------ pending requests
//@fn A RemoteHandler::push_request
    ensures final(self).requests@ == old(self).requests@.insert(message_id, request),
//@end
//@fn A RemoteHandler::pop_request
    ensures final(self).requests@ == old(self).requests@.remove(message_id), r == (if old(self).requests@.contains_key(message_id) { Some(old(self).requests@[message_id]) } else { None }),
//@end
//@fn A RemoteHandler::inflight_request_count
    ensures r == self.requests@.len(),
//@end
//@fn P RemoteActorSystem::push_request world
//@rw handler . push_request ( $x... , Tracked ( & mut * w ) ) ==> handler . push_request ( $x... )
    ensures *final(w) == (World { pending: old(w).pending.insert(id, RemoteRequest { res_tx }), ..*old(w) }),
//@end
//@fn P RemoteActorSystem::pop_request world opt
//@rw handler . pop_request ( $x... , Tracked ( & mut * w ) ) ==> handler . pop_request ( $x... )
    ensures *final(w) == (World { pending: old(w).pending.remove(id), ..*old(w) }),
        r == (if old(w).pending.contains_key(id) { Some(old(w).pending[id].res_tx) } else { None }),
//@end
//@fn P RemoteActorSystem::inflight_remote_request_count world
    ensures *final(w) == *old(w), r == old(w).pending.len(),
//@end
/// The answer to the request that waits under that id goes to whoever made it, once; there is nothing to do if none waits.
pub open spec fn settled(w0: World, w1: World, id: Uuid, v: RemoteResponse) -> bool {
    &&& w1.pending == w0.pending.remove(id)
    &&& w1.log =~= (if w0.pending.contains_key(id) { w0.log.push(Ev::Answer { to: w0.pending[id].res_tx, v }) } else { w0.log })
}
// ------------------------------------------------------------------ requests to other nodes
/// The request is made: it waits under its id and is sent once, to that node.
pub open spec fn asked(w0: World, w1: World, id: Uuid, to: NodeId, m: SessionEvent) -> bool {
    &&& w1.pending == w0.pending.insert(id, w1.pending[id])
    &&& w1.log =~= w0.log.push(Ev::Node { to, m })
}
pub open spec fn raw(o: Result<RemoteResponse, RecvErr>) -> Result<Seq<u8>, NodeRpcErr> {
    match o { Ok(RemoteResponse::Ok(b)) => Ok(b@), Ok(RemoteResponse::Err(e)) => Err(NodeRpcErr::Err(e)), Err(_) => Err(NodeRpcErr::ReceiveFailed) }
}
//@fn P RemoteActorSystem::node_rpc_raw world
    ensures asked(*old(w), *final(w), message_id, node_id, event), bytes_of(r) == raw(outcome::<RpcTx>(final(w).pending[message_id].res_tx)),
//@end
//@fn P RemoteActorSystem::notify_raw_rpc_result world
    ensures node_id == self.inner.node_id ==> settled(*old(w), *final(w), request_id, RemoteResponse::Ok(result)),
        node_id != self.inner.node_id ==> final(w).pending == old(w).pending && final(w).log =~= old(w).log.push(final(w).log.last())
            && (final(w).log.last() matches Ev::Node { to, m: SessionEvent::Result(c) } && to == node_id && c.message_id == request_id && c.result == result),
//@end
//@fn P RemoteActorSystem::notify_rpc_err world
    ensures node_id == self.inner.node_id ==> settled(*old(w), *final(w), request_id, RemoteResponse::Err(error)),
        node_id != self.inner.node_id ==> final(w).pending == old(w).pending && final(w).log =~= old(w).log.push(final(w).log.last())
            && (final(w).log.last() matches Ev::Node { to, m: SessionEvent::Err(c) } && to == node_id && c.message_id == request_id && c.error.v == Some(proto_of(error))),
//@end
//@fn P RemoteActorSystem::node_rpc_proto world generics="<T>"
//@rw T :: parse_from_bytes ( & res ) ==> vparse_proto ( & res )
//@rw < T : ProtoMessage > ==> < T >
//@contract
    ensures asked(*old(w), *final(w), message_id, node_id, event), match raw(outcome::<RpcTx>(final(w).pending[message_id].res_tx)) {
        Ok(b) => r == (match proto_value::<T>(b) { Some(v) => Ok(v), None => Err::<T, NodeRpcErr>(NodeRpcErr::Serialisation) }),
        Err(e) => r is Err },
//@end
//@fn P RemoteActorSystem::node_rpc world generics="<T>"
//@rw T :: read_from_bytes ( res ) ==> vread_data ( res )
//@rw < T : StreamData > ==> < T >
//@contract
    ensures asked(*old(w), *final(w), message_id, node_id, event), match raw(outcome::<RpcTx>(final(w).pending[message_id].res_tx)) {
        Ok(b) => r == (match proto_value::<T>(b) { Some(v) => Ok(v), None => Err::<T, NodeRpcErr>(NodeRpcErr::Serialisation) }),
        Err(e) => r is Err },
//@end
// ------------------------------------------------------------------ references to actors on other nodes
//@fn Y RemoteActorSystem::handler_name
    ensures r == handler_name_of(self.inner.config),
//@end
//@fn Y RemoteActorSystem::create_header opt
    ensures match handler_name_of(self.inner.config) {
        Some(n) => r is Ok && r->Ok_0.actor_id == *id && r->Ok_0.handler_type == n,
        None => r matches Err(ActorRefErr::NotSupported { actor_id, .. }) && actor_id == *id },
//@end
//@fn R RemoteActorRef::new
    ensures r.id == id, r.node_id == node_id, r.system == system,
//@end
//@fn R RemoteActorRef::actor_id
    ensures *r == self.id,
//@end
//@fn R RemoteActorRef::node_id
    ensures r == self.node_id,
//@end
/// The message for the actor this reference stands for: its id, the handler's registered name, the payload as it is.
pub open spec fn request_for(me: RemoteActorRef, b: Seq<u8>, id: Uuid, answer: bool, e: SessionEvent) -> bool {
    e matches SessionEvent::NotifyActor(q) && q.message_id == id && Some(q.handler_type) == handler_name_of(me.system.inner.config) && q.actor_id == me.id
        && q.message@ == b && q.requires_response == answer && q.origin_node_id == me.system.inner.node_id
}
pub open spec fn sendable(me: RemoteActorRef, m: Envelope) -> bool { m is Remote && handler_name_of(me.system.inner.config) is Some }
//@fn R RemoteActorRef::create_request
//@rw self . system . create_header :: < A , Msg > ( & self . id ) . map ( | $h | { $b... } ) ==> match self . system . create_header ( & self . id ) { Ok ( $h ) => Ok ( { $b... } ) , Err ( e ) => Err ( e ) }
//@contract
    ensures r is Ok <==> sendable(*self, msg), r is Ok ==> request_for(*self, msg->Remote_0@, id, requires_response, r->Ok_0),
//@end
//@fn R RemoteActorRef::send world
    ensures
        !sendable(*self, msg) ==> r is Err && quiet(*old(w), *final(w)),
        sendable(*self, msg) ==> {
            &&& final(w).log =~= old(w).log.push(final(w).log.last())
            &&& final(w).log.last() matches Ev::Node { to, m: SessionEvent::NotifyActor(q) } && to == self.node_id
                && request_for(*self, msg->Remote_0@, q.message_id, true, SessionEvent::NotifyActor(q)) && !old(w).pending.contains_key(q.message_id)
                && final(w).pending == old(w).pending.insert(q.message_id, final(w).pending[q.message_id])
                && answers(outcome::<RpcTx>(final(w).pending[q.message_id].res_tx), r) },
//@end
/// The caller's result is what came back under its id.
pub open spec fn answers(o: Result<RemoteResponse, RecvErr>, r: Result<R, ActorRefErr>) -> bool {
    r == (match o {
        Ok(RemoteResponse::Ok(b)) => (match decoded_result(b@) { Ok(v) => Ok(v), Err(e) => Err(ActorRefErr::Deserialisation(e)) }),
        Ok(RemoteResponse::Err(e)) => Err(e),
        Err(_) => Err(ActorRefErr::ResultChannelClosed) })
}
//@fn R RemoteActorRef::notify world
    ensures
        r is Ok <==> sendable(*self, msg),
        r is Err ==> quiet(*old(w), *final(w)),
        r is Ok ==> final(w).pending == old(w).pending && final(w).log =~= old(w).log.push(final(w).log.last())
            && (final(w).log.last() matches Ev::Node { to, m } && to == self.node_id && (m matches SessionEvent::NotifyActor(q) && request_for(*self, msg->Remote_0@, q.message_id, false, m))),
//@end
// ------------------------------------------------------------------ serving requests of other nodes
//@fn P RemoteActorSystem::handle_message world
    ensures
        known_handler(self.inner.config, identifier) ==> final(w).pending == old(w).pending && final(w).log =~= old(w).log.push(final(w).log.last())
            && (final(w).log.last() matches Ev::Attempt { name, actor, bytes, res } && name == identifier && actor == actor_id && bytes == buffer@
                && r == (match outcome::<ResTx>(res) { Ok(v) => v, Err(_) => Err(ActorRefErr::ResultChannelClosed) })),
        !known_handler(self.inner.config, identifier) ==> quiet(*old(w), *final(w)) && (r matches Err(ActorRefErr::NotSupported { actor_id: a, message_type: t, .. }) && a == actor_id && t == identifier),
//@end
//@struct H ActorRefCache
pub struct CacheLock { pub x: u64 }
impl CacheLock {
    #[verifier::external_body]
    pub fn lock<'a>(&self, Tracked(w): Tracked<&'a mut World>) -> (r: &'a mut HashMap<(Uuid, ActorId), BoxedActorRef>)
        ensures r@ == old(w).cache, *final(w) == (World { cache: final(r)@, ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body]
pub fn vcache() -> ActorRefCache { unimplemented!() }
/// Assumed: pairs of such identifiers are usable as map keys.
#[verifier::external_body]
pub broadcast proof fn axiom_pair_key() ensures #[trigger] obeys_key_model::<(Uuid, ActorId)>() {}
//@struct H RemoteActorMessageHandler drop=_marker
/// Every reference kept at hand was found in that system's registry under that id.
pub open spec fn cache_ok(w: World) -> bool {
    forall|k: (Uuid, ActorId)| #![trigger w.cache[k]] w.cache.contains_key(k) ==> registered(k.0, k.1, w.cache[k].r)
}
//@fn H ActorRefCache::add world
//@start
    broadcast use axiom_pair_key;
//@contract
    ensures *final(w) == (World { cache: old(w).cache.insert((*system_id, *actor_id), actor_ref), ..*old(w) }),
//@end
//@fn H ActorRefCache::get world
//@start
    broadcast use axiom_pair_key;
//@contract
    ensures *final(w) == *old(w), r == (if old(w).cache.contains_key((*system_id, *actor_id)) { Some(old(w).cache[(*system_id, *actor_id)]) } else { None }),
//@end
//@fn H ::get_actor_ref world
    requires cache_ok(*old(w)),
    ensures cache_ok(*final(w)), quiet(*old(w), *final(w)), r is Some ==> registered(system.id, *actor_id, r->0),
        r is None ==> final(w).looked =~= old(w).looked.push((system.id, *actor_id, None)), old(w).looked.len() <= final(w).looked.len(),
//@end
/// What one message for an actor of this node leads to: the actor is asked once and its answer goes back (nothing goes back
/// if the actor is gone: the channel is dropped); or the error goes back and no actor is asked.
pub open spec fn served(sys: Uuid, id: ActorId, b: Seq<u8>, res: ResTx, s: Seq<Ev>, looked: Seq<(Uuid, ActorId, Option<LocalActorRef>)>) -> bool {
    if s.len() > 0 && s[0] is Ask {
        &&& decoded(b) is Ok && s[0]->Ask_m == decoded(b)->Ok_0 && registered(sys, id, s[0]->Ask_to)
        &&& match s[0]->Ask_r {
            Ok(v) => s.len() == 2 && s[1] == (match encoded_result(v) { Ok(x) => Ev::Res { to: res, v: Ok(x) }, Err(e) => Ev::Res { to: res, v: Err(ActorRefErr::Serialisation(e)) } }),
            Err(e) => s.len() == 1 || (s.len() == 2 && s[1] == (Ev::Res { to: res, v: Err::<Seq<u8>, ActorRefErr>(e) })) }
    } else {
        s.len() == 1 && ((looked.len() > 0 && looked.last() == (sys, id, None::<LocalActorRef>) && s[0] == (Ev::Res { to: res, v: Err::<Seq<u8>, ActorRefErr>(ActorRefErr::NotFound(id)) }))
            || (decoded(b) is Err && s[0] == (Ev::Res { to: res, v: Err::<Seq<u8>, ActorRefErr>(ActorRefErr::Deserialisation(decoded(b)->Err_0)) })))
    }
}
//@fn H ActorMessageHandler@RemoteActorMessageHandler::handle_attempt world
    requires cache_ok(*old(w)), attempt < 1000,
    ensures cache_ok(*final(w)), final(w).pending == old(w).pending, old(w).log.len() < final(w).log.len(), old(w).log =~= final(w).log.take(old(w).log.len() as int),
        served(self.system.id, actor_id, buffer@, res, final(w).log.skip(old(w).log.len() as int), final(w).looked.skip(old(w).looked.len() as int)), old(w).looked.len() <= final(w).looked.len(),
    decreases 1000 - attempt,
//@end
/// What is done with a message handed to an actor at hand.
pub open spec fn direct(a: BoxedActorRef, b: Seq<u8>, res: Option<ResTx>, s: Seq<Ev>) -> bool {
    match (if a.is_a { Some(a.r) } else { None::<LocalActorRef> }, decoded(b)) {
        (Some(x), Ok(m)) => match res {
            Some(res) => s.len() == 2 && (s[0] matches Ev::Ask { to, m: n, r } && to == x && n == m && s[1] == (Ev::Res { to: res, v: match r {
                Ok(v) => (match encoded_result(v) { Ok(x) => Ok(x), Err(e) => Err(ActorRefErr::Serialisation(e)) }),
                Err(e) => Err(e) } })),
            None => s =~= seq![Ev::Tell { to: x, m }] },
        (_, Err(e)) => s =~= (match res { Some(res) => seq![Ev::Res { to: res, v: Err(ActorRefErr::Deserialisation(e)) }], None => seq![] }),
        (None, Ok(_)) => s =~= (match res { Some(res) => seq![Ev::Res { to: res, v: Err(ActorRefErr::InvalidRef) }], None => seq![] }) }
}
//@fn H ActorMessageHandler@RemoteActorMessageHandler::handle_direct world
//@rw . send ( message , Tracked ( & mut * w ) ) . map ( | result | M :: write_remote_result ( result ) ) ==> . send ( message , Tracked ( & mut * w ) ) . vencode ( )
//@contract
    ensures old(w).log.len() <= final(w).log.len(), old(w).log =~= final(w).log.take(old(w).log.len() as int), final(w).pending == old(w).pending,
        direct(*actor, buffer@, res, final(w).log.skip(old(w).log.len() as int)),
//@end
pub trait VEnc: Sized { fn vencode(self) -> (r: Result<Result<Vec<u8>, MessageWrapErr>, ActorRefErr>); }
impl VEnc for Result<R, ActorRefErr> {
    fn vencode(self) -> (r: Result<Result<Vec<u8>, MessageWrapErr>, ActorRefErr>)
        ensures match self { Ok(v) => r is Ok && bytes_of(r->Ok_0) == encoded_result(v), Err(e) => r == Err::<Result<Vec<u8>, MessageWrapErr>, ActorRefErr>(e) }
    { match self { Ok(v) => Ok(write_remote_result(v)), Err(e) => Err(e) } }
}
// ------------------------------------------------------------------ what arrives from other nodes
//@fn S ::send_result world
    ensures final(w).pending == old(w).pending, final(w).log =~= old(w).log.push(final(w).log.last()),
        final(w).log.last() matches Ev::Session { to, id, m: ClientEvent::Result(c) } && to == session && id == session_id && c.message_id == msg_id && c.result == res,
//@end
//@fn S ::send_err world
    ensures final(w).pending == old(w).pending, final(w).log =~= old(w).log.push(final(w).log.last()),
        final(w).log.last() matches Ev::Session { to, id, m: ClientEvent::Err(c) } && to == session && id == session_id && c.message_id == msg_id && c.error.v == Some(proto_of(err)),
//@end
/// The proto form of the error that says this actor does not support this message.
pub uninterp spec fn unsupported(p: ProtoErr, id: ActorId, name: u64) -> bool;
pub open spec fn is_unsupported(e: ActorRefErr, id: ActorId, name: u64) -> bool { e matches ActorRefErr::NotSupported { actor_id: a, message_type: t, .. } && a == id && t == name }
#[verifier::external_body]
pub broadcast proof fn axiom_unsupported(e: ActorRefErr, id: ActorId, name: u64) requires is_unsupported(e, id, name) ensures #[trigger] unsupported(proto_of(e), id, name) {}
/// What the handler that was asked answered.
pub open spec fn handled(e: Ev) -> Result<Vec<u8>, ActorRefErr> { match outcome::<ResTx>(e->Attempt_res) { Ok(v) => v, Err(_) => Err(ActorRefErr::ResultChannelClosed) } }
pub open spec fn result_to(s: SessionRef, id: i64, mid: Uuid, b: Vec<u8>, e: Ev) -> bool {
    e matches Ev::Session { to, id: i, m: ClientEvent::Result(c) } && to == s && i == id && c.message_id == mid && c.result == b
}
pub open spec fn error_to(n: NodeId, mid: Uuid, e: Ev) -> bool {
    e matches Ev::Node { to, m: SessionEvent::Err(c) } && to == n && c.message_id == mid && c.error.v is Some
}
/// One message for an actor arrived: the handler of that name is asked once, for that actor, with the payload as it came;
/// then the sender has its answer, once, if it wants one: the result on the session it asked on, or the error.
pub open spec fn message_served(c: Config, here: NodeId, q: MessageRequest, ses: SessionRef, sid: i64, w0: World, w1: World) -> bool {
    let s = suffix(w0, w1);
    let k = known_handler(c, q.handler_type);
    let n = if k { 1int } else { 0int };
    let o = handled(s[0]);
    &&& extends(w0, w1)
    &&& k ==> s.len() > 0 && (s[0] matches Ev::Attempt { name, actor, bytes, .. } && name == q.handler_type && actor == q.actor_id && bytes == q.message@)
    &&& if k && o is Ok {
            w1.pending == w0.pending && (if q.requires_response { s.len() == 2 && result_to(ses, sid, q.message_id, o->Ok_0, s[1]) } else { s.len() == 1 })
        } else if q.origin_node_id != here {
            w1.pending == w0.pending && ((s.len() == n && !q.requires_response) || (s.len() == n + 1 && error_to(q.origin_node_id, q.message_id, s[n])
                && (if k { s[n]->Node_m->Err_0.error.v->0 == proto_of(o->Err_0) } else { unsupported(s[n]->Node_m->Err_0.error.v->0, q.actor_id, q.handler_type) })))
        } else {
            q.requires_response ==> w1.pending == w0.pending.remove(q.message_id) && (if w0.pending.contains_key(q.message_id) {
                s.len() == n + 1 && (s[n] matches Ev::Answer { to, v: RemoteResponse::Err(e) } && to == w0.pending[q.message_id].res_tx && (if k { e == o->Err_0 } else { is_unsupported(e, q.actor_id, q.handler_type) }))
            } else { s.len() == n })
        }
}
//@fn S ::session_handle_message world
//@start
    broadcast use axiom_unsupported;
//@contract
    ensures message_served(ctx.inner.config, ctx.inner.node_id, msg, session, session_id, *old(w), *final(w)),
//@end
// ------------------------------------------------------------------ where actors are
//@struct G GetActorNode
//@struct G RegisterActor
//@struct T RemoteRegistry drop=system_event_subscription
//@enum Y RemoteActorErr
pub struct RemoteNodeStore { pub x: u64 }
pub struct RemoteNodeState { pub id: NodeId }
/// The node in charge of an id among these nodes (the hash ring; none if there are no nodes).
pub uninterp spec fn in_charge(n: RemoteNodeStore, id: ActorId) -> Option<NodeId>;
impl RemoteNodeStore {
    /// Assumed (C17).
    #[verifier::external_body]
    pub fn get_by_key(&mut self, id: &ActorId) -> (r: Option<&RemoteNodeState>)
        ensures *final(self) == *old(self), r is Some <==> in_charge(*old(self), *id) is Some, r is Some ==> r->0.id == in_charge(*old(self), *id)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_all(&self) -> Vec<RemoteNodeState> { unimplemented!() }
}
pub struct RegistryRef { pub x: u64 }
impl RegistryRef {
    #[verifier::external_body]
    pub fn send(&self, m: GetActorNode, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures *final(w) == (World { log: old(w).log.push(Ev::Locate { id: m.actor_id, to: m.sender, ok: r is Ok }), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify(&self, m: RegisterActor, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures *final(w) == (World { log: old(w).log.push(Ev::Register { id: m.actor_id, node: m.node_id }), ..*old(w) }) { unimplemented!() }
}
/// Assumed (tokio): what the channel yields, unless the time is up.
#[verifier::external_body]
pub fn vtimeout<T>(rx: Result<T, RecvErr>, Tracked(w): Tracked<&mut World>) -> (r: Result<Result<T, RecvErr>, u64>)
    ensures r is Ok ==> *final(w) == *old(w) && r->Ok_0 == rx, r is Err ==> *final(w) == (World { log: old(w).log.push(Ev::TimeUp), ..*old(w) }) { unimplemented!() }
/// The registry is asked once where the actor is (these are the first n events).
pub open spec fn locating(id: ActorId, s: Seq<Ev>, n: int) -> bool {
    s.len() >= n && (n == 1 || (n == 2 && s[1] is TimeUp)) && (s[0] matches Ev::Locate { id: i, .. } && i == id)
}
/// Its answer; none if it gives none (in time).
pub open spec fn located(s: Seq<Ev>, n: int) -> Option<NodeId> {
    if n == 1 && s[0]->Locate_ok { match outcome::<NodeTx>(s[0]->Locate_to) { Ok(v) => v, Err(_) => None } } else { None }
}
pub open spec fn suffix(w0: World, w1: World) -> Seq<Ev> { w1.log.skip(w0.log.len() as int) }
pub open spec fn extends(w0: World, w1: World) -> bool { w0.log.len() <= w1.log.len() && w0.log =~= w1.log.take(w0.log.len() as int) }
//@fn Y RemoteActorSystem::locate_actor_node world
    ensures final(w).pending == old(w).pending, extends(*old(w), *final(w)), ({ let s = suffix(*old(w), *final(w)); locating(actor_id, s, s.len() as int) && r == located(s, s.len() as int) }), final(w).looked == old(w).looked, final(w).sent == old(w).sent,
//@end
//@fn G RegisterActor::new
    ensures r == (RegisterActor { actor_id, node_id }),
//@end
//@fn Y RemoteActorSystem::register_actor world
    ensures added(*old(w), *final(w), seq![Ev::Register { id: actor_id, node: node_id }]),
//@end
/// The node in charge of an id, seen from a node that may know of no other.
pub open spec fn charge(g: RemoteRegistry, id: ActorId) -> NodeId { match in_charge(g.nodes, id) { Some(n) => n, None => g.system->0.inner.node_id } }
pub open spec fn known_here(g: RemoteRegistry, id: ActorId) -> Option<NodeId> { if g.actors@.contains_key(id) { Some(g.actors@[id]) } else { None } }
//@fn T Handler<RegisterActor>@RemoteRegistry::handle world opt as=handle_register
    requires old(self).system is Some,
    ensures final(self).system == old(self).system, final(self).nodes == old(self).nodes, final(w).pending == old(w).pending, match message.node_id {
        Some(n) => final(self).actors@ == old(self).actors@.insert(message.actor_id, n) && quiet(*old(w), *final(w)),
        None => if charge(*old(self), message.actor_id) == old(self).system->0.inner.node_id {
                final(self).actors@ == old(self).actors@.insert(message.actor_id, old(self).system->0.inner.node_id) && quiet(*old(w), *final(w))
            } else {
                &&& final(self).actors@ == old(self).actors@
                &&& final(w).log =~= old(w).log.push(final(w).log.last())
                &&& final(w).log.last() matches Ev::Node { to, m: SessionEvent::RegisterActor(a) } && to == charge(*old(self), message.actor_id) && a.actor_id == message.actor_id
                    && (a.node_id.v matches Some(n) && n.value == old(self).system->0.inner.node_id)
            } },
//@end
/// The actor's whereabouts, as another node answered: no answer at all if there is none to be read.
pub open spec fn relayed(o: Result<RemoteResponse, RecvErr>, to: NodeTx, s: Seq<Ev>) -> bool {
    match o {
        Ok(RemoteResponse::Ok(b)) => match proto_value::<ActorAddress>(b@) {
            Some(a) => s =~= seq![Ev::Located { to, v: match a.node_id.v { Some(n) => Some(n.value), None => None } }],
            None => s.len() == 0 || s =~= seq![Ev::Located { to, v: None }] },
        _ => s.len() == 0 || s =~= seq![Ev::Located { to, v: None }] }
}
//@fn T Handler<GetActorNode>@RemoteRegistry::handle world opt as=handle_get_node
//@rw _ : & mut ActorContext ==> _ctx : & mut ActorContext
//@rw panic ! ( $x... ) ==> return
//@rw ActorAddress :: parse_from_bytes ( & res ) ==> vparse_proto :: < ActorAddress > ( & res )
//@rw res . node_id . value ==> res . node_id . unwrap ( ) . value
//@contract
    requires old(self).system is Some,
    ensures *final(self) == *old(self), extends(*old(w), *final(w)), ({
        let id = message.actor_id; let g = *old(self); let s = suffix(*old(w), *final(w));
        if known_here(g, id) is Some || charge(g, id) == g.system->0.inner.node_id {
            s =~= seq![Ev::Located { to: message.sender, v: known_here(g, id) }] && final(w).pending == old(w).pending
        } else {
            s.len() >= 1 && (s[0] matches Ev::Node { to, m: SessionEvent::FindActor(f) } && to == charge(g, id) && f.actor_id == id && !old(w).pending.contains_key(f.message_id)
                && final(w).pending == old(w).pending.insert(f.message_id, final(w).pending[f.message_id])
                && relayed(outcome::<RpcTx>(final(w).pending[f.message_id].res_tx), message.sender, s.skip(1)))
        } }),
//@end
// ------------------------------------------------------------------ references and creation
//@struct F ActorRef
//@enum F Ref
/// A reference to an actor of this node / of another node.
pub open spec fn local_ref(a: LocalActorRef) -> ActorRef { ActorRef { inner_ref: Ref::Local(a) } }
pub open spec fn is_remote_ref(x: ActorRef, id: ActorId, n: NodeId, sys: RemoteActorSystem) -> bool { x.inner_ref matches Ref::Remote(r) && r.id == id && r.node_id == n && r.system == sys }
pub trait IntoRef: Sized { spec fn to_ref(self) -> ActorRef; fn into_ref(self) -> (r: ActorRef) ensures r == self.to_ref(); }
impl IntoRef for LocalActorRef { open spec fn to_ref(self) -> ActorRef { local_ref(self) } fn into_ref(self) -> (r: ActorRef) { ActorRef::from_local(self) } }
impl IntoRef for RemoteActorRef { open spec fn to_ref(self) -> ActorRef { ActorRef { inner_ref: Ref::Remote(self) } } fn into_ref(self) -> (r: ActorRef) { ActorRef::from_remote(self) } }
pub trait VLocal: Sized { spec fn to_opt(self) -> Option<ActorRef>; fn vlocal(self) -> (r: Option<ActorRef>) ensures r == self.to_opt(); }
impl VLocal for Option<LocalActorRef> { open spec fn to_opt(self) -> Option<ActorRef> { match self { Some(a) => Some(local_ref(a)), None => None } } fn vlocal(self) -> (r: Option<ActorRef>) { match self { Some(a) => Some(a.into_ref()), None => None } } }
pub trait VOkOr<T>: Sized { fn vok_or<E>(self, e: E) -> (r: Result<T, E>); }
impl<T> VOkOr<T> for Option<T> { fn vok_or<E>(self, e: E) -> (r: Result<T, E>) ensures r == (match self { Some(x) => Ok(x), None => Err(e) }) { match self { Some(x) => Ok(x), None => Err(e) } } }
//@fn F From<LocalActorRef<A>>@ActorRef::from as=from_local ret=out
    ensures out == local_ref(r),
//@end
//@fn F From<RemoteActorRef<A>>@ActorRef::from as=from_remote ret=out
    ensures out.inner_ref == Ref::Remote(r),
//@end
impl ActorAddress {
    /// Assumed (protobuf): such a message can always be written, and what is written can be read back.
    #[verifier::external_body]
    pub fn write_to_bytes(&self) -> (r: Result<Vec<u8>, u64>) ensures r is Ok, proto_value::<ActorAddress>(r->Ok_0@) == Some(*self) { unimplemented!() }
}
//@fn H ::send_proto_result world
//@rw < M : protobuf :: Message > ==>
//@rw msg : M ==> msg : ActorAddress
//@contract
    ensures *final(w) == (World { sent: old(w).sent.insert(res.id, final(w).sent[res.id]), ..*old(w) }) && proto_value::<ActorAddress>(final(w).sent[res.id]) == Some(msg),
//@end
//@fn Y RemoteActorSystem::actor_ref world
    ensures final(w).pending == old(w).pending, extends(*old(w), *final(w)), ({
        let s = suffix(*old(w), *final(w));
        locating(actor_id, s, s.len() as int) && match located(s, s.len() as int) {
            None => r is None,
            Some(n) if n == self.inner.node_id => final(w).looked.len() > 0 && final(w).looked.last().0 == self.inner.inner.id && final(w).looked.last().1 == actor_id && r == final(w).looked.last().2.to_opt(),
            Some(n) => r is Some && is_remote_ref(r->0, actor_id, n, *self) } }),
//@end
pub struct BytesRx { pub id: u64 }
/// Assumed (tokio): the two ends of one fresh channel; what comes out was put in.
#[verifier::external_body]
pub fn vbytes_channel(Tracked(w): Tracked<&mut World>) -> (r: (BytesTx, BytesRx)) ensures *final(w) == *old(w), r.0.id == r.1.id, !old(w).sent.contains_key(r.0.id) { unimplemented!() }
#[verifier::external_body]
pub fn vrecv(rx: BytesRx, Tracked(w): Tracked<&mut World>) -> (r: Result<Vec<u8>, RecvErr>) ensures *final(w) == *old(w), r is Ok ==> old(w).sent.contains_key(rx.id) && r->Ok_0@ == old(w).sent[rx.id] { unimplemented!() }
pub uninterp spec fn known_actor(c: Config, ty: u64) -> bool;
pub struct ActorMaker { pub ty: u64 }
impl Config {
    #[verifier::external_body]
    pub fn actor_handler(&self, ty: &u64) -> (r: Option<ActorMaker>) ensures r is Some <==> known_actor(*self, *ty), r is Some ==> r->0.ty == *ty { unimplemented!() }
}
pub open spec fn sys_id(s: Option<&ActorSystem>) -> Option<Uuid> { match s { Some(x) => Some(x.id), None => None } }
impl ActorMaker {
    /// Assumed of the registered handler: what is proved of RemoteActorHandler::create.
    #[verifier::external_body]
    pub fn create(&self, id: Option<ActorId>, recipe: &Vec<u8>, parent: Option<BoxedActorRef>, sys: Option<&ActorSystem>, Tracked(w): Tracked<&mut World>) -> (r: Result<BoxedActorRef, ActorRefErr>)
        ensures *final(w) == (World { log: old(w).log.push(Ev::Create { ty: self.ty, id, recipe: recipe@, parent, sys: sys_id(sys), r }), ..*old(w) }), r is Ok && id is Some ==> r->Ok_0.r.id == id->0 { unimplemented!() }
}
#[verifier::external_body]
pub fn new_actor_id() -> ActorId { 0 }
/// A node is asked to make an actor (under a given id or a fresh one): not if an actor of that id is known somewhere, not if it
/// cannot make actors of that type; else one is made, in its system and without a parent. `n` events of the log are about locating it.
pub open spec fn creating(sys: RemoteActorSystem, id: Option<ActorId>, ty: u64, recipe: Seq<u8>, n: int, s: Seq<Ev>, r: Result<Vec<u8>, RemoteActorErr>) -> bool {
    &&& id is None ==> n == 0
    &&& id is Some ==> 1 <= n && locating(id->0, s, n)
    &&& if id is Some && located(s, n) is Some { s.len() == n && r == Err::<Vec<u8>, RemoteActorErr>(RemoteActorErr::ActorExists) }
        else if !known_actor(sys.inner.config, ty) { s.len() == n && r == Err::<Vec<u8>, RemoteActorErr>(RemoteActorErr::ActorNotSupported) }
        else { s.len() == n + 1 && (s[n] matches Ev::Create { ty: t, id: Some(i), recipe: b, parent: None, sys: y, r: c } && t == ty && (id is Some ==> i == id->0) && b == recipe && y == Some(sys.inner.inner.id)
            && match r {
                Ok(v) => c is Ok && (proto_value::<ActorAddress>(v@) matches Some(x) && x.actor_id == i && (x.node_id.v matches Some(k) && k.value == sys.inner.node_id)),
                Err(e) => e is ActorUnavailable }) }
}
pub open spec fn created(sys: RemoteActorSystem, id: Option<ActorId>, ty: u64, recipe: Seq<u8>, s: Seq<Ev>, r: Result<Vec<u8>, RemoteActorErr>) -> bool {
    s.len() <= 3 && (creating(sys, id, ty, recipe, 0, s, r) || creating(sys, id, ty, recipe, 1, s, r) || creating(sys, id, ty, recipe, 2, s, r))
}
//@fn Y RemoteActorSystem::handle_create_actor world opt
//@rw let ( tx , rx ) = oneshot :: channel ( ) ==> let ( tx , rx ) = vbytes_channel ( Tracked ( & mut * w ) )
//@rw match rx { $b... } ==> match vrecv ( rx , Tracked ( & mut * w ) ) { $b... }
//@rw . map_or_else ( new_actor_id , $x... ) ==> . map_or_else ( | | new_actor_id ( ) , $x... )
//@contract
    ensures final(w).pending == old(w).pending, extends(*old(w), *final(w)), created(*self, actor_id, actor_type, raw_recipe@, suffix(*old(w), *final(w)), r),
//@end
pub trait VEmpty { fn vis_empty(&self) -> (r: bool); }
impl VEmpty for u64 { fn vis_empty(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 } }
/// An answer to a request to make an actor: where it is, or that it could not be made.
pub open spec fn creation_answered(sys: RemoteActorSystem, q: CreateActorEvent, ses: SessionRef, sid: i64, s: Seq<Ev>) -> bool {
    let id = if q.actor_id == 0 { None } else { Some(q.actor_id) };
    s.len() >= 1 && match s.last() {
        Ev::Session { to, id: i, m: ClientEvent::Result(c) } => to == ses && i == sid && c.message_id == q.message_id && created(sys, id, q.actor_type, q.recipe@, s.drop_last(), Ok(c.result)),
        Ev::Session { to, id: i, m: ClientEvent::Err(c) } => to == ses && i == sid && c.message_id == q.message_id && c.error.v is Some && (created(sys, id, q.actor_type, q.recipe@, s.drop_last(), Err(RemoteActorErr::ActorExists))
            || created(sys, id, q.actor_type, q.recipe@, s.drop_last(), Err(RemoteActorErr::ActorNotSupported)) || created(sys, id, q.actor_type, q.recipe@, s.drop_last(), Err(RemoteActorErr::ActorUnavailable))),
        _ => false }
}
//@fn S ::session_create_actor world
//@rw . is_empty ( ) ==> . vis_empty ( )
//@contract
    ensures final(w).pending == old(w).pending, extends(*old(w), *final(w)), creation_answered(ctx, msg, session, session_id, suffix(*old(w), *final(w))),
//@end
/// The actor is located once; where it is known to be is the answer.
pub open spec fn lookup_answered(id: ActorId, mid: Uuid, ses: SessionRef, sid: i64, s: Seq<Ev>) -> bool {
    let n = s.len() - 1;
    &&& locating(id, s, n)
    &&& (s.last() matches Ev::Session { to, id: i, m } && to == ses && i == sid && (m matches ClientEvent::Result(c) && c.message_id == mid
        && (proto_value::<ActorAddress>(c.result@) matches Some(a) && a.actor_id == id && (match located(s, n) { Some(k) => a.node_id.v matches Some(v) && v.value == k, None => a.node_id.v is None }))))
}
//@fn S ::session_handle_lookup world opt
    ensures final(w).pending == old(w).pending, extends(*old(w), *final(w)), lookup_answered(id, msg_id, session, session_id, suffix(*old(w), *final(w))),
//@end
pub struct Recipe { pub x: u64 }
pub uninterp spec fn recipe_bytes(r: Recipe) -> Option<Seq<u8>>;
pub uninterp spec fn recipe_of(b: Seq<u8>) -> Option<Recipe>;
pub uninterp spec fn actor_type() -> u64;
impl Recipe {
    #[verifier::external_body]
    pub fn write_to_bytes(&self) -> (r: Option<Vec<u8>>) ensures r is Some <==> recipe_bytes(*self) is Some, r is Some ==> r->0@ == recipe_bytes(*self)->0 { unimplemented!() }
}
#[verifier::external_body]
pub fn vactor_type() -> (r: u64) ensures r == actor_type() { unimplemented!() }
pub open spec fn value_of(f: MessageField<UInt64Value>) -> u64 { match f.v { Some(x) => x.value, None => 0 } }
impl MessageField<UInt64Value> {
    /// (an absent message reads as the default one)
    pub fn vvalue(&self) -> (r: u64) ensures r == value_of(*self) { match &self.v { Some(x) => x.value, None => 0 } }
}
/// A reference to where the actor is said to be.
pub open spec fn reached(sys: RemoteActorSystem, a: ActorAddress, looked: Seq<(Uuid, ActorId, Option<LocalActorRef>)>, r: Result<ActorRef, RemoteActorErr>) -> bool {
    if value_of(a.node_id) == sys.inner.node_id {
        looked.len() > 0 && looked.last().0 == sys.inner.inner.id && looked.last().1 == a.actor_id
            && r == (match looked.last().2 { Some(x) => Ok(local_ref(x)), None => Err::<ActorRef, RemoteActorErr>(RemoteActorErr::ActorUnavailable) })
    } else { r is Ok && is_remote_ref(r->Ok_0, a.actor_id, value_of(a.node_id), sys) }
}
pub open spec fn deployed_here(sys: RemoteActorSystem, id: Option<ActorId>, b: Seq<u8>, w0: World, w1: World, r: Result<ActorRef, RemoteActorErr>) -> bool {
    let s = suffix(w0, w1);
    w1.pending == w0.pending && s.len() > 0 && (s[0] matches Ev::Locate { id: i, .. } && (id is Some ==> i == id->0) && match r {
        Err(RemoteActorErr::ActorExists) => created(sys, Some(i), actor_type(), b, s, Err(RemoteActorErr::ActorExists)),
        Err(RemoteActorErr::ActorNotSupported) => created(sys, Some(i), actor_type(), b, s, Err(RemoteActorErr::ActorNotSupported)),
        Err(e) => e is ActorUnavailable && s.last() is Create,
        Ok(x) => s.last() is Create && (s.last()->Create_r is Ok) && s.last()->Create_ty == actor_type() && s.last()->Create_id == Some(i) && s.last()->Create_recipe == b
            && w1.looked.len() > 0 && w1.looked.last() == (sys.inner.inner.id, i, Some(x.inner_ref->Local_0)) && x == local_ref(x.inner_ref->Local_0) })
}
pub open spec fn deployed_there(sys: RemoteActorSystem, id: Option<ActorId>, b: Seq<u8>, n: NodeId, w0: World, w1: World, r: Result<ActorRef, RemoteActorErr>) -> bool {
    let s = suffix(w0, w1);
    s.len() == 1 && (s[0] matches Ev::Node { to, m: SessionEvent::CreateActor(q) } && to == n && q.actor_type == actor_type() && q.recipe@ == b && (id is Some ==> q.actor_id == id->0)
        && !w0.pending.contains_key(q.message_id) && w1.pending == w0.pending.insert(q.message_id, w1.pending[q.message_id])
        && match raw(outcome::<RpcTx>(w1.pending[q.message_id].res_tx)) {
            Ok(v) => match proto_value::<ActorAddress>(v) { Some(a) => reached(sys, a, w1.looked, r), None => r is Err },
            Err(e) => r is Err && r->Err_0 is NodeErr })
}
//@fn Y RemoteActorSystem::deploy_actor world opt
//@rw < F : ActorFactory > ==>
//@rw F :: Recipe ==> Recipe
//@rw F :: Actor :: type_name ( ) . into ( ) ==> vactor_type ( )
//@rw RemoteActorRef :: < F :: Actor > :: new ==> RemoteActorRef :: new
//@rw self . node_rpc_proto :: < ActorAddress > ==> self . node_rpc_proto
//@rw ActorAddress :: parse_from_bytes ( & $x ) ==> vparse_proto :: < ActorAddress > ( & $x )
//@rw . node_id . value ==> . node_id . vvalue ( )
//@rw . map_or_else ( new_actor_id , $x... ) ==> . map_or_else ( | | new_actor_id ( ) , $x... )
//@contract
    ensures extends(*old(w), *final(w)), match recipe_bytes(recipe) {
        None => quiet(*old(w), *final(w)) && r == Err::<ActorRef, RemoteActorErr>(RemoteActorErr::RecipeSerializationErr),
        Some(b) => if node is None || node->0 == self.inner.node_id { deployed_here(*self, id, b, *old(w), *final(w), r) }
            else { deployed_there(*self, id, b, node->0, *old(w), *final(w), r) } },
//@end
// ------------------------------------------------------------------ making actors
pub struct A { pub x: u64 }
pub struct Factory { pub x: u64 }
//@struct H RemoteActorHandler drop=marker
impl Recipe {
    #[verifier::external_body]
    pub fn read_from_bytes(b: &Vec<u8>) -> (r: Option<Recipe>) ensures r == recipe_of(b@) { unimplemented!() }
}
pub uninterp spec fn made_of(f: Factory, r: Recipe) -> Result<A, u64>;
impl Factory {
    /// User code: what the recipe yields.
    #[verifier::external_body]
    pub fn vcreate(&self, r: Recipe) -> (o: Result<A, u64>) ensures o == made_of(*self, r) { unimplemented!() }
}
impl ActorSystem {
    /// Assumed (C09, C11): the actor runs under that id, known to the registry of that system.
    #[verifier::external_body]
    pub fn new_actor(&self, id: ActorId, a: A, k: ActorType, Tracked(w): Tracked<&mut World>) -> (r: Result<LocalActorRef, ActorRefErr>)
        ensures *final(w) == (World { log: old(w).log.push(Ev::Start { sys: self.id, id, a, parent: None, kept: k is Tracked, r }), ..*old(w) }), r is Ok ==> r->Ok_0.id == id { unimplemented!() }
    #[verifier::external_body]
    pub fn new_supervised_actor(&self, id: ActorId, a: A, p: BoxedActorRef, Tracked(w): Tracked<&mut World>) -> (r: Result<LocalActorRef, ActorRefErr>)
        ensures *final(w) == (World { log: old(w).log.push(Ev::Start { sys: self.id, id, a, parent: Some(p), kept: true, r }), ..*old(w) }), r is Ok ==> r->Ok_0.id == id { unimplemented!() }
}
pub enum ActorType { Tracked, Anonymous }
pub trait VOrNew: Sized { fn vor_new(self) -> (r: ActorId); }
impl VOrNew for Option<ActorId> { fn vor_new(self) -> (r: ActorId) ensures self is Some ==> r == self->0 { match self { Some(x) => x, None => new_actor_id() } } }
pub trait VBoxed: Sized { fn vboxed(self) -> (r: Result<BoxedActorRef, ActorRefErr>); }
impl VBoxed for Result<LocalActorRef, ActorRefErr> {
    fn vboxed(self) -> (r: Result<BoxedActorRef, ActorRefErr>) ensures match self { Ok(a) => r is Ok && r->Ok_0.r == a, Err(e) => r == Err::<BoxedActorRef, ActorRefErr>(e) } { match self { Ok(a) => Ok(BoxedActorRef::from(a)), Err(e) => Err(e) } }
}
/// The actor the recipe makes is started once, under the id asked for (or a fresh one); nothing is if the recipe makes none.
//@fn H ActorHandler@RemoteActorHandler::create world as=create_actor
//@rw . unwrap_or_else ( | | new_actor_id ( ) ) ==> . vor_new ( )
//@rw . unwrap_or_else ( new_actor_id ) ==> . vor_new ( )
//@rw F :: Recipe ==> Recipe
//@rw . factory . create ( $x... , Tracked ( & mut * w ) ) ==> . factory . vcreate ( $x... )
//@rw system . clone ( ) ==> system
//@rw . map ( | $a | BoxedActorRef :: from ( $a ) ) ==> . vboxed ( )
//@rw . map ( BoxedActorRef :: from ) ==> . vboxed ( )
//@rw . expect ( $x... ) ==> . unwrap ( )
//@rw . new_actor ( $x... , Tracked , Tracked ( & mut * w ) ) ==> . new_actor ( $x... , ActorType :: Tracked , Tracked ( & mut * w ) )
//@contract
    requires system is Some,
    ensures final(w).pending == old(w).pending, extends(*old(w), *final(w)), ({ let s = suffix(*old(w), *final(w)); match recipe_of(recipe@) {
        Some(x) if made_of(self.factory, x) is Ok => s.len() == 1 && (s[0] matches Ev::Start { sys, id, a, parent, kept, r: q } && sys == system->0.id && (actor_id is Some ==> id == actor_id->0)
            && a == made_of(self.factory, x)->Ok_0 && parent == parent_ref && kept && (match q { Ok(y) => r is Ok && r->Ok_0.r == y && y.id == id, Err(e) => r == Err::<BoxedActorRef, ActorRefErr>(e) })),
        _ => s.len() == 0 && r == Err::<BoxedActorRef, ActorRefErr>(ActorRefErr::ActorUnavailable) } }),
//@end
// ------------------------------------------------------------------ what arrives
//@struct S SessionMessageReceiver drop=addr,server_config
//@struct C ClientMessageReceiver drop=addr,handshake_tx,identity_sender,actor_ref
pub struct HeartbeatRef { pub x: u64 }
pub struct NodeTerminated(pub NodeId);
impl HeartbeatRef {
    #[verifier::external_body]
    pub fn notify(&self, m: NodeTerminated, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures *final(w) == (World { log: old(w).log.push(Ev::Gone { node: m.0 }), ..*old(w) }) { unimplemented!() }
}
impl RemoteActorSystem {
    #[verifier::external_body]
    pub fn heartbeat(&self) -> &HeartbeatRef { unimplemented!() }
}
#[verifier::external_body]
pub fn session_handshake(sys: RemoteActorSystem, m: SessionHandshake, sid: i64, ses: SessionRef, Tracked(w): Tracked<&mut World>) ensures final(w).pending == old(w).pending { unimplemented!() }
#[verifier::external_body]
pub fn session_stream_publish(m: Arc<StreamPublishEvent>, sys: RemoteActorSystem, Tracked(w): Tracked<&mut World>) ensures final(w).pending == old(w).pending { unimplemented!() }
//@fn S StreamReceiver@SessionMessageReceiver::close
    ensures final(self).should_close, final(self).session == old(self).session, final(self).session_id == old(self).session_id,
//@end
/// What one message of another node leads to (a handshake and a stream message lead elsewhere).
pub open spec fn received(me: SessionMessageReceiver, sys: RemoteActorSystem, m: SessionEvent, w0: World, w1: World) -> bool {
    match m {
        SessionEvent::Result(c) => settled(w0, w1, c.message_id, RemoteResponse::Ok(c.result)),
        SessionEvent::Err(c) => settled(w0, w1, c.message_id, RemoteResponse::Err(err_of(c.error.v->0))),
        SessionEvent::NotifyActor(q) => message_served(sys.inner.config, sys.inner.node_id, q, me.session, me.session_id, w0, w1),
        SessionEvent::CreateActor(q) => w1.pending == w0.pending && extends(w0, w1) && creation_answered(sys, q, me.session, me.session_id, suffix(w0, w1)),
        SessionEvent::FindActor(q) => w1.pending == w0.pending && extends(w0, w1) && lookup_answered(q.actor_id, q.message_id, me.session, me.session_id, suffix(w0, w1)),
        SessionEvent::RegisterActor(a) => match a.node_id.v { Some(n) => added(w0, w1, seq![Ev::Register { id: a.actor_id, node: Some(n.value) }]), None => quiet(w0, w1) },
        SessionEvent::Ping(p) => w1.pending == w0.pending && (if p.system_terminated { quiet(w0, w1) || added(w0, w1, seq![Ev::Gone { node: p.node_id }]) }
            else { quiet(w0, w1) || (w1.log =~= w0.log.push(w1.log.last()) && (w1.log.last() matches Ev::Session { to, id, m: ClientEvent::Pong(x) } && to == me.session && id == me.session_id && x.message_id == p.message_id)) }),
        SessionEvent::Handshake(_) | SessionEvent::StreamPublish(_) => w1.pending == w0.pending,
        _ => quiet(w0, w1) }
}
//@fn S StreamReceiver@SessionMessageReceiver::on_receive world as=on_session_event
//@rw . send ( $x... ) . expect ( $y... ) ==> . send ( $x... )
//@rw , self . addr , self . server_config . clone ( ) , ==> ,
//@rw self . close ( ) ; return ==> self . close ( ) ; return
//@contract
    requires msg matches SessionEvent::Err(c) ==> c.error.v is Some,
    ensures received(*old(self), *sys, msg, *old(w), *final(w)),
//@end
//@fn C StreamReceiver@ClientMessageReceiver::on_receive world as=on_client_event
//@rw ClientEvent :: Identity ( identity ) => { $b... } ==> ClientEvent :: Identity ( identity ) => { }
//@rw ClientEvent :: Handshake ( msg ) => { $b... } ==> ClientEvent :: Handshake ( msg ) => { }
//@rw . expect ( $x... ) ==> . unwrap ( )
//@contract
    requires msg matches ClientEvent::Err(c) ==> c.error.v is Some,
    ensures answered(msg, *old(w), *final(w)),
//@end
/// What an answer from another node leads to.
pub open spec fn answered(m: ClientEvent, w0: World, w1: World) -> bool {
    match m {
        ClientEvent::Result(c) => settled(w0, w1, c.message_id, RemoteResponse::Ok(c.result)),
        ClientEvent::Err(c) => settled(w0, w1, c.message_id, RemoteResponse::Err(err_of(c.error.v->0))),
        ClientEvent::Pong(p) => w1.pending == w0.pending.remove(p.message_id) && (if w0.pending.contains_key(p.message_id) {
                w1.log =~= w0.log.push(w1.log.last()) && (w1.log.last() matches Ev::Answer { to, v: RemoteResponse::Ok(b) } && to == w0.pending[p.message_id].res_tx && (proto_value::<PongEvent>(b@) matches Some(q) && q.message_id == p.message_id))
            } else { w1.log == w0.log }),
        _ => quiet(w0, w1) }
}
impl PongEvent {
    /// Assumed (protobuf): such a message can always be written, and what is written can be read back.
    #[verifier::external_body]
    pub fn write_to_bytes(&self) -> (r: Result<Vec<u8>, u64>) ensures r is Ok, proto_value::<PongEvent>(r->Ok_0@) == Some(*self) { unimplemented!() }
}
}
fn main() {}
