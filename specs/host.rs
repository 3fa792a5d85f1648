//@include head.inc
use std::collections::hash_map::{OccupiedEntry, VacantEntry};
verus! {
//@include std.inc
//@file H coerce/src/sharding/host/mod.rs
//@file R coerce/src/sharding/host/request.rs
//@# identifiers are opaque values with decidable equality
//@rw String ==> u64
//@rw & self . shard_entity ==> self . shard_entity
//@rw & mut ActorContext ==> & mut Ctx
//@rw & ActorContext ==> & Ctx
//@rw Sender < Result < Vec < u8 > , ActorRefErr > > ==> Sender
//@rw BoxedActorHandler ==> Boxed
//@rw Box < dyn ShardAllocator > ==> Alloc
//@rw Singleton < ShardCoordinator , CoordinatorFactory > ==> Coordinator
//@# a spawned task runs to completion at some later point: its effects are recorded, in its own order
//@rw tokio :: spawn ( async move { $b... } ) ==> { $b... }
//@rw tokio :: spawn ( $b... ) ==> $b...
//@rw . or_insert_with ( || vec ! [ ] ) ==> . or_insert ( Vec :: new ( ) )
//@rw . or_insert_with ( Vec :: new ) ==> . or_insert ( Vec :: new ( ) )
//@rw . or_default ( ) ==> . or_insert ( Vec :: new ( ) )
//@rw . extend ( $x... ) ==> . vextend ( $x... )
//@rw vec ! [ ] ==> Vec :: new ( )
//@rw std :: mem :: replace ==> vreplace
//@rw mem :: replace ==> vreplace
//@effect send,notify,notify_stop,stop,push_request,handle,handle_entity,handle_request,remote_entity_request,stop_shard,notify_shard_stopped,notify_raw_rpc_result,new_actor_deferred
//@noinline into_actor_id,get_coordinator
pub type NodeId = u64;
pub type ShardId = u32;
pub type ActorId = u64;
pub struct Shard { pub x: u64 }
#[verifier::reject_recursive_types(A)]
pub struct ActorRef<A> { pub node: u64, pub id: u64, pub p: PhantomData<A> }
#[verifier::reject_recursive_types(A)]
pub struct LocalActorRef<A> { pub id: u64, pub p: PhantomData<A> }
impl<A> Clone for ActorRef<A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<A> Clone for LocalActorRef<A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct Sender { pub id: u64 }
pub struct Boxed { pub x: u64 }
impl Boxed { #[verifier::external_body] pub fn new_boxed(&self) -> (r: Boxed) { unimplemented!() } }
pub struct Coordinator { pub x: u64 }
impl Clone for Coordinator {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[derive(Debug)]
pub struct ActorRefErr { pub x: u64 }
impl ActorRefErr { pub const ResultChannelClosed: ActorRefErr = ActorRefErr { x: 0 }; }
#[derive(Clone, Copy)]
pub struct Uuid { pub x: u128 }
impl Uuid { #[verifier::external_body] pub fn new_v4() -> (r: Uuid) { unimplemented!() } }
pub struct Ctx { pub node: u64 }
pub struct Sys { pub node: u64 }
pub struct RemoteActorSystem { pub node: u64 }
pub struct Alloc { pub x: u64 }
/// The shard of an entity: a fixed function of its id (contract C06 for the default allocator).
pub uninterp spec fn shard_of(id: u64) -> u32;
/// The name of the actor that runs a shard.
pub uninterp spec fn shard_name(entity: u64, k: u32) -> u64;
impl Alloc { #[verifier::external_body] pub fn allocate(&mut self, id: &ActorId) -> (r: ShardId) ensures r == shard_of(*id) { unimplemented!() } }
#[verifier::external_body]
pub fn shard_actor_id(e: u64, k: ShardId) -> (r: ActorId) ensures r == shard_name(e, k) { unimplemented!() }
pub trait IntoActorId: Sized { fn into_actor_id(self) -> (r: u64); }
impl IntoActorId for u64 { fn into_actor_id(self) -> (r: u64) ensures r == self { self } }

//@struct R EntityRequest
//@struct R RemoteEntityRequest
//@struct H StopRequested
//@enum H ShardState
//@struct H ShardHost
//@struct H ShardAllocated
//@struct H ShardReallocating
//@struct H ShardReady
//@struct H ShardStopped
//@struct H StopShard

// ------------------------------------------------------------------ effects
/// What a request asks for, without who waits for the answer.
pub struct Req { pub actor_id: u64, pub ty: u64, pub message: Seq<u8>, pub recipe: Option<Seq<u8>> }
pub open spec fn req(r: EntityRequest) -> Req { Req { actor_id: r.actor_id, ty: r.message_type, message: r.message@, recipe: match r.recipe { Some(x) => Some((*x)@), None => None } } }
pub open spec fn rreq(r: RemoteEntityRequest) -> Req { Req { actor_id: r.actor_id, ty: r.message_type, message: r.message@, recipe: match r.recipe { Some(x) => Some(x@), None => None } } }
pub enum Sent {
    /// handed to the shard actor on this node, with the caller's result channel
    Deliver { actor: u64, req: EntityRequest },
    /// sent to the shard actor on another node
    Forward { node: u64, actor: u64, req: Req, origin: u64 },
}
pub enum Ctl {
    /// the coordinator is asked who owns the shard
    Ask { shard: u32 },
    /// the answer of the coordinator, told to this host
    Allocated { shard: u32, node: u64 },
    Start { actor: u64 },
    /// a shard actor is told to stop
    StopNotify { actor: u64 },
    /// a shard actor is told to stop, and has stopped
    StopWait { actor: u64, ok: bool },
    /// this host is told that its shard has stopped
    Stopped { shard: u32, ok: bool },
    /// a stop request is answered
    StopReply { request: Uuid, origin: u64, shard: u32, ok: bool },
}
pub enum Rpc {
    /// an answer is expected under this id
    Expect { id: Uuid },
    /// a request went out under this id
    Out { id: Uuid },
    Reply { to: Sender, ok: bool },
}
pub tracked struct World { pub ghost sent: Seq<Sent>, pub ghost ctl: Seq<Ctl>, pub ghost rpc: Seq<Rpc> }

pub struct AllocateShard { pub shard_id: ShardId, pub rebalancing: bool }
pub enum AllocateShardResult { Allocated(ShardId, NodeId), AlreadyAllocated(ShardId, NodeId), NotAllocated, Err(u64) }
/// Assumed: the answer of the coordinator names the shard it was asked for (contract C06).
impl Coordinator {
    #[verifier::external_body]
    pub fn send(&self, m: AllocateShard, Tracked(w): Tracked<&mut World>) -> (r: Result<AllocateShardResult, ActorRefErr>)
        ensures final(w).ctl == old(w).ctl.push(Ctl::Ask { shard: m.shard_id }), final(w).sent == old(w).sent, final(w).rpc == old(w).rpc,
    { unimplemented!() }
}
pub trait ToSelf { spec fn ctl(&self) -> Ctl; }
impl ToSelf for ShardAllocated { open spec fn ctl(&self) -> Ctl { Ctl::Allocated { shard: self.0, node: self.1 } } }
impl ToSelf for ShardStopped { open spec fn ctl(&self) -> Ctl { Ctl::Stopped { shard: self.shard_id, ok: self.stopped_successfully } } }
impl LocalActorRef<ShardHost> {
    #[verifier::external_body]
    pub fn notify<M: ToSelf>(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        ensures final(w).ctl == old(w).ctl.push(m.ctl()), final(w).sent == old(w).sent, final(w).rpc == old(w).rpc { unimplemented!() }
}
impl LocalActorRef<Shard> {
    #[verifier::external_body]
    pub fn send(&self, m: EntityRequest, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        ensures final(w).sent == old(w).sent.push(Sent::Deliver { actor: self.id, req: m }), final(w).ctl == old(w).ctl, final(w).rpc == old(w).rpc { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_stop(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        ensures final(w).ctl == old(w).ctl.push(Ctl::StopNotify { actor: self.id }), final(w).sent == old(w).sent, final(w).rpc == old(w).rpc { unimplemented!() }
    #[verifier::external_body]
    pub fn stop(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        ensures final(w).ctl == old(w).ctl.push(Ctl::StopWait { actor: self.id, ok: r is Ok }), final(w).sent == old(w).sent, final(w).rpc == old(w).rpc { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> (r: Boxed) { unimplemented!() }
}
impl ActorRef<Shard> {
    #[verifier::external_body]
    pub fn node_id(&self) -> (r: Option<NodeId>) ensures r == Some(self.node) { unimplemented!() }
    /// Assumed: one message to that actor (transport); the connection to a known owner exists (`expect("shard notify")`).
    #[verifier::external_body]
    pub fn notify(&self, m: RemoteEntityRequest, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        ensures final(w).sent == old(w).sent.push(Sent::Forward { node: self.node, actor: self.id, req: rreq(m), origin: m.origin_node }),
            final(w).rpc == old(w).rpc.push(Rpc::Out { id: m.request_id }), final(w).ctl == old(w).ctl, r is Ok { unimplemented!() }
}
pub struct RemoteActorRef { pub node: u64, pub id: u64 }
impl RemoteActorRef {
    #[verifier::external_body]
    pub fn new(id: ActorId, node: NodeId, r: RemoteActorSystem) -> (a: Self) ensures a.node == node, a.id == id { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> (r: ActorRef<Shard>) ensures r.node == self.node, r.id == self.id { unimplemented!() }
}
impl Sender {
    #[verifier::external_body]
    pub fn send(self, m: Result<Vec<u8>, ActorRefErr>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>)
        ensures final(w).rpc == old(w).rpc.push(Rpc::Reply { to: self, ok: m is Ok }), final(w).sent == old(w).sent, final(w).ctl == old(w).ctl { unimplemented!() }
}
impl Ctx {
    #[verifier::external_body]
    pub fn system(&self) -> (r: Sys) ensures r.node == self.node { unimplemented!() }
    #[verifier::external_body]
    pub fn attach_child_ref(&mut self, a: Boxed) ensures final(self).node == old(self).node { unimplemented!() }
}
pub enum ActorType { Tracked, Anonymous }
impl Sys {
    #[verifier::external_body]
    pub fn remote_owned(&self) -> (r: RemoteActorSystem) ensures r.node == self.node { unimplemented!() }
    #[verifier::external_body]
    pub fn remote(&self) -> (r: RemoteActorSystem) ensures r.node == self.node { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Sys) ensures r == *self { unimplemented!() }
    /// Assumed: starts that actor under that id.
    #[verifier::external_body]
    pub fn new_actor_deferred(&self, id: ActorId, s: Shard, t: ActorType, Tracked(w): Tracked<&mut World>) -> (r: LocalActorRef<Shard>)
        ensures r.id == id, final(w).ctl == old(w).ctl.push(Ctl::Start { actor: id }), final(w).sent == old(w).sent, final(w).rpc == old(w).rpc { unimplemented!() }
}
impl Shard { #[verifier::external_body] pub fn new(k: ShardId, h: Boxed, p: bool, r: LocalActorRef<ShardHost>) -> (s: Shard) { unimplemented!() } }
pub struct Tx { pub x: u64 }
pub struct RpcResult { pub x: u64 }
impl RpcResult { #[verifier::external_body] pub fn into_result(self) -> (r: Result<Vec<u8>, ActorRefErr>) { unimplemented!() } }
#[verifier::external_body]
pub fn vchannel() -> (r: (Tx, Result<RpcResult, ActorRefErr>)) { unimplemented!() }
pub struct ReplyBytes { pub shard: u32, pub ok: bool }
impl RemoteActorSystem {
    #[verifier::external_body]
    pub fn node_id(&self) -> (r: NodeId) ensures r == self.node { unimplemented!() }
    #[verifier::external_body]
    pub fn push_request(&self, id: Uuid, tx: Tx, Tracked(w): Tracked<&mut World>)
        ensures final(w).rpc == old(w).rpc.push(Rpc::Expect { id }), final(w).sent == old(w).sent, final(w).ctl == old(w).ctl { unimplemented!() }
    /// Assumed: the answer reaches the node that asked.
    #[verifier::external_body]
    pub fn notify_raw_rpc_result(&self, id: Uuid, b: ReplyBytes, node: NodeId, Tracked(w): Tracked<&mut World>)
        ensures final(w).ctl == old(w).ctl.push(Ctl::StopReply { request: id, origin: node, shard: b.shard, ok: b.ok }), final(w).sent == old(w).sent, final(w).rpc == old(w).rpc { unimplemented!() }
}
impl ShardStopped { pub fn vbytes(self) -> (r: ReplyBytes) ensures r.shard == self.shard_id, r.ok == self.stopped_successfully { ReplyBytes { shard: self.shard_id, ok: self.stopped_successfully } } }
#[verifier::external_body]
pub fn vunarc(r: Arc<Vec<u8>>) -> (x: Vec<u8>) ensures x@ == (*r)@ { unimplemented!() }
pub trait VExtend<T> { fn vextend(&mut self, b: Vec<T>); }
impl<T> VExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vextend(&mut self, b: Vec<T>) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
}
pub fn vreplace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { std::mem::replace(d, s) }

// ------------------------------------------------------------------ the host's view
pub type Hosted = Map<u32, ShardState>;
pub type Remote = Map<u32, ActorRef<Shard>>;
pub type Pending = Map<u32, Vec<EntityRequest>>;
pub open spec fn all_of(q: Seq<EntityRequest>, k: u32) -> bool { forall|i: int| 0 <= i < q.len() ==> shard_of((#[trigger] q[i]).actor_id) == k }
pub open spec fn state_ok(s: ShardState, entity: u64, k: u32) -> bool {
    match s {
        ShardState::Starting { actor_ref, request_buffer, .. } => actor_ref.id == shard_name(entity, k) && all_of(request_buffer@, k),
        ShardState::Ready(a) => a.id == shard_name(entity, k),
        ShardState::Stopping => true,
    }
}
impl ShardHost {
    /// Buffers hold only requests for their own shard, references point to the actor of their own shard, and a
    /// shard is never both hosted here and elsewhere.
    pub open spec fn ok(&self) -> bool {
        &&& forall|k: u32| #[trigger] self.hosted_shards@.contains_key(k) ==> state_ok(self.hosted_shards@[k], self.shard_entity, k) && !self.remote_shards@.contains_key(k)
        &&& forall|k: u32| #[trigger] self.remote_shards@.contains_key(k) ==> self.remote_shards@[k].id == shard_name(self.shard_entity, k)
        &&& forall|k: u32| #[trigger] self.requests_pending_shard_allocation@.contains_key(k) ==> all_of(self.requests_pending_shard_allocation@[k]@, k)
    }
    pub open spec fn same_but(&self, o: &ShardHost) -> bool { self.shard_entity == o.shard_entity && self.coordinator == o.coordinator }
    #[verifier::external_body]
    pub fn actor_ref(&self, ctx: &Ctx) -> (r: LocalActorRef<ShardHost>) { unimplemented!() }
}
/// What becomes of a request for a shard that is on this node.
pub open spec fn accepted(s0: ShardState, s1: ShardState, r: EntityRequest, w0: World, w1: World) -> bool {
    &&& w1.ctl == w0.ctl && w1.rpc == w0.rpc
    &&& match s0 {
        ShardState::Starting { actor_ref, request_buffer, stop_requested } => w1.sent == w0.sent
            && (s1 matches ShardState::Starting { actor_ref: a, request_buffer: b, stop_requested: p } && a == actor_ref && b@ == request_buffer@.push(r) && p == stop_requested),
        ShardState::Ready(a) => s1 == s0 && w1.sent == w0.sent.push(Sent::Deliver { actor: a.id, req: r }),
        ShardState::Stopping => s1 == s0 && w1.sent == w0.sent,
    }
}
//@fn R ::handle_request world
    ensures accepted(*old(shard_state), *final(shard_state), message, *old(w), *final(w)),
//@end

/// One request goes out under an id an answer is expected under; the caller gets that answer.
pub open spec fn forwarded(node: u64, actor: u64, origin: u64, r: Seq<EntityRequest>, w0: World, w1: World) -> bool {
    &&& w1.sent =~= w0.sent + r.map_values(|q: EntityRequest| Sent::Forward { node, actor, req: req(q), origin })
    &&& w1.ctl == w0.ctl
}
pub open spec fn exchange(q: EntityRequest, l0: Seq<Rpc>, l1: Seq<Rpc>) -> bool {
    let n = l0.len() as int;
    &&& n + 2 <= l1.len() <= n + 3 && l1.take(n) =~= l0
    &&& (l1[n] matches Rpc::Expect { id } && l1[n + 1] == (Rpc::Out { id }))
    &&& l1.len() == n + 3 ==> (l1[n + 2] matches Rpc::Reply { to, .. } && q.result_channel == Some(to))
}
//@fn R ::remote_entity_request world opt
//@rw channel ( ) ==> vchannel ( )
//@rw $r . as_ref ( ) . clone ( ) ==> vunarc ( $r )
//@rw result_channel . map ( move | $s | { $b... } ) ==> match result_channel { Some ( $s ) => { let _ = { $b... } ; } None => { } }
//@rw . map_err ( | e | e ) ==>
    ensures forwarded(shard_ref.node, shard_ref.id, system.node, seq![request], *old(w), *final(w)), exchange(request, old(w).rpc, final(w).rpc),
        r is Ok && request.result_channel is Some ==> final(w).rpc.last() is Reply,
//@start
    let ghost r0 = request;
//@tail
    proof { assert(w.sent.last() == (Sent::Forward { node: shard_ref.node, actor: shard_ref.id, req: req(r0), origin: system.node })); }
//@end

//@fn R From<RemoteEntityRequest>@EntityRequest::from as=from_remote impl=none sig="pub fn from_remote(req: RemoteEntityRequest) -> (r: EntityRequest)" opt
    ensures crate::req(r) == rreq(req), r.result_channel is None,
//@end

//@fn H ShardHost::get_coordinator
    requires self.coordinator is Some,
    ensures Some(r) == self.coordinator,
//@end

/// Where a request goes, in the state the host is in when it arrives.
pub open spec fn routed(h0: ShardHost, h1: ShardHost, q: EntityRequest, node: u64, w0: World, w1: World) -> bool {
    let k = shard_of(q.actor_id);
    &&& h1.remote_shards@ =~= h0.remote_shards@
    &&& if h0.hosted_shards@.contains_key(k) {
        h1.requests_pending_shard_allocation@ =~= h0.requests_pending_shard_allocation@
            && h1.hosted_shards@.dom() =~= h0.hosted_shards@.dom()
            && (forall|x: u32| x != k && h0.hosted_shards@.contains_key(x) ==> #[trigger] h1.hosted_shards@[x] == h0.hosted_shards@[x])
            && accepted(h0.hosted_shards@[k], h1.hosted_shards@[k], q, w0, w1)
    } else if h0.remote_shards@.contains_key(k) {
        h1.requests_pending_shard_allocation@ =~= h0.requests_pending_shard_allocation@ && h1.hosted_shards@ =~= h0.hosted_shards@
            && forwarded(h0.remote_shards@[k].node, h0.remote_shards@[k].id, node, seq![q], w0, w1) && exchange(q, w0.rpc, w1.rpc)
    } else {
        // kept, and the coordinator is asked for the owner, whose answer is told to this host
        &&& h1.hosted_shards@ =~= h0.hosted_shards@ && w1.sent == w0.sent && w1.rpc == w0.rpc
        &&& h1.requests_pending_shard_allocation@.dom() =~= h0.requests_pending_shard_allocation@.dom().insert(k)
        &&& forall|x: u32| x != k && h0.requests_pending_shard_allocation@.contains_key(x) ==> #[trigger] h1.requests_pending_shard_allocation@[x] == h0.requests_pending_shard_allocation@[x]
        &&& h1.requests_pending_shard_allocation@[k]@ =~= pending(h0, k).push(q)
        &&& asked(w0.ctl, w1.ctl, k)
    }
}
pub open spec fn pending(h: ShardHost, k: u32) -> Seq<EntityRequest> { if h.requests_pending_shard_allocation@.contains_key(k) { h.requests_pending_shard_allocation@[k]@ } else { Seq::empty() } }
pub open spec fn asked(l0: Seq<Ctl>, l1: Seq<Ctl>, k: u32) -> bool {
    ||| l1 =~= l0.push(Ctl::Ask { shard: k })
    ||| l1.len() == l0.len() + 2 && l1.drop_last() =~= l0.push(Ctl::Ask { shard: k }) && l1.last() is Allocated
}
//@fn R Handler<EntityRequest>@ShardHost::handle as=handle_entity world
    requires old(self).ok(), old(self).coordinator is Some,
    ensures final(self).ok(), final(self).same_but(old(self)), final(ctx).node == old(ctx).node,
        routed(*old(self), *final(self), message, old(ctx).node, *old(w), *final(w)),
//@end

//@fn H Handler<ShardReallocating>@ShardHost::handle as=handle_reallocating world
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), *final(w) == *old(w),
        final(self).remote_shards@ == old(self).remote_shards@.remove(message.0), final(self).hosted_shards@ == old(self).hosted_shards@,
        final(self).requests_pending_shard_allocation@ == old(self).requests_pending_shard_allocation@,
//@end

/// Where the requests that waited for the owner of `k` went.
pub open spec fn flushed(h: ShardHost, s0: Option<ShardState>, k: u32, node: u64, q: Seq<EntityRequest>, w0: World, w1: World) -> bool {
    if h.hosted_shards@.contains_key(k) {
        match s0->0 {
            ShardState::Starting { actor_ref, request_buffer, stop_requested } => w1 == w0
                && (h.hosted_shards@[k] matches ShardState::Starting { actor_ref: a, request_buffer: b, stop_requested: p } && a == actor_ref && b@ =~= request_buffer@ + q && p == stop_requested),
            ShardState::Ready(a) => h.hosted_shards@[k] == s0->0 && w1.ctl == w0.ctl && w1.rpc == w0.rpc && w1.sent =~= w0.sent + q.map_values(|x: EntityRequest| Sent::Deliver { actor: a.id, req: x }),
            ShardState::Stopping => h.hosted_shards@[k] == s0->0 && w1 == w0,
        }
    } else { forwarded(h.remote_shards@[k].node, h.remote_shards@[k].id, node, q, w0, w1) }
}
//@fn H ShardState::actor_ref
    ensures match *self { ShardState::Starting { actor_ref, .. } => r == Some(&actor_ref), ShardState::Ready(a) => r == Some(&a), ShardState::Stopping => r is None },
//@end

/// Everything that waits for the owner of `k`: what is pending, and what a shard that is moved away had not handled yet.
pub open spec fn waiting(h: ShardHost, k: u32, here: bool) -> Seq<EntityRequest> {
    if !here && h.hosted_shards@.contains_key(k) { match h.hosted_shards@[k] { ShardState::Starting { request_buffer, .. } => pending(h, k) + request_buffer@, _ => pending(h, k) } } else { pending(h, k) }
}
/// What happens to the shard actor of this node when the owner is announced.
pub open spec fn actor_ctl(h: ShardHost, k: u32, here: bool) -> Seq<Ctl> {
    if h.hosted_shards@.contains_key(k) {
        if here { Seq::empty() } else { match h.hosted_shards@[k] { ShardState::Starting { actor_ref, .. } => seq![Ctl::StopNotify { actor: actor_ref.id }], ShardState::Ready(a) => seq![Ctl::StopNotify { actor: a.id }], _ => Seq::empty() } }
    } else if here { seq![Ctl::Start { actor: shard_name(h.shard_entity, k) }] } else { Seq::empty() }
}
pub open spec fn others_same(h0: ShardHost, h1: ShardHost, k: u32) -> bool {
    &&& forall|x: u32| x != k ==> (#[trigger] h1.requests_pending_shard_allocation@.contains_key(x) <==> h0.requests_pending_shard_allocation@.contains_key(x)) && (h0.requests_pending_shard_allocation@.contains_key(x) ==> h1.requests_pending_shard_allocation@[x] == h0.requests_pending_shard_allocation@[x])
    &&& forall|x: u32| x != k ==> (#[trigger] h1.hosted_shards@.contains_key(x) <==> h0.hosted_shards@.contains_key(x)) && (h0.hosted_shards@.contains_key(x) ==> h1.hosted_shards@[x] == h0.hosted_shards@[x])
    &&& forall|x: u32| x != k ==> (#[trigger] h1.remote_shards@.contains_key(x) <==> h0.remote_shards@.contains_key(x)) && (h0.remote_shards@.contains_key(x) ==> h1.remote_shards@[x] == h0.remote_shards@[x])
}
/// The owner of `k` is `node` (`me`: this node), and the waiting requests `q` went there, in order and once each.
pub open spec fn owner_known(h0: ShardHost, h1: ShardHost, k: u32, node: u64, me: u64, q: Seq<EntityRequest>, w0: World, w1: World) -> bool {
    let was = h0.hosted_shards@.contains_key(k);
    &&& !h1.requests_pending_shard_allocation@.contains_key(k) && others_same(h0, h1, k)
    &&& w1.ctl =~= w0.ctl + actor_ctl(h0, k, node == me)
    &&& if node == me {
        &&& h1.hosted_shards@.contains_key(k) && !h1.remote_shards@.contains_key(k) && w1.rpc == w0.rpc
        &&& if was {
            match h0.hosted_shards@[k] {
                ShardState::Starting { actor_ref, request_buffer, stop_requested } => w1.sent == w0.sent
                    && (h1.hosted_shards@[k] matches ShardState::Starting { actor_ref: a, request_buffer: b, stop_requested: p } && a == actor_ref && b@ =~= request_buffer@ + q && p == stop_requested),
                ShardState::Ready(a) => h1.hosted_shards@[k] == h0.hosted_shards@[k] && w1.sent =~= w0.sent + q.map_values(|x: EntityRequest| Sent::Deliver { actor: a.id, req: x }),
                ShardState::Stopping => h1.hosted_shards@[k] == h0.hosted_shards@[k] && w1.sent == w0.sent,
            }
        } else {
            w1.sent == w0.sent && (h1.hosted_shards@[k] matches ShardState::Starting { actor_ref, request_buffer, stop_requested } && actor_ref.id == shard_name(h0.shard_entity, k)
                && request_buffer@ =~= q && stop_requested is None)
        }
    } else {
        &&& !h1.hosted_shards@.contains_key(k) && h1.remote_shards@.contains_key(k) && h1.remote_shards@[k].node == node
        &&& w1.sent =~= w0.sent + q.map_values(|x: EntityRequest| Sent::Forward { node, actor: shard_name(h0.shard_entity, k), req: req(x), origin: me })
    }
}
pub proof fn lemma_owner_step(h0: ShardHost, h1: ShardHost, h2: ShardHost, k: u32, node: u64, me: u64, q: Seq<EntityRequest>, r: EntityRequest, w0: World, w1: World, w2: World)
    requires owner_known(h0, h1, k, node, me, q, w0, w1), routed(h1, h2, r, me, w1, w2), shard_of(r.actor_id) == k, h1.ok(), h1.same_but(&h0),
    ensures owner_known(h0, h2, k, node, me, q.push(r), w0, w2)
{
    assert(h1.hosted_shards@.contains_key(k) || h1.remote_shards@.contains_key(k));
    assert forall|x: u32| x != k implies (#[trigger] h2.hosted_shards@.contains_key(x) <==> h0.hosted_shards@.contains_key(x)) && (h0.hosted_shards@.contains_key(x) ==> h2.hosted_shards@[x] == h0.hosted_shards@[x]) by {
        assert(h1.hosted_shards@.contains_key(x) <==> h0.hosted_shards@.contains_key(x));
        assert(h2.hosted_shards@.dom().contains(x) <==> h1.hosted_shards@.dom().contains(x));
        if h0.hosted_shards@.contains_key(x) { assert(h2.hosted_shards@[x] == h1.hosted_shards@[x]); }
    }
    assert(h2.requests_pending_shard_allocation@ == h1.requests_pending_shard_allocation@);
    assert(others_same(h0, h2, k));
    if node == me {
        if h0.hosted_shards@.contains_key(k) && h0.hosted_shards@[k] is Ready {
            let a = h0.hosted_shards@[k]->Ready_0;
            assert(q.push(r).map_values(|x: EntityRequest| Sent::Deliver { actor: a.id, req: x }) =~= q.map_values(|x: EntityRequest| Sent::Deliver { actor: a.id, req: x }).push(Sent::Deliver { actor: a.id, req: r }));
        }
    } else {
        let f = |x: EntityRequest| Sent::Forward { node, actor: shard_name(h0.shard_entity, k), req: req(x), origin: me };
        assert(h1.remote_shards@[k].id == shard_name(h0.shard_entity, k));
        assert(seq![r].map_values(f) =~= seq![f(r)]);
        assert(q.push(r).map_values(f) =~= q.map_values(f).push(f(r)));
        assert(w2.sent =~= w1.sent + seq![f(r)]);
    }
}
//@fn H Handler<ShardAllocated>@ShardHost::handle as=handle_allocated world
//@rw self . handle ( $x... ) ==> self . handle_entity ( $x... )
    requires old(self).ok(), old(self).coordinator is Some,
    ensures final(self).ok(), final(self).same_but(old(self)), final(ctx).node == old(ctx).node,
        owner_known(*old(self), *final(self), message.0, message.1, old(ctx).node, waiting(*old(self), message.0, message.1 == old(ctx).node), *old(w), *final(w)),
//@start
    let ghost q = waiting(*old(self), message.0, message.1 == old(ctx).node);
    proof { assert(q.take(q.len() as int) =~= q); }
//@loop 0
    invariant self.ok(), self.same_but(old(self)), self.coordinator is Some, ctx.node == old(ctx).node, it0.seq() =~= q, all_of(q, message.0),
        owner_known(*old(self), *self, message.0, message.1, old(ctx).node, q.take(it0.index@), *old(w), *w),
//@loopstart 0
    let ghost h1 = *self; let ghost w1 = *w;
    proof { assert(q.take(it0.index@ + 1) =~= q.take(it0.index@).push(request)); }
//@loopend 0
    proof { lemma_owner_step(*old(self), h1, *self, message.0, message.1, old(ctx).node, q.take(it0.index@), request, *old(w), w1, *w); }
//@end

/// The stop request is answered once, after the shard has stopped, and this host learns of it first.
pub open spec fn stop_log(l0: Seq<Ctl>, l1: Seq<Ctl>, k: u32, actor: u64, s: Option<StopRequested>) -> bool {
    exists|ok: bool| l1 =~= #[trigger] stop_events(l0, k, actor, s, ok)
}
pub open spec fn stop_events(l0: Seq<Ctl>, k: u32, actor: u64, s: Option<StopRequested>, ok: bool) -> Seq<Ctl> {
    l0.push(Ctl::StopWait { actor, ok }).push(Ctl::Stopped { shard: k, ok })
        + (match s { Some(q) => seq![Ctl::StopReply { request: q.request_id, origin: q.origin_node_id, shard: k, ok }], None => Seq::empty() })
}
//@fn H ::notify_shard_stopped world
//@rw . into_envelope ( EnvelopeType :: Remote ) . unwrap ( ) . into_bytes ( ) ==> . vbytes ( )
    ensures final(w).ctl == old(w).ctl.push(Ctl::StopReply { request: stop_requested.request_id, origin: stop_requested.origin_node_id, shard: shard_id, ok: stopped_successfully }),
        final(w).sent == old(w).sent, final(w).rpc == old(w).rpc,
//@end
//@fn H ShardHost::stop_shard world
    ensures stop_log(old(w).ctl, final(w).ctl, shard_id, actor_ref.id, stop_requested), final(w).sent == old(w).sent, final(w).rpc == old(w).rpc,
//@tail
    proof { let n = old(w).ctl.len() as int; assert(w.ctl[n] is StopWait); let ok = w.ctl[n]->StopWait_ok; assert(w.ctl =~= stop_events(old(w).ctl, shard_id, actor_ref.id, stop_requested, ok)); }
//@end
pub open spec fn maps_same(h0: ShardHost, h1: ShardHost) -> bool { h1.hosted_shards@ =~= h0.hosted_shards@ && h1.remote_shards@ =~= h0.remote_shards@ && h1.requests_pending_shard_allocation@ =~= h0.requests_pending_shard_allocation@ }
//@fn H Handler<StopShard>@ShardHost::handle as=handle_stop world
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), others_same(*old(self), *final(self), message.shard_id),
        final(self).remote_shards@ =~= old(self).remote_shards@, final(self).requests_pending_shard_allocation@ =~= old(self).requests_pending_shard_allocation@,
        final(w).sent == old(w).sent, final(w).rpc == old(w).rpc,
        ({ let k = message.shard_id; let s = StopRequested { origin_node_id: message.origin_node_id, request_id: message.request_id };
           if old(self).hosted_shards@.contains_key(k) {
               &&& final(self).hosted_shards@.contains_key(k)
               &&& match old(self).hosted_shards@[k] {
                   // answered when the start-up is over (ShardReady)
                   ShardState::Starting { actor_ref, request_buffer, .. } => *final(w) == *old(w)
                       && (final(self).hosted_shards@[k] matches ShardState::Starting { actor_ref: a, request_buffer: b, stop_requested: p } && a == actor_ref && b == request_buffer && p == Some(s)),
                   ShardState::Ready(a) => final(self).hosted_shards@[k] is Stopping && stop_log(old(w).ctl, final(w).ctl, k, a.id, Some(s)),
                   ShardState::Stopping => *final(w) == *old(w) && final(self).hosted_shards@[k] is Stopping,
               }
           } else {
               !final(self).hosted_shards@.contains_key(k) && final(w).ctl == old(w).ctl.push(Ctl::StopReply { request: s.request_id, origin: s.origin_node_id, shard: k, ok: true })
           } }),
//@end

//@fn H Handler<ShardStopped>@ShardHost::handle as=handle_stopped world
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), *final(w) == *old(w), final(self).hosted_shards@ =~= old(self).hosted_shards@.remove(message.shard_id),
        final(self).remote_shards@ =~= old(self).remote_shards@, final(self).requests_pending_shard_allocation@ =~= old(self).requests_pending_shard_allocation@,
//@end

//@fn H Handler<ShardReady>@ShardHost::handle as=handle_ready world
    requires old(self).ok(), message.1.id == shard_name(old(self).shard_entity, message.0),
    ensures final(self).ok(), final(self).same_but(old(self)), final(ctx).node == old(ctx).node, others_same(*old(self), *final(self), message.0), final(w).rpc == old(w).rpc,
        final(self).remote_shards@ =~= old(self).remote_shards@,
        ({ let k = message.0;
           if old(self).hosted_shards@.contains_key(k) && old(self).hosted_shards@[k] is Starting {
               let b = old(self).hosted_shards@[k]->request_buffer@;
               match old(self).hosted_shards@[k]->stop_requested {
                   // everything that waited is delivered, in order, once
                   None => final(self).hosted_shards@[k] == ShardState::Ready(message.1) && final(w).ctl == old(w).ctl
                       && final(w).sent =~= old(w).sent + b.map_values(|x: EntityRequest| Sent::Deliver { actor: message.1.id, req: x })
                       && final(self).requests_pending_shard_allocation@ =~= old(self).requests_pending_shard_allocation@,
                   // a stop was asked for meanwhile: stop it, answer, and keep what waited for the next owner
                   Some(s) => final(self).hosted_shards@[k] is Stopping && final(w).sent == old(w).sent && pending(*final(self), k) =~= pending(*old(self), k) + b
                       && stop_log(old(w).ctl, final(w).ctl, k, message.1.id, Some(s)),
               }
           } else { maps_same(*old(self), *final(self)) && *final(w) == *old(w) } }),
//@start
    let ghost b = old(self).hosted_shards@[message.0]->request_buffer@;
    proof { assert(b.take(b.len() as int) =~= b); }
//@loop 0
    invariant it0.seq() == b, *shard_state == ShardState::Ready(actor_ref), w.ctl == old(w).ctl, w.rpc == old(w).rpc,
        w.sent =~= old(w).sent + b.take(it0.index@).map_values(|x: EntityRequest| Sent::Deliver { actor: message.1.id, req: x }),
//@loopstart 0
    proof { assert(b.take(it0.index@ + 1) =~= b.take(it0.index@).push(request)); }
//@end
}
fn main(){}
