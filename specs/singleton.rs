//@include head.inc
use std::mem;
verus! {
//@include std.inc
//@file M coerce/src/singleton/manager/mod.rs
//@file L coerce/src/singleton/manager/lease.rs
//@file T coerce/src/singleton/manager/start.rs
//@file Y coerce/src/remote/stream/system.rs
//@file G coerce/src/singleton/mod.rs
//@file P coerce/src/singleton/proxy/mod.rs
//@file D coerce/src/singleton/proxy/send.rs
//@# the factory and the type of the singleton are fixed but arbitrary; ids of actors are opaque values; a message is what it says
//@rw < F : SingletonFactory > ==>
//@rw < A : Actor > ==>
//@rw < M : Message > ==>
//@rw Deliver < M > ==> Deliver
//@rw Manager < F > ==> Manager
//@rw State < F :: Actor > ==> State
//@rw State < A > ==> State
//@rw Proxy < A > ==> Proxy
//@rw ProxyState < A > ==> ProxyState
//@rw Proxy < F :: Actor > ==> Proxy
//@rw ActorStartResult < F :: Actor > ==> ActorStartResult
//@rw ActorStartResult < A > ==> ActorStartResult
//@rw LocalActorRef < Proxy > ==> ProxyRef
//@rw LocalActorRef < A > ==> Single
//@rw ActorRef < Self > ==> ManagerRef
//@rw ActorRef < Manager > ==> ManagerRef
//@rw ActorRef < A > ==> Single
//@rw VecDeque < Box < dyn Buffered < A >> > ==> VecDeque < Deliver >
//@rw VecDeque < Box < dyn Buffered < A > > > ==> VecDeque < Deliver >
//@rw Box :: new ( $x ) ==> $x
//@rw Option < M > ==> Option < Msg >
//@rw Option < Sender < Result < M :: Result , ActorRefErr >> > ==> Option < Channel >
//@rw Option < Sender < Result < M :: Result , ActorRefErr > > > ==> Option < Channel >
//@rw format ! ( "{}-{}" , & self . manager_actor_id , node . id ) . to_actor_id ( ) ==> vmanager_id ( & self . manager_actor_id , node . id )
//@rw RemoteActorRef :: new ( self . singleton_actor_id . clone ( ) , $n... , self . sys . clone ( ) , ) . into ( ) ==> vsingle ( & self . singleton_actor_id , $n... )
//@rw RemoteActorRef :: new ( $i... , node . id , sys . clone ( ) , ) . into ( ) ==> vmanager ( $i... , node . id )
//@rw proxy :: SingletonStarted :: new ( $x... ) ==> PxStarted ( $x... )
//@rw proxy :: SingletonStopping ==> PxStopping
//@rw actor_ref . into ( ) ==> actor_ref
//@rw message . clone ( ) ==> message . vcopy ( )
//@rw actor_ref . clone ( ) ==> actor_ref . vcopy ( )
//@rw async move { $b... } . pipe_to ( $m... ) ==> vpipe ( { $b... } , Tracked ( & mut * w ) )
//@rw tokio :: spawn ( async move { $b... } ) ==> { $b... }
//@effect give,notify,notify_managers,notify_manager,notify_stop,scheduled_notify,begin_starting,begin_stopping,on_leader_changed,request_lease,grant_lease,on_lease_ack,on_all_managers_acknowledged,start_actor,into_actor,watch,deliver,send,buffered_send
//@noinline new,vcopy,notify,notify_managers,notify_manager,begin_starting,begin_stopping,on_leader_changed,request_lease,grant_lease,on_lease_ack,on_all_managers_acknowledged,start_actor,is_running,is_joining,get_actor,deliver,is_active
pub type NodeId = u64;
pub type ActorId = u64;
pub struct ActorContext { pub x: u64 }
pub struct ActorRefErr { pub x: u64 }
pub struct Subscription { pub x: u64 }
pub struct NodeSelector { pub x: u64 }
pub struct RemoteNodeRef { pub id: NodeId, pub x: u64 }
pub uninterp spec fn selected(s: NodeSelector, n: RemoteNodeRef) -> bool;
impl RemoteNodeRef {
    pub fn as_ref(&self) -> (r: &RemoteNodeRef) ensures *r == *self { self }
}
impl NodeSelector {
    #[verifier::external_body]
    pub fn includes(&self, n: &RemoteNodeRef) -> (r: bool) ensures r == selected(*self, *n) { unimplemented!() }
}
/// What one manager says to another.
pub ghost enum Tell { Request(NodeId), Ack(NodeId), Started(NodeId), Stopped(NodeId) }
/// What the manager says to the proxy of its node.
pub ghost enum Px { Started(Single), Stopping }
pub ghost struct World {
    /// what the managers of other nodes are told
    pub told: Seq<(NodeId, ActorId, Tell)>,
    pub proxy: Seq<Px>,
    /// singletons that were told to stop, are watched, were made
    pub stops: Seq<Single>,
    pub watched: Seq<Single>,
    pub made: Seq<ActorId>,
    pub piped: Seq<ActorStartResult>,
    /// messages given to a singleton, and answers
    pub given: Seq<(Single, Msg)>,
    pub answered: Seq<(Channel, Res)>,
    /// messages given to the proxy
    pub asked: Seq<Deliver>,
}
pub trait Message: Sized {
    spec fn tell(&self) -> Tell;
    fn vcopy(&self) -> (r: Self) ensures r.tell() == self.tell();
}
//@struct L RequestLease
//@struct L LeaseAck
//@struct M SingletonStarted
//@struct M SingletonStopped
impl Message for RequestLease { open spec fn tell(&self) -> Tell { Tell::Request(self.source_node_id) } fn vcopy(&self) -> (r: Self) { RequestLease { source_node_id: self.source_node_id } } }
impl Message for LeaseAck { open spec fn tell(&self) -> Tell { Tell::Ack(self.source_node_id) } fn vcopy(&self) -> (r: Self) { LeaseAck { source_node_id: self.source_node_id } } }
impl Message for SingletonStarted { open spec fn tell(&self) -> Tell { Tell::Started(self.source_node_id) } fn vcopy(&self) -> (r: Self) { SingletonStarted { source_node_id: self.source_node_id } } }
impl Message for SingletonStopped { open spec fn tell(&self) -> Tell { Tell::Stopped(self.source_node_id) } fn vcopy(&self) -> (r: Self) { SingletonStopped { source_node_id: self.source_node_id } } }
/// A reference to a singleton, on this node or another.
pub struct Single { pub id: ActorId, pub node: Option<NodeId>, pub x: u64 }
impl Single {
    #[verifier::external_body]
    pub fn vcopy(&self) -> (r: Single) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_stop(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures *final(w) == (World { stops: old(w).stops.push(*self), ..*old(w) }) { unimplemented!() }
    /// Assumed: the message is given to the actor, and this is its result or why there is none (C01, C13).
    #[verifier::external_body]
    pub fn send(&self, m: Msg, Tracked(w): Tracked<&mut World>) -> (r: Res) ensures r == result_of(*self, m), *final(w) == (World { given: old(w).given.push((*self, m)), ..*old(w) }) { unimplemented!() }
}
pub struct ManagerRef { pub id: ActorId, pub node: NodeId }
pub uninterp spec fn manager_id(base: ActorId, node: NodeId) -> ActorId;
#[verifier::external_body]
pub fn vmanager_id(base: &ActorId, n: NodeId) -> (r: ActorId) ensures r == manager_id(*base, n) { unimplemented!() }
pub fn vmanager(id: ActorId, n: NodeId) -> (r: ManagerRef) ensures r == (ManagerRef { id, node: n }) { ManagerRef { id, node: n } }
#[verifier::external_body]
pub fn vsingle(id: &ActorId, n: NodeId) -> (r: Single) ensures r.id == *id, r.node == Some(n) { unimplemented!() }
impl ManagerRef {
    pub fn node_id(&self) -> (r: Option<NodeId>) ensures r == Some(self.node) { Some(self.node) }
    /// Assumed: what could be sent arrives (C13); of what could not, nothing does.
    #[verifier::external_body]
    pub fn notify<M: Message>(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        ensures r is Ok ==> *final(w) == (World { told: old(w).told.push((self.node, self.id, m.tell())), ..*old(w) }), r is Err ==> *final(w) == *old(w) && unsent(self.node, m.tell()) { unimplemented!() }
}
pub struct Notify<M>(pub NodeId, pub M);
pub struct SelfRef { pub mid: Ghost<ActorId> }
impl SelfRef {
    /// Assumed: the manager gets the message after that time, and tells the other manager again (notify_manager): recorded as told.
    #[verifier::external_body]
    pub fn scheduled_notify<M: Message>(&self, n: Notify<M>, d: Duration, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { told: old(w).told.push((n.0, manager_id(self.mid@, n.0), n.1.tell())), ..*old(w) }) { unimplemented!() }
}
pub struct Duration { pub s: u64 }
impl Duration { pub fn from_secs(s: u64) -> (r: Duration) { Duration { s } } }
pub trait PxMsg: Sized { spec fn px(&self) -> Px; }
pub struct PxStarted(pub Single);
pub struct PxStopping;
impl PxMsg for PxStarted { open spec fn px(&self) -> Px { Px::Started(self.0) } }
impl PxMsg for PxStopping { open spec fn px(&self) -> Px { Px::Stopping } }
pub struct ProxyRef { pub x: u64 }
impl ProxyRef {
    #[verifier::external_body]
    pub fn notify<M: PxMsg>(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures *final(w) == (World { proxy: old(w).proxy.push(m.px()), ..*old(w) }) { unimplemented!() }
}
pub struct ActorSystem { pub x: u64 }
impl ActorSystem { #[verifier::external_body] pub fn is_terminated(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] pub fn remote(&self) -> (r: &RemoteActorSystem) { unimplemented!() } }
impl ActorContext { #[verifier::external_body] pub fn system(&self) -> (r: &ActorSystem) { unimplemented!() } }
pub struct RemoteActorSystem { pub x: u64 }
impl RemoteActorSystem { #[verifier::external_body] pub fn actor_system(&self) -> (r: &ActorSystem) { unimplemented!() } }
pub struct Factory { pub x: u64 }
pub struct Made { pub x: u64 }
impl Factory { #[verifier::external_body] pub fn create(&self) -> (r: Made) { unimplemented!() } }
impl Made {
    /// Assumed: an actor of this id is started on this node (C02), or why not.
    #[verifier::external_body]
    pub fn into_actor(self, id: Option<ActorId>, s: &ActorSystem, Tracked(w): Tracked<&mut World>) -> (r: Result<Single, ActorRefErr>)
        ensures id is Some ==> *final(w) == (World { made: old(w).made.push(id->0), ..*old(w) }), r is Ok && id is Some ==> r->Ok_0.id == id->0 && r->Ok_0.node is None { unimplemented!() }
}
#[verifier::external_body]
pub fn vpipe(m: ActorStartResult, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { piped: old(w).piped.push(m), ..*old(w) }) { unimplemented!() }
//@enum T ActorStartResult

// ------------------------------------------------------------------ the manager
//@enum M State
//@rw factory : F , ==> factory : Factory ,
//@struct M Manager
pub open spec fn known(m: Manager) -> Set<NodeId> { m.managers@.dom() }
/// The managers it knows are those of other nodes, each under its node; those that acknowledged are among them.
pub open spec fn ok(m: Manager) -> bool {
    &&& forall|n: NodeId| #[trigger] m.managers@.contains_key(n) ==> m.managers@[n] == (ManagerRef { id: manager_id(m.manager_actor_id, n), node: n })
    &&& m.state is Starting ==> m.state->acknowledged_nodes@.subset_of(known(m))
}
pub open spec fn same_but_state(a: Manager, b: Manager) -> bool { b == (Manager { state: b.state, ..a }) }
/// The manager of the node is told this, once, and nothing else happens.
pub open spec fn tell(m: Manager, n: NodeId, t: Tell, w0: World) -> World {
    if m.managers@.contains_key(n) { World { told: w0.told.push((n, manager_id(m.manager_actor_id, n), t)), ..w0 } } else { w0 }
}
pub open spec fn tells(m: Manager, n: NodeId, t: Tell, w0: World, w1: World) -> bool { w1 == tell(m, n, t, w0) }
/// Every manager is told this, once, and nothing else happens.
pub open spec fn tells_each(ms: Map<NodeId, ManagerRef>, base: ActorId, t: Tell, w0: World, w1: World) -> bool {
    let k = w0.told.len() as int;
    &&& w1.told.len() >= k && w1.told.take(k) =~= w0.told && w1 == (World { told: w1.told, ..w0 })
    &&& forall|n: NodeId| #[trigger] ms.contains_key(n) ==> exists|i: int| k <= i < w1.told.len() && (#[trigger] w1.told[i]).0 == n
    &&& forall|i: int| k <= i < w1.told.len() ==> ms.contains_key((#[trigger] w1.told[i]).0) && w1.told[i].1 == manager_id(base, w1.told[i].0) && w1.told[i].2 == t
    &&& forall|i: int, j: int| k <= i < j < w1.told.len() ==> (#[trigger] w1.told[i]).0 != (#[trigger] w1.told[j]).0
}
pub open spec fn tells_all(m: Manager, t: Tell, w0: World, w1: World) -> bool { tells_each(m.managers@, m.manager_actor_id, t, w0, w1) }
/// One singleton is made, and its start will be reported to the manager.
pub open spec fn makes(m: Manager, w0: World, w1: World) -> bool {
    &&& w1 == (World { made: w0.made.push(m.singleton_actor_id), piped: w1.piped, ..w0 })
    &&& w1.piped.len() == w0.piped.len() + 1 && w1.piped.drop_last() =~= w0.piped
    &&& w1.piped.last() is Started ==> w1.piped.last()->Started_0.id == m.singleton_actor_id && w1.piped.last()->Started_0.node is None
}
/// It asks every manager for the lease, and makes the singleton only if there is none to ask.
pub open spec fn asks(m: Manager, m1: Manager, w0: World, w1: World) -> bool {
    &&& same_but_state(m, m1) && m1.state is Starting && m1.state->acknowledged_nodes@ =~= Set::empty()
    &&& if known(m) =~= Set::empty() { makes(m, w0, w1) } else { tells_all(m, Tell::Request(m.node_id), w0, w1) }
}
//@fn M State::is_running
    ensures r == (*self is Running || *self is Starting),
//@end
//@fn M State::is_joining
    ensures r == (*self is Joining),
//@end
//@fn M State::get_actor
    ensures r == (match *self { State::Running { actor_ref } => Some(actor_ref), State::Stopping { actor_ref, .. } => Some(actor_ref), _ => None }),
//@end
impl Manager {
    #[verifier::external_body]
    pub fn actor_ref(&self, ctx: &ActorContext) -> (r: SelfRef) ensures r.mid@ == self.manager_actor_id { unimplemented!() }
    #[verifier::external_body]
    pub fn watch(&self, a: &Single, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { watched: old(w).watched.push(*a), ..*old(w) }) { unimplemented!() }
}
//@rw scheduled_notify :: < Notify < M > > ==> scheduled_notify :: < M >
//@rw scheduled_notify :: < Notify < M >> ==> scheduled_notify :: < M >
//@fn M Manager::notify world generics="<M: Message>"
    requires manager.id == manager_id(self.manager_actor_id, manager.node),
    ensures *final(w) == (World { told: old(w).told.push((manager.node, manager.id, message.tell())), ..*old(w) }),
//@end
//@fn M Manager::notify_manager world generics="<M: Message>"
    requires ok(*self),
    ensures tells(*self, node_id, message.tell(), *old(w), *final(w)),
//@end
/// What could not be sent to a manager is sent again later, if the manager is still known.
//@fn M Handler<Notify<M>>@Manager::handle as=handle_again world impl=none sig="pub fn handle_again<M: Message>(this: &mut Manager, message: Notify<M>, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>)"
//@rw self ==> this
    requires ok(*old(this)),
    ensures *final(this) == *old(this), tells(*old(this), message.0, message.1.tell(), *old(w), *final(w)),
//@end
#[verifier::external_body]
pub fn vvalues_of<'a>(m: &'a HashMap<NodeId, ManagerRef>) -> (r: Vec<&'a ManagerRef>)
    requires forall|n: NodeId| #[trigger] m@.contains_key(n) ==> m@[n].node == n,
    ensures forall|n: NodeId| #[trigger] m@.contains_key(n) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == m@[n],
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).node) && *r@[i] == m@[r@[i].node],
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).node != (#[trigger] r@[j]).node,
{ unimplemented!() }
//@fn M Manager::notify_managers world generics="<M: Message>"
//@rw self . managers . values ( ) ==> vvalues_of ( & self . managers )
    requires ok(*self),
    ensures tells_all(*self, message.tell(), *old(w), *final(w)),
//@before 0
    let ghost k = w.told.len() as int; let ghost w0 = *w;
//@loop 0
    invariant ok(*self), w0 == *old(w), k == w0.told.len(), w.told.len() == k + it0.index@, w.told.take(k) =~= w0.told, *w == (World { told: w.told, ..w0 }),
        forall|n: NodeId| #[trigger] self.managers@.contains_key(n) ==> exists|i: int| 0 <= i < it0.seq().len() && *(#[trigger] it0.seq()[i]) == self.managers@[n],
        forall|i: int| 0 <= i < it0.seq().len() ==> self.managers@.contains_key((#[trigger] it0.seq()[i]).node) && *it0.seq()[i] == self.managers@[it0.seq()[i].node],
        forall|i: int, j: int| 0 <= i < j < it0.seq().len() ==> (#[trigger] it0.seq()[i]).node != (#[trigger] it0.seq()[j]).node,
        forall|i: int| k <= i < w.told.len() ==> (#[trigger] w.told[i]).0 == it0.seq()[i - k].node && w.told[i].1 == it0.seq()[i - k].id && w.told[i].2 == message.tell(),
        it0.index@ == it0.seq().len() ==> tells_all(*self, message.tell(), w0, *w),
//@loopend 0
    proof {
        assert(w.told.take(k) =~= w0.told);
        assert forall|n: NodeId| #[trigger] self.managers@.contains_key(n) && it0.index@ + 1 == it0.seq().len() implies exists|i: int| k <= i < w.told.len() && (#[trigger] w.told[i]).0 == n by {
            let j = choose|j: int| 0 <= j < it0.seq().len() && *(#[trigger] it0.seq()[j]) == self.managers@[n]; assert(w.told[k + j].0 == n);
        }
    }
//@end
//@fn T Manager::start_actor world
    ensures *final(self) == *old(self), makes(*old(self), *old(w), *final(w)),
//@end
//@fn L Manager::on_all_managers_acknowledged world
    ensures *final(self) == *old(self), makes(*old(self), *old(w), *final(w)),
//@end
//@fn L Manager::request_lease world canary=start
    requires ok(*old(self)),
    ensures *final(self) == *old(self), if known(*old(self)) =~= Set::empty() { makes(*old(self), *old(w), *final(w)) } else { tells_all(*old(self), Tell::Request(old(self).node_id), *old(w), *final(w)) },
//@end
//@fn M Manager::begin_starting world
    requires ok(*old(self)),
    ensures ok(*final(self)), asks(*old(self), *final(self), *old(w), *final(w)),
//@end
/// A lease that is asked for while the manager joins is granted when it has; otherwise at once.
//@fn L Manager::grant_lease world
    requires ok(*old(self)),
    ensures ok(*final(self)),
        if old(self).state is Joining { same_but_state(*old(self), *final(self)) && final(self).state == (State::Joining { acknowledgement_pending: Some(node_id) }) && *final(w) == *old(w) }
        else { *final(self) == *old(self) && tells(*old(self), node_id, Tell::Ack(old(self).node_id), *old(w), *final(w)) },
//@end
/// A singleton that runs is told to stop; the proxies of all nodes are told. The lease is not granted yet.
//@fn M Manager::begin_stopping world
    requires ok(*old(self)),
    ensures ok(*final(self)), match old(self).state {
        State::Running { actor_ref } => stopping(*old(self), *final(self), actor_ref, node_id, *old(w), *final(w)),
        State::Stopping { actor_ref, .. } => stopping(*old(self), *final(self), actor_ref, node_id, *old(w), *final(w)),
        _ => *final(self) == *old(self) && *final(w) == *old(w) },
//@end
pub open spec fn stopping(m: Manager, m1: Manager, a: Single, by: NodeId, w0: World, w1: World) -> bool {
    &&& same_but_state(m, m1) && m1.state == (State::Stopping { actor_ref: a, lease_requested_by: by })
    &&& tells_all(m, Tell::Stopped(m.node_id), World { stops: w0.stops.push(a), proxy: w0.proxy.push(Px::Stopping), ..w0 }, w1)
}
//@fn M Manager::on_leader_changed world
    requires ok(*old(self)),
    ensures ok(*final(self)),
        if new_leader_id == old(self).node_id && !(old(self).state is Running || old(self).state is Starting) { asks(*old(self), *final(self), *old(w), *final(w)) } else { *final(self) == *old(self) && *final(w) == *old(w) },
//@end
/// The singleton is made once every manager that is known has acknowledged, and not before.
pub open spec fn acks(m: Manager, m1: Manager, n: NodeId, w0: World, w1: World) -> bool {
    if m.state is Starting && m.managers@.contains_key(n) {
        &&& same_but_state(m, m1) && m1.state is Starting && m1.state->acknowledged_nodes@ =~= m.state->acknowledged_nodes@.insert(n)
        &&& if m1.state->acknowledged_nodes@ =~= known(m) { makes(m, w0, w1) } else { w1 == w0 }
    } else { m1 == m && w1 == w0 }
}
//@fn L Manager::on_lease_ack world canary=start
    requires ok(*old(self)),
    ensures ok(*final(self)), acks(*old(self), *final(self), node_id, *old(w), *final(w)),
//@start
    proof { if self.state is Starting { vstd::set_lib::lemma_len_subset(self.state->acknowledged_nodes@, known(*self)); lemma_full(self.state->acknowledged_nodes@.insert(node_id), known(*self)); } }
//@end
pub proof fn lemma_full(a: Set<NodeId>, b: Set<NodeId>)
    ensures a.subset_of(b) ==> ((a.len() == b.len()) == (a =~= b)),
{ if a.subset_of(b) && a.len() == b.len() { vstd::set_lib::lemma_subset_equality(a, b); } }
//@fn L Handler<LeaseAck>@Manager::handle as=handle_ack world
    requires ok(*old(self)),
    ensures ok(*final(self)), acks(*old(self), *final(self), message.source_node_id, *old(w), *final(w)),
//@end
/// The lease is granted at once only if no singleton runs, starts or stops here.
//@fn L Handler<RequestLease>@Manager::handle as=handle_request world
    requires ok(*old(self)),
    ensures ok(*final(self)), match old(self).state {
        State::Joining { .. } => same_but_state(*old(self), *final(self)) && final(self).state == (State::Joining { acknowledgement_pending: Some(message.source_node_id) }) && *final(w) == *old(w),
        State::Idle => *final(self) == *old(self) && tells(*old(self), message.source_node_id, Tell::Ack(old(self).node_id), *old(w), *final(w)),
        State::Starting { .. } => *final(self) == *old(self) && *final(w) == *old(w),
        State::Running { actor_ref } => stopping(*old(self), *final(self), actor_ref, message.source_node_id, *old(w), *final(w)),
        State::Stopping { actor_ref, .. } => same_but_state(*old(self), *final(self)) && final(self).state == (State::Stopping { actor_ref, lease_requested_by: message.source_node_id }) && *final(w) == *old(w) },
//@end
pub struct ActorTerminated { pub a: Single }
impl ActorTerminated { pub fn actor_ref(&self) -> (r: &Single) ensures *r == self.a { &self.a } }
impl Single { pub fn actor_id(&self) -> (r: &ActorId) ensures *r == self.id { &self.id } }
/// The lease is granted when the singleton has stopped.
//@fn M Handler<ActorTerminated>@Manager::handle as=handle_terminated world canary=start
    requires ok(*old(self)),
    ensures ok(*final(self)),
        if old(self).state is Stopping && message.a.id == old(self).singleton_actor_id {
            same_but_state(*old(self), *final(self)) && final(self).state is Idle && tells(*old(self), old(self).state->lease_requested_by, Tell::Ack(old(self).node_id), *old(w), *final(w))
        } else { *final(self) == *old(self) && *final(w) == *old(w) },
//@end
/// A singleton that was started is watched, and the proxies of all nodes are told of it.
//@fn T Handler<ActorStartResult<F::Actor>>@Manager::handle as=handle_result world
    requires ok(*old(self)),
    ensures ok(*final(self)), match message {
        ActorStartResult::Started(a) => same_but_state(*old(self), *final(self)) && final(self).state == (State::Running { actor_ref: a })
            && tells_all(*old(self), Tell::Started(old(self).node_id), World { watched: old(w).watched.push(a), proxy: old(w).proxy.push(Px::Started(a)), ..*old(w) }, *final(w)),
        ActorStartResult::Failed(_) => *final(self) == *old(self) && *final(w) == *old(w) },
//@end
//@fn M Handler<SingletonStarted>@Manager::handle as=handle_started world
    ensures *final(self) == *old(self), final(w).proxy.len() == old(w).proxy.len() + 1, final(w).proxy.drop_last() =~= old(w).proxy,
        final(w).proxy.last() is Started, final(w).proxy.last()->Started_0.id == old(self).singleton_actor_id, final(w).proxy.last()->Started_0.node == Some(message.source_node_id), *final(w) == (World { proxy: final(w).proxy, ..*old(w) }),
//@end
//@fn M Handler<SingletonStopped>@Manager::handle as=handle_stopped world
    ensures *final(self) == *old(self), *final(w) == (World { proxy: old(w).proxy.push(Px::Stopping), ..*old(w) }),
//@end
//@struct Y ClusterMemberUp
//@enum Y ClusterEvent
//@enum Y SystemEvent
pub open spec fn joins(m: Manager, n: RemoteNodeRef) -> bool { n.id != m.node_id && selected(m.selector, n) }
/// The managers it knows after it was told of these nodes.
pub open spec fn learns(m: Manager, ns: Seq<RemoteNodeRef>, ms: Set<NodeId>) -> bool {
    &&& forall|i: int| 0 <= i < ns.len() && joins(m, #[trigger] ns[i]) ==> ms.contains(ns[i].id)
    &&& forall|n: NodeId| known(m).contains(n) ==> #[trigger] ms.contains(n)
    &&& forall|n: NodeId| #[trigger] ms.contains(n) ==> known(m).contains(n) || exists|i: int| 0 <= i < ns.len() && joins(m, #[trigger] ns[i]) && ns[i].id == n
}
/// The cluster is up: a lease that was asked for meanwhile is granted; the leader asks for the lease itself.
pub open spec fn up(m: Manager, m1: Manager, leader: NodeId, ns: Seq<RemoteNodeRef>, w0: World, w1: World) -> bool {
    let ma = Manager { managers: m1.managers, state: State::Idle, ..m };
    let wa = match m.state { State::Joining { acknowledgement_pending: Some(n) } => tell(ma, n, Tell::Ack(m.node_id), w0), _ => w0 };
    &&& learns(m, ns, known(m1))
    &&& if leader == m.node_id { asks(ma, m1, wa, w1) } else { m1 == ma && w1 == wa }
}
/// A node that joins while the lease is asked for is asked too; one that joins while the singleton runs is told of it.
pub open spec fn added(m: Manager, m1: Manager, n: RemoteNodeRef, w0: World, w1: World) -> bool {
    if joins(m, n) && !m.managers@.contains_key(n.id) {
        &&& m1 == (Manager { managers: m1.managers, ..m }) && m1.managers@ =~= m.managers@.insert(n.id, ManagerRef { id: manager_id(m.manager_actor_id, n.id), node: n.id })
        &&& m.state is Starting ==> may_tell(m1, n.id, Tell::Request(m.node_id), w0, w1)
        &&& m.state is Running ==> may_tell(m1, n.id, Tell::Started(m.node_id), w0, w1)
        &&& !(m.state is Starting || m.state is Running) ==> w1 == w0
    } else { m1 == (Manager { managers: m1.managers, ..m }) && m1.managers@ =~= m.managers@ && w1 == w0 }
}
/// (this is sent once, and not again if it could not be sent)
pub open spec fn may_tell(m: Manager, n: NodeId, t: Tell, w0: World, w1: World) -> bool { tells(m, n, t, w0, w1) || (w1 == w0 && unsent(n, t)) }
pub uninterp spec fn unsent(n: NodeId, t: Tell) -> bool;
/// A node that left need not acknowledge, and what it acknowledged does not count.
pub open spec fn removed(m: Manager, m1: Manager, n: NodeId, w0: World, w1: World) -> bool {
    &&& m1 == (Manager { managers: m1.managers, state: m1.state, ..m }) && m1.managers@ =~= m.managers@.remove(n)
    &&& if m.state is Starting {
            &&& m1.state is Starting && m1.state->acknowledged_nodes@ =~= m.state->acknowledged_nodes@.remove(n)
            &&& if m1.state->acknowledged_nodes@ =~= known(m1) { makes(m, w0, w1) } else { w1 == w0 }
        } else { m1.state == m.state && w1 == w0 }
}
//@fn M Handler<Receive<SystemTopic>>@Manager::handle as=handle_system world sig="pub fn handle_system(&mut self, message: &SystemEvent, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>)"
//@rw message . 0 . as_ref ( ) ==> message
//@rw leader == & self . node_id ==> * leader == self . node_id
    requires ok(*old(self)),
    ensures ok(*final(self)),
        ({ let e = message->Cluster_0; e is MemberUp ==> up(*old(self), *final(self), e->MemberUp_0.leader_id, e->MemberUp_0.nodes@, *old(w), *final(w)) }),
        ({ let e = message->Cluster_0; e is LeaderChanged ==> if e->LeaderChanged_0 == old(self).node_id && (old(self).state is Idle || old(self).state is Stopping) { asks(*old(self), *final(self), *old(w), *final(w)) } else { *final(self) == *old(self) && *final(w) == *old(w) } }),
        ({ let e = message->Cluster_0; e is NodeAdded ==> added(*old(self), *final(self), e->NodeAdded_0, *old(w), *final(w)) }),
        ({ let e = message->Cluster_0; e is NodeRemoved ==> removed(*old(self), *final(self), e->NodeRemoved_0.id, *old(w), *final(w)) }),
//@start
    proof { let e = message->Cluster_0; if self.state is Starting && e is NodeRemoved { lemma_full(self.state->acknowledged_nodes@.remove(e->NodeRemoved_0.id), known(*self).remove(e->NodeRemoved_0.id)); assert(self.managers@.remove(e->NodeRemoved_0.id).dom() =~= known(*self).remove(e->NodeRemoved_0.id)); } }
//@loop 0
    invariant ok(*self), *self == (Manager { managers: self.managers, ..*old(self) }), *w == *old(w), it0.seq().len() == nodes@.len(), forall|i: int| 0 <= i < nodes@.len() ==> *(#[trigger] it0.seq()[i]) == nodes@[i], learns(*old(self), nodes@.take(it0.index@), known(*self)), it0.index@ == nodes@.len() ==> learns(*old(self), nodes@, known(*self)),
//@loopstart 0
    proof { assert(nodes@.take(it0.index@ + 1).drop_last() =~= nodes@.take(it0.index@)); assert(nodes@.take(it0.index@ + 1).last() == nodes@[it0.index@]); assert(nodes@.take(nodes@.len() as int) =~= nodes@); }
//@end

// ------------------------------------------------------------------ the proxy
#[derive(Clone, Copy)]
pub struct Msg { pub x: u64 }
pub type Res = Result<u64, ActorRefErr>;
pub struct Channel { pub x: u64 }
pub struct Answer { pub x: u64 }
pub uninterp spec fn result_of(a: Single, m: Msg) -> Res;
impl Channel {
    #[verifier::external_body]
    pub fn send(self, r: Res, Tracked(w): Tracked<&mut World>) -> (x: Result<(), Res>) ensures *final(w) == (World { answered: old(w).answered.push((self, r)), ..*old(w) }) { unimplemented!() }
}
//@struct D Deliver
//@fn D Deliver::new impl=none as=new_deliver sig="pub fn new_deliver(message: Msg, result_channel: Option<Channel>) -> (r: Deliver)"
//@rw Self ==> Deliver
    ensures r == (Deliver { message: Some(message), result_channel }),
//@end
pub uninterp spec fn answer_on(c: u64) -> Res;
#[verifier::external_body]
pub fn vanswer() -> (r: (Channel, Answer)) ensures r.0.x == r.1.x { unimplemented!() }
impl Answer {
    /// Assumed (tokio's oneshot): what is sent on the channel.
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: Res) ensures r == answer_on(self.x) { unimplemented!() }
}
impl ProxyRef {
    #[verifier::external_body]
    pub fn give(&self, d: Deliver, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        ensures r is Ok ==> *final(w) == (World { asked: old(w).asked.push(d), ..*old(w) }), r is Err ==> *final(w) == *old(w) { unimplemented!() }
}
pub struct Singleton { pub proxy: ProxyRef }
/// The message is given to the proxy once, and the answer is what is sent on the channel that goes with it.
//@fn G Singleton::send world impl=none as=singleton_send sig="pub fn singleton_send(this: &Singleton, message: Msg, Tracked(w): Tracked<&mut World>) -> (r: Res)"
//@rw self ==> this
//@rw this . proxy . notify ( $x... ) ==> this . proxy . give ( $x... )
//@rw Deliver :: new ==> new_deliver
//@rw oneshot :: channel ( ) ==> vanswer ( )
    ensures (*final(w) == *old(w) && r is Err) || ({ let d = final(w).asked.last(); &&& *final(w) == (World { asked: old(w).asked.push(d), ..*old(w) })
        &&& d.message == Some(message) && d.result_channel is Some && r == answer_on(d.result_channel->0.x) }),
//@end
//@fn G Singleton::notify world impl=none as=singleton_notify sig="pub fn singleton_notify(this: &Singleton, message: Msg, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)"
//@rw self ==> this
//@rw this . proxy . notify ( $x... ) ==> this . proxy . give ( $x... )
//@rw Deliver :: new ==> new_deliver
    ensures r is Ok ==> *final(w) == (World { asked: old(w).asked.push(asked(message, None)), ..*old(w) }), r is Err ==> *final(w) == *old(w),
//@end
pub open spec fn asked(m: Msg, c: Option<Channel>) -> Deliver { Deliver { message: Some(m), result_channel: c } }
//@enum P ProxyState
//@struct P Proxy
/// The message is given to the singleton once, and whoever waits is given what it returned.
pub open spec fn delivers(d: Deliver, a: Single, w0: World) -> World {
    World { given: w0.given.push((a, d.message->0)), answered: (match d.result_channel { Some(c) => w0.answered.push((c, result_of(a, d.message->0))), None => w0.answered }), ..w0 }
}
pub open spec fn delivers_all(q: Seq<Deliver>, a: Single, w0: World) -> World decreases q.len()
{ if q.len() == 0 { w0 } else { delivers(q.last(), a, delivers_all(q.drop_last(), a, w0)) } }
pub open spec fn queue(p: Proxy) -> Seq<Deliver> { match p.state { ProxyState::Buffered { request_queue } => request_queue@, _ => Seq::empty() } }
/// What is kept has not been given away yet.
pub open spec fn kept_ok(p: Proxy) -> bool { forall|i: int| 0 <= i < queue(p).len() ==> (#[trigger] queue(p)[i]).message is Some }
//@fn D Deliver::deliver world generics="" sig="pub fn deliver(&mut self, actor: Single, Tracked(w): Tracked<&mut World>)"
    requires old(self).message is Some,
    ensures *final(w) == delivers(*old(self), actor, *old(w)), final(self).message is None,
//@end
//@fn D Buffered<A>@Deliver::send as=buffered_send world impl=none sig="pub fn buffered_send(this: &mut Deliver, actor_ref: Single, Tracked(w): Tracked<&mut World>)"
//@rw self ==> this
    requires old(this).message is Some,
    ensures *final(w) == delivers(*old(this), actor_ref, *old(w)),
//@end
//@fn P ProxyState::is_active
//@rw & ProxyState :: Active ==> ProxyState :: Active
//@rw & self , ==> self ,
    ensures r == (*self is Active),
//@end
//@fn P Proxy::new
    ensures r.state is Buffered, queue(r).len() == 0,
//@end
//@fn D Handler<Deliver<M>>@Proxy::handle as=handle_deliver world impl=none sig="pub fn handle_deliver(this: &mut Proxy, message: Deliver, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>)"
//@rw self ==> this
    requires kept_ok(*old(this)), message.message is Some,
    ensures kept_ok(*final(this)), match old(this).state {
        ProxyState::Buffered { .. } => final(this).state is Buffered && queue(*final(this)) =~= queue(*old(this)).push(message) && *final(w) == *old(w),
        ProxyState::Active { actor_ref } => final(this).state == old(this).state && *final(w) == delivers(message, actor_ref, *old(w)) },
//@start
    let mut message = message;
//@end
pub struct SingletonStopping;
pub struct ProxyStarted { pub actor_ref: Single }
//@fn P Handler<SingletonStarted<A>>@Proxy::handle as=handle_proxy_started world sig="pub fn handle_proxy_started(&mut self, message: ProxyStarted, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>)"
//@rw buffered . send ( $x... ) ==> buffered_send ( & mut buffered , $x... )
    requires kept_ok(*old(self)),
    ensures kept_ok(*final(self)), final(self).state == (ProxyState::Active { actor_ref: message.actor_ref }), *final(w) == delivers_all(queue(*old(self)), message.actor_ref, *old(w)),
//@before 0
    let ghost q = request_queue@; let ghost mut k: int = 0; let ghost w0 = *w;
    proof { assert(q.skip(0) =~= q); assert(q.take(0) =~= Seq::<Deliver>::empty()); }
//@loop 0
    invariant 0 <= k <= q.len(), request_queue@ =~= q.skip(k), *w == delivers_all(q.take(k), actor_ref, w0), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).message is Some,
    ensures *w == delivers_all(q, actor_ref, w0)
    decreases request_queue@.len()
//@loopstart 0
    proof { assert(q.skip(k).skip(1) =~= q.skip(k + 1)); assert(q.take(k + 1).drop_last() =~= q.take(k)); assert(q.take(k + 1).last() == q[k]); k = k + 1; }
//@after 0
    proof { assert(q.take(q.len() as int) =~= q); }
//@end
//@fn P Handler<SingletonStopping>@Proxy::handle as=handle_proxy_stopping sig="pub fn handle_proxy_stopping(&mut self, message: SingletonStopping, ctx: &mut ActorContext)"
    requires kept_ok(*old(self)),
    ensures kept_ok(*final(self)), final(self).state is Buffered, queue(*final(self)) =~= queue(*old(self)),
//@end
} // verus!
fn main() {}
