//@include head.inc
verus! {
//@include std.inc
//@file P coerce/src/remote/stream/pubsub.rs
//@file M coerce/src/remote/stream/mediator/mod.rs
//@file Y coerce/src/remote/stream/system.rs
//@file S coerce/src/remote/net/server/session/mod.rs
//@# texts are opaque values; a message of a topic is an opaque value with its type; a channel of tokio is a log of what was sent on it
//@rw . to_string ( ) ==> . vowned ( )
//@rw String ==> u64
//@rw & str ==> & u64
//@rw T :: Message :: read_from_bytes ( $x... ) ==> vread ( T :: mty_of ( ) , $x... )
//@rw . downcast :: < T :: Message > ( ) ==> . vdowncast ( T :: mty_of ( ) )
//@rw Arc < dyn Any + Sync + Send > ==> Arc < Msg >
//@rw T :: Message ==> Msg
//@rw broadcast :: Sender < Receive < T > > ==> BSender
//@rw broadcast :: Receiver < Receive < T > > ==> BReceiver
//@rw broadcast :: channel ( $n... ) ==> vchannel ( Tracked ( & mut * w ) )
//@rw tokio :: spawn ( async move { $b... } ) ==> { $b... ; JoinHandle { id : 0 } }
//@rw JoinHandle < ( ) > ==> JoinHandle
//@rw this . nodes . viter ( ) . copied ( ) . collect ( ) ==> vlist ( & this . nodes )
//@rw this . nodes . viter ( ) . cloned ( ) . collect ( ) ==> vlist ( & this . nodes )
//@rw Arc :: < StreamPublishEvent > :: try_unwrap ( $x ) ==> vtry_unwrap ( $x )
//@rw Arc :: try_unwrap ( $x ) ==> vtry_unwrap ( $x )
//@rw Box :: new ( $x ) ==> $x . vbox ( )
//@rw . 0 . emit ( $x... ) ==> . 0 . vemit ( $x... )
//@rw . 0 . emit_serialised ( $x... ) ==> . 0 . vemit_serialised ( $x... )
//@rw Box < dyn TopicEmitter > ==> Emitter
//@effect subscribe,receiver,recv,notify,notify_raw,abort,unsubscribe,broadcast,vemit,vemit_serialised,emit,emit_serialised,notify_node,send,send_publish,send_subscribe,new_subscription
//@noinline new,subscribe,vowned,vread,vdowncast
pub type NodeId = u64;
pub struct ActorContext { pub x: u64 }
#[derive(Clone, Copy)]
pub struct Msg { pub ty: u64, pub v: u64 }
pub uninterp spec fn bytes_of(m: Msg) -> Option<Seq<u8>>;
pub uninterp spec fn read_as(ty: u64, b: Seq<u8>) -> Option<Msg>;
impl Msg {
    #[verifier::external_body]
    pub fn write_to_bytes(&self) -> (r: Option<Vec<u8>>) ensures (r is Some) == (bytes_of(*self) is Some), r is Some ==> r->0@ == bytes_of(*self)->0 { unimplemented!() }
}
#[verifier::external_body]
pub fn vread(ty: u64, b: Vec<u8>) -> (r: Option<Msg>) ensures r == read_as(ty, b@) { unimplemented!() }
pub trait VDowncast { fn vdowncast(self, ty: u64) -> (r: Result<Arc<Msg>, Arc<Msg>>); }
impl VDowncast for Arc<Msg> {
    #[verifier::external_body]
    fn vdowncast(self, ty: u64) -> (r: Result<Arc<Msg>, Arc<Msg>>) ensures r == (if self.ty == ty { Ok::<Arc<Msg>, Arc<Msg>>(self) } else { Err::<Arc<Msg>, Arc<Msg>>(self) }) { unimplemented!() }
}
pub trait VOwned { fn vowned(&self) -> (r: u64); }
impl VOwned for u64 { fn vowned(&self) -> (r: u64) ensures r == *self { *self } }
/// A topic: its type, its name, the type of its messages (all of the type), and the key (of the value).
pub trait Topic: Sized {
    spec fn ty() -> u64;
    spec fn mty() -> u64;
    spec fn name() -> u64;
    spec fn skey(&self) -> u64;
    fn topic_name() -> (r: &'static u64) ensures *r == Self::name();
    fn mty_of() -> (r: u64) ensures r == Self::mty();
    fn key(&self) -> (r: u64) ensures r == self.skey();
}
pub struct LocalActorRef<A> { pub id: u64, pub p: PhantomData<A> }
pub ghost struct World {
    /// what was sent on each channel so far
    pub chans: Map<u64, Seq<Msg>>,
    /// what subscribers were handed, by subscription
    pub told: Seq<(u64, Msg)>,
    /// actors that have stopped
    pub gone: Set<u64>,
    pub aborted: Seq<JoinHandle>,
    /// what was given to other nodes
    pub wrote: Seq<(NodeId, StreamPublishEvent)>,
    /// what was given to the mediator of this node
    pub raw: Seq<PublishRaw>,
    pub asked: Seq<(Msg, u64, u64, Reach)>,
}
pub struct JoinHandle { pub id: u64 }
impl JoinHandle {
    #[verifier::external_body]
    pub fn abort(&self, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { aborted: old(w).aborted.push(*self), ..*old(w) }) { unimplemented!() }
}
pub struct SpecialFields { pub x: u64 }
pub struct StreamPublishEvent { pub topic: u64, pub key: u64, pub message: Vec<u8>, pub trace_id: u64, pub special_fields: SpecialFields }
impl Default for StreamPublishEvent {
    #[verifier::external_body]
    fn default() -> Self { unimplemented!() }
}
pub enum SessionEvent { StreamPublish(Arc<StreamPublishEvent>) }
#[derive(Clone, Copy)]
pub struct RemoteActorSystem { pub id: u64 }
pub uninterp spec fn this_node() -> NodeId;
impl RemoteActorSystem {
    #[verifier::external_body]
    pub fn node_id(&self) -> (r: NodeId) ensures r == this_node() { unimplemented!() }
    /// Assumed: the event is given to the client of that node (C13).
    #[verifier::external_body]
    pub fn notify_node(&self, n: NodeId, e: SessionEvent, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { wrote: old(w).wrote.push((n, *e->StreamPublish_0)), ..*old(w) }) { unimplemented!() }
    pub uninterp spec fn has_mediator(&self) -> bool;
    #[verifier::external_body]
    pub fn stream_mediator(&self) -> (r: Option<MediatorRef>) ensures r is Some == self.has_mediator() { unimplemented!() }
}
pub struct RemoteNodeRef { pub id: NodeId, pub x: u64 }
pub struct ClusterMemberUp { pub x: u64 }
//@enum Y SystemEvent
//@enum Y ClusterEvent
//@enum M SubscribeErr attr=#[derive(Debug)]
//@enum M PublishErr
//@enum M Reach
pub struct Publish<T: Topic> { pub topic: T, pub message: Msg, pub reach: Reach }
//@struct M PublishRaw
pub struct Receive(pub Arc<Msg>);

// ------------------------------------------------------------------ channels
pub struct BSender { pub ch: u64 }
/// What a receiver will get: the messages sent from the point on where it was made (or notices that some were missed), until the channel is closed.
pub struct BReceiver { pub ch: u64, pub from: Ghost<nat>, pub coming: Ghost<Seq<Result<Msg, RecvError>>> }
pub enum RecvError { Closed, Lagged(u64) }
#[verifier::external_body]
pub fn vchannel(Tracked(w): Tracked<&mut World>) -> (r: (BSender, BReceiver))
    ensures !old(w).chans.contains_key(r.0.ch), r.1.ch == r.0.ch, r.1.from@ == 0, *final(w) == (World { chans: old(w).chans.insert(r.0.ch, Seq::empty()), ..*old(w) }) { unimplemented!() }
impl BSender {
    #[verifier::external_body]
    pub fn subscribe(&self, Tracked(w): Tracked<&mut World>) -> (r: BReceiver) ensures r.ch == self.ch, r.from@ == old(w).chans[self.ch].len(), *final(w) == *old(w) { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&self, m: Receive, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, u64>)
        ensures *final(w) == (World { chans: old(w).chans.insert(self.ch, old(w).chans[self.ch].push(*m.0)), ..*old(w) }) { unimplemented!() }
}
impl BReceiver {
    /// Assumed (tokio's broadcast): what is coming, one after the other, then Closed.
    #[verifier::external_body]
    pub fn recv(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<Receive, RecvError>)
        ensures *final(w) == *old(w), final(self).ch == old(self).ch, final(self).from == old(self).from,
            old(self).coming@.len() == 0 ==> r == Err::<Receive, RecvError>(RecvError::Closed) && final(self).coming == old(self).coming,
            old(self).coming@.len() > 0 ==> final(self).coming@ == old(self).coming@.skip(1) && match old(self).coming@[0] { Ok(m) => r is Ok && *r->Ok_0.0 == m, Err(e) => r == Err::<Receive, RecvError>(e) },
    { unimplemented!() }
}
impl<A> LocalActorRef<A> {
    #[verifier::external_body]
    pub fn actor_id(&self) -> (r: &u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify(&self, m: Receive, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>)
        ensures r is Ok ==> *final(w) == (World { told: old(w).told.push((self.id, *m.0)), ..*old(w) }),
            r is Err ==> *final(w) == (World { gone: old(w).gone.insert(self.id), ..*old(w) }), { unimplemented!() }
}
/// The messages among what is coming.
pub open spec fn oks(s: Seq<Result<Msg, RecvError>>) -> Seq<Msg> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last() is Ok { oks(s.drop_last()).push(s.last()->Ok_0) } else { oks(s.drop_last()) } }
pub open spec fn to(a: u64, ms: Seq<Msg>) -> Seq<(u64, Msg)> { Seq::new(ms.len(), |i: int| (a, ms[i])) }
/// The subscriber is handed every message that is coming, in order and once, until the channel closes or it has stopped;
/// that some were missed ends nothing.
pub open spec fn forwarded(a: u64, coming: Seq<Result<Msg, RecvError>>, w0: World, w1: World) -> bool {
    exists|k: int| 0 <= k <= coming.len() && w1.told =~= w0.told + to(a, #[trigger] oks(coming.take(k))) && (k == coming.len() || (k > 0 && coming[k - 1] == Err::<Msg, RecvError>(RecvError::Closed)) || w1.gone.contains(a))
}
pub struct Subscription { pub task_handle: Option<JoinHandle> }
//@fn P Subscription::new world generics="<A, T: Topic>" sig="pub fn new<A, T: Topic>(topic_receiver: BReceiver, receiver_ref: LocalActorRef<A>, Tracked(w): Tracked<&mut World>) -> (r: Subscription)"
    ensures r.task_handle is Some, forwarded(receiver_ref.id, topic_receiver.coming@, *old(w), *final(w)),
        final(w).chans == old(w).chans, final(w).wrote == old(w).wrote, final(w).aborted == old(w).aborted, final(w).raw == old(w).raw, final(w).asked == old(w).asked,
//@start
    let ghost coming = topic_receiver.coming@; let ghost a = receiver_ref.id; let ghost mut k: int = 0;
    proof { assert(coming.skip(0) =~= coming); assert(w.told =~= w.told + to(a, oks(coming.take(0)))); }
//@loop 0
    invariant_except_break 0 <= k <= coming.len(), stream_receiver.coming@ == coming.skip(k), w.told =~= old(w).told + to(a, oks(coming.take(k))),
    invariant a == receiver_ref.id, w.chans == old(w).chans, w.wrote == old(w).wrote, w.aborted == old(w).aborted, w.raw == old(w).raw, w.asked == old(w).asked,
    ensures forwarded(a, coming, *old(w), *w)
//@loopstart 0
    proof {
        if k < coming.len() {
            assert(coming.take(k + 1).drop_last() =~= coming.take(k)); assert(coming.take(k + 1).last() == coming[k]); assert(coming.skip(k).skip(1) =~= coming.skip(k + 1)); assert(coming.skip(k)[0] == coming[k]);
            if coming[k] is Ok { assert(to(a, oks(coming.take(k + 1))) =~= to(a, oks(coming.take(k))).push((a, coming[k]->Ok_0))); }
            k = k + 1;
        }
    }
//@end
//@fn P Subscription::unsubscribe world
    ensures final(self).task_handle is None, final(w).aborted == (match old(self).task_handle { Some(h) => old(w).aborted.push(h), None => old(w).aborted }),
        *final(w) == (World { aborted: final(w).aborted, ..*old(w) }),
//@end
//@fn P Drop@Subscription::drop world as=vdrop impl=none sig="pub fn vdrop(this: &mut Subscription, Tracked(w): Tracked<&mut World>)"
//@rw self ==> this
    ensures final(this).task_handle is None, final(w).aborted == (match old(this).task_handle { Some(h) => old(w).aborted.push(h), None => old(w).aborted }),
        *final(w) == (World { aborted: final(w).aborted, ..*old(w) }),
//@end

// ------------------------------------------------------------------ the subscribers of a topic
/// A topic as the mediator keeps it: its type, the type of its messages, a channel for each key that was ever subscribed to.
pub ghost struct Kept { pub ty: u64, pub mty: u64, pub chans: Map<u64, u64> }
#[verifier::reject_recursive_types(T)]
pub struct TopicSubscriberStore<T: Topic> { pub channels: HashMap<u64, BSender>, pub p: PhantomData<T> }
impl<T: Topic> View for TopicSubscriberStore<T> {
    type V = Kept;
    open spec fn view(&self) -> Kept { Kept { ty: T::ty(), mty: T::mty(), chans: self.channels@.map_values(|b: BSender| b.ch) } }
}
/// Every key has its own channel, and the channels exist.
pub open spec fn kept_ok(s: Kept, w: World) -> bool {
    &&& forall|k: u64| #[trigger] s.chans.contains_key(k) ==> w.chans.contains_key(s.chans[k])
    &&& forall|j: u64, k: u64| #![trigger s.chans[j], s.chans[k]] s.chans.contains_key(j) && s.chans.contains_key(k) && j != k ==> s.chans[j] != s.chans[k]
}
/// A message for a key goes to the channel of that key, once, and to no other.
pub open spec fn sent(s: Kept, key: u64, m: Msg, w0: World) -> World {
    if s.chans.contains_key(key) { World { chans: w0.chans.insert(s.chans[key], w0.chans[s.chans[key]].push(m)), ..w0 } } else { w0 }
}
/// A message of another type than the topic's is not sent.
pub open spec fn emitted(s: Kept, key: u64, m: Msg, w0: World) -> World { if m.ty == s.mty { sent(s, key, m, w0) } else { w0 } }
/// What another node sent is sent if it can be read.
pub open spec fn emitted_raw(s: Kept, key: u64, b: Seq<u8>, w0: World) -> World { match read_as(s.mty, b) { Some(m) => sent(s, key, m, w0), None => w0 } }
/// Whoever subscribes gets a receiver of the channel of his key, from now on; no other key or channel is affected.
pub open spec fn joined(s0: Kept, s1: Kept, key: u64, r: BReceiver, w0: World, w1: World) -> bool {
    &&& s1.chans.contains_key(key) && r.ch == s1.chans[key] && s1.ty == s0.ty && s1.mty == s0.mty
    &&& if s0.chans.contains_key(key) { s1.chans =~= s0.chans && w1 == w0 && r.from@ == w0.chans[r.ch].len() }
        else { s1.chans =~= s0.chans.insert(key, r.ch) && !w0.chans.contains_key(r.ch) && w1 == (World { chans: w0.chans.insert(r.ch, Seq::empty()), ..w0 }) && r.from@ == 0 }
}
//@fn P TopicSubscriberStore::new generics="<T: Topic>" impl=none as=new_store sig="pub fn new_store<T: Topic>() -> (r: TopicSubscriberStore<T>)"
//@rw Self { channels : Default :: default ( ) , } ==> TopicSubscriberStore { channels : HashMap :: new ( ) , p : PhantomData }
//@rw Self { channels : HashMap :: new ( ) , } ==> TopicSubscriberStore { channels : HashMap :: new ( ) , p : PhantomData }
    ensures r@ == (Kept { ty: T::ty(), mty: T::mty(), chans: Map::empty() }),
//@tail
    proof { assert forall|t: TopicSubscriberStore<T>| t.channels@ == Map::<u64, BSender>::empty() implies #[trigger] t@ == (Kept { ty: T::ty(), mty: T::mty(), chans: Map::empty() }) by { assert(t@.chans =~= Map::empty()); } }
//@end
//@fn P TopicSubscriberStore::receiver world
    requires kept_ok(old(self)@, *old(w)),
    ensures joined(old(self)@, final(self)@, *key, r, *old(w), *final(w)), kept_ok(final(self)@, *final(w)),
//@end
//@fn P TopicSubscriberStore::broadcast world
    ensures *final(w) == sent(self@, *key, *msg, *old(w)),
//@end
//@fn P TopicEmitter@TopicSubscriberStore::emit world
    ensures *final(w) == emitted(self@, *key, *msg, *old(w)),
//@end
//@fn P TopicEmitter@TopicSubscriberStore::emit_serialised world
    ensures *final(w) == emitted_raw(self@, *key, bytes@, *old(w)),
//@end

// ------------------------------------------------------------------ the mediator
/// A store behind a box. Assumed: the box dispatches to the functions above of the type it was made with, and a downcast gives that type only.
pub struct Emitter { pub kept: Ghost<Kept> }
impl Emitter {
    #[verifier::external_body]
    pub fn vemit(&self, key: &u64, m: Arc<Msg>, Tracked(w): Tracked<&mut World>) ensures *final(w) == emitted(self.kept@, *key, *m, *old(w)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vemit_serialised(&self, key: &u64, b: Vec<u8>, Tracked(w): Tracked<&mut World>) ensures *final(w) == emitted_raw(self.kept@, *key, b@, *old(w)) { unimplemented!() }
}
impl<T: Topic> TopicSubscriberStore<T> {
    #[verifier::external_body]
    pub fn vbox(self) -> (r: Emitter) ensures r.kept@ == self@ { unimplemented!() }
}
pub struct MediatorTopic(pub Emitter);
impl MediatorTopic {
    #[verifier::external_body]
    pub fn subscriber_store_mut<T: Topic>(&mut self) -> (r: Option<&mut TopicSubscriberStore<T>>)
        ensures (r is Some) == (old(self).0.kept@.ty == T::ty()),
            match r { Some(s) => s@ == old(self).0.kept@ && final(self).0.kept@ == final(s)@, None => *final(self) == *old(self) } { unimplemented!() }
}
//@fn M MediatorTopic::new generics="<T: Topic>"
//@rw TopicSubscriberStore :: < T > :: new ( ) ==> new_store :: < T > ( )
    ensures r.0.kept@ == (Kept { ty: T::ty(), mty: T::mty(), chans: Map::empty() }),
//@end
//@struct M StreamMediator
pub type Topics = Map<u64, MediatorTopic>;
pub open spec fn topics_ok(t: Topics, w: World) -> bool {
    &&& forall|n: u64| #[trigger] t.contains_key(n) ==> kept_ok(t[n].0.kept@, w)
    // no two topics share a channel
    &&& forall|m: u64, n: u64, j: u64, k: u64| #![trigger t[m].0.kept@.chans[j], t[n].0.kept@.chans[k]] t.contains_key(m) && t.contains_key(n) && m != n && t[m].0.kept@.chans.contains_key(j) && t[n].0.kept@.chans.contains_key(k)
        ==> t[m].0.kept@.chans[j] != t[n].0.kept@.chans[k]
}
/// The subscriber is handed what is sent on the channel of the topic and key from now on.
pub open spec fn handed<T: Topic>(t0: Topics, t1: Topics, topic: T, a: u64, w0: World, w1: World) -> bool {
    let k0 = if t0.contains_key(T::name()) { t0[T::name()].0.kept@ } else { Kept { ty: T::ty(), mty: T::mty(), chans: Map::empty() } };
    exists|rv: BReceiver, wm: World| joined(k0, t1[T::name()].0.kept@, topic.skey(), rv, w0, wm) && #[trigger] forwarded(a, rv.coming@, wm, w1)
}
//@fn M Reach::remote_publish canary=start
    ensures r == (*self is Cluster),
//@end
//@fn M StreamMediator::remote
    requires self.remote is Some,
    ensures *r == self.remote->0,
//@end
/// The subscription as the mediator makes it: to the topic of that name, unless that is of another type.
pub open spec fn subscribed<T: Topic>(t0: Topics, t1: Topics, topic: T, r: Result<Subscription, SubscribeErr>) -> bool {
    let n = T::name();
    &&& t1.dom() == t0.dom().insert(n)
    &&& forall|k: u64| k != n && t0.contains_key(k) ==> #[trigger] t1[k] == t0[k]
    &&& (r is Ok) == (t0.contains_key(n) ==> t0[n].0.kept@.ty == T::ty())
    &&& t0.contains_key(n) ==> t1[n].0.kept@.ty == t0[n].0.kept@.ty && t1[n].0.kept@.mty == t0[n].0.kept@.mty
    &&& !t0.contains_key(n) ==> t1[n].0.kept@.ty == T::ty() && t1[n].0.kept@.mty == T::mty()
    &&& r is Ok ==> t1[n].0.kept@.chans.contains_key(topic.skey()) && r->Ok_0.task_handle is Some
    &&& r is Err ==> t1[n] == t0[n]
}
//@fn M StreamMediator::subscribe world generics="<A, T: Topic>"
//@rw . subscriber_store_mut ( ) ==> . subscriber_store_mut :: < T > ( )
//@rw Subscription :: new ( $x... ) ==> Subscription :: new :: < A , T > ( $x... , Tracked ( & mut * w ) )
    requires topics_ok(old(self).topics@, *old(w)),
    ensures subscribed(old(self).topics@, final(self).topics@, topic, r), topics_ok(final(self).topics@, *final(w)),
        r is Ok ==> handed(old(self).topics@, final(self).topics@, topic, receiver_ref.id, *old(w), *final(w)), r is Err ==> *final(w) == *old(w),
        final(self).nodes == old(self).nodes, final(self).remote == old(self).remote,
        final(self).system_subscription == old(self).system_subscription,
        final(w).wrote == old(w).wrote, final(w).aborted == old(w).aborted, final(w).raw == old(w).raw,
//@end
pub struct SetRemote(pub RemoteActorSystem);
pub struct SystemTopic;
impl Topic for SystemTopic {
    uninterp spec fn ty() -> u64;
    uninterp spec fn mty() -> u64;
    uninterp spec fn name() -> u64;
    uninterp spec fn skey(&self) -> u64;
    #[verifier::external_body]
    fn topic_name() -> (r: &'static u64) { unimplemented!() }
    #[verifier::external_body]
    fn mty_of() -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    fn key(&self) -> (r: u64) { unimplemented!() }
}
impl StreamMediator {
    #[verifier::external_body]
    pub fn actor_ref(&self, ctx: &mut ActorContext) -> (r: LocalActorRef<StreamMediator>) ensures r.id == mediator_id() { unimplemented!() }
}
pub uninterp spec fn mediator_id() -> u64;
/// The mediator hears of the nodes of the cluster from the moment it knows its system.
//@fn M Handler<SetRemote>@StreamMediator::handle as=handle_remote world
//@rw Heartbeat :: register ( $x... ) ==> ( )
    requires topics_ok(old(self).topics@, *old(w)), old(self).topics@.contains_key(SystemTopic::name()) ==> old(self).topics@[SystemTopic::name()].0.kept@.ty == SystemTopic::ty(),
    ensures final(self).remote == Some(message.0), final(self).system_subscription is Some, final(self).nodes == old(self).nodes, topics_ok(final(self).topics@, *final(w)),
        handed(old(self).topics@, final(self).topics@, SystemTopic, mediator_id(), *old(w), *final(w)),
//@end
//@fn M Handler<Receive<SystemTopic>>@StreamMediator::handle as=handle_system sig="pub fn handle_system(&mut self, message: &SystemEvent, _ctx: &mut ActorContext)"
//@rw message . 0 . as_ref ( ) ==> message
    requires old(self).remote is Some,
    ensures *final(self) == (StreamMediator { nodes: final(self).nodes, ..*old(self) }),
        final(self).nodes@ == (match message {
            SystemEvent::Cluster(ClusterEvent::NodeAdded(n)) => if n.id == this_node() { old(self).nodes@ } else { old(self).nodes@.insert(n.id) },
            SystemEvent::Cluster(ClusterEvent::NodeRemoved(n)) => old(self).nodes@.remove(n.id),
            _ => old(self).nodes@ }),
//@end
/// Each of the nodes is given the publication once.
pub open spec fn given(nodes: Set<NodeId>, topic: u64, key: u64, b: Seq<u8>, w0: World, w1: World) -> bool {
    let k = w0.wrote.len() as int;
    &&& w1.wrote.len() >= k && w1.wrote.take(k) =~= w0.wrote
    &&& forall|n: NodeId| #[trigger] nodes.contains(n) ==> exists|i: int| k <= i < w1.wrote.len() && (#[trigger] w1.wrote[i]).0 == n
    &&& forall|i: int| k <= i < w1.wrote.len() ==> nodes.contains((#[trigger] w1.wrote[i]).0) && w1.wrote[i].1.topic == topic && w1.wrote[i].1.key == key && w1.wrote[i].1.message@ == b
    &&& forall|i: int, j: int| k <= i < j < w1.wrote.len() ==> (#[trigger] w1.wrote[i]).0 != (#[trigger] w1.wrote[j]).0
    &&& w1 == (World { wrote: w1.wrote, ..w0 })
}
#[verifier::external_body]
pub fn vlist(s: &HashSet<NodeId>) -> (r: Vec<NodeId>) ensures r@.no_duplicates(), forall|n: NodeId| r@.contains(n) <==> #[trigger] s@.contains(n) { unimplemented!() }
//@fn M Handler<Publish<T>>@StreamMediator::handle as=handle_publish world impl=none sig="pub fn handle_publish<T: Topic>(this: &mut StreamMediator, message: Publish<T>, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>) -> (r: Result<(), PublishErr>)"
//@rw self ==> this
    requires old(this).remote is Some,
    ensures *final(this) == *old(this),
        ({ let k = message.topic.skey();
           let w1 = if old(this).topics@.contains_key(T::name()) { emitted(old(this).topics@[T::name()].0.kept@, k, message.message, *old(w)) } else { *old(w) };
           if message.reach is Cluster && old(this).nodes@.len() > 0 {
               match bytes_of(message.message) { Some(b) => r is Ok && given(old(this).nodes@, T::name(), k, b, w1, *final(w)), None => r is Err && *final(w) == w1 }
           } else { r is Ok && *final(w) == w1 } }),
//@before 0
    let ghost ns = nodes@; let ghost wa = *w;
//@loop 0
    invariant it0.seq() == ns, ns.no_duplicates(), forall|n: NodeId| ns.contains(n) <==> #[trigger] this.nodes@.contains(n), w.wrote.len() == wa.wrote.len() + it0.index@,
        w.wrote.take(wa.wrote.len() as int) =~= wa.wrote, *w == (World { wrote: w.wrote, ..wa }),
        forall|i: int| #![trigger w.wrote[i]] wa.wrote.len() <= i < w.wrote.len() ==> w.wrote[i].0 == ns[i - wa.wrote.len()] && w.wrote[i].1 == *publish,
        it0.index@ == ns.len() ==> given(this.nodes@, publish.topic, publish.key, publish.message@, wa, *w),
//@loopend 0
    proof {
        assert(w.wrote.take(wa.wrote.len() as int) =~= wa.wrote);
        let k = wa.wrote.len() as int;
        assert forall|n: NodeId| #[trigger] this.nodes@.contains(n) && it0.index@ + 1 == ns.len() implies exists|i: int| k <= i < w.wrote.len() && (#[trigger] w.wrote[i]).0 == n by {
            let j = choose|j: int| 0 <= j < ns.len() && ns[j] == n; assert(w.wrote[k + j].0 == n);
        }
        assert forall|i: int| k <= i < w.wrote.len() implies this.nodes@.contains((#[trigger] w.wrote[i]).0) by { assert(ns.contains(ns[i - k])); }
    }
//@end
#[verifier::external_body]
pub fn vtry_unwrap(x: Arc<StreamPublishEvent>) -> (r: Result<StreamPublishEvent, Arc<StreamPublishEvent>>) ensures match r { Ok(e) => e == *x, Err(e) => e == x } { unimplemented!() }
//@fn M From<Arc<StreamPublishEvent>>@PublishRaw::from canary=start as=from_event
    ensures r.topic == s.topic && r.key == s.key && r.message@ == s.message@,
//@end
//@fn M Handler<PublishRaw>@StreamMediator::handle as=handle_raw world
    ensures *final(self) == *old(self),
        *final(w) == (if old(self).topics@.contains_key(message.topic) { emitted_raw(old(self).topics@[message.topic].0.kept@, message.key, message.message@, *old(w)) } else { *old(w) }),
//@end

// ------------------------------------------------------------------ the way to the mediator
pub struct MediatorRef { pub id: u64 }
impl MediatorRef {
    #[verifier::external_body]
    pub fn notify_raw(&self, m: PublishRaw, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>)
        ensures r is Ok, *final(w) == (World { raw: old(w).raw.push(m), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn send<T: Topic>(&self, m: Publish<T>, Tracked(w): Tracked<&mut World>) -> (r: Result<Result<(), PublishErr>, u64>)
        ensures r is Ok, *final(w) == (World { asked: old(w).asked.push((m.message, T::name(), m.topic.skey(), m.reach)), ..*old(w) }) { unimplemented!() }
}
//@fn S session_stream_publish world impl=none
//@rw mediator . notify :: < PublishRaw > ( msg . into ( ) , $t... ) ==> mediator . notify_raw ( PublishRaw :: from_event ( msg ) , Tracked ( & mut * w ) )
    ensures sys.has_mediator() ==> final(w).raw.len() == old(w).raw.len() + 1 && final(w).raw.drop_last() =~= old(w).raw && final(w).raw.last().topic == msg.topic && final(w).raw.last().key == msg.key && final(w).raw.last().message@ == msg.message@,
        !sys.has_mediator() ==> *final(w) == *old(w), *final(w) == (World { raw: final(w).raw, ..*old(w) }),
//@end
//@fn P PubSub::publish world impl=none generics="<T: Topic>"
    requires system.has_mediator(),
    ensures *final(w) == (World { asked: old(w).asked.push((message, T::name(), topic.skey(), Reach::Cluster)), ..*old(w) }),
//@end
//@fn P PubSub::publish_locally world impl=none generics="<T: Topic>"
    requires system.has_mediator(),
    ensures *final(w) == (World { asked: old(w).asked.push((message, T::name(), topic.skey(), Reach::Local)), ..*old(w) }),
//@end
} // verus!
fn main() {}
