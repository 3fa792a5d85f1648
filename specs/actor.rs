//@include head.inc
verus! {
//@include std.inc
//@file L coerce/src/actor/lifecycle.rs
//@file C coerce/src/actor/context.rs
//@file G coerce/src/actor/message/mod.rs
//@file R coerce/src/actor/refs/mod.rs
//@file U coerce/src/actor/supervised.rs
//@file H coerce/src/actor/scheduler/mod.rs
//@file Y coerce/src/actor/system/mod.rs
//@file W coerce/src/actor/watch/watchers.rs
//@file B coerce/src/actor/blocking.rs
//@file T coerce/src/actor/watch/mod.rs
//@# the actor, its messages and their results are opaque values of one arbitrary type each
//@rw < A : Actor > ==>
//@rw < A : Actor , M : Message > ==>
//@rw < I : IntoActorId , A : Actor > ==>
//@rw < Msg : Message > ==>
//@rw < M : Message > ==>
//@rw where A : Handler < Msg > , ==>
//@rw where A : Handler < M > , ==>
//@rw where A : 'static + Sync + Send , ==>
//@rw where A : 'static + Send + Sync , ==>
//@rw ActorMessage < A , M > ==> ActorMessage
//@rw . into_actor_id ( ) ==>
//@rw tokio :: spawn ( async move { ActorLoop :: run ( $x... ) ; } ) ==> vspawn_run ( $x... )
//@rw tokio :: spawn ( ActorLoop :: run ( $x... ) ) ==> vspawn_run ( $x... )
//@rw tokio :: spawn ( async move { $b... } ) ==> { $b... }
//@rw RegisterActor < A > ==> RegisterActor
//@rw DeregisterActor < A > ==> DeregisterActor
//@rw GetActor < A > ==> GetActor
//@rw as_actor :: < A > ==> as_actor
//@rw LocalActorRef < ActorScheduler > ==> SchedRef
//@rw LocalActorRef < A > ==> LocalActorRef
//@rw LocalActorRef < Self > ==> LocalActorRef
//@rw LocalActorRefInner < A > ==> LocalActorRefInner
//@rw UnboundedSender < MessageHandler < A > > ==> MailTx
//@rw UnboundedReceiver < MessageHandler < A > > ==> Mailbox
//@rw Msg :: Result ==> R
//@rw M :: Result ==> R
//@rw oneshot :: Sender < R > ==> ReplyTx
//@rw tokio :: sync :: oneshot :: Sender < ( ) > ==> Sender
//@rw tokio :: sync :: oneshot :: Receiver < ( ) > ==> Result < ( ) , RecvErr >
//@rw Sender < ( ) > ==> Sender
//@rw Receiver < ActorTerminated > ==> Watcher
//@rw tokio :: sync :: oneshot :: channel ( ) ==> vchannel ( )
//@rw oneshot :: channel ( ) ==> vchannel ( )
//@rw mpsc :: unbounded_channel ( ) ==> vmailbox ( )
//@rw Arc < str > ==> u64
//@rw . to_actor_id ( ) ==>
//@rw . to_owned ( ) ==> . clone ( )
//@rw . load ( Relaxed ) ==> . vload ( )
//@rw . store ( true , Relaxed ) ==> . vstore ( true , Tracked ( & mut * w ) )
//@rw vec ! [ $x ] ==> vone ( $x )
//@rw Arc < AtomicBool > ==> Flag
//@rw A :: type_name ( ) ==> type_name ( )
//@rw Msg :: type_name ( ) ==> type_name ( )
//@rw M :: type_name ( ) ==> type_name ( )
//@rw . blocking_recv ( ) ==>
//@rw . instrument ( $x... ) ==>
//@rw Self :: DEFAULT_TAGS ==> ActorTags { x : 0 }
//@noinline log
//@effect ask,notify_of,close,started,stopped,send,recv,notify,deliver,stop,handle,actor_stopped,close_mailbox,on_context_dropped,notify_child_terminated,stop_all,on_child_stopped,start_actor,start_root_actor,run,spawn_deferred,new_actor,shutdown,register_actor
pub type ActorId = u64;
pub type ActorPath = u64;
pub struct ActorTags { pub x: u64 }
pub type Uuid = u128;
pub struct Sender { pub id: u64 }
pub struct RecvErr { pub x: u64 }
pub struct MailTx { pub chan: u64 }
pub struct M { pub x: u64 }
pub struct R { pub x: u64 }
pub struct ReplyTx { pub id: u64 }
pub struct Watcher { pub id: ActorId, pub chan: u64 }
pub struct Instant { pub x: u64 }
pub struct Span { pub x: u64 }
pub struct Act { pub x: u64 }
pub type A = Act;
pub type Msg = M;
pub type I = u64;
pub struct Describe { pub x: u64 }
#[derive(Clone, Copy)]
pub struct SchedRef { pub chan: u64 }
pub struct RemoteActorSystem { pub x: u64 }
pub struct Flag { pub x: u64 }
pub enum ActorRefErr { InvalidRef, ResultChannelClosed, ActorStartFailed, AlreadyExists(ActorId), Other(u64) }
pub enum Reply { To(u64), Nobody }
#[verifier::external_body]
pub fn type_name() -> &'static str { "" }
impl M { #[verifier::external_body] pub fn name(&self) -> &'static str { "" } }
pub struct ActorMetrics {}
impl ActorMetrics {
    #[verifier::external_body] pub fn incr_messages_sent(a: &str, b: &str) {}
    #[verifier::external_body] pub fn incr_actor_created(a: &str) {}
    #[verifier::external_body] pub fn incr_actor_stopped(a: &str) {}
    #[verifier::external_body] pub fn incr_messages_processed(a: &str, b: &str, c: Instant, d: Instant) {}
}
impl Instant {
    #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> Instant { unimplemented!() }
}
impl Span { #[verifier::external_body] pub fn current() -> Span { unimplemented!() } }
#[verifier::external_body]
pub fn vone<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }

// ------------------------------------------------------------------ effects
pub enum Ev {
    /// the actor's own hooks and handlers run (user code); `stopping`: it asked to stop
    Started { stopping: bool },
    Handled { msg: Queued, stopping: bool },
    Stopped,
    ChildStopped { id: u64 },
    UserHandle { m: M, r: R },
    /// the answer is given
    Reply { to: ReplyTx, r: R },
    /// whoever started / stopped the actor is told
    Ack { to: Sender },
    /// a message is put in a mailbox
    Enqueue { chan: u64, m: M, reply: Option<ReplyTx> },
    EnqueueStop { chan: u64, ack: Option<Sender> },
    /// the mailbox takes no more / there is nothing left in it, nor on its way into it
    Closed { chan: u64 }, Drained { chan: u64 },
    Deregister { r: LocalActorRef },
    Register { id: u64, r: LocalActorRef, ack: Option<Sender> },
    /// the cluster is told where the actor is
    RegisterRemote { id: u64 },
    /// a watcher is told that the actor ended
    Notice { to: Watcher, of: BoxedActorRef },
    /// the parent is told that the actor ended
    TellParent { parent: BoxedActorRef, id: u64 },
    /// an actor is asked to stop, and that is waited for
    StopActor { of: BoxedActorRef, ok: bool },
    StopScheduler, StopRemote, Terminated,
    /// the registry is asked, and this is its answer
    Lookup { id: u64, r: Result<Option<LocalActorRef>, ActorRefErr> },
    /// the actor's loop starts, on this mailbox
    Run { kind: ActorType, chan: u64, on_start: Option<Sender>, r: LocalActorRef, parent: Option<BoxedActorRef>, system: Option<ActorSystem> },
}
pub tracked struct World { pub ghost log: Seq<Ev> }
pub struct Queued { pub x: u64 }
pub open spec fn added(w0: World, w1: World, s: Seq<Ev>) -> bool { w1.log =~= w0.log + s }

/// A mailbox: the messages it will yet yield, in the order they were put there.
#[verifier::external_body]
pub struct Mailbox { p: u64 }
impl Mailbox {
    pub uninterp spec fn chan(&self) -> u64;
    pub uninterp spec fn view(&self) -> Seq<Queued>;
    /// Assumed (tokio): first in, first out; None only when nothing is left and nothing can come any more.
    #[verifier::external_body]
    pub fn recv(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<Queued>)
        ensures final(self).chan() == old(self).chan(), match r {
            Some(m) => *final(w) == *old(w) && old(self)@.len() > 0 && m == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            None => final(w).log == old(w).log.push(Ev::Drained { chan: old(self).chan() }) && old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self, Tracked(w): Tracked<&mut World>)
        ensures final(self).chan() == old(self).chan(), final(w).log == old(w).log.push(Ev::Closed { chan: old(self).chan() }) { unimplemented!() }
}
/// What will come out of a channel with that sending end: the value sent into it, or the error that it was dropped.
pub uninterp spec fn outcome<T: Chan>(t: T) -> Result<T::Out, RecvErr>;
pub trait Chan { type Out; }
impl Chan for Sender { type Out = (); }
impl Chan for ReplyTx { type Out = R; }
/// Assumed (tokio): the two ends of one fresh channel; the receiving end stands for what will come out of it.
#[verifier::external_body]
pub fn vchannel<T: Chan>() -> (r: (T, Result<T::Out, RecvErr>)) ensures r.1 == outcome::<T>(r.0) { unimplemented!() }
#[verifier::external_body]
pub fn vmailbox() -> (r: (MailTx, Mailbox)) ensures r.0.chan == r.1.chan() { unimplemented!() }
impl Queued {
    #[verifier::external_body] pub fn name(&self) -> &'static str { "" }
    /// Assumed of the actor's own code: it may do anything with its context but replace whose context it is.
    #[verifier::external_body]
    pub fn handle(&mut self, actor: &mut Act, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>)
        ensures final(ctx).whose(old(ctx)), final(w).log == old(w).log.push(Ev::Handled { msg: *old(self), stopping: final(ctx).status == ActorStatus::Stopping }) { unimplemented!() }
}
impl Act {
    #[verifier::external_body]
    pub fn started(&mut self, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>)
        ensures final(ctx).whose(old(ctx)), final(w).log == old(w).log.push(Ev::Started { stopping: final(ctx).status == ActorStatus::Stopping }) { unimplemented!() }
    /// Assumed of the actor's own code: who is to be told of its end stays as it is.
    #[verifier::external_body]
    pub fn stopped(&mut self, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>)
        ensures final(ctx).whose(old(ctx)), final(ctx).on_actor_stopped == old(ctx).on_actor_stopped, final(ctx).watchers == old(ctx).watchers, final(w).log == old(w).log.push(Ev::Stopped) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>)
        ensures final(ctx).whose(old(ctx)), final(ctx).supervised == old(ctx).supervised, final(w).log == old(w).log.push(Ev::ChildStopped { id: *id }) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle(&mut self, m: M, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>) -> (r: R)
        ensures final(w).log == old(w).log.push(Ev::UserHandle { m, r }) { unimplemented!() }
}
impl Sender {
    #[verifier::external_body]
    pub fn send(self, v: (), Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>) ensures final(w).log == old(w).log.push(Ev::Ack { to: self }) { unimplemented!() }
}
impl ReplyTx {
    #[verifier::external_body]
    pub fn send(self, v: R, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>) ensures final(w).log == old(w).log.push(Ev::Reply { to: self, r: v }) { unimplemented!() }
}
impl Watcher {
    #[verifier::external_body]
    pub fn actor_id(&self) -> (r: &ActorId) ensures *r == self.id { unimplemented!() }
    #[verifier::external_body]
    pub fn notify(&self, m: ActorTerminated, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::Notice { to: *self, of: m.actor_ref }) { unimplemented!() }
}
impl MailTx {
    /// Assumed (tokio): Err exactly when nothing was put in the mailbox.
    #[verifier::external_body]
    pub fn send(&self, m: Box<ActorMessage>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>)
        requires m.msg is Some
        ensures r is Ok ==> final(w).log == old(w).log.push(Ev::Enqueue { chan: self.chan, m: m.msg->0, reply: m.sender }), r is Err ==> *final(w) == *old(w) { unimplemented!() }
    #[verifier::external_body]
    pub fn same_channel(&self, o: &MailTx) -> (r: bool) ensures r <==> self.chan == o.chan { unimplemented!() }
    pub uninterp spec fn is_shut(&self) -> bool;
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.is_shut() { unimplemented!() }
}

// ------------------------------------------------------------------ references
//@struct H RegisterActor
//@struct H DeregisterActor
//@struct H GetActor drop=_a
//@struct H ActorScheduler
pub struct ActorSystemCore { pub system_id: Uuid, pub system_name: u64, pub scheduler: SchedRef, pub is_terminated: Flag, pub remote: Option<RemoteActorSystem> }
//@struct Y ActorSystem
impl Clone for ActorSystem {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@struct R LocalActorRefInner
//@struct R LocalActorRef
impl Clone for LocalActorRef {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// A type-erased reference (std Any): the local reference it was made from.
pub struct BoxedActorRef { pub r: LocalActorRef, pub is_a: bool }
impl Clone for BoxedActorRef {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl BoxedActorRef {
    #[verifier::external_body]
    pub fn actor_id(&self) -> (r: &ActorId) ensures *r == self.r.inner.id { unimplemented!() }
    #[verifier::external_body]
    pub fn actor_path(&self) -> (r: &ActorPath) ensures *r == self.r.inner.path { unimplemented!() }
    #[verifier::external_body]
    pub fn actor_type(&self) -> (r: &'static str) { unimplemented!() }
    /// Assumed (std Any): the reference, if it is one of an actor of that type.
    #[verifier::external_body]
    pub fn as_actor(&self) -> (r: Option<LocalActorRef>) ensures r == (if self.is_a { Some(self.r) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(x: LocalActorRef) -> (r: BoxedActorRef) ensures r == (BoxedActorRef { r: x, is_a: true }) { unimplemented!() }
    #[verifier::external_body]
    pub fn stop(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::StopActor { of: *self, ok: r is Ok }) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_child_terminated(&self, id: ActorId, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::TellParent { parent: *self, id }) { unimplemented!() }
}
impl LocalActorRef {
    #[verifier::external_body]
    pub fn into(self) -> (r: BoxedActorRef) ensures r == (BoxedActorRef { r: self, is_a: true }) { unimplemented!() }
}
//@enum C ActorStatus attr="#[derive(Structural, PartialEq, Eq)]"
impl Clone for ActorStatus {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
use ActorStatus::*;
//@struct C ActorContext drop=persistence,tags
//@enum U ChildType
//@struct U ChildRef
//@struct U Supervised
//@struct U Terminated
//@struct L Stop
//@struct L Status
//@struct W Watchers
//@struct T Watch
//@struct T Unwatch
//@struct T ActorTerminated
//@struct G ActorMessage drop=_a
//@enum H ActorType
impl Clone for ActorType {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for ActorType {}
impl Clone for ActorTerminated {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl ActorContext {
    pub open spec fn whose(&self, o: &ActorContext) -> bool { self.boxed_ref == o.boxed_ref && self.boxed_parent_ref == o.boxed_parent_ref && self.full_path == o.full_path }
    pub open spec fn id_s(&self) -> u64 { self.boxed_ref.r.inner.id }
    pub open spec fn acks(&self) -> Seq<Sender> { match self.on_actor_stopped { Some(v) => v@, None => Seq::empty() } }
    pub open spec fn watching(&self) -> Map<u64, Watcher> { match self.watchers { Some(v) => v.watchers@, None => Map::empty() } }
    pub open spec fn kids(&self) -> Map<u64, ChildRef> { match self.supervised { Some(s) => s.children@, None => Map::empty() } }
}

// ------------------------------------------------------------------ the context
//@fn C ActorContext::set_status
    ensures *final(self) == (ActorContext { status: state, ..*old(self) }),
//@end
//@fn C ActorContext::get_status
    ensures *r == self.status,
//@end
//@fn C ActorContext::add_on_stopped_handler
    ensures final(self).acks() =~= old(self).acks().push(event_handler), *final(self) == (ActorContext { on_actor_stopped: final(self).on_actor_stopped, ..*old(self) }),
//@end
//@fn C ActorContext::take_on_stopped_handlers
    ensures final(self).acks() =~= Seq::empty(), r == old(self).on_actor_stopped, *final(self) == (ActorContext { on_actor_stopped: None, ..*old(self) }),
//@end
//@fn C ActorContext::take_watchers
    ensures r == old(self).watchers, *final(self) == (ActorContext { watchers: None, ..*old(self) }),
//@end
//@fn C ActorContext::stop as=stop_ctx
    requires true,
    ensures final(self).status == ActorStatus::Stopping, final(self).acks() =~= (match on_stopped_handler { Some(x) => old(self).acks().push(x), None => old(self).acks() }),
        *final(self) == (ActorContext { status: Stopping, on_actor_stopped: final(self).on_actor_stopped, ..*old(self) }),
//@end
//@fn C ActorContext::boxed_actor_ref
    ensures r == self.boxed_ref,
//@end
//@fn C ActorContext::with_parent sig="pub fn with_parent(self, boxed_parent_ref: Option<BoxedActorRef>) -> (r: ActorContext)"
//@rw self ==> self_
//@start
    let mut self_ = self;
//@contract
    ensures r == (ActorContext { boxed_parent_ref, ..self }),
//@end
//@fn C ActorContext::id
    ensures *r == self.id_s(),
//@end
//@fn C ActorContext::path
    ensures *r == self.boxed_ref.r.inner.path,
//@end
//@fn C ActorContext::full_path
    ensures *r == self.full_path,
//@end
//@fn T From<BoxedActorRef>@ActorTerminated::from as=from
    ensures r.actor_ref == value,
//@end
//@fn W Watchers::add_watcher
    ensures final(self).watchers@ =~= old(self).watchers@.insert(watcher.id, watcher),
//@end
//@fn W Watchers::remove_watcher
    ensures final(self).watchers@ =~= old(self).watchers@.remove(actor_id),
//@end
//@fn W Watchers::iter sig="pub fn iter<'a>(&'a self) -> (r: Vec<&'a Watcher>)"
//@rw self . watchers . values ( ) ==> vvalues_of ( & self . watchers )
    ensures told(r@, self.watchers@), r@ == values_of(self.watchers@),
//@end
/// Each watcher is in the list, once.
pub open spec fn told(s: Seq<&Watcher>, m: Map<u64, Watcher>) -> bool { exists|ks: Seq<u64>| #[trigger] told_in(s, m, ks) }
pub open spec fn told_in(s: Seq<&Watcher>, m: Map<u64, Watcher>, ks: Seq<u64>) -> bool {
    &&& s.len() == ks.len() && ks.no_duplicates() && ks.to_set() =~= m.dom()
    &&& forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == m[ks[i]]
}
pub uninterp spec fn values_of<'a>(m: Map<u64, Watcher>) -> Seq<&'a Watcher>;
/// Assumed (std HashMap::values): every value of the map, once per key.
#[verifier::external_body]
pub fn vvalues_of<'a>(m: &'a HashMap<u64, Watcher>) -> (r: Vec<&'a Watcher>) ensures told(r@, m@), r@ == values_of(m@) {
    unimplemented!() }

// ------------------------------------------------------------------ the life of an actor
#[verifier::opaque]
pub open spec fn acked(s: Seq<Sender>) -> Seq<Ev> { s.map_values(|x: Sender| Ev::Ack { to: x }) }
#[verifier::opaque]
pub open spec fn noticed(s: Seq<&Watcher>, of: BoxedActorRef) -> Seq<Ev> { s.map_values(|x: &Watcher| Ev::Notice { to: *x, of }) }
pub proof fn lemma_acked(l: Seq<Ev>, hs: Seq<Sender>, i: int)
    ensures 0 <= i < hs.len() ==> (l + acked(hs.take(i))).push(Ev::Ack { to: hs[i] }) == l + acked(hs.take(i + 1)),
        acked(hs.take(0)) == Seq::<Ev>::empty(), l + acked(hs.take(0)) == l, hs.take(hs.len() as int) == hs
{
    reveal(acked);
    if 0 <= i < hs.len() { assert((l + acked(hs.take(i))).push(Ev::Ack { to: hs[i] }) =~= l + acked(hs.take(i + 1))); }
    assert(acked(hs.take(0)) =~= Seq::<Ev>::empty()); assert(l + acked(hs.take(0)) =~= l); assert(hs.take(hs.len() as int) =~= hs);
}
pub proof fn lemma_noticed(l: Seq<Ev>, n: Seq<&Watcher>, of: BoxedActorRef, i: int)
    ensures 0 <= i < n.len() ==> (l + noticed(n.take(i), of)).push(Ev::Notice { to: *n[i], of }) == l + noticed(n.take(i + 1), of),
        noticed(n.take(0), of) == Seq::<Ev>::empty(), l + noticed(n.take(0), of) == l, n.take(n.len() as int) == n
{
    reveal(noticed);
    if 0 <= i < n.len() { assert((l + noticed(n.take(i), of)).push(Ev::Notice { to: *n[i], of }) =~= l + noticed(n.take(i + 1), of)); }
    assert(noticed(n.take(0), of) =~= Seq::<Ev>::empty()); assert(l + noticed(n.take(0), of) =~= l); assert(n.take(n.len() as int) =~= n);
}
pub uninterp spec fn terminated(s: ActorSystem) -> bool;
/// The end of an actor: its stopped hook, then the registry, then everyone who waits for it or watches it, once.
pub open spec fn ended(c: ActorContext, kind: ActorType, sys: Option<ActorSystem>, r: LocalActorRef, n: Seq<&Watcher>, w0: World, w1: World) -> bool {
    let d = kind is Tracked && sys is Some && !terminated(sys->0);
    let h = if d { w0.log.push(Ev::Stopped).push(Ev::Deregister { r }) } else { w0.log.push(Ev::Stopped) };
    told(n, c.watching()) && (w1.log == h + acked(c.acks()) + noticed(n, c.boxed_ref) || w1.log == h + noticed(n, c.boxed_ref) + acked(c.acks()))
}
pub open spec fn ends(c: ActorContext, kind: ActorType, sys: Option<ActorSystem>, r: LocalActorRef, w0: World, w1: World) -> bool {
    exists|n: Seq<&Watcher>| #[trigger] ended(c, kind, sys, r, n, w0, w1)
}
//@fn H ActorType::is_tracked
//@rw match & self ==> match self
//@rw & ActorType ==> ActorType
    ensures r <==> *self is Tracked,
//@end
//@fn H ActorType::is_anon
//@rw match & self ==> match self
//@rw & ActorType ==> ActorType
    ensures r <==> *self is Anonymous,
//@end
impl ActorSystem {
    /// The flag is read once (its value at that moment).
    #[verifier::external_body]
    pub fn is_terminated(&self) -> (r: bool) ensures r == terminated(*self) { unimplemented!() }
}
//@fn Y ActorSystem::scheduler
    ensures *r == self.core.scheduler,
//@end
//@fn Y ActorSystem::system_name
    ensures *r == self.core.system_name,
//@end
pub trait SchedMsg { spec fn ev(&self, ack: Option<Sender>) -> Ev; }
impl SchedMsg for DeregisterActor { open spec fn ev(&self, ack: Option<Sender>) -> Ev { Ev::Deregister { r: self.0 } } }
impl SchedMsg for RegisterActor { open spec fn ev(&self, ack: Option<Sender>) -> Ev { Ev::Register { id: self.id, r: self.actor_ref, ack } } }
impl SchedRef {
    /// One message to the scheduler (contract of LocalActorRef::notify / send / deliver); lost only if the scheduler has ended.
    #[verifier::external_body]
    pub fn notify<X: SchedMsg>(&self, m: X, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(m.ev(None)) { unimplemented!() }
    #[verifier::external_body]
    pub fn send<X: SchedMsg>(&self, m: X, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(m.ev(None)) { unimplemented!() }
    #[verifier::external_body]
    pub fn deliver<X: SchedMsg>(&self, m: X, tx: Sender, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(m.ev(Some(tx))) { unimplemented!() }
}
//@fn L ::actor_stopped world
//@rw mut ctx : & mut ActorContext ==> ctx : & mut ActorContext
//@rw & mut ctx ==> ctx
    ensures final(ctx).whose(old(ctx)), final(ctx).status == ActorStatus::Stopped,
        ends(*old(ctx), actor_type, *old(system), *actor_ref, *old(w), *final(w)),
//@start
    let ghost mut n: Seq<&Watcher> = Seq::empty();
//@before 0
    let ghost l0 = w.log;
    let ghost hs = on_stopped_handlers@;
    proof { lemma_acked(l0, hs, 0); }
//@loop 0
    invariant it0.seq() == hs, w.log == l0 + acked(hs.take(it0.index@)), ctx.whose(old(ctx)), ctx.status == ActorStatus::Stopped, ctx.watchers == old(ctx).watchers,
//@loopstart 0
    proof { lemma_acked(l0, hs, it0.index@); }
//@after 0
    proof { lemma_acked(l0, hs, 0); }
//@before 1
    let ghost l1 = w.log;
    let ghost of = actor_terminated.actor_ref;
    proof { n = values_of(watchers.watchers@); lemma_noticed(l1, n, of, 0); }
//@loop 1
    invariant it1.seq() == n, told(n, watchers.watchers@), w.log == l1 + noticed(n.take(it1.index@), of), ctx.whose(old(ctx)), ctx.status == ActorStatus::Stopped,
//@loopstart 1
    proof { lemma_noticed(l1, n, of, it1.index@); }
//@after 1
    proof { lemma_noticed(l1, n, of, 0); }
//@tail
    proof {
        let c = *old(ctx);
        if c.watchers is None { assert(told_in(n, c.watching(), Seq::empty())); }
        lemma_acked(w.log, c.acks(), 0); lemma_noticed(w.log, n, c.boxed_ref, 0);
        assert forall|l: Seq<Ev>| #[trigger] (l + Seq::<Ev>::empty()) == l by { assert(l + Seq::<Ev>::empty() =~= l); }
        if c.acks().len() == 0 { assert(c.acks().take(0) =~= c.acks()); }
        if n.len() == 0 { assert(n.take(0) =~= n); }
        assert(ended(c, actor_type, *old(system), *actor_ref, n, *old(w), *w));
    }
//@end
/// A mailbox that is given up is closed first and then emptied, messages on their way included.
pub open spec fn shut(chan: u64, w0: World, w1: World) -> bool { w1.log == w0.log.push(Ev::Closed { chan }).push(Ev::Drained { chan }) }
//@fn L ::close_mailbox world
    ensures shut(receiver.chan(), *old(w), *final(w)),
//@start
    let ghost ch = receiver.chan();
//@loop 0
    invariant receiver.chan() == ch, w.log == old(w).log.push(Ev::Closed { chan: ch }),
//@end
pub open spec fn fresh(c: ActorContext, r: LocalActorRef, sys: Option<ActorSystem>) -> bool {
    c.boxed_ref == (BoxedActorRef { r, is_a: true }) && c.boxed_parent_ref is None && c.status == ActorStatus::Starting && c.acks() =~= Seq::empty() && c.watching() =~= Map::empty() && c.kids() =~= Map::empty() && c.system == sys
}
impl Act {
    /// The actor's own code; assumed to make a context as ActorContext::new does (its default).
    #[verifier::external_body]
    pub fn new_context(&self, sys: Option<ActorSystem>, st: ActorStatus, b: BoxedActorRef) -> (r: ActorContext)
        requires st == ActorStatus::Starting ensures fresh(r, b.r, sys) { unimplemented!() }
}
/// The messages are handled, in the order of the mailbox, none of them asking to stop.
#[verifier::opaque]
pub open spec fn handled(q: Seq<Queued>) -> Seq<Ev> { q.map_values(|m: Queued| Ev::Handled { msg: m, stopping: false }) }
pub proof fn lemma_handled(l: Seq<Ev>, q: Seq<Queued>, i: int)
    ensures 0 <= i < q.len() ==> (l + handled(q.take(i))).push(Ev::Handled { msg: q[i], stopping: false }) == l + handled(q.take(i + 1)) && q.skip(i)[0] == q[i] && q.skip(i).skip(1) == q.skip(i + 1),
        l + handled(q.take(0)) == l, q.skip(0) == q, q.take(q.len() as int) == q
{
    reveal(handled);
    if 0 <= i < q.len() { assert((l + handled(q.take(i))).push(Ev::Handled { msg: q[i], stopping: false }) =~= l + handled(q.take(i + 1))); assert(q.skip(i).skip(1) =~= q.skip(i + 1)); }
    assert(l + handled(q.take(0)) =~= l); assert(q.skip(0) =~= q); assert(q.take(q.len() as int) =~= q);
}
/// The messages that are handled: each in turn until one asks to stop, or none is left.
pub open spec fn served(q: Seq<Queued>, chan: u64, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
    ||| l1 == (l0 + handled(q)).push(Ev::Drained { chan })
    ||| exists|k: int| 0 <= k < q.len() && l1 == (l0 + #[trigger] handled(q.take(k))).push(Ev::Handled { msg: q[k], stopping: true })
}
/// Up to the end: either it stops while starting, and then nobody is told it started and nothing is handled; or it starts,
/// whoever waits for that is told, and its messages are served.
pub open spec fn ran(q: Seq<Queued>, chan: u64, on_start: Option<Sender>, w0: World, w1: World) -> bool {
    let s = w0.log.push(Ev::Started { stopping: false });
    w1.log == w0.log.push(Ev::Started { stopping: true }) || served(q, chan, match on_start { Some(x) => s.push(Ev::Ack { to: x }), None => s }, w1.log)
}
/// The whole life of an actor.
pub open spec fn lived(r: LocalActorRef, kind: ActorType, q: Seq<Queued>, chan: u64, on_start: Option<Sender>, sys: Option<ActorSystem>, w0: World, w1: World) -> bool {
    exists|c: ActorContext, a: World, b: World| c.boxed_ref == (BoxedActorRef { r, is_a: true }) && ran(q, chan, on_start, w0, a) && #[trigger] ends(c, kind, sys, r, a, b) && shut(chan, b, w1)
}
pub struct ActorLoop {}
//@fn L ActorLoop::run world desugar
//@rw let span = tracing :: $x ! ( $y... ) ; ==>
//@rw let log = ctx . log ( ) ; ==>
    ensures lived(actor_ref, actor_type, receiver@, receiver.chan(), on_start, system, *old(w), *final(w)),
//@start
    let ghost q = receiver@;
    let ghost ch = receiver.chan();
    let ghost os = on_start;
    let ghost sys = system;
//@before 0
    let ghost l0 = w.log;
    let ghost mut i: int = 0;
    proof { lemma_handled(l0, q, 0); }
//@loop 0
    invariant 0 <= i <= q.len(), receiver@ == q.skip(i), receiver.chan() == ch, w.log == l0 + handled(q.take(i)), ctx.boxed_ref == (BoxedActorRef { r: actor_ref, is_a: true }), system == sys,
    ensures receiver.chan() == ch, ctx.boxed_ref == (BoxedActorRef { r: actor_ref, is_a: true }), system == sys,
        served(q, ch, l0, w.log),
//@loopstart 0
    proof {
        lemma_handled(l0, q, i);
        i = i + 1;
    }
//@end

// ------------------------------------------------------------------ one message
//@fn G ActorMessage::new
//@rw _a : PhantomData , ==>
    ensures r.msg == Some(msg) && r.sender == sender,
//@end
/// The message is handled once, and its own result goes to the one who asked, if anyone did.
pub open spec fn answered(m: M, to: Option<ReplyTx>, w0: World, w1: World) -> bool {
    exists|r: R| w1.log == (match to { Some(t) => (#[trigger] w0.log.push(Ev::UserHandle { m, r })).push(Ev::Reply { to: t, r }), None => w0.log.push(Ev::UserHandle { m, r }) })
}
//@fn G ActorMessage::handle world
//@rw self . sender_span . clone ( ) ==>
    requires old(self).msg is Some,
    ensures answered(old(self).msg->0, old(self).sender, *old(w), *final(w)), final(self).msg is None && final(self).sender is None,
//@end
//@fn R LocalActorRef::new
    ensures r.inner.id == id && r.inner.path == path && r.inner.sender == sender,
//@end
//@fn R LocalActorRef::sender
    ensures *r == self.inner.sender,
//@end
//@fn R LocalActorRef::actor_id
    ensures *r == self.inner.id,
//@end
//@fn R LocalActorRef::actor_path
    ensures *r == self.inner.path,
//@end
//@fn R LocalActorRef::is_valid
    ensures r <==> !self.inner.sender.is_shut(),
//@end
/// The message is put in the actor's mailbox once; or it is not, and the caller is told that the reference is dead.
pub open spec fn enqueued(r: LocalActorRef, m: M, reply: Option<ReplyTx>, ok: bool, w0: World, w1: World) -> bool {
    if ok { w1.log == w0.log.push(Ev::Enqueue { chan: r.inner.sender.chan, m, reply }) } else { w1 == w0 }
}
//@fn R LocalActorRef::deliver world
    ensures enqueued(*self, msg, Some(result_sender), r is Ok, *old(w), *final(w)), r is Err ==> r->Err_0 is InvalidRef,
//@end
//@fn R LocalActorRef::notify world
    ensures enqueued(*self, msg, None, r is Ok, *old(w), *final(w)), r is Err ==> r->Err_0 is InvalidRef,
//@end
/// ... and the caller gets what comes out of the reply channel put along with it.
pub open spec fn asked(r: LocalActorRef, m: M, res: Result<R, ActorRefErr>, w0: World, w1: World) -> bool {
    if w1.log.len() == w0.log.len() { w1 == w0 && res is Err && res->Err_0 is InvalidRef } else {
        exists|tx: ReplyTx| enqueued(r, m, Some(tx), true, w0, w1) && match #[trigger] outcome::<ReplyTx>(tx) { Ok(x) => res == Ok::<R, ActorRefErr>(x), Err(_) => res is Err && res->Err_0 is ResultChannelClosed }
    }
}
//@fn R LocalActorRef::send world
    ensures asked(*self, msg, r, *old(w), *final(w)),
//@end
/// What the actor does on the messages every actor understands.
pub struct Hooks {}
//@fn L Handler<Status>@A::handle as=handle_status impl=none sig="pub fn handle_status(_message: Status, ctx: &mut ActorContext) -> (r: ActorStatus)"
    ensures r == old(ctx).status, *final(ctx) == *old(ctx),
//@end
//@fn L Handler<Stop>@A::handle as=handle_stop impl=none sig="pub fn handle_stop(stop: Stop, ctx: &mut ActorContext)"
//@rw ctx . stop ( $x... ) ==> ctx . stop_ctx ( $x... )
    ensures final(ctx).status == ActorStatus::Stopping, final(ctx).acks() =~= (match stop.0 { Some(x) => old(ctx).acks().push(x), None => old(ctx).acks() }),
        *final(ctx) == (ActorContext { status: Stopping, on_actor_stopped: final(ctx).on_actor_stopped, ..*old(ctx) }),
//@end
//@fn C ActorContext::watchers_mut
//@rw self . watchers . get_or_insert_with ( $x... ) ==> vget_or_default ( & mut self . watchers )
    ensures match old(self).watchers { Some(v) => *r == v, None => r.watchers@ =~= Map::empty() }, final(self).watchers == Some(*final(r)), *final(self) == (ActorContext { watchers: final(self).watchers, ..*old(self) }),
//@end
#[verifier::external_body]
pub fn vget_or_default<'a>(o: &'a mut Option<Watchers>) -> (r: &'a mut Watchers)
    ensures match *old(o) { Some(v) => *r == v, None => r.watchers@ == Map::<u64, Watcher>::empty() }, *final(o) == Some(*final(r)) { unimplemented!() }
//@fn T Handler<Watch>@A::handle as=handle_watch impl=none sig="pub fn handle_watch(message: Watch, ctx: &mut ActorContext)"
    ensures final(ctx).watching() =~= old(ctx).watching().insert(message.receiver.id, message.receiver), *final(ctx) == (ActorContext { watchers: final(ctx).watchers, ..*old(ctx) }),
//@end
//@fn T Handler<Unwatch>@A::handle as=handle_unwatch impl=none sig="pub fn handle_unwatch(message: Unwatch, ctx: &mut ActorContext)"
    ensures final(ctx).watching() =~= old(ctx).watching().remove(message.watcher_id), *final(ctx) == (ActorContext { watchers: final(ctx).watchers, ..*old(ctx) }),
//@end
impl LocalActorRef {
    /// Contract of notify, for the message Stop.
    #[verifier::external_body]
    pub fn notify_of(&self, m: Stop, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        ensures r is Ok ==> final(w).log == old(w).log.push(Ev::EnqueueStop { chan: self.inner.sender.chan, ack: m.0 }), r is Err ==> *final(w) == *old(w) && r->Err_0 is InvalidRef { unimplemented!() }
}
//@fn R LocalActorRef::notify_stop world
//@rw self . notify ==> self . notify_of
    ensures r is Ok ==> final(w).log == old(w).log.push(Ev::EnqueueStop { chan: self.inner.sender.chan, ack: None }), r is Err ==> *final(w) == *old(w) && r->Err_0 is InvalidRef,
//@end
/// A stop request is put in the mailbox, and the caller waits until it has ended.
pub open spec fn stop_asked(r: LocalActorRef, res: Result<(), ActorRefErr>, w0: World, w1: World) -> bool {
    if w1.log.len() == w0.log.len() { w1 == w0 && res is Err && res->Err_0 is InvalidRef } else {
        exists|tx: Sender| w1.log == w0.log.push(Ev::EnqueueStop { chan: r.inner.sender.chan, ack: Some(tx) }) && (res is Ok <==> #[trigger] outcome::<Sender>(tx) is Ok) && (res is Err ==> res->Err_0 is InvalidRef)
    }
}
//@fn R LocalActorRef::stop world
//@rw self . notify ==> self . notify_of
    ensures stop_asked(*self, r, *old(w), *final(w)),
//@end

// ------------------------------------------------------------------ starting an actor
#[verifier::external_body]
pub fn vspawn_run(actor: Act, kind: ActorType, rx: Mailbox, on_start: Option<Sender>, r: LocalActorRef, parent: Option<BoxedActorRef>, system: Option<ActorSystem>, Tracked(w): Tracked<&mut World>)
    ensures final(w).log == old(w).log.push(Ev::Run { kind, chan: rx.chan(), on_start, r, parent, system }) { unimplemented!() }
/// The actor's loop runs, once, on the mailbox its reference points to.
pub open spec fn starts(r: LocalActorRef, id: u64, path: u64, kind: ActorType, on_start: Option<Sender>, parent: Option<BoxedActorRef>, system: Option<ActorSystem>, w0: World, w1: World) -> bool {
    r.inner.id == id && r.inner.path == path && w1.log == w0.log.push(Ev::Run { kind, chan: r.inner.sender.chan, on_start, r, parent, system })
}
//@fn H ::start_actor world
    ensures starts(r, id, path, actor_type, on_start, parent_ref, system, *old(w), *final(w)),
//@end
// ------------------------------------------------------------------ children
//@fn U Supervised::new
    ensures r.actor_id == actor_id && r.path == path && r.children@ =~= Map::empty(),
//@end
//@fn U ChildRef::actor_ref
    ensures *r == self.actor_ref,
//@end
//@fn U ChildRef::is_attached
    ensures r <==> self.child_type is Attached,
//@end
//@fn U ChildRef::spawned
    ensures r == (ChildRef { child_type: ChildType::Spawned, actor_ref }),
//@end
//@fn U ChildRef::attached
    ensures r == (ChildRef { child_type: ChildType::Attached, actor_ref }),
//@end
/// At most one child per id; a new child belongs to the parent, runs under its path, and is filed before anything else happens.
pub open spec fn child_made(s0: Supervised, s1: Supervised, id: u64, on_start: Option<Sender>, system: ActorSystem, parent: BoxedActorRef, r: LocalActorRef, w0: World, w1: World) -> bool {
    &&& s1.children@ =~= s0.children@.insert(id, ChildRef { child_type: ChildType::Spawned, actor_ref: BoxedActorRef { r, is_a: true } }) && s1.path == s0.path && s1.actor_id == s0.actor_id
    &&& starts(r, id, s0.path, ActorType::Anonymous, on_start, Some(parent), Some(system), w0, w1)
}
pub open spec fn child_spawned(s0: Supervised, s1: Supervised, id: u64, system: ActorSystem, parent: BoxedActorRef, res: Result<LocalActorRef, ActorRefErr>, w0: World, w1: World) -> bool {
    if s0.children@.contains_key(id) { res == Err::<LocalActorRef, ActorRefErr>(ActorRefErr::AlreadyExists(id)) && w1 == w0 && s1 == s0 } else {
        exists|tx: Sender, r: LocalActorRef| #[trigger] starts(r, id, s0.path, ActorType::Anonymous, Some(tx), Some(parent), Some(system), w0, w1) && child_made(s0, s1, id, Some(tx), system, parent, r, w0, w1)
            && match outcome::<Sender>(tx) { Ok(_) => res == Ok::<LocalActorRef, ActorRefErr>(r), Err(_) => res == Err::<LocalActorRef, ActorRefErr>(ActorRefErr::ActorStartFailed) }
    }
}
//@fn U Supervised::spawn world
    ensures child_spawned(*old(self), *final(self), id, system, parent_ref, r, *old(w), *final(w)),
//@start
    let ghost p = parent_ref;
    let ghost sys = system;
//@end
//@fn U Supervised::spawn_deferred world
    ensures child_deferred(*old(self), *final(self), id, system, parent_ref, r, *old(w), *final(w)),
//@end
pub open spec fn child_deferred(s0: Supervised, s1: Supervised, id: u64, system: ActorSystem, parent: BoxedActorRef, res: Result<LocalActorRef, ActorRefErr>, w0: World, w1: World) -> bool {
    if s0.children@.contains_key(id) { res == Err::<LocalActorRef, ActorRefErr>(ActorRefErr::AlreadyExists(id)) && w1 == w0 && s1 == s0 } else {
        res is Ok && child_made(s0, s1, id, None, system, parent, res->Ok_0, w0, w1)
    }
}
//@fn U Supervised::count
    ensures r == self.children@.len(),
//@end
//@fn U Supervised::child opt
    ensures r == (if self.children@.contains_key(*id) && self.children@[*id].actor_ref.is_a { Some(self.children@[*id].actor_ref.r) } else { None }),
//@end
//@fn U Supervised::child_boxed opt
    ensures r == (if self.children@.contains_key(*id) { Some(self.children@[*id].actor_ref) } else { None }),
//@end
//@fn U Supervised::attach_child_ref
    ensures final(self).children@ =~= old(self).children@.insert(boxed_ref.r.inner.id, ChildRef { child_type: ChildType::Attached, actor_ref: boxed_ref }), final(self).path == old(self).path,
//@end
//@fn U Supervised::add_child_ref
    ensures final(self).children@ =~= old(self).children@.insert(boxed_ref.r.inner.id, ChildRef { child_type: ChildType::Spawned, actor_ref: boxed_ref }), final(self).path == old(self).path,
        r == (if old(self).children@.contains_key(boxed_ref.r.inner.id) { Some(old(self).children@[boxed_ref.r.inner.id]) } else { None }),
//@end
//@fn U Supervised::on_child_stopped as=forget_child
    ensures final(self).children@ =~= old(self).children@.remove(*id), final(self).path == old(self).path && final(self).actor_id == old(self).actor_id,
//@end

/// The listing of a map that std iterates over: each entry once.
pub open spec fn lists<V>(s: Seq<(&u64, &V)>, m: Map<u64, V>) -> bool {
    &&& s.len() == m.len()
    &&& forall|j: int| 0 <= j < s.len() ==> m.contains_key(*(#[trigger] s[j]).0) && *s[j].1 == m[*s[j].0]
    &&& forall|a: int, b: int| 0 <= a < b < s.len() ==> *(#[trigger] s[a]).0 != *(#[trigger] s[b]).0
    &&& forall|n: u64| #[trigger] m.contains_key(n) ==> exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == n
}
/// Assumed (std HashMap::iter): each entry, once.
#[verifier::external_body]
pub fn vlist<'a, V>(m: &'a HashMap<u64, V>) -> (r: Vec<(&'a u64, &'a V)>) ensures lists(r@, m@) { unimplemented!() }
pub trait HasRef: Sized { spec fn rf(&self) -> BoxedActorRef; }
impl HasRef for ChildRef { open spec fn rf(&self) -> BoxedActorRef { self.actor_ref } }
impl HasRef for BoxedActorRef { open spec fn rf(&self) -> BoxedActorRef { *self } }
/// The first i of them have been asked to stop, and have answered.
pub open spec fn joined<V: HasRef>(s: Seq<(&u64, &V)>, i: int, v: Seq<(u64, Result<(), ActorRefErr>)>, w0: World, w1: World) -> bool {
    let l0 = w0.log; let l1 = w1.log;
    &&& v.len() == i && l1.len() == l0.len() + i && l1.take(l0.len() as int) =~= l0
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).0 == *s[j].0
    &&& forall|j: int| 0 <= j < i ==> #[trigger] l1[l0.len() + j] == (Ev::StopActor { of: s[j].1.rf(), ok: v[j].1 is Ok })
}
/// Every one of them is asked to stop, once, and that is waited for.
pub open spec fn all_stopped<V: HasRef>(m: Map<u64, V>, w0: World, w1: World) -> bool {
    &&& w1.log.len() == w0.log.len() + m.len() && w1.log.take(w0.log.len() as int) =~= w0.log
    &&& forall|n: u64| #[trigger] m.contains_key(n) ==> exists|j: int| w0.log.len() <= j < w1.log.len() && (#[trigger] w1.log[j] matches Ev::StopActor { of, .. } && of == m[n].rf())
}
pub broadcast proof fn lemma_all_stopped<V: HasRef>(s: Seq<(&u64, &V)>, m: Map<u64, V>, i: int, v: Seq<(u64, Result<(), ActorRefErr>)>, w0: World, w1: World)
    requires #[trigger] lists(s, m), i == s.len(), #[trigger] joined(s, i, v, w0, w1)
    ensures all_stopped(m, w0, w1)
{
    assert forall|n: u64| #[trigger] m.contains_key(n) implies exists|j: int| w0.log.len() <= j < w1.log.len() && (#[trigger] w1.log[j] matches Ev::StopActor { of, .. } && of == m[n].rf()) by {
        let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == n;
        assert(w1.log[w0.log.len() + j] == (Ev::StopActor { of: s[j].1.rf(), ok: v[j].1 is Ok }));
    }
}
//@fn U Supervised::stop_all world
//@rw futures :: future :: join_all ( self . children . iter ( ) . map ( | ( $i , $a ) | async move { $b... } ) , ) ==> { let mut v_ = Vec :: new ( ) ; let ghost w0_ = * w ; let ghost m_ = self . children @ ; for ( $i , $a ) in it : vlist ( & self . children ) invariant lists ( it . seq ( ) , m_ ) , m_ == self . children @ , joined ( it . seq ( ) , it . index @ , v_ @ , w0_ , * w ) , { let x_ = { $b... } ; v_ . push ( x_ ) ; } v_ }
//@rw futures :: future :: join_all ( self . children . iter ( ) . map ( | ( $i , $a ) | async move { $b... } ) ) ==> { let mut v_ = Vec :: new ( ) ; let ghost w0_ = * w ; let ghost m_ = self . children @ ; for ( $i , $a ) in it : vlist ( & self . children ) invariant lists ( it . seq ( ) , m_ ) , m_ == self . children @ , joined ( it . seq ( ) , it . index @ , v_ @ , w0_ , * w ) , { let x_ = { $b... } ; v_ . push ( x_ ) ; } v_ }
    ensures all_stopped(old(self).children@, *old(w), *final(w)), final(self).children@.dom().subset_of(old(self).children@.dom()),
//@start
    broadcast use lemma_all_stopped;
//@loop 0
    invariant all_stopped(old(self).children@, *old(w), *w), self.children@.dom().subset_of(old(self).children@.dom()),
//@end

// ------------------------------------------------------------------ children, through the context
/// The family as it is: the one there is, or an empty one below the actor's own full path.
pub open spec fn family(s: Supervised, c: ActorContext) -> bool {
    match c.supervised { Some(x) => s == x, None => s.children@ =~= Map::empty() && s.path == c.full_path && s.actor_id == c.id_s() }
}
pub open spec fn same_but_family(c: ActorContext, o: ActorContext) -> bool { c == (ActorContext { supervised: c.supervised, ..o }) }
//@fn C ActorContext::spawn world
//@rw supervised . spawn ( $x... ) ==> supervised . spawn ( $x... , Tracked ( & mut * w ) )
    requires old(self).system is Some,
    ensures same_but_family(*final(self), *old(self)), final(self).supervised is Some,
        exists|s0: Supervised| #[trigger] child_spawned(s0, final(self).supervised->0, id, old(self).system->0, old(self).boxed_ref, r, *old(w), *final(w)) && family(s0, *old(self)),
//@end
//@fn C ActorContext::spawn_deferred as=ctx_spawn_deferred world
    requires old(self).system is Some,
    ensures same_but_family(*final(self), *old(self)), final(self).supervised is Some,
        exists|s0: Supervised| #[trigger] child_deferred(s0, final(self).supervised->0, id, old(self).system->0, old(self).boxed_ref, r, *old(w), *final(w)) && family(s0, *old(self)),
//@end
//@fn C ActorContext::attach_child_ref as=ctx_attach
    ensures same_but_family(*final(self), *old(self)), final(self).supervised is Some,
        final(self).kids() =~= old(self).kids().insert(actor_ref.r.inner.id, ChildRef { child_type: ChildType::Attached, actor_ref }),
        final(self).supervised->0.path == (match old(self).supervised { Some(s) => s.path, None => old(self).full_path }),
//@end
//@fn C ActorContext::add_child_ref as=ctx_add
    ensures same_but_family(*final(self), *old(self)), final(self).supervised is Some,
        final(self).kids() =~= old(self).kids().insert(actor_ref.r.inner.id, ChildRef { child_type: ChildType::Spawned, actor_ref }),
        final(self).supervised->0.path == (match old(self).supervised { Some(s) => s.path, None => old(self).full_path }),
        r == (if old(self).kids().contains_key(actor_ref.r.inner.id) { Some(old(self).kids()[actor_ref.r.inner.id]) } else { None }),
//@end
//@fn C ActorContext::child_ref opt
    ensures r == (if self.kids().contains_key(*id) && self.kids()[*id].actor_ref.is_a { Some(self.kids()[*id].actor_ref.r) } else { None }),
//@end
//@fn C ActorContext::boxed_child_ref opt
    ensures r == (if self.kids().contains_key(*id) { Some(self.kids()[*id].actor_ref) } else { None }),
//@end
//@fn C ActorContext::supervised_count opt
    ensures r == self.kids().len(),
//@end
//@fn C ActorContext::boxed_parent
    ensures r == self.boxed_parent_ref,
//@end
//@fn C ActorContext::supervised_mut as=supervised_mut
    ensures match old(self).supervised { Some(s) => r is Some && *(r->0) == s && final(self).supervised == Some(*final(r->0)), None => r is None && final(self).supervised is None }, same_but_family(*final(self), *old(self)),
//@end
/// A child that ended is forgotten, and the actor is told, once.
//@fn U Handler<Terminated>@A::handle as=handle_terminated impl=none world sig="pub fn handle_terminated(actor: &mut Act, message: Terminated, ctx: &mut ActorContext, Tracked(w): Tracked<&mut World>)"
//@rw supervised . on_child_stopped ( & message . 0 , Tracked ( & mut * w ) ) ==> supervised . forget_child ( & message . 0 )
//@rw self . on_child_stopped ==> actor . on_child_stopped
    ensures final(ctx).kids() =~= old(ctx).kids().remove(message.0), final(ctx).whose(old(ctx)), final(w).log == old(w).log.push(Ev::ChildStopped { id: message.0 }),
//@end

// ------------------------------------------------------------------ the end of a family
pub open spec fn kids_stopped(c: ActorContext, w0: World, w1: World) -> bool { match c.supervised { Some(s) => all_stopped(s.children@, w0, w1), None => w1 == w0 } }
/// First all children are stopped, and that is waited for; then the parent, if there is one, is told.
pub open spec fn buried(c: ActorContext, w0: World, w1: World) -> bool {
    match c.boxed_parent_ref {
        Some(p) => w1.log.len() > 0 && w1.log.last() == (Ev::TellParent { parent: p, id: c.id_s() }) && kids_stopped(c, w0, World { log: w1.log.drop_last() }),
        None => kids_stopped(c, w0, w1) }
}
//@fn C ::on_context_dropped world
//@rw actor . 0 . actor_id ( ) ==> actor . actor_id ( )
    ensures final(w).log == (match *parent_ref { Some(p) => old(w).log.push(Ev::TellParent { parent: p, id: actor.r.inner.id }), None => old(w).log }),
//@end
//@fn C Drop@ActorContext::drop as=drop_ctx world
    ensures buried(*old(self), *old(w), *final(w)),
//@tail
    proof {
        assert(World { log: w.log } == *w);
        if old(self).boxed_parent_ref is Some { assert forall|l: Seq<Ev>, e: Ev| #[trigger] l.push(e).drop_last() == l by { assert(l.push(e).drop_last() =~= l); } }
    }
//@end

// ------------------------------------------------------------------ the registry
pub struct ActorCount;
impl RemoteActorSystem {
    #[verifier::external_body]
    pub fn node_id(&self) -> u64 { unimplemented!() }
    #[verifier::external_body]
    pub fn register_actor(&self, id: ActorId, node: Option<u64>, Tracked(w): Tracked<&mut World>) ensures final(w).log == old(w).log.push(Ev::RegisterRemote { id }) { unimplemented!() }
}
//@fn H Handler<ActorCount>@ActorScheduler::handle as=handle_count
//@rw _ : ActorCount ==> _x : ActorCount
    ensures r == old(self).actors@.len(), *final(self) == *old(self),
//@end
/// The id maps to the actor registered last; the cluster hears of an id when it is new.
//@fn H Handler<RegisterActor<A>>@ActorScheduler::handle as=handle_register world
    ensures final(self).actors@ =~= old(self).actors@.insert(message.id, BoxedActorRef { r: message.actor_ref, is_a: true }), final(self).remote == old(self).remote,
        final(w).log == (if old(self).remote is Some && !old(self).actors@.contains_key(message.id) { old(w).log.push(Ev::RegisterRemote { id: message.id }) } else { old(w).log }),
//@end
/// Only the actor that holds the id gives it up.
//@fn H Handler<DeregisterActor<A>>@ActorScheduler::handle as=handle_deregister opt
    ensures final(self).actors@ =~= (if old(self).actors@.contains_key(msg.0.inner.id) && old(self).actors@[msg.0.inner.id].is_a && old(self).actors@[msg.0.inner.id].r.inner.sender.chan == msg.0.inner.sender.chan { old(self).actors@.remove(msg.0.inner.id) } else { old(self).actors@ }),
        final(self).remote == old(self).remote,
//@end
//@fn H Handler<GetActor<A>>@ActorScheduler::handle as=handle_get opt
    ensures *final(self) == *old(self), r == (if old(self).actors@.contains_key(message.id) && old(self).actors@[message.id].is_a { Some(old(self).actors@[message.id].r) } else { None }),
//@end
//@fn H Actor@ActorScheduler::stopped as=stopped_all world
//@rw futures :: future :: join_all ( self . actors . iter ( ) . map ( | ( $i , $a ) | async move { $b... } ) ) ==> { let mut v_ = Vec :: new ( ) ; let ghost w0_ = * w ; let ghost m_ = self . actors @ ; for ( $i , $a ) in it : vlist ( & self . actors ) invariant lists ( it . seq ( ) , m_ ) , m_ == self . actors @ , joined ( it . seq ( ) , it . index @ , v_ @ , w0_ , * w ) , { let x_ = { $b... } ; v_ . push ( x_ ) ; } v_ }
    ensures all_stopped(old(self).actors@, *old(w), *final(w)),
//@start
    broadcast use lemma_all_stopped;
//@loop 0
    invariant all_stopped(old(self).actors@, *old(w), *w),
//@end
// ------------------------------------------------------------------ starting and finding root actors
/// A tracked actor's registration is on its way before the actor runs.
pub open spec fn root_started(r: LocalActorRef, reg: Option<Result<(), RecvErr>>, id: u64, kind: ActorType, on_start: Option<Sender>, sys: ActorSystem, w0: World, w1: World) -> bool {
    r.inner.id == id && r.inner.path == sys.core.system_name && if kind is Tracked {
        exists|tx: Sender| w1.log == w0.log.push(Ev::Register { id, r, ack: Some(tx) }).push(Ev::Run { kind, chan: r.inner.sender.chan, on_start, r, parent: None, system: Some(sys) }) && reg == Some(#[trigger] outcome::<Sender>(tx))
    } else { reg is None && w1.log == w0.log.push(Ev::Run { kind, chan: r.inner.sender.chan, on_start, r, parent: None, system: Some(sys) }) }
}
//@fn H ::start_root_actor world
    ensures root_started(r.0, r.1, id, actor_type, on_start, *system, *old(w), *final(w)),
//@end
pub open spec fn new_root(id: u64, kind: ActorType, sys: ActorSystem, res: Result<LocalActorRef, ActorRefErr>, w0: World, w1: World) -> bool {
    exists|r: LocalActorRef, reg: Option<Result<(), RecvErr>>, tx: Sender| #[trigger] root_started(r, reg, id, kind, Some(tx), sys, w0, w1)
        && match outcome::<Sender>(tx) { Ok(_) => res == Ok::<LocalActorRef, ActorRefErr>(r), Err(_) => res == Err::<LocalActorRef, ActorRefErr>(ActorRefErr::ActorStartFailed) }
}
//@fn Y ActorSystem::new_actor world
    ensures new_root(id, actor_type, *self, r, *old(w), *final(w)),
//@end
//@fn Y ActorSystem::new_actor_deferred world
    ensures exists|reg: Option<Result<(), RecvErr>>| #[trigger] root_started(r, reg, id, actor_type, None, *self, *old(w), *final(w)),
//@end
//@fn Y ActorSystem::new_tracked_actor world
    ensures exists|id: u64| #[trigger] new_root(id, ActorType::Tracked, *self, r, *old(w), *final(w)),
//@end
//@fn Y ActorSystem::new_anon_actor world
    ensures exists|id: u64| #[trigger] new_root(id, ActorType::Anonymous, *self, r, *old(w), *final(w)),
//@end
#[verifier::external_body]
pub fn new_actor_id() -> u64 { unimplemented!() }
//@fn Y ActorSystem::new_supervised_actor world
    ensures exists|tx: Sender, a: LocalActorRef| #[trigger] starts(a, id, self.core.system_name, ActorType::Anonymous, Some(tx), Some(parent_ref), Some(*self), *old(w), *final(w))
        && match outcome::<Sender>(tx) { Ok(_) => r == Ok::<LocalActorRef, ActorRefErr>(a), Err(_) => r == Err::<LocalActorRef, ActorRefErr>(ActorRefErr::ActorStartFailed) },
//@end

impl SchedRef {
    #[verifier::external_body]
    pub fn ask(&self, m: GetActor, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<LocalActorRef>, ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::Lookup { id: m.id, r }) { unimplemented!() }
    #[verifier::external_body]
    pub fn stop(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::StopScheduler) { unimplemented!() }
}
impl Flag {
    #[verifier::external_body]
    pub fn vstore(&self, b: bool, Tracked(w): Tracked<&mut World>) ensures b ==> final(w).log == old(w).log.push(Ev::Terminated) { unimplemented!() }
}
impl RemoteActorSystem {
    #[verifier::external_body]
    pub fn shutdown(&self, Tracked(w): Tracked<&mut World>) ensures final(w).log == old(w).log.push(Ev::StopRemote) { unimplemented!() }
}
//@fn H GetActor::new
//@rw _a : PhantomData , ==>
    ensures r.id == id,
//@end
/// What the registry answers is what the caller gets.
pub open spec fn looked_up(id: u64, res: Option<LocalActorRef>, w0: World, w1: World) -> bool {
    exists|a: Result<Option<LocalActorRef>, ActorRefErr>| w1.log == #[trigger] w0.log.push(Ev::Lookup { id, r: a }) && res == (match a { Ok(x) => x, Err(_) => None })
}
//@fn Y ActorSystem::get_tracked_actor world
//@rw scheduler . send ( $x... ) ==> scheduler . ask ( $x... )
    ensures looked_up(id, r, *old(w), *final(w)),
//@end
/// Marked as ended, then the scheduler (with every tracked actor), then the remote part: each waited for.
//@fn Y ActorSystem::shutdown world
    ensures ({ let l = old(w).log.push(Ev::Terminated).push(Ev::StopScheduler); final(w).log == (if self.core.remote is Some { l.push(Ev::StopRemote) } else { l }) }),
//@end
//@fn B ActorSystem::new_actor_blocking world
    ensures new_root(id, actor_type, *self, r, *old(w), *final(w)),
//@end
//@fn B LocalActorRef::send_blocking world
    ensures asked(*self, msg, r, *old(w), *final(w)),
//@end
//@fn B LocalActorRef::stop_blocking world
//@rw self . notify ==> self . notify_of
    ensures stop_asked(*self, r, *old(w), *final(w)),
//@end
}
fn main(){}
