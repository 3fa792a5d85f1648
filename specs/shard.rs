//@include head.inc
use std::collections::hash_map::{OccupiedEntry, VacantEntry};
use std::mem;
verus! {
//@include std.inc
//@file S coerce/src/sharding/shard/mod.rs
//@file V coerce/src/sharding/shard/recovery.rs
//@file G coerce/src/sharding/shard/message.rs
//@file R coerce/src/sharding/host/request.rs
//@# identifiers are opaque values with decidable equality
//@rw String ==> u64
//@rw & mut ActorContext ==> & mut Ctx
//@rw & ActorContext ==> & Ctx
//@rw Sender < Result < Vec < u8 > , ActorRefErr > > ==> Sender
//@rw BoxedActorHandler ==> Boxed
//@rw BoxedMessageHandler ==> MsgHandler
//@rw DateTime < Utc > ==> u64
//@rw Utc :: now ( ) ==> vnow ( )
//@rw . to_string ( ) ==>
//@# a spawned task runs to completion at some later point: its effects are recorded, in its own order
//@rw tokio :: spawn ( async move { $b... } ) ==> { $b... }
//@rw vec ! [ ] ==> Vec :: new ( )
//@rw mem :: replace ==> vreplace
//@rw std :: mem :: replace ==> vreplace
//@rw mem :: take ==> vtakevec
//@effect send,notify,notify_stop,request,create,handle_direct,start_entity,persist,handle,handle_request_entity,recover_entities,notify_raw_rpc_result,notify_rpc_err
//@noinline into_actor_id
pub type ShardId = u32;
pub type NodeId = u64;
pub type ActorId = u64;
pub struct Sender { pub id: u64 }
pub struct BoxedActorRef { pub id: u64 }
impl Clone for BoxedActorRef {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct Boxed { pub x: u64 }
impl Boxed {
    #[verifier::external_body]
    pub fn new_boxed(&self) -> (r: Boxed) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn actor_type_name(&self) -> (r: u64) { unimplemented!() }
    /// Assumed: the factory (user code) makes the actor of that id from that recipe, or fails.
    #[verifier::external_body]
    pub fn create(&self, id: Option<ActorId>, recipe: &RecipeRef, parent: Option<BoxedActorRef>, system: Option<&Sys>, Tracked(w): Tracked<&mut World>) -> (r: Result<BoxedActorRef, ActorRefErr>)
        ensures final(w).log == old(w).log.push(Ev::Create { id, recipe: (**recipe)@, out: r }) { unimplemented!() }
}
impl BoxedActorRef {
    #[verifier::external_body]
    pub fn notify_stop(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::Stop { actor: *self }) { unimplemented!() }
}
pub struct MsgHandler { pub ty: u64 }
pub enum ActorRefErr { ActorUnavailable, ResultChannelClosed, NotFound(ActorId), NotSupported { actor_id: ActorId, message_type: u64, actor_type: u64 }, Other(u64) }
impl Clone for ActorRefErr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub type RecipeRef = Arc<Vec<u8>>;
#[derive(Clone, Copy)]
pub struct Uuid { pub x: u128 }
#[verifier::reject_recursive_types(A)]
pub struct LocalActorRef<A> { pub id: u64, pub p: PhantomData<A> }
impl<A> Clone for LocalActorRef<A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl LocalActorRef<Shard> { #[verifier::external_body] pub fn into(self) -> (r: BoxedActorRef) { unimplemented!() } }
pub struct ShardHost { pub x: u64 }
pub struct Ctx { pub x: u64 }
#[derive(Clone, Copy)]
pub struct Sys { pub x: u64 }
pub struct Remote { pub x: u64 }
pub struct Config { pub x: u64 }
pub uninterp spec fn known_type(ty: u64) -> bool;
impl Config {
    /// Assumed: the registered handler of that message type.
    #[verifier::external_body]
    pub fn message_handler(&self, ty: &u64) -> (r: Option<MsgHandler>) ensures r is Some <==> known_type(*ty), r is Some ==> r->0.ty == *ty { unimplemented!() }
}
impl Remote {
    #[verifier::external_body]
    pub fn config(&self) -> (r: Config) { unimplemented!() }
    #[verifier::external_body]
    pub fn node_id(&self) -> (r: NodeId) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_raw_rpc_result(&self, id: Uuid, b: Vec<u8>, node: NodeId, Tracked(w): Tracked<&mut World>)
        ensures final(w).log == old(w).log.push(Ev::Answer { id, node, ok: true, bytes: b@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_rpc_err(&self, id: Uuid, e: ActorRefErr, node: NodeId, Tracked(w): Tracked<&mut World>)
        ensures final(w).log == old(w).log.push(Ev::Answer { id, node, ok: false, bytes: Seq::empty() }) { unimplemented!() }
}
impl Sys {
    #[verifier::external_body]
    pub fn remote(&self) -> (r: Remote) { unimplemented!() }
    #[verifier::external_body]
    pub fn remote_owned(&self) -> (r: Remote) { unimplemented!() }
}
impl Ctx {
    #[verifier::external_body]
    pub fn system(&self) -> (r: Sys) { unimplemented!() }
    /// the children the shard answers for: they are stopped with it (C10)
    pub uninterp spec fn kids(&self) -> Seq<BoxedActorRef>;
    #[verifier::external_body]
    pub fn add_child_ref(&mut self, a: BoxedActorRef) -> (r: Option<u64>) ensures final(self).kids() == old(self).kids().push(a) { unimplemented!() }
}
#[verifier::external_body]
pub fn vnow() -> u64 { 0 }
pub fn vreplace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { std::mem::replace(d, s) }

//@struct S BufferedReq
//@enum S EntityState
//@struct S Entity
//@struct S Shard
//@struct G StartEntity
//@struct G RemoveEntity
//@struct G PassivateEntity
//@struct G EntityStartResult
//@struct R EntityRequest
//@struct R RemoteEntityRequest

// ------------------------------------------------------------------ effects
pub enum Ev {
    /// the start of the entity is recorded
    Record { id: u64, recipe: Seq<u8>, ok: bool },
    /// the entity's actor is made
    Create { id: Option<u64>, recipe: Seq<u8>, out: Result<BoxedActorRef, ActorRefErr> },
    /// the shard is told how making the entity ended
    Made { id: u64, ok: bool, heard: bool },
    /// the entity's actor is asked to stop
    Stop { actor: BoxedActorRef },
    /// a request is handed to the entity's actor, with the channel its answer goes to
    Handle { actor: BoxedActorRef, req: BufferedReq },
    /// a caller is answered with an error
    Refuse { to: Sender, err: ActorRefErr },
    /// a request of another node is answered
    Answer { id: Uuid, node: u64, ok: bool, bytes: Seq<u8> },
    /// the host is told that the shard is ready
    Ready { shard: u32 },
}
pub tracked struct World { pub ghost log: Seq<Ev> }
impl MsgHandler {
    /// Assumed (contract of the message handlers): the actor handles the message once and the answer goes to the channel.
    #[verifier::external_body]
    pub fn handle_direct(self, actor: &BoxedActorRef, message: &Vec<u8>, result_channel: Option<Sender>, Tracked(w): Tracked<&mut World>)
        ensures final(w).log == old(w).log.push(Ev::Handle { actor: *actor, req: BufferedReq { handler: self, message: *message, result_channel } }) { unimplemented!() }
}
impl Sender {
    #[verifier::external_body]
    pub fn send(self, m: Result<Vec<u8>, ActorRefErr>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>)
        ensures m is Err ==> final(w).log == old(w).log.push(Ev::Refuse { to: self, err: m->Err_0 }) { unimplemented!() }
}
impl LocalActorRef<Shard> {
    #[verifier::external_body]
    pub fn notify(&self, m: EntityStartResult, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        // whether it is handled is not known
        ensures exists|h: bool| final(w).log == #[trigger] old(w).log.push(Ev::Made { id: m.actor_id, ok: m.result is Ok, heard: h }) { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&self, m: EntityStartResult, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        // an answer says that it was handled (C09)
        ensures final(w).log == old(w).log.push(Ev::Made { id: m.actor_id, ok: m.result is Ok, heard: r is Ok }) { unimplemented!() }
}
pub struct ShardReady(pub ShardId, pub LocalActorRef<Shard>);
impl LocalActorRef<ShardHost> {
    #[verifier::external_body]
    pub fn notify(&self, m: ShardReady, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>)
        ensures final(w).log == old(w).log.push(Ev::Ready { shard: m.0 }) { unimplemented!() }
}
pub struct PersistErr { pub x: u64 }
impl Shard {
    #[verifier::external_body]
    pub fn actor_ref(&self, ctx: &Ctx) -> (r: LocalActorRef<Shard>) { unimplemented!() }
    /// Storage (contracts C01, C04); assumed: one record on Ok, none on Err, the shard's own state is not touched.
    #[verifier::external_body]
    pub fn persist(&self, m: &StartEntity, ctx: &mut Ctx, Tracked(w): Tracked<&mut World>) -> (r: Result<(), PersistErr>)
        ensures final(w).log == old(w).log.push(Ev::Record { id: m.actor_id, recipe: (*m.recipe)@, ok: r is Ok }) { unimplemented!() }
    /// Every entity is filed under its own id.
    pub open spec fn ok(&self) -> bool { forall|k: u64| #[trigger] self.entities@.contains_key(k) ==> self.entities@[k].actor_id == k }
    pub open spec fn same_but(&self, o: &Shard) -> bool { self.shard_id == o.shard_id && self.persistent_entities == o.persistent_entities && self.handler == o.handler }
}
pub type Entities = Map<u64, Entity>;

// ------------------------------------------------------------------ entity states
//@fn S EntityState::starting opt
//@rw vec ! [ r ] ==> vone ( r )
    ensures r matches EntityState::Starting { request_buffer } && request_buffer@ =~= (match request { Some(x) => seq![x], None => Seq::empty() }),
//@end
#[verifier::external_body]
pub fn vone<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }
//@fn S EntityState::is_starting
    ensures r <==> *self is Starting,
//@end
/// What becomes of a request for an entity the shard knows.
pub open spec fn taken(e0: Entity, e1: Entity, q: BufferedReq, w0: World, w1: World) -> bool {
    &&& e1.actor_id == e0.actor_id && e1.recipe == e0.recipe
    &&& match e0.state {
        EntityState::Starting { request_buffer } => (e1.state matches EntityState::Starting { request_buffer: b } && b@ == request_buffer@.push(q)) && w1 == w0,
        EntityState::Active(a) => e1.state == e0.state && w1.log == w0.log.push(Ev::Handle { actor: a, req: q }),
        _ => e1.state == e0.state && w1.log =~= w0.log + (match q.result_channel { Some(c) => seq![Ev::Refuse { to: c, err: ActorRefErr::ActorUnavailable }], None => Seq::empty() }),
    }
}
//@fn S Entity::request world opt
    ensures taken(*old(self), *final(self), BufferedReq { handler, message, result_channel }, *old(w), *final(w)),
//@end

/// The entity is being started: recorded first (unless this is a replay or records are off), made once, and the
/// shard is told how that ended; if it does not hear of it, because it has stopped, an entity that was made is stopped.
pub open spec fn starts(id: u64, recipe: Seq<u8>, record: bool, w0: World, w1: World) -> bool {
    let k = w0.log.len() as int + if record { 1int } else { 0int };
    &&& w1.log.len() >= k + 2 && w1.log[k] is Create && w1.log[k + 1] is Made && (record ==> w1.log[k - 1] is Record)
    &&& started(id, recipe, record, record && w1.log[k - 1]->Record_ok, w1.log[k]->out, w1.log[k + 1]->heard, w0.log, w1.log)
}
pub open spec fn started(id: u64, recipe: Seq<u8>, record: bool, ok: bool, out: Result<BoxedActorRef, ActorRefErr>, heard: bool, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
    let l = if record { l0.push(Ev::Record { id, recipe, ok }) } else { l0 };
    let l = l.push(Ev::Create { id: Some(id), recipe, out }).push(Ev::Made { id, ok: out is Ok, heard });
    l1 =~= if !heard && out is Ok { l.push(Ev::Stop { actor: out->Ok_0 }) } else { l }
}
//@fn S Shard::start_entity world
    ensures *final(self) == *old(self), starts(actor_id, (*recipe)@, !is_shard_recovery && old(self).persistent_entities, *old(w), *final(w)),
//@end

pub open spec fn entities_same_but(e0: Entities, e1: Entities, id: u64) -> bool {
    forall|k: u64| k != id ==> (#[trigger] e1.contains_key(k) <==> e0.contains_key(k)) && (e0.contains_key(k) ==> e1[k] == e0[k])
}
pub open spec fn refused(c: Option<Sender>, e: ActorRefErr, w0: World, w1: World) -> bool {
    w1.log =~= w0.log + (match c { Some(c) => seq![Ev::Refuse { to: c, err: e }], None => Seq::empty() })
}
/// What becomes of a request.
pub open spec fn entity_request(s0: Shard, s1: Shard, m: EntityRequest, w0: World, w1: World) -> bool {
    let id = m.actor_id;
    let q = BufferedReq { handler: MsgHandler { ty: m.message_type }, message: m.message, result_channel: m.result_channel };
    &&& entities_same_but(s0.entities@, s1.entities@, id)
    &&& if !known_type(m.message_type) {
        s1.entities@ =~= s0.entities@ && (m.result_channel is None ==> w1 == w0)
            && (m.result_channel matches Some(c) ==> w1.log.len() == w0.log.len() + 1 && w1.log.drop_last() =~= w0.log && (w1.log.last() matches Ev::Refuse { to, err } && to == c && err is NotSupported))
    } else if s0.entities@.contains_key(id) {
        s1.entities@.contains_key(id) && taken(s0.entities@[id], s1.entities@[id], q, w0, w1)
    } else {
        match m.recipe {
            Some(r) => s1.entities@.contains_key(id) && s1.entities@[id].actor_id == id && s1.entities@[id].recipe == r
                && (s1.entities@[id].state matches EntityState::Starting { request_buffer } && request_buffer@ =~= seq![q]) && starts(id, (*r)@, s0.persistent_entities, w0, w1),
            None => s1.entities@ =~= s0.entities@ && refused(m.result_channel, ActorRefErr::NotFound(id), w0, w1),
        }
    }
}
//@fn S Handler<EntityRequest>@Shard::handle as=handle_entity world opt
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), entity_request(*old(self), *final(self), message, *old(w), *final(w)),
//@end

/// Requests in order, each handed over once.
pub open spec fn handed(b: Seq<BufferedReq>, a: BoxedActorRef) -> Seq<Ev> { b.map_values(|q: BufferedReq| Ev::Handle { actor: a, req: q }) }
/// Each of the waiting callers is told, in order, once.
pub open spec fn told(b: Seq<BufferedReq>, e: ActorRefErr) -> Seq<Ev> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else { told(b.drop_last(), e) + (match b.last().result_channel { Some(c) => seq![Ev::Refuse { to: c, err: e }], None => Seq::empty() }) }
}
//@fn S Handler<EntityStartResult>@Shard::handle as=handle_made world opt
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), entities_same_but(old(self).entities@, final(self).entities@, message.actor_id),
        // the entity ends with the shard
        message.result matches Ok(a) ==> final(ctx).kids() == old(ctx).kids().push(a),
        ({ let id = message.actor_id; let e0 = old(self).entities@; let e1 = final(self).entities@;
           let starting = e0.contains_key(id) && e0[id].state is Starting; let b = e0[id].state->request_buffer@;
           match message.result {
               Ok(a) => (e1.contains_key(id) <==> e0.contains_key(id)) && (e0.contains_key(id) ==> e1[id].state == EntityState::Active(a) && e1[id].recipe == e0[id].recipe)
                   && final(w).log =~= old(w).log + (if starting { handed(b, a) } else { Seq::empty() }),
               // it can be started again by a later request
               Err(e) => if starting { !e1.contains_key(id) && final(w).log =~= old(w).log + told(b, e) } else { e1 =~= e0 && *final(w) == *old(w) },
           } }),
//@start
    let ghost b = old(self).entities@[message.actor_id].state->request_buffer@;
    proof { assert(b.take(b.len() as int) =~= b); }
//@loop 0
    invariant it0.seq() == b, message.result is Ok, entity.state == EntityState::Active(message.result->Ok_0), entity.actor_id == message.actor_id, entity.recipe == old(self).entities@[message.actor_id].recipe,
        w.log =~= old(w).log + handed(b.take(it0.index@), message.result->Ok_0),
//@loopstart 0
    proof { assert(b.take(it0.index@ + 1) =~= b.take(it0.index@).push(msg)); }
//@loop 1
    invariant it1.seq() == b, message.result is Err, message.result->Err_0 == e, w.log =~= old(w).log + told(b.take(it1.index@), e),
//@loopstart 1
    proof { assert(b.take(it1.index@ + 1) =~= b.take(it1.index@).push(msg)); assert(b.take(it1.index@).push(msg).drop_last() =~= b.take(it1.index@)); }
//@end

// an entity that has stopped is forgotten, so that the next request starts it again
//@fn S PersistentActor@Shard::on_child_stopped as=handle_ended opt
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)),
        final(self).entities@ =~= (if old(self).entities@.contains_key(*id) && old(self).entities@[*id].state is Active { old(self).entities@.remove(*id) } else { old(self).entities@ }),
//@end
//@fn S EntityState::is_active
    ensures r <==> *self is Active,
//@end
//@fn S Handler<StartEntity>@Shard::handle as=handle_start world
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), entities_same_but(old(self).entities@, final(self).entities@, message.actor_id),
        starts(message.actor_id, (*message.recipe)@, old(self).persistent_entities, *old(w), *final(w)),
        final(self).entities@.contains_key(message.actor_id) && final(self).entities@[message.actor_id].state is Starting,
//@end

// ------------------------------------------------------------------ recovery
//@fn V Recover<StartEntity>@Shard::recover as=recover_start
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), entities_same_but(old(self).entities@, final(self).entities@, message.actor_id),
        ({ let e = final(self).entities@[message.actor_id]; final(self).entities@.contains_key(message.actor_id) && e.recipe == message.recipe && e.actor_id == message.actor_id
            && (e.state matches EntityState::Starting { request_buffer } && request_buffer@.len() == 0) }),
//@end
//@fn V Recover<PassivateEntity>@Shard::recover as=recover_passivate
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), entities_same_but(old(self).entities@, final(self).entities@, message.actor_id), final(self).entities@.dom() =~= old(self).entities@.dom(),
        old(self).entities@.contains_key(message.actor_id) ==> final(self).entities@[message.actor_id].state is Passivated,
//@end
//@fn V Recover<RemoveEntity>@Shard::recover as=recover_remove
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), final(self).entities@ =~= old(self).entities@.remove(message.actor_id),
//@end

pub trait VEntities { fn vall<'a>(&'a self) -> (r: EntIter<'a>); }
/// std's `values()` and `filter` over the entity map: values by distinct keys, in some order.
pub struct EntIter<'a> { pub m: &'a HashMap<ActorId, Entity>, pub keys: Vec<ActorId> }
pub open spec fn keys_ok(m: Entities, keys: Seq<u64>) -> bool { keys.no_duplicates() && forall|i: int| 0 <= i < keys.len() ==> m.contains_key(#[trigger] keys[i]) }
impl VEntities for HashMap<ActorId, Entity> {
    #[verifier::external_body]
    fn vall<'a>(&'a self) -> (r: EntIter<'a>) ensures r.m == self, keys_ok(self@, r.keys@), forall|k: u64| #![trigger self@.contains_key(k)] #![trigger r.keys@.contains(k)] self@.contains_key(k) <==> r.keys@.contains(k)
    { unimplemented!() }
}
impl<'a> EntIter<'a> {
    #[verifier::external_body]
    pub fn filter<F: Fn(&&Entity) -> bool>(self, f: F) -> (r: EntIter<'a>)
        requires keys_ok(self.m@, self.keys@), forall|i: int| 0 <= i < self.keys@.len() ==> f.requires((&&self.m@[#[trigger] self.keys@[i]],)),
        ensures r.m == self.m, keys_ok(r.m@, r.keys@),
            forall|k: u64| #![trigger r.keys@.contains(k)] r.keys@.contains(k) ==> self.keys@.contains(k) && f.ensures((&&self.m@[k],), true),
            forall|k: u64| #![trigger self.keys@.contains(k)] self.keys@.contains(k) && !r.keys@.contains(k) ==> f.ensures((&&self.m@[k],), false),
    { unimplemented!() }
    /// A copy of an entity keeps its id and recipe (its state is not copied).
    #[verifier::external_body]
    pub fn vcopies(self) -> (r: Vec<Entity>)
        ensures r@.len() == self.keys@.len(), forall|i: int| #![trigger r@[i]] #![trigger self.keys@[i]] 0 <= i < r@.len() ==> r@[i].actor_id == self.m@[self.keys@[i]].actor_id && r@[i].recipe == self.m@[self.keys@[i]].recipe && self.keys@.contains(self.keys@[i]),
            forall|k: u64| #[trigger] self.keys@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] self.keys@[i] == k,
    { unimplemented!() }
}
/// The entities to start again: exactly the starting ones, each once, with their recipes.
pub open spec fn restart_list(m: Entities, l: Seq<Entity>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).actor_id) && m[l[i].actor_id].state is Starting && l[i].recipe == m[l[i].actor_id].recipe
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).actor_id != (#[trigger] l[j]).actor_id
    &&& forall|k: u64| #[trigger] m.contains_key(k) && m[k].state is Starting ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).actor_id == k
}
//@fn S Shard::get_active_entities
//@rw . values ( ) ==> . vall ( )
//@rw . cloned ( ) . collect ( ) ==> . vcopies ( )
    requires self.ok(),
    ensures restart_list(self.entities@, r@),
//@closure 0
    -> (b: bool) ensures b <==> e.state is Starting
//@end

/// The starting entities are made again (and not recorded again), nothing else is.
pub open spec fn remade(l: Seq<Entity>, l0: Seq<Ev>, l1: Seq<Ev>) -> bool decreases l.len() {
    if l.len() == 0 { l1 =~= l0 } else {
        exists|m: Seq<Ev>| remade(l.drop_last(), l0, m) && #[trigger] starts(l.last().actor_id, (*l.last().recipe)@, false, World { log: m }, World { log: l1 })
    }
}
proof fn lemma_remade(l: Seq<Entity>, l0: Seq<Ev>, m: Seq<Ev>, l1: Seq<Ev>)
    requires l.len() > 0, remade(l.drop_last(), l0, m), starts(l.last().actor_id, (*l.last().recipe)@, false, World { log: m }, World { log: l1 }),
    ensures remade(l, l0, l1),
{ reveal_with_fuel(remade, 2); assert(starts(l.last().actor_id, (*l.last().recipe)@, false, World { log: m }, World { log: l1 })); }
pub open spec fn recovered(m: Entities, w0: World, w1: World) -> bool { exists|l: Seq<Entity>| #[trigger] restart_list(m, l) && remade(l, w0.log, w1.log) }
//@fn S Shard::recover_entities world
    requires old(self).ok(),
    ensures *final(self) == *old(self), recovered(old(self).entities@, *old(w), *final(w)),
//@loop 0
    invariant *self == *old(self), restart_list(old(self).entities@, it0.seq()), remade(it0.seq().take(it0.index@), old(w).log, w.log),
        it0.index@ == it0.seq().len() ==> recovered(old(self).entities@, *old(w), *w),
//@loopstart 0
    let ghost w1 = *w; let ghost en = entity;
//@loopend 0
    proof {
        let l = it0.seq(); let j = it0.index@;
        assert(l.take(j + 1).drop_last() =~= l.take(j)); assert(l.take(j + 1).last() == l[j]);
        assert(remade(l.take(j), old(w).log, w1.log));
        assert(World { log: w1.log } == w1 && World { log: w.log } == *w);
        lemma_remade(l.take(j + 1), old(w).log, w1.log, w.log);
        assert(l.take(l.len() as int) =~= l);
    }
//@start
    proof { assert forall|l: Seq<Entity>| l.len() == 0 && restart_list(old(self).entities@, l) implies #[trigger] remade(l, old(w).log, old(w).log) by {} assert forall|l: Seq<Entity>| #[trigger] remade(l.take(0), old(w).log, old(w).log) by {} }
//@end
//@fn S PersistentActor@Shard::post_recovery world
    requires old(self).ok(),
    // ready only after everything that was hosted is being started again
    ensures *final(self) == *old(self), final(w).log.len() > 0 && final(w).log.last() == (Ev::Ready { shard: old(self).shard_id }),
        recovered(old(self).entities@, *old(w), World { log: final(w).log.drop_last() }),
//@start
    proof {
        if old(self).entities@.len() == 0 { assert(old(self).entities@.dom() =~= Set::<u64>::empty()); assert(restart_list(old(self).entities@, Seq::<Entity>::empty())); assert(remade(Seq::<Entity>::empty(), old(w).log, old(w).log)); }
    }
//@tail
    proof { assert forall|w1: World| w.log == w1.log.push(Ev::Ready { shard: old(self).shard_id }) implies w.log.drop_last() == #[trigger] w1.log by { assert(w1.log.push(Ev::Ready { shard: old(self).shard_id }).drop_last() =~= w1.log); } }
//@end

// ------------------------------------------------------------------ requests of other nodes
#[verifier::external_body]
pub fn vchannel() -> (r: (Sender, Result<Result<Vec<u8>, ActorRefErr>, u64>)) { unimplemented!() }
pub trait IntoActorId: Sized { fn into_actor_id(self) -> (r: u64); }
impl IntoActorId for u64 { fn into_actor_id(self) -> (r: u64) ensures r == self { self } }
//@fn R From<RemoteEntityRequest>@EntityRequest::from as=from_remote impl=none sig="pub fn from_remote(req: RemoteEntityRequest) -> (r: EntityRequest)" opt
    ensures r.actor_id == req.actor_id && r.message_type == req.message_type && r.message == req.message && r.result_channel is None,
        match req.recipe { None => r.recipe is None, Some(x) => r.recipe is Some && *(r.recipe->0) == x },
//@end
/// The request is handled like a local one, and its outcome is sent to the node it came from, under its id, once.
pub open spec fn remote_request(s0: Shard, s1: Shard, m: RemoteEntityRequest, w0: World, w1: World) -> bool {
    &&& w1.log.len() > 0 && (w1.log.last() matches Ev::Answer { id, node, .. } && id == m.request_id && node == m.origin_node)
    &&& exists|q: EntityRequest| #[trigger] entity_request(s0, s1, q, w0, World { log: w1.log.drop_last() }) && q.actor_id == m.actor_id && q.message_type == m.message_type && q.message == m.message
        && q.result_channel is Some && (match m.recipe { None => q.recipe is None, Some(x) => q.recipe is Some && *(q.recipe->0) == x })
}
//@fn S Handler<RemoteEntityRequest>@Shard::handle as=handle_remote world
//@rw oneshot :: channel ( ) ==> vchannel ( )
//@rw message . into ( ) ==> from_remote ( message )
//@rw self . handle ( $x... ) ==> self . handle_entity ( $x... )
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_but(old(self)), remote_request(*old(self), *final(self), message, *old(w), *final(w)),
//@tail
    proof { assert forall|q: EntityRequest, w1: World| w1.log == w.log.drop_last() && #[trigger] entity_request(*old(self), *self, q, *old(w), w1) implies entity_request(*old(self), *self, q, *old(w), World { log: w.log.drop_last() }) by {}
        assert forall|l: Seq<Ev>, e: Ev| #[trigger] l.push(e).drop_last() == l by { assert(l.push(e).drop_last() =~= l); } }
//@end
}
fn main(){}
