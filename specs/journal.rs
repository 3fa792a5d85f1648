//@include head.inc
verus! {
//@include std.inc
//@file J coerce/src/persistent/journal/mod.rs
//@file B coerce/src/persistent/batch.rs
//@file S coerce/src/persistent/journal/storage.rs
//@file R coerce/src/persistent/recovery.rs
//@file A coerce/src/persistent/actor.rs
//@file F coerce/src/persistent/failure.rs
//@file C coerce/src/actor/context.rs
//@# strings are opaque identifiers with decidable equality
//@rw Arc < str > ==> u64
//@rw & self . persistence_id ==> self . persistence_id
//@rw String ==> u64
//@rw Option < & 'a str > ==> Option < u64 >
//@rw anyhow :: Error ==> AnyErr
//@rw anyhow :: Result ==> ARes
//@rw ReadMessages < '_ > ==> ReadMessages
//@rw self . persistence_id . as_ref ( ) ==> self . persistence_id
//@rw . payload_type . as_ref ( ) ==> . payload_type . id_ref ( )
//@rw Arc :: try_unwrap ( $x... ) . map_or_else ( $y... ) ==> unwrap_or_clone ( $x... )
//@effect write_message,write_message_batch,write_snapshot,read_latest_snapshot,read_latest_messages,read_message,read_messages,delete_messages_to,delete_all,recover_snapshot,recover_messages

pub struct AnyErr { pub e: u64 }
pub type ARes<T> = Result<T, AnyErr>;
pub struct MessageWrapErr { pub e: u64 }
pub trait Message { }
pub trait Snapshot { }
pub trait Recover<M> { }

pub trait IdRef { fn id_ref(&self) -> (r: &u64); }
impl IdRef for u64 { fn id_ref(&self) -> (r: &u64) ensures r == self { self } }

//@struct J BytesRef
//@struct S JournalEntry
//@struct B BatchedEntry
//@struct B EventBatch attr=#[verifier::reject_recursive_types(A)]
//@enum J PersistErr
//@struct J Journal attr=#[verifier::reject_recursive_types(A)]

/// A recovery handler, identified by the payload type it was registered for.
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct RecoveryHandlerRef<A: PersistentActor> { p: PhantomData<A> }
impl<A: PersistentActor> RecoveryHandlerRef<A> { pub uninterp spec fn ty(&self) -> u64; }
impl<A: PersistentActor> Clone for RecoveryHandlerRef<A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@struct J RecoveredPayload attr=#[verifier::reject_recursive_types(A)]

/// The handler tables of an actor type (assumed: a lookup yields the handler registered for that type).
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct HandlerMap<A: PersistentActor> { p: PhantomData<A> }
impl<A: PersistentActor> HandlerMap<A> {
    pub uninterp spec fn has(&self, ty: u64) -> bool;
    #[verifier::external_body]
    pub fn get(&self, ty: &u64) -> (r: Option<&RecoveryHandlerRef<A>>)
        ensures self.has(*ty) <==> r is Some, r is Some ==> r->0.ty() == *ty
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct JournalTypes<A: PersistentActor> { p: PhantomData<A> }
impl<A: PersistentActor> JournalTypes<A> {
    pub uninterp spec fn msg_ty<M>(&self) -> Option<u64>;
    pub uninterp spec fn snap_ty<M>(&self) -> Option<u64>;
    pub uninterp spec fn msgs(&self) -> HandlerMap<A>;
    pub uninterp spec fn snaps(&self) -> HandlerMap<A>;
    #[verifier::external_body]
    pub fn message_type_mapping<M>(&self) -> (r: Option<u64>) ensures r == self.msg_ty::<M>() { unimplemented!() }
    #[verifier::external_body]
    pub fn snapshot_type_mapping<M>(&self) -> (r: Option<u64>) ensures r == self.snap_ty::<M>() { unimplemented!() }
    #[verifier::external_body]
    pub fn recoverable_messages(&self) -> (r: &HandlerMap<A>) ensures *r == self.msgs() { unimplemented!() }
    #[verifier::external_body]
    pub fn recoverable_snapshots(&self) -> (r: &HandlerMap<A>) ensures *r == self.snaps() { unimplemented!() }
}

#[verifier::external_body]
pub fn unwrap_or_clone(a: Arc<Vec<u8>>) -> (r: Vec<u8>) ensures r@ == a@ { unimplemented!() }

// ------------------------------------------------------------------ the journal of an entity
/// What storage acknowledged for one persistence id, in acknowledgement order.
pub enum Rec { Msg(JournalEntry), Snap(JournalEntry) }
impl Rec {
    pub open spec fn seq(&self) -> int { match self { Rec::Msg(e) => e.sequence as int, Rec::Snap(e) => e.sequence as int } }
    pub open spec fn is_msg(&self) -> bool { self is Msg }
    pub open spec fn entry(&self) -> JournalEntry { match self { Rec::Msg(e) => *e, Rec::Snap(e) => *e } }
}
/// `log`: what storage acknowledged per persistence id; `writes`/`loads`: storage writes and journal
/// loads attempted; `trace`: the hooks of the actor in the order they ran.
pub tracked struct World { pub ghost log: Map<u64, Seq<Rec>>, pub ghost writes: nat, pub ghost loads: nat, pub ghost trace: Seq<Hook> }
pub enum Hook { Pre, Apply { ty: u64, seq: i64, bytes: Seq<u8>, ok: bool }, RecoveryErr, RecoveryFailed, Post }
pub open spec fn quiet(a: World, b: World) -> bool { a.trace == b.trace && a.loads == b.loads }
impl World {
    pub open spec fn of(&self, id: u64) -> Seq<Rec> { if self.log.contains_key(id) { self.log[id] } else { Seq::empty() } }
}

/// Sequence numbers are positive, strictly increase in acknowledgement order, and never exceed `last`.
pub open spec fn numbered(log: Seq<Rec>, last: int) -> bool {
    &&& last >= 0
    &&& forall|i: int| 0 <= i < log.len() ==> 0 < #[trigger] log[i].seq() <= last
    &&& forall|i: int, j: int| 0 <= i < j < log.len() ==> #[trigger] log[i].seq() < #[trigger] log[j].seq()
}
/// The journal remembers the newest acknowledged snapshot, if any.
pub open spec fn snap_inv(log: Seq<Rec>, s: Option<i64>) -> bool { s is Some ==> last_snap(log) is Some && last_snap(log)->0.sequence == s->0 }
pub broadcast proof fn lemma_snap_push(log: Seq<Rec>, r: Rec)
    ensures #[trigger] last_snap(log.push(r)) == (match r { Rec::Snap(e) => Some(e), Rec::Msg(_) => last_snap(log) })
{ assert(log.push(r).drop_last() =~= log); }
pub broadcast proof fn lemma_snap_append(log: Seq<Rec>, es: Seq<JournalEntry>)
    ensures #[trigger] last_snap(log + as_msgs(es)) == last_snap(log)
    decreases es.len()
{
    if es.len() == 0 { assert(log + as_msgs(es) =~= log); } else {
        lemma_snap_append(log, es.drop_last());
        assert((log + as_msgs(es)).drop_last() =~= log + as_msgs(es.drop_last()));
    }
}
/// The messages recorded with a sequence greater than `from`, oldest first.
pub open spec fn msgs_after(log: Seq<Rec>, from: int) -> Seq<JournalEntry>
    decreases log.len()
{
    if log.len() == 0 { Seq::empty() } else {
        let p = msgs_after(log.drop_last(), from);
        match log.last() { Rec::Msg(e) => if e.sequence > from { p.push(e) } else { p }, Rec::Snap(_) => p }
    }
}
/// The messages acknowledged at position `i` or later.
pub open spec fn msgs_from(log: Seq<Rec>, i: int) -> Seq<JournalEntry>
    decreases log.len()
{
    if log.len() <= i || log.len() == 0 { Seq::empty() } else {
        let p = msgs_from(log.drop_last(), i);
        match log.last() { Rec::Msg(e) => p.push(e), Rec::Snap(_) => p }
    }
}
/// The newest snapshot acknowledged.
pub open spec fn last_snap(log: Seq<Rec>) -> Option<JournalEntry>
    decreases log.len()
{
    if log.len() == 0 { None } else { match log.last() { Rec::Snap(e) => Some(e), Rec::Msg(_) => last_snap(log.drop_last()) } }
}
pub open spec fn last_snap_pos(log: Seq<Rec>) -> int
    decreases log.len()
{
    if log.len() == 0 { -1 } else if log.last() is Snap { log.len() - 1 } else { last_snap_pos(log.drop_last()) }
}
/// The batch's entries as journal entries numbered from `last + 1`.
pub open spec fn numbered_batch(es: Seq<BatchedEntry>, last: int) -> Seq<JournalEntry> {
    Seq::new(es.len(), |i: int| JournalEntry { sequence: (last + 1 + i) as i64, payload_type: es[i].payload_type, bytes: es[i].bytes })
}
pub open spec fn as_msgs(es: Seq<JournalEntry>) -> Seq<Rec> { Seq::new(es.len(), |i: int| Rec::Msg(es[i])) }
/// Entries whose payload type the actor can recover, in order.
pub open spec fn known<A: PersistentActor>(h: HandlerMap<A>, es: Seq<JournalEntry>) -> Seq<JournalEntry> {
    es.filter(|e: JournalEntry| h.has(e.payload_type))
}
/// `v` replays exactly `es`: same order, same sequence, same bytes, handler of the entry's type.
pub open spec fn replays<A: PersistentActor>(v: Seq<RecoveredPayload<A>>, es: Seq<JournalEntry>) -> bool {
    &&& v.len() == es.len()
    &&& forall|i: int| 0 <= i < v.len() ==> replays1(#[trigger] v[i], es[i])
}
pub open spec fn replays1<A: PersistentActor>(v: RecoveredPayload<A>, e: JournalEntry) -> bool {
    v.sequence == e.sequence && v.bytes@ == e.bytes@ && v.handler.ty() == e.payload_type
}
/// Frame: only `id`'s journal changed.
pub open spec fn frame(old: World, new: World, id: u64) -> bool {
    forall|o: u64| o != id ==> #[trigger] new.of(o) == old.of(o)
}

// ------------------------------------------------------------------ assumed contract of the storage back end
/// Assumption on a storage provider (the in-memory provider is verified against it in unit `inmemory`):
/// an acknowledged write appends, a failed write leaves the journal as it was, reads do not change it.
#[verifier::external_body]
pub struct JournalStorageRef { p: u8 }
impl JournalStorageRef {
    #[verifier::external_body]
    pub fn write_message(&self, id: u64, entry: JournalEntry, Tracked(w): Tracked<&mut World>) -> (r: Result<(), AnyErr>)
        ensures r is Ok ==> final(w).of(id) == old(w).of(id).push(Rec::Msg(entry)), r is Err ==> final(w).of(id) == old(w).of(id), frame(*old(w), *final(w), id), final(w).writes == old(w).writes + 1, quiet(*old(w), *final(w))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_message_batch(&self, id: u64, entries: Vec<JournalEntry>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), AnyErr>)
        ensures r is Ok ==> final(w).of(id) == old(w).of(id) + as_msgs(entries@), r is Err ==> final(w).of(id) == old(w).of(id), frame(*old(w), *final(w), id), final(w).writes == old(w).writes + 1, quiet(*old(w), *final(w))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_snapshot(&self, id: u64, entry: JournalEntry, Tracked(w): Tracked<&mut World>) -> (r: Result<(), AnyErr>)
        ensures r is Ok ==> final(w).of(id) == old(w).of(id).push(Rec::Snap(entry)), r is Err ==> final(w).of(id) == old(w).of(id), frame(*old(w), *final(w), id), final(w).writes == old(w).writes + 1, quiet(*old(w), *final(w))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_latest_snapshot(&self, id: u64, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<JournalEntry>, AnyErr>)
        ensures *final(w) == *old(w), r is Ok ==> r->Ok_0 == last_snap(old(w).of(id))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_latest_messages(&self, id: u64, from_sequence: i64, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<Vec<JournalEntry>>, AnyErr>)
        ensures *final(w) == *old(w),
            r is Ok ==> (r->Ok_0 is None ==> old(w).of(id).len() == 0),
            r is Ok ==> (r->Ok_0 is Some ==> r->Ok_0->0@ == msgs_after(old(w).of(id), from_sequence as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_messages_to(&self, id: u64, to: i64, Tracked(w): Tracked<&mut World>) -> (r: Result<(), AnyErr>)
        ensures frame(*old(w), *final(w), id), r is Err ==> final(w).of(id) == old(w).of(id),
            r is Ok ==> msgs_after(final(w).of(id), to as int) == msgs_after(old(w).of(id), to as int) && last_snap(final(w).of(id)) == last_snap(old(w).of(id)),
            // what is left keeps its order and its numbers
            forall|l: int| numbered(old(w).of(id), l) ==> #[trigger] numbered(final(w).of(id), l),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_all(&self, id: u64, Tracked(w): Tracked<&mut World>) -> (r: Result<(), AnyErr>)
        ensures frame(*old(w), *final(w), id), r is Err ==> final(w).of(id) == old(w).of(id), r is Ok ==> final(w).of(id).len() == 0,
    { unimplemented!() }
    pub uninterp spec fn one(log: Seq<Rec>, seq: int) -> Option<JournalEntry>;
    pub uninterp spec fn range(log: Seq<Rec>, a: int, b: int) -> Option<Vec<JournalEntry>>;
    #[verifier::external_body]
    pub fn read_message(&self, id: u64, seq: i64, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<JournalEntry>, AnyErr>)
        ensures *final(w) == *old(w), r is Ok ==> r->Ok_0 == Self::one(old(w).of(id), seq as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_messages(&self, id: u64, a: i64, b: i64, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<Vec<JournalEntry>>, AnyErr>)
        ensures *final(w) == *old(w), r is Ok ==> r->Ok_0 == Self::range(old(w).of(id), a as int, b as int)
    { unimplemented!() }
}

impl From<AnyErr> for PersistErr {
    #[verifier::external_body]
    fn from(e: AnyErr) -> Self { unimplemented!() }
}

//@fn B EventBatch::entries
    ensures *r == self.entries
//@end

// ------------------------------------------------------------------ functions under contract
//@fn J Journal::persist_message world
//@rw where A : Recover < M > , ==>
    requires
        numbered(old(w).of(old(self).persistence_id), old(self).last_sequence_id as int),
        old(self).last_sequence_id < i64::MAX,
        old(self).types.msg_ty::<M>() is Some,
    ensures
        ({ let id = old(self).persistence_id; let l = old(self).last_sequence_id;
           &&& final(self).persistence_id == id && final(self).types == old(self).types && final(self).storage == old(self).storage
           &&& final(self).last_snapshot_sequence_id == old(self).last_snapshot_sequence_id
           &&& frame(*old(w), *final(w), id) && final(w).writes == old(w).writes + 1 && quiet(*old(w), *final(w))
           // an acknowledged message is appended with the next sequence number
           &&& r is Ok ==> final(self).last_sequence_id == l + 1
               && final(w).of(id) == old(w).of(id).push(Rec::Msg(JournalEntry { sequence: (l + 1) as i64, payload_type: old(self).types.msg_ty::<M>()->0, bytes }))
           // a rejected message consumes nothing
           &&& r is Err ==> final(self).last_sequence_id == l && final(w).of(id) == old(w).of(id)
           &&& numbered(final(w).of(id), final(self).last_sequence_id as int)
           &&& snap_inv(old(w).of(id), old(self).last_snapshot_sequence_id) ==> snap_inv(final(w).of(id), final(self).last_snapshot_sequence_id)
        }),
//@start
    broadcast use lemma_snap_push;
//@end

//@fn J Journal::persist_batch world desugar
    requires
        numbered(old(w).of(old(self).persistence_id), old(self).last_sequence_id as int),
        old(self).last_sequence_id + batch.entries@.len() < i64::MAX,
    ensures
        ({ let id = old(self).persistence_id; let l = old(self).last_sequence_id; let n = batch.entries@.len();
           &&& final(self).persistence_id == id && final(self).types == old(self).types && final(self).storage == old(self).storage
           &&& final(self).last_snapshot_sequence_id == old(self).last_snapshot_sequence_id
           &&& frame(*old(w), *final(w), id) && final(w).writes == old(w).writes + 1 && quiet(*old(w), *final(w))
           &&& r is Ok ==> final(self).last_sequence_id == l + n
               && final(w).of(id) == old(w).of(id) + as_msgs(numbered_batch(batch.entries@, l as int))
           &&& r is Err ==> final(self).last_sequence_id == l && final(w).of(id) == old(w).of(id)
           &&& numbered(final(w).of(id), final(self).last_sequence_id as int)
           &&& snap_inv(old(w).of(id), old(self).last_snapshot_sequence_id) ==> snap_inv(final(w).of(id), final(self).last_snapshot_sequence_id)
        }),
//@start
    broadcast use lemma_snap_append;
    let ghost entries0 = batch.entries@;
//@loop 0
    invariant
        it0.seq().len() == entries0.len(), forall|i: int| 0 <= i < entries0.len() ==> *#[trigger] it0.seq()[i] == entries0[i],
        collected@.len() == it0.index@,
        sequence_id == old(self).last_sequence_id + it0.index@,
        0 <= old(self).last_sequence_id, old(self).last_sequence_id + entries0.len() < i64::MAX,
        forall|i: int| 0 <= i < it0.index@ ==> #[trigger] collected@[i] == numbered_batch(entries0, old(self).last_sequence_id as int)[i],
//@end

//@fn J Journal::persist_snapshot world
    requires
        numbered(old(w).of(old(self).persistence_id), old(self).last_sequence_id as int),
        old(self).last_sequence_id < i64::MAX,
        old(self).types.snap_ty::<S>() is Some,
    ensures
        ({ let id = old(self).persistence_id; let l = old(self).last_sequence_id;
           &&& final(self).persistence_id == id && final(self).types == old(self).types && final(self).storage == old(self).storage
           &&& frame(*old(w), *final(w), id) && final(w).writes == old(w).writes + 1 && quiet(*old(w), *final(w))
           &&& r is Ok ==> final(self).last_sequence_id == l + 1 && final(self).last_snapshot_sequence_id == Some((l + 1) as i64)
               && final(w).of(id) == old(w).of(id).push(Rec::Snap(JournalEntry { sequence: (l + 1) as i64, payload_type: old(self).types.snap_ty::<S>()->0, bytes }))
           &&& r is Err ==> final(self).last_sequence_id == l && final(w).of(id) == old(w).of(id)
               && final(self).last_snapshot_sequence_id == old(self).last_snapshot_sequence_id
           &&& numbered(final(w).of(id), final(self).last_sequence_id as int)
           &&& snap_inv(old(w).of(id), old(self).last_snapshot_sequence_id) ==> snap_inv(final(w).of(id), final(self).last_snapshot_sequence_id)
        }),
//@start
    broadcast use lemma_snap_push;
//@end

//@fn J Journal::recover_snapshot world
    ensures
        *final(w) == *old(w), final(self).persistence_id == old(self).persistence_id, final(self).types == old(self).types, final(self).storage == old(self).storage,
        ({ let s = last_snap(old(w).of(old(self).persistence_id));
           r is Ok ==> {
               &&& s is None ==> r->Ok_0 is None && final(self).last_sequence_id == old(self).last_sequence_id && final(self).last_snapshot_sequence_id == old(self).last_snapshot_sequence_id
               &&& s is Some ==> final(self).last_sequence_id == s->0.sequence && final(self).last_snapshot_sequence_id == Some(s->0.sequence)
               &&& (s is Some && old(self).types.snaps().has(s->0.payload_type)) ==> r->Ok_0 is Some && replays1(r->Ok_0->0, s->0)
               &&& (s is Some && !old(self).types.snaps().has(s->0.payload_type)) ==> r->Ok_0 is None
           }
        }),
//@end

//@fn J Journal::recover_messages world
    ensures
        *final(w) == *old(w), final(self).persistence_id == old(self).persistence_id, final(self).types == old(self).types, final(self).storage == old(self).storage,
        ({ let log = old(w).of(old(self).persistence_id); let es = msgs_after(log, old(self).last_sequence_id as int);
           let ks = known(old(self).types.msgs(), es);
           r is Ok ==> {
               &&& final(self).last_snapshot_sequence_id == old(self).last_snapshot_sequence_id
               &&& final(self).last_sequence_id == (if es.len() == 0 { old(self).last_sequence_id } else { es.last().sequence })
               &&& ks.len() == 0 ==> r->Ok_0 is None
               &&& ks.len() > 0 ==> r->Ok_0 is Some && replays(r->Ok_0->0@, ks)
           }
        }),
//@start
    let ghost h = self.types.msgs();
    let ghost es = msgs_after(w.of(self.persistence_id), self.last_sequence_id as int);
    proof { lemma_known_empty::<A>(h); }
//@loop 0
    invariant
        it0.seq() == es,
        *w == *old(w),
        es == msgs_after(old(w).of(old(self).persistence_id), old(self).last_sequence_id as int),
        h == self.types.msgs(),
        self.persistence_id == old(self).persistence_id, self.types == old(self).types, self.storage == old(self).storage,
        self.last_snapshot_sequence_id == old(self).last_snapshot_sequence_id,
        self.last_sequence_id == (if it0.index@ == 0 { old(self).last_sequence_id } else { es[it0.index@ - 1].sequence }),
        replays(recoverable_messages@, known(h, es.take(it0.index@))),
//@loopstart 0
    let ghost before = recoverable_messages@;
    proof { lemma_known_step(h, es, it0.index@); }
//@after 0
    proof { assert(es.take(es.len() as int) == es); }
//@end

//@rw ReadMessages < 'a > ==> ReadMessages
//@struct J ReadMessages
//@enum J Read
//@fn J Journal::clear_old_messages world
    requires
        snap_inv(old(w).of(old(self).persistence_id), old(self).last_snapshot_sequence_id),
    ensures *final(self) == *old(self), frame(*old(w), *final(w), old(self).persistence_id),
        // recovery finds what it would have found before
        ({ let l0 = old(w).of(old(self).persistence_id); let l1 = final(w).of(old(self).persistence_id);
           &&& last_snap(l1) == last_snap(l0)
           &&& last_snap(l0) is Some && r ==> msgs_after(l1, last_snap(l0)->0.sequence as int) == msgs_after(l0, last_snap(l0)->0.sequence as int)
           &&& !r ==> l1 == l0
           &&& numbered(l0, old(self).last_sequence_id as int) ==> numbered(l1, old(self).last_sequence_id as int) }),
//@end
//@fn J Journal::clear world
    ensures *final(self) == *old(self), frame(*old(w), *final(w), old(self).persistence_id),
        r ==> final(w).of(old(self).persistence_id).len() == 0, !r ==> final(w).of(old(self).persistence_id) == old(w).of(old(self).persistence_id),
//@end
//@fn J Journal::read_messages world
    ensures *final(self) == *old(self), *final(w) == *old(w),
        ({ let id = match args.persistence_id { Some(i) => i, None => old(self).persistence_id };
           r is Ok ==> match args.read {
               Read::Message { sequence_id } => match JournalStorageRef::one(old(w).of(id), sequence_id as int) { Some(m) => r->Ok_0 is Some && r->Ok_0->0@ == seq![m], None => r->Ok_0 is None },
               Read::Range(g) => r->Ok_0 == JournalStorageRef::range(old(w).of(id), g.start as int, g.end as int),
           } }),
//@end
pub proof fn lemma_known_empty<A: PersistentActor>(h: HandlerMap<A>)
    ensures known(h, Seq::empty()) == Seq::<JournalEntry>::empty(), forall|s: Seq<JournalEntry>| s.take(0) == Seq::<JournalEntry>::empty()
{
    reveal(Seq::filter);
    assert forall|s: Seq<JournalEntry>| s.take(0) == Seq::<JournalEntry>::empty() by { assert(s.take(0) =~= Seq::<JournalEntry>::empty()); }
}
pub proof fn lemma_known_step<A: PersistentActor>(h: HandlerMap<A>, es: Seq<JournalEntry>, i: int)
    requires 0 <= i < es.len()
    ensures known(h, es.take(i + 1)) == (if h.has(es[i].payload_type) { known(h, es.take(i)).push(es[i]) } else { known(h, es.take(i)) })
{
    reveal(Seq::filter);
    assert(es.take(i + 1).drop_last() =~= es.take(i));
}

// ------------------------------------------------------------------ lemmas over the contracts
pub proof fn lemma_msgs_after_all(log: Seq<Rec>, last: int, from: int)
    requires numbered(log, last), from >= last
    ensures msgs_after(log, from) == Seq::<JournalEntry>::empty()
    decreases log.len()
{
    if log.len() > 0 {
        assert(numbered(log.drop_last(), last)) by { assert forall|i: int| 0 <= i < log.len() - 1 implies 0 < #[trigger] log.drop_last()[i].seq() <= last by { assert(log.drop_last()[i] == log[i]); }
            assert forall|i: int, j: int| 0 <= i < j < log.len() - 1 implies #[trigger] log.drop_last()[i].seq() < #[trigger] log.drop_last()[j].seq() by { assert(log.drop_last()[i] == log[i]); assert(log.drop_last()[j] == log[j]); } }
        lemma_msgs_after_all(log.drop_last(), last, from);
        assert(log[log.len() - 1].seq() <= last);
    }
}
/// Recovery is exact: with strictly increasing numbers, the messages numbered after entry `i` are
/// the messages acknowledged after entry `i` (or all of them when nothing precedes).
pub proof fn lemma_recovery_exact(log: Seq<Rec>, last: int, i: int)
    requires numbered(log, last), -1 <= i < log.len()
    ensures msgs_after(log, if i < 0 { 0 } else { log[i].seq() }) == msgs_from(log, i + 1)
    decreases log.len()
{
    if log.len() > 0 {
        let p = log.drop_last();
        assert(numbered(p, last)) by { assert forall|k: int| 0 <= k < p.len() implies 0 < #[trigger] p[k].seq() <= last by { assert(p[k] == log[k]); }
            assert forall|a: int, b: int| 0 <= a < b < p.len() implies #[trigger] p[a].seq() < #[trigger] p[b].seq() by { assert(p[a] == log[a]); assert(p[b] == log[b]); } }
        let n = log.len() - 1;
        assert(log[n].seq() > 0);
        if i < n {
            lemma_recovery_exact(p, last, i);
            if i >= 0 { assert(p[i] == log[i]); assert(log[i].seq() < log[n].seq()); }
        } else {
            assert(numbered(p, log[n].seq())) by { assert forall|k: int| 0 <= k < p.len() implies 0 < #[trigger] p[k].seq() <= log[n].seq() by { assert(p[k] == log[k]); assert(log[k].seq() < log[n].seq()); } }
            lemma_msgs_after_all(p, log[n].seq(), log[n].seq());
        }
    }
}
pub proof fn lemma_last_snap(log: Seq<Rec>)
    ensures ({ let p = last_snap_pos(log); -1 <= p < log.len() && (p < 0 <==> last_snap(log) is None)
        && (p >= 0 ==> log[p] is Snap && last_snap(log) == Some(log[p]->Snap_0))
        && (forall|k: int| p < k < log.len() ==> #[trigger] log[k] is Msg) })
    decreases log.len()
{
    if log.len() > 0 && !(log.last() is Snap) {
        lemma_last_snap(log.drop_last());
        let p = last_snap_pos(log);
        assert forall|k: int| p < k < log.len() implies #[trigger] log[k] is Msg by { if k < log.len() - 1 { assert(log.drop_last()[k] == log[k]); } }
    }
}
pub proof fn lemma_max(log: Seq<Rec>, last: int, from: int)
    requires numbered(log, last), from >= 0
    ensures ({ let es = msgs_after(log, from); es.len() > 0 ==> from < es.last().sequence <= last
        && (log.len() > 0 && log.last() is Msg ==> es.last().sequence == log.last().seq()) })
    decreases log.len()
{
    if log.len() > 0 {
        let p = log.drop_last();
        assert(numbered(p, last)) by { assert forall|k: int| 0 <= k < p.len() implies 0 < #[trigger] p[k].seq() <= last by { assert(p[k] == log[k]); }
            assert forall|a: int, b: int| 0 <= a < b < p.len() implies #[trigger] p[a].seq() < #[trigger] p[b].seq() by { assert(p[a] == log[a]); assert(p[b] == log[b]); } }
        lemma_max(p, last, from);
        let n = log.len() - 1;
        assert(log[n].seq() <= last);
        if log.last() is Msg && log[n].seq() <= from {
            assert(numbered(p, log[n].seq())) by { assert forall|k: int| 0 <= k < p.len() implies 0 < #[trigger] p[k].seq() <= log[n].seq() by { assert(p[k] == log[k]); assert(log[k].seq() < log[n].seq()); } }
            lemma_max_le(p, log[n].seq(), from);
        }
    }
}
pub proof fn lemma_max_le(log: Seq<Rec>, last: int, from: int)
    requires numbered(log, last), from >= last
    ensures msgs_after(log, from).len() == 0
{ lemma_msgs_after_all(log, last, from); }

// ------------------------------------------------------------------ the actor's context
//@enum C ActorStatus
/// The part of an actor's context persistence uses (assumed: `journal_mut` hands out the journal
/// `init_journal` installed).
#[verifier::reject_recursive_types(A)]
pub struct ActorContext<A: PersistentActor> { pub status: ActorStatus, pub journal: Journal<A>, pub storage: JournalStorageRef }
//@rw & mut ActorContext ==> & mut ActorContext < A >
//@rw journal_mut :: < Self > ==> journal_mut
//@rw init_journal :: < A > ==> init_journal
//@rw load_journal :: < Self > ==> load_journal
//@rw ctx . stop ( None ) ==> ctx . stop ( )
//@rw ctx . id ( ) ==> 0
//@rw panic ! ( $x... ) ==> vpanic ( )
//@rw tokio :: time :: sleep ( $x... ) ==> ( )
//@rw tokio :: time :: sleep_until ( $x... ) ==> ( )
//@rw Option < Duration > ==> Option < u64 >
//@rw * attempts += 1 ==> * attempts = vinc ( * attempts )
//@noinline persistence_mut,journal_mut,init_journal,stop
#[verifier::external_body]
pub fn vpanic() -> ! ensures false { panic!() }
/// The retry counter does not overflow (2^64 attempts).
#[verifier::external_body]
pub fn vinc(n: usize) -> (r: usize) ensures r == n + 1 { n + 1 }
impl<A: PersistentActor> ActorContext<A> {
    pub fn stop(&mut self)
        ensures final(self).status == ActorStatus::Stopping, final(self).journal == old(self).journal, final(self).storage == old(self).storage
    { self.status = ActorStatus::Stopping; }
    pub fn persistence_mut(&mut self) -> (r: &mut ActorContext<A>) ensures *r == *old(self), *final(r) == *final(self) { self }
    pub fn journal_mut(&mut self) -> (r: &mut Journal<A>)
        ensures *r == old(self).journal, *final(self) == (ActorContext { journal: *final(r), ..*old(self) })
    { &mut self.journal }
    pub fn init_journal(&mut self, id: u64) -> (r: &mut Journal<A>)
        ensures *r == fresh::<A>(id, old(self).storage), *final(self) == (ActorContext { journal: *final(r), ..*old(self) })
    { self.journal = Journal::new(id, self.storage); &mut self.journal }
}
pub uninterp spec fn types_of<A: PersistentActor>() -> JournalTypes<A>;
pub open spec fn fresh<A: PersistentActor>(id: u64, st: JournalStorageRef) -> Journal<A> {
    Journal { persistence_id: id, last_sequence_id: 0, last_snapshot_sequence_id: None, storage: st, types: Arc::new(types_of::<A>()) }
}
impl Clone for JournalStorageRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for JournalStorageRef {}
/// Assumed: the type table of an actor type is the one its `configure` builds.
#[verifier::external_body]
pub fn vtypes<A: PersistentActor>() -> (r: Arc<JournalTypes<A>>) ensures *r == types_of::<A>() { unimplemented!() }
//@fn J Journal::new
//@rw init_journal_types :: < A > ( ) ==> vtypes :: < A > ( )
    ensures r == fresh::<A>(persistence_id, storage)
//@end

/// The recovery theorem: a journal opened on any acknowledged history recovers the newest snapshot
/// and exactly the messages acknowledged after it, and resumes numbering at the newest number.
pub open spec fn recovered<A: PersistentActor>(log: Seq<Rec>, t: JournalTypes<A>, j: RecoveredJournal<A>) -> bool {
    let p = last_snap_pos(log);
    let ks = known(t.msgs(), msgs_from(log, p + 1));
    &&& (p >= 0 && t.snaps().has(log[p].entry().payload_type)) ==> j.snapshot is Some && replays1(j.snapshot->0, log[p].entry())
    &&& (p < 0 || !t.snaps().has(log[p].entry().payload_type)) ==> j.snapshot is None
    &&& if ks.len() == 0 { j.messages is None } else { j.messages is Some && replays(j.messages->0@, ks) }
}
//@fn R ::load_journal as load_journal world
    requires some_numbering(old(w).of(persistence_key)),
    ensures final(w).log == old(w).log, final(w).writes == old(w).writes, final(w).trace == old(w).trace, final(w).loads == old(w).loads + 1,
        final(ctx).status == old(ctx).status, final(ctx).storage == old(ctx).storage,
        r is Ok ==> recovered(old(w).of(persistence_key), types_of::<A>(), r->Ok_0)
            && numbered(old(w).of(persistence_key), final(ctx).journal.last_sequence_id as int)
            && final(ctx).journal.persistence_id == persistence_key && snap_inv(old(w).of(persistence_key), final(ctx).journal.last_snapshot_sequence_id),
//@start
    proof {
        let log = w.of(persistence_key);
        let last = choose|last: int| numbered(log, last);
        lemma_last_snap(log);
        lemma_recovery_exact(log, last, last_snap_pos(log));
        lemma_numbered_last(log, last);
        w.loads = w.loads + 1;
    }
//@end
pub proof fn lemma_numbered_last(log: Seq<Rec>, last: int)
    requires numbered(log, last)
    ensures ({ let p = last_snap_pos(log); let from = if p < 0 { 0 } else { log[p].seq() }; let es = msgs_after(log, from);
        numbered(log, if es.len() == 0 { from } else { es.last().sequence as int }) })
{
    lemma_last_snap(log);
    let p = last_snap_pos(log);
    let from = if p < 0 { 0 } else { log[p].seq() };
    let es = msgs_after(log, from);
    if log.len() > 0 {
        let n = log.len() - 1;
        if p == n {
            lemma_recovery_exact(log, last, p);
            assert(es.len() == 0);
        } else {
            assert(log[n] is Msg);
            assert(log[n].seq() > from) by { if p >= 0 { assert(log[p].seq() < log[n].seq()); } }
            lemma_max(log, last, from);
            assert(es.len() > 0);
        }
        let m = if es.len() == 0 { from } else { es.last().sequence as int };
        assert(m == log[n].seq());
        assert forall|i: int| 0 <= i < log.len() implies 0 < #[trigger] log[i].seq() <= m by { if i < n { assert(log[i].seq() < log[n].seq()); } }
    }
}


// ------------------------------------------------------------------ failure policies
//@enum F Retry attr=#[derive(Clone,Copy)]
//@enum F PersistFailurePolicy attr=#[derive(Clone,Copy)]
//@enum F RecoveryFailurePolicy attr=#[derive(Clone,Copy)]
//@enum R Recovery attr=#[verifier::reject_recursive_types(A)]
//@effect load_journal,persist_message,persist_batch,persist_snapshot,pre_recovery,post_recovery,on_recovery_err,on_recovery_failed,recover,recover_journal,vload
/// The hooks and policies of a user's actor (assumed: a policy does not change between two attempts
/// of one operation; hooks do not stop the actor or touch the journal).
pub trait PersistentActor: Sized {
    spec fn policy(&self) -> PersistFailurePolicy;
    spec fn rpolicy(&self) -> RecoveryFailurePolicy;
    fn persist_failure_policy(&self) -> (r: PersistFailurePolicy) ensures r == self.policy();
    fn recovery_failure_policy(&self) -> (r: RecoveryFailurePolicy) ensures r == self.rpolicy();
    fn pre_recovery(&mut self, ctx: &mut ActorContext<Self>, Tracked(w): Tracked<&mut World>)
        ensures final(self).key() == old(self).key(), hook(*old(w), *final(w), Hook::Pre), *final(ctx) == *old(ctx), final(self).rpolicy() == old(self).rpolicy();
    fn post_recovery(&mut self, ctx: &mut ActorContext<Self>, Tracked(w): Tracked<&mut World>)
        ensures hook(*old(w), *final(w), Hook::Post), *final(ctx) == *old(ctx);
    fn on_recovery_err(&mut self, e: RecoveryErr, ctx: &mut ActorContext<Self>, Tracked(w): Tracked<&mut World>)
        ensures hook(*old(w), *final(w), Hook::RecoveryErr), *final(ctx) == *old(ctx), final(self).rpolicy() == old(self).rpolicy();
    fn on_recovery_failed(&mut self, ctx: &mut ActorContext<Self>, Tracked(w): Tracked<&mut World>)
        ensures hook(*old(w), *final(w), Hook::RecoveryFailed), *final(ctx) == *old(ctx);
    spec fn key(&self) -> u64;
    fn persistence_key(&self, ctx: &ActorContext<Self>) -> (r: u64) ensures r == self.key();
}
pub open spec fn hook(a: World, b: World, h: Hook) -> bool { b.log == a.log && b.writes == a.writes && b.loads == a.loads && b.trace == a.trace.push(h) }
pub open spec fn gives_up(r: Retry, attempts: int) -> bool { r matches Retry::MaxAttempts { max_attempts, .. } && attempts >= max_attempts }
pub open spec fn attempts_bound(r: Retry) -> int { match r { Retry::MaxAttempts { max_attempts, .. } => if max_attempts >= 1 { max_attempts as int } else { 1 }, _ => -1 } }

//@fn F ::should_retry canary=start generics=<A:PersistentActor>
    ensures r <==> !gives_up(retry, *attempts as int),
        !r ==> final(ctx).status == ActorStatus::Stopping, r ==> final(ctx).status == old(ctx).status,
        final(ctx).journal == old(ctx).journal, final(ctx).storage == old(ctx).storage,
//@end

//@fn A ::check as check
    ensures final(ctx).journal == old(ctx).journal, final(ctx).storage == old(ctx).storage,
        result is Ok ==> r == Some(result) && *final(attempts) == *old(attempts) && final(ctx).status == old(ctx).status,
        result is Err ==> match actor.policy() {
            PersistFailurePolicy::Retry(p) => if gives_up(p, *old(attempts) as int) { r == Some(result) && final(ctx).status == ActorStatus::Stopping }
                else { r is None && *final(attempts) == *old(attempts) + 1 && final(ctx).status == old(ctx).status },
            PersistFailurePolicy::ReturnErr => r == Some(result) && final(ctx).status == old(ctx).status,
            PersistFailurePolicy::StopActor => r == Some(Err::<(), PersistErr>(PersistErr::ActorStopping(Box::new(result->Err_0)))) && final(ctx).status == ActorStatus::Stopping,
            PersistFailurePolicy::Panic => false,
        },
//@end

/// What a failed persist leaves behind, and how many writes were attempted.
pub open spec fn outcome<A: PersistentActor>(p: PersistFailurePolicy, ok: bool, tries: int, s0: ActorStatus, s1: ActorStatus) -> bool {
    &&& tries >= 1
    &&& ok ==> s1 == s0
    &&& !ok ==> match p {
        PersistFailurePolicy::Retry(r) => r is MaxAttempts && tries == attempts_bound(r) && s1 == ActorStatus::Stopping,
        PersistFailurePolicy::ReturnErr => tries == 1 && s1 == s0,
        PersistFailurePolicy::StopActor => tries == 1 && s1 == ActorStatus::Stopping,
        PersistFailurePolicy::Panic => false,
    }
    &&& (p is ReturnErr || p is StopActor || p is Panic) ==> tries == 1
    &&& (p matches PersistFailurePolicy::Retry(r) && r is MaxAttempts) ==> tries <= attempts_bound(p->Retry_0)
}
pub open spec fn journal_ok<A: PersistentActor>(j: Journal<A>, w: World) -> bool { numbered(w.of(j.persistence_id), j.last_sequence_id as int) }

//@fn A trait:PersistentActor::persist canary=start as=persist_persist world impl=none sig="pub fn persist_persist<A: PersistentActor, M: MessageBytes>(actor: &A, message: &M, ctx: &mut ActorContext<A>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), PersistErr>)"
//@rw self ==> actor
//@rw let mut attempts = 1 ==> let mut attempts : usize = 1
    requires journal_ok(old(ctx).journal, *old(w)), old(ctx).journal.last_sequence_id < i64::MAX, old(ctx).journal.types.msg_ty::<M>() is Some,
    ensures final(w).trace == old(w).trace, final(w).loads == old(w).loads, frame(*old(w), *final(w), old(ctx).journal.persistence_id),
        final(ctx).journal.persistence_id == old(ctx).journal.persistence_id, journal_ok(final(ctx).journal, *final(w)),
        ({ let id = old(ctx).journal.persistence_id; let l = old(ctx).journal.last_sequence_id;
           &&& message.enc() is None ==> r is Err && final(w).of(id) == old(w).of(id) && final(w).writes == old(w).writes && final(ctx).status == old(ctx).status
           &&& message.enc() is Some ==> outcome::<A>(actor.policy(), r is Ok, final(w).writes - old(w).writes, old(ctx).status, final(ctx).status)
           // acknowledged: exactly one record, however many attempts it took
           &&& r is Ok ==> final(ctx).journal.last_sequence_id == l + 1
               && final(w).of(id).len() == old(w).of(id).len() + 1 && final(w).of(id).drop_last() =~= old(w).of(id)
               && final(w).of(id).last() is Msg && final(w).of(id).last().seq() == l + 1
               && final(w).of(id).last().entry().bytes@ == message.enc()->0
           &&& r is Err ==> final(w).of(id) == old(w).of(id) && final(ctx).journal.last_sequence_id == l }),
//@loop 0
    invariant w.trace == old(w).trace, w.loads == old(w).loads, frame(*old(w), *w, ctx.journal.persistence_id),
        ctx.journal.persistence_id == old(ctx).journal.persistence_id, ctx.journal.last_sequence_id == old(ctx).journal.last_sequence_id, ctx.journal.types == old(ctx).journal.types,
        w.of(ctx.journal.persistence_id) == old(w).of(ctx.journal.persistence_id), journal_ok(ctx.journal, *w), ctx.journal.last_sequence_id < i64::MAX, ctx.journal.types.msg_ty::<M>() is Some,
        ctx.status == old(ctx).status,
        attempts >= 1, w.writes == old(w).writes + attempts - 1,
        attempts > 1 ==> actor.policy() is Retry,
        attempts > 1 && actor.policy()->Retry_0 is MaxAttempts ==> attempts <= attempts_bound(actor.policy()->Retry_0),
//@end

//@fn A trait:PersistentActor::persist_batch canary=start as=persist_a_batch world impl=none sig="pub fn persist_a_batch<A: PersistentActor>(actor: &A, batch: EventBatch<A>, ctx: &mut ActorContext<A>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), PersistErr>)"
//@rw self ==> actor
//@rw let mut attempts = 1 ==> let mut attempts : usize = 1
    requires journal_ok(old(ctx).journal, *old(w)), old(ctx).journal.last_sequence_id + batch.entries@.len() < i64::MAX,
    ensures final(w).trace == old(w).trace, final(w).loads == old(w).loads, frame(*old(w), *final(w), old(ctx).journal.persistence_id),
        final(ctx).journal.persistence_id == old(ctx).journal.persistence_id, journal_ok(final(ctx).journal, *final(w)),
        ({ let id = old(ctx).journal.persistence_id; let l = old(ctx).journal.last_sequence_id;
           &&& batch.entries@.len() == 0 ==> r is Ok && final(w).of(id) == old(w).of(id) && final(w).writes == old(w).writes
           &&& batch.entries@.len() > 0 ==> outcome::<A>(actor.policy(), r is Ok, final(w).writes - old(w).writes, old(ctx).status, final(ctx).status)
           // acknowledged: the whole batch, in order, once
           &&& r is Ok ==> final(w).of(id) == old(w).of(id) + as_msgs(numbered_batch(batch.entries@, l as int)) && final(ctx).journal.last_sequence_id == l + batch.entries@.len()
           &&& r is Err ==> final(w).of(id) == old(w).of(id) && final(ctx).journal.last_sequence_id == l }),
//@loop 0
    invariant w.trace == old(w).trace, w.loads == old(w).loads, frame(*old(w), *w, ctx.journal.persistence_id),
        ctx.journal.persistence_id == old(ctx).journal.persistence_id, ctx.journal.last_sequence_id == old(ctx).journal.last_sequence_id, ctx.journal.types == old(ctx).journal.types,
        w.of(ctx.journal.persistence_id) == old(w).of(ctx.journal.persistence_id), journal_ok(ctx.journal, *w), ctx.journal.last_sequence_id + batch.entries@.len() < i64::MAX,
        ctx.status == old(ctx).status,
        attempts >= 1, w.writes == old(w).writes + attempts - 1,
        attempts > 1 ==> actor.policy() is Retry,
        attempts > 1 && actor.policy()->Retry_0 is MaxAttempts ==> attempts <= attempts_bound(actor.policy()->Retry_0),
//@end

//@fn A trait:PersistentActor::snapshot canary=start as=persist_snapshot world impl=none sig="pub fn persist_snapshot<A: PersistentActor, S: SnapshotBytes>(actor: &A, snapshot: S, ctx: &mut ActorContext<A>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), PersistErr>)"
//@rw self ==> actor
//@rw let mut attempts = 1 ==> let mut attempts : usize = 1
//@rw bytes . into_bytes ( ) ==> bytes
    requires journal_ok(old(ctx).journal, *old(w)), old(ctx).journal.last_sequence_id < i64::MAX, old(ctx).journal.types.snap_ty::<S>() is Some,
    ensures final(w).trace == old(w).trace, final(w).loads == old(w).loads, frame(*old(w), *final(w), old(ctx).journal.persistence_id),
        final(ctx).journal.persistence_id == old(ctx).journal.persistence_id, journal_ok(final(ctx).journal, *final(w)),
        ({ let id = old(ctx).journal.persistence_id; let l = old(ctx).journal.last_sequence_id;
           &&& snapshot.enc() is None ==> r is Err && final(w).of(id) == old(w).of(id) && final(w).writes == old(w).writes && final(ctx).status == old(ctx).status
           &&& snapshot.enc() is Some ==> outcome::<A>(actor.policy(), r is Ok, final(w).writes - old(w).writes, old(ctx).status, final(ctx).status)
           &&& r is Ok ==> final(ctx).journal.last_sequence_id == l + 1
               && final(w).of(id).len() == old(w).of(id).len() + 1 && final(w).of(id).drop_last() =~= old(w).of(id)
               && final(w).of(id).last() is Snap && final(w).of(id).last().seq() == l + 1
               && final(w).of(id).last().entry().bytes@ == snapshot.enc()->0
           &&& r is Err ==> final(w).of(id) == old(w).of(id) && final(ctx).journal.last_sequence_id == l }),
//@loop 0
    invariant w.trace == old(w).trace, w.loads == old(w).loads, frame(*old(w), *w, ctx.journal.persistence_id),
        ctx.journal.persistence_id == old(ctx).journal.persistence_id, ctx.journal.last_sequence_id == old(ctx).journal.last_sequence_id, ctx.journal.types == old(ctx).journal.types,
        w.of(ctx.journal.persistence_id) == old(w).of(ctx.journal.persistence_id), journal_ok(ctx.journal, *w), ctx.journal.last_sequence_id < i64::MAX, ctx.journal.types.snap_ty::<S>() is Some,
        ctx.status == old(ctx).status,
        attempts >= 1, w.writes == old(w).writes + attempts - 1,
        attempts > 1 ==> actor.policy() is Retry,
        attempts > 1 && actor.policy()->Retry_0 is MaxAttempts ==> attempts <= attempts_bound(actor.policy()->Retry_0),
//@end

pub open spec fn some_numbering(log: Seq<Rec>) -> bool { exists|last: int| numbered(log, last) }
/// Loading the journal under the recovery policy.
pub open spec fn rounds(k: int) -> Seq<Hook> { Seq::new(k as nat, |i: int| Hook::RecoveryErr) }
//@fn R ActorRecovery@A::recover_journal as=recover_journal world impl=none sig="pub fn recover_journal<A: PersistentActor>(actor: &mut A, persistence_key: Option<u64>, ctx: &mut ActorContext<A>, Tracked(w): Tracked<&mut World>) -> (r: Recovery<A>)"
//@rw self ==> actor
//@rw let mut attempts = 1 ==> let mut attempts : usize = 1
//@rw attempts += 1 ==> attempts = vinc ( attempts )
//@rw let mut journal = None ==> let mut journal : Option < RecoveredJournal < A > > = None
    requires some_numbering(old(w).of(match persistence_key { Some(k) => k, None => old(actor).key() })),
    ensures final(w).log == old(w).log, final(w).writes == old(w).writes, final(ctx).storage == old(ctx).storage, final(actor).rpolicy() == old(actor).rpolicy(),
        ({ let id = match persistence_key { Some(k) => k, None => old(actor).key() }; let n = final(w).loads - old(w).loads; let p = old(actor).rpolicy();
           &&& n >= 1
           &&& p is StopActor || p is Panic ==> n == 1
           &&& (p is Retry && p->Retry_0 is MaxAttempts) ==> n <= attempts_bound(p->Retry_0)
           &&& !(r is Disabled)
           // every failed load is reported, in order, and nothing else happens
           &&& final(w).trace == old(w).trace + rounds(if r is Failed { n } else { n - 1 })
           &&& r is Failed ==> final(ctx).status == ActorStatus::Stopping && (p is StopActor || (p is Retry && p->Retry_0 is MaxAttempts && n == attempts_bound(p->Retry_0)))
           &&& r matches Recovery::Recovered(j) ==> final(ctx).status == old(ctx).status && recovered(old(w).of(id), types_of::<A>(), j)
               && journal_ok(final(ctx).journal, *final(w)) && final(ctx).journal.persistence_id == id }),
//@loop 0
    invariant_except_break
        journal is None, w.trace =~= old(w).trace + rounds(attempts - 1), w.loads == old(w).loads + attempts - 1,
        attempts > 1 ==> actor.rpolicy() is Retry,
        attempts > 1 && actor.rpolicy()->Retry_0 is MaxAttempts ==> attempts <= attempts_bound(actor.rpolicy()->Retry_0),
    invariant w.log == old(w).log, w.writes == old(w).writes, ctx.storage == old(ctx).storage, actor.rpolicy() == old(actor).rpolicy(), ctx.status == old(ctx).status,
        some_numbering(old(w).of(persistence_key)),
        attempts >= 1,
    ensures journal is Some, w.loads == old(w).loads + attempts, w.trace =~= old(w).trace + rounds(attempts - 1),
        attempts > 1 ==> actor.rpolicy() is Retry,
        attempts > 1 && actor.rpolicy()->Retry_0 is MaxAttempts ==> attempts <= attempts_bound(actor.rpolicy()->Retry_0),
        recovered(old(w).of(persistence_key), types_of::<A>(), journal->0), journal_ok(ctx.journal, *w), ctx.journal.persistence_id == persistence_key,
//@end

//@fn A trait:PersistentActor::recover as=recover_actor world impl=none sig="pub fn recover_actor<A: PersistentActor>(actor: &mut A, persistence_key: u64, ctx: &mut ActorContext<A>, Tracked(w): Tracked<&mut World>) -> (r: Recovery<A>)"
//@rw self ==> actor
//@rw ActorRecovery :: recover_journal ==> recover_journal
    requires some_numbering(old(w).of(persistence_key)),
    ensures final(w).log == old(w).log, final(w).writes == old(w).writes, final(ctx).storage == old(ctx).storage,
        ({ let n = final(w).loads - old(w).loads;
           &&& n >= 1 && !(r is Disabled)
           &&& final(w).trace == old(w).trace + rounds(if r is Failed { n } else { n - 1 })
           &&& r is Failed ==> final(ctx).status == ActorStatus::Stopping
           &&& r matches Recovery::Recovered(j) ==> final(ctx).status == old(ctx).status && recovered(old(w).of(persistence_key), types_of::<A>(), j)
               && journal_ok(final(ctx).journal, *final(w)) && final(ctx).journal.persistence_id == persistence_key }),
//@end

impl<A: PersistentActor> RecoveryHandlerRef<A> {
    /// Assumed: a handler applies exactly the payload it is given and reports whether it could be decoded.
    #[verifier::external_body]
    pub fn recover(&self, actor: &mut A, sequence: i64, bytes: Vec<u8>, ctx: &mut ActorContext<A>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), RecoveryErr>)
        ensures hook(*old(w), *final(w), Hook::Apply { ty: self.ty(), seq: sequence, bytes: bytes@, ok: r is Ok }), *final(ctx) == *old(ctx)
    { unimplemented!() }
}
//@fn J RecoveredPayload::recover world
    ensures hook(*old(w), *final(w), Hook::Apply { ty: self.handler.ty(), seq: self.sequence, bytes: self.bytes@, ok: r is Ok }), *final(ctx) == *old(ctx)
//@end

/// What a starting actor has to replay: the newest snapshot, then the messages after it.
pub open spec fn plan<A: PersistentActor>(log: Seq<Rec>, t: JournalTypes<A>) -> Seq<JournalEntry> {
    let p = last_snap_pos(log);
    (if p >= 0 && t.snaps().has(log[p].entry().payload_type) { seq![log[p].entry()] } else { seq![] }) + known(t.msgs(), msgs_from(log, p + 1))
}
pub open spec fn apply_of(e: JournalEntry, ok: bool) -> Hook { Hook::Apply { ty: e.payload_type, seq: e.sequence, bytes: e.bytes@, ok } }
pub open spec fn applied(es: Seq<JournalEntry>, k: int) -> Seq<Hook> { Seq::new(k as nat, |i: int| apply_of(es[i], true)) }
/// Either everything was replayed in order and the actor is told so, or the first payload that
/// cannot be replayed is reported, the actor stops, and nothing after it runs.
pub open spec fn startup(es: Seq<JournalEntry>, t1: Seq<Hook>, t: Seq<Hook>, s0: ActorStatus, s1: ActorStatus) -> bool {
    ||| t =~= (t1 + applied(es, es.len() as int)).push(Hook::Post) && s1 == s0
    ||| exists|k: int| 0 <= k < es.len() && t =~= (t1 + #[trigger] applied(es, k)).push(apply_of(es[k], false)).push(Hook::RecoveryErr) && s1 == ActorStatus::Stopping
}
pub open spec fn started_ok<A: PersistentActor>(w0: World, w1: World, key: u64, s0: ActorStatus, s1: ActorStatus) -> bool {
    let n = w1.loads - w0.loads; let t0 = w0.trace.push(Hook::Pre);
    ||| n >= 1 && w1.trace =~= (t0 + rounds(n)).push(Hook::RecoveryFailed) && s1 == ActorStatus::Stopping
    ||| n >= 1 && startup(plan(w0.of(key), types_of::<A>()), t0 + rounds(n - 1), w1.trace, s0, s1)
}
pub proof fn lemma_plan<A: PersistentActor>(log: Seq<Rec>, t: JournalTypes<A>)
    ensures ({ let p = last_snap_pos(log); let ks = known(t.msgs(), msgs_from(log, p + 1)); let es = plan(log, t); let b = es.len() - ks.len();
        &&& es.skip(b) == ks && (b == 0 || b == 1) && (b == 1 <==> p >= 0 && t.snaps().has(log[p].entry().payload_type))
        &&& b == 1 ==> es[0] == log[p].entry() && applied(es, 1) == seq![apply_of(es[0], true)]
        &&& applied(es, 0) == Seq::<Hook>::empty() && es.skip(0) == es })
{
    let p = last_snap_pos(log); let ks = known(t.msgs(), msgs_from(log, p + 1)); let es = plan(log, t); let b = es.len() - ks.len();
    assert(es.skip(b) =~= ks); assert(applied(es, 0) =~= Seq::<Hook>::empty()); assert(es.skip(0) =~= es);
    if b == 1 { assert(applied(es, 1) =~= seq![apply_of(es[0], true)]); }
}
//@fn A Actor@A::started as=started world impl=none sig="pub fn started<A: PersistentActor>(actor: &mut A, ctx: &mut ActorContext<A>, Tracked(w): Tracked<&mut World>)"
//@rw self . recover ( $x... ) ==> recover_actor ( actor , $x... )
//@rw self ==> actor
    requires some_numbering(old(w).of(old(actor).key())),
    ensures final(w).log == old(w).log, final(w).writes == old(w).writes, started_ok::<A>(*old(w), *final(w), old(actor).key(), old(ctx).status, final(ctx).status),
//@start
    proof { lemma_plan(w.of(actor.key()), types_of::<A>()); }
//@loop 0
    invariant ctx.status == old(ctx).status, w.log == old(w).log, w.writes == old(w).writes,
        ({ let es = plan(old(w).of(old(actor).key()), types_of::<A>()); let b = es.len() - it0.seq().len();
           &&& b >= 0 && replays(it0.seq(), es.skip(b)) && w.loads > old(w).loads
           &&& w.trace =~= old(w).trace.push(Hook::Pre) + rounds(w.loads - old(w).loads - 1) + applied(es, b + it0.index@) }),
//@end


/// Serialisation of a message or snapshot (user code; assumed deterministic).
pub trait MessageBytes: Message { spec fn enc(&self) -> Option<Seq<u8>>;
    fn as_bytes(&self) -> (r: Result<Vec<u8>, MessageWrapErr>) ensures r is Ok <==> self.enc() is Some, r is Ok ==> r->Ok_0@ == self.enc()->0; }
pub trait SnapshotBytes: Snapshot + Sized { spec fn enc(&self) -> Option<Seq<u8>>;
    fn into_remote_envelope(self) -> (r: Result<Vec<u8>, MessageWrapErr>) ensures r is Ok <==> self.enc() is Some, r is Ok ==> r->Ok_0@ == self.enc()->0; }
//@enum J RecoveryErr drop=MessageDeserialisation,SnapshotDeserialisation
//@struct R RecoveredJournal attr=#[verifier::reject_recursive_types(A)]
}
fn main(){}
