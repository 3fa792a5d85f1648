//@include head.inc
verus! {
//@include std.inc
//@file P coerce/src/persistent/journal/provider.rs
//@file S coerce/src/persistent/journal/storage.rs
//@# strings are opaque identifiers with decidable equality
//@rw Arc < str > ==> u64
//@rw String ==> u64
//@rw & str ==> & u64
//@rw persistence_id . to_string ( ) ==> * persistence_id
//@rw persistence_id . to_owned ( ) ==> * persistence_id
//@rw anyhow :: Result ==> ARes
//@# the RwLock is a mutual-exclusion cell around the map: one holder at a time
//@rw RwLock < HashMap < $k , $v > > ==> HashMap < $k , $v >
//@rw self . store . write ( ) ==> & mut self . store
//@rw self . store . read ( ) ==> & self . store
//@rw & self ==> & mut self
//@rw [ $i .. ] . viter ( ) ==> . viter_from ( $i )
//@rw mem :: take ( $x... ) ==> vtake ( $x... )

pub struct AnyErr { pub e: u64 }
pub type ARes<T> = Result<T, AnyErr>;
//@struct S JournalEntry
impl Clone for JournalEntry {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@struct P ActorJournal
//@struct P InMemoryJournalStorage
#[verifier::external_body]
pub fn vtake<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }

// ------------------------------------------------------------------ abstraction
pub type Store = Map<u64, ActorJournal>;
pub open spec fn msgs(s: Store, id: u64) -> Seq<JournalEntry> { if s.contains_key(id) { s[id].messages@ } else { Seq::empty() } }
pub open spec fn snaps(s: Store, id: u64) -> Seq<JournalEntry> { if s.contains_key(id) { s[id].snapshots@ } else { Seq::empty() } }
/// Frame: every other persistence id keeps its journal.
pub open spec fn others(old: Store, new: Store, id: u64) -> bool {
    forall|o: u64| o != id ==> #[trigger] new.contains_key(o) == old.contains_key(o) && (old.contains_key(o) ==> new[o] == old[o])
}
pub open spec fn ascending(s: Seq<JournalEntry>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).sequence < (#[trigger] s[j]).sequence
}
pub open spec fn after(s: Seq<JournalEntry>, from: int) -> Seq<JournalEntry> { s.filter(|e: JournalEntry| e.sequence > from) }
pub open spec fn at_least(s: Seq<JournalEntry>, from: int) -> Seq<JournalEntry> { s.filter(|e: JournalEntry| e.sequence >= from) }
pub open spec fn between(s: Seq<JournalEntry>, from: int, to: int) -> Seq<JournalEntry> { s.filter(|e: JournalEntry| e.sequence >= from && e.sequence <= to) }

/// In an ascending journal the entries numbered after `from` are a suffix.
pub proof fn lemma_after(s: Seq<JournalEntry>, from: int)
    requires ascending(s)
    ensures forall|i: int| #![trigger s.skip(i)] 0 <= i <= s.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).sequence <= from)
        && (forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]).sequence > from) ==> after(s, from) == s.skip(i),
        (forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).sequence <= from) ==> after(s, from) == Seq::<JournalEntry>::empty(),
        (forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).sequence > from) ==> after(s, from) == s,
{
    assert forall|i: int| #![trigger s.skip(i)] 0 <= i <= s.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).sequence <= from)
        && (forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]).sequence > from) implies after(s, from) == s.skip(i) by { lemma_suffix(s, from, i); }
    if forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).sequence <= from { lemma_suffix(s, from, s.len() as int); assert(s.skip(s.len() as int) =~= Seq::empty()); }
    if forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).sequence > from { lemma_suffix(s, from, 0); assert(s.skip(0) =~= s); }
}
pub proof fn lemma_suffix(s: Seq<JournalEntry>, from: int, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).sequence <= from, forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]).sequence > from
    ensures after(s, from) == s.skip(i)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|j: int| 0 <= j < p.len() implies p[j] == s[j] by { }
        if i < s.len() { lemma_suffix(p, from, i); assert(s.skip(i) =~= p.skip(i).push(s.last())); assert(s[s.len() - 1].sequence > from); }
        else { lemma_suffix(p, from, i - 1); assert(s.skip(i) =~= p.skip(i - 1)); assert(s[s.len() - 1].sequence <= from); }
    } else { assert(s.skip(i) =~= after(s, from)); }
}
pub proof fn lemma_at_least(s: Seq<JournalEntry>, from: int)
    ensures at_least(s, from) == after(s, from - 1)
{ assert((|e: JournalEntry| e.sequence >= from) =~= (|e: JournalEntry| e.sequence > from - 1)); }
//@fn P ActorJournal::from_snapshot
    ensures r.snapshots@ == seq![entry], r.messages@ == Seq::<JournalEntry>::empty()
//@end
//@fn P ActorJournal::from_message
    ensures r.messages@ == seq![entry], r.snapshots@ == Seq::<JournalEntry>::empty()
//@end
//@fn P ActorJournal::from_messages
    ensures r.messages@ == messages@, r.snapshots@ == Seq::<JournalEntry>::empty()
//@end

//@fn P JournalStorage@InMemoryJournalStorage::write_snapshot
    ensures r is Ok, others(old(self).store@, final(self).store@, *persistence_id),
        snaps(final(self).store@, *persistence_id) == snaps(old(self).store@, *persistence_id).push(entry),
        msgs(final(self).store@, *persistence_id) == msgs(old(self).store@, *persistence_id),
//@end
//@fn P JournalStorage@InMemoryJournalStorage::write_message
    ensures r is Ok, others(old(self).store@, final(self).store@, *persistence_id),
        msgs(final(self).store@, *persistence_id) == msgs(old(self).store@, *persistence_id).push(entry),
        snaps(final(self).store@, *persistence_id) == snaps(old(self).store@, *persistence_id),
//@end
//@fn P JournalStorage@InMemoryJournalStorage::write_message_batch
    ensures r is Ok, others(old(self).store@, final(self).store@, *persistence_id),
        msgs(final(self).store@, *persistence_id) == msgs(old(self).store@, *persistence_id) + entries@,
        snaps(final(self).store@, *persistence_id) == snaps(old(self).store@, *persistence_id),
//@end
//@fn P JournalStorage@InMemoryJournalStorage::read_latest_snapshot
    ensures final(self).store@ == old(self).store@, r is Ok,
        ({ let s = snaps(old(self).store@, *persistence_id); r->Ok_0 == (if s.len() == 0 { None } else { Some(s.last()) }) }),
//@end
//@fn P JournalStorage@InMemoryJournalStorage::read_latest_messages
    requires ascending(msgs(old(self).store@, *persistence_id)), forall|i: int| 0 <= i < msgs(old(self).store@, *persistence_id).len() ==> (#[trigger] msgs(old(self).store@, *persistence_id)[i]).sequence > 0
    ensures final(self).store@ == old(self).store@, r is Ok,
        r->Ok_0 is None <==> !old(self).store@.contains_key(*persistence_id),
        r->Ok_0 is Some ==> r->Ok_0->0@ == after(msgs(old(self).store@, *persistence_id), from_sequence as int),
//@start
    proof { lemma_after(msgs(old(self).store@, *persistence_id), from_sequence as int); }
//@end
//@fn P JournalStorage@InMemoryJournalStorage::read_message
    ensures final(self).store@ == old(self).store@, r is Ok,
        ({ let s = msgs(old(self).store@, *persistence_id);
           match r->Ok_0 {
             Some(e) => e.sequence == sequence_id && s.contains(e),
             None => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sequence != sequence_id } }),
//@end
//@fn P JournalStorage@InMemoryJournalStorage::read_messages
    ensures final(self).store@ == old(self).store@, r is Ok,
        ({ let s = msgs(old(self).store@, *persistence_id);
           &&& s.len() == 0 ==> r->Ok_0 is None || r->Ok_0->0@.len() == 0
           &&& s.len() > 0 ==> r->Ok_0 is Some && r->Ok_0->0@ == between(s, from_sequence as int, to_sequence as int) }),
//@start
    proof { lemma_ref_filter(msgs(old(self).store@, *persistence_id), |e: JournalEntry| e.sequence >= from_sequence && e.sequence <= to_sequence); }
//@end
//@fn P JournalStorage@InMemoryJournalStorage::delete_messages_to
    requires ascending(msgs(old(self).store@, *persistence_id)),
    ensures r is Ok, others(old(self).store@, final(self).store@, *persistence_id),
        snaps(final(self).store@, *persistence_id) == snaps(old(self).store@, *persistence_id),
        msgs(final(self).store@, *persistence_id) == at_least(msgs(old(self).store@, *persistence_id), to_sequence as int),
//@start
    proof { lemma_after(msgs(old(self).store@, *persistence_id), to_sequence - 1); lemma_at_least(msgs(old(self).store@, *persistence_id), to_sequence as int); }
//@end
//@fn P JournalStorage@InMemoryJournalStorage::delete_all
    ensures r is Ok, others(old(self).store@, final(self).store@, *persistence_id),
        !final(self).store@.contains_key(*persistence_id),
//@end
}
fn main(){}
