//@include head.inc
use std::collections::hash_map::VacantEntry;
use std::cmp::Ordering;
verus! {
//@include std.inc
//@file A coerce/src/sharding/coordinator/allocation.rs
//@file M coerce/src/sharding/coordinator/mod.rs
//@file D coerce/src/sharding/coordinator/discovery.rs
//@file B coerce/src/sharding/coordinator/balancing.rs
//@file H coerce/src/sharding/host/mod.rs
//@# strings are opaque identifiers with decidable equality
//@rw String ==> u64
//@rw & self . shard_entity ==> self . shard_entity
//@# a set of exclusive references into the host map: the map, borrowed, and the distinct keys referred to
//@rw Vec < & mut ShardHostState > ==> HostRefs < '_ >
//@rw self . hosts . values_mut ( ) ==> HostRefs :: all ( & mut self . hosts )
//@rw & mut ActorContext ==> & mut Ctx
//@rw & ActorContext ==> & Ctx
//@# a spawned task runs to completion at some later point: its effects are recorded, in its own order
//@rw tokio :: spawn ( async move { $b... } ) ==> { $b... }
//@rw tokio :: spawn ( $b... ) ==> $b...
//@effect broadcast_allocation,broadcast_reallocation,schedule_full_rebalance,persist,allocate,allocate_shard,notify,send,rebalance_shards,rebalance_unavailable_node,handle
pub type NodeId = u64;
pub type ShardId = u32;
#[verifier::reject_recursive_types(A)]
pub struct ActorRef<A> { pub node: u64, pub p: PhantomData<A> }
#[verifier::reject_recursive_types(A)]
pub struct LocalActorRef<A> { pub id: u64, pub p: PhantomData<A> }
impl<A> Clone for ActorRef<A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<A> Clone for LocalActorRef<A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct ShardHost { pub x: u64 }
pub struct Ctx { pub x: u64 }

//@enum M ShardHostStatus attr=#[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct M ShardHostState
//@struct M ShardCoordinator drop=scheduled_rebalance,system_event_subscription,local_shard_host
//@struct A AllocateShard
//@enum A AllocateShardErr
//@enum A AllocateShardResult
//@enum B Rebalance
//@fn M ShardHostState::is_ready
    ensures r <==> self.status == ShardHostStatus::Ready
//@end

// ------------------------------------------------------------------ effects
pub enum Ev {
    /// a host is told the owner of a shard
    Told { to: u64, shard: u32, node: u64 },
    /// a host is told that a shard is about to move
    Moving { to: u64, shard: u32 },
    /// the owner is asked to stop the shard (and whether it confirmed)
    Stop { shard: u32, node: u64 },
    /// the answer to a stop request arrived
    Confirmed,
    /// the coordinator asks itself to allocate
    Reallocate { shard: u32, rebalancing: bool },
    Persist { shard: u32, ok: bool },
    ScheduleRebalance,
}
pub tracked struct World { pub ghost log: Seq<Ev> }

// ------------------------------------------------------------------ host references
pub struct HostRefs<'a> { pub m: &'a mut HashMap<NodeId, ShardHostState>, pub ids: Vec<NodeId> }
pub open spec fn refs_ok(m: Map<u64, ShardHostState>, ids: Seq<u64>) -> bool {
    ids.no_duplicates() && forall|i: int| 0 <= i < ids.len() ==> m.contains_key(#[trigger] ids[i])
}
impl<'a> HostRefs<'a> {
    #[verifier::external_body]
    pub fn all(m: &'a mut HashMap<NodeId, ShardHostState>) -> (r: HostRefs<'a>)
        ensures *r.m == *old(m), *final(m) == *final(r.m), refs_ok(r.m@, r.ids@), forall|k: u64| #![trigger old(m)@.contains_key(k)] #![trigger r.ids@.contains(k)] old(m)@.contains_key(k) <==> r.ids@.contains(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&ShardHostState) -> bool>(self, f: F) -> (r: HostRefs<'a>)
        requires forall|i: int| 0 <= i < self.ids@.len() ==> f.requires((&self.m@[#[trigger] self.ids@[i]],)), refs_ok(self.m@, self.ids@)
        ensures *r.m == *old(self.m), *final(r.m) == *final(self.m), refs_ok(r.m@, r.ids@),
            forall|k: u64| #![trigger r.ids@.contains(k)] r.ids@.contains(k) ==> self.ids@.contains(k) && f.ensures((&old(self.m)@[k],), true),
            forall|k: u64| #![trigger self.ids@.contains(k)] self.ids@.contains(k) && !r.ids@.contains(k) ==> f.ensures((&old(self.m)@[k],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: HostRefs<'a>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn sort_by<F: Fn(&ShardHostState, &ShardHostState) -> Ordering>(&mut self, f: F)
        requires refs_ok(old(self).m@, old(self).ids@),
            forall|i: int, j: int| 0 <= i < old(self).ids@.len() && 0 <= j < old(self).ids@.len() ==> f.requires((&old(self).m@[#[trigger] old(self).ids@[i]], &old(self).m@[#[trigger] old(self).ids@[j]])),
        ensures *final(self).m == *old(self).m, *final(final(self).m) == *final(old(self).m), refs_ok(final(self).m@, final(self).ids@),
            forall|k: u64| #![trigger final(self).ids@.contains(k)] #![trigger old(self).ids@.contains(k)] final(self).ids@.contains(k) <==> old(self).ids@.contains(k),
            forall|i: int| 0 <= i < final(self).ids@.len() ==> old(self).ids@.contains(#[trigger] final(self).ids@[i]), final(self).ids@.len() == old(self).ids@.len(),
            // of two elements, the earlier one does not compare greater
            forall|i: int, j: int| 0 <= i < j < final(self).ids@.len() ==>
                f.ensures((&final(self).m@[#[trigger] final(self).ids@[i]], &final(self).m@[#[trigger] final(self).ids@[j]]), Ordering::Less)
                || f.ensures((&final(self).m@[final(self).ids@[i]], &final(self).m@[final(self).ids@[j]]), Ordering::Equal),
    { unimplemented!() }
    pub fn first_mut(&mut self) -> (r: Option<&mut ShardHostState>)
        requires refs_ok(old(self).m@, old(self).ids@),
        ensures final(self).ids == old(self).ids, *final(final(self).m) == *final(old(self).m),
            match r {
                None => old(self).ids@.len() == 0 && *final(self).m == *old(self).m,
                Some(h) => old(self).ids@.len() > 0 && *h == old(self).m@[old(self).ids@[0]] && final(self).m@ == old(self).m@.insert(old(self).ids@[0], *final(h)),
            },
    {
        if self.ids.len() == 0 { None } else {
            let k = self.ids[0];
            let ghost f = *final(self.m);
            vget_mut(self.m, k)
        }
    }
    #[verifier::external_body]
    pub fn viter<'b>(&'b self) -> (r: VIter<&'b ShardHostState>)
        requires refs_ok(self.m@, self.ids@),
        ensures r@.len() == self.ids@.len(), forall|i: int| #![trigger r@[i]] #![trigger self.ids@[i]] 0 <= i < self.ids@.len() ==> *r@[i] == old(self.m)@[self.ids@[i]]
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vget_mut<'a>(m: &'a mut HashMap<NodeId, ShardHostState>, k: NodeId) -> (r: Option<&'a mut ShardHostState>)
    ensures match r { Some(h) => old(m)@.contains_key(k) && *h == old(m)@[k] && final(m)@ == old(m)@.insert(k, *final(h)), None => !old(m)@.contains_key(k) && *final(m) == *old(m) }
{ unimplemented!() }
pub open spec fn nodes_of(s: Seq<ActorRef<ShardHost>>) -> Seq<u64> { s.map_values(|a: ActorRef<ShardHost>| a.node) }

// ------------------------------------------------------------------ ownership
pub type Hosts = Map<u64, ShardHostState>;
pub type Shards = Map<u32, u64>;
/// Every host is filed under its own id, and what it holds is what the coordinator says it holds.
pub open spec fn sound(h: Hosts, s: Shards) -> bool {
    &&& forall|n: u64| #[trigger] h.contains_key(n) ==> h[n].node_id == n
    &&& forall|n: u64, k: u32| h.contains_key(n) && #[trigger] h[n].shards@.contains(k) ==> s.contains_key(k) && s[k] == n
}
/// Every owner the coordinator knows of is a known host that holds the shard.
pub open spec fn complete(h: Hosts, s: Shards) -> bool { forall|k: u32| #[trigger] s.contains_key(k) ==> h.contains_key(s[k]) && h[s[k]].shards@.contains(k) }
/// The two views of who owns what agree.
pub open spec fn consistent(h: Hosts, s: Shards) -> bool { sound(h, s) && complete(h, s) }
pub open spec fn ready(h: Hosts, n: u64) -> bool { h.contains_key(n) && h[n].status == ShardHostStatus::Ready }
pub open spec fn load(h: Hosts, n: u64) -> nat { h[n].shards@.len() }
/// Everything about a host but the shards it owns.
pub open spec fn same_host(a: ShardHostState, b: ShardHostState) -> bool { a.node_id == b.node_id && a.status == b.status && a.actor == b.actor && a.node_tag == b.node_tag }
/// `n` was given shard `k`, nothing else changed.
pub open spec fn gave(h0: Hosts, s0: Shards, h1: Hosts, s1: Shards, k: u32, n: u64) -> bool {
    &&& s1 == s0.insert(k, n)
    &&& h1.dom() == h0.dom() && h0.contains_key(n) && same_host(h0[n], h1[n]) && h1[n].shards@ == h0[n].shards@.insert(k)
    &&& forall|m: u64| m != n && h0.contains_key(m) ==> #[trigger] h1[m] == h0[m]
}
/// The new owner is announced to every ready host.
pub open spec fn announced(h0: Hosts, w0: World, w1: World, k: u32, n: u64) -> bool {
    &&& w1.log.len() >= w0.log.len() && w1.log.take(w0.log.len() as int) == w0.log
    &&& forall|i: int| w0.log.len() <= i < w1.log.len() ==> (#[trigger] w1.log[i] matches Ev::Told { to, shard, node } && shard == k && node == n)
    &&& forall|m: u64| #[trigger] ready(h0, m) ==> told(w0, w1, h0[m].actor.node, k, n)
}
pub open spec fn told(w0: World, w1: World, x: u64, k: u32, n: u64) -> bool { exists|i: int| w0.log.len() <= i < w1.log.len() && #[trigger] w1.log[i] == (Ev::Told { to: x, shard: k, node: n }) }
/// The allocation rule: an unowned shard goes to a ready host that owns no more shards than any other ready host.
pub open spec fn placed(h0: Hosts, s0: Shards, h1: Hosts, s1: Shards, k: u32, r: AllocateShardResult, w0: World, w1: World) -> bool {
    match r {
        AllocateShardResult::Allocated(k2, n) => k2 == k && ready(h0, n) && (forall|m: u64| ready(h0, m) ==> load(h0, n) <= #[trigger] load(h0, m))
            && gave(h0, s0, h1, s1, k, n)
            && announced(h0, w0, w1, k, n),
        AllocateShardResult::NotAllocated => (forall|m: u64| !#[trigger] ready(h0, m)) && h1 =~= h0 && s1 =~= s0 && w1 == w0,
        _ => false,
    }
}

pub struct ShardAllocated(pub ShardId, pub NodeId);
pub struct ShardReallocating(pub ShardId);
pub struct RefErr { pub x: u64 }
pub trait ToHost { spec fn ev(&self, to: u64) -> Ev; }
impl ToHost for ShardAllocated { open spec fn ev(&self, to: u64) -> Ev { Ev::Told { to, shard: self.0, node: self.1 } } }
impl ToHost for ShardReallocating { open spec fn ev(&self, to: u64) -> Ev { Ev::Moving { to, shard: self.0 } } }
impl ActorRef<ShardHost> {
    #[verifier::external_body]
    pub fn node_id(&self) -> (r: Option<NodeId>) { unimplemented!() }
    /// Assumed: a send is one message to that host (delivery is the transport's contract).
    #[verifier::external_body]
    pub fn send<M: ToHost>(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<(), RefErr>) ensures final(w).log == old(w).log.push(m.ev(self.node)) { unimplemented!() }
}
//@fn A ::broadcast_allocation world
//@rw let mut futures = vec ! [ ] ==> let futures = ( )
//@rw futures . push ( async move { $b... } ) ==> { $b... }
//@rw join_all ( futures ) ==> futures
    ensures final(w).log == old(w).log + hosts@.map_values(|h: ActorRef<ShardHost>| Ev::Told { to: h.node, shard: shard_id, node: node_id }),
        forall|i: int| #![trigger hosts@[i]] 0 <= i < hosts@.len() ==> told(*old(w), *final(w), hosts@[i].node, shard_id, node_id),
//@start
    let ghost hs = hosts@;
//@tail
    proof { assert(hs.take(hs.len() as int) =~= hs);
        assert forall|i: int| #![trigger hs[i]] 0 <= i < hs.len() implies told(*old(w), *w, hs[i].node, shard_id, node_id) by { assert(w.log[old(w).log.len() + i] == (Ev::Told { to: hs[i].node, shard: shard_id, node: node_id })); } }
//@loop 0
    invariant it0.seq() == hs, w.log =~= old(w).log + it0.seq().take(it0.index@).map_values(|h: ActorRef<ShardHost>| Ev::Told { to: h.node, shard: shard_id, node: node_id })
//@end

//@fn A ::allocate world
    requires refs_ok(hosts.m@, hosts.ids@), forall|k: u64| #[trigger] hosts.ids@.contains(k) ==> hosts.m@[k].node_id == k,
        forall|k: u64| #[trigger] hosts.ids@.contains(k) ==> !hosts.m@[k].shards@.contains(shard_id),
    ensures hosts.ids@.len() == 0 ==> r is NotAllocated && shard_entry.final_value() is None && final(hosts.m)@ == old(hosts.m)@ && *final(w) == *old(w),
        hosts.ids@.len() > 0 ==> r is Allocated && ({ let n = r->Allocated_1; let h0 = old(hosts.m)@; let h1 = final(hosts.m)@;
            &&& r->Allocated_0 == shard_id && shard_entry.final_value() == Some(n) && hosts.ids@.contains(n)
            &&& forall|k: u64| #[trigger] hosts.ids@.contains(k) ==> load(h0, n) <= load(h0, k)
            &&& h1.dom() == h0.dom() && same_host(h0[n], h1[n]) && h1[n].shards@ == h0[n].shards@.insert(shard_id)
            &&& forall|m: u64| m != n && h0.contains_key(m) ==> #[trigger] h1[m] == h0[m]
            &&& final(w).log.len() >= old(w).log.len() && final(w).log.take(old(w).log.len() as int) == old(w).log
            &&& forall|i: int| old(w).log.len() <= i < final(w).log.len() ==> (#[trigger] final(w).log[i] matches Ev::Told { to, shard, node } && shard == shard_id && node == n)
            &&& forall|k: u64| #[trigger] hosts.ids@.contains(k) ==> told(*old(w), *final(w), h0[k].actor.node, shard_id, n) }),
//@closure 0
    -> (o: Ordering) ensures o is Greater <==> h1.shards@.len() > h2.shards@.len()
//@end

impl ShardCoordinator { pub open spec fn ok(&self) -> bool { consistent(self.hosts@, self.shards@) } }

//@fn A ShardCoordinator::allocate_shard world
    requires sound(old(self).hosts@, old(self).shards@),
    ensures sound(final(self).hosts@, final(self).shards@), complete(old(self).hosts@, old(self).shards@) ==> final(self).ok(),
        final(self).self_node_id == old(self).self_node_id,
        old(self).shards@.contains_key(shard_id) ==> r == AllocateShardResult::AlreadyAllocated(shard_id, old(self).shards@[shard_id])
            && final(self).hosts@ == old(self).hosts@ && final(self).shards@ == old(self).shards@ && *final(w) == *old(w),
        !old(self).shards@.contains_key(shard_id) ==> placed(old(self).hosts@, old(self).shards@, final(self).hosts@, final(self).shards@, shard_id, r, *old(w), *final(w)),
//@closure 0
    -> (b: bool) ensures b <==> n.status == ShardHostStatus::Ready
//@end

pub struct PersistErr { pub e: u64 }
impl ShardCoordinator {
    /// Storage (contract C01); assumed: one record on Ok, none on Err.
    #[verifier::external_body]
    pub fn persist(&self, m: &AllocateShard, ctx: &mut Ctx, Tracked(w): Tracked<&mut World>) -> (r: Result<(), PersistErr>)
        ensures final(w).log == old(w).log.push(Ev::Persist { shard: m.shard_id, ok: r is Ok })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn schedule_full_rebalance(&mut self, ctx: &Ctx, Tracked(w): Tracked<&mut World>)
        ensures *final(self) == *old(self), final(w).log == old(w).log.push(Ev::ScheduleRebalance)
    { unimplemented!() }
}
pub open spec fn same_state(a: ShardCoordinator, b: ShardCoordinator) -> bool { a.hosts@ =~= b.hosts@ && a.shards@ =~= b.shards@ && a.self_node_id == b.self_node_id }

//@fn A Handler<AllocateShard>@ShardCoordinator::handle as=handle_allocate world
    requires old(self).ok(),
    ensures final(self).ok(), final(self).self_node_id == old(self).self_node_id,
        ({ let k = message.shard_id; let h0 = old(self).hosts@; let s0 = old(self).shards@;
           if s0.contains_key(k) { r == AllocateShardResult::AlreadyAllocated(k, s0[k]) && same_state(*old(self), *final(self)) && *final(w) == *old(w) }
           else if message.rebalancing { placed(h0, s0, final(self).hosts@, final(self).shards@, k, r, *old(w), *final(w)) }
           else {
               // a new owner is given only after the allocation is recorded
               ||| r == AllocateShardResult::Err(AllocateShardErr::Persistence) && same_state(*old(self), *final(self)) && final(w).log == old(w).log.push(Ev::Persist { shard: k, ok: false })
               ||| placed(h0, s0, final(self).hosts@, final(self).shards@, k, r, World { log: old(w).log.push(Ev::Persist { shard: k, ok: true }) }, *final(w))
           } }),
//@end

//@fn A Recover<AllocateShard>@ShardCoordinator::recover as=recover_allocate world
    requires old(self).ok(),
    ensures final(self).ok(), final(self).self_node_id == old(self).self_node_id,
        // the recovered shard is owned again as soon as any host is ready; every other owner is kept
        (exists|m: u64| ready(old(self).hosts@, m)) ==> final(self).shards@.contains_key(message.shard_id),
        forall|k: u32| k != message.shard_id ==> (#[trigger] final(self).shards@.contains_key(k) <==> old(self).shards@.contains_key(k)) && (old(self).shards@.contains_key(k) ==> final(self).shards@[k] == old(self).shards@[k]),
        old(self).shards@.contains_key(message.shard_id) ==> same_state(*old(self), *final(self)),
//@end

//@fn A ::broadcast_reallocation world
//@rw let mut futures = vec ! [ ] ==> let futures = ( )
//@rw futures . push ( async move { $b... } ) ==> { $b... }
//@rw join_all ( futures ) ==> futures
    ensures final(w).log == old(w).log + hosts@.map_values(|h: ActorRef<ShardHost>| Ev::Moving { to: h.node, shard: shard_id }),
//@start
    let ghost hs = hosts@;
//@tail
    proof { assert(hs.take(hs.len() as int) =~= hs); }
//@loop 0
    invariant it0.seq() == hs, w.log =~= old(w).log + hs.take(it0.index@).map_values(|h: ActorRef<ShardHost>| Ev::Moving { to: h.node, shard: shard_id })
//@end

// ------------------------------------------------------------------ hosts coming and going
pub struct RemoteNode { pub id: NodeId, pub tag: u64, pub addr: u64 }
pub struct RemoteActorSystem { pub x: u64 }
impl Clone for RemoteActorSystem {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct Sys { pub x: u64 }
impl Ctx {
    #[verifier::external_body]
    pub fn system(&self) -> (r: Sys) { unimplemented!() }
    #[verifier::external_body]
    pub fn actor_ref(&self) -> (r: LocalActorRef<ShardCoordinator>) { unimplemented!() }
}
impl Sys {
    #[verifier::external_body]
    pub fn remote_owned(&self) -> (r: RemoteActorSystem) { unimplemented!() }
    #[verifier::external_body]
    pub fn remote(&self) -> (r: &RemoteActorSystem) { unimplemented!() }
}
impl ShardHost {
    /// Assumed: the reference of the shard host on that node.
    #[verifier::external_body]
    pub fn remote_ref(entity: u64, node_id: NodeId, r: &RemoteActorSystem) -> (a: ActorRef<ShardHost>) ensures a.node == node_id { unimplemented!() }
}
//@fn M ShardCoordinator::add_host
    requires old(self).ok(), !old(self).hosts@.contains_key(host.node_id), host.shards@.len() == 0,
    ensures final(self).ok(), final(self).shards@ == old(self).shards@, final(self).hosts@ == old(self).hosts@.insert(host.node_id, host),
//@tail
    proof { assert(host.shards@ =~= Set::<u32>::empty()); }
//@end

//@fn D ShardCoordinator::on_node_discovered world
    requires old(self).ok(),
    ensures final(self).ok(), final(self).shards@ == old(self).shards@, ready(final(self).hosts@, new_node.id),
        ({ let h0 = old(self).hosts@; let h1 = final(self).hosts@; let n = new_node.id;
           &&& h1.dom() =~= h0.dom().insert(n)
           &&& forall|m: u64| m != n && h0.contains_key(m) ==> #[trigger] h1[m] == h0[m]
           &&& h0.contains_key(n) ==> h1[n].shards == h0[n].shards && h1[n].actor == h0[n].actor
           &&& !h0.contains_key(n) ==> h1[n].shards@ == Set::<u32>::empty() && h1[n].actor.node == n
           &&& final(w).log == (if ready(h0, n) { old(w).log } else { old(w).log.push(Ev::ScheduleRebalance) }) }),
//@end

// ------------------------------------------------------------------ moving shards
#[derive(Clone, Copy)]
pub struct Uuid { pub x: u128 }
impl Uuid { #[verifier::external_body] pub fn new_v4() -> (r: Uuid) { unimplemented!() } }
pub struct StopShard { pub shard_id: ShardId, pub origin_node_id: NodeId, pub request_id: Uuid }
impl ToHost for StopShard { open spec fn ev(&self, to: u64) -> Ev { Ev::Stop { shard: self.shard_id, node: to } } }
impl ActorRef<ShardHost> {
    #[verifier::external_body]
    pub fn notify<M: ToHost>(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<(), RefErr>) ensures final(w).log == old(w).log.push(m.ev(self.node)) { unimplemented!() }
}
impl LocalActorRef<ShardCoordinator> {
    #[verifier::external_body]
    pub fn send(&self, m: AllocateShard, Tracked(w): Tracked<&mut World>) -> (r: Result<AllocateShardResult, RefErr>) ensures final(w).log == old(w).log.push(Ev::Reallocate { shard: m.shard_id, rebalancing: m.rebalancing }) { unimplemented!() }
}
pub struct Tx { pub x: u64 }
pub struct RpcResult { pub x: u64 }
/// Assumed: the answer to a StopShard request, if one arrives, carries a payload (hosts never answer it with an error).
impl RpcResult { #[verifier::external_body] pub fn payload(self) -> (r: Vec<u8>) { unimplemented!() } }
#[verifier::external_body]
pub fn vchannel() -> (r: (Tx, Result<RpcResult, RefErr>)) { unimplemented!() }
impl RemoteActorSystem { #[verifier::external_body] pub fn push_request(&self, id: Uuid, tx: Tx) { unimplemented!() } }
pub struct ShardStopped { pub x: u64 }
impl ShardStopped {
    #[verifier::external_body]
    pub fn from_bytes(b: Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<ShardStopped, RefErr>)
        ensures r is Ok ==> final(w).log == old(w).log.push(Ev::Confirmed), r is Err ==> *final(w) == *old(w)
    { unimplemented!() }
}
pub trait VPairs { fn vpairs<'a>(&'a self) -> (r: Vec<(&'a NodeId, &'a ShardHostState)>); }
impl VPairs for HashMap<NodeId, ShardHostState> {
    #[verifier::external_body]
    fn vpairs<'a>(&'a self) -> (r: Vec<(&'a NodeId, &'a ShardHostState)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i]).0) && *r@[i].1 == self@[*r@[i].0],
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).0 != *(#[trigger] r@[j]).0,
            forall|n: u64| #[trigger] self@.contains_key(n) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == n,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vset<'a>(x: &'a HashSet<u32>) -> (r: Vec<&'a u32>)
    ensures r@.len() == x@.len(), forall|i: int| 0 <= i < r@.len() ==> x@.contains(*#[trigger] r@[i]),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]) != *(#[trigger] r@[j]),
        forall|k: u32| #[trigger] x@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k,
{ unimplemented!() }
#[verifier::external_body]
pub fn vset_into(x: HashSet<u32>) -> (r: Vec<u32>)
    ensures r@.len() == x@.len(), r@.no_duplicates(), forall|k: u32| #![trigger x@.contains(k)] #![trigger r@.contains(k)] x@.contains(k) <==> r@.contains(k),
        forall|i: int| 0 <= i < r@.len() ==> x@.contains(#[trigger] r@[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vtake(x: &mut HashSet<u32>) -> (r: HashSet<u32>) ensures r == *old(x), final(x)@ == Set::<u32>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vclone<T>(x: &Vec<T>) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }

/// The shards `ks` were taken from their owners; every other shard stays where it is.
#[verifier::opaque]
pub open spec fn released(h0: Hosts, s0: Shards, h1: Hosts, s1: Shards, ks: Seq<u32>) -> bool {
    &&& h1.dom() == h0.dom()
    &&& forall|n: u64| #[trigger] h0.contains_key(n) ==> same_host(h0[n], h1[n])
    &&& forall|n: u64, k: u32| h0.contains_key(n) ==> (#[trigger] h1[n].shards@.contains(k) <==> h0[n].shards@.contains(k) && !ks.contains(k))
    &&& forall|k: u32| #[trigger] s1.contains_key(k) <==> s0.contains_key(k) && !ks.contains(k)
    &&& forall|k: u32| s1.contains_key(k) ==> #[trigger] s1[k] == s0[k]
}
/// One shard leaves its owner (if it has one).
pub open spec fn release_step(h0: Hosts, s0: Shards, h1: Hosts, s1: Shards, k: u32) -> bool {
    &&& !s0.contains_key(k) ==> h1 == h0 && s1 == s0
    &&& s0.contains_key(k) ==> s1 == s0.remove(k) && h1.dom() == h0.dom() && same_host(h0[s0[k]], h1[s0[k]]) && h1[s0[k]].shards@ == h0[s0[k]].shards@.remove(k)
        && (forall|m: u64| m != s0[k] && h0.contains_key(m) ==> #[trigger] h1[m] == h0[m])
}
pub proof fn lemma_release(h0: Hosts, s0: Shards, h1: Hosts, s1: Shards, h2: Hosts, s2: Shards, ks: Seq<u32>, k: u32)
    requires released(h0, s0, h1, s1, ks), release_step(h1, s1, h2, s2, k), consistent(h1, s1)
    ensures released(h0, s0, h2, s2, ks.push(k)), consistent(h2, s2)
{
    reveal(released);
    assert forall|x: u32| #[trigger] ks.push(k).contains(x) <==> ks.contains(x) || x == k by {
        if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; assert(ks.push(k)[i] == x); }
        if x == k { assert(ks.push(k)[ks.len() as int] == k); }
    }
    assert forall|n: u64, x: u32| h0.contains_key(n) implies (#[trigger] h2[n].shards@.contains(x) <==> h0[n].shards@.contains(x) && !ks.push(k).contains(x)) by {
        assert(h1[n].shards@.contains(x) <==> h0[n].shards@.contains(x) && !ks.contains(x));
        if x == k && h1[n].shards@.contains(k) { assert(s1.contains_key(k) && s1[k] == n); }
    }
    assert forall|n: u64| #[trigger] h0.contains_key(n) implies same_host(h0[n], h2[n]) by { assert(same_host(h0[n], h1[n])); }
    assert forall|n: u64, x: u32| h2.contains_key(n) && #[trigger] h2[n].shards@.contains(x) implies s2.contains_key(x) && s2[x] == n by { assert(h1[n].shards@.contains(x)); }
    assert forall|x: u32| #[trigger] s2.contains_key(x) implies h2.contains_key(s2[x]) && h2[s2[x]].shards@.contains(x) by { assert(s1.contains_key(x)); }
    assert forall|n: u64| #[trigger] h2.contains_key(n) implies h2[n].node_id == n by { assert(h1.contains_key(n)); }
}
/// Only the owner of a shard is asked to stop it, and it is given away again only after that owner answered.
pub open spec fn handover_ev(h0: Hosts, s0: Shards, w0: World, w1: World, ks: Seq<u32>) -> bool {
    &&& w1.log.len() >= w0.log.len() && w1.log.take(w0.log.len() as int) =~= w0.log
    &&& forall|i: int| w0.log.len() <= i < w1.log.len() ==> match #[trigger] w1.log[i] {
        Ev::Moving { to, shard } => true,
        Ev::Stop { shard, node } => ks.contains(shard) && s0.contains_key(shard) && h0[s0[shard]].actor.node == node,
        Ev::Confirmed => i > w0.log.len() && w1.log[i - 1] is Stop,
        Ev::Reallocate { shard, rebalancing } => rebalancing && i > w0.log.len() + 1 && w1.log[i - 1] is Confirmed && (w1.log[i - 2] matches Ev::Stop { shard: k, .. } && k == shard),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn handover(h0: Hosts, s0: Shards, w0: World, w1: World, ks: Seq<u32>) -> bool {
    &&& handover_ev(h0, s0, w0, w1, ks)
    &&& forall|k: u32| ks.contains(k) && #[trigger] s0.contains_key(k) ==> stopped(w0, w1, k)
}
pub open spec fn stopped(w0: World, w1: World, k: u32) -> bool { exists|i: int| w0.log.len() <= i < w1.log.len() && (#[trigger] w1.log[i] matches Ev::Stop { shard, .. } && shard == k) }
/// What one iteration appends.
pub open spec fn stop_step(moves: Seq<Ev>, k: u32, node: u64, owned: bool, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
    ||| !owned && l1 == l0 + moves
    ||| owned && l1 == (l0 + moves).push(Ev::Stop { shard: k, node })
    ||| owned && l1 == (l0 + moves).push(Ev::Stop { shard: k, node }).push(Ev::Confirmed)
    ||| owned && l1 == (l0 + moves).push(Ev::Stop { shard: k, node }).push(Ev::Confirmed).push(Ev::Reallocate { shard: k, rebalancing: true })
}
pub proof fn lemma_handover(h0: Hosts, s0: Shards, h1: Hosts, s1: Shards, w0: World, w1: World, w2: World, ks: Seq<u32>, k: u32, moves: Seq<Ev>)
    requires handover(h0, s0, w0, w1, ks), released(h0, s0, h1, s1, ks), complete(h0, s0),
        forall|i: int| 0 <= i < moves.len() ==> #[trigger] moves[i] is Moving,
        stop_step(moves, k, h1[s1[k]].actor.node, s1.contains_key(k), w1.log, w2.log),
    ensures handover(h0, s0, w0, w2, ks.push(k))
{
    reveal(released); reveal(handover);
    assert forall|x: u32| #[trigger] ks.push(k).contains(x) <==> ks.contains(x) || x == k by {
        if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; assert(ks.push(k)[i] == x); }
        if x == k { assert(ks.push(k)[ks.len() as int] == k); }
    }
    if s1.contains_key(k) { assert(s0.contains_key(k) && h0.contains_key(s0[k])); assert(same_host(h0[s0[k]], h1[s0[k]])); assert(s1[k] == s0[k]); }
    let n1 = w1.log.len() as int; let m = moves.len() as int;
    assert(w2.log.take(w0.log.len() as int) =~= w1.log.take(w0.log.len() as int));
    assert forall|i: int| 0 <= i < n1 implies w2.log[i] == w1.log[i] by {}
    assert forall|i: int| n1 <= i < n1 + m implies w2.log[i] == moves[i - n1] by {}
    assert forall|x: u32| ks.push(k).contains(x) && #[trigger] s0.contains_key(x) implies stopped(w0, w2, x) by {
        if ks.contains(x) { assert(stopped(w0, w1, x)); let i = choose|i: int| w0.log.len() <= i < w1.log.len() && (#[trigger] w1.log[i] matches Ev::Stop { shard, .. } && shard == x); assert(w2.log[i] == w1.log[i]); }
        else { assert(x == k && s1.contains_key(k)); assert(w2.log[n1 + m] is Stop); }
    }
    assert(handover_ev(h0, s0, w0, w2, ks.push(k)));
}

//@fn B ShardCoordinator::rebalance_shards world
//@rw let mut shard_reallocation_tasks = vec ! [ ] ; ==>
//@rw let shard_reallocation_tasks = shard_reallocation_tasks ; ==>
//@rw join_all ( shard_reallocation_tasks ) ; ==>
//@rw shard_reallocation_tasks . push ( async move { $b... } ) ==> { $b... }
//@rw self . hosts . iter ( ) ==> self . hosts . vpairs ( ) . vinto_iter ( )
//@rw . collect :: < Vec < ActorRef < ShardHost > > > ( ) ==> . collect ( )
//@rw shards . clone ( ) ==> vclone ( & shards )
//@rw hosts . clone ( ) ==> vclone ( & hosts )
//@rw oneshot :: channel ( ) ==> vchannel ( )
//@rw . into_result ( ) . unwrap ( ) ==> . payload ( )
//@rw ShardStopped :: from_bytes ( $x... ) ==> ShardStopped :: from_bytes ( $x... , Tracked ( & mut * w ) )
    requires old(self).ok(), old(self).self_node_id is Some,
    ensures final(self).ok(), final(self).self_node_id == old(self).self_node_id,
        released(old(self).hosts@, old(self).shards@, final(self).hosts@, final(self).shards@, shards@),
        handover(old(self).hosts@, old(self).shards@, *old(w), *final(w), shards@),
//@start
    let ghost ks = shards@;
    proof { reveal(released); reveal(handover); assert(ks.take(0) =~= Seq::<u32>::empty()); }
//@tail
    proof { assert(ks.take(ks.len() as int) =~= ks); }
//@loopstart 0
    let ghost h = self.hosts@; let ghost s = self.shards@; let ghost w1 = *w;
    let ghost moves = hosts@.map_values(|h: ActorRef<ShardHost>| Ev::Moving { to: h.node, shard: shard });
//@loopend 0
    proof {
        assert(ks.take(it0.index@ + 1) =~= ks.take(it0.index@).push(shard));
        if s.contains_key(shard) { assert(self.shards@ =~= s.remove(shard)); assert(self.hosts@.dom() =~= h.dom()); } else { assert(self.shards@ =~= s); }
        lemma_release(old(self).hosts@, old(self).shards@, h, s, self.hosts@, self.shards@, ks.take(it0.index@), shard);
        lemma_handover(old(self).hosts@, old(self).shards@, h, s, *old(w), w1, *w, ks.take(it0.index@), shard, moves);
    }
//@loop 0
    invariant self.ok(), self.self_node_id == old(self).self_node_id, it0.seq() == ks, shards@ == ks,
        released(old(self).hosts@, old(self).shards@, self.hosts@, self.shards@, ks.take(it0.index@)),
        handover(old(self).hosts@, old(self).shards@, *old(w), *w, ks.take(it0.index@)),
//@end

pub open spec fn others_ready(h: Hosts, node: u64) -> bool { exists|m: u64| m != node && #[trigger] ready(h, m) }
/// Host `node` is out: it holds nothing, its shards went to ready hosts (or are unowned when there is none),
/// and no other shard changed owner.
pub open spec fn evacuated(h0: Hosts, s0: Shards, h1: Hosts, s1: Shards, node: u64) -> bool {
    &&& h1.dom() =~= h0.dom() && h1[node].status == ShardHostStatus::Unavailable && h1[node].shards@ == Set::<u32>::empty()
    &&& forall|m: u64| m != node && #[trigger] h0.contains_key(m) ==> same_host(h0[m], h1[m])
    &&& forall|k: u32| s0.contains_key(k) && s0[k] != node ==> #[trigger] s1.contains_key(k) && s1[k] == s0[k]
    &&& forall|k: u32| s0.contains_key(k) && s0[k] == node ==> if others_ready(h0, node) { #[trigger] s1.contains_key(k) && s1[k] != node && ready(h1, s1[k]) } else { !s1.contains_key(k) }
    &&& forall|k: u32| #[trigger] s1.contains_key(k) ==> s0.contains_key(k)
}
//@fn B ShardCoordinator::rebalance_unavailable_node world
//@rw mem :: take ( $x... ) ==> vset_into ( vtake ( $x... ) )
    requires old(self).ok(),
    ensures final(self).ok(), final(self).self_node_id == old(self).self_node_id,
        !old(self).hosts@.contains_key(node_id) ==> same_state(*old(self), *final(self)) && *final(w) == *old(w),
        old(self).hosts@.contains_key(node_id) ==> evacuated(old(self).hosts@, old(self).shards@, final(self).hosts@, final(self).shards@, node_id),
//@loop 0
    invariant old(self).ok(), old(self).hosts@.contains_key(node_id), self.self_node_id == old(self).self_node_id,
        forall|k: u32| #![trigger it0.seq().contains(k)] it0.seq().contains(k) <==> old(self).shards@.contains_key(k) && old(self).shards@[k] == node_id, it0.seq().no_duplicates(),
        forall|i: int| 0 <= i < it0.seq().len() ==> it0.seq().contains(#[trigger] it0.seq()[i]),
        sound(self.hosts@, self.shards@), self.hosts@.dom() =~= old(self).hosts@.dom(),
        self.hosts@[node_id].status == ShardHostStatus::Unavailable, self.hosts@[node_id].shards@ == Set::<u32>::empty(),
        forall|m: u64| m != node_id && #[trigger] old(self).hosts@.contains_key(m) ==> same_host(old(self).hosts@[m], self.hosts@[m]),
        forall|k: u32| old(self).shards@.contains_key(k) && old(self).shards@[k] != node_id ==> #[trigger] self.shards@.contains_key(k) && self.shards@[k] == old(self).shards@[k],
        forall|k: u32| #[trigger] self.shards@.contains_key(k) ==> old(self).shards@.contains_key(k),
        forall|k: u32| #[trigger] self.shards@.contains_key(k) && self.shards@[k] != node_id ==> self.hosts@.contains_key(self.shards@[k]) && self.hosts@[self.shards@[k]].shards@.contains(k),
        forall|i: int| it0.index@ <= i < it0.seq().len() ==> self.shards@.contains_key(#[trigger] it0.seq()[i]) && self.shards@[it0.seq()[i]] == node_id,
        forall|i: int| 0 <= i < it0.index@ ==> if others_ready(old(self).hosts@, node_id) { self.shards@.contains_key(#[trigger] it0.seq()[i]) && self.shards@[it0.seq()[i]] != node_id && ready(self.hosts@, self.shards@[it0.seq()[i]]) } else { !self.shards@.contains_key(it0.seq()[i]) },
//@loopstart 0
    proof { assert forall|m: u64| #![trigger ready(old(self).hosts@, m)] #![trigger ready(self.hosts@, m)] m != node_id implies (ready(old(self).hosts@, m) <==> ready(self.hosts@, m)) by { assert(old(self).hosts@.contains_key(m) <==> self.hosts@.contains_key(m)); }
        assert(!ready(self.hosts@, node_id)); }
//@end

pub open spec fn out(a: ShardCoordinator, b: ShardCoordinator, w0: World, w1: World, node: u64) -> bool {
    if a.hosts@.contains_key(node) { evacuated(a.hosts@, a.shards@, b.hosts@, b.shards@, node) } else { same_state(a, b) && w1 == w0 }
}
/// A full rebalance releases just enough: no host keeps more than its fair share, none drops below it.
pub open spec fn levelled(h0: Hosts, h1: Hosts, s0: Shards) -> bool {
    let fair = s0.len() / h0.len();
    forall|n: u64| #[trigger] h0.contains_key(n) ==> load(h1, n) == if load(h0, n) > fair { fair } else { load(h0, n) }
}
/// The part of `s` that was not chosen is its fair share (or all of it, when it is not more than that).
pub open spec fn chosen_from(s: Set<u32>, c: Seq<u32>, fair: nat) -> bool { s.difference(c.to_set()).len() == if s.len() > fair { fair } else { s.len() } }
pub open spec fn chosen_all(h: Hosts, s: Shards, c: Seq<u32>) -> bool { forall|n: u64| #[trigger] h.contains_key(n) ==> chosen_from(h[n].shards@, c, (s.len() / h.len()) as nat) }
pub proof fn lemma_levelled(h0: Hosts, s0: Shards, h1: Hosts, s1: Shards, ks: Seq<u32>)
    requires released(h0, s0, h1, s1, ks), chosen_all(h0, s0, ks)
    ensures levelled(h0, h1, s0)
{
    reveal(released);
    assert forall|n: u64| #[trigger] h0.contains_key(n) implies load(h1, n) == if load(h0, n) > s0.len() / h0.len() { s0.len() / h0.len() } else { load(h0, n) } by {
        assert forall|k: u32| h1[n].shards@.contains(k) <==> h0[n].shards@.difference(ks.to_set()).contains(k) by { assert(ks.contains(k) <==> ks.to_set().contains(k)); }
        assert(h1[n].shards@ =~= h0[n].shards@.difference(ks.to_set()));
    }
}
/// `d` distinct elements of `s` were appended.
pub open spec fn picked(c0: Seq<u32>, s: Set<u32>, c1: Seq<u32>, d: nat) -> bool {
    &&& c1.len() == c0.len() + d && c1.take(c0.len() as int) =~= c0
    &&& forall|j: int| c0.len() <= j < c1.len() ==> s.contains(#[trigger] c1[j])
    &&& forall|a: int, b: int| c0.len() <= a < b < c1.len() ==> #[trigger] c1[a] != #[trigger] c1[b]
}
pub proof fn lemma_picked(c0: Seq<u32>, s: Set<u32>, c1: Seq<u32>, d: nat)
    requires picked(c0, s, c1, d)
    ensures forall|k: u32| #[trigger] c1.contains(k) ==> c0.contains(k) || s.contains(k), forall|k: u32| #[trigger] c0.contains(k) ==> c1.contains(k)
{
    assert forall|k: u32| #[trigger] c1.contains(k) implies c0.contains(k) || s.contains(k) by {
        let j = choose|j: int| 0 <= j < c1.len() && c1[j] == k; if j < c0.len() { assert(c0[j] == c1.take(c0.len() as int)[j]); } }
    assert forall|k: u32| #[trigger] c0.contains(k) implies c1.contains(k) by { let j = choose|j: int| 0 <= j < c0.len() && c0[j] == k; assert(c1[j] == c1.take(c0.len() as int)[j]); }
}
pub proof fn lemma_chosen_this(s: Set<u32>, c0: Seq<u32>, c1: Seq<u32>, d: nat)
    requires picked(c0, s, c1, d), forall|k: u32| s.contains(k) ==> !#[trigger] c0.contains(k), d <= s.len(), d > 0
    ensures chosen_from(s, c1, (s.len() - d) as nat), forall|k: u32| #[trigger] c1.contains(k) ==> c0.contains(k) || s.contains(k), forall|k: u32| #[trigger] c0.contains(k) ==> c1.contains(k)
{
    lemma_picked(c0, s, c1, d);
    let p = c1.skip(c0.len() as int);
    assert(p.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < p.len() && 0 <= b < p.len() && a != b implies p[a] != p[b] by { if a < b { assert(c1[a + c0.len()] != c1[b + c0.len()]); } else { assert(c1[b + c0.len()] != c1[a + c0.len()]); } } }
    p.unique_seq_to_set();
    let r = s.difference(c1.to_set());
    assert forall|k: u32| s.contains(k) <==> r.contains(k) || p.to_set().contains(k) by {
        assert(c1.to_set().contains(k) <==> c1.contains(k)); assert(p.to_set().contains(k) <==> p.contains(k));
        if p.contains(k) { let j = choose|j: int| 0 <= j < p.len() && p[j] == k; assert(c1[j + c0.len()] == k); }
        if c1.contains(k) && !c0.contains(k) { let j = choose|j: int| 0 <= j < c1.len() && c1[j] == k; if j < c0.len() { assert(c0[j] == c1.take(c0.len() as int)[j]); } assert(p[j - c0.len()] == k); }
    }
    assert forall|k: u32| !(r.contains(k) && p.to_set().contains(k)) by { assert(p.to_set().contains(k) <==> p.contains(k)); if p.contains(k) { let j = choose|j: int| 0 <= j < p.len() && p[j] == k; assert(c1[j + c0.len()] == k); assert(c1.contains(k)); assert(c1.to_set().contains(k)); } }
    assert(r + p.to_set() =~= s);
    assert(r.disjoint(p.to_set()));
    vstd::set_lib::lemma_set_disjoint_lens(r, p.to_set());
}
/// Choosing from one host does not touch what another, disjoint host keeps.
pub proof fn lemma_chosen_other(s: Set<u32>, t: Set<u32>, c0: Seq<u32>, c1: Seq<u32>, fair: nat)
    requires chosen_from(s, c0, fair), forall|k: u32| s.contains(k) ==> !t.contains(k),
        forall|k: u32| #[trigger] c1.contains(k) ==> c0.contains(k) || t.contains(k), forall|k: u32| #[trigger] c0.contains(k) ==> c1.contains(k),
    ensures chosen_from(s, c1, fair)
{
    assert forall|k: u32| s.difference(c0.to_set()).contains(k) <==> s.difference(c1.to_set()).contains(k) by {
        assert(c0.contains(k) <==> c0.to_set().contains(k)); assert(c1.contains(k) <==> c1.to_set().contains(k));
    }
    assert(s.difference(c0.to_set()) =~= s.difference(c1.to_set()));
}
//@fn B Handler<Rebalance>@ShardCoordinator::handle as=handle_rebalance world
//@rw Instant :: now ( ) ==> ( )
//@rw format ! ( $x... ) ==> 0u64
//@rw & self . hosts ==> self . hosts . vpairs ( )
//@rw & shard_host . shards ==> vset ( & shard_host . shards )
//@rw let mut shards_to_rebalance = vec ! [ ] ==> let mut shards_to_rebalance : Vec < u32 > = Vec :: new ( )
//@rw let mut i = 0 ==> let mut i : usize = 0
    requires old(self).ok(), old(self).self_node_id is Some, old(self).hosts@.len() > 0,
    ensures final(self).ok(),
        message matches Rebalance::NodeUnavailable(n) ==> out(*old(self), *final(self), *old(w), *final(w), n),
        message matches Rebalance::Shards(ks) ==> released(old(self).hosts@, old(self).shards@, final(self).hosts@, final(self).shards@, ks@) && handover(old(self).hosts@, old(self).shards@, *old(w), *final(w), ks@),
        message is All ==> levelled(old(self).hosts@, final(self).hosts@, old(self).shards@) && exists|ks: Seq<u32>| #[trigger] released(old(self).hosts@, old(self).shards@, final(self).hosts@, final(self).shards@, ks) && handover(old(self).hosts@, old(self).shards@, *old(w), *final(w), ks),
//@tail
    proof {
        if message is All {
            assert forall|ks: Seq<u32>| #[trigger] released(old(self).hosts@, old(self).shards@, self.hosts@, self.shards@, ks) && chosen_all(old(self).hosts@, old(self).shards@, ks)
                implies levelled(old(self).hosts@, self.hosts@, old(self).shards@) by { lemma_levelled(old(self).hosts@, old(self).shards@, self.hosts@, self.shards@, ks); }
        }
    }
//@loop 0
    invariant *self == *old(self), *w == *old(w), fair_shard_count_per_node == old(self).shards@.len() / old(self).hosts@.len(),
        it0.seq().len() == self.hosts@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> self.hosts@.contains_key(*(#[trigger] it0.seq()[j]).0) && *it0.seq()[j].1 == self.hosts@[*it0.seq()[j].0],
        forall|a: int, b: int| 0 <= a < b < it0.seq().len() ==> *(#[trigger] it0.seq()[a]).0 != *(#[trigger] it0.seq()[b]).0,
        forall|n: u64| #[trigger] self.hosts@.contains_key(n) ==> exists|j: int| 0 <= j < it0.seq().len() && *(#[trigger] it0.seq()[j]).0 == n,
        forall|j: int| 0 <= j < it0.index@ ==> chosen_from(self.hosts@[*(#[trigger] it0.seq()[j]).0].shards@, shards_to_rebalance@, fair_shard_count_per_node as nat),
        forall|j: int, k: u32| it0.index@ <= j < it0.seq().len() && #[trigger] self.hosts@[*(#[trigger] it0.seq()[j]).0].shards@.contains(k) ==> !shards_to_rebalance@.contains(k),
//@loopstart 0
    let ghost c0 = shards_to_rebalance@;
//@loopend 0
    proof {
        assert forall|j: int| 0 <= j < it0.index@ + 1 implies chosen_from(self.hosts@[*(#[trigger] it0.seq()[j]).0].shards@, shards_to_rebalance@, fair_shard_count_per_node as nat) by {
            let s = self.hosts@[*it0.seq()[j].0].shards@;
            if j < it0.index@ { lemma_chosen_other(s, shard_host.shards@, c0, shards_to_rebalance@, fair_shard_count_per_node as nat); }
            else { assert(*it0.seq()[it0.index@].1 == *shard_host); if s.len() <= fair_shard_count_per_node { assert forall|k: u32| s.contains(k) implies !#[trigger] c0.to_set().contains(k) by { assert(!c0.contains(k)); } assert(s.difference(c0.to_set()) =~= s); } }
        }
    }
//@loop 1
    invariant_except_break
        i == it1.index@, forall|j: int| 0 <= j < i ==> #[trigger] shards_to_rebalance@[c0.len() + j] == *it1.seq()[j],
    invariant
        i <= diff, picked(c0, shard_host.shards@, shards_to_rebalance@, i as nat),
        it1.seq().len() == shard_host.shards@.len(), forall|j: int| 0 <= j < it1.seq().len() ==> shard_host.shards@.contains(*#[trigger] it1.seq()[j]),
        forall|a: int, b: int| 0 <= a < b < it1.seq().len() ==> *(#[trigger] it1.seq()[a]) != *(#[trigger] it1.seq()[b]),
    ensures i == diff,
//@loopstart 1
    let ghost c = shards_to_rebalance@;
//@loopend 1
    proof { assert(c0.len() + it1.index@ == c.len()); assert(shards_to_rebalance@.take(c0.len() as int) =~= c.take(c0.len() as int)); assert(shards_to_rebalance@.last() == *it1.seq()[it1.index@]);
        assert forall|a: int, b: int| c0.len() <= a < b < shards_to_rebalance@.len() implies #[trigger] shards_to_rebalance@[a] != #[trigger] shards_to_rebalance@[b] by {
            assert(shards_to_rebalance@[c0.len() + (a - c0.len())] == *it1.seq()[a - c0.len()]); } }
//@after 1
    proof { lemma_chosen_this(shard_host.shards@, c0, shards_to_rebalance@, i as nat); }
//@end

//@fn D ShardCoordinator::on_node_removed world
//@rw self . handle ( $x... ) ==> { proof { assert ( self . hosts @ =~= old ( self ) . hosts @ ) ; } self . handle_rebalance ( $x... ) }
    requires old(self).ok(), old(self).self_node_id is Some,
    ensures final(self).ok(), out(*old(self), *final(self), *old(w), *final(w), node_id),
//@end

// ------------------------------------------------------------------ shard of an entity
pub struct ActorId { pub id: u64 }
/// std's default hasher: a fixed function of what was written to it.
#[verifier::external_body]
pub struct DefaultHasher { x: u64 }
impl DefaultHasher {
    pub uninterp spec fn fed(&self) -> Seq<u64>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.fed() == Seq::<u64>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == hash_of(self.fed()) { unimplemented!() }
}
pub uninterp spec fn hash_of(s: Seq<u64>) -> u64;
impl ActorId {
    #[verifier::external_body]
    pub fn hash(&self, h: &mut DefaultHasher) ensures final(h).fed() == old(h).fed().push(self.id) { unimplemented!() }
}
//@struct A DefaultAllocator
//@fn A ShardAllocator@DefaultAllocator::allocate as=allocate_shard_id impl=none sig="pub fn allocate_shard_id(this: &mut DefaultAllocator, actor_id: &ActorId) -> (r: ShardId)"
//@rw self ==> this
    requires old(this).max_shards > 0,
    // a fixed function of the entity id, below the configured number of shards
    ensures r < old(this).max_shards, r == hash_of(seq![actor_id.id]) % (old(this).max_shards as u64), *final(this) == *old(this),
//@start
    proof { assert(Seq::<u64>::empty().push(actor_id.id) =~= seq![actor_id.id]); }
//@end
}
fn main(){}
