//@include head.inc
use std::cmp::Ordering;
verus! {
//@include std.inc
//@file H coerce/src/remote/heartbeat/mod.rs
//@file E coerce/src/remote/heartbeat/health.rs
//@file N coerce/src/remote/cluster/node.rs
//@file C coerce/src/remote/system/cluster.rs
//@file A coerce/src/remote/actor/message.rs
//@# times are nanoseconds since the epoch, durations are nanoseconds; texts and attribute tables are opaque
//@rw NodeAttributesRef ==> u64
//@rw String ==> u64
//@rw DateTime < Utc > ==> i64
//@rw DateTime :: < Utc > :: MIN_UTC ==> i64 :: MIN
//@rw Utc :: now ( ) ==> vnow ( Tracked ( & mut * w ) )
//@rw Instant :: now ( ) ==> vnow ( Tracked ( & mut * w ) )
//@rw . to_std ( ) ==> . vto_std ( )
//@rw . unwrap_or_default ( ) ==> . vor_default ( )
//@rw chrono :: Duration :: from_std ( $x... ) . unwrap ( ) ==> vfrom_std ( $x... )
//@rw h . add ( $x... ) ==> ( * h + $x... )
//@rw Duration ==> u64
//@rw Ord :: cmp ( $x... ) ==> vcmp ( $x... )
//@rw . sort_by ( $x... ) ==> . vsort_by ( $x... )
//@rw tokio :: spawn ( async move { $b... } ) ==> { $b... }
//@rw PubSub :: publish_locally ( SystemTopic , SystemEvent :: Cluster ( $x... ) , & sys , ) ==> vpublish ( $x... , Tracked ( & mut * w ) )
//@rw Sender < NodeId > ==> LeaderTx
//@rw Option < Timer > ==> Option < u64 >
//@rw BoxedActorRef ==> u64
//@rw PongEvent ==> u64
//@rw self . handle ( HeartbeatTick , $c ) ==> self . handle_tick ( HeartbeatTick , $c , Tracked ( & mut * w ) )
//@rw updates . viter ( ) . filter ( $f... ) . next ( ) ==> vfirst ( & updates , $f... )
//@rw updates . viter ( ) . find ( $f... ) ==> vfirst ( & updates , $f... )
//@rw updates . viter ( ) . filter ( $f... ) . count ( ) ==> vcount ( & updates , $f... )
//@rw updates . clone ( ) ==> vcopy ( & updates )
//@rw updates . vinto_iter ( ) . map ( | n | Arc :: new ( n . into ( ) ) ) . collect ( ) ==> vmembers ( updates )
//@rw Vec < RemoteNodeRef > ==> Members
//@rw system . registry ( ) . send ( message ) ==> system . registry_terminated ( message )
//@rw $n as i64 ==> vto_i64 ( $n )
//@rw $n as NodeId ==> vto_u64 ( $n )
//@rw self . inner . current_leader . load ( $o... ) ==> self . load_leader ( Tracked ( & mut * w ) )
//@rw self . inner . current_leader . swap ( $x... , Ordering :: SeqCst ) ==> self . swap_leader ( $x... , Tracked ( & mut * w ) )
//@effect update_node,node_status,get_nodes,update_nodes,current_leader,update_leader,send,load_leader,swap_leader,handle_tick,registry_terminated,on_min_cluster_size_reached
//@noinline update_node,node_status,add,get,remove,new,get_all,get_mut,update_nodes,node_terminated,register,includes
pub type NodeId = u64;
pub struct ActorContext { pub x: u64 }
pub struct LeaderTx { pub id: u64 }
#[derive(Clone, Copy)]
pub struct RemoteActorSystem { pub id: u64 }
//@enum N NodeStatus attr=#[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct N RemoteNodeState
//@struct H Heartbeat
//@struct H HeartbeatConfig
//@struct H NodePing
//@enum H PingResult
//@struct H HeartbeatTick
//@struct H OnLeaderChanged
//@struct A NodeTerminated
pub struct Members { pub of: Ghost<Seq<RemoteNodeState>> }
pub struct ClusterMemberUp { pub leader_id: NodeId, pub nodes: Members }
pub enum ClusterEvent { LeaderChanged(NodeId), MemberUp(ClusterMemberUp) }
pub use ClusterEvent::*;
impl Clone for RemoteNodeState {
    #[verifier::external_body]
    fn clone(&self) -> (r: RemoteNodeState) ensures r == *self { unimplemented!() }
}
impl Clone for PingResult {
    #[verifier::external_body]
    fn clone(&self) -> (r: PingResult) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn vcopy(v: &Vec<RemoteNodeState>) -> (r: Vec<RemoteNodeState>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vmembers(v: Vec<RemoteNodeState>) -> (r: Members) ensures r.of@ == v@ { unimplemented!() }

pub type Nodes = Map<u64, RemoteNodeState>;
/// What an effect of the heartbeat can touch: the node store (held by the registry, see nodes.rs), the leader cell,
/// the events published on this node and the answers to those who wait for a leader. The clock stands still.
pub tracked struct World {
    pub now: i64,
    pub me: u64,
    pub nodes: Nodes,
    pub leader: i64,
    pub updates: Seq<Seq<RemoteNodeState>>,
    pub events: Seq<ClusterEvent>,
    pub told: Seq<(LeaderTx, NodeId)>,
}
/// the bits of an i64 as a u64
pub open spec fn bits(n: i64) -> u64 { if n >= 0 { n as u64 } else { (n + 0x1_0000_0000_0000_0000) as u64 } }
pub open spec fn cell(n: i64) -> Option<NodeId> { if n == -1 { None } else { Some(bits(n)) } }
#[verifier::external_body]
pub fn vto_i64(n: u64) -> (r: i64) ensures bits(r) == n { n as i64 }
#[verifier::external_body]
pub fn vto_u64(n: i64) -> (r: u64) ensures r == bits(n) { n as u64 }
pub open spec fn soon(t: int) -> bool { -0x1000_0000_0000_0000 < t < 0x1000_0000_0000_0000 }
pub open spec fn node_ok(s: RemoteNodeState) -> bool { s.last_heartbeat is Some ==> soon(s.last_heartbeat->0 as int) }
impl World {
    /// times lie within a few decades of now, every node is registered under its own id
    pub open spec fn ok(&self) -> bool {
        &&& soon(self.now as int)
        &&& forall|k: u64| #[trigger] self.nodes.contains_key(k) ==> self.nodes[k].id == k && node_ok(self.nodes[k])
    }
}
#[verifier::external_body]
pub fn vnow(Tracked(w): Tracked<&mut World>) -> (r: i64) ensures r == old(w).now, *final(w) == *old(w) { unimplemented!() }
pub trait VStd { spec fn n(&self) -> int; fn vto_std(self) -> (r: Result<u64, u64>) where Self: Sized; }
impl VStd for i64 {
    open spec fn n(&self) -> int { *self as int }
    fn vto_std(self) -> (r: Result<u64, u64>) ensures self.n() >= 0 ==> r == Ok::<u64, u64>(self as u64), self.n() < 0 ==> r is Err
    { if self >= 0 { Ok(self as u64) } else { Err(0) } }
}
pub trait VOr { spec fn v(&self) -> u64; fn vor_default(self) -> (r: u64) where Self: Sized; }
impl VOr for Result<u64, u64> {
    open spec fn v(&self) -> u64 { match self { Ok(x) => *x, Err(_) => 0 } }
    fn vor_default(self) -> (r: u64) ensures r == self.v() { match self { Ok(x) => x, Err(_) => 0 } }
}
pub fn vfrom_std(d: u64) -> (r: i64) requires soon(d as int) ensures r == d { d as i64 }
pub trait VCmp { spec fn at(&self) -> int; fn vcmp_to(&self, o: &Self) -> (r: Ordering)
    ensures r is Less <==> self.at() < o.at(), r is Equal <==> self.at() == o.at(), r is Greater <==> self.at() > o.at(); }
impl VCmp for i64 { open spec fn at(&self) -> int { *self as int } fn vcmp_to(&self, o: &i64) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } } }
impl VCmp for u64 { open spec fn at(&self) -> int { *self as int } fn vcmp_to(&self, o: &u64) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } } }
pub fn vcmp<T: VCmp>(a: &T, b: &T) -> (r: Ordering)
    ensures r is Less <==> a.at() < b.at(), r is Equal <==> a.at() == b.at(), r is Greater <==> a.at() > b.at()
{ a.vcmp_to(b) }
impl LeaderTx {
    #[verifier::external_body]
    pub fn send(self, n: NodeId, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>)
        ensures final(w).told == old(w).told.push((self, n)), final(w).same(*old(w)) && final(w).events == old(w).events && final(w).leader == old(w).leader
            && final(w).nodes == old(w).nodes && final(w).updates == old(w).updates
    { unimplemented!() }
}
impl World { pub open spec fn same(&self, o: World) -> bool { self.now == o.now && self.me == o.me } }
#[verifier::external_body]
pub fn vpublish(e: ClusterEvent, Tracked(w): Tracked<&mut World>)
    ensures final(w).events == old(w).events.push(e), final(w).same(*old(w)), final(w).told == old(w).told, final(w).leader == old(w).leader,
        final(w).nodes == old(w).nodes, final(w).updates == old(w).updates
{ unimplemented!() }
pub open spec fn upd(m: Nodes, u: RemoteNodeState) -> Nodes {
    if m.contains_key(u.id) {
        m.insert(u.id, RemoteNodeState { status: u.status, ping_latency: u.ping_latency, last_heartbeat: u.last_heartbeat, ..m[u.id] })
    } else { m.insert(u.id, u) }
}
pub open spec fn updated(m: Nodes, us: Seq<RemoteNodeState>) -> Nodes
    decreases us.len()
{ if us.len() == 0 { m } else { upd(updated(m, us.drop_last()), us.last()) } }
impl RemoteActorSystem {
    #[verifier::external_body]
    pub fn node_id(&self) -> (r: NodeId) ensures r == this_node() { unimplemented!() }
    #[verifier::external_body]
    pub fn node_tag(&self) -> (r: u64) { unimplemented!() }
    // the registry's GetNodes, UpdateNodes and NodeTerminated handlers: proved in nodes.rs
    #[verifier::external_body]
    pub fn get_nodes(&self, Tracked(w): Tracked<&mut World>) -> (r: Vec<RemoteNodeState>)
        ensures *final(w) == *old(w), forall|i: int| 0 <= i < r@.len() ==> old(w).nodes.contains_pair((#[trigger] r@[i]).id, r@[i]),
            forall|k: u64| #[trigger] old(w).nodes.contains_key(k) ==> r@.contains(old(w).nodes[k]),
            r@.no_duplicates(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn update_nodes(&self, nodes: Vec<RemoteNodeState>, Tracked(w): Tracked<&mut World>)
        ensures final(w).nodes == updated(old(w).nodes, nodes@), final(w).updates == old(w).updates.push(nodes@), final(w).same(*old(w)),
            final(w).leader == old(w).leader, final(w).events == old(w).events, final(w).told == old(w).told
    { unimplemented!() }
    #[verifier::external_body]
    pub fn registry_terminated(&self, m: NodeTerminated, Tracked(w): Tracked<&mut World>) -> (r: Result<(), u64>)
        ensures final(w).nodes == terminated(old(w).nodes, m.0), final(w).updates == old(w).updates, final(w).same(*old(w)),
            final(w).leader == old(w).leader, final(w).events == old(w).events, final(w).told == old(w).told
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load_leader(&self, Tracked(w): Tracked<&mut World>) -> (r: i64) ensures r == old(w).leader, *final(w) == *old(w) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_leader(&self, n: i64, Tracked(w): Tracked<&mut World>) -> (r: i64)
        ensures r == old(w).leader, final(w).leader == n, final(w).same(*old(w)), final(w).nodes == old(w).nodes, final(w).updates == old(w).updates,
            final(w).events == old(w).events, final(w).told == old(w).told
    { unimplemented!() }
}
pub uninterp spec fn this_node() -> NodeId;
pub open spec fn terminated(m: Nodes, id: u64) -> Nodes {
    if m.contains_key(id) { m.insert(id, RemoteNodeState { status: NodeStatus::Terminated, ..m[id] }) } else { m }
}
// ---------------------------------------------------------------------------------------------
/// What a node is taken to be, given the last ping.
pub open spec fn judged(prev: NodeStatus, last: Option<i64>, ping: Option<PingResult>, cfg: HeartbeatConfig, now: int) -> NodeStatus {
    match ping {
        None => if prev == NodeStatus::Terminated { NodeStatus::Terminated } else { NodeStatus::Joining },
        Some(PingResult::Ok(_, latency, at)) => {
            let since = if now >= at { now - at } else { 0 };
            if since >= cfg.terminated_node_heartbeat_timeout { NodeStatus::Terminated }
            else if since >= cfg.unhealthy_node_heartbeat_timeout || latency > cfg.unhealthy_node_heartbeat_timeout { NodeStatus::Unhealthy }
            else { NodeStatus::Healthy }
        },
        Some(PingResult::Timeout) => if last is None || last->0 + cfg.terminated_node_heartbeat_timeout <= now { NodeStatus::Terminated } else { NodeStatus::Unhealthy },
        Some(PingResult::Disconnected) => NodeStatus::Terminated,
        Some(PingResult::Err) => if prev == NodeStatus::Unhealthy { NodeStatus::Terminated } else { NodeStatus::Unhealthy },
    }
}
pub open spec fn after_ping(s: RemoteNodeState, ping: Option<PingResult>, cfg: HeartbeatConfig, now: int) -> RemoteNodeState {
    let last = match ping { Some(PingResult::Ok(_, _, at)) => Some(at), _ => s.last_heartbeat };
    let latency = match ping { Some(PingResult::Ok(_, l, _)) => Some(l), None => s.ping_latency, _ => None };
    RemoteNodeState { last_heartbeat: last, ping_latency: latency, status: judged(s.status, last, ping, cfg, now), ..s }
}
pub open spec fn ping_of(pings: Map<u64, NodePing>, id: u64) -> Option<PingResult> { if pings.contains_key(id) { Some(pings[id].1) } else { None } }
/// What a tick makes of a node.
pub open spec fn ticked(s: RemoteNodeState, pings: Map<u64, NodePing>, cfg: HeartbeatConfig, now: i64) -> RemoteNodeState {
    if s.id == this_node() { RemoteNodeState { status: NodeStatus::Healthy, last_heartbeat: Some(now), ..s } }
    else { after_ping(s, ping_of(pings, s.id), cfg, now as int) }
}
pub open spec fn healthy(s: RemoteNodeState) -> bool { s.status == NodeStatus::Healthy }
pub open spec fn started(s: RemoteNodeState) -> i64 { match s.node_started_at { Some(t) => t, None => i64::MIN } }
/// seniority: the node that started first, the lower id when they started at once
pub open spec fn before(a: RemoteNodeState, b: RemoteNodeState) -> bool { started(a) < started(b) || (started(a) == started(b) && a.id < b.id) }
pub open spec fn healthy_count(s: Seq<RemoteNodeState>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { healthy_count(s.drop_last()) + if healthy(s.last()) { 1nat } else { 0nat } } }
pub fn vcount<F: Fn(&&RemoteNodeState) -> bool>(v: &Vec<RemoteNodeState>, f: F) -> (r: usize)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&&#[trigger] v@[i],)),
        forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] f.ensures((&&v@[i],), b) ==> b == healthy(v@[i]),
    ensures r == healthy_count(v@)
{
    let mut n: usize = 0;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), n <= i, n == healthy_count(v@.take(i as int)),
            forall|i: int| 0 <= i < v@.len() ==> f.requires((&&#[trigger] v@[i],)),
            forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] f.ensures((&&v@[i],), b) ==> b == healthy(v@[i]),
        decreases v@.len() - i
    {
        let x = &v[i];
        proof { assert(v@.take(i + 1).drop_last() =~= v@.take(i as int)); }
        if f(&x) { n = n + 1; }
        i = i + 1;
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    n
}
pub open spec fn sorted(s: Seq<RemoteNodeState>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !before(s[j], s[i]) }
pub fn vfirst<'a, F: Fn(&&RemoteNodeState) -> bool>(v: &'a Vec<RemoteNodeState>, f: F) -> (r: Option<&'a RemoteNodeState>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&&#[trigger] v@[i],)),
        forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] f.ensures((&&v@[i],), b) ==> b == healthy(v@[i]),
    ensures match r {
        None => forall|y: RemoteNodeState| #[trigger] v@.contains(y) ==> !healthy(y),
        Some(x) => v@.contains(*x) && healthy(*x) && (sorted(v@) ==> forall|y: RemoteNodeState| #[trigger] v@.contains(y) && healthy(y) ==> !before(y, *x)) }
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> !healthy(#[trigger] v@[j]),
            forall|i: int| 0 <= i < v@.len() ==> f.requires((&&#[trigger] v@[i],)),
            forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] f.ensures((&&v@[i],), b) ==> b == healthy(v@[i]),
        decreases v@.len() - i
    {
        let x = &v[i];
        if f(&x) {
            proof {
                assert(v@[i as int] == *x);
                if sorted(v@) { assert forall|y: RemoteNodeState| #[trigger] v@.contains(y) && healthy(y) implies !before(y, *x) by {
                    let j = choose|j: int| 0 <= j < v@.len() && v@[j] == y; assert(v@[i as int] == *x); } }
            }
            return Some(x);
        }
        i = i + 1;
    }
    None
}
pub trait VSort<T>: View<V = Seq<T>> {
    fn vsort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|x: &T, y: &T| #[trigger] f.requires((x, y))
        ensures final(self)@.len() == old(self)@.len(), final(self)@.to_multiset() == old(self)@.to_multiset(),
            forall|x: T| final(self)@.contains(x) <==> #[trigger] old(self)@.contains(x),
            forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]),
            old(self)@.no_duplicates() ==> final(self)@.no_duplicates(),
            forall|i: int, j: int| #![trigger final(self)@[i], final(self)@[j]] 0 <= i < j < final(self)@.len() ==>
                exists|o: Ordering| #[trigger] f.ensures((&final(self)@[i], &final(self)@[j]), o) && !(o is Greater);
}
impl<T> VSort<T> for Vec<T> {
    #[verifier::external_body]
    fn vsort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
}
pub proof fn lemma_updated(m: Nodes, us: Seq<RemoteNodeState>)
    requires forall|i: int, j: int| 0 <= i < j < us.len() ==> us[i].id != us[j].id,
        forall|i: int| 0 <= i < us.len() ==> m.contains_key((#[trigger] us[i]).id) && us[i] == (RemoteNodeState { status: us[i].status, ping_latency: us[i].ping_latency, last_heartbeat: us[i].last_heartbeat, ..m[us[i].id] }),
    ensures updated(m, us).dom() == m.dom(),
        forall|i: int| 0 <= i < us.len() ==> updated(m, us)[(#[trigger] us[i]).id] == us[i],
        forall|k: u64| (forall|i: int| 0 <= i < us.len() ==> (#[trigger] us[i]).id != k) ==> #[trigger] updated(m, us)[k] == m[k],
    decreases us.len()
{
    if us.len() > 0 {
        let p = us.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies m.contains_key((#[trigger] p[i]).id) && p[i] == (RemoteNodeState { status: p[i].status, ping_latency: p[i].ping_latency, last_heartbeat: p[i].last_heartbeat, ..m[p[i].id] }) by { assert(p[i] == us[i]); }
        lemma_updated(m, p);
        let u = us.last();
        assert(us[us.len() - 1] == u);
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).id != u.id by { assert(p[i] == us[i]); }
        assert(updated(m, p)[u.id] == m[u.id]);
        assert(updated(m, us).dom() =~= m.dom());
        assert forall|i: int| 0 <= i < us.len() implies updated(m, us)[(#[trigger] us[i]).id] == us[i] by { if i < p.len() { assert(p[i] == us[i]); } }
        assert forall|k: u64| (forall|i: int| 0 <= i < us.len() ==> (#[trigger] us[i]).id != k) implies #[trigger] updated(m, us)[k] == m[k] by {
            assert(us[us.len() - 1].id != k);
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).id != k by { assert(p[i] == us[i]); }
        }
    } else { assert(updated(m, us) == m); }
}
impl HeartbeatConfig { pub open spec fn ok(&self) -> bool { soon(self.terminated_node_heartbeat_timeout as int) } }
pub open spec fn ping_ok(p: Option<PingResult>) -> bool { match p { Some(PingResult::Ok(_, _, at)) => soon(at as int), _ => true } }

//@fn N NodeStatus::is_healthy canary=start
    ensures r == (*self == NodeStatus::Healthy)
//@end
//@fn H PingResult::is_ok
    ensures r == (*self is Ok)
//@end
//@fn H node_status world opt impl=none
    requires old(w).ok(), config.ok(), ping_ok(ping), *last_heartbeat is Some ==> soon(last_heartbeat->0 as int)
    ensures r == judged(previous_status, *last_heartbeat, ping, *config, old(w).now as int), *final(w) == *old(w)
//@end
//@fn H update_node world impl=none
    requires old(w).ok(), heartbeat_config.ok(), ping_ok(ping), node_ok(node)
    ensures r == after_ping(node, ping, *heartbeat_config, old(w).now as int), *final(w) == *old(w)
//@end
//@fn C RemoteActorSystem::current_leader world
    ensures r == cell(old(w).leader), *final(w) == *old(w)
//@end
//@fn C RemoteActorSystem::update_leader world
    requires new_leader != u64::MAX
    ensures r == cell(old(w).leader), cell(final(w).leader) == Some(new_leader), final(w).same(*old(w)), final(w).nodes == old(w).nodes,
        final(w).updates == old(w).updates, final(w).events == old(w).events, final(w).told == old(w).told
//@end
//@fn H Heartbeat::update_leader world loops=1
    requires old(self).system is Some, node_id != u64::MAX
    ensures cell(final(w).leader) == Some(node_id), final(w).same(*old(w)), final(w).nodes == old(w).nodes, final(w).updates == old(w).updates,
        final(w).events == old(w).events.push(LeaderChanged(node_id)),
        final(w).told == old(w).told + answers(old(self).on_next_leader_changed@, node_id),
        final(self).on_next_leader_changed@.len() == 0,
        *final(self) == (Heartbeat { on_next_leader_changed: final(self).on_next_leader_changed, ..*old(self) }),
//@loop 0
    invariant
        final_rest(self.on_next_leader_changed@, old(self).on_next_leader_changed@),
        *self == (Heartbeat { on_next_leader_changed: self.on_next_leader_changed, ..*old(self) }),
        w.told == old(w).told + answers(old(self).on_next_leader_changed@.take(old(self).on_next_leader_changed@.len() - self.on_next_leader_changed@.len()), node_id),
        cell(w.leader) == Some(node_id), w.same(*old(w)), w.nodes == old(w).nodes, w.updates == old(w).updates, w.events == old(w).events.push(LeaderChanged(node_id)),
//@end
pub open spec fn final_rest(rest: Seq<LeaderTx>, all: Seq<LeaderTx>) -> bool {
    rest.len() <= all.len() && forall|i: int| 0 <= i < rest.len() ==> #[trigger] rest[i] == all[all.len() - rest.len() + i]
}
pub open spec fn answers(q: Seq<LeaderTx>, n: NodeId) -> Seq<(LeaderTx, NodeId)> { Seq::new(q.len(), |i: int| (q[i], n)) }
//@fn H Heartbeat::on_min_cluster_size_reached world
    requires old(self).system is Some
    ensures final(w).events == old(w).events.push(MemberUp(ClusterMemberUp { leader_id, nodes })), final(w).same(*old(w)), final(w).nodes == old(w).nodes,
        final(w).updates == old(w).updates, final(w).told == old(w).told, final(w).leader == old(w).leader,
        *final(self) == (Heartbeat { cluster_member_up: true, ..*old(self) }),
//@end
impl Heartbeat {
    pub open spec fn ok(&self) -> bool {
        self.system is Some && self.config.ok() && forall|k: u64| #[trigger] self.node_pings@.contains_key(k) ==> ping_ok(Some(self.node_pings@[k].1)) && self.node_pings@[k].0 == k
    }
}
/// The leader is the healthy node that is the most senior of the healthy nodes.
pub open spec fn leads(nodes: Nodes, l: Option<NodeId>) -> bool {
    l is Some && nodes.contains_key(l->0) && healthy(nodes[l->0])
        && forall|k: u64| #[trigger] nodes.contains_key(k) && healthy(nodes[k]) ==> !before(nodes[k], nodes[l->0])
}
/// the updates of a tick: every node once, as the tick judged it
pub open spec fn all_ticked(m: Nodes, us: Seq<RemoteNodeState>, pings: Map<u64, NodePing>, cfg: HeartbeatConfig, now: i64) -> bool {
    &&& us.no_duplicates()
    &&& forall|x: RemoteNodeState| #[trigger] us.contains(x) ==> m.contains_key(x.id) && x == ticked(m[x.id], pings, cfg, now)
    &&& forall|k: u64| #[trigger] m.contains_key(k) ==> us.contains(ticked(m[k], pings, cfg, now))
}
pub proof fn lemma_ticked(m: Nodes, us: Seq<RemoteNodeState>, pings: Map<u64, NodePing>, cfg: HeartbeatConfig, now: i64)
    requires all_ticked(m, us, pings, cfg, now), forall|k: u64| #[trigger] m.contains_key(k) ==> m[k].id == k
    ensures updated(m, us).dom() == m.dom(), forall|k: u64| #[trigger] m.contains_key(k) ==> updated(m, us)[k] == ticked(m[k], pings, cfg, now)
{
    assert forall|i: int| 0 <= i < us.len() implies m.contains_key((#[trigger] us[i]).id) && us[i] == (RemoteNodeState { status: us[i].status, ping_latency: us[i].ping_latency, last_heartbeat: us[i].last_heartbeat, ..m[us[i].id] })
        by { assert(us.contains(us[i])); }
    assert forall|i: int, j: int| 0 <= i < j < us.len() implies us[i].id != us[j].id by { assert(us.contains(us[i])); assert(us.contains(us[j])); }
    lemma_updated(m, us);
    assert forall|k: u64| #[trigger] m.contains_key(k) implies updated(m, us)[k] == ticked(m[k], pings, cfg, now) by {
        let x = ticked(m[k], pings, cfg, now);
        assert(us.contains(x));
        let i = choose|i: int| 0 <= i < us.len() && us[i] == x;
        assert(us[i].id == k);
    }
}
//@fn H Handler<HeartbeatTick>@Heartbeat::handle as=handle_tick world opt
    requires old(self).ok(), old(w).ok(), !old(w).nodes.contains_key(u64::MAX)
    ensures final(w).same(*old(w)),
        // every node is judged by its own last ping, none is added or forgotten
        final(w).nodes.dom() == old(w).nodes.dom(),
        forall|k: u64| #![trigger old(w).nodes.contains_key(k)] #![trigger final(w).nodes[k]] old(w).nodes.contains_key(k) ==> final(w).nodes[k] == ticked(old(w).nodes[k], old(self).node_pings@, old(self).config, old(w).now),
        // the first tick elects nobody
        old(self).last_heartbeat is None ==> final(w).leader == old(w).leader,
        // later ticks elect the most senior healthy node
        old(self).last_heartbeat is Some ==> (leads(final(w).nodes, cell(final(w).leader))
            || (final(w).leader == old(w).leader && forall|k: u64| #[trigger] final(w).nodes.contains_key(k) ==> !healthy(final(w).nodes[k]))),
        // a new leader is announced once to everyone who waits for it
        ({ let changed = cell(final(w).leader) != cell(old(w).leader);
           let up = !old(self).cluster_member_up && cell(final(w).leader) is Some
               && (old(self).config.minimum_cluster_size is None || healthy_count(final(w).updates.last()) >= old(self).config.minimum_cluster_size->0);
           let u = MemberUp(ClusterMemberUp { leader_id: cell(final(w).leader)->0, nodes: Members { of: Ghost(final(w).updates.last()) } });
           let c = LeaderChanged(cell(final(w).leader)->0);
           &&& !changed ==> final(w).told == old(w).told && final(self).on_next_leader_changed@ == old(self).on_next_leader_changed@
           &&& changed ==> final(w).told == old(w).told + answers(old(self).on_next_leader_changed@, cell(final(w).leader)->0) && final(self).on_next_leader_changed@.len() == 0
           &&& !changed && !up ==> final(w).events == old(w).events
           &&& !changed && up ==> final(w).events == old(w).events.push(u)
           &&& changed && !up ==> final(w).events == old(w).events.push(c)
           &&& changed && up ==> final(w).events == old(w).events.push(u).push(c) || final(w).events == old(w).events.push(c).push(u)
           &&& final(self).cluster_member_up == (old(self).cluster_member_up || up)
        }),
        final(self).ok(), final(w).ok(), final(self).node_pings == old(self).node_pings, final(self).config == old(self).config, final(self).last_heartbeat is Some,
//@start
    let ghost pings = self.node_pings@; let ghost cfg = self.config; let ghost now0 = w.now; let ghost m0 = w.nodes;
//@closure 0
    -> (o: Ordering) ensures o is Less <==> before(*a, *b), o is Greater <==> before(*b, *a)
//@closure 1
    -> (b: bool) ensures b == healthy(**n)
//@closure 2
    -> (b: bool) ensures b == healthy(**n)
//@before 0
    let ghost ns = nodes@;
//@loop 0
    invariant
        self.ok(), w.ok(), *w == *old(w), *self == *old(self), current_node == this_node(),
        forall|i: int| 0 <= i < it0.seq().len() ==> old(w).nodes.contains_pair((#[trigger] it0.seq()[i]).id, it0.seq()[i]),
        updates@.len() == it0.index@,
        forall|i: int| 0 <= i < it0.index@ ==> #[trigger] updates@[i] == ticked(it0.seq()[i], old(self).node_pings@, old(self).config, old(w).now),
        it0.seq() == ns, ns.no_duplicates(), pings == self.node_pings@, cfg == self.config, now0 == w.now, m0 == w.nodes,
//@after 0
    let ghost u0 = updates@;
    proof {
        assert forall|i: int| 0 <= i < u0.len() implies m0.contains_key((#[trigger] u0[i]).id) && u0[i] == ticked(m0[u0[i].id], pings, cfg, now0) by { assert(m0.contains_pair(ns[i].id, ns[i])); }
        assert forall|x: RemoteNodeState| #[trigger] u0.contains(x) implies m0.contains_key(x.id) && x == ticked(m0[x.id], pings, cfg, now0) by { }
        assert forall|k: u64| #[trigger] m0.contains_key(k) implies u0.contains(ticked(m0[k], pings, cfg, now0)) by {
            assert(ns.contains(m0[k])); let i = choose|i: int| 0 <= i < ns.len() && ns[i] == m0[k]; assert(u0[i] == ticked(m0[k], pings, cfg, now0)); }
        assert forall|i: int, j: int| 0 <= i < j < u0.len() implies u0[i] != u0[j] by { assert(m0.contains_pair(ns[i].id, ns[i])); assert(m0.contains_pair(ns[j].id, ns[j])); assert(ns[i] != ns[j]); }
    }
//@tail
    proof {
        let us = w.updates.last();
        assert(all_ticked(m0, us, pings, cfg, now0));
        lemma_ticked(m0, us, pings, cfg, now0);
        assert(w.nodes == updated(m0, us));
        if old(self).last_heartbeat is Some {
            let l = cell(w.leader);
            assert forall|k: u64| #[trigger] w.nodes.contains_key(k) && healthy(w.nodes[k]) implies l is Some && w.nodes.contains_key(l->0) && healthy(w.nodes[l->0]) && !before(w.nodes[k], w.nodes[l->0]) by {
                assert(us.contains(w.nodes[k]));
                let j = choose|j: int| 0 <= j < us.len() && us[j] == w.nodes[k];
                assert(healthy(us[j]));
            }
        }
    }
//@end
//@fn H Handler<NodePing>@Heartbeat::handle as=handle_ping
    requires old(self).ok(), ping_ok(Some(message.1))
    ensures final(self).ok(), final(self).node_pings@ == old(self).node_pings@.insert(message.0, message),
        *final(self) == (Heartbeat { node_pings: final(self).node_pings, ..*old(self) }),
//@end
//@fn H Handler<NodeTerminated>@Heartbeat::handle as=handle_terminated world
//@rw system . registry ( ) . send ( message , $t... ) ==> system . registry_terminated ( message , $t... )
    requires old(self).ok(), old(w).ok(), !old(w).nodes.contains_key(u64::MAX)
    ensures final(self).ok(), final(w).ok(), final(w).nodes.dom() == old(w).nodes.dom(), !final(self).node_pings@.contains_key(message.0),
        // the node stays terminated until it answers a ping again
        old(w).nodes.contains_key(message.0) && message.0 != this_node() ==> final(w).nodes[message.0].status == NodeStatus::Terminated,
        forall|k: u64| #[trigger] old(w).nodes.contains_key(k) && k != message.0 ==> final(w).nodes[k] == ticked(old(w).nodes[k], old(self).node_pings@, old(self).config, old(w).now),
        old(self).last_heartbeat is Some ==> (leads(final(w).nodes, cell(final(w).leader))
            || (final(w).leader == old(w).leader && forall|k: u64| #[trigger] final(w).nodes.contains_key(k) ==> !healthy(final(w).nodes[k]))),
//@end
//@fn H Handler<OnLeaderChanged>@Heartbeat::handle as=handle_on_leader_changed
    ensures final(self).on_next_leader_changed@ == old(self).on_next_leader_changed@.push(message.0),
        *final(self) == (Heartbeat { on_next_leader_changed: final(self).on_next_leader_changed, ..*old(self) }),
//@end
} // verus!
fn main() {}
