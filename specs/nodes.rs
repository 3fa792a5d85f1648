//@include head.inc
verus! {
//@include std.inc
//@file N coerce/src/remote/cluster/node.rs
//@file M coerce/src/remote/net/message.rs
//@file P coerce/src/remote/net/proto/network.rs
//@file G coerce/src/remote/actor/registry.rs
//@file A coerce/src/remote/actor/message.rs
//@# texts (address, tag) and attribute tables are opaque values; durations are nanoseconds
//@rw :: std :: collections :: HashMap < :: std :: string :: String , :: std :: string :: String > ==> Attrs
//@rw :: std :: string :: String ==> u64
//@rw :: protobuf :: MessageField < SystemCapabilities > ==> MessageField < u64 >
//@rw :: protobuf :: MessageField < :: protobuf :: well_known_types :: timestamp :: Timestamp > ==> MessageField < Timestamp >
//@rw :: protobuf :: MessageField < Capabilities > ==> MessageField < u64 >
//@rw NodeAttributesRef ==> Attrs
//@rw String ==> u64
//@rw DateTime < Utc > ==> DateTime
//@rw DateTime :: < Utc > :: from_utc ( $x... , Utc , ) ==> DateTime :: from_utc ( $x... )
//@rw DateTime :: < Utc > :: from_utc ( $x... , Utc ) ==> DateTime :: from_utc ( $x... )
//@rw Duration ==> u64
//@rw protobuf :: well_known_types :: timestamp :: Timestamp ==> Timestamp
//@rw .. Default :: default ( ) ==>
//@rw .. Self :: default ( ) ==>
//@rw . timestamp ( ) ==> . vsecs ( )
//@rw . timestamp_subsec_nanos ( ) ==> . vnanos ( )
//@rw . into_option ( ) ==> . v
//@rw n . attributes . vinto_iter ( ) . map ( | ( k , v ) | ( k . into ( ) , v . into ( ) ) ) . collect :: < NodeAttributes > ( ) . into ( ) ==> vattrs ( & n . attributes )
//@rw n . attributes . viter ( ) . map ( | ( k , v ) | ( k . clone ( ) . into ( ) , v . clone ( ) . into ( ) ) ) . collect :: < NodeAttributes > ( ) . into ( ) ==> vattrs ( & n . attributes )
//@rw n . attributes . viter ( ) . map ( | ( k , v ) | ( k . to_string ( ) , v . to_string ( ) ) ) . collect ( ) ==> vattrs ( & n . attributes )
//@rw s . attributes . viter ( ) . map ( | ( k , v ) | ( k . to_string ( ) , v . to_string ( ) ) ) . collect ( ) ==> vattrs ( & s . attributes )
//@rw . as_ref ( ) . map ( datetime_to_timestamp ) . into ( ) ==> . vto_field ( )
//@rw . map ( timestamp_to_datetime ) ==> . vfrom_field ( )
//@rw table : HashRing < RemoteNode > ==> table : HashRing
//@rw . sort_by ( $x... ) ==> . vsort_by ( $x... )
//@rw . retain ( $x... ) ==> . vretain ( $x... )
//@rw n . into ( ) ==> RemoteNode :: from_state ( n )
//@rw node . clone ( ) . into ( ) ==> RemoteNode :: from_state ( node . clone ( ) )
//@rw node . into ( ) ==> RemoteNode :: from_state ( node )
//@noinline get_all,register_node
pub type NodeId = u64;
#[derive(Clone, Copy)]
pub struct DateTime { pub secs: i64, pub nanos: u32 }
pub struct Timestamp { pub seconds: i64, pub nanos: i32 }
#[verifier::reject_recursive_types(T)]
pub struct MessageField<T> { pub v: Option<T> }
#[derive(Clone, Copy)]
pub struct Attrs { pub x: u64 }
pub struct ActorContext { pub x: u64 }
/// A time chrono can represent: the seconds are in range, the nanoseconds are below two seconds (leap second).
pub uninterp spec fn in_range(secs: i64) -> bool;
pub open spec fn valid(d: DateTime) -> bool { in_range(d.secs) && d.nanos < 2_000_000_000 }
pub struct NaiveDateTime { pub secs: i64, pub nanos: u32 }
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn from_timestamp_opt(secs: i64, nanos: u32) -> (r: Option<NaiveDateTime>)
        ensures in_range(secs) && nanos < 2_000_000_000 ==> r == Some(NaiveDateTime { secs, nanos })
    { unimplemented!() }
}
impl DateTime {
    pub fn from_utc(n: NaiveDateTime) -> (r: DateTime) ensures r == (DateTime { secs: n.secs, nanos: n.nanos }) { DateTime { secs: n.secs, nanos: n.nanos } }
    pub fn vsecs(&self) -> (r: i64) ensures r == self.secs { self.secs }
    pub fn vnanos(&self) -> (r: u32) ensures r == self.nanos { self.nanos }
}
/// A copied attribute table has the same entries.
pub fn vattrs(a: &Attrs) -> (r: Attrs) ensures r == *a { *a }
//@enum N NodeStatus attr=#[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct N RemoteNodeState
//@struct N RemoteNode
//@struct N RemoteNodeStore
//@struct P RemoteNode as=WireNode drop=special_fields
//@struct P NodeIdentity drop=special_fields
//@struct A RegisterNode
//@struct A UpdateNodes
//@struct A NodeTerminated
//@struct A GetNodes
pub struct RemoteRegistry { pub nodes: RemoteNodeStore }
impl Clone for RemoteNode {
    #[verifier::external_body]
    fn clone(&self) -> (r: RemoteNode) ensures r == *self { unimplemented!() }
}
impl Clone for RemoteNodeState {
    #[verifier::external_body]
    fn clone(&self) -> (r: RemoteNodeState) ensures r == *self { unimplemented!() }
}

// The hash ring of the `hashring` crate: a bag of nodes; who is in charge of a key is a function of the bag (no two
// nodes of the bag having equal hashes) and the key.
#[verifier::external_body]
pub struct HashRing { p: u64 }
pub type Bag = vstd::multiset::Multiset<RemoteNode>;
impl View for HashRing { type V = Bag; uninterp spec fn view(&self) -> Bag; }
pub uninterp spec fn in_charge<K>(bag: Bag, key: K) -> RemoteNode;
/// The fields `Hash for RemoteNode` feeds to the ring's hasher (see hash_node below).
pub open spec fn hkey(n: RemoteNode) -> (u64, u64, u64, Option<DateTime>) { (n.id, n.addr, n.tag, n.node_started_at) }
impl HashRing {
    #[verifier::external_body]
    pub fn new() -> (r: HashRing) ensures r@ == Bag::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, node: RemoteNode) ensures final(self)@ == old(self)@.insert(node) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, node: &RemoteNode) -> (r: Option<RemoteNode>)
        ensures match r {
            Some(n) => old(self)@.count(n) > 0 && hkey(n) == hkey(*node) && final(self)@ == old(self)@.remove(n),
            None => final(self)@ == old(self)@ && forall|n: RemoteNode| hkey(n) == hkey(*node) ==> #[trigger] old(self)@.count(n) == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K>(&self, key: &K) -> (r: Option<&RemoteNode>)
        ensures match r {
            Some(n) => self@.count(*n) > 0 && *n == in_charge(self@, *key),
            None => forall|n: RemoteNode| #[trigger] self@.count(n) == 0 }
    { unimplemented!() }
}
pub trait VVals<K, V> { fn vvalues<'a>(&'a self) -> (r: VIter<&'a V>); }
/// `HashMap::values` yields the value of every key once, in some order.
impl VVals<u64, RemoteNodeState> for HashMap<u64, RemoteNodeState> {
    #[verifier::external_body]
    fn vvalues<'a>(&'a self) -> (r: VIter<&'a RemoteNodeState>)
        ensures (forall|k: u64| #[trigger] self@.contains_key(k) ==> self@[k].id == k) ==> derefs(r@).no_duplicates(),
            forall|k: u64| #[trigger] self@.contains_key(k) ==> derefs(r@).contains(self@[k]),
            forall|i: int| 0 <= i < r@.len() ==> exists|k: u64| self@.contains_pair(k, #[trigger] derefs(r@)[i])
    { unimplemented!() }
}
impl WireNode {
    #[verifier::external_body]
    pub fn default() -> (r: WireNode) { unimplemented!() }
}
pub trait VPush<T>: View<V = Seq<T>> { fn vpush(&mut self, x: T) ensures final(self)@ == old(self)@.push(x), final(self)@.contains(x),
    forall|y: T| #[trigger] old(self)@.contains(y) ==> final(self)@.contains(y); }
impl<T> VPush<T> for Vec<T> {
    fn vpush(&mut self, x: T) {
        let ghost s = self@;
        self.push(x);
        proof { assert(self@[s.len() as int] == x);
            assert forall|y: T| #[trigger] s.contains(y) implies self@.contains(y) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(self@[i] == y); } }
    }
}
pub trait VSort<T>: View<V = Seq<T>> {
    fn vsort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F)
        requires forall|x: &T, y: &T| #[trigger] f.requires((x, y))
        ensures final(self)@.to_multiset() == old(self)@.to_multiset(), final(self)@.len() == old(self)@.len(),
            forall|x: T| final(self)@.contains(x) <==> #[trigger] old(self)@.contains(x),
            forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]),
            old(self)@.no_duplicates() ==> final(self)@.no_duplicates();
    fn vretain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((&#[trigger] old(self)@[i],))
        ensures
            forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]) && f.ensures((&final(self)@[i],), true),
            forall|x: T| #[trigger] old(self)@.contains(x) && !f.ensures((&x,), false) ==> final(self)@.contains(x),
            old(self)@.no_duplicates() ==> final(self)@.no_duplicates();
}
impl<T> VSort<T> for Vec<T> {
    #[verifier::external_body]
    fn vsort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vretain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
}

// ---------------------------------------------------------------------------------------------
pub open spec fn core(s: RemoteNodeState) -> RemoteNode {
    RemoteNode { id: s.id, addr: s.addr, tag: s.tag, node_started_at: s.node_started_at, attributes: s.attributes }
}
pub open spec fn joining(n: RemoteNode) -> RemoteNodeState {
    RemoteNodeState { id: n.id, addr: n.addr, tag: n.tag, node_started_at: n.node_started_at, attributes: n.attributes,
        ping_latency: None, last_heartbeat: None, status: NodeStatus::Joining }
}
pub type Nodes = Map<u64, RemoteNodeState>;
/// Every node of the store is in the ring exactly once, as it registered last, and nothing else is.
pub open spec fn in_step(nodes: Nodes, ring: Bag) -> bool {
    &&& forall|k: u64| #[trigger] nodes.contains_key(k) ==> nodes[k].id == k
    &&& forall|n: RemoteNode| #[trigger] ring.count(n) == (if nodes.contains_key(n.id) && core(nodes[n.id]) == n { 1nat } else { 0nat })
}
impl RemoteNodeStore {
    pub open spec fn wf(&self) -> bool { in_step(self.nodes@, self.table@) }
}
/// Two stores that know the same nodes have the same ring, so they agree on who is in charge of every key.
pub proof fn lemma_agree(a: RemoteNodeStore, b: RemoteNodeStore)
    requires a.wf(), b.wf(), a.nodes@.dom() == b.nodes@.dom(),
        forall|k: u64| #[trigger] a.nodes@.contains_key(k) ==> core(a.nodes@[k]) == core(b.nodes@[k]),
    ensures a.table@ == b.table@
{
    assert forall|n: RemoteNode| a.table@.count(n) == b.table@.count(n) by {
        assert(a.nodes@.contains_key(n.id) == b.nodes@.contains_key(n.id));
    }
    assert(a.table@ =~= b.table@);
}
pub open spec fn upd(m: Nodes, u: RemoteNodeState) -> Nodes {
    if m.contains_key(u.id) {
        m.insert(u.id, RemoteNodeState { status: u.status, ping_latency: u.ping_latency, last_heartbeat: u.last_heartbeat, ..m[u.id] })
    } else { m.insert(u.id, u) }
}
/// The health of the nodes as of the updates; what a known node registered with stays.
pub open spec fn updated(m: Nodes, us: Seq<RemoteNodeState>) -> Nodes
    decreases us.len()
{ if us.len() == 0 { m } else { upd(updated(m, us.drop_last()), us.last()) } }

//@fn N RemoteNodeState::new
    ensures r == joining(node)
//@end
//@fn N RemoteNode::new
    ensures r == (RemoteNode { id, addr, tag, node_started_at, attributes })
//@end
//@fn N From<RemoteNodeState>@RemoteNode::from as=from_state
    ensures r == core(s)
//@end
impl Clone for Timestamp {
    #[verifier::external_body]
    fn clone(&self) -> (r: Timestamp) ensures r == *self { unimplemented!() }
}
impl Clone for MessageField<Timestamp> {
    #[verifier::external_body]
    fn clone(&self) -> (r: MessageField<Timestamp>) ensures r == *self { unimplemented!() }
}
//@fn M datetime_to_timestamp
    requires valid(*date_time)
    ensures r.seconds == date_time.secs, r.nanos == date_time.nanos
//@end
//@fn M timestamp_to_datetime
    requires in_range(timestamp.seconds), 0 <= timestamp.nanos < 2_000_000_000
    ensures r == (DateTime { secs: timestamp.seconds, nanos: timestamp.nanos as u32 })
//@end
/// A time sent to another node is the same time there.
pub fn times_survive_the_wire(d: &DateTime) -> (r: DateTime)
    requires valid(*d) ensures r == *d
{ timestamp_to_datetime(datetime_to_timestamp(d)) }
pub open spec fn opt_valid(o: Option<DateTime>) -> bool { o is Some ==> valid(o->0) }
pub open spec fn field_valid(f: MessageField<Timestamp>) -> bool { f.v is Some ==> in_range(f.v->0.seconds) && 0 <= f.v->0.nanos < 2_000_000_000 }
pub open spec fn field_of(o: Option<DateTime>) -> MessageField<Timestamp> {
    MessageField { v: match o { Some(d) => Some(Timestamp { seconds: d.secs, nanos: d.nanos as i32 }), None => None } }
}
pub open spec fn time_of(f: MessageField<Timestamp>) -> Option<DateTime> {
    match f.v { Some(t) => Some(DateTime { secs: t.seconds, nanos: t.nanos as u32 }), None => None }
}
// `Option::map` applied to the two conversions
pub trait VToField { spec fn ok(&self) -> bool; fn vto_field(&self) -> (r: MessageField<Timestamp>) requires self.ok(); }
impl VToField for Option<DateTime> {
    open spec fn ok(&self) -> bool { opt_valid(*self) }
    fn vto_field(&self) -> (r: MessageField<Timestamp>) ensures r == field_of(*self)
    { MessageField { v: match self { Some(d) => Some(datetime_to_timestamp(d)), None => None } } }
}
pub trait VFromField { spec fn ok(&self) -> bool; fn vfrom_field(self) -> (r: Option<DateTime>) where Self: Sized requires self.ok(); }
impl VFromField for Option<Timestamp> {
    open spec fn ok(&self) -> bool { *self is Some ==> in_range((*self)->0.seconds) && 0 <= (*self)->0.nanos < 2_000_000_000 }
    fn vfrom_field(self) -> (r: Option<DateTime>) ensures r == time_of(MessageField { v: self })
    { match self { Some(t) => Some(timestamp_to_datetime(t)), None => None } }
}
pub open spec fn wire(n: RemoteNode) -> WireNode {
    WireNode { node_id: n.id, addr: n.addr, tag: n.tag, node_started_at: field_of(n.node_started_at), attributes: n.attributes }
}
//@fn N From<RemoteNode>@network::RemoteNode::from as=node_to_wire impl=none sig="pub fn node_to_wire(n: RemoteNode) -> (r: WireNode)"
//@rw Self ==> WireNode
    requires opt_valid(n.node_started_at)
    ensures r == wire(n)
//@end
//@fn N From<&RemoteNode>@network::RemoteNode::from as=node_ref_to_wire impl=none sig="pub fn node_ref_to_wire(n: &RemoteNode) -> (r: WireNode)"
//@rw Self ==> WireNode
    requires opt_valid(n.node_started_at)
    ensures r == wire(*n)
//@end
//@fn N From<RemoteNodeState>@network::RemoteNode::from as=state_to_wire impl=none sig="pub fn state_to_wire(s: RemoteNodeState) -> (r: WireNode)"
//@rw Self ==> WireNode
    requires opt_valid(s.node_started_at)
    ensures r == wire(core(s))
//@end
//@fn N From<network::RemoteNode>@RemoteNode::from as=wire_to_node impl=none sig="pub fn wire_to_node(n: WireNode) -> (r: RemoteNode)"
//@rw Self ==> RemoteNode
    requires field_valid(n.node_started_at)
    ensures r == (RemoteNode { id: n.node_id, addr: n.addr, tag: n.tag, node_started_at: time_of(n.node_started_at), attributes: n.attributes })
//@end
//@fn N From<&network::NodeIdentity>@RemoteNode::from as=identity_to_node impl=none sig="pub fn identity_to_node(n: &NodeIdentity) -> (r: RemoteNode)"
    requires field_valid(n.node_started_at)
    ensures r == (RemoteNode { id: n.node_id, addr: n.addr, tag: n.node_tag, node_started_at: time_of(n.node_started_at), attributes: n.attributes })
//@end
/// A node another node learns of is the node that was described to it.
pub fn nodes_survive_the_wire(n: RemoteNode) -> (r: RemoteNode)
    requires opt_valid(n.node_started_at) ensures r == n
{ wire_to_node(node_to_wire(n)) }

// what the hasher of the ring is fed
pub struct HasherLog { pub x: u64 }
pub enum Word { N(u64), T(Option<DateTime>) }
impl View for HasherLog { type V = Seq<Word>; uninterp spec fn view(&self) -> Seq<Word>; }
pub trait VHash { spec fn word(&self) -> Word; fn vhash(&self, state: &mut HasherLog) ensures final(state)@ == old(state)@.push(self.word()),
        final(state)@[old(state)@.len() as int] == self.word(), forall|i: int| 0 <= i < old(state)@.len() ==> #[trigger] old(state)@[i] == final(state)@[i]; }
impl VHash for u64 { open spec fn word(&self) -> Word { Word::N(*self) }
    #[verifier::external_body]
    fn vhash(&self, state: &mut HasherLog) { } }
impl VHash for Option<DateTime> { open spec fn word(&self) -> Word { Word::T(*self) }
    #[verifier::external_body]
    fn vhash(&self, state: &mut HasherLog) { } }
/// The place of a node on the ring depends on nothing but what every node of the cluster knows of it.
//@fn N Hash@RemoteNode::hash as=hash_node impl=none sig="pub fn hash_node(this: &RemoteNode, state: &mut HasherLog)"
//@rw . hash ( state ) ==> . vhash ( state )
//@rw self ==> this
    ensures old(state)@.len() < final(state)@.len(), final(state)@.take(old(state)@.len() as int) =~= old(state)@,
        forall|i: int| old(state)@.len() <= i < final(state)@.len() ==> #[trigger] final(state)@[i] == Word::N(this.id) || final(state)@[i] == Word::N(this.addr)
            || final(state)@[i] == Word::N(this.tag) || final(state)@[i] == Word::T(this.node_started_at),
        exists|i: int| old(state)@.len() <= i < final(state)@.len() && #[trigger] final(state)@[i] == Word::N(this.id),
//@end

//@fn N RemoteNodeStore::new desugar=map
    requires forall|i: int, j: int| 0 <= i < j < nodes@.len() ==> nodes@[i].id != nodes@[j].id
    ensures r.wf(),
        forall|i: int| 0 <= i < nodes@.len() ==> r.nodes@.contains_pair((#[trigger] nodes@[i]).id, joining(nodes@[i])),
        forall|k: u64| #[trigger] r.nodes@.contains_key(k) ==> exists|i: int| 0 <= i < nodes@.len() && nodes@[i].id == k,
//@start
    let ghost nodes0 = nodes@;
//@loop 0
    invariant
        nodes0 == nodes@, it0.seq() == nodes0,
        forall|i: int, j: int| 0 <= i < j < nodes0.len() ==> nodes0[i].id != nodes0[j].id,
        in_step(collected@, table@),
        forall|i: int| 0 <= i < it0.index@ ==> collected@.contains_pair((#[trigger] nodes0[i]).id, joining(nodes0[i])),
        forall|k: u64| #[trigger] collected@.contains_key(k) ==> exists|i: int| 0 <= i < it0.index@ && nodes0[i].id == k,
//@end
//@fn N RemoteNodeStore::get_all
    requires self.wf()
    ensures forall|i: int| 0 <= i < r@.len() ==> self.nodes@.contains_pair((#[trigger] r@[i]).id, r@[i]),
        forall|k: u64| #[trigger] self.nodes@.contains_key(k) ==> r@.contains(self.nodes@[k]),
        r@.no_duplicates(),
//@end
//@fn N RemoteNodeStore::update_nodes
    requires old(self).wf()
    ensures final(self).wf(), final(self).nodes@ == updated(old(self).nodes@, nodes@)
//@start
    let ghost nodes0 = nodes@;
//@loop 0
    invariant
        it0.seq() == nodes0, self.wf(), self.nodes@ == updated(old(self).nodes@, nodes0.take(it0.index@)),
//@loopstart 0
    proof { lemma_updated_step(old(self).nodes@, nodes0, it0.index@); }
    let ghost before = self.nodes@;
//@loopend 0
    proof { assert(self.nodes@ =~= upd(before, nodes0[it0.index@])); }
//@tail
    proof { assert(nodes0.take(nodes0.len() as int) =~= nodes0); }
//@end
//@fn N RemoteNodeStore::get_mut
    ensures match r {
        Some(s) => old(self).nodes@.contains_key(*node_id) && *s == old(self).nodes@[*node_id]
            && final(self).nodes@ == old(self).nodes@.insert(*node_id, *final(s)),
        None => !old(self).nodes@.contains_key(*node_id) && final(self).nodes@ == old(self).nodes@ },
        final(self).table == old(self).table,
//@end
//@fn N RemoteNodeStore::node_terminated
    requires old(self).wf()
    ensures final(self).wf(),
        final(self).nodes@ == (if old(self).nodes@.contains_key(node_id) {
            old(self).nodes@.insert(node_id, RemoteNodeState { status: NodeStatus::Terminated, ..old(self).nodes@[node_id] }) } else { old(self).nodes@ }),
//@end
//@fn N RemoteNodeStore::get
    ensures r == (if self.nodes@.contains_key(*node_id) { Some(&self.nodes@[*node_id]) } else { None })
//@end
//@fn N RemoteNodeStore::is_registered
    ensures r == self.nodes@.contains_key(node_id)
//@end
//@fn N RemoteNodeStore::remove opt
    requires old(self).wf()
    ensures final(self).wf(), final(self).nodes@ == old(self).nodes@.remove(*node_id),
        r == (if old(self).nodes@.contains_key(*node_id) { Some(core(old(self).nodes@[*node_id])) } else { None }),
//@start
    proof { assert(self.nodes@.contains_key(*node_id) ==> self.table@.count(core(self.nodes@[*node_id])) == 1); }
//@end
//@fn N RemoteNodeStore::get_by_key generics="<K>" sig="pub fn get_by_key<K>(&mut self, key: K) -> (r: Option<&RemoteNode>)"
    requires old(self).wf()
    ensures *final(self) == *old(self), match r {
        Some(n) => old(self).nodes@.contains_key(n.id) && core(old(self).nodes@[n.id]) == *n && *n == in_charge(old(self).table@, key),
        None => forall|k: u64| !old(self).nodes@.contains_key(k) },
//@start
    proof { assert forall|k: u64| #[trigger] self.nodes@.contains_key(k) implies self.table@.count(core(self.nodes@[k])) == 1 by {} }
//@end
//@fn N RemoteNodeStore::add desugar=map
//@rw nodes . push ( $x... ) ==> nodes . vpush ( $x... )
    requires old(self).wf()
    ensures final(self).wf(), final(self).nodes@ == old(self).nodes@.insert(node.id, joining(node))
//@start
    let ghost nodes1 = self.nodes@.insert(node.id, joining(node)); let ghost node0 = node;
//@closure 0
    -> (b: bool) ensures b == (n.id != node.id)
//@before 0
    proof {
        assert forall|i: int| 0 <= i < nodes@.len() implies nodes1.contains_pair((#[trigger] nodes@[i]).id, nodes@[i]) by {}
        assert forall|k: u64| #[trigger] nodes1.contains_key(k) implies nodes@.contains(nodes1[k]) by {}
        assert forall|i: int, j: int| 0 <= i < j < nodes@.len() implies nodes@[i].id != nodes@[j].id by { assert(nodes1.contains_pair(nodes@[i].id, nodes@[i])); assert(nodes1.contains_pair(nodes@[j].id, nodes@[j])); }
    }
//@loop 0
    invariant
        in_step(collected@, self.table@),
        forall|i: int, j: int| 0 <= i < j < it0.seq().len() ==> it0.seq()[i].id != it0.seq()[j].id,
        forall|i: int| 0 <= i < it0.seq().len() ==> nodes1.contains_pair((#[trigger] it0.seq()[i]).id, it0.seq()[i]),
        forall|k: u64| #[trigger] nodes1.contains_key(k) ==> it0.seq().contains(nodes1[k]),
        forall|i: int| 0 <= i < it0.index@ ==> collected@.contains_pair((#[trigger] it0.seq()[i]).id, it0.seq()[i]),
        forall|k: u64| #[trigger] collected@.contains_key(k) ==> exists|i: int| 0 <= i < it0.index@ && it0.seq()[i].id == k,
//@end
/// updating one node after the other
pub proof fn lemma_updated_step(m: Nodes, us: Seq<RemoteNodeState>, i: int)
    requires 0 <= i < us.len()
    ensures updated(m, us.take(i + 1)) == upd(updated(m, us.take(i)), us[i])
{ assert(us.take(i + 1).drop_last() =~= us.take(i)); }

// the registry, the actor that owns the store
//@fn G Handler<GetNodes>@RemoteRegistry::handle as=handle_get_nodes
    requires old(self).nodes.wf()
    ensures *final(self) == *old(self),
        forall|i: int| 0 <= i < r@.len() ==> old(self).nodes.nodes@.contains_pair((#[trigger] r@[i]).id, r@[i]),
        forall|k: u64| #[trigger] old(self).nodes.nodes@.contains_key(k) ==> r@.contains(old(self).nodes.nodes@[k]),
        r@.no_duplicates(),
//@end
//@fn G RemoteRegistry::register_node
    requires old(self).nodes.wf()
    ensures final(self).nodes.wf(), final(self).nodes.nodes@ == old(self).nodes.nodes@.insert(node.id, joining(node))
//@end
//@fn G Handler<RegisterNode>@RemoteRegistry::handle as=handle_register_node
    requires old(self).nodes.wf()
    ensures final(self).nodes.wf(), final(self).nodes.nodes@ == old(self).nodes.nodes@.insert(message.0.id, joining(message.0))
//@end
//@fn G Handler<UpdateNodes>@RemoteRegistry::handle as=handle_update_nodes
    requires old(self).nodes.wf()
    ensures final(self).nodes.wf(), final(self).nodes.nodes@ == updated(old(self).nodes.nodes@, message.0@)
//@end
//@fn G Handler<NodeTerminated>@RemoteRegistry::handle as=handle_node_terminated
    requires old(self).nodes.wf()
    ensures final(self).nodes.wf(),
        final(self).nodes.nodes@ == (if old(self).nodes.nodes@.contains_key(message.0) {
            old(self).nodes.nodes@.insert(message.0, RemoteNodeState { status: NodeStatus::Terminated, ..old(self).nodes.nodes@[message.0] }) } else { old(self).nodes.nodes@ }),
//@end
} // verus!
fn main() {}
