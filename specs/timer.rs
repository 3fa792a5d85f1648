//@include head.inc
verus! {
//@include std.inc
//@file T coerce/src/actor/scheduler/timer.rs
//@file W coerce/src/actor/worker.rs
//@# the actor, its messages and their results are opaque values of one arbitrary type each
//@rw < A : Actor , T : TimerTick > ==>
//@rw < W : Actor + Clone , M : Message > ==>
//@rw < W : Actor + Clone > ==>
//@rw < W : Actor > ==>
//@rw < M : Message > ==>
//@rw LocalActorRef < A > ==> ActorRef
//@rw LocalActorRef < Worker < W > > ==> PoolRef
//@rw LocalActorRef < W > ==> ActorRef
//@rw WorkerRef < W > ==> PoolRef
//@rw Worker < W > ==> Worker
//@rw WorkerMessage < M > ==> WorkerMessage
//@rw M :: Result ==> R
//@rw where A : 'static + Handler < T > + Sync + Send , T : 'static + Clone + Sync + Send , T :: Result : 'static + Sync + Send , ==>
//@rw where W : Handler < M > , ==>
//@rw oneshot :: Receiver < bool > ==> StopRx
//@rw oneshot :: Sender < bool > ==> StopTx
//@rw tokio :: sync :: oneshot :: Sender < R > ==> ReplyTx
//@rw tokio :: sync :: oneshot :: channel ( ) ==> vchannel ( )
//@rw oneshot :: channel ( ) ==> vstop_channel ( )
//@rw time :: interval_at ==> vinterval_at
//@rw tokio :: spawn ( async move { $b... } ) ==> { $b... }
//@rw tokio :: spawn ( timer_loop ( $x... , ) ) ==> vspawn_timer ( $x... , Tracked ( & mut * w ) )
//@rw tokio :: spawn ( timer_loop ( $x... ) ) ==> vspawn_timer ( $x... , Tracked ( & mut * w ) )
//@rw format ! ( $x... ) ==> vname ( )
//@effect try_recv,notify,send,tick,reset,new_actor,vspawn_timer
#[derive(Clone, Copy)]
pub struct Duration { pub x: u64 }
pub struct Uuid { pub x: u64 }
#[derive(Clone, Copy)]
pub struct Instant { pub x: u64 }
pub struct Ms { pub x: u64 }
pub struct M { pub x: u64 }
pub type T = M;
pub struct R { pub x: u64 }
pub struct ActorRefErrX { pub x: u64 }
pub enum ActorRefErr { ResultChannelClosed, Other(u64) }
pub struct RecvErr { pub x: u64 }
pub struct ReplyTx { pub id: u64 }
pub struct StopTx { pub id: u64 }
pub struct StopRx { pub id: u64 }
pub struct ActorRef { pub chan: u64 }
pub struct PoolRef { pub chan: u64 }
pub struct ActorContext { pub x: u64 }
pub struct Act { pub x: u64 }
pub type W = Act;
pub struct ActorSystem { pub x: u64 }
pub struct Name { pub x: u64 }
pub enum Kind { Anonymous }
use Kind::*;
//@enum T TimerMode
//@struct T Timer
//@struct W Worker
//@struct W WorkerMessage
impl Clone for M { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Act { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ActorRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vname() -> Name { unimplemented!() }
impl Uuid { #[verifier::external_body] pub fn new_v4() -> Uuid { unimplemented!() } }
impl Instant {
    #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> Ms { unimplemented!() }
    pub uninterp spec fn after(&self, d: Duration) -> Instant;
    #[verifier::external_body] pub fn add(self, d: Duration) -> (r: Instant) ensures r == self.after(d) { unimplemented!() }
}

pub enum Ev {
    /// the timer waits for its next tick, one period after the last
    Wait { iv: u64 }, Reset { iv: u64 },
    /// it looks whether it was stopped
    Polled { stop: bool },
    /// a tick: the message to the actor, answered
    Tick { to: ActorRef, m: M, answered: bool, ok: bool },
    /// the timer's loop starts
    Loop { tick: Duration, m: M, to: ActorRef, stop: u64, now: bool },
    StopSent { id: u64 },
    /// a worker is given a message, and answers
    Work { to: ActorRef, m: M, r: Result<R, ActorRefErr> },
    Reply { to: ReplyTx, r: R },
    NewWorker { x: Act, r: Result<ActorRef, ActorRefErr> },
    NewPool { p: Worker, r: Result<PoolRef, ActorRefErr> },
    Hand { to: PoolRef, m: M, tx: ReplyTx },
}
pub tracked struct World { pub ghost log: Seq<Ev> }
impl StopRx {
    #[verifier::external_body]
    pub fn try_recv(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<bool, RecvErr>) ensures final(w).log == old(w).log.push(Ev::Polled { stop: r is Ok }) { unimplemented!() }
}
impl StopTx {
    /// Assumed (tokio): Err exactly when the timer's loop has ended.
    #[verifier::external_body]
    pub fn send(self, v: bool, Tracked(w): Tracked<&mut World>) -> (r: Result<(), bool>) ensures r is Ok ==> final(w).log == old(w).log.push(Ev::StopSent { id: self.id }), r is Err ==> *final(w) == *old(w) { unimplemented!() }
}
pub struct Interval { pub first: Instant, pub period: Duration, pub id: u64 }
#[verifier::external_body]
pub fn vinterval_at(first: Instant, period: Duration) -> (r: Interval) ensures r.first == first && r.period == period { unimplemented!() }
impl Interval {
    #[verifier::external_body]
    pub fn tick(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Instant) ensures *final(self) == *old(self), final(w).log == old(w).log.push(Ev::Wait { iv: old(self).id }) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self, Tracked(w): Tracked<&mut World>) ensures *final(self) == *old(self), final(w).log == old(w).log.push(Ev::Reset { iv: old(self).id }) { unimplemented!() }
}
impl ActorRef {
    #[verifier::external_body]
    pub fn notify(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::Tick { to: *self, m, answered: false, ok: r is Ok }) { unimplemented!() }
    #[verifier::external_body]
    pub fn send_tick(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<R, ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::Tick { to: *self, m, answered: true, ok: r is Ok }) { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&self, m: M, Tracked(w): Tracked<&mut World>) -> (r: Result<R, ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::Work { to: *self, m, r }) { unimplemented!() }
}
#[verifier::external_body]
pub fn vstop_channel() -> (r: (StopTx, StopRx)) ensures r.0.id == r.1.id { unimplemented!() }
#[verifier::external_body]
pub fn vspawn_timer(tick: Duration, m: M, to: ActorRef, rx: StopRx, now: bool, mode: TimerMode, Tracked(w): Tracked<&mut World>)
    ensures final(w).log == old(w).log.push(Ev::Loop { tick, m, to, stop: rx.id, now }) { unimplemented!() }
// ------------------------------------------------------------------ timers
/// What may come after what: a tick only after a wait and after a look that found no stop; a wait only after a tick that
/// reached its actor; nothing after a stop was seen or a tick did not reach its actor.
pub open spec fn follows(m: M, to: ActorRef, mode: TimerMode, a: Ev, b: Ev) -> bool {
    match a {
        Ev::Wait { iv } => b is Polled,
        Ev::Polled { stop } => !stop && (b matches Ev::Tick { to: t, m: n, answered, .. } && t == to && n == m && answered == (mode is Send)),
        Ev::Tick { ok, answered, .. } => ok && (if answered { b is Reset } else { b is Wait }),
        Ev::Reset { iv } => b == (Ev::Wait { iv }),
        _ => false }
}
#[verifier::opaque]
pub open spec fn ticking(m: M, to: ActorRef, mode: TimerMode, iv: u64, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
    &&& l1.len() > l0.len() && l1.take(l0.len() as int) =~= l0 && l1[l0.len() as int] == (Ev::Wait { iv })
    &&& forall|i: int| l0.len() <= i < l1.len() - 1 ==> follows(m, to, mode, #[trigger] l1[i], l1[i + 1])
}
pub broadcast proof fn lemma_step(m: M, to: ActorRef, mode: TimerMode, iv: u64, l0: Seq<Ev>, l1: Seq<Ev>, e: Ev)
    requires ticking(m, to, mode, iv, l0, l1), follows(m, to, mode, l1.last(), e)
    ensures #[trigger] ticking(m, to, mode, iv, l0, l1.push(e))
{
    reveal(ticking);
    let l2 = l1.push(e);
    assert(l2.take(l0.len() as int) =~= l1.take(l0.len() as int));
    assert forall|i: int| l0.len() <= i < l2.len() - 1 implies follows(m, to, mode, #[trigger] l2[i], l2[i + 1]) by {
        if i < l1.len() - 1 { assert(l2[i] == l1[i] && l2[i + 1] == l1[i + 1]); }
    }
}
pub broadcast proof fn lemma_first(m: M, to: ActorRef, mode: TimerMode, iv: u64, l0: Seq<Ev>)
    ensures #[trigger] ticking(m, to, mode, iv, l0, l0.push(Ev::Wait { iv }))
{ reveal(ticking); }
/// It ends only when it saw the stop, or the actor could not be reached.
pub open spec fn over(l: Seq<Ev>) -> bool { match l.last() { Ev::Polled { stop } => stop, Ev::Tick { ok, .. } => !ok, _ => false } }
//@fn T ::timer_loop world generics=""
//@rw actor . send ( $x... ) ==> actor . send_tick ( $x... )
    ensures exists|iv: Interval| #[trigger] ticking(msg, actor, mode, iv.id, old(w).log, final(w).log) && iv.period == tick && (if tick_immediately { true } else { exists|n: Instant| iv.first == #[trigger] n.after(tick) }),
        over(final(w).log),
//@start
    broadcast use {lemma_step, lemma_first};
//@loop 0
    invariant interval.period == tick, ticking(msg, actor, mode, interval.id, old(w).log, w.log), w.log.len() > old(w).log.len(), w.log.last() == (Ev::Wait { iv: interval.id }),
        tick_immediately || exists|n: Instant| interval.first == #[trigger] n.after(tick),
    ensures ticking(msg, actor, mode, interval.id, old(w).log, w.log), over(w.log), interval.period == tick,
        tick_immediately || exists|n: Instant| interval.first == #[trigger] n.after(tick),
//@loopstart 0
    broadcast use {lemma_step, lemma_first};
//@after 0
    assert(ticking(msg, actor, mode, interval.id, old(w).log, w.log));
//@end
//@fn T Timer::start world
    ensures final(w).log == old(w).log.push(Ev::Loop { tick, m: msg, to: actor, stop: r.stop.id, now: false }),
//@end
//@fn T Timer::start_immediately world
    ensures final(w).log == old(w).log.push(Ev::Loop { tick, m: msg, to: actor, stop: r.stop.id, now: true }),
//@end
//@fn T Timer::stop world
    ensures r ==> final(w).log == old(w).log.push(Ev::StopSent { id: self.stop.id }), !r ==> *final(w) == *old(w),
//@end
// ------------------------------------------------------------------ worker pools
pub uninterp spec fn outcome(t: ReplyTx) -> Result<R, RecvErr>;
#[verifier::external_body]
pub fn vchannel() -> (r: (ReplyTx, Result<R, RecvErr>)) ensures r.1 == outcome(r.0) { unimplemented!() }
impl ReplyTx {
    #[verifier::external_body]
    pub fn send(self, v: R, Tracked(w): Tracked<&mut World>) -> (r: Result<(), R>) ensures final(w).log == old(w).log.push(Ev::Reply { to: self, r: v }) { unimplemented!() }
}
impl PoolRef {
    #[verifier::external_body]
    pub fn send(&self, m: WorkerMessage, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ActorRefErr>) ensures final(w).log == old(w).log.push(Ev::Hand { to: *self, m: m.message, tx: m.res_tx }) { unimplemented!() }
}
pub trait Startable: Sized { type Ref; spec fn ev(self, r: Result<Self::Ref, ActorRefErr>) -> Ev; }
impl Startable for Act { type Ref = ActorRef; open spec fn ev(self, r: Result<ActorRef, ActorRefErr>) -> Ev { Ev::NewWorker { x: self, r } } }
impl Startable for Worker { type Ref = PoolRef; open spec fn ev(self, r: Result<PoolRef, ActorRefErr>) -> Ev { Ev::NewPool { p: self, r } } }
impl ActorSystem {
    #[verifier::external_body]
    pub fn new_actor<X: Startable>(&self, name: Name, x: X, kind: Kind, Tracked(w): Tracked<&mut World>) -> (r: Result<X::Ref, ActorRefErr>) ensures final(w).log == old(w).log.push(x.ev(r)) { unimplemented!() }
}
pub open spec fn hired(x: Act, s: Seq<ActorRef>) -> Seq<Ev> { Seq::new(s.len(), |i: int| Ev::NewWorker { x, r: Ok(s[i]) }) }
/// A pool that came up has exactly the workers that were started for it, count of them, each once.
pub open spec fn pooled(x: Act, count: usize, s: Seq<ActorRef>, p: Worker, r: Result<PoolRef, ActorRefErr>, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
    s.len() == count && p.workers@ =~= s && l1 =~= (l0 + hired(x, s)).push(Ev::NewPool { p, r })
}
//@fn W Worker::new as=new world ret="Result<PoolRef, ActorRefErr>" sig="pub fn new(state: Act, count: usize, name_prefix: &'static str, system: &mut ActorSystem, Tracked(w): Tracked<&mut World>) -> (r: Result<PoolRef, ActorRefErr>)"
    ensures r is Ok ==> exists|s: Seq<ActorRef>, p: Worker| #[trigger] pooled(state, count, s, p, r, old(w).log, final(w).log),
//@loop 0
    invariant w.log =~= old(w).log + hired(state, workers@), workers@.len() == i,
//@start
    let ghost mut s: Seq<ActorRef> = Seq::empty();
//@after 0
    proof { s = workers@; }
//@tail
    proof { assert(pooled(state, count, s, w.log.last()->p, __ret, old(w).log, w.log)); }
//@end
//@fn W WorkerMessage::new
    ensures r.message == message && r.res_tx == res_tx,
//@end
pub open spec fn dispatched(p: PoolRef, m: M, res: Result<R, ActorRefErr>, w0: World, w1: World) -> bool {
    exists|tx: ReplyTx| w1.log == w0.log.push(Ev::Hand { to: p, m, tx }) && match #[trigger] outcome(tx) { Ok(x) => res is Ok ==> res->Ok_0 == x, Err(_) => res is Err }
}
//@fn W WorkerRefExt<W>@LocalActorRef::dispatch as=dispatch world
    ensures dispatched(*old(self), message, r, *old(w), *final(w)),
//@end
/// A message goes to one worker, whose turn it is; the worker goes to the back of the line; its answer goes to the asker.
pub open spec fn worked(p0: Seq<ActorRef>, p1: Seq<ActorRef>, m: WorkerMessage, w0: World, w1: World) -> bool {
    if p0.len() == 0 { p1 =~= p0 && w1 == w0 } else {
        p1 =~= p0.skip(1).push(p0[0]) && exists|r: Result<R, ActorRefErr>| w1.log == (match r { Ok(x) => (#[trigger] w0.log.push(Ev::Work { to: p0[0], m: m.message, r })).push(Ev::Reply { to: m.res_tx, r: x }), Err(_) => w0.log.push(Ev::Work { to: p0[0], m: m.message, r }) })
    }
}
//@fn W Handler<WorkerMessage<M>>@Worker::handle as=handle world
    ensures worked(old(self).workers@, final(self).workers@, message, *old(w), *final(w)),
//@end
}
fn main(){}
