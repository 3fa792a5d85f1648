//! Executable contracts of the persistence layer, on real persistent actors.
use crate::core::*;
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Envelope, Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::system::ActorSystem;
use coerce::actor::{IntoActor, LocalActorRef};
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::journal::snapshot::Snapshot;
use coerce::persistent::journal::storage::{JournalEntry, JournalStorage, JournalStorageRef};
use coerce::persistent::journal::types::JournalTypes;
use coerce::persistent::{
    PersistErr, PersistFailurePolicy, Persistence, PersistentActor, Recover, RecoverSnapshot, RecoveryFailurePolicy,
};
use parking_lot::Mutex;
use std::collections::VecDeque;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct Ev(pub u32);
#[derive(Clone, Debug, PartialEq)]
pub struct Ev2(pub u32);
pub struct Snap(pub Vec<u32>);

fn b32(x: u32) -> Vec<u8> {
    x.to_be_bytes().to_vec()
}
fn u32b(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
macro_rules! msg {
    ($t:ident) => {
        impl Message for $t {
            type Result = ();
            fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
                Ok(b32(self.0))
            }
            fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
                if b.len() == 4 {
                    Ok($t(u32b(&b)))
                } else {
                    Err(MessageUnwrapErr::DeserializationErr)
                }
            }
        }
    };
}
msg!(Ev);
msg!(Ev2);
impl Snapshot for Snap {
    fn into_remote_envelope(self) -> Result<Envelope<Self>, MessageWrapErr> {
        Ok(Envelope::Remote(self.0.iter().flat_map(|x| b32(*x)).collect()))
    }
    fn from_remote_envelope(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        if b.len() % 4 != 0 {
            return Err(MessageUnwrapErr::DeserializationErr);
        }
        Ok(Snap(b.chunks(4).map(u32b).collect()))
    }
}

/// In-memory provider behind a fault injector: the next scripted writes/reads fail.
#[derive(Default)]
pub struct Faults {
    pub writes: VecDeque<bool>,
    pub reads: VecDeque<bool>,
    pub write_attempts: Vec<Vec<(i64, String, Vec<u8>)>>,
    pub read_attempts: usize,
    /// recoveries of these ids wait
    pub gated: std::collections::HashSet<String>,
}
pub struct FaultyStorage {
    pub inner: JournalStorageRef,
    pub f: Arc<Mutex<Faults>>,
}
pub struct FaultyProvider(pub Arc<FaultyStorage>);
impl StorageProvider for FaultyProvider {
    fn journal_storage(&self) -> Option<JournalStorageRef> {
        Some(self.0.clone())
    }
}
impl FaultyStorage {
    pub fn new() -> Arc<FaultyStorage> {
        Arc::new(FaultyStorage {
            inner: InMemoryStorageProvider::new().journal_storage().unwrap(),
            f: Default::default(),
        })
    }
    fn w(&self, es: &[&JournalEntry]) -> anyhow::Result<()> {
        let mut f = self.f.lock();
        f.write_attempts.push(es.iter().map(|e| (e.sequence, e.payload_type.to_string(), e.bytes.to_vec())).collect());
        if f.writes.pop_front().unwrap_or(false) {
            Err(anyhow::anyhow!("scripted write fault"))
        } else {
            Ok(())
        }
    }
    fn r(&self) -> anyhow::Result<()> {
        let mut f = self.f.lock();
        f.read_attempts += 1;
        if f.reads.pop_front().unwrap_or(false) {
            Err(anyhow::anyhow!("scripted read fault"))
        } else {
            Ok(())
        }
    }
}
#[async_trait]
impl JournalStorage for FaultyStorage {
    async fn write_snapshot(&self, id: &str, e: JournalEntry) -> anyhow::Result<()> {
        self.w(&[&e])?;
        self.inner.write_snapshot(id, e).await
    }
    async fn write_message(&self, id: &str, e: JournalEntry) -> anyhow::Result<()> {
        self.w(&[&e])?;
        self.inner.write_message(id, e).await
    }
    async fn write_message_batch(&self, id: &str, es: Vec<JournalEntry>) -> anyhow::Result<()> {
        self.w(&es.iter().collect::<Vec<_>>())?;
        self.inner.write_message_batch(id, es).await
    }
    async fn read_latest_snapshot(&self, id: &str) -> anyhow::Result<Option<JournalEntry>> {
        while self.f.lock().gated.contains(id) {
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        }
        self.r()?;
        self.inner.read_latest_snapshot(id).await
    }
    async fn read_latest_messages(&self, id: &str, from: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        self.r()?;
        self.inner.read_latest_messages(id, from).await
    }
    async fn read_message(&self, id: &str, s: i64) -> anyhow::Result<Option<JournalEntry>> {
        self.inner.read_message(id, s).await
    }
    async fn read_messages(&self, id: &str, a: i64, b: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        self.inner.read_messages(id, a, b).await
    }
    async fn delete_messages_to(&self, id: &str, to: i64) -> anyhow::Result<()> {
        self.inner.delete_messages_to(id, to).await
    }
    async fn delete_all(&self, id: &str) -> anyhow::Result<()> {
        self.inner.delete_all(id).await
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    Pre,
    Snap(Vec<u32>),
    A(u32),
    B(u32),
    Post,
    RecErr,
    RecFailed,
}

pub struct Entity {
    pub key: String,
    pub state: Vec<u32>,
    pub seen: Arc<Mutex<Vec<Seen>>>,
    pub policy: PersistFailurePolicy,
    pub rpolicy: RecoveryFailurePolicy,
}

#[async_trait]
impl PersistentActor for Entity {
    fn persistence_key(&self, _ctx: &ActorContext) -> String {
        self.key.clone()
    }
    fn configure(t: &mut JournalTypes<Self>) {
        t.message::<Ev>("ev").message::<Ev2>("ev2").snapshot::<Snap>("snap");
    }
    async fn pre_recovery(&mut self, _ctx: &mut ActorContext) {
        self.seen.lock().push(Seen::Pre);
    }
    async fn post_recovery(&mut self, _ctx: &mut ActorContext) {
        self.seen.lock().push(Seen::Post);
    }
    fn persist_failure_policy(&self) -> PersistFailurePolicy {
        self.policy
    }
    fn recovery_failure_policy(&self) -> RecoveryFailurePolicy {
        self.rpolicy
    }
    async fn on_recovery_err(&mut self, _e: coerce::persistent::journal::RecoveryErr, _ctx: &mut ActorContext) {
        self.seen.lock().push(Seen::RecErr);
    }
    async fn on_recovery_failed(&mut self, _ctx: &mut ActorContext) {
        self.seen.lock().push(Seen::RecFailed);
    }
}
#[async_trait]
impl Recover<Ev> for Entity {
    async fn recover(&mut self, m: Ev, _: &mut ActorContext) {
        self.state.push(m.0);
        self.seen.lock().push(Seen::A(m.0));
    }
}
#[async_trait]
impl Recover<Ev2> for Entity {
    async fn recover(&mut self, m: Ev2, _: &mut ActorContext) {
        self.state.push(m.0);
        self.seen.lock().push(Seen::B(m.0));
    }
}
#[async_trait]
impl RecoverSnapshot<Snap> for Entity {
    async fn recover(&mut self, s: Snap, _: &mut ActorContext) {
        self.state = s.0.clone();
        self.seen.lock().push(Seen::Snap(s.0));
    }
}

/// What an operation on the entity answered.
#[derive(Clone, Debug, PartialEq)]
pub enum Ack {
    Ok,
    Err,
    Stopping,
}
fn ack(r: Result<(), PersistErr>) -> Ack {
    match r {
        Ok(()) => Ack::Ok,
        Err(PersistErr::ActorStopping(_)) => Ack::Stopping,
        Err(_) => Ack::Err,
    }
}
#[derive(Clone)]
pub enum Do {
    A(u32),
    B(u32),
    Batch(Vec<(bool, u32)>),
    Snap,
    Clear,
}
pub struct Cmd(pub Do);
impl Message for Cmd {
    type Result = (Ack, i64, bool);
}
#[async_trait]
impl Handler<Cmd> for Entity {
    async fn handle(&mut self, c: Cmd, ctx: &mut ActorContext) -> (Ack, i64, bool) {
        let mut flag = false;
        let a = match c.0 {
            Do::A(x) => {
                let a = ack(self.persist(&Ev(x), ctx).await);
                if a == Ack::Ok {
                    self.state.push(x);
                }
                a
            }
            Do::B(x) => {
                let a = ack(self.persist(&Ev2(x), ctx).await);
                if a == Ack::Ok {
                    self.state.push(x);
                }
                a
            }
            Do::Batch(xs) => {
                let mut b = self.event_batch(ctx);
                for (second, x) in &xs {
                    if *second {
                        b.message(Ev2(*x));
                    } else {
                        b.message(Ev(*x));
                    }
                }
                let a = ack(self.persist_batch(b, ctx).await);
                if a == Ack::Ok {
                    self.state.extend(xs.iter().map(|x| x.1));
                }
                a
            }
            Do::Snap => ack(self.snapshot(Snap(self.state.clone()), ctx).await),
            Do::Clear => {
                flag = self.clear_old_messages(ctx).await;
                Ack::Ok
            }
        };
        (a, self.last_sequence_id(ctx), flag)
    }
}
pub struct GetState;
impl Message for GetState {
    type Result = (Vec<u32>, i64);
}
#[async_trait]
impl Handler<GetState> for Entity {
    async fn handle(&mut self, _: GetState, ctx: &mut ActorContext) -> (Vec<u32>, i64) {
        (self.state.clone(), self.last_sequence_id(ctx))
    }
}

pub async fn start(
    sys: &ActorSystem,
    key: &str,
    policy: PersistFailurePolicy,
    rpolicy: RecoveryFailurePolicy,
) -> (Result<LocalActorRef<Entity>, coerce::actor::ActorRefErr>, Arc<Mutex<Vec<Seen>>>) {
    let seen: Arc<Mutex<Vec<Seen>>> = Default::default();
    let r = Entity { key: key.into(), state: vec![], seen: seen.clone(), policy, rpolicy }
        .into_anon_actor(None::<String>, sys)
        .await;
    (r, seen)
}

/// One acknowledged record of the reference history.
#[derive(Clone, Debug, PartialEq)]
enum Rec {
    M { seq: i64, second: bool, x: u32 },
    S { seq: i64, state: Vec<u32> },
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    A,     // persist
    B,     // persist of the second type
    Bt,    // batch of two
    Be,    // empty batch
    S,     // snapshot
    F,     // the next write fails
    R,     // restart
    C,     // clear_old_messages
    O,     // another entity persists
}

async fn history(ops: Vec<Op>) -> CaseResult {
    let store = FaultyStorage::new();
    let sys = ActorSystem::new().to_persistent(Persistence::from(FaultyProvider(store.clone())));
    let pol = PersistFailurePolicy::ReturnErr;
    let rpol = RecoveryFailurePolicy::StopActor;
    let (a, _) = start(&sys, "entity-1", pol, rpol).await;
    let mut a = a.map_err(|e| format!("start: {e:?}"))?;
    let (o, _) = start(&sys, "entity-2", pol, rpol).await;
    let o = o.map_err(|e| format!("start: {e:?}"))?;
    let mut hist: Vec<Rec> = vec![];
    let mut other: Vec<u32> = vec![];
    let mut state: Vec<u32> = vec![];
    let mut last = 0i64;
    let mut n = 0u32;
    let mut fault = false;
    let mut ops = ops;
    ops.push(Op::R);
    for (i, op) in ops.iter().enumerate() {
        let at = format!("op {} {:?}", i, op);
        let r = match op {
            Op::F => {
                if !fault {
                    store.f.lock().writes.push_back(true);
                }
                fault = true;
                continue;
            }
            Op::A => Do::A(n + 1),
            Op::B => Do::B(n + 1),
            Op::Bt => Do::Batch(vec![(false, n + 1), (true, n + 2)]),
            Op::Be => Do::Batch(vec![]),
            Op::S => Do::Snap,
            Op::C => Do::Clear,
            Op::O => {
                // not subject to the scripted fault
                store.f.lock().writes.clear();
                n += 1;
                let r = o.send(Cmd(Do::A(n))).await.map_err(|e| format!("{at}: {e:?}"))?;
                eq(&format!("{at}: other entity ack"), r.0, Ack::Ok)?;
                other.push(n);
                if fault {
                    store.f.lock().writes.push_back(true);
                }
                continue;
            }
            Op::R => {
                a.stop().await.map_err(|e| format!("{at}: stop {e:?}"))?;
                let (na, seen) = start(&sys, "entity-1", pol, rpol).await;
                a = na.map_err(|e| format!("{at}: restart {e:?}"))?;
                // recovery: newest snapshot, then exactly the later messages, in order
                let mut want = vec![Seen::Pre];
                let pos = hist.iter().rposition(|r| matches!(r, Rec::S { .. }));
                if let Some(p) = pos {
                    if let Rec::S { state, .. } = &hist[p] {
                        want.push(Seen::Snap(state.clone()));
                    }
                }
                for r in &hist[pos.map_or(0, |p| p + 1)..] {
                    if let Rec::M { second, x, .. } = r {
                        want.push(if *second { Seen::B(*x) } else { Seen::A(*x) });
                    }
                }
                want.push(Seen::Post);
                eq(&format!("{at}: recovered"), seen.lock().clone(), want)?;
                let (st, l) = a.send(GetState).await.map_err(|e| format!("{at}: {e:?}"))?;
                eq(&format!("{at}: state"), st, state.clone())?;
                eq(&format!("{at}: last sequence"), l, last)?;
                continue;
            }
        };
        let fails = fault && !matches!(op, Op::C | Op::Be);
        let (ackd, l, _flag) = a.send(Cmd(r.clone())).await.map_err(|e| format!("{at}: {e:?}"))?;
        if fails {
            fault = false;
            eq(&format!("{at}: ack of a failed write"), ackd, Ack::Err)?;
        } else {
            eq(&format!("{at}: ack"), ackd, Ack::Ok)?;
            match r {
                Do::A(x) => {
                    last += 1;
                    state.push(x);
                    hist.push(Rec::M { seq: last, second: false, x });
                }
                Do::B(x) => {
                    last += 1;
                    state.push(x);
                    hist.push(Rec::M { seq: last, second: true, x });
                }
                Do::Batch(xs) => {
                    for (second, x) in xs {
                        last += 1;
                        state.push(x);
                        hist.push(Rec::M { seq: last, second, x });
                    }
                }
                Do::Snap => {
                    last += 1;
                    hist.push(Rec::S { seq: last, state: state.clone() });
                }
                Do::Clear => {}
            }
        }
        n += 2;
        eq(&format!("{at}: last sequence"), l, last)?;
        // what storage holds for this entity: the acknowledged messages, strictly increasing
        let snap_seq = hist.iter().rev().find_map(|r| if let Rec::S { seq, .. } = r { Some(*seq) } else { None });
        let all = store.inner.read_latest_messages("entity-1", 0).await.unwrap().unwrap_or_default();
        let got: Vec<(i64, String, u32)> =
            all.iter().map(|e| (e.sequence, e.payload_type.to_string(), u32b(&e.bytes))).collect();
        let want: Vec<(i64, String, u32)> = hist
            .iter()
            .filter_map(|r| match r {
                Rec::M { seq, second, x } => Some((*seq, if *second { "ev2" } else { "ev" }.to_string(), *x)),
                _ => None,
            })
            .collect();
        // clear_old_messages may only drop messages older than the newest snapshot
        let tail = |v: &Vec<(i64, String, u32)>| -> Vec<(i64, String, u32)> {
            v.iter().filter(|e| snap_seq.map_or(true, |s| e.0 > s)).cloned().collect()
        };
        let cleared = ops[..=i].contains(&Op::C);
        if cleared {
            eq(&format!("{at}: stored messages after the newest snapshot"), tail(&got), tail(&want))?;
            ensure(got.iter().all(|g| want.contains(g)), format!("{at}: stored messages {got:?} not among acknowledged {want:?}"))?;
        } else {
            eq(&format!("{at}: stored messages"), got, want)?;
        }
        let s = store.inner.read_latest_snapshot("entity-1").await.unwrap();
        eq(&format!("{at}: stored snapshot"), s.map(|s| s.sequence), snap_seq)?;
    }
    let (st, l) = o.send(GetState).await.map_err(|e| format!("other: {e:?}"))?;
    eq("other entity state", st, other.clone())?;
    eq("other entity sequence", l, other.len() as i64)?;
    let _ = a.stop().await;
    let _ = o.stop().await;
    Ok(())
}

fn show(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(",")
}

pub async fn journal(cx: &mut Cx) {
    use Op::*;
    let max = if cx.thorough { 5 } else { 4 };
    for w in words(&[A, Bt, S, F, R, C], max) {
        let k = show(&w);
        cx.case("journal-history", k, move || history(w.clone())).await;
    }
    let n = if cx.thorough { 3000 } else { 300 };
    let mut rng = cx.rng(1);
    let all = [A, A, B, Bt, Be, S, F, R, C, O];
    for _ in 0..n {
        let len = 6 + rng.below(20);
        let w: Vec<Op> = (0..len).map(|_| *rng.pick(&all)).collect();
        let k = show(&w);
        cx.case("journal-history", k, move || history(w.clone())).await;
    }
}

// ------------------------------------------------------------------ failure policies
use coerce::persistent::Retry;
use std::time::Duration;

fn persist_policies() -> Vec<(String, PersistFailurePolicy)> {
    let mut v = vec![
        ("ReturnErr".into(), PersistFailurePolicy::ReturnErr),
        ("StopActor".into(), PersistFailurePolicy::StopActor),
        ("UntilSuccess".into(), PersistFailurePolicy::Retry(Retry::UntilSuccess { delay: None })),
    ];
    for n in 0..5usize {
        for d in [None, Some(Duration::from_millis(1))] {
            v.push((
                format!("MaxAttempts({n},{})", if d.is_some() { "delay" } else { "-" }),
                PersistFailurePolicy::Retry(Retry::MaxAttempts { max_attempts: n, delay: d }),
            ));
        }
    }
    v
}
async fn stops(a: &LocalActorRef<Entity>) -> bool {
    for _ in 0..400 {
        if !a.is_valid() {
            return true;
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    false
}
async fn stored(store: &FaultyStorage, id: &str) -> Vec<(i64, u32)> {
    let all = store.inner.read_latest_messages(id, 0).await.unwrap().unwrap_or_default();
    all.iter().map(|e| (e.sequence, u32b(&e.bytes))).collect()
}

/// `pre` acknowledged messages, then one operation of `kind` whose first `faults` writes fail.
async fn persist_policy(kind: u8, policy: PersistFailurePolicy, faults: usize, pre: usize) -> CaseResult {
    let store = FaultyStorage::new();
    let sys = ActorSystem::new().to_persistent(Persistence::from(FaultyProvider(store.clone())));
    let (a, _) = start(&sys, "e", policy, RecoveryFailurePolicy::StopActor).await;
    let a = a.map_err(|e| format!("start: {e:?}"))?;
    for i in 0..pre {
        let r = a.send(Cmd(Do::A(i as u32 + 1))).await.map_err(|e| format!("{e:?}"))?;
        eq("prefix ack", r.0, Ack::Ok)?;
    }
    store.f.lock().write_attempts.clear();
    for _ in 0..faults {
        store.f.lock().writes.push_back(true);
    }
    let (op, n) = match kind {
        0 => (Do::A(101), 1),
        1 => (Do::Batch(vec![(false, 101), (true, 102), (false, 103)]), 3),
        _ => (Do::Snap, 0),
    };
    // what the policy promises
    let bound = match policy {
        PersistFailurePolicy::ReturnErr | PersistFailurePolicy::StopActor => Some(1),
        PersistFailurePolicy::Retry(Retry::MaxAttempts { max_attempts, .. }) => Some(max_attempts.max(1)),
        _ => None,
    };
    let ok = bound.map_or(true, |b| faults < b);
    let tries = if ok { faults + 1 } else { bound.unwrap() };
    let (want, stop) = match policy {
        _ if ok => (Ack::Ok, false),
        PersistFailurePolicy::StopActor => (Ack::Stopping, true),
        PersistFailurePolicy::Retry(_) => (Ack::Err, true),
        _ => (Ack::Err, false),
    };
    let (got, last, _) = a.send(Cmd(op)).await.map_err(|e| format!("no reply: {e:?}"))?;
    eq("answer", got, want)?;
    eq("write attempts", store.f.lock().write_attempts.len(), tries)?;
    {
        let f = store.f.lock();
        ensure(f.write_attempts.iter().all(|w| *w == f.write_attempts[0]), "attempts of one operation differ")?;
    }
    let mut msgs: Vec<(i64, u32)> = (1..=pre as i64).map(|i| (i, i as u32)).collect();
    let base = pre as i64;
    let mut l = base;
    if ok {
        for i in 0..n {
            msgs.push((base + 1 + i as i64, 101 + i as u32));
        }
        l = base + if n == 0 { 1 } else { n as i64 };
    }
    eq("stored messages", stored(&store, "e").await, msgs)?;
    eq("stored snapshot", store.inner.read_latest_snapshot("e").await.unwrap().map(|s| s.sequence), if ok && n == 0 { Some(l) } else { None })?;
    eq("last sequence", last, l)?;
    if stop {
        ensure(stops(&a).await, "the policy stops the actor, but it is still running")?;
        ensure(a.send(GetState).await.is_err(), "a stopped actor answered")?;
    } else {
        store.f.lock().writes.clear();
        let r = a.send(Cmd(Do::A(7))).await.map_err(|e| format!("actor stopped although its policy keeps it: {e:?}"))?;
        eq("next ack", r.0, Ack::Ok)?;
        eq("next sequence", r.1, l + 1)?;
    }
    let _ = a.stop().await;
    Ok(())
}

fn recovery_policies() -> Vec<(String, RecoveryFailurePolicy)> {
    let mut v = vec![
        ("StopActor".into(), RecoveryFailurePolicy::StopActor),
        ("UntilSuccess".into(), RecoveryFailurePolicy::Retry(Retry::UntilSuccess { delay: None })),
    ];
    for n in 0..4usize {
        v.push((format!("MaxAttempts({n})"), RecoveryFailurePolicy::Retry(Retry::MaxAttempts { max_attempts: n, delay: None })));
    }
    v
}
/// Reads of the journal fail per `reads` (true = fail), `corrupt` = index of a payload that cannot be decoded.
async fn recovery_policy(policy: RecoveryFailurePolicy, reads: Vec<bool>, hist: Vec<bool>, corrupt: Option<usize>) -> CaseResult {
    let store = FaultyStorage::new();
    let sys = ActorSystem::new().to_persistent(Persistence::from(FaultyProvider(store.clone())));
    // hist: true = snapshot, false = message
    let mut plan: Vec<(Seen, bool)> = vec![];
    let mut st: Vec<u32> = vec![];
    for (i, snap) in hist.iter().enumerate() {
        let seq = i as i64 + 1;
        let bad = corrupt == Some(i);
        if *snap {
            plan.clear();
            let bytes = if bad { vec![1] } else { st.iter().flat_map(|x| b32(*x)).collect() };
            let e = JournalEntry { sequence: seq, payload_type: "snap".into(), bytes: Arc::new(bytes) };
            store.inner.write_snapshot("e", e).await.unwrap();
            plan.push((Seen::Snap(st.clone()), bad));
        } else {
            let x = 10 + i as u32;
            let bytes = if bad { vec![1] } else { b32(x) };
            let e = JournalEntry { sequence: seq, payload_type: "ev".into(), bytes: Arc::new(bytes) };
            store.inner.write_message("e", e).await.unwrap();
            plan.push((Seen::A(x), bad));
            st.push(x);
        }
    }
    // the rounds of loading: a round reads the snapshot and then the messages
    let bound = match policy {
        RecoveryFailurePolicy::StopActor => Some(1),
        RecoveryFailurePolicy::Retry(Retry::MaxAttempts { max_attempts, .. }) => Some(max_attempts.max(1)),
        _ => None,
    };
    let mut want = vec![Seen::Pre];
    let mut q: VecDeque<bool> = reads.iter().cloned().collect();
    let mut rounds = 0;
    let loaded = loop {
        rounds += 1;
        let failed = q.pop_front().unwrap_or(false) || q.pop_front().unwrap_or(false);
        if !failed {
            break true;
        }
        want.push(Seen::RecErr);
        if bound == Some(rounds) {
            break false;
        }
    };
    let mut ok = loaded;
    if loaded {
        for (s, bad) in &plan {
            if *bad {
                want.push(Seen::RecErr);
                ok = false;
                break;
            }
            want.push(s.clone());
        }
    } else {
        want.push(Seen::RecFailed);
    }
    if ok {
        want.push(Seen::Post);
    }
    store.f.lock().reads = reads.into_iter().collect();
    let (a, seen) = start(&sys, "e", PersistFailurePolicy::ReturnErr, policy).await;
    let got = seen.lock().clone();
    eq("start-up hooks", got, want.clone())?;
    if ok {
        let a = a.map_err(|e| format!("start: {e:?}"))?;
        let (_, l) = a.send(GetState).await.map_err(|e| format!("{e:?}"))?;
        eq("last sequence", l, hist.len() as i64)?;
        let r = a.send(Cmd(Do::A(1))).await.map_err(|e| format!("{e:?}"))?;
        eq("next", (r.0, r.1), (Ack::Ok, hist.len() as i64 + 1))?;
        let _ = a.stop().await;
    } else {
        // never reaches the running state, handles no message
        if let Ok(a) = a {
            ensure(stops(&a).await, "an actor that failed to recover keeps running")?;
            ensure(a.send(GetState).await.is_err(), "an actor that failed to recover answered")?;
        }
        eq("start-up hooks", seen.lock().clone(), want)?;
    }
    Ok(())
}

pub async fn policy(cx: &mut Cx) {
    let maxf = if cx.thorough { 8 } else { 6 };
    for (name, p) in persist_policies() {
        for kind in 0..3u8 {
            for faults in 0..maxf {
                for pre in [0usize, 2] {
                    cx.case("persist-policy", format!("{name} op={} faults={faults} pre={pre}", ["message", "batch", "snapshot"][kind as usize]), move || {
                        persist_policy(kind, p, faults, pre)
                    })
                    .await;
                }
            }
        }
    }
    let mut reads: Vec<Vec<bool>> = vec![vec![]];
    reads.extend(words(&[true, false], if cx.thorough { 7 } else { 5 }));
    let mut hists: Vec<Vec<bool>> = vec![vec![]];
    hists.extend(words(&[true, false], 3));
    for (name, p) in recovery_policies() {
        for r in &reads {
            for h in [vec![], vec![false], vec![true], vec![false, true, false]] {
                let (r, h) = (r.clone(), h.clone());
                cx.case("recovery-policy", format!("{name} reads={r:?} journal={h:?}"), move || recovery_policy(p, r.clone(), h.clone(), None)).await;
            }
        }
        for h in &hists {
            for c in 0..h.len() {
                let h = h.clone();
                cx.case("recovery-corrupt", format!("{name} journal={h:?} undecodable={c}"), move || recovery_policy(p, vec![], h.clone(), Some(c))).await;
            }
        }
    }
}

// ------------------------------------------------------------------ the in-memory provider
#[derive(Clone, Copy, Debug)]
enum POp {
    M(usize),       // write one message
    B(usize, usize), // write a batch
    S(usize),       // write a snapshot
    D(usize, i64),  // delete messages up to
    X(usize),       // delete all
}
fn entry(seq: i64, n: u32) -> JournalEntry {
    JournalEntry { sequence: seq, payload_type: format!("t{}", n % 3).into(), bytes: Arc::new(b32(n)) }
}
type E = (i64, String, Vec<u8>);
fn flat(e: &JournalEntry) -> E {
    (e.sequence, e.payload_type.to_string(), e.bytes.to_vec())
}
async fn provider_case(ops: Vec<POp>) -> CaseResult {
    let p = InMemoryStorageProvider::new().journal_storage().unwrap();
    let ids = ["a", "b", "ab"];
    let mut msgs: Vec<Vec<E>> = vec![vec![]; 3];
    let mut snaps: Vec<Vec<E>> = vec![vec![]; 3];
    let mut seq = [0i64; 3];
    let mut n = 0u32;
    for (i, op) in ops.iter().enumerate() {
        let at = format!("op {i} {op:?}");
        match *op {
            POp::M(k) => {
                n += 1;
                seq[k] += 1;
                let e = entry(seq[k], n);
                msgs[k].push(flat(&e));
                p.write_message(ids[k], e).await.map_err(|e| format!("{at}: {e}"))?;
            }
            POp::B(k, c) => {
                let mut b = vec![];
                for _ in 0..c {
                    n += 1;
                    seq[k] += 1;
                    let e = entry(seq[k], n);
                    msgs[k].push(flat(&e));
                    b.push(e);
                }
                p.write_message_batch(ids[k], b).await.map_err(|e| format!("{at}: {e}"))?;
            }
            POp::S(k) => {
                n += 1;
                seq[k] += 1;
                let e = entry(seq[k], n);
                snaps[k].push(flat(&e));
                p.write_snapshot(ids[k], e).await.map_err(|e| format!("{at}: {e}"))?;
            }
            POp::D(k, to) => {
                msgs[k].retain(|e| e.0 >= to);
                p.delete_messages_to(ids[k], to).await.map_err(|e| format!("{at}: {e}"))?;
            }
            POp::X(k) => {
                msgs[k].clear();
                snaps[k].clear();
                p.delete_all(ids[k]).await.map_err(|e| format!("{at}: {e}"))?;
            }
        }
        for k in 0..3 {
            let s = p.read_latest_snapshot(ids[k]).await.map_err(|e| format!("{at}: {e}"))?;
            eq(&format!("{at}: newest snapshot of {}", ids[k]), s.as_ref().map(flat), snaps[k].last().cloned())?;
            let top = seq[k] + 1;
            for from in -1..=top {
                let g = p.read_latest_messages(ids[k], from).await.map_err(|e| format!("{at}: {e}"))?.unwrap_or_default();
                let want: Vec<E> = msgs[k].iter().filter(|e| e.0 > from).cloned().collect();
                eq(&format!("{at}: messages of {} after {from}", ids[k]), g.iter().map(flat).collect(), want)?;
                let g = p.read_message(ids[k], from).await.map_err(|e| format!("{at}: {e}"))?;
                eq(&format!("{at}: message {from} of {}", ids[k]), g.as_ref().map(flat), msgs[k].iter().find(|e| e.0 == from).cloned())?;
                for to in from - 1..=top {
                    let g = p.read_messages(ids[k], from, to).await.map_err(|e| format!("{at}: {e}"))?.unwrap_or_default();
                    let want: Vec<E> = msgs[k].iter().filter(|e| from <= e.0 && e.0 <= to).cloned().collect();
                    eq(&format!("{at}: messages of {} in {from}..={to}", ids[k]), g.iter().map(flat).collect(), want)?;
                }
            }
        }
    }
    Ok(())
}
pub async fn provider(cx: &mut Cx) {
    use POp::*;
    let al = [M(0), M(1), B(0, 2), B(0, 0), S(0), S(2), D(0, 0), D(0, 1), D(0, 2), D(0, 3), D(1, 9), X(0), X(2)];
    for w in words(&al, if cx.thorough { 4 } else { 3 }) {
        let k = format!("{w:?}");
        cx.case("provider", k, move || provider_case(w.clone())).await;
    }
    let mut rng = cx.rng(3);
    for _ in 0..(if cx.thorough { 3000 } else { 300 }) {
        let w: Vec<POp> = (0..4 + rng.below(14))
            .map(|_| {
                let k = rng.below(3);
                match rng.below(8) {
                    0 | 1 | 2 => M(k),
                    3 | 4 => B(k, rng.below(4)),
                    5 => S(k),
                    6 => D(k, rng.below(8) as i64),
                    _ => X(k),
                }
            })
            .collect();
        let k = format!("{w:?}");
        cx.case("provider", k, move || provider_case(w.clone())).await;
    }
}

/// A type-specific provider serves exactly that actor type; everything else uses the default one.
pub struct Other {
    pub e: Entity,
}
#[async_trait]
impl PersistentActor for Other {
    fn persistence_key(&self, _ctx: &ActorContext) -> String {
        self.e.key.clone()
    }
    fn configure(t: &mut JournalTypes<Self>) {
        t.message::<Ev>("ev");
    }
    fn persist_failure_policy(&self) -> PersistFailurePolicy {
        self.e.policy
    }
}
#[async_trait]
impl Recover<Ev> for Other {
    async fn recover(&mut self, m: Ev, _: &mut ActorContext) {
        self.e.state.push(m.0);
    }
}
#[async_trait]
impl Handler<Ev> for Other {
    async fn handle(&mut self, m: Ev, ctx: &mut ActorContext) {
        let _ = self.persist(&m, ctx).await;
    }
}
async fn provider_selection(entity_first: bool, which: u8) -> CaseResult {
    let (d, s) = (FaultyStorage::new(), FaultyStorage::new());
    let mut p = Persistence::from(FaultyProvider(d.clone()));
    if which == 1 {
        p = p.actor_provider::<Entity, _>(FaultyProvider(s.clone()));
    } else if which == 2 {
        p = p.actor_provider::<Other, _>(FaultyProvider(s.clone()));
    }
    let sys = ActorSystem::new().to_persistent(p);
    let pol = PersistFailurePolicy::ReturnErr;
    let run_entity = || async {
        let (a, _) = start(&sys, "k", pol, RecoveryFailurePolicy::StopActor).await;
        let a = a.map_err(|e| format!("start: {e:?}"))?;
        a.send(Cmd(Do::A(5))).await.map_err(|e| format!("{e:?}"))?;
        let _ = a.stop().await;
        Ok::<(), String>(())
    };
    let run_other = || async {
        let e = Entity { key: "k".into(), state: vec![], seen: Default::default(), policy: pol, rpolicy: RecoveryFailurePolicy::StopActor };
        let a = Other { e }.into_anon_actor(None::<String>, &sys).await.map_err(|e| format!("start: {e:?}"))?;
        a.send(Ev(6)).await.map_err(|e| format!("{e:?}"))?;
        let _ = a.stop().await;
        Ok::<(), String>(())
    };
    let mut want = (vec![], vec![]);
    for e in [entity_first, !entity_first] {
        let x = if e { 5 } else { 6 };
        if e {
            run_entity().await?;
        } else {
            run_other().await?;
        }
        let to = if (which == 1 && e) || (which == 2 && !e) { &mut want.1 } else { &mut want.0 };
        let seq = to.len() as i64 + 1;
        to.push((seq, x));
    }
    eq("default storage", stored(&d, "k").await, want.0)?;
    eq("type-specific storage", stored(&s, "k").await, want.1)?;
    Ok(())
}
pub async fn selection(cx: &mut Cx) {
    for first in [true, false] {
        for which in 0..3 {
            cx.case("provider-selection", format!("entity_first={first} specific={which}"), move || provider_selection(first, which)).await;
        }
    }
}
