From c9123a90f9026974b6ee4220a2be51361015031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:07 +0000
Subject: [PATCH 01/35] fix: number persisted messages after the journal's last
 sequence

A message was written with the sequence of the previous entry and the journal only advanced
afterwards. The first message after a snapshot therefore shared the snapshot's sequence and was
skipped by recovery (which reads the messages after the snapshot).
---
 coerce/src/persistent/journal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coerce/src/persistent/journal/mod.rs b/coerce/src/persistent/journal/mod.rs
index 9ebfea7..bfb90c8 100644
--- a/coerce/src/persistent/journal/mod.rs
+++ b/coerce/src/persistent/journal/mod.rs
@@ -266,11 +266,13 @@ impl<A: PersistentActor> Journal<A> {
             .message_type_mapping::<M>()
             .expect("message type not configured");
 
+        let sequence = self.last_sequence_id + 1;
+
         self.storage
             .write_message(
                 &self.persistence_id,
                 JournalEntry {
-                    sequence: self.last_sequence_id,
+                    sequence,
                     payload_type: payload_type.clone(),
                     bytes,
                 },
@@ -283,7 +285,7 @@ impl<A: PersistentActor> Journal<A> {
             M::type_name()
         );
 
-        self.last_sequence_id += 1;
+        self.last_sequence_id = sequence;
         Ok(())
     }
 
-- 
2.43.0


From 34c72ed457d40e9b6f3cb3ed5f037035f62106fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:07 +0000
Subject: [PATCH 02/35] fix: in-memory journal range reads return the requested
 range

read_messages cut the end of the range at the start sequence, skipped the first requested entry in
one branch and panicked with a todo in another. It now returns the entries whose sequence lies in
[from, to], as the redis provider does.
---
 coerce/src/persistent/journal/provider.rs | 47 +++--------------------
 1 file changed, 6 insertions(+), 41 deletions(-)

diff --git a/coerce/src/persistent/journal/provider.rs b/coerce/src/persistent/journal/provider.rs
index 8d2de5f..b26eb93 100644
--- a/coerce/src/persistent/journal/provider.rs
+++ b/coerce/src/persistent/journal/provider.rs
@@ -201,49 +201,14 @@ pub mod inmemory {
                     if journal.messages.is_empty() {
                         Ok(None)
                     } else {
-                        let first_seq = journal.messages.first().map(|m| m.sequence).unwrap();
-                        let final_seq = journal.messages.last().map(|m| m.sequence).unwrap();
-
-                        if to_sequence >= final_seq {
-                            if first_seq >= from_sequence {
-                                Ok(Some(journal.messages.clone()))
-                            } else {
-                                let starting_message = journal
-                                    .messages
-                                    .iter()
-                                    .enumerate()
-                                    .find(|(_index, j)| j.sequence > from_sequence)
-                                    .map(|(index, _j)| index);
-
-                                if let Some(starting_index) = starting_message {
-                                    Ok(Some(
-                                        journal.messages[starting_index..]
-                                            .iter()
-                                            .cloned()
-                                            .collect(),
-                                    ))
-                                } else {
-                                    Ok(Some(vec![]))
-                                }
-                            }
-                        } else if first_seq >= from_sequence {
-                            let end_message = journal
+                        Ok(Some(
+                            journal
                                 .messages
                                 .iter()
-                                .enumerate()
-                                .find(|(_index, j)| j.sequence > from_sequence)
-                                .map(|(index, _j)| index);
-
-                            if let Some(end_index) = end_message {
-                                Ok(Some(
-                                    journal.messages[..end_index].iter().cloned().collect(),
-                                ))
-                            } else {
-                                Ok(Some(vec![]))
-                            }
-                        } else {
-                            panic!("todo: this")
-                        }
+                                .filter(|m| m.sequence >= from_sequence && m.sequence <= to_sequence)
+                                .cloned()
+                                .collect(),
+                        ))
                     }
                 }
             }
-- 
2.43.0


From b5ba77b5356d20773dd929c775b95ab5f8d8ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:04 +0000
Subject: [PATCH 03/35] fix: select the storage provider registered for the
 actor's type

---
 coerce/src/actor/context.rs    | 9 +++++----
 coerce/src/persistent/actor.rs | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/coerce/src/actor/context.rs b/coerce/src/actor/context.rs
index cf2b3f5..dae722c 100644
--- a/coerce/src/actor/context.rs
+++ b/coerce/src/actor/context.rs
@@ -8,7 +8,6 @@ use crate::actor::{
     LocalActorRef,
 };
 use futures::{Stream, StreamExt};
-use std::any::Any;
 use std::collections::HashMap;
 
 use tokio::sync::oneshot::Sender;
@@ -18,7 +17,9 @@ use crate::actor::supervised::{ChildRef, Supervised};
 use crate::actor::watch::watchers::Watchers;
 
 #[cfg(feature = "persistence")]
-use crate::persistent::context::ActorPersistence;
+use crate::persistent::{context::ActorPersistence, PersistentActor};
+#[cfg(feature = "persistence")]
+use std::any::TypeId;
 
 #[derive(Debug, Eq, PartialEq, Clone)]
 pub enum ActorStatus {
@@ -468,7 +469,7 @@ impl Default for StreamAttachmentOptions {
 
 impl ActorContext {
     #[cfg(feature = "persistence")]
-    pub fn with_persistence(self) -> Self {
+    pub fn with_persistence<A: PersistentActor>(self) -> Self {
         let mut ctx = self;
         let persistence = ctx
             .system()
@@ -476,7 +477,7 @@ impl ActorContext {
             .expect("persistence not configured");
 
         ctx.persistence = Some(ActorPersistence::new(
-            persistence.provider(ctx.boxed_ref.type_id()),
+            persistence.provider(TypeId::of::<A>()),
         ));
 
         ctx
diff --git a/coerce/src/persistent/actor.rs b/coerce/src/persistent/actor.rs
index aeee06b..64d87f0 100644
--- a/coerce/src/persistent/actor.rs
+++ b/coerce/src/persistent/actor.rs
@@ -224,7 +224,7 @@ where
         status: ActorStatus,
         boxed_ref: BoxedActorRef,
     ) -> ActorContext {
-        ActorContext::new(system, status, boxed_ref, Self::DEFAULT_TAGS).with_persistence()
+        ActorContext::new(system, status, boxed_ref, Self::DEFAULT_TAGS).with_persistence::<A>()
     }
 
     async fn started(&mut self, ctx: &mut ActorContext) {
-- 
2.43.0


From 97358e19002b9893e8d73df47891a16035f4f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:53 +0000
Subject: [PATCH 04/35] fix: answer every stop request for a shard, also while
 it starts or when it is not hosted

---
 coerce/src/sharding/host/mod.rs | 79 ++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index f3f3002..77f458f 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -300,27 +300,33 @@ impl Handler<StopShard> for ShardHost {
         };
 
         match shard_entry {
-            Entry::Occupied(mut shard_entry) => {
-                // TODO: is this correct? if the status is starting, should we not update that rather than re-inserting `Stopping`?
-                match shard_entry.insert(ShardState::Stopping) {
-                    ShardState::Starting {
-                        mut stop_requested, ..
-                    } => {
-                        // actor has requested to be started so we can't stop it yet, once the actor
-                        // has finished starting, we can then stop it.
-                        stop_requested = Some(stop_request);
-                    }
+            Entry::Occupied(mut shard_entry) => match shard_entry.get_mut() {
+                ShardState::Starting { stop_requested, .. } => {
+                    // actor has requested to be started so we can't stop it yet, once the actor
+                    // has finished starting, we can then stop it.
+                    *stop_requested = Some(stop_request);
+                }
 
-                    ShardState::Ready(actor_ref) => {
-                        self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
-                    }
+                ShardState::Ready(actor_ref) => {
+                    let actor_ref = actor_ref.clone();
+                    shard_entry.insert(ShardState::Stopping);
+                    self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
+                }
 
-                    ShardState::Stopping => {
-                        // shard already stopping
-                    }
+                ShardState::Stopping => {
+                    // shard already stopping
                 }
+            },
+            Entry::Vacant(_) => {
+                // the shard isn't running here, there is nothing to wait for
+                let remote_system = ctx.system().remote_owned();
+                tokio::spawn(notify_shard_stopped(
+                    shard_id,
+                    true,
+                    stop_request,
+                    remote_system,
+                ));
             }
-            Entry::Vacant(_) => {}
         }
     }
 }
@@ -343,26 +349,35 @@ impl ShardHost {
             });
 
             if let Some(stop_requested) = stop_requested {
-                let shard_stopped = ShardStopped {
-                    shard_id,
-                    stopped_successfully: result.is_ok(),
-                }
-                .into_envelope(EnvelopeType::Remote)
-                .unwrap()
-                .into_bytes();
-
-                let _ = remote_system
-                    .notify_raw_rpc_result(
-                        stop_requested.request_id,
-                        shard_stopped,
-                        stop_requested.origin_node_id,
-                    )
-                    .await;
+                notify_shard_stopped(shard_id, result.is_ok(), stop_requested, remote_system).await;
             }
         });
     }
 }
 
+async fn notify_shard_stopped(
+    shard_id: ShardId,
+    stopped_successfully: bool,
+    stop_requested: StopRequested,
+    remote_system: RemoteActorSystem,
+) {
+    let shard_stopped = ShardStopped {
+        shard_id,
+        stopped_successfully,
+    }
+    .into_envelope(EnvelopeType::Remote)
+    .unwrap()
+    .into_bytes();
+
+    let _ = remote_system
+        .notify_raw_rpc_result(
+            stop_requested.request_id,
+            shard_stopped,
+            stop_requested.origin_node_id,
+        )
+        .await;
+}
+
 #[async_trait]
 impl Handler<ShardStopped> for ShardHost {
     async fn handle(&mut self, message: ShardStopped, _ctx: &mut ActorContext) {
-- 
2.43.0


From 07f70b61f54621031d33c62f2aa13efc21570815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:22 +0000
Subject: [PATCH 05/35] fix: a shard that was moved or stopped while starting
 does not become ready, and its buffered requests are kept

---
 coerce/src/sharding/host/mod.rs | 55 +++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index 77f458f..9fe63f9 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -225,6 +225,13 @@ impl Handler<ShardAllocated> for ShardHost {
                 if let Some(shard_actor) = shard.actor_ref() {
                     let _ = shard_actor.notify_stop();
                 }
+
+                if let ShardState::Starting { request_buffer, .. } = shard {
+                    self.requests_pending_shard_allocation
+                        .entry(shard_id)
+                        .or_insert_with(Vec::new)
+                        .extend(request_buffer);
+                }
             }
 
             let shard_actor =
@@ -254,30 +261,40 @@ impl Handler<ShardReady> for ShardHost {
         let shard_id = message.0;
         let actor_ref = message.1;
 
-        let shard_state = self
-            .hosted_shards
-            .insert(shard_id, ShardState::Ready(actor_ref.clone()));
+        let shard_state = match self.hosted_shards.get_mut(&shard_id) {
+            Some(shard_state @ ShardState::Starting { .. }) => shard_state,
+            _ => {
+                // the shard was moved or stopped while it was starting
+                return;
+            }
+        };
 
         ctx.attach_child_ref(actor_ref.clone().into());
 
-        match shard_state {
-            Some(ShardState::Starting {
-                request_buffer,
-                stop_requested,
-                ..
-            }) => {
-                if let Some(stop_requested) = stop_requested {
-                    // TODO: move the request buffer over to `requests_pending_shard_allocation`
-                    self.stop_shard(shard_id, actor_ref, ctx, Some(stop_requested));
-                } else {
-                    let mut shard_state = ShardState::Ready(actor_ref);
-                    for request in request_buffer {
-                        handle_request(request, shard_id, &mut shard_state);
-                    }
+        let previous_state =
+            std::mem::replace(shard_state, ShardState::Ready(actor_ref.clone()));
+
+        if let ShardState::Starting {
+            request_buffer,
+            stop_requested,
+            ..
+        } = previous_state
+        {
+            if let Some(stop_requested) = stop_requested {
+                *shard_state = ShardState::Stopping;
+
+                // these requests can be delivered once the shard is allocated again
+                self.requests_pending_shard_allocation
+                    .entry(shard_id)
+                    .or_insert_with(Vec::new)
+                    .extend(request_buffer);
+
+                self.stop_shard(shard_id, actor_ref, ctx, Some(stop_requested));
+            } else {
+                for request in request_buffer {
+                    handle_request(request, shard_id, shard_state);
                 }
             }
-
-            _ => {}
         }
     }
 }
-- 
2.43.0


From 4a5868e4c3199b7ba2a652096686a0de860bb581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:35 +0000
Subject: [PATCH 06/35] fix: answer the requests buffered for an entity that
 fails to start

---
 coerce/src/sharding/shard/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 4940fdc..fc43a35 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -268,12 +268,28 @@ impl Handler<EntityStartResult> for Shard {
                 );
             }
             Err(e) => {
-                // TODO: we should respond to all buffered requests with a failure
-
                 error!(
                     "failed to spawn entity as a child of Shard#{}, actor_id={}, error={}, is_shard_recovery={}",
                     &self.shard_id, &actor_id, e, is_shard_recovery
-                )
+                );
+
+                // the entity isn't running: forget it, so that a later request can start it again, and
+                // answer the requests that were waiting for it
+                let is_starting = self
+                    .entities
+                    .get(&actor_id)
+                    .map_or(false, |entity| entity.state.is_starting());
+
+                if is_starting {
+                    let entity = self.entities.remove(&actor_id);
+                    if let Some(EntityState::Starting { request_buffer }) = entity.map(|e| e.state) {
+                        for msg in request_buffer {
+                            if let Some(result_channel) = msg.result_channel {
+                                let _ = result_channel.send(Err(e.clone()));
+                            }
+                        }
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 5ea41c220336e89bfc2e8159d1df50a665af3d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:10 +0000
Subject: [PATCH 07/35] fix: stopping an actor does not de-register another
 actor that took over its id

---
 coerce/src/actor/lifecycle.rs     | 16 +++++++++-------
 coerce/src/actor/scheduler/mod.rs | 24 +++++++++++++++++-------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/coerce/src/actor/lifecycle.rs b/coerce/src/actor/lifecycle.rs
index 6c1874c..e9ef6b5 100644
--- a/coerce/src/actor/lifecycle.rs
+++ b/coerce/src/actor/lifecycle.rs
@@ -6,7 +6,7 @@ use crate::actor::message::{Handler, Message, MessageHandler};
 use crate::actor::metrics::ActorMetrics;
 use crate::actor::scheduler::{ActorType, DeregisterActor};
 use crate::actor::system::ActorSystem;
-use crate::actor::{Actor, ActorId, BoxedActorRef, CoreActorRef, LocalActorRef};
+use crate::actor::{Actor, BoxedActorRef, LocalActorRef};
 
 use tokio::sync::mpsc::UnboundedReceiver;
 use tracing::Instrument;
@@ -56,7 +56,6 @@ impl ActorLoop {
         parent_ref: Option<BoxedActorRef>,
         mut system: Option<ActorSystem>,
     ) {
-        let actor_id = actor_ref.actor_id().clone();
         let mut ctx = actor
             .new_context(system.clone(), Starting, actor_ref.clone().into())
             .with_parent(parent_ref);
@@ -67,7 +66,7 @@ impl ActorLoop {
         ActorMetrics::incr_actor_created(A::type_name());
 
         if ctx.get_status() == &Stopping {
-            return actor_stopped(&mut actor, actor_type, &mut system, &actor_id, &mut ctx).await;
+            return actor_stopped(&mut actor, actor_type, &mut system, &actor_ref, &mut ctx).await;
         }
 
         ctx.set_status(Started);
@@ -131,7 +130,7 @@ impl ActorLoop {
 
         ctx.set_status(Stopping);
 
-        actor_stopped(&mut actor, actor_type, &mut system, &actor_id, &mut ctx).await
+        actor_stopped(&mut actor, actor_type, &mut system, &actor_ref, &mut ctx).await
     }
 }
 
@@ -139,7 +138,7 @@ async fn actor_stopped<A: Actor>(
     actor: &mut A,
     actor_type: ActorType,
     system: &mut Option<ActorSystem>,
-    actor_id: &ActorId,
+    actor_ref: &LocalActorRef<A>,
     mut ctx: &mut ActorContext,
 ) {
     actor.stopped(&mut ctx).await;
@@ -149,11 +148,14 @@ async fn actor_stopped<A: Actor>(
     if actor_type.is_tracked() {
         if let Some(system) = system.take() {
             if !system.is_terminated() {
-                trace!(actor_id = actor_id.as_ref(), "de-registering actor");
+                trace!(
+                    actor_id = actor_ref.actor_id().as_ref(),
+                    "de-registering actor"
+                );
 
                 system
                     .scheduler()
-                    .send(DeregisterActor(actor_id.clone()))
+                    .send(DeregisterActor(actor_ref.clone()))
                     .await
                     .expect("de-register actor");
             }
diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index b2a2d0c..daf90a1 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -142,9 +142,9 @@ where
     type Result = ();
 }
 
-pub struct DeregisterActor(pub ActorId);
+pub struct DeregisterActor<A: Actor>(pub LocalActorRef<A>);
 
-impl Message for DeregisterActor {
+impl<A: Actor> Message for DeregisterActor<A> {
     type Result = ();
 }
 
@@ -219,12 +219,22 @@ where
 }
 
 #[async_trait]
-impl Handler<DeregisterActor> for ActorScheduler {
-    async fn handle(&mut self, msg: DeregisterActor, _ctx: &mut ActorContext) -> () {
-        if let Some(_a) = self.actors.remove(&msg.0) {
-            debug!("de-registered actor {}", msg.0);
+impl<A: Actor> Handler<DeregisterActor<A>> for ActorScheduler {
+    async fn handle(&mut self, msg: DeregisterActor<A>, _ctx: &mut ActorContext) -> () {
+        let actor_id = msg.0.actor_id();
+
+        // the id may have since been taken over by another actor
+        let is_registered = self
+            .actors
+            .get(actor_id)
+            .and_then(|actor| actor.as_actor::<A>())
+            .map_or(false, |actor| actor.sender().same_channel(msg.0.sender()));
+
+        if is_registered {
+            self.actors.remove(actor_id);
+            debug!("de-registered actor {}", actor_id);
         } else {
-            warn!("actor {} not found to de-register", msg.0);
+            warn!("actor {} not found to de-register", actor_id);
         }
     }
 }
-- 
2.43.0


From 442d40e7ff3d3bd3b340e0533d4f2c7ae634d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:23 +0000
Subject: [PATCH 08/35] fix: register a tracked actor before it can stop and
 de-register itself

---
 coerce/src/actor/blocking.rs      | 20 ++++---------
 coerce/src/actor/scheduler/mod.rs | 42 ++++++++++++++++++++++++++
 coerce/src/actor/system/mod.rs    | 50 ++++++++-----------------------
 3 files changed, 59 insertions(+), 53 deletions(-)

diff --git a/coerce/src/actor/blocking.rs b/coerce/src/actor/blocking.rs
index 476a75c..aa7fdd5 100644
--- a/coerce/src/actor/blocking.rs
+++ b/coerce/src/actor/blocking.rs
@@ -3,7 +3,7 @@
 use crate::actor::lifecycle::Stop;
 use crate::actor::message::{ActorMessage, Exec, Handler, Message};
 use crate::actor::metrics::ActorMetrics;
-use crate::actor::scheduler::{start_actor, ActorType, RegisterActor};
+use crate::actor::scheduler::{start_root_actor, ActorType};
 use crate::actor::system::ActorSystem;
 use crate::actor::{Actor, ActorRefErr, IntoActorId, LocalActorRef};
 use tokio::sync::oneshot;
@@ -17,21 +17,11 @@ impl ActorSystem {
     ) -> Result<LocalActorRef<A>, ActorRefErr> {
         let id = id.into_actor_id();
         let (tx, rx) = oneshot::channel();
-        let actor_ref = start_actor(
-            actor,
-            id.clone(),
-            actor_type,
-            Some(tx),
-            Some(self.clone()),
-            None,
-            self.system_name().clone(),
-        );
+        let (actor_ref, on_registered) =
+            start_root_actor(actor, id.clone(), actor_type, Some(tx), self);
 
-        if actor_type.is_tracked() {
-            let _ = self.scheduler().send_blocking(RegisterActor {
-                id: id.clone(),
-                actor_ref: actor_ref.clone(),
-            });
+        if let Some(on_registered) = on_registered {
+            let _ = on_registered.blocking_recv();
         }
 
         match rx.blocking_recv() {
diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index daf90a1..e646bec 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -299,3 +299,45 @@ where
 
     actor_ref
 }
+
+/// Starts a root actor of the given system. If the actor is tracked, its registration is enqueued
+/// with the `ActorScheduler` before the actor can run (and therefore before it can stop and
+/// de-register itself), and a channel is returned that is notified once it has been handled.
+pub(crate) fn start_root_actor<A: Actor>(
+    actor: A,
+    id: ActorId,
+    actor_type: ActorType,
+    on_start: Option<tokio::sync::oneshot::Sender<()>>,
+    system: &ActorSystem,
+) -> (
+    LocalActorRef<A>,
+    Option<tokio::sync::oneshot::Receiver<()>>,
+) {
+    let (tx, rx) = mpsc::unbounded_channel();
+    let actor_ref = LocalActorRef::new(id.clone(), tx, system.system_name().clone());
+
+    let on_registered = if actor_type.is_tracked() {
+        let (tx, rx) = tokio::sync::oneshot::channel();
+        let register = RegisterActor {
+            id,
+            actor_ref: actor_ref.clone(),
+        };
+
+        let _ = system.scheduler().deliver(register, tx);
+        Some(rx)
+    } else {
+        None
+    };
+
+    tokio::spawn(ActorLoop::run(
+        actor,
+        actor_type,
+        rx,
+        on_start,
+        actor_ref.clone(),
+        None,
+        Some(system.clone()),
+    ));
+
+    (actor_ref, on_registered)
+}
diff --git a/coerce/src/actor/system/mod.rs b/coerce/src/actor/system/mod.rs
index 949fa01..c2cdeb5 100644
--- a/coerce/src/actor/system/mod.rs
+++ b/coerce/src/actor/system/mod.rs
@@ -1,9 +1,11 @@
 //! Actor System
 //!
-use crate::actor::scheduler::{start_actor, ActorScheduler, ActorType, GetActor, RegisterActor};
+use crate::actor::scheduler::{
+    start_actor, start_root_actor, ActorScheduler, ActorType, GetActor,
+};
 use crate::actor::{
     new_actor_id, Actor, ActorId, ActorPath, ActorRefErr, BoxedActorRef, IntoActorId,
-    LocalActorRef, ToActorId,
+    LocalActorRef,
 };
 
 use crate::actor::system::builder::ActorSystemBuilder;
@@ -111,25 +113,11 @@ impl ActorSystem {
         actor_type: ActorType,
     ) -> LocalActorRef<A> {
         let id = id.into_actor_id();
-        let actor_ref = start_actor(
-            actor,
-            id.clone(),
-            actor_type,
-            None,
-            Some(self.clone()),
-            None,
-            self.system_name().to_actor_id(),
-        );
+        let (actor_ref, on_registered) =
+            start_root_actor(actor, id, actor_type, None, self);
 
-        if actor_type.is_tracked() {
-            let _ = self
-                .core
-                .scheduler
-                .send(RegisterActor {
-                    id: id.clone(),
-                    actor_ref: actor_ref.clone(),
-                })
-                .await;
+        if let Some(on_registered) = on_registered {
+            let _ = on_registered.await;
         }
 
         actor_ref
@@ -144,25 +132,11 @@ impl ActorSystem {
     ) -> Result<LocalActorRef<A>, ActorRefErr> {
         let id = id.into_actor_id();
         let (tx, rx) = tokio::sync::oneshot::channel();
-        let actor_ref = start_actor(
-            actor,
-            id.clone(),
-            actor_type,
-            Some(tx),
-            Some(self.clone()),
-            None,
-            self.system_name().to_actor_id(),
-        );
+        let (actor_ref, on_registered) =
+            start_root_actor(actor, id.clone(), actor_type, Some(tx), self);
 
-        if actor_type.is_tracked() {
-            let _ = self
-                .core
-                .scheduler
-                .send(RegisterActor {
-                    id: id.clone(),
-                    actor_ref: actor_ref.clone(),
-                })
-                .await;
+        if let Some(on_registered) = on_registered {
+            let _ = on_registered.await;
         }
 
         match rx.await {
-- 
2.43.0


From 5baf5b42f3413c66918c677773af03ddcb1fa578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:59 +0000
Subject: [PATCH 09/35] fix: a stopping actor does not wait for the scheduler,
 which may be waiting for it to stop

---
 coerce/src/actor/lifecycle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/coerce/src/actor/lifecycle.rs b/coerce/src/actor/lifecycle.rs
index e9ef6b5..459b51d 100644
--- a/coerce/src/actor/lifecycle.rs
+++ b/coerce/src/actor/lifecycle.rs
@@ -153,11 +153,10 @@ async fn actor_stopped<A: Actor>(
                     "de-registering actor"
                 );
 
-                system
+                // not waited for: a scheduler that is shutting down waits for its actors to stop
+                let _ = system
                     .scheduler()
-                    .send(DeregisterActor(actor_ref.clone()))
-                    .await
-                    .expect("de-register actor");
+                    .notify(DeregisterActor(actor_ref.clone()));
             }
         }
     }
-- 
2.43.0


From 8aaab631328d4671493ae652df86abd6c92af21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:47 +0000
Subject: [PATCH 10/35] fix: a message sent while its actor stops does not
 leave the sender waiting forever

---
 coerce/src/actor/lifecycle.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/coerce/src/actor/lifecycle.rs b/coerce/src/actor/lifecycle.rs
index 459b51d..fbb4e0f 100644
--- a/coerce/src/actor/lifecycle.rs
+++ b/coerce/src/actor/lifecycle.rs
@@ -66,7 +66,8 @@ impl ActorLoop {
         ActorMetrics::incr_actor_created(A::type_name());
 
         if ctx.get_status() == &Stopping {
-            return actor_stopped(&mut actor, actor_type, &mut system, &actor_ref, &mut ctx).await;
+            actor_stopped(&mut actor, actor_type, &mut system, &actor_ref, &mut ctx).await;
+            return close_mailbox(receiver).await;
         }
 
         ctx.set_status(Started);
@@ -130,10 +131,18 @@ impl ActorLoop {
 
         ctx.set_status(Stopping);
 
-        actor_stopped(&mut actor, actor_type, &mut system, &actor_ref, &mut ctx).await
+        actor_stopped(&mut actor, actor_type, &mut system, &actor_ref, &mut ctx).await;
+        close_mailbox(receiver).await
     }
 }
 
+/// Closes the mailbox and discards every message that was accepted but not handled, including those
+/// that are being sent right now: a message left behind would keep its sender waiting forever.
+async fn close_mailbox<A: Actor>(mut receiver: UnboundedReceiver<MessageHandler<A>>) {
+    receiver.close();
+    while receiver.recv().await.is_some() {}
+}
+
 async fn actor_stopped<A: Actor>(
     actor: &mut A,
     actor_type: ActorType,
-- 
2.43.0


From 81688a03837423481eb3e7723a55c196c1126780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:24 +0000
Subject: [PATCH 11/35] fix: attaching a child first does not misplace the
 paths of children spawned later

---
 coerce/src/actor/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coerce/src/actor/context.rs b/coerce/src/actor/context.rs
index dae722c..02f9eb8 100644
--- a/coerce/src/actor/context.rs
+++ b/coerce/src/actor/context.rs
@@ -163,7 +163,8 @@ impl ActorContext {
     pub fn attach_child_ref(&mut self, actor_ref: BoxedActorRef) {
         let supervised = {
             if self.supervised.is_none() {
-                self.supervised = Some(Supervised::new(self.id().clone(), self.path().clone()));
+                self.supervised =
+                    Some(Supervised::new(self.id().clone(), self.full_path().clone()));
             }
 
             self.supervised.as_mut().unwrap()
-- 
2.43.0


From 0bda69663003404f39003d8602912f6761feb54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:57 +0000
Subject: [PATCH 12/35] fix: an answer sent to another node does not wait for
 an answer to itself

---
 coerce/src/remote/system/rpc.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index 4e583c2..d773d3e 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -128,12 +128,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
@@ -156,12 +151,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
-- 
2.43.0


From ded6cba5dce3f43c8bf737f9a9db6aa13567d8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:57 +0000
Subject: [PATCH 13/35] fix: a node RPC error can be displayed

---
 coerce/src/remote/system/rpc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index d773d3e..c54ecb1 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -20,8 +20,13 @@ pub enum NodeRpcErr {
 }
 
 impl Display for NodeRpcErr {
-    fn fmt(&self, _f: &mut Formatter<'_>) -> std::fmt::Result {
-        todo!()
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            NodeRpcErr::NodeUnreachable => write!(f, "node unreachable"),
+            NodeRpcErr::Serialisation => write!(f, "failed to decode result"),
+            NodeRpcErr::ReceiveFailed => write!(f, "failed to receive result"),
+            NodeRpcErr::Err(e) => write!(f, "{}", e),
+        }
     }
 }
 
-- 
2.43.0


From 7f9c3a229f92c816011808541d94f51613edbde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:57 +0000
Subject: [PATCH 14/35] fix: a remote message that cannot be sent leaves no
 pending request

---
 coerce/src/remote/actor_ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/actor_ref.rs b/coerce/src/remote/actor_ref.rs
index 72ecc97..24d851a 100644
--- a/coerce/src/remote/actor_ref.rs
+++ b/coerce/src/remote/actor_ref.rs
@@ -75,11 +75,11 @@ where
     {
         let id = Uuid::new_v4();
 
+        let event = self.create_request(msg, String::new(), id, true)?;
+
         let (res_tx, res_rx) = oneshot::channel();
         self.system.push_request(id, res_tx);
 
-        let event = self.create_request(msg, String::new(), id, true)?;
-
         // TODO: we could make this fail fast if the node is known to be terminated?
         self.system.notify_node(self.node_id, event).await;
         match res_rx.await {
-- 
2.43.0


From c8523127fc90f8dacc247dc539da18ed2d0fe6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:21 +0000
Subject: [PATCH 15/35] fix: a node asked to create an actor answers when it
 cannot

---
 coerce/src/remote/net/server/session/mod.rs | 38 ++++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 04d247b..ec677b9 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -1,6 +1,6 @@
 use crate::actor::context::{ActorContext, LogContext};
 use crate::actor::message::Handler;
-use crate::actor::{Actor, ActorId, IntoActorId, LocalActorRef};
+use crate::actor::{Actor, ActorId, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::remote::actor::message::NodeTerminated;
 use crate::remote::actor::RemoteResponse;
 use crate::remote::cluster::discovery::{Discover, Seed};
@@ -9,8 +9,8 @@ use crate::remote::net::message::{
     datetime_to_timestamp, timestamp_to_datetime, ClientEvent, SessionEvent,
 };
 use crate::remote::net::proto::network::{
-    ActorAddress, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest, NodeIdentity,
-    PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
+    ActorAddress, ClientErr, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest,
+    NodeIdentity, PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
     SystemCapabilities,
 };
 use crate::remote::net::server::session::store::{RemoteSessionStore, SessionClosed, SessionWrite};
@@ -612,8 +612,15 @@ async fn session_create_actor(
         .await
     {
         Ok(buf) => send_result(msg_id.parse().unwrap(), buf.to_vec(), session_id, session).await,
-        Err(_) => {
-            error!("failed to handle message, todo: send err");
+        Err(e) => {
+            error!("failed to create actor, error={:?}", e);
+            send_err(
+                msg_id.parse().unwrap(),
+                ActorRefErr::ActorUnavailable,
+                session_id,
+                session,
+            )
+            .await;
         }
     }
 }
@@ -645,3 +652,24 @@ async fn send_result(
         error!("failed to send result");
     }
 }
+
+async fn send_err(
+    msg_id: Uuid,
+    err: ActorRefErr,
+    session_id: i64,
+    session: LocalActorRef<RemoteSession>,
+) {
+    trace!("sending error");
+
+    let event = ClientEvent::Err(ClientErr {
+        message_id: msg_id.to_string(),
+        error: Some(err.into()).into(),
+        ..ClientErr::default()
+    });
+
+    if session.send(SessionWrite(session_id, event)).await.is_ok() {
+        trace!("sent error successfully");
+    } else {
+        error!("failed to send error");
+    }
+}
-- 
2.43.0


From 6a5d7f1bdebc69ce69b5055b11bd0b1bd443a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 16/35] fix: the actor reference cache does not mix up actors
 of different systems

---
 coerce/src/remote/handler.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/coerce/src/remote/handler.rs b/coerce/src/remote/handler.rs
index d145d1d..d8924e2 100644
--- a/coerce/src/remote/handler.rs
+++ b/coerce/src/remote/handler.rs
@@ -14,6 +14,7 @@ use std::marker::PhantomData;
 use std::time::Duration;
 
 use tokio::sync::oneshot::Sender;
+use uuid::Uuid;
 
 #[async_trait]
 pub trait ActorHandler: 'static + Any + Sync + Send {
@@ -184,7 +185,7 @@ where
 }
 
 struct ActorRefCache {
-    inner: parking_lot::Mutex<HashMap<ActorId, BoxedActorRef>>,
+    inner: parking_lot::Mutex<HashMap<(Uuid, ActorId), BoxedActorRef>>,
 }
 
 impl ActorRefCache {
@@ -194,12 +195,17 @@ impl ActorRefCache {
         }
     }
 
-    pub fn add(&self, actor_id: &ActorId, actor_ref: BoxedActorRef) {
-        self.inner.lock().insert(actor_id.clone(), actor_ref);
+    pub fn add(&self, system_id: &Uuid, actor_id: &ActorId, actor_ref: BoxedActorRef) {
+        self.inner
+            .lock()
+            .insert((*system_id, actor_id.clone()), actor_ref);
     }
 
-    pub fn get(&self, actor_id: &ActorId) -> Option<BoxedActorRef> {
-        self.inner.lock().get(actor_id).cloned()
+    pub fn get(&self, system_id: &Uuid, actor_id: &ActorId) -> Option<BoxedActorRef> {
+        self.inner
+            .lock()
+            .get(&(*system_id, actor_id.clone()))
+            .cloned()
     }
 
     pub fn len(&self) -> usize {
@@ -221,7 +227,7 @@ async fn get_actor_ref<A: Actor>(
     system: &ActorSystem,
     actor_id: &ActorId,
 ) -> Option<LocalActorRef<A>> {
-    if let Some(boxed_ref) = ACTOR_REF_CACHE.get(actor_id) {
+    if let Some(boxed_ref) = ACTOR_REF_CACHE.get(system.system_id(), actor_id) {
         let actor_ref = boxed_ref.as_actor();
         if let Some(actor_ref) = actor_ref {
             if actor_ref.is_valid() {
@@ -231,7 +237,11 @@ async fn get_actor_ref<A: Actor>(
     }
 
     if let Some(actor_ref) = system.get_tracked_actor::<A>(actor_id.clone()).await {
-        ACTOR_REF_CACHE.add(actor_id, BoxedActorRef::from(actor_ref.clone()));
+        ACTOR_REF_CACHE.add(
+            system.system_id(),
+            actor_id,
+            BoxedActorRef::from(actor_ref.clone()),
+        );
 
         Some(actor_ref)
     } else {
-- 
2.43.0


From 02871c39ece1d8c2491e06c165cdfb1df577f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 17/35] fix: an actor deployed on the own node is reached
 locally

---
 coerce/src/remote/system/actor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coerce/src/remote/system/actor.rs b/coerce/src/remote/system/actor.rs
index cc360b3..9dcab32 100644
--- a/coerce/src/remote/system/actor.rs
+++ b/coerce/src/remote/system/actor.rs
@@ -167,6 +167,12 @@ impl RemoteActorSystem {
         }
 
         match actor_addr {
+            Some(actor_address) if actor_address.node_id.value == self_id => self
+                .actor_system()
+                .get_tracked_actor(actor_address.actor_id.into_actor_id())
+                .await
+                .map(ActorRef::from)
+                .ok_or(RemoteActorErr::ActorUnavailable),
             Some(actor_address) => {
                 let actor_ref = RemoteActorRef::<F::Actor>::new(
                     actor_address.actor_id.into_actor_id(),
-- 
2.43.0


From e9f7dd4fd954c1e1800b4dbb650034d02e3e19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:52 +0000
Subject: [PATCH 18/35] fix: a leader whose node id is above i64::MAX is seen
 as the leader

Node ids are random u64 values by default; the leader is kept as i64 with -1
for none, but every negative value was read as none.
---
 coerce/src/remote/system/cluster.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index e335a05..1871a92 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -40,7 +40,7 @@ impl RemoteActorSystem {
 
     pub fn current_leader(&self) -> Option<NodeId> {
         let n = self.inner.current_leader.load(Ordering::SeqCst);
-        if n >= 0 {
+        if n != -1 {
             Some(n as NodeId)
         } else {
             None
@@ -52,7 +52,7 @@ impl RemoteActorSystem {
             .inner
             .current_leader
             .swap(new_leader as i64, Ordering::SeqCst);
-        if n >= 0 {
+        if n != -1 {
             Some(n as NodeId)
         } else {
             None
-- 
2.43.0


From d39ff84479dfac685a10af458c12b24f77cfd3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:52 +0000
Subject: [PATCH 19/35] fix: a node that misses a ping is terminated only after
 the terminated timeout

The comparison was the wrong way round: a node heard of recently was marked as
terminated, one silent for long only as unhealthy.
---
 coerce/src/remote/heartbeat/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index a192a0b..4e19641 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -435,7 +435,7 @@ fn node_status(
         Some(PingResult::Timeout) => {
             let terminated = last_heartbeat.map_or(true, |h| {
                 h.add(chrono::Duration::from_std(config.terminated_node_heartbeat_timeout).unwrap())
-                    >= Utc::now()
+                    <= Utc::now()
             });
 
             if terminated {
-- 
2.43.0


From 01737737223bc5316e2d703c8448d0579f240fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:52 +0000
Subject: [PATCH 20/35] fix: a clock set back does not end the heartbeat

The time since a pong is negative then, and converting it panicked.
---
 coerce/src/remote/heartbeat/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index 4e19641..d6bbf72 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -382,7 +382,9 @@ fn node_status(
 ) -> NodeStatus {
     match ping {
         Some(PingResult::Ok(_, ping_latency, pong_received_at)) => {
-            let time_since_ping = (Utc::now() - pong_received_at).to_std().unwrap();
+            let time_since_ping = (Utc::now() - pong_received_at)
+                .to_std()
+                .unwrap_or_default();
 
             if time_since_ping >= config.terminated_node_heartbeat_timeout {
                 error!(
-- 
2.43.0


From 9aaccfe5df80a98c704b5e4ec838556f6de19f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:52 +0000
Subject: [PATCH 21/35] fix: a node that registers again has one entry in the
 hash ring

The entry of its previous registration stayed in the ring, so nodes that know
the same members could disagree on which of them is in charge of a key.
---
 coerce/src/remote/cluster/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coerce/src/remote/cluster/node.rs b/coerce/src/remote/cluster/node.rs
index d240cbc..39334e2 100644
--- a/coerce/src/remote/cluster/node.rs
+++ b/coerce/src/remote/cluster/node.rs
@@ -148,6 +148,7 @@ impl RemoteNodeStore {
 
     pub fn add(&mut self, node: RemoteNode) {
         let mut nodes = self.get_all();
+        nodes.retain(|n| n.id != node.id);
         nodes.push(RemoteNodeState::new(node));
         nodes.sort_by(|a, b| a.id.partial_cmp(&b.id).unwrap());
 
-- 
2.43.0


From e062a71cad0e07aa70a43518a27929f4cc8f962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:30 +0000
Subject: [PATCH 22/35] fix: a member is up once the minimum number of nodes is
 healthy

---
 coerce/src/remote/heartbeat/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index d6bbf72..96d9371 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -283,21 +283,23 @@ impl Handler<HeartbeatTick> for Heartbeat {
 
         system.update_nodes(updates.clone()).await;
 
-        if let Some(new_leader_id) = new_leader_id {
-            if !self.cluster_member_up {
+        if !self.cluster_member_up {
+            if let Some(leader_id) = new_leader_id.or_else(|| system.current_leader()) {
                 let min_cluster_size_reached = match self.config.minimum_cluster_size {
                     None => true,
-                    Some(n) => n >= self.node_pings.len(),
+                    Some(n) => updates.iter().filter(|n| n.status.is_healthy()).count() >= n,
                 };
 
                 if min_cluster_size_reached {
                     self.on_min_cluster_size_reached(
-                        new_leader_id,
+                        leader_id,
                         updates.into_iter().map(|n| Arc::new(n.into())).collect(),
                     );
                 }
             }
+        }
 
+        if let Some(new_leader_id) = new_leader_id {
             self.update_leader(new_leader_id);
         }
 
-- 
2.43.0


From 5bb1fde21f39116765482cc700802b01667da609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:55 +0000
Subject: [PATCH 23/35] fix: an update of the nodes' health does not undo a
 registration

---
 coerce/src/remote/cluster/node.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/coerce/src/remote/cluster/node.rs b/coerce/src/remote/cluster/node.rs
index 39334e2..4e5db9f 100644
--- a/coerce/src/remote/cluster/node.rs
+++ b/coerce/src/remote/cluster/node.rs
@@ -112,7 +112,19 @@ impl RemoteNodeStore {
 
     pub fn update_nodes(&mut self, nodes: Vec<RemoteNodeState>) {
         for node in nodes {
-            self.nodes.insert(node.id, node);
+            match self.nodes.get_mut(&node.id) {
+                // the node may have registered again since the update was prepared,
+                // an update only carries the health of a known node
+                Some(known) => {
+                    known.status = node.status;
+                    known.ping_latency = node.ping_latency;
+                    known.last_heartbeat = node.last_heartbeat;
+                }
+                None => {
+                    self.table.add(node.clone().into());
+                    self.nodes.insert(node.id, node);
+                }
+            }
         }
     }
 
-- 
2.43.0


From 16968c07604c64e309809fba1041c5fda202bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:46 +0000
Subject: [PATCH 24/35] fix: bytes that are no message are refused and do not
 end the receiver

---
 coerce/src/remote/net/message.rs   | 40 +++++++++++++++---------------
 coerce/src/remote/stream/system.rs | 20 ++++++++++-----
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/coerce/src/remote/net/message.rs b/coerce/src/remote/net/message.rs
index 64daf32..4e20b4f 100644
--- a/coerce/src/remote/net/message.rs
+++ b/coerce/src/remote/net/message.rs
@@ -56,22 +56,22 @@ impl StreamData for ClientEvent {
         match data.split_first() {
             Some((event, message)) => match Event::from_i32(*event as i32) {
                 Some(Event::Identity) => Some(ClientEvent::Identity(
-                    NodeIdentity::parse_from_bytes(message).unwrap(),
+                    NodeIdentity::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Handshake) => Some(ClientEvent::Handshake(
-                    ClientHandshake::parse_from_bytes(message).unwrap(),
+                    ClientHandshake::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Result) => Some(ClientEvent::Result(
-                    ClientResult::parse_from_bytes(message).unwrap(),
+                    ClientResult::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Err) => Some(ClientEvent::Err(
-                    ClientErr::parse_from_bytes(message).unwrap(),
+                    ClientErr::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Ping) => Some(ClientEvent::Ping(
-                    PingEvent::parse_from_bytes(message).unwrap(),
+                    PingEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Pong) => Some(ClientEvent::Pong(
-                    PongEvent::parse_from_bytes(message).unwrap(),
+                    PongEvent::parse_from_bytes(message).ok()?,
                 )),
                 _ => None,
             },
@@ -98,37 +98,37 @@ impl StreamData for SessionEvent {
         match data.split_first() {
             Some((event, message)) => match Event::from_i32(*event as i32) {
                 Some(Event::Identify) => Some(SessionEvent::Identify(
-                    IdentifyEvent::parse_from_bytes(message).unwrap(),
+                    IdentifyEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Handshake) => Some(SessionEvent::Handshake(
-                    SessionHandshake::parse_from_bytes(message).unwrap(),
+                    SessionHandshake::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Ping) => Some(SessionEvent::Ping(
-                    PingEvent::parse_from_bytes(message).unwrap(),
+                    PingEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Pong) => Some(SessionEvent::Pong(
-                    PongEvent::parse_from_bytes(message).unwrap(),
+                    PongEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::CreateActor) => Some(SessionEvent::CreateActor(
-                    CreateActorEvent::parse_from_bytes(message).unwrap(),
+                    CreateActorEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::FindActor) => Some(SessionEvent::FindActor(
-                    FindActorEvent::parse_from_bytes(message).unwrap(),
+                    FindActorEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::NotifyActor) => Some(SessionEvent::NotifyActor(
-                    MessageRequest::parse_from_bytes(message).unwrap(),
+                    MessageRequest::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::RegisterActor) => Some(SessionEvent::RegisterActor(
-                    ActorAddress::parse_from_bytes(message).unwrap(),
+                    ActorAddress::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::StreamPublish) => Some(SessionEvent::StreamPublish(Arc::new(
-                    StreamPublishEvent::parse_from_bytes(message).unwrap(),
+                    StreamPublishEvent::parse_from_bytes(message).ok()?,
                 ))),
                 Some(Event::Result) => Some(SessionEvent::Result(
-                    ClientResult::parse_from_bytes(message).unwrap(),
+                    ClientResult::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Err) => Some(SessionEvent::Err(
-                    ClientErr::parse_from_bytes(message).unwrap(),
+                    ClientErr::parse_from_bytes(message).ok()?,
                 )),
                 _ => None,
             },
@@ -254,19 +254,19 @@ impl From<proto::network::ActorRefErr> for ActorRefErr {
         use proto::network::MessageUnwrapErr as ProtoUnwrapErr;
         use proto::network::MessageWrapErr as ProtoWrapErr;
 
-        match err.type_.unwrap() {
+        match err.type_.enum_value_or_default() {
             ErrorType::ActorUnavailable => ActorRefErr::ActorUnavailable,
             ErrorType::NotFound => ActorRefErr::NotFound(err.actor_id.to_actor_id()),
             ErrorType::AlreadyExists => ActorRefErr::AlreadyExists(err.actor_id.to_actor_id()),
             ErrorType::Serialisation => {
-                ActorRefErr::Serialisation(match err.serialization_error.unwrap() {
+                ActorRefErr::Serialisation(match err.serialization_error.enum_value_or_default() {
                     ProtoWrapErr::WrapUnsupported => MessageWrapErr::NotTransmittable,
                     ProtoWrapErr::SerializationErr => MessageWrapErr::SerializationErr,
                     ProtoWrapErr::UnknownWrapErr => MessageWrapErr::Unknown,
                 })
             }
             ErrorType::Deserialisation => {
-                ActorRefErr::Deserialisation(match err.deserialization_error.unwrap() {
+                ActorRefErr::Deserialisation(match err.deserialization_error.enum_value_or_default() {
                     ProtoUnwrapErr::UnwrapUnsupported => MessageUnwrapErr::NotTransmittable,
                     ProtoUnwrapErr::DeserializationErr => MessageUnwrapErr::DeserializationErr,
                     ProtoUnwrapErr::UnknownUnwrapErr => MessageUnwrapErr::Unknown,
diff --git a/coerce/src/remote/stream/system.rs b/coerce/src/remote/stream/system.rs
index f301d83..24f4a8b 100644
--- a/coerce/src/remote/stream/system.rs
+++ b/coerce/src/remote/stream/system.rs
@@ -74,18 +74,26 @@ impl StreamData for SystemEvent {
         match data.split_first() {
             Some((event, message)) => match SysEvent::from_i32(*event as i32) {
                 Some(SysEvent::ClusterNodeRemoved) => {
-                    Some(NodeRemovedEvent::parse_from_bytes(message).unwrap().into())
+                    let event = NodeRemovedEvent::parse_from_bytes(message).ok()?;
+                    if event.node.is_none() {
+                        return None;
+                    }
+
+                    Some(event.into())
                 }
                 Some(SysEvent::ClusterNewNode) => {
-                    Some(NewNodeEvent::parse_from_bytes(message).unwrap().into())
+                    let event = NewNodeEvent::parse_from_bytes(message).ok()?;
+                    if event.node.is_none() {
+                        return None;
+                    }
+
+                    Some(event.into())
                 }
                 Some(SysEvent::ClusterLeaderChanged) => Some(
-                    LeaderChangedEvent::parse_from_bytes(message)
-                        .unwrap()
-                        .into(),
+                    LeaderChangedEvent::parse_from_bytes(message).ok()?.into(),
                 ),
                 Some(SysEvent::ClusterMemberUp) => {
-                    Some(MemberUpEvent::parse_from_bytes(message).unwrap().into())
+                    Some(MemberUpEvent::parse_from_bytes(message).ok()?.into())
                 }
                 None => None,
             },
-- 
2.43.0


From 34fc10865fe1c10bbb6049d9f51a45e460ef1503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:46 +0000
Subject: [PATCH 25/35] fix: an unreadable sharding message is reported and
 does not panic

---
 coerce/src/sharding/coordinator/allocation.rs | 18 +++++++++---
 coerce/src/sharding/host/mod.rs               | 28 ++++++++++---------
 coerce/src/sharding/host/request.rs           |  3 +-
 3 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/coerce/src/sharding/coordinator/allocation.rs b/coerce/src/sharding/coordinator/allocation.rs
index 7cbbfae..f3e98e0 100644
--- a/coerce/src/sharding/coordinator/allocation.rs
+++ b/coerce/src/sharding/coordinator/allocation.rs
@@ -240,18 +240,28 @@ impl Message for AllocateShard {
     fn read_remote_result(buffer: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
         let result = proto::AllocateShardResult::parse_from_bytes(&buffer);
         let result = match result {
-            Ok(result) => match result.result_type.unwrap() {
+            Ok(result) => match result
+                .result_type
+                .enum_value()
+                .map_err(|_e| MessageUnwrapErr::DeserializationErr)?
+            {
                 allocate_shard_result::Type::ALLOCATED => {
-                    let allocation = result.allocation.unwrap();
+                    let allocation = result
+                        .allocation
+                        .into_option()
+                        .ok_or(MessageUnwrapErr::DeserializationErr)?;
                     AllocateShardResult::Allocated(allocation.shard_id, allocation.node_id)
                 }
                 allocate_shard_result::Type::ALREADY_ALLOCATED => {
-                    let allocation = result.allocation.unwrap();
+                    let allocation = result
+                        .allocation
+                        .into_option()
+                        .ok_or(MessageUnwrapErr::DeserializationErr)?;
                     AllocateShardResult::AlreadyAllocated(allocation.shard_id, allocation.node_id)
                 }
                 allocate_shard_result::Type::NOT_ALLOCATED => AllocateShardResult::NotAllocated,
                 allocate_shard_result::Type::ERR => {
-                    AllocateShardResult::Err(match result.err.unwrap() {
+                    AllocateShardResult::Err(match result.err.enum_value_or_default() {
                         allocate_shard_result::AllocateShardErr::PERSISTENCE => {
                             AllocateShardErr::Persistence
                         }
diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index 9fe63f9..ad2225f 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -425,12 +425,12 @@ impl Message for ShardAllocated {
     }
 
     fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
-        proto::ShardAllocated::parse_from_bytes(&b)
-            .map(|r| {
-                let shard = r.shard.unwrap();
-                Self(shard.shard_id, shard.node_id)
-            })
-            .map_err(|_e| MessageUnwrapErr::DeserializationErr)
+        let shard = proto::ShardAllocated::parse_from_bytes(&b)
+            .ok()
+            .and_then(|r| r.shard.into_option())
+            .ok_or(MessageUnwrapErr::DeserializationErr)?;
+
+        Ok(Self(shard.shard_id, shard.node_id))
     }
 
     fn read_remote_result(_: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
@@ -484,13 +484,15 @@ impl Message for StopShard {
     }
 
     fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
-        proto::StopShard::parse_from_bytes(&b)
-            .map(|r| Self {
-                shard_id: r.shard_id,
-                request_id: Uuid::parse_str(&r.request_id).unwrap(),
-                origin_node_id: r.origin_node_id,
-            })
-            .map_err(|_e| MessageUnwrapErr::DeserializationErr)
+        let r = proto::StopShard::parse_from_bytes(&b)
+            .map_err(|_e| MessageUnwrapErr::DeserializationErr)?;
+
+        Ok(Self {
+            shard_id: r.shard_id,
+            request_id: Uuid::parse_str(&r.request_id)
+                .map_err(|_e| MessageUnwrapErr::DeserializationErr)?,
+            origin_node_id: r.origin_node_id,
+        })
     }
 
     fn read_remote_result(_: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 4466d32..4478ded 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -227,7 +227,8 @@ impl Message for RemoteEntityRequest {
             |_e| Err(MessageUnwrapErr::DeserializationErr),
             |proto| {
                 Ok(RemoteEntityRequest {
-                    request_id: Uuid::from_str(&proto.request_id).unwrap(),
+                    request_id: Uuid::from_str(&proto.request_id)
+                        .map_err(|_e| MessageUnwrapErr::DeserializationErr)?,
                     actor_id: proto.actor_id.into_actor_id(),
                     message_type: proto.message_type,
                     message: proto.message,
-- 
2.43.0


From 74b042176b884d6de5074183e5ef8e7969c34bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 26/35] fix: an entity that has stopped can be started again

---
 coerce/src/sharding/shard/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index fc43a35..ffaaa9a 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -176,7 +176,17 @@ impl PersistentActor for Shard {
             .notify(ShardReady(self.shard_id, self.actor_ref(ctx)));
     }
 
-    async fn on_child_stopped(&mut self, id: &ActorId, _ctx: &mut ActorContext) {}
+    async fn on_child_stopped(&mut self, id: &ActorId, _ctx: &mut ActorContext) {
+        // the entity isn't running anymore: forget it, so that a later request can start it again
+        let is_active = self
+            .entities
+            .get(id)
+            .map_or(false, |entity| entity.state.is_active());
+
+        if is_active {
+            self.entities.remove(id);
+        }
+    }
 }
 
 impl Shard {
-- 
2.43.0


From f58554326715be2bed9e3b60b2e812e487ccf8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 27/35] fix: an entity made after its shard stopped is stopped

---
 coerce/src/sharding/shard/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index ffaaa9a..0857d82 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -336,11 +336,21 @@ impl Shard {
                 )
                 .await;
 
-            let _ = self_ref.notify(EntityStartResult {
-                actor_id,
-                result,
-                is_shard_recovery,
-            });
+            let actor_ref = result.as_ref().ok().cloned();
+            let start_result = self_ref
+                .send(EntityStartResult {
+                    actor_id,
+                    result,
+                    is_shard_recovery,
+                })
+                .await;
+
+            if start_result.is_err() {
+                // the shard stopped while the entity was starting: nothing else would ever stop it
+                if let Some(actor_ref) = actor_ref {
+                    let _ = actor_ref.notify_stop();
+                }
+            }
         });
     }
 }
-- 
2.43.0


From 7b5a8b44aa8249d6f2563c8a9af12e3cc5a93117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:55 +0000
Subject: [PATCH 28/35] fix: a subscriber that lags behind keeps its
 subscription

---
 coerce/src/remote/stream/pubsub.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/coerce/src/remote/stream/pubsub.rs b/coerce/src/remote/stream/pubsub.rs
index 5f36219..cf86dcc 100644
--- a/coerce/src/remote/stream/pubsub.rs
+++ b/coerce/src/remote/stream/pubsub.rs
@@ -12,6 +12,7 @@ use std::sync::Arc;
 
 use crate::remote::system::RemoteActorSystem;
 use tokio::sync::broadcast;
+use tokio::sync::broadcast::error::RecvError;
 use tokio::task::JoinHandle;
 
 pub struct PubSub;
@@ -219,10 +220,23 @@ impl Subscription {
         let task_handle = Some(tokio::spawn(async move {
             let receiver_ref = receiver_ref;
             let mut stream_receiver = topic_receiver;
-            while let Ok(message) = stream_receiver.recv().await {
-                receiver_ref
-                    .notify(message)
-                    .expect("unable to notify receiver ref");
+            loop {
+                match stream_receiver.recv().await {
+                    Ok(message) => {
+                        receiver_ref
+                            .notify(message)
+                            .expect("unable to notify receiver ref");
+                    }
+                    Err(RecvError::Lagged(missed)) => {
+                        warn!(
+                            "subscriber is too slow, {} messages missed (actor_id={}, topic={})",
+                            missed,
+                            receiver_ref.actor_id(),
+                            T::topic_name()
+                        );
+                    }
+                    Err(RecvError::Closed) => break,
+                }
             }
         }));
 
-- 
2.43.0


From 97e2a7f2c4adaa2ab1e655cf5cf3ac95abc22ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:55 +0000
Subject: [PATCH 29/35] fix: a subscription ends without a panic when its
 subscriber has stopped

---
 coerce/src/remote/stream/pubsub.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/coerce/src/remote/stream/pubsub.rs b/coerce/src/remote/stream/pubsub.rs
index cf86dcc..38781e9 100644
--- a/coerce/src/remote/stream/pubsub.rs
+++ b/coerce/src/remote/stream/pubsub.rs
@@ -223,9 +223,14 @@ impl Subscription {
             loop {
                 match stream_receiver.recv().await {
                     Ok(message) => {
-                        receiver_ref
-                            .notify(message)
-                            .expect("unable to notify receiver ref");
+                        if receiver_ref.notify(message).is_err() {
+                            debug!(
+                                "subscriber has stopped (actor_id={}, topic={})",
+                                receiver_ref.actor_id(),
+                                T::topic_name()
+                            );
+                            break;
+                        }
                     }
                     Err(RecvError::Lagged(missed)) => {
                         warn!(
-- 
2.43.0


From 4d9bb9e496ca1ebe918732a68e4e6bc3dd2645ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:55 +0000
Subject: [PATCH 30/35] fix: publishing to the name of another topic does not
 end the mediator

---
 coerce/src/remote/stream/pubsub.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/coerce/src/remote/stream/pubsub.rs b/coerce/src/remote/stream/pubsub.rs
index 38781e9..32f0179 100644
--- a/coerce/src/remote/stream/pubsub.rs
+++ b/coerce/src/remote/stream/pubsub.rs
@@ -177,9 +177,13 @@ impl<T: Topic + 'static> TopicEmitter for TopicSubscriberStore<T> {
     }
 
     async fn emit(&self, key: &str, msg: Arc<dyn Any + Sync + Send>) {
-        let msg = msg.downcast::<T::Message>().unwrap();
-
-        self.broadcast(key, msg);
+        match msg.downcast::<T::Message>() {
+            Ok(msg) => self.broadcast(key, msg),
+            Err(_) => error!(
+                "message is of another type than those of the topic, it will not be sent (topic={})",
+                T::topic_name()
+            ),
+        }
     }
 
     fn as_any(&self) -> &dyn Any {
-- 
2.43.0


From bc1f6171bf31504816ee51a3b4c1387389782e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:01 +0000
Subject: [PATCH 31/35] fix: a message sent to a singleton by notify does not
 end its proxy

---
 coerce/src/singleton/proxy/send.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coerce/src/singleton/proxy/send.rs b/coerce/src/singleton/proxy/send.rs
index 5ffe844..35d6e7d 100644
--- a/coerce/src/singleton/proxy/send.rs
+++ b/coerce/src/singleton/proxy/send.rs
@@ -25,12 +25,14 @@ impl<M: Message> Deliver<M> {
         A: Handler<M>,
     {
         let message = self.message.take().unwrap();
-        let result_channel = self.result_channel.take().unwrap();
+        let result_channel = self.result_channel.take();
         tokio::spawn(async move {
             debug!(msg_type = M::type_name(), "delivering message to singleton");
 
             let res = actor.send(message).await;
-            result_channel.send(res)
+            if let Some(result_channel) = result_channel {
+                let _ = result_channel.send(res);
+            }
         });
     }
 }
-- 
2.43.0


From 2d368ee289f29c6ef70d5aea371433d2eb355eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:01 +0000
Subject: [PATCH 32/35] fix: a lease acknowledged by a node that has left does
 not count

---
 coerce/src/singleton/manager/lease.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index f2490a7..f8fadd6 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -154,6 +154,10 @@ impl<F: SingletonFactory> Manager<F> {
     pub async fn on_lease_ack(&mut self, node_id: NodeId, ctx: &ActorContext) {
         match &mut self.state {
             State::Starting { acknowledged_nodes } => {
+                if !self.managers.contains_key(&node_id) {
+                    return;
+                }
+
                 acknowledged_nodes.insert(node_id);
 
                 info!(
-- 
2.43.0


From d58468a547759c8584fbdbb93122c18c74fd16d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:01 +0000
Subject: [PATCH 33/35] fix: no lease is granted while the singleton is still
 stopping

---
 coerce/src/singleton/manager/lease.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index f8fadd6..770ca68 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -78,7 +78,13 @@ pub struct LeaseNack {
 #[async_trait]
 impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
     async fn handle(&mut self, message: RequestLease, ctx: &mut ActorContext) {
-        if !self.state.is_running() {
+        if let State::Stopping {
+            lease_requested_by, ..
+        } = &mut self.state
+        {
+            // the lease is granted once the singleton has stopped
+            *lease_requested_by = message.source_node_id;
+        } else if !self.state.is_running() {
             debug!(
                 source_node_id = message.source_node_id,
                 "received RequestLease"
-- 
2.43.0


From c6cc4c25d6792f5b0222c54c38e8691ba35ef80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:34 +0000
Subject: [PATCH 34/35] fix: the lease is handed over once the singleton has
 stopped

---
 coerce/src/singleton/manager/mod.rs   | 12 +++++++++---
 coerce/src/singleton/manager/start.rs |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 9aad610..b726092 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -6,7 +6,10 @@ use crate::actor::context::ActorContext;
 use crate::actor::message::{
     FromBytes, Handler, Message, MessageUnwrapErr, MessageWrapErr, ToBytes,
 };
-use crate::actor::{Actor, ActorFactory, ActorId, ActorRef, IntoActor, LocalActorRef, ToActorId};
+use crate::actor::watch::ActorTerminated;
+use crate::actor::{
+    Actor, ActorFactory, ActorId, ActorRef, CoreActorRef, IntoActor, LocalActorRef, ToActorId,
+};
 use crate::remote::cluster::node::NodeSelector;
 use crate::remote::stream::pubsub::{PubSub, Receive, Subscription};
 use crate::remote::stream::system::{ClusterEvent, ClusterMemberUp, SystemEvent, SystemTopic};
@@ -246,9 +249,12 @@ impl<F: SingletonFactory> Actor for Manager<F> {
             "manager started"
         )
     }
+}
 
-    async fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext) {
-        if id != &self.singleton_actor_id {
+#[async_trait]
+impl<F: SingletonFactory> Handler<ActorTerminated> for Manager<F> {
+    async fn handle(&mut self, message: ActorTerminated, ctx: &mut ActorContext) {
+        if message.actor_ref().actor_id() != &self.singleton_actor_id {
             return;
         }
 
diff --git a/coerce/src/singleton/manager/start.rs b/coerce/src/singleton/manager/start.rs
index 9fd654a..9c57538 100644
--- a/coerce/src/singleton/manager/start.rs
+++ b/coerce/src/singleton/manager/start.rs
@@ -1,5 +1,6 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
+use crate::actor::watch::ActorWatch;
 use crate::actor::{Actor, ActorRefErr, IntoActor, LocalActorRef, PipeTo};
 use crate::singleton::factory::SingletonFactory;
 use crate::singleton::manager::{Manager, SingletonStarted, State};
@@ -45,6 +46,7 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
                     }
                 }
 
+                self.watch(&actor_ref, ctx);
                 self.state = State::Running {
                     actor_ref: actor_ref.clone(),
                 };
-- 
2.43.0


From 34a7f637d007969793e1b6729438c6fa1582151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:34 +0000
Subject: [PATCH 35/35] fix: the proxy beside a stopping singleton keeps its
 messages too

---
 coerce/src/singleton/manager/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index b726092..2249a5e 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -209,6 +209,7 @@ impl<F: SingletonFactory> Manager<F> {
             None => return,
         };
 
+        let _ = self.proxy.notify(proxy::SingletonStopping);
         let _ = actor_ref.notify_stop();
         self.notify_managers(
             SingletonStopped {
-- 
2.43.0

