"""The properties, in one place: gen.py writes properties.jsonl and MANIFEST.json from here."""
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "Journal sequence numbers are unique, gap-free and never reused",
     "Every message, batch entry and snapshot that storage acknowledged for a persistence id carries a sequence number exactly one above the previous acknowledged record, across batches, snapshots, storage failures and restarts. A rejected write consumes no number and leaves the journal unchanged; a batch is stored entirely and in order, or not at all. Writing for one persistence id never changes another's journal.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of persist / persist_batch / snapshot / failed write / restart operations on any number of entities",
     "The tests persist a handful of messages in one order without storage failures; the property quantifies over all interleavings of writes, failures and restarts.",
     ["coerce/src/persistent/journal/mod.rs", "coerce/src/persistent/batch.rs"],
     [("sequence assignment", "Journal::persist_message / persist_batch / persist_snapshot"), ("resume after restart", "Journal::recover_snapshot / recover_messages")],
     [("last_sequence_id", "newest acknowledged sequence", "Journal")],
     ["JournalStorage write calls", "PersistentActor::last_sequence_id"])

prop("C02", "Recovery replays the newest snapshot and exactly the messages after it",
     "An entity that starts recovers the newest acknowledged snapshot and then every acknowledged message recorded after it, each exactly once, in the order they were acknowledged, with the bytes and type they were stored with. It then continues numbering after the newest recovered record. Clearing old messages never removes anything recovery still needs.",
     ["histories", "crash_points"],
     "every acknowledged history of messages, batches, snapshots, clears and every restart point",
     "The tests restart after one fixed history; the property must hold for each history and each crash point.",
     ["coerce/src/persistent/journal/mod.rs", "coerce/src/persistent/recovery.rs", "coerce/src/persistent/actor.rs"],
     [("snapshot + tail read", "Journal::recover_snapshot, Journal::recover_messages, load_journal"), ("replay order", "Actor::started of a PersistentActor"), ("pruning", "Journal::clear_old_messages")],
     [("last_snapshot_sequence_id", "sequence of the newest snapshot", "Journal")],
     ["Recover / RecoverSnapshot handlers", "post_recovery"])

prop("C03", "The in-memory journal stores and returns exactly what was written, per id",
     "The built-in storage returns, for each persistence id, exactly the entries written for that id: messages in write order, the last written snapshot, single messages by sequence, and ranges with both ends included; 'latest' reads return the messages with a greater sequence than asked. Deleting up to a sequence removes only that id's messages below it, deleting all removes only that id, and an actor type with its own storage uses that storage and no other.",
     ["histories", "inputs"],
     "every sequence of writes, reads and deletes over any set of persistence ids",
     "The tests write a few entries under one id; isolation and the read/delete contracts quantify over all ids, sequences and operation orders.",
     ["coerce/src/persistent/journal/provider.rs", "coerce/src/persistent/mod.rs"],
     [("per-id store", "InMemoryJournalStorage"), ("provider selection", "Persistence::provider, ActorContext::with_persistence")],
     [("store", "persistence id -> snapshots and messages", "InMemoryJournalStorage")],
     ["JournalStorage trait calls"])

prop("C04", "Persistence failures follow the actor's declared policy",
     "When storage rejects a write or a recovery read, the actor does exactly what its failure policy says: return the error and keep running, stop, or retry up to the declared number of attempts and then stop; a success within the allowed attempts is acknowledged once and recorded once. While starting, hooks run in order (before-recovery, snapshot, messages in order, after-recovery); a failed load or undecodable payload is reported to the actor, which then stops and never handles a message.",
     ["fault_sequences", "histories", "configurations"],
     "every policy, every pattern of failing writes/reads, every stored history, every undecodable position",
     "The tests never make storage fail; policies, retry bounds and hook order under faults are not exercised.",
     ["coerce/src/persistent/actor.rs", "coerce/src/persistent/failure.rs", "coerce/src/persistent/recovery.rs"],
     [("retry loop", "PersistentActor::persist / persist_batch / snapshot, check"), ("recovery loop", "ActorRecovery::recover_journal"), ("start-up sequence", "Actor::started of a PersistentActor")],
     [], ["storage attempts", "replies to the caller", "hooks", "actor status"])

prop("C05", "Shard ownership stays consistent and moves only after the old owner stopped",
     "At all times each shard has at most one owner in the coordinator, the owner is a known host, and the shards a host is recorded as holding are exactly those mapped to it. A shard that is rebalanced is taken off its owner, all hosts are told it is moving, the owner is asked to stop it, and it is allocated again only after the owner confirmed the stop. When a host becomes unavailable it is never chosen again until it rejoins, and all of its shards are placed on ready hosts if there is one; shards elsewhere do not move. A full rebalance takes from every overloaded host exactly the shards above its fair share.",
     ["histories", "schedules", "configurations"],
     "every sequence of allocations, rebalances, host losses and joins, any number of hosts and shards, any arrival order of confirmations",
     "The tests rebalance once over two nodes; agreement of the two maps and the handover order must hold after every history of cluster events.",
     ["coerce/src/sharding/coordinator/mod.rs", "coerce/src/sharding/coordinator/balancing.rs", "coerce/src/sharding/coordinator/allocation.rs", "coerce/src/sharding/coordinator/discovery.rs"],
     [("handover", "ShardCoordinator::rebalance_shards"), ("evacuation", "ShardCoordinator::rebalance_unavailable_node, on_node_removed"), ("levelling", "Handler<Rebalance> (All)"), ("joining hosts", "on_node_discovered")],
     [("hosts", "host id -> status and shards held", "ShardCoordinator"), ("shards", "shard -> owner", "ShardCoordinator")],
     ["GetShardingStats", "ShardAllocated / ShardReallocating / StopShard messages to hosts"])

prop("C06", "A shard is placed once, on the least loaded ready host, recorded first",
     "An allocation request for a shard that has an owner answers with that owner and changes nothing. Otherwise the allocation is recorded durably first (a failed record allocates nothing), the shard goes to a ready host holding no more shards than any other ready host, every ready host is told the owner, and the request fails with NotAllocated only when no host is ready. After a restart every recorded shard has an owner again. The shard of an entity is a fixed function of its id and the shard count, below the shard count.",
     ["histories", "configurations", "inputs", "fault_sequences"],
     "every set of hosts and loads, every request order, every recording failure, every entity id and shard count",
     "The tests allocate on idle symmetric hosts; the placement rule quantifies over all load distributions and statuses.",
     ["coerce/src/sharding/coordinator/allocation.rs", "coerce/src/sharding/coordinator/mod.rs"],
     [("placement", "allocate, ShardCoordinator::allocate_shard"), ("recording", "Handler<AllocateShard>, Recover<AllocateShard>"), ("announcement", "broadcast_allocation"), ("entity to shard", "DefaultAllocator::allocate")],
     [("hosts", "host id -> status and shards held", "ShardCoordinator"), ("shards", "shard -> owner", "ShardCoordinator")],
     ["AllocateShard results", "journal records", "ShardAllocated messages"])

prop("C07", "A host routes each request to the one place of its shard, or keeps it",
     "A request for an entity goes to the shard of that entity only: to the local shard when it runs here, to the owner node's shard unchanged when it runs elsewhere, and otherwise it is kept, the coordinator is asked, and it is delivered when the shard's place becomes known. Requests that arrive while the local shard starts are kept and delivered once it is ready, or follow the shard when it moves or is stopped meanwhile; none is lost or delivered twice. The host never holds a shard both locally and remotely; a shard allocated elsewhere is stopped here, and a ready report of a shard that was moved or stopped meanwhile does not bring it back. A stop request is answered exactly once, after the shard has stopped, also when the shard is still starting or is not here.",
     ["histories", "schedules"],
     "every sequence of requests, allocations here and elsewhere, moves, stop requests and ready reports, any number of shards and buffered requests",
     "The tests send requests to a shard that is already running; the guarantee is about what arrives in the windows between allocation, start, move and stop.",
     ["coerce/src/sharding/host/mod.rs", "coerce/src/sharding/host/request.rs"],
     [("routing", "Handler<EntityRequest> for ShardHost, handle_request, remote_entity_request"), ("placement news", "Handler<ShardAllocated>, Handler<ShardReallocating>"), ("start and stop", "Handler<ShardReady>, Handler<StopShard>, ShardHost::stop_shard, Handler<ShardStopped>")],
     [("hosted_shards", "shard -> starting(buffer, stop) / ready / stopping", "ShardHost"), ("remote_shards", "shard -> reference to the owner's shard", "ShardHost"), ("requests_pending_shard_allocation", "shard -> requests waiting", "ShardHost")],
     ["answers to requests", "messages to other nodes", "GetStats", "answers to stop requests"])

prop("C08", "An entity is started once, on demand, and every request to it is answered",
     "The first request for an entity that is not running, when it carries a recipe, records the entity and starts exactly one creation of it; requests that arrive until the creation ends are kept and handed to the entity when it is up, each once. If the creation fails, every waiting request is answered with the error and the entity can be started by a later request. A request without recipe for an entity that is not known is answered NotFound, one of an unknown message type NotSupported, and neither starts anything. A request from another node is answered to that node under its request id, with the result or the error. After a restart exactly the entities recorded as started, and not removed or passivated since, are started again with their recorded recipe, without recording them again, before the host is told the shard is ready. An entity that has stopped is started again by the next request that carries a recipe. When a shard stops, its entities stop, also one whose creation ends after that.",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of requests (local or remote, with or without recipe, known or unknown type), creation outcomes, ends of entities and shard stops and restarts, any number of entities",
     "The tests start one entity and wait; creation failures, requests in the start window and repeated restarts are not exercised.",
     ["coerce/src/sharding/shard/mod.rs", "coerce/src/sharding/shard/recovery.rs", "coerce/src/sharding/shard/message.rs"],
     [("requests", "Handler<EntityRequest>, Handler<RemoteEntityRequest> for Shard, Entity::request"), ("start-up", "Shard::start_entity, Handler<EntityStartResult>, Handler<StartEntity>"), ("end", "PersistentActor::on_child_stopped for Shard"), ("recovery", "Recover impls, PersistentActor::post_recovery, Shard::recover_entities")],
     [("entities", "entity id -> recipe and starting(buffer) / active", "Shard")],
     ["answers to requests", "entity creations", "journal records", "ShardReady"])

prop("C09", "An actor handles each message once, in order; every ask ends in an answer",
     "Messages accepted for an actor are handled one at a time, in the order they were accepted, each at most once, only after its start hook has finished, and all of them up to the one that stops it. The answer to an ask is the result of handling that very message; an ask that is accepted but not handled because the actor stopped ends with an error, and so does every ask or stop request made after that: no caller waits forever. Whoever started the actor is told only once it has started, and is told of a failed start if it stopped while starting (then nothing is handled). The stop hook runs exactly once, after the last message, and everyone who asked for the stop is told after it.",
     ["histories", "schedules"],
     "every sequence of asks, notifications, stop requests and stops from inside a handler, from any number of senders, including those that arrive while the actor starts or stops",
     "The tests send one message at a time to an actor that is up; the windows around start and stop and the order of many senders are not exercised.",
     ["coerce/src/actor/lifecycle.rs", "coerce/src/actor/message/mod.rs", "coerce/src/actor/refs/mod.rs", "coerce/src/actor/blocking.rs"],
     [("actor loop", "ActorLoop::run, actor_stopped, close_mailbox"), ("one message", "ActorMessage::handle"), ("references", "LocalActorRef::{send, notify, deliver, stop, notify_stop} and blocking variants"), ("stop", "Handler<Stop>, ActorContext::stop")],
     [("status", "Starting / Started / Stopping / Stopped", "ActorContext"), ("on_actor_stopped", "who waits for the stop", "ActorContext")],
     ["results of send / notify / stop / new_actor", "order of handler and hook calls"])

prop("C10", "Stopping an actor stops its children; parent and watchers are told once",
     "An actor has at most one child per id (a second spawn under a live id is refused and starts nothing); a child started by it runs below its full path, with it as parent, and is listed until it ends. When an actor ends, every child of it is asked to stop and waited for before its own parent is told; a parent is told of a child's end exactly once and then no longer lists it. Every watcher that is registered when an actor ends (watchers go by their actor id: the last one to register under an id, unless withdrawn since) is told exactly once, with the reference of the actor that ended. A child that fails to start is reported to the spawner as failed.",
     ["histories", "schedules"],
     "every tree of actors and every sequence of spawn, attach, watch, unwatch, stop of any of them, and starts that fail",
     "The tests use a single parent with a few children in one order; the property quantifies over whole trees and over the order of ends.",
     ["coerce/src/actor/supervised.rs", "coerce/src/actor/context.rs", "coerce/src/actor/watch/mod.rs", "coerce/src/actor/watch/watchers.rs", "coerce/src/actor/lifecycle.rs"],
     [("children", "Supervised::{spawn, spawn_deferred, add_child_ref, attach_child_ref, stop_all, on_child_stopped}, ActorContext::{spawn, spawn_deferred, child_ref, ...}"), ("end", "Drop for ActorContext, on_context_dropped, Handler<Terminated>"), ("watchers", "Handler<Watch>, Handler<Unwatch>, Watchers, actor_stopped")],
     [("supervised", "children by id", "ActorContext"), ("watchers", "who is told of the end", "ActorContext")],
     ["on_child_stopped calls", "ActorTerminated messages", "child_ref / supervised_count", "children's stop hooks"])

prop("C11", "A tracked id finds exactly the live actor that holds it; shutdown stops them all",
     "Once a tracked actor has been started, looking up its id and type gives a reference to it, until it stops or another actor registers under the id: then the id finds the newer one, and the end of the older one does not remove it. After an actor has ended and told so, its id finds nothing; an actor that stops while starting leaves nothing behind. Anonymous actors are never found. Shutting a system down stops every tracked actor, each once, waits for them, and always ends.",
     ["histories", "schedules"],
     "every sequence and interleaving of start (tracked or not, deferred or not, failing or not), replacement, stop, lookup and shutdown, over any number of ids",
     "The races between registration, replacement, an early stop and shutdown need particular schedules; the tests register and look up in a quiet system.",
     ["coerce/src/actor/scheduler/mod.rs", "coerce/src/actor/system/mod.rs", "coerce/src/actor/lifecycle.rs"],
     [("registry", "Handler<RegisterActor>, Handler<DeregisterActor>, Handler<GetActor> for ActorScheduler"), ("starting", "start_root_actor, ActorSystem::{new_actor, new_actor_deferred, new_tracked_actor, new_anon_actor}"), ("shutdown", "ActorSystem::shutdown, ActorScheduler::stopped")],
     [("actors", "id -> reference", "ActorScheduler")],
     ["get_tracked_actor", "ActorCount", "shutdown returning"])

prop("C12", "Timers tick one at a time until stopped; a worker pool runs each task once",
     "A timer sends its message to its actor once per period, waiting for the answer of one tick before it counts the period to the next, first after one period (or at once if so started), until it is stopped or its actor has ended; after it has seen the stop, or its actor is gone, it sends nothing any more. Stopping a running timer says so, and stopping one that has ended says that. A task given to a worker pool is handled exactly once, by one of the pool's workers, workers taking turns without the pool waiting for a task to finish, and the caller gets that worker's result.",
     ["schedules", "histories", "inputs"],
     "every period, handling time and moment of stopping; every pool size and every sequence of concurrent tasks",
     "Tests observe a few ticks in real time and a single dispatch; the property covers every moment of stopping and every interleaving of tasks.",
     ["coerce/src/actor/scheduler/timer.rs", "coerce/src/actor/worker.rs"],
     [("timer", "timer_loop, Timer::{start, start_immediately, stop}"), ("pool", "Worker::new, Handler<WorkerMessage> for Worker, WorkerRefExt::dispatch")],
     [("workers", "the line of workers", "Worker")],
     ["tick messages", "results of dispatch"])

prop("C13", "A request to an actor on another node is served once; its caller gets its answer",
     "A message for an actor on another node goes out as one message to that node that names the actor, the handler registered for its type and the node to answer, with the payload as written; a request has an id of its own under which its caller waits. The caller gets exactly what is answered under that id: the result as sent (read by its message type), or the error reported; answers in any order, second answers and answers nobody waits for change nothing for others. A message that cannot be written, or has no handler, is reported to its sender, is not sent and leaves nobody waiting. On the other side, a message that arrives is handed exactly once to the live actor it names by the handler it names, and if an answer is wanted there is exactly one, under its id: the actor's result, or an error that says why not (no such actor, no such handler, payload unreadable, result not writable). Pings are answered under their id.",
     ["histories", "schedules", "inputs"],
     "every payload, every set of concurrent requests in both directions, every order and repetition of answers, and actors that end or are replaced in between",
     "Tests have two real nodes exchange a few messages that succeed; crossed, repeated, unknown and failing answers, and actors that end in between, do not occur in them.",
     ["coerce/src/remote/system/rpc.rs", "coerce/src/remote/actor_ref.rs", "coerce/src/remote/handler.rs", "coerce/src/remote/actor/mod.rs", "coerce/src/remote/net/server/session/mod.rs", "coerce/src/remote/net/client/receive.rs"],
     [("asking", "RemoteActorRef::{send, notify, create_request}, RemoteActorSystem::{push_request, pop_request, node_rpc_raw, node_rpc, node_rpc_proto}"), ("answers", "ClientMessageReceiver::on_receive, SessionMessageReceiver::on_receive"),
      ("serving", "session_handle_message, RemoteActorSystem::handle_message, RemoteActorMessageHandler::{handle_attempt, handle_direct}, get_actor_ref, notify_rpc_err, send_result")],
     [("requests", "id -> who waits", "RemoteHandler"), ("ACTOR_REF_CACHE", "(system, id) -> reference", "remote/handler.rs")],
     ["results of RemoteActorRef::send / notify", "frames on the wire", "messages handled by actors", "inflight_remote_request_count"])

prop("C14", "An actor is found where it was last said to be and made where it is asked for",
     "An actor that starts under an id is made known to the node in charge of the id (itself, if that is this node). Asked where an actor is, a node answers with what it was last told; if it was told nothing and another node is in charge of the id, it asks that node, once, and answers what that one says; otherwise the actor is nowhere. A reference got by id is a local one exactly if the actor is on this node, and is for that id and node otherwise. A lookup by another node is answered under its id, also when the actor is nowhere. A request to make an actor is answered exactly once: with its address after exactly one actor was made there, under the id asked for (or a fresh one), or with an error, and then none was made: if the id is already known somewhere, the node cannot make that type, or the recipe makes none. Making an actor on this node gives a local reference; on another node, one request goes there and the reference is to the address it answers.",
     ["histories", "inputs"],
     "every id, every history of starts, registrations by other nodes and lookups, every recipe, and every answer of the other node",
     "Tests look up and create one or two actors on one node; they do not cover ids another node is in charge of, failed creations, or what a lookup yields after several registrations.",
     ["coerce/src/remote/system/actor.rs", "coerce/src/remote/actor/registry.rs", "coerce/src/remote/handler.rs", "coerce/src/remote/net/server/session/mod.rs"],
     [("location", "Handler<RegisterActor>, Handler<GetActorNode> for RemoteRegistry, RemoteActorSystem::{locate_actor_node, register_actor, actor_ref}, session_handle_lookup"), ("creation", "RemoteActorSystem::{handle_create_actor, deploy_actor}, RemoteActorHandler::create, session_create_actor")],
     [("actors", "id -> node", "RemoteRegistry")],
     ["actor_ref / locate_actor_node / deploy_actor results", "FindActor, RegisterActor and CreateActor frames and their answers"])

prop("C16", "Nodes are judged by their pings; the most senior healthy node leads, told once",
     "At every heartbeat each other node is judged by the last ping it gave: healthy if it answered recently and fast enough, unhealthy or terminated if the last answer is older than the respective timeout (or took too long), terminated if it disconnected, unhealthy and then terminated if pings fail, unhealthy on a missed ping until the terminated timeout has passed since it was last heard of; one that never answered is joining, unless it was reported terminated: then it stays so until it answers again. The node itself is healthy. From the second heartbeat on the leader is the healthy node that started first (the lower id if several did at once), whatever its id; if none is healthy the leader stays. A change of leader is announced on this node exactly once, and everyone who waited for it is told exactly once, that leader. The node is announced up exactly once: at the first heartbeat with a leader and, if a minimum cluster size is set, at least so many healthy nodes. Whatever the clock does, the heartbeat goes on, and it neither adds nor forgets nodes nor changes what they registered with.",
     ["inputs", "histories", "faults"],
     "every set of nodes, ids, start times and configurations, and every history of pings of every result, terminations, registrations and heartbeats, with clocks ahead or behind",
     "Tests wait for a leader in a cluster where every node answers; missed, late, failing and contradictory pings, clock jumps, ties and returning nodes do not occur in them.",
     ["coerce/src/remote/heartbeat/mod.rs", "coerce/src/remote/system/cluster.rs"],
     [("judging", "node_status, update_node, Handler<NodePing>, Handler<NodeTerminated> for Heartbeat"), ("leading", "Handler<HeartbeatTick>, Heartbeat::{update_leader, on_min_cluster_size_reached}, Handler<OnLeaderChanged>, RemoteActorSystem::{current_leader, update_leader}")],
     [("node_pings", "node -> last ping", "Heartbeat"), ("on_next_leader_changed", "who waits for a leader", "Heartbeat"), ("current_leader", "the leader's id", "RemoteActorSystem")],
     ["get_nodes", "current_leader", "LeaderChanged and MemberUp events", "answers to OnLeaderChanged"])

prop("C17", "Every known node is in the hash ring once; nodes agree on who is in charge",
     "A node that registers is known from then on as it registered last (a new registration replaces the older one and makes it joining), until it is removed; reports about the health of nodes change the health of known nodes only in status, latency and last heartbeat, never what they registered with, and never make the store forget a node. The hash ring holds every known node exactly once, as it registered last, and no other; so the node in charge of a key is always one that is known, there is one whenever a node is known, and any two nodes that know the same nodes, learned in whatever order and however often, agree on it. A node sent to another node arrives as it was: id, address, tag, start time to the nanosecond and attributes.",
     ["histories", "inputs"],
     "every history of registrations (also repeated and changed ones), removals, terminations and health reports prepared before or after them, every key, and every node description",
     "Tests register a few distinct nodes once; repeated registrations, stale reports, removals and the agreement of stores with different histories are not sampled.",
     ["coerce/src/remote/cluster/node.rs", "coerce/src/remote/actor/registry.rs", "coerce/src/remote/net/message.rs"],
     [("store", "RemoteNodeStore::{new, add, remove, update_nodes, node_terminated, get_all, get, get_mut, is_registered, get_by_key}, Hash for RemoteNode"), ("registry", "Handler<{RegisterNode, UpdateNodes, NodeTerminated, GetNodes}> for RemoteRegistry"), ("wire form", "From between RemoteNode / RemoteNodeState and network::RemoteNode, NodeIdentity; datetime_to_timestamp, timestamp_to_datetime")],
     [("nodes", "id -> state", "RemoteNodeStore"), ("table", "the hash ring", "RemoteNodeStore")],
     ["get_nodes", "get_by_key / who is asked about an id", "NodeIdentity and RemoteNode on the wire"])

prop("C18", "What nodes write for each other reads back the same; other bytes are refused",
     "Every event of a client, a session or the cluster, every message and answer of sharding and every actor error that one node can write is read by another as the same event, message, answer or error, with every field as it was. Bytes that are not such a message (empty, of an unknown kind, cut off, not parseable, or without a field the message cannot do without) are refused: reading reports that and never panics, and an error of a kind this node does not know is still an error. A connection deals with every frame it receives in order and once: the message is handled or reported as unreadable, and an unreadable frame neither ends the connection nor affects the frames after it; when the connection ends, breaks off or is closed by its receiver, the receiver is told so once.",
     ["inputs", "faults"],
     "every message of every kind with every value of its fields, every sequence of bytes, and every sequence of frames",
     "Tests exchange a few well-formed messages; most kinds, field values at the edges and malformed bytes never occur in them, and an asymmetry between writer and reader only shows for the kind and field it is about.",
     ["coerce/src/remote/net/message.rs", "coerce/src/remote/net/mod.rs", "coerce/src/remote/stream/system.rs", "coerce/src/sharding/host/mod.rs", "coerce/src/sharding/host/request.rs", "coerce/src/sharding/coordinator/allocation.rs", "coerce/src/sharding/shard/message.rs"],
     [("events", "StreamData for ClientEvent, SessionEvent and SystemEvent; write_event; From between ActorRefErr and its wire form"), ("sharding", "Message::{as_bytes, from_bytes, write_remote_result, read_remote_result} of the sharding messages"), ("connection", "receive_loop")],
     [("frames", "length-delimited frames", "connection")],
     ["read_from_bytes / write_to_bytes", "as_bytes / from_bytes", "what a StreamReceiver is given"])

prop("C19", "A publication reaches each subscriber of its topic and key and each node, once",
     "A message published under a topic and key is handed to every actor that is subscribed to that topic and key at that moment, once for each of its subscriptions, in the order of publication on this node, and to nobody else: not to subscribers of another key or topic, nor of a topic of another type that has the same name (subscribing to such a topic is refused). A subscription lasts until it is given up, dropped, or its actor has stopped: a subscriber that falls behind may miss messages, but is handed the later ones. A message published to the cluster is moreover given to every other node that was announced and not removed since, once, with its topic and key, and to no other node; if it cannot be written the publisher is told. A publication of another node is handed to the subscribers here like one made here; one that cannot be read, or of a topic nobody here subscribed to, is dropped. Nothing that is published or received ends the mediator.",
     ["histories", "inputs", "schedules"],
     "every history of subscriptions, ends of subscriptions and of actors, local, cluster and foreign publications of any topic and key, and nodes announced and removed; every pace of the subscribers",
     "Tests publish one message to one subscriber; keys, several subscriptions, name clashes, unreadable messages, bursts and a changing cluster do not occur in them.",
     ["coerce/src/remote/stream/pubsub.rs", "coerce/src/remote/stream/mediator/mod.rs", "coerce/src/remote/net/server/session/mod.rs"],
     [("subscriptions", "PubSub::subscribe, StreamMediator::subscribe, Subscription::{new, unsubscribe, drop}, TopicSubscriberStore::receiver"), ("publications", "PubSub::{publish, publish_locally}, Handler<{Publish, PublishRaw}> for StreamMediator, TopicSubscriberStore::{emit, emit_serialised, broadcast}, session_stream_publish"), ("cluster", "Handler<{SetRemote, Receive<SystemTopic>}> for StreamMediator")],
     [("topics", "name -> subscribers by key", "StreamMediator"), ("nodes", "the other nodes", "StreamMediator")],
     ["Receive messages of subscribers", "StreamPublish events given to other nodes", "results of subscribe and publish"])
prop("C20", "A singleton runs on the leases of all managers, and no message to it is lost",
     "The manager of a node makes the cluster singleton only when it was the leader and every manager it knows, on the nodes that were announced and not removed since, has acknowledged its request for the lease, or when it knows of no other: an acknowledgement of an unknown node or of one that has left does not count, a node that leaves need not acknowledge, and one that joins meanwhile is asked too. A manager acknowledges a request at once only while it has joined and no singleton starts, runs or is stopping on its node; while it joins it acknowledges the latest request when the cluster is up; and while its singleton runs or is stopping it stops the singleton once and acknowledges the latest request when that has stopped. (A manager that is itself waiting for the lease does not answer.) When the singleton has started, its own proxy and every other manager are told, and a node that joins later too; when it is told to stop, its own proxy and every other manager are told. A message given to the proxy, with or without an answer awaited, is handed to the singleton the proxy last heard of, once, and its result is given to whoever waits; while the proxy has heard of none, or heard last that it stops, it keeps the message and hands it over once to the next one. No message ends the proxy or the manager.",
     ["histories", "inputs", "schedules"],
     "every history of cluster events (the cluster is up, leader changed, nodes added and removed), lease requests and acknowledgements, notices of other managers, messages to the singleton, and starts and ends of the singleton however long they take",
     "The test starts one singleton on two nodes and sends a message from each; the lease changing hands, nodes leaving or joining during it, late acknowledgements and messages kept meanwhile do not occur in it.",
     ["coerce/src/singleton/manager/mod.rs", "coerce/src/singleton/manager/lease.rs", "coerce/src/singleton/manager/start.rs", "coerce/src/singleton/proxy/mod.rs", "coerce/src/singleton/proxy/send.rs", "coerce/src/singleton/mod.rs"],
     [("lease", "Handler<{RequestLease, LeaseAck, ActorTerminated, ActorStartResult}> for Manager, Manager::{begin_starting, begin_stopping, request_lease, grant_lease, on_lease_ack, start_actor}"), ("cluster events", "Handler<Receive<SystemTopic>> for Manager"), ("proxy", "Handler<{Deliver, SingletonStarted, SingletonStopping}> for Proxy, Deliver::deliver, Singleton::{send, notify}")],
     [("state", "Joining, Idle, Starting with the acknowledgements so far, Running or Stopping", "Manager"), ("managers", "the managers of other nodes", "Manager"), ("state", "the singleton, or the messages kept", "Proxy")],
     ["RequestLease, LeaseAck, SingletonStarted and SingletonStopped messages given to other nodes", "creations and ends of the singleton", "messages it handles, and answers"])
