"""Which units, functions and suites decide which property."""
CHECKS = {
    "C01": {
        "units": ["journal"],
        "functions": ["Journal::persist_message", "Journal::persist_batch", "Journal::persist_snapshot", "Journal::recover_snapshot",
                      "Journal::recover_messages", "Journal::new", "::load_journal", "EventBatch::entries"],
        "suites": ["journal"],
        "note": "Numbering, atomicity of batches and the frame over other ids are postconditions of the real functions, for all inputs; storage is assumed to append on Ok and leave the journal unchanged on Err.",
    },
    "C02": {
        "units": ["journal"],
        "functions": ["Journal::recover_snapshot", "Journal::recover_messages", "Journal::clear_old_messages", "Journal::persist_snapshot", "Journal::persist_message", "Journal::persist_batch", "Journal::read_messages", "Journal::clear", "::load_journal",
                      "trait:PersistentActor::recover", "RecoveredPayload::recover", "Actor@A::started", "Journal::new"],
        "suites": ["journal"],
        "note": "Recovery exactness is a postcondition of load_journal/started plus lemmas over any numbered log; the handler tables (type-erased user code) are assumed.",
    },
    "C03": {
        "units": ["inmemory"],
        "suites": ["provider"],
        "note": "All operations of the built-in provider are under contract over a map model (no bound); provider selection by type id is the bounded executable contract.",
    },
    "C04": {
        "units": ["journal"],
        "functions": ["::should_retry", "::check", "trait:PersistentActor::persist", "trait:PersistentActor::persist_batch",
                      "trait:PersistentActor::snapshot", "ActorRecovery@A::recover_journal", "Actor@A::started", "trait:PersistentActor::recover", "RecoveredPayload::recover"],
        "suites": ["policy"],
        "note": "Attempt counts, answers, status and hook order are postconditions of the real loops for every policy; hooks and policies are user code, assumed not to touch the journal.",
    },
    "C05": {
        "units": ["coordinator"],
        "functions": ["ShardHostState::is_ready", "::allocate", "::broadcast_reallocation", "::broadcast_allocation", "ShardCoordinator::allocate_shard", "Handler<AllocateShard>@ShardCoordinator::handle",
                      "Recover<AllocateShard>@ShardCoordinator::recover", "ShardCoordinator::add_host", "ShardCoordinator::on_node_discovered",
                      "ShardCoordinator::on_node_removed", "ShardCoordinator::rebalance_shards", "ShardCoordinator::rebalance_unavailable_node", "Handler<Rebalance>@ShardCoordinator::handle"],
        "suites": ["coordinator"],
        "clauses": ["allocation", "handover", "race"],
        "note": "Agreement of the two ownership maps is an invariant every coordinator operation preserves; handover, evacuation and levelling are postconditions, for any number of hosts and shards.",
        "assumptions": ["spawned tasks run to completion; their messages are recorded in their own order", "a vector of exclusive host references is modelled as the host map plus the distinct ids referred to (std filter/collect/sort_by assumed)",
                        "a send/notify is one message to that host (transport)", "persist appends one record on Ok (C01)", "the 500 ms delay of a scheduled full rebalance is not modelled; the bounded suite waits for it"],
        "bounded": "histories over 1 real host and 2 scripted peers, 7 shards, words up to length 3 (quick) / 4 (thorough) over 4 operations plus scripted and random histories",
    },
    "C06": {
        "units": ["coordinator"],
        "functions": ["ShardHostState::is_ready", "::allocate", "::broadcast_allocation", "ShardCoordinator::allocate_shard", "Handler<AllocateShard>@ShardCoordinator::handle",
                      "Recover<AllocateShard>@ShardCoordinator::recover", "ShardAllocator@DefaultAllocator::allocate"],
        "suites": ["coordinator"],
        "clauses": ["allocation", "handover", "placement"],
        "note": "Placement, idempotence, record-before-place and announcement are postconditions for every host set and load; the hash function is an uninterpreted fixed function.",
        "assumptions": ["std's DefaultHasher is a fixed function of the bytes written", "sort_by orders by the comparison given", "persist appends one record on Ok (C01)"],
        "bounded": "same histories as C05; 300 (quick) / 3000 (thorough) entity ids over 6 shard counts",
    },
    "C07": {
        "units": ["host"],
        "suites": ["host"],
        "note": "Routing, buffering and the stop protocol are postconditions of every host handler over the three maps, for any shard and any buffer; the bounded suite runs the same state machine with real shards and a scripted peer.",
        "assumptions": ["one stop request at a time per shard (a second one while stopping is not answered)", "requests reaching a host in the moment its shard is stopping are refused by a closed reply channel",
                        "a ready report is not told apart from one of an earlier start of the same shard that has not ended (same actor id)", "spawned tasks run to completion", "a send/notify is one message (transport)"],
        "bounded": "one real node and one scripted peer; all words up to length 4 (quick) / 5 (thorough) over 6 operations plus random words of length 10",
    },
    "C08": {
        "units": ["shard"],
        "suites": ["entity"],
        "note": "Start-once, buffering, answers and recovery are postconditions of every shard handler over the entity map, for any number of entities and requests.",
        "assumptions": ["the factory's create is user code: returns once, success or failure", "persist appends one record on Ok (C01); what a shard does when that write fails is the actor's failure policy (C04)",
                        "spawned tasks run to completion", "a child that is listed is stopped with its parent, and the parent hears of a child's end (C10)", "an entity that ends before its shard has heard of its creation (a race of two notifications) is not covered"],
        "bounded": "one real shard and one entity; all words up to length 4 (quick) / 5 (thorough) over requests, ends and restarts, and the shard stopped at each point of a creation",
    },
    "C09": {
        "units": ["actor"],
        "functions": ["ActorLoop::run", "::actor_stopped", "::close_mailbox", "ActorMessage::new", "ActorMessage::handle", "LocalActorRef::new", "LocalActorRef::sender", "LocalActorRef::is_valid", "LocalActorRef::actor_id", "LocalActorRef::actor_path", "LocalActorRef::deliver",
                      "LocalActorRef::notify", "LocalActorRef::send", "LocalActorRef::notify_stop", "LocalActorRef::stop", "LocalActorRef::send_blocking", "LocalActorRef::stop_blocking", "Handler<Status>@A::handle", "Handler<Stop>@A::handle",
                      "ActorContext::stop", "ActorContext::set_status", "ActorContext::get_status", "ActorContext::add_on_stopped_handler", "ActorContext::take_on_stopped_handlers", "::start_actor", "::start_root_actor",
                      "ActorSystem::new_actor", "ActorSystem::new_actor_deferred", "ActorSystem::new_supervised_actor", "ActorSystem::new_actor_blocking"],
        "suites": ["lifecycle"],
        "note": "The whole life of an actor (start, every message in mailbox order, end, closed and drained mailbox) is the postcondition of ActorLoop::run for any mailbox content; asks and stops are postconditions of the reference methods.",
        "assumptions": ["tokio's mpsc is a FIFO queue and a closed, drained and dropped one holds nothing; a dropped oneshot sender wakes its receiver", "handlers and hooks return (a handler that panics or never returns is outside the statement)",
                        "spawned tasks run"],
        "bounded": "all words up to length 4 (quick) / 5 (thorough) over asks, notifications, stops and stops from inside a handler; concurrent senders racing with the stop",
    },
    "C10": {
        "units": ["actor"],
        "functions": ["Supervised::new", "Supervised::spawn", "Supervised::spawn_deferred", "Supervised::count", "Supervised::child", "Supervised::child_boxed", "Supervised::attach_child_ref", "Supervised::add_child_ref",
                      "Supervised::on_child_stopped", "Supervised::stop_all", "ChildRef::actor_ref", "ChildRef::is_attached", "ChildRef::spawned", "ChildRef::attached", "ActorContext::spawn", "ActorContext::spawn_deferred",
                      "ActorContext::attach_child_ref", "ActorContext::add_child_ref", "ActorContext::child_ref", "ActorContext::boxed_child_ref", "ActorContext::supervised_count", "ActorContext::supervised_mut", "ActorContext::boxed_parent",
                      "ActorContext::with_parent", "Handler<Terminated>@A::handle", "::on_context_dropped", "Drop@ActorContext::drop", "Handler<Watch>@A::handle", "Handler<Unwatch>@A::handle", "ActorContext::watchers_mut",
                      "ActorContext::take_watchers", "Watchers::add_watcher", "Watchers::remove_watcher", "Watchers::iter", "From<BoxedActorRef>@ActorTerminated::from", "::actor_stopped", "::start_actor", "ActorLoop::run"],
        "suites": ["supervision"],
        "note": "Family bookkeeping, the order 'children stopped, then parent told' and one notice per watcher are postconditions of the real functions for any number of children and watchers.",
        "assumptions": ["a context is dropped when its actor's loop ends (Rust ownership), and drop runs its glue once", "hooks do not replace whose context it is", "join_all waits for all (futures)", "an actor whose handler panics skips its own end"],
        "bounded": "trees of 1 + 3 actors; all words up to length 3 (quick) / 4 (thorough) over spawn, attach, watch, unwatch and stops",
    },
    "C11": {
        "units": ["actor"],
        "functions": ["Handler<RegisterActor<A>>@ActorScheduler::handle", "Handler<DeregisterActor<A>>@ActorScheduler::handle", "Handler<GetActor<A>>@ActorScheduler::handle", "Handler<ActorCount>@ActorScheduler::handle",
                      "Actor@ActorScheduler::stopped", "::start_root_actor", "ActorSystem::new_actor", "ActorSystem::new_actor_deferred", "ActorSystem::new_tracked_actor", "ActorSystem::new_anon_actor", "ActorSystem::new_actor_blocking",
                      "ActorSystem::get_tracked_actor", "ActorSystem::shutdown", "ActorSystem::scheduler", "ActorSystem::system_name", "GetActor::new", "ActorType::is_tracked", "::actor_stopped", "ActorLoop::run"],
        "suites": ["registry"],
        "note": "The registry map is a postcondition of each scheduler handler; registration precedes the run of the actor, de-registration its end notices, by the order of effects in the contracts.",
        "assumptions": ["messages from one task to the scheduler arrive in the order sent (FIFO mailbox)", "std Any tells references of different actor types apart"],
        "bounded": "words over start, replace, stop, lookup; 200 (quick) early-stopping actors and 50 shutdowns with busy schedules",
    },
    "C12": {
        "units": ["timer"],
        "suites": ["timer"],
        "note": "The order wait / look for stop / tick / answer is a postcondition of timer_loop for every number of ticks; pool rotation and answer routing are postconditions of the real functions.",
        "assumptions": ["tokio's interval waits one period after the last tick or reset; its clock is real time", "a spawned task runs to completion"],
        "bounded": "periods 20-60 ms, handling times 0-80 ms; pools of 1-4 workers, up to 12 concurrent tasks",
    },
    "C13": {
        "units": ["rpc"],
        "functions": ["RemoteHandler::push_request", "RemoteHandler::pop_request", "RemoteHandler::inflight_request_count", "RemoteActorSystem::push_request", "RemoteActorSystem::pop_request", "RemoteActorSystem::inflight_remote_request_count",
                      "RemoteActorSystem::node_rpc_raw", "RemoteActorSystem::notify_raw_rpc_result", "RemoteActorSystem::notify_rpc_err", "RemoteActorSystem::node_rpc_proto", "RemoteActorSystem::node_rpc", "RemoteActorSystem::handler_name",
                      "RemoteActorSystem::create_header", "RemoteActorRef::new", "RemoteActorRef::actor_id", "RemoteActorRef::node_id", "RemoteActorRef::create_request", "RemoteActorRef::send", "RemoteActorRef::notify",
                      "RemoteActorSystem::handle_message", "ActorRefCache::add", "ActorRefCache::get", "::get_actor_ref", "ActorMessageHandler@RemoteActorMessageHandler::handle_attempt", "ActorMessageHandler@RemoteActorMessageHandler::handle_direct",
                      "::send_result", "::send_err", "::session_handle_message", "StreamReceiver@SessionMessageReceiver::close", "StreamReceiver@SessionMessageReceiver::on_receive", "StreamReceiver@ClientMessageReceiver::on_receive"],
        "suites": ["rpc"],
        "note": "Who waits under which id, what is sent, and what one arriving event leads to are postconditions of the real functions for any set of pending requests, any payload and any answer; serving a message is the postcondition of session_handle_message over that of handle_attempt.",
        "assumptions": ["ids in messages are well-formed (a malformed id of a peer ends its connection)", "a fresh random id is that of no pending request", "a node that is not connected gets nothing and answers nothing (the caller of a lost request waits; no timeout is promised)",
                        "a message's own encode/decode functions are fixed functions of their input (user code)", "an older actor still alive under an id that another has taken over may keep being reached through the reference cache",
                        "tokio channels deliver what is sent, once; a spawned task runs", "the identity and handshake arms of ClientMessageReceiver::on_receive are left out of the extraction"],
        "bounded": "one real node and one scripted peer; up to 3 (quick) / 4 (thorough) concurrent asks in all orders and kinds of answers, incoming messages of 64 kinds alone and in random batches",
    },
    "C14": {
        "units": ["rpc"],
        "functions": ["RemoteActorSystem::locate_actor_node", "RegisterActor::new", "RemoteActorSystem::register_actor", "Handler<RegisterActor>@RemoteRegistry::handle", "Handler<GetActorNode>@RemoteRegistry::handle",
                      "From<LocalActorRef<A>>@ActorRef::from", "From<RemoteActorRef<A>>@ActorRef::from", "::send_proto_result", "RemoteActorSystem::actor_ref", "RemoteActorSystem::handle_create_actor", "::session_create_actor",
                      "::session_handle_lookup", "RemoteActorSystem::deploy_actor", "ActorHandler@RemoteActorHandler::create", "StreamReceiver@SessionMessageReceiver::on_receive", "::send_result", "::send_err", "RemoteActorRef::new",
                      "RemoteActorSystem::node_rpc_proto", "RemoteActorSystem::node_rpc_raw"],
        "suites": ["location"],
        "note": "The map from ids to nodes is the postcondition of the two registry handlers, with the node in charge as a fixed function of nodes and id (C17 is about that function); creation is the postcondition of handle_create_actor and deploy_actor for any recipe and any answer.",
        "assumptions": ["the node in charge is a function of the known nodes and the id", "nothing removes an actor that ended from the registry: an id stays known (and cannot be made again elsewhere) after its actor has ended",
                        "two requests to make the same id at the same moment are not ordered", "protobuf messages of this kind can be written and read back", "a lookup not answered within 5 s counts as nowhere"],
        "bounded": "one real node and one scripted peer; all words up to length 3 (quick) / 4 (thorough) over starts, registrations and answers of the other node; all combinations of creation parameters",
    },
    "C16": {
        "units": ["heartbeat", "nodes"],
        "functions": ["NodeStatus::is_healthy", "PingResult::is_ok", "node_status", "update_node", "RemoteActorSystem::current_leader", "RemoteActorSystem::update_leader", "Heartbeat::update_leader",
                      "Heartbeat::on_min_cluster_size_reached", "Handler<HeartbeatTick>@Heartbeat::handle", "Handler<NodePing>@Heartbeat::handle", "Handler<NodeTerminated>@Heartbeat::handle", "Handler<OnLeaderChanged>@Heartbeat::handle",
                      "Handler<GetNodes>@RemoteRegistry::handle", "Handler<UpdateNodes>@RemoteRegistry::handle", "Handler<NodeTerminated>@RemoteRegistry::handle"],
        "suites": ["heartbeat"],
        "note": "What a tick makes of the nodes, the leader, the announcements and those who wait is the postcondition of the tick handler for every store, every set of pings, every configuration and every clock; the histories follow because each handler's contract holds from any state the others leave.",
        "assumptions": ["the clock stands still within one handler", "times lie within 2^60 ns of the epoch (about 36 years) in the proof: durations are machine integers of nanoseconds there", "no node has the id u64::MAX (the cell that holds the leader uses that pattern for none)",
                        "Vec::sort_by sorts by its comparison and keeps the elements; HashMap::values lists each value once", "publishing on this node is recorded as one event (C19 is about delivery)", "between the reading and the writing of the nodes within one tick the store is not changed by others in the proof (the contract of update_nodes, C17, covers it being changed)",
                        "GetHealth, RegisterHealthCheck and RemoveHealthCheck are not under contract", "how pings are made (net/client/ping.rs) is not under contract"],
        "bounded": "one real node, two scripted others, four setups of ids, start times and minimum sizes; all words up to length 2 (quick) / 3 (thorough) over 15 operations and 250 / 3,000 random words of length 9",
    },
    "C17": {
        "units": ["nodes"],
        "functions": ["RemoteNodeState::new", "RemoteNode::new", "From<RemoteNodeState>@RemoteNode::from", "datetime_to_timestamp", "timestamp_to_datetime", "From<RemoteNode>@network::RemoteNode::from", "From<&RemoteNode>@network::RemoteNode::from",
                      "From<RemoteNodeState>@network::RemoteNode::from", "From<network::RemoteNode>@RemoteNode::from", "From<&network::NodeIdentity>@RemoteNode::from", "Hash@RemoteNode::hash", "RemoteNodeStore::new", "RemoteNodeStore::get_all", "RemoteNodeStore::update_nodes",
                      "RemoteNodeStore::get_mut", "RemoteNodeStore::node_terminated", "RemoteNodeStore::get", "RemoteNodeStore::is_registered", "RemoteNodeStore::remove", "RemoteNodeStore::get_by_key", "RemoteNodeStore::add",
                      "Handler<GetNodes>@RemoteRegistry::handle", "RemoteRegistry::register_node", "Handler<RegisterNode>@RemoteRegistry::handle", "Handler<UpdateNodes>@RemoteRegistry::handle", "Handler<NodeTerminated>@RemoteRegistry::handle"],
        "suites": ["nodes"],
        "note": "The invariant in_step (the ring is the bag of the known nodes as registered) is kept by every operation of the store; agreement is a lemma over it: two stores with the same nodes have the same ring.",
        "assumptions": ["the hash ring of crate hashring: a bag; who is in charge is a function of the bag and the key; remove takes out one node with equal hash", "no two node descriptions have the same 64-bit hash", "attribute tables are copied entry by entry", "a store is made from nodes with distinct ids", "timestamps on the wire are in the range of the clock type"],
        "bounded": "all words up to length 3 (quick) / 4 (thorough) over registrations (two versions), removals, terminations and stale or fresh health reports for two to three nodes from several first states; agreement checked on 24 keys",
    },
    "C18": {
        "units": ["wire", "nodes"],
        "functions": ["::protobuf::Enum@Event::from_i32", "::protobuf::Enum@SystemEvent::from_i32", "write_event", "StreamData@ClientEvent::write_to_bytes", "StreamData@ClientEvent::read_from_bytes", "StreamData@SessionEvent::write_to_bytes",
                      "StreamData@SessionEvent::read_from_bytes", "From<ActorRefErr>@proto::network::ActorRefErr::from", "From<proto::network::ActorRefErr>@ActorRefErr::from", "From<NewNodeEvent>@SystemEvent::from", "From<NodeRemovedEvent>@SystemEvent::from",
                      "From<LeaderChangedEvent>@SystemEvent::from", "From<MemberUpEvent>@SystemEvent::from", "StreamData@SystemEvent::write_to_bytes", "StreamData@SystemEvent::read_from_bytes",
                      "Message@ShardAllocated::as_bytes", "Message@ShardAllocated::from_bytes", "Message@ShardReallocating::as_bytes", "Message@ShardReallocating::from_bytes", "Message@StopShard::as_bytes", "Message@StopShard::from_bytes", "Message@ShardStopped::as_bytes", "Message@ShardStopped::from_bytes", "Message@RemoteEntityRequest::as_bytes", "Message@RemoteEntityRequest::from_bytes", "Message@StartEntity::as_bytes", "Message@StartEntity::from_bytes", "Message@RemoveEntity::as_bytes", "Message@RemoveEntity::from_bytes", "Message@PassivateEntity::as_bytes", "Message@PassivateEntity::from_bytes", "Message@AllocateShard::as_bytes", "Message@AllocateShard::from_bytes", "Message@AllocateShard::write_remote_result", "Message@AllocateShard::read_remote_result",
                      "receive_loop", "datetime_to_timestamp", "timestamp_to_datetime", "From<RemoteNode>@network::RemoteNode::from", "From<network::RemoteNode>@RemoteNode::from"],
        "suites": ["wire"],
        "note": "For each kind of message the writer's and the reader's contracts are functions of the message and of its bytes; that they are inverse is a lemma over the two. The contract of the receive loop is about every sequence of frames.",
        "assumptions": ["protobuf: writing a message of this crate's generated types gives bytes that parse as that message (unknown fields aside); a message parses as another one with the same field numbers and types", "the text of a uuid parses as that uuid",
                        "text is treated as an opaque value; actor ids and their text form are the same value", "the frames are cut by tokio's LengthDelimitedCodec", "times on the wire are in the range of the clock type", "that a node in an event arrives as it was is proved in unit nodes (C17) and taken from there",
                        "messages of users, statistics and shard snapshots are not under contract"],
        "bounded": "40 (quick) / 400 (thorough) field choices for each of 51 kinds of message, 20 corruptions each; receive loop: all words of up to 3 / 4 frames of five sorts, and ten that close or break off",
    },
    "C19": {
        "units": ["pubsub"],
        "suites": ["pubsub"],
        "note": "What a publication and a subscription do to the channels, the subscribers and the other nodes is the postcondition of the mediator's handlers for any set of topics, keys and nodes; the life of a subscription is the contract of its forwarding loop over every sequence its channel can yield, lag included.",
        "assumptions": ["tokio's broadcast channel: every receiver gets what is sent after it was made, in order, or a notice that it lagged, then Closed", "dynamic dispatch of TopicEmitter reaches the store's own functions, and a downcast succeeds exactly for the type the store was made with",
                        "a task that is aborted does nothing more", "HashSet::iter lists each element once", "an event given to a node's client is C13's matter; the order of publications between nodes is not claimed (each is sent by its own task)",
                        "which nodes are announced and removed is the discovery's matter (not under contract)", "texts are treated as opaque values"],
        "bounded": "one real node, two scripted others, two subscribers, four topics (two of the same name), two keys; all words up to length 3 (quick) / 4 (thorough) over 16 operations and 150 / 2,000 random words of length 9; bursts of 60,000 messages",
    },
    "C20": {
        "units": ["singleton"],
        "suites": ["singleton"],
        "note": "What the manager says to the other managers and to its proxy, what it makes and what it stops are postconditions of its handlers over its state and any set of managers; that the singleton is made on the last acknowledgement follows from the invariant that only known managers are counted. The proxy's contract accounts for every message it is given.",
        "assumptions": ["what is given to another node's manager and could be sent arrives (C13); what could not be sent is sent again after 2 s (scheduled_notify), except to a node that has just been added", "an actor is started under its id on this node (C09), and its watchers are told once it has stopped (C10)",
                        "tokio's oneshot channel", "dynamic dispatch of Buffered reaches Deliver's own function", "HashMap::values lists each value once",
                        "the cluster events the manager is given are the heartbeat's and the discovery's matter (C16 for the first)", "the factory and the type of the singleton are arbitrary but fixed; ids and messages are treated as opaque values"],
        "bounded": "one real node and two scripted others; 9 fixed histories and 120 (quick) / 1,500 (thorough) random ones of up to 16 operations, in which the singleton's stop may take any time",
    },
}

HOOK_COMMITS = []
