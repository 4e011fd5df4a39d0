#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (run by hand, not by the checks)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": x, "where": files[0]} for x in state]
    if obs: a["observe_at"] = obs
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

ST = "src/brokers/store/"
PS = "src/brokers/pub-sub/"
QU = "src/brokers/queue/"
SR = "src/brokers/stream/"
TR = "src/transport/"

prop("S01", "The key/value store behaves as one atomic map for all clients",
 "Concurrent set, get and delete on the shared store have results that some sequential order of the operations, consistent with real time, would produce: a completed write is seen by every later read until it is overwritten, deleted or expires. Background expiry, lazy removal and listing never remove, revive or alter a live value, nor touch other keys.",
 ["schedules", "histories"], "all interleavings of concurrent clients and the cleanup round; all operation histories",
 "The tests run one client at a time or check a final count; they do not enumerate interleavings of writers with readers and with the cleanup round.",
 [ST+"domain/map.rs", ST+"manager.rs"], [("shared map and expiry cleanup", ST+"domain/map.rs")], ["map entries"], ["map set/get/del/len, scan"])
prop("S02", "Store entries live exactly as long as their TTL says",
 "A stored value is returned until its lifetime ends and never after: the lifetime is the one given with the latest write of that key (the configured default when none or zero is given), counted from that write, whatever its magnitude. Expired entries disappear from memory within a cleanup period.",
 ["inputs", "histories", "schedules"], "all lifetimes (absent, zero, small, huge), overwrites and observation instants before, at and after the deadline",
 "The tests sample one or two lifetimes with real sleeps and cannot observe both sides of the deadline nor extreme lifetimes.",
 [ST+"domain/map.rs", ST+"config.rs"], [("lifetime computation and expiry", ST+"domain/map.rs")], ["entry deadline"], ["map set/get/len"])
prop("P01", "Each published message reaches every matching subscriber exactly once",
 "A message published to a topic is delivered, unchanged and exactly once, to every connected client that has at least one matching subscription (exact, + for one segment, trailing # for the rest) however many of its patterns match, and to nobody else; the publisher is told that number of receivers. Messages of one publisher arrive at each subscriber in the order published, also while other clients publish, subscribe, unsubscribe, disconnect or die.",
 ["inputs", "schedules", "histories"], "all patterns and topics up to a length, all subscription histories up to a depth, all interleavings of publishers with clients coming and going",
 "The tests check a handful of pattern/topic pairs sequentially.",
 [PS+"manager.rs", PS+"domain/radix_tree.rs"], [("pattern tree matching", PS+"domain/radix_tree.rs"), ("publish fan-out", PS+"manager.rs")], ["pattern tree", "client registry"], ["publish, client channels"])
prop("P02", "Subscriptions end with unsubscribe or disconnect and leave nothing behind",
 "A client receives nothing for a pattern after unsubscribing from it, and nothing at all after disconnecting; other clients' subscriptions, also to the same pattern, are unaffected. The listing of clients, topics and wildcard patterns always agrees with who would actually receive messages, and when every client is gone no subscription remains, whatever the order and overlap of the operations.",
 ["schedules", "histories"], "all histories of connect, subscribe, unsubscribe, disconnect; all interleavings of such operations on one client",
 "The tests exercise single subscribe/unsubscribe sequences, never concurrent operations on one client.",
 [PS+"manager.rs", PS+"domain/radix_tree.rs"], [("subscription registry and tree", PS+"manager.rs")], ["client registry", "pattern tree"], ["scan_topics, publish"])
prop("P03", "A new subscriber gets the current retained value of every matching topic, once",
 "Subscribing delivers at once, for every topic matching the pattern, the value last published to it with retain, unless that was cleared by an empty retained publish or its lifetime (given or default) has ended; nothing else is replayed. A subscriber joining while retained values are published sees each of them at most once and always ends with the latest.",
 ["histories", "schedules", "inputs"], "all histories of retained publications, clears, lifetimes and time up to a depth; all interleavings with a joining subscriber and with expiry cleanup",
 "The tests retain one value and read it back; they do not combine overwrite, clear, lifetime, wildcards and concurrency.",
 [PS+"manager.rs", PS+"domain/radix_tree.rs", PS+"domain/retained.rs"], [("retained values in the topic tree", PS+"domain/radix_tree.rs")], ["retained values"], ["subscribe, scan_topics"])
prop("P04", "Retained values survive crashes and restarts exactly",
 "After a restart the retained values are those of one moment between the last completed flush period and the crash, each with its topic, bytes and remaining lifetime; cleared and expired values stay gone. A storage failure at startup or during a flush neither disturbs the running service nor loses the values once storage works again.",
 ["crash_points", "fault_sequences", "inputs", "histories"], "every storage operation (and torn last write) of every short history as crash point; every storage operation of startup and of a flush failing; topics and lifetimes of every shape",
 "The tests restart once after a clean flush.",
 [PS+"domain/persistence.rs", PS+"manager.rs", PS+"domain/retained.rs"], [("retained flush and load", PS+"domain/persistence.rs")], ["retained.db"], ["subscribe after restart"])
prop("Q01", "Queue messages go to one consumer at a time, by priority then FIFO, none lost",
 "A pop hands out an available message of the highest priority, oldest first, and until its visibility timeout ends or it is nacked no other pop returns it. Under any concurrency of producers and consumers every pushed message is at any moment in exactly one place - available, held by one consumer, dead-lettered or acknowledged - with its payload and priority unchanged and no message duplicated.",
 ["schedules", "histories"], "all operation histories up to a depth; all interleavings of concurrent producers, consumers and the timeout task",
 "The tests pop sequentially or count totals under load; they do not enumerate interleavings.",
 [QU+"domain/queue.rs", QU+"manager.rs"], [("ready/in-flight state", QU+"domain/queue.rs"), ("lock and waiter handling", QU+"manager.rs")], ["priority lists", "in-flight set"], ["push/pop/consume_batch/ack/nack/snapshot"])
prop("Q02", "Retries, visibility timeouts and the dead-letter queue follow one state machine",
 "A message neither acknowledged nor nacked within its visibility timeout becomes available again with its attempt count kept; when its deliveries have reached the allowed number, a nack or timeout moves it to the dead-letter queue with its payload, attempts and reason instead of making it available. An acknowledged message is gone for good, a nacked one is available again at once, acks and nacks of messages no longer in the queue are reported as having no effect, and dead-letter peek, move back (attempts reset), delete and purge act on exactly the messages they name.",
 ["histories", "schedules"], "all histories of push, pop, ack, nack, time and dead-letter operations up to a depth against a reference state machine; interleavings with the timeout task",
 "The tests follow a few scripted paths with real sleeps.",
 [QU+"domain/queue.rs", QU+"domain/dlq.rs", QU+"manager.rs"], [("retry and dead-letter transitions", QU+"domain/queue.rs"), ("dead-letter queue", QU+"domain/dlq.rs")], ["attempts", "visibility deadline", "dead letters"], ["pop/ack/nack/peek_dlq/move_to_queue/delete_dlq/purge_dlq"])
prop("Q03", "Queue state survives crashes: nothing acked returns, nothing pushed vanishes",
 "After a crash at any point the queue restarts with the state of some moment between the last completed flush period and the crash: every message pushed before that moment and not acknowledged is there with payload, priority and attempts, in the queue (in order; one handed out before may have moved) or the dead-letter queue, and none twice. This holds for every interleaving of the operations that were persisted, and a storage failure never leaves the stored state inconsistent.",
 ["crash_points", "schedules", "fault_sequences", "histories"], "every storage operation and torn write as crash point of every short history; interleavings of concurrent operations followed by a restart",
 "The tests restart cleanly after sleeping; they never crash between storage operations or check concurrent persistence order.",
 [QU+"domain/persistence.rs", QU+"manager.rs", QU+"domain/queue.rs"], [("write-ahead operations to SQLite", QU+"domain/persistence.rs")], ["queue database"], ["pop/peek_dlq after restart"])
prop("Q04", "Waiting consumers are woken by available messages and never hang",
 "A consumer waiting for messages gets one as soon as one is available to it - pushed, timed out, nacked or moved back from the dead-letter queue - and otherwise returns empty after its wait time; no available message stays undelivered while a consumer waits. A batch holds at most the requested number of distinct messages, in queue order, and a consumer that gives up or is cancelled while waiting loses no message.",
 ["schedules", "inputs"], "all interleavings of waiting consumers, producers, timeouts and cancellation; batch sizes and waits of every magnitude",
 "The tests have one waiter and one producer with sleeps between; lost wakeups need particular interleavings.",
 [QU+"manager.rs", QU+"domain/queue.rs"], [("waiters and notification", QU+"domain/queue.rs"), ("long polling", QU+"manager.rs")], ["waiter list"], ["pop, consume_batch"])
prop("Q05", "Creating, deleting and restarting queues is atomic and isolated per queue",
 "A created queue exists (also after a restart, under its name and with its settings) until deleted; a deleted queue is gone with all messages and files, and creating it again starts empty and durable. Creating an existing queue changes nothing, operations on missing queues are refused, and no operation on one queue affects another, for all names and all interleavings of creation, deletion and use.",
 ["schedules", "histories", "inputs"], "all interleavings of create, delete, push and restart; names of every shape",
 "The tests create and delete sequentially with plain names.",
 [QU+"manager.rs", QU+"domain/persistence.rs"], [("queue registry", QU+"manager.rs")], ["queue registry", "files"], ["create_queue/delete_queue/exists/restart"])
prop("Q06", "A failing storage operation loses nothing of a queue and revives nothing",
 "When opening, creating, reading or writing (even half way) a file of a queue fails, the running server serves the queue undisturbed, and once storage works again everything is stored, so that a restart finds exactly the queue's messages and dead letters. A queue whose files cannot be read when the server starts is served completely, with its settings, or not at all, never as if empty, and nothing of it is lost or replaced; a deletion that failed is reported and can be repeated, and one that succeeded stays.",
 ["fault_sequences", "histories"], "every storage operation of creation, use, flush, startup and deletion failing (writes also half way), followed by a restart",
 "The tests never make a storage operation fail.",
 [QU+"domain/persistence.rs", QU+"manager.rs"], [("writer", QU+"domain/persistence.rs"), ("warm start, deletion", QU+"manager.rs")], ["database files", "unflushed operations"], ["push/pop/ack/create/delete/restart"])
prop("T01", "A stream is a dense, immutable, totally ordered log",
 "Published messages get consecutive sequence numbers without gaps or repeats under any concurrency, in the real-time order of the publishes, and every read from any position returns exactly the published messages from there on, in order, with their bytes and timestamps unchanged - whether they are still in memory, already evicted to disk, or spread over several files.",
 ["schedules", "histories", "inputs"], "all histories of publish, flush, eviction, rollover and reads up to a depth; all interleavings of publishers, readers and the writer",
 "The tests read back one small log; they do not vary the boundary between memory, disk and files.",
 [SR+"domain/topic.rs", SR+"domain/persistence.rs", SR+"manager.rs"], [("in-memory window", SR+"domain/topic.rs"), ("segment files", SR+"domain/persistence.rs")], ["sequence counter", "segments"], ["publish, read"])
prop("T02", "A stream log recovers from any crash as an intact prefix, never reusing numbers",
 "After a crash at any point - including torn writes - the log holds an intact prefix of what was published that includes everything flushed, every record byte for byte as written; new messages continue after it, stay readable, and survive further crashes. Sequence numbers that readers could have seen as persisted are never assigned to other messages.",
 ["crash_points", "histories", "schedules"], "every storage operation and every torn write of short histories as crash point, followed by more publishing and a second restart",
 "The tests restart cleanly; they never tear a write or crash around a file rollover.",
 [SR+"domain/persistence.rs", SR+"manager.rs"], [("record format and recovery", SR+"domain/persistence.rs")], ["segment files"], ["read/publish after restart"])
prop("T03", "A group delivers each message to one member, in order, until acknowledged",
 "Within a group every message is handed to exactly one consumer at a time, new messages in log order and at most the configured number unacknowledged; what is not acknowledged within the ack wait, or whose consumer leaves, is delivered again, and after the allowed deliveries it is parked and delivered no more. Acknowledged messages are never delivered again, none is skipped, and groups are independent of each other.",
 ["schedules", "histories"], "all histories of join, fetch, ack, leave, time up to a depth against a reference; all interleavings of concurrent consumers",
 "The tests script single consumers; interleavings of several members, timeouts and acks are not enumerated.",
 [SR+"domain/group.rs", SR+"manager.rs"], [("group delivery state", SR+"domain/group.rs")], ["pending set", "acknowledged floor", "parked set"], ["fetch/ack/get_snapshot"])
prop("T04", "A consumer group resumes after restart without losing or repeating too much",
 "After a restart or crash at any point a group continues so that no message it had neither acknowledged nor parked is skipped, and messages acknowledged without a gap up to its position in the last completed save (positions are saved periodically) are not delivered again; the position never lies outside the log. Groups present in the last completed save still exist, under any group name that join accepts.",
 ["crash_points", "histories"], "every storage operation and torn write of short group histories as crash point",
 "The tests restart once after a clean shutdown.",
 [SR+"domain/persistence.rs", SR+"domain/group.rs", SR+"manager.rs"], [("saved group positions", SR+"domain/persistence.rs")], ["saved positions"], ["fetch after restart"])
prop("T05", "Seek, membership and fencing keep a group consistent",
 "After a seek to the beginning or the end the group delivers exactly the messages from there on, and no delivery, acknowledgement or redelivery from before the seek affects it: requests of the old epoch are refused. Members that left or disconnected are refused, their messages go to the others at once, and joining or leaving never disturbs what other members hold.",
 ["schedules", "histories"], "all interleavings of seek, fetch, ack, join, leave, disconnect; all histories up to a depth",
 "The tests seek once with an idle group.",
 [SR+"domain/group.rs", SR+"manager.rs"], [("generation fencing", SR+"domain/group.rs")], ["generation", "members"], ["seek/join_group/leave_group/disconnect/fetch/ack"])
prop("T06", "Retention removes only whole old prefixes and nothing else",
 "When a stream exceeds its size or age limit only its oldest messages disappear, always a prefix: the remaining log stays dense, readable and appendable, numbering continues also across restarts, the newest file always stays, and messages within the limits are kept. Consumer groups positioned before the remaining log continue at its start.",
 ["histories", "crash_points", "configurations"], "all histories of publish, time and retention with small limits; crash points during removal",
 "The tests check that a file disappears, not what remains readable, nor crashes during removal.",
 [SR+"domain/persistence.rs", SR+"manager.rs"], [("retention", SR+"domain/persistence.rs")], ["segments"], ["read, fetch, snapshot after retention"])
prop("T07", "Waiting stream consumers are woken by new messages and never hang",
 "A fetch that waits returns as soon as a message is available to its consumer - published, timed out (noticed within the sweep interval), released by a departing member, or freed capacity - and otherwise stays until its deadline and then returns empty; only a change of the group's membership or position may end it early, empty or refused, and repeating it then gets what is available. No available message stays undelivered while a consumer with capacity waits. A fetch that is cancelled at any point, even while reading from disk, loses no message and does not block later fetches.",
 ["schedules"], "all interleavings of waiting fetches, publishers, acks, timeouts, leaves and cancellations",
 "The tests wait once for one publish.",
 [SR+"manager.rs", SR+"domain/group.rs"], [("long polling", SR+"manager.rs")], ["waiting fetches"], ["fetch"])
prop("T08", "Creating, deleting and restarting streams is atomic and isolated per stream",
 "A created stream exists (also after a restart, with its settings) until deleted; a deleted stream is gone with messages, groups and files, fetches waiting on it end by their deadline, and creating it again starts empty and durable. Creating an existing stream changes nothing, operations on missing streams are refused, and no operation on one stream affects another, for all interleavings of creation, deletion and use.",
 ["schedules", "histories"], "all interleavings of create, delete, publish, fetch and restart",
 "The tests create and delete sequentially.",
 [SR+"manager.rs", SR+"domain/persistence.rs"], [("stream registry", SR+"manager.rs")], ["stream registry", "files"], ["create_topic/delete_topic/exists/restart"])
prop("T09", "A failing storage operation leaves no hole in a stream and loses nothing stored",
 "When opening, creating, reading, writing (even half way), cutting, renaming or removing a file of a stream fails, the running server still serves every published message in order - a reader of messages on disk may get fewer, never a later one in place of an earlier - and once storage works again everything published and every consumer position is stored, so that a restart loses nothing. A crash before that leaves a log without gaps and with all that was stored earlier, and files that cannot be removed leave a contiguous log. A stream whose files cannot be read when the server starts is served completely or not at all, never as if empty and without losing anything; a deletion that failed is reported and can be repeated.",
 ["fault_sequences", "crash_points", "histories"], "every storage operation of every short history of publishes, reads, retention, position saves, deletion and startup failing (writes also half way), followed by every crash point",
 "The tests never make a storage operation fail.",
 [SR+"domain/persistence.rs", SR+"manager.rs"], [("storage manager", SR+"domain/persistence.rs"), ("recovery", SR+"domain/persistence.rs")], ["segment files", "groups.log", "unflushed messages"], ["publish/read/fetch/restart"])
prop("W01", "Frames are decoded the same however the bytes arrive",
 "A byte stream of frames is decoded into the same requests for every way of splitting it into reads, and what is encoded decodes to itself; frames that are oversized or malformed are rejected without affecting other connections and without waiting for or buffering the announced bytes.",
 ["inputs"], "all splits of short frame sequences, every header field value class, every truncation",
 "The tests send whole frames.",
 [TR+"tcp/protocol/codec.rs", TR+"tcp/protocol/frame.rs", TR+"tcp/protocol/cursor.rs"], [("frame codec", TR+"tcp/protocol/codec.rs")], ["read buffer"], ["responses on the wire"])
prop("W02", "Every request gets exactly one response carrying its id, whatever it contains",
 "On an open connection every request frame is answered exactly once with its own id - a result or an error - no matter how many requests are in flight, how they interleave with pushes, or how malformed, truncated, oversized or unknown the payload is. No request content can crash, hang or corrupt the server or disturb other requests or connections.",
 ["inputs", "schedules"], "all opcodes with all truncations and extreme field values; all interleavings of pipelined requests and pushes",
 "The repository has no test of the wire protocol.",
 [TR+"tcp/connection.rs", TR+"tcp/dispatcher.rs", QU+"tcp.rs", SR+"tcp.rs", PS+"tcp.rs", ST+"tcp.rs"], [("connection loop", TR+"tcp/connection.rs"), ("dispatch", TR+"tcp/dispatcher.rs")], ["in-flight requests"], ["bytes on the socket"])
prop("W03", "Closing a connection in any way cleans up everything it held",
 "However a connection ends - orderly close, half close, protocol error, I/O error, with requests or waits in flight or output blocked - the server drops its subscriptions and stream memberships, cancels its waiting requests without losing messages, and ends the connection's tasks. Its undelivered stream messages become available to other members at once, and other connections are unaffected.",
 ["schedules", "fault_sequences"], "every way and moment of ending a connection, interleaved with its requests in flight",
 "The repository has no test of connection handling.",
 [TR+"tcp/connection.rs"], [("connection teardown", TR+"tcp/connection.rs")], ["per-connection registrations"], ["listings and deliveries after the end"])
prop("W04", "Names are data: no queue or stream name reaches outside its own storage",
 "Whatever name a client supplies for a queue or stream - empty, dots, slashes, absolute, very long, odd characters - the server never creates, changes or removes anything outside that broker's storage directory or inside another name's storage. A name is either refused or works like any other, including across restart and deletion.",
 ["inputs"], "all names over a hostile alphabet up to a length, in pairs with ordinary names",
 "The tests use plain names only.",
 [QU+"manager.rs", SR+"manager.rs", SR+"domain/persistence.rs"], [("name to path mapping", SR+"domain/persistence.rs")], ["storage directories"], ["file-system effects"])
prop("W05", "The dashboard API agrees with the brokers and changes nothing",
 "Every dashboard endpoint, for any query, answers with the data the brokers actually hold at that moment - counts, messages, pages, groups, retained values - and reading it never changes what clients observe. Extreme or malformed queries are answered without a crash.",
 ["inputs", "histories"], "all histories up to a depth with every endpoint queried after each step; all combinations of extreme paging parameters",
 "The repository has no test of the HTTP API.",
 [TR+"http/router.rs", QU+"http.rs", SR+"http.rs", PS+"http.rs", ST+"http.rs"], [("HTTP routes", TR+"http/router.rs")], ["none of its own"], ["HTTP responses, broker state afterwards"])
prop("W06", "A request does what its opcode says, and its answer says what happened",
 "Every request over the wire acts on exactly the queue, stream, group, member, key, topic and message it names, with the options it gives and the documented defaults for those it omits, and its answer - and every push it causes - carries the operation's real outcome, unchanged and on the connection it belongs to. A waiting request is answered when the operation it asks for completes.",
 ["inputs", "histories"], "all histories of requests up to a depth over two connections, compared answer by answer with the same operations performed directly",
 "The repository has no test of the wire protocol's requests.",
 [TR+"tcp/dispatcher.rs", QU+"tcp.rs", SR+"tcp.rs", PS+"tcp.rs", ST+"tcp.rs", QU+"options.rs", SR+"options.rs"], [("request handlers", TR+"tcp/dispatcher.rs")], ["none of its own"], ["responses and pushes on the socket"])

prop("R01", "What is over leaves nothing behind in the running server",
 "Whatever clients begin and end - connections however they close, subscriptions, topics, keys, retained values, messages, queues, streams, memberships, waits, requests that are refused - the server's memory, tasks and open files return to what they were, however often it is done, under the same or new names, alone or beside anything else. Messages kept only on disk take no memory, and no more log files are open than configured.",
 ["histories", "inputs"], "everything that can be begun and ended, alone and in every pair and nesting, repeated with the same and with new names, measured after it has settled",
 "The tests look at results of single operations; none repeats anything and none measures memory, tasks or files.",
 [TR+"tcp/connection.rs", SR+"manager.rs", SR+"domain/persistence.rs", SR+"domain/group.rs", QU+"domain/queue.rs", PS+"domain/radix_tree.rs", ST+"domain/map.rs"], [("end of a connection", TR+"tcp/connection.rs"), ("topic tree pruning", PS+"domain/radix_tree.rs"), ("open log files", SR+"domain/persistence.rs")], ["heap, tasks and file descriptors of the process"], ["live allocations, live tasks, open files"])
prop("R02", "What the server does by the clock happens on time however busy it is",
 "Flushing, saving positions, returning unacknowledged messages, dead-lettering, ending waits, expiry, retention and eviction each happen within their configured period (two for what is stored), however many requests of whatever kind clients send meanwhile and at whatever rate.",
 ["histories", "schedules"], "every clock-driven effect beside every kind of traffic at several rates relative to the periods",
 "The tests do one thing and then wait in silence; a timer that traffic resets, or a loop that traffic starves, passes all of them.",
 [SR+"manager.rs", SR+"domain/persistence.rs", QU+"manager.rs", QU+"domain/persistence.rs", PS+"manager.rs", ST+"domain/map.rs"], [("storage actor's flush timer", SR+"domain/persistence.rs"), ("queue writer's flush timer", QU+"domain/persistence.rs"), ("background tasks", SR+"manager.rs")], ["timers"], ["files and answers at the end of the period, in virtual time"])

CL = "sdk/ts/src/"
prop("C01", "Values and arguments cross between client library and server unchanged",
 "Whatever an application hands to the client library - any text, bytes or JSON value of any size, any name, any option - reaches the server as exactly one well-formed request that says precisely that, and a stored value comes back equal; what cannot be expressed is refused and nothing of it is sent. This holds however many requests the client has made before, and no bytes handed to the socket change afterwards.",
 ["inputs", "histories"], "all pairs of operations at every boundary of the request number, all value kinds under unusual names, all sizes around the buffer boundaries",
 "The library's tests need a live server, send a few plain values and never a client that lived long.",
 [CL+"codec.ts", CL+"connection.ts", CL+"brokers/store.ts", CL+"brokers/queue.ts", CL+"brokers/pubsub.ts", CL+"brokers/stream.ts"], [("frame writer and value codec", CL+"codec.ts")], ["write buffer", "request number"], ["bytes on the socket, results of calls"])
prop("C02", "Every client call ends exactly once, with its own answer or an error",
 "A call of the client library gets the answer the server gave to that very call - result or refusal - whatever the order in which answers arrive and however they are cut into pieces. It fails when no answer comes within the time allowed, when the connection is lost, when the client is disconnected and at once when there is no connection; it never hangs, and stray, repeated or late frames never affect another call.",
 ["histories", "fault_sequences", "inputs"], "all histories of calls, answers, partial answers, stray frames, breaks, time and disconnection up to a depth; all ways to cut a stream of answers",
 "The library's tests answer promptly, whole and in order, over a connection that stays.",
 [CL+"connection.ts"], [("request table, frame reassembly and timeouts", CL+"connection.ts")], ["pending requests", "receive buffer"], ["results of calls"])
prop("C03", "The client stays connected until told not to, and then lets go",
 "Once connected, the client reconnects after every loss, by one connection at a time, and restores each subscription the application has and no other. After disconnect(), or when the first connection fails and the application has been told, it never dials again, holds no connection and keeps no timer that would keep the process alive.",
 ["histories", "fault_sequences"], "all histories of dials that succeed or fail, losses, delays, subscriptions, a silent server and disconnection up to a depth",
 "The library's tests break the connection once, while idle.",
 [CL+"connection.ts", CL+"client.ts", CL+"brokers/pubsub.ts"], [("reconnection loop", CL+"connection.ts"), ("subscriptions restored", CL+"brokers/pubsub.ts")], ["connection state", "subscriptions"], ["dials, requests after a reconnection"])
prop("C04", "Each push runs exactly the handlers it is for; nothing received does harm",
 "A message pushed to the client runs, once and in order of arrival, the handler of every subscription whose pattern matches its topic as the server matches it, and no other, also when another handler throws. Subscribing twice is refused, a refused subscription leaves no handler, and an ended one never runs again; a malformed, truncated or unknown frame fails at most the call it answers and never disturbs what follows nor ends the process.",
 ["inputs", "histories"], "all patterns and topics over a small alphabet up to three levels; all subscription histories up to a depth; every truncation and oddity of frames",
 "The library's tests use a few patterns and a server that never misbehaves.",
 [CL+"brokers/pubsub.ts", CL+"connection.ts", CL+"codec.ts"], [("topic matching and handlers", CL+"brokers/pubsub.ts"), ("frame handling", CL+"connection.ts")], ["handler table"], ["handler runs"])
prop("C05", "A queue consumer settles each message by its callback's outcome and never stalls",
 "The callback runs once per delivery, no more at a time than allowed; the message is acknowledged exactly when it succeeded and rejected with its reason when it failed, and nothing handed to the client is dropped unsettled while connected, whenever it arrives and whatever lies beside it in the batch. The consumer carries on after refusals, timeouts and reconnections, only one can be subscribed per queue and client, and after stop() or disconnect() it ends for good.",
 ["histories", "fault_sequences", "inputs"], "all histories of messages (good, failing, slow, unreadable), answers, refusals, losses, idle times, stop and disconnection up to a depth",
 "The library's tests need a live server and follow single scenarios without faults.",
 [CL+"brokers/queue.ts", CL+"utils/concurrent.ts"], [("consumer loop", CL+"brokers/queue.ts"), ("bounded concurrency", CL+"utils/concurrent.ts")], ["subscription state"], ["callback runs, acknowledgements on the wire"])
prop("C06", "A stream consumer processes its group's records and leaves when stopped",
 "The callback runs once per delivery, no more at a time than allowed; exactly the successful ones are acknowledged, with the membership they were delivered under. The consumer rejoins whenever its membership or connection is lost and misses nothing, an unreadable record costs no other, and after stop() it holds no place in the group and asks for nothing, however stop() falls; after disconnect() it ends for good.",
 ["histories", "fault_sequences", "inputs"], "all histories of records (good, failing, slow, unreadable), rewinds, refusals, losses, slow joins, stop and disconnection up to a depth",
 "The library's tests need a live server and follow single scenarios without faults.",
 [CL+"brokers/stream.ts", CL+"utils/concurrent.ts"], [("consumer loop and membership", CL+"brokers/stream.ts")], ["membership"], ["callback runs, requests on the wire"])

TECH = {
 "C": "stateless model checking of the real client library: exhaustive histories of application calls, server answers, faults and time over simulated sockets, timers and server, against a reference model",
 "S": "stateless model checking of the real code: exhaustive delay-bounded schedules and operation histories, linearizability oracle",
 "P": "stateless model checking of the real code: exhaustive histories, delay-bounded schedules and crash points against a reference model",
 "Q": "stateless model checking of the real code: exhaustive histories, delay-bounded schedules and crash points against a reference model",
 "T": "stateless model checking of the real code: exhaustive histories, delay-bounded schedules and crash points against a reference model",
 "R": "stateless model checking of the real server: every unit of use alone and in every pair and nesting, beside every kind of traffic, in virtual time, with allocations, tasks and files counted",
 "W": "stateless model checking of the real connection and HTTP code: exhaustive inputs, splits and delay-bounded schedules on simulated sockets",
}
NOTE = "Every execution is of the repository's own sources, compiled against substitutes of tokio, std::sync, dashmap and parking_lot that hand all scheduling, time, randomness and storage to the explorer; all executions within the bounds reported in the evidence are run. Assumes sequentially consistent memory, the substitutes' fidelity, and the bounds (number of operations, deviations from the default schedule, small values)."
CNOTE = "Every execution is of the repository's own client library, bundled unmodified from sdk/ts/src and run with substituted sockets, timers and clock; every sequence of choices (application calls, server behaviour, network faults, time) within the bounds reported in the evidence is run. Assumes Node's event order as substituted and the bounds; the simulated server speaks the formats W06 establishes for the real one."
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
man = {"version": 1, "setup_cmd": "./check.sh --setup",
 "hooks": {"guard": "none: the sources are compiled unmodified against substitute crates (see mc/nexo/Cargo.toml)", "enable": "nothing to enable", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "All checks share one explorer (mc/mcrt); fixes of genuine defects are listed in known_findings.txt and DESIGN.md."}
for p in P:
    i = p["id"]
    if i in CLAIMED:
        man["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": TECH[i[0]], "level": "model_checking", "level_note": CNOTE if i[0] == "C" else NOTE, "evidence_file": f"evidence/{i}.json"})
    else:
        man["not_applicable"].append({"property": i, "reason": "check not built yet"})
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
import re
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert len(re.findall(r"[.](?:\s|$)", p["statement"])) <= 3, p["id"]
    for f in p["anchors"]["files"]: assert os.path.exists("/repo/" + f), f
