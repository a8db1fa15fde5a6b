#!/usr/bin/env python3
# Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both.
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "streams/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, tech=tech, note=note))

NOKAFKA = "The stable tests run without a Kafka cluster, so this code is never executed by them; "

prop("C01", "A transaction commits only finished, flushed and error-free work",
 "A producer transaction is ended with a commit only after every event and interjection added to it has been completed by the application, all records produced in it (including those still buffered) were handed to the transactional client and flushed, and no flush or produce error is outstanding, unless the application's transaction error handler answered that error with Continue. When waiting for an event times out, or flushing or ending the transaction fails, the error is reported, the transaction is not committed and its producer is never reused. A transaction in which nothing was produced is aborted instead of committed, and work is never added to a transaction while it is being committed.",
 ["schedules","fault_sequences","crash_points"],
 "all interleavings of partition workers, the forwarding loop and the commit loop, and any fault in producing, flushing or ending a transaction",
 NOKAFKA+"even with a broker a test samples a few schedules and no broker faults.",
 [S+"eos_producer.go",S+"event_context.go"],
 [("producerNode.commit/finalizeEventContexts",S+"eos_producer.go"),("EventContext.complete",S+"event_context.go")],
 "path-sensitive typestate analysis of the commit path (SSA, virtually inlined)",
 "all inlined control-flow paths of the commit routine; the Kafka client's own behaviour is assumed")

prop("C02", "Each transaction records the next offset of every partition it covers",
 "For every source partition with at least one real event in a transaction, exactly one commit log record is produced in that same transaction by the same producer, and its value is one more than the offset of the newest event of that partition in the transaction. Interjections never contribute an offset and never hide the offset of an event. The record identifies the source partition in its key and is always stored in the commit log partition derived from the source partition, and readers decode exactly what writers encode.",
 ["histories","inputs"],
 "all sequences of events and interjections over any set of partitions",
 NOKAFKA+"a unit test would sample a handful of event and interjection orders.",
 [S+"eos_producer.go",S+"commit_log.go",S+"event_context.go"],
 [("finalizeEventContexts, addEventContext list order",S+"eos_producer.go"),("eosCommitLog.commitRecord",S+"commit_log.go")],
 "typestate over the inlined finalisation loop, canonical value expressions for key, value and partition",
 "exact value and routing expressions; list construction order and traversal direction are checked together")

prop("C03", "A partition resumes exactly at its last committed position",
 "When a partition is assigned, its starting position is the one most recently recorded in the commit log for that partition, read only after the local copy of the commit log caught up with a marker this consumer itself wrote to the matching commit log partition. Records below that position are skipped and records at or above it are processed; without any recorded position everything is processed. Markers never change a recorded position and recorded positions never release a waiter that is not theirs.",
 ["histories","crash_points"],
 "all assignment histories and commit log contents",
 NOKAFKA+"it depends on commit log contents left behind by other processes.",
 [S+"commit_log.go",S+"partition_worker.go",S+"source_consumer.go"],
 [("lastProcessed, syncCommitLogPartition, ReceiveChange, Watermark",S+"commit_log.go"),("scheduleTxnAndExecution offset filter",S+"partition_worker.go"),("adjustOffsetsBeforeAssign",S+"source_consumer.go")],
 "must-precede path analysis, exact guard (truth table) analysis, canonical values",
 "all paths of assignment, filtering and commit log consumption")

prop("C04", "State is fully restored before a partition processes events",
 "No event or interjection of a partition is processed, and the partition is not reported as activated, before its state store has received every change log record up to a marker written after the assignment (or preparation) began. While restoring, fetching of the source partition is paused, and it is resumed only afterwards. Change log records are replayed in order by a single goroutine, markers are never delivered to the application's store, a prepared store keeps following the change log until the final synchronisation, and after it no further change log record is delivered.",
 ["schedules","histories"],
 "all change log contents and all timings of assignment, preparation and marker delivery",
 NOKAFKA+"restoring races with assignment and with other consumers' writes.",
 [S+"partition_worker.go",S+"state_store_consumer.go",S+"source_consumer.go"],
 [("partitionWorker.work",S+"partition_worker.go"),("stateStorePartition.prep/sync/isCompletionMarker/populate",S+"state_store_consumer.go"),("assignPartitions, PrepareTopicPartition",S+"source_consumer.go")],
 "must-precede path analysis, state machine extraction, goroutine confinement",
 "all inlined paths; broker ordering of a single partition is assumed")

prop("C05", "Changes go to the right change log partition and store",
 "Every recorded change is produced transactionally to the consumer's state store topic, on exactly the partition of the event which caused it, whatever topic or partition the entry carried. All events and interjections of an assigned partition see one and the same store instance, which is the one that was restored; a prepared store becomes the assigned one. A revoked partition's store is told so exactly once, is forgotten, and a later assignment starts from a new empty store.",
 ["histories","inputs"],
 "all assignment/revocation histories and all change log entries",
 NOKAFKA+"tests use mock event contexts and never revoke a partition.",
 [S+"event_context.go",S+"partitioned_store.go",S+"source_consumer.go"],
 [("EventContext.RecordChange",S+"event_context.go"),("partitionedChangeLog.assign/revoke",S+"partitioned_store.go"),("revokePartitions",S+"source_consumer.go")],
 "canonical value flow of store, topic and partition; must-precede/exactly-once path analysis",
 "all paths; what the application does inside its store is out of scope")

prop("C06", "Records of a partition are produced in order across open transactions",
 "At any time at most one of the concurrently open transactions produces records on behalf of a given source partition; the others buffer theirs. When the owning transaction is committed, ownership passes to the next transaction, in the order in which transactions accepted events, that has events of this partition, and its buffered records are produced, in order and once, before anything newer; if there is none, ownership is released. Every buffered record is produced, at the latest when its own transaction is committed. Once a record was acknowledged or failed, its callback, if it has one, runs exactly once, with the record as it was produced and its own error.",
 ["schedules"],
 "all interleavings of partition workers and commits over any number of open transactions",
 NOKAFKA+"the hand-off is a narrow window between concurrent producers.",
 [S+"eos_producer.go"],
 [("relinquishOwnership, flushPartition, flushRemaining, ProduceRecord",S+"eos_producer.go"),("partitionOwners",S+"eos_producer.go")],
 "lockset and must-precede typestate over the hand-off, ring construction and traversal extraction",
 "all inlined paths of produce, forward and hand-off")

prop("C07", "Events of a partition are processed in order by one goroutine",
 "The application's processor is invoked for the events of one partition one at a time, by a single goroutine, in the order in which they were fetched. An event is handed to the processor only after it became part of an open transaction, events join transactions in that same order, and the event's transaction stays the one it was added to. An event whose partition was revoked before joining a transaction is never processed.",
 ["schedules"],
 "all interleavings of fetching, forwarding, async completion and revocation",
 NOKAFKA+"ordering across goroutines cannot be settled by sampled runs.",
 [S+"partition_worker.go",S+"eos_producer.go",S+"source_consumer.go"],
 [("work/pushRecords/scheduleTxnAndExecution/assignProducer",S+"partition_worker.go"),("doForwardExecutionContexts",S+"eos_producer.go")],
 "goroutine confinement, must-precede path analysis, channel discipline",
 "all call sites and paths that reach the processor")

prop("C08", "Shutting down a partition waits for all of its accepted events",
 "After a partition is revoked its worker stops only once every event and interjection that was accepted has either been rejected or had its transaction committed; each of them is counted exactly once when accepted and discounted exactly once. The worker keeps executing events and completions until then, closes its inputs only after it has stopped, and tolerates producers, completions and the consumer still trying to hand it work without panicking or blocking forever.",
 ["schedules"],
 "all interleavings of revocation with fetching, processing, interjecting and committing",
 NOKAFKA+"unbalanced accounting only shows as a hang or panic in rare schedules.",
 [S+"partition_worker.go",S+"eos_producer.go"],
 [("revocationWaiter Add/Done",S+"partition_worker.go, eos_producer.go"),("pushRecords, waitForRevocation",S+"partition_worker.go")],
 "resource-pairing path analysis of counter increments and decrements; close/send discipline",
 "every path of the accepting, rejecting and committing routines")

prop("C09", "The number of in-flight events per partition is bounded and never leaks",
 "Before an event or interjection is offered to a transaction one slot of the partition's bounded in-flight budget is taken, and it is given back exactly once: when the event completes synchronously, when its asynchronous completion reports Complete, or when it is rejected because of a revocation. An event that is still incomplete keeps its slot. The budget equals the maximum batch size times the number of pooled transactions.",
 ["schedules","histories"],
 "all sequences of synchronous, asynchronous, incomplete and rejected events",
 NOKAFKA+"a leaked slot only shows after thousands of events.",
 [S+"partition_worker.go",S+"eos_producer.go"],
 [("maxPending",S+"partition_worker.go")],
 "resource-pairing path analysis",
 "every path of scheduling, processing and completion")

prop("C10", "Async completions run on the partition's goroutine and cannot deadlock",
 "The finalizer of an asynchronous job is invoked exactly once per completed job, on the goroutine that processes the partition's events, so it never runs concurrently with a processor or interjector of that partition. The event is marked complete only when a processor, interjector or finalizer reports Complete, and exactly once for that report; any other result leaves it open. While the worker waits for a transaction for its next event it keeps executing completions.",
 ["schedules"],
 "all interleavings of completions, events and transaction availability",
 NOKAFKA+"a deadlock between the worker and the producer pool needs a full pool.",
 [S+"partition_worker.go",S+"event_context.go"],
 [("processAsyncJob, assignProducer, forwardToEventSource, handleInterjection",S+"partition_worker.go")],
 "goroutine confinement and exact-guard path analysis",
 "all paths of the worker goroutine")

prop("C11", "Keyed async jobs run one at a time, in order, and none is lost",
 "For every key at most one scheduled job is being processed at any time, and jobs of a key are processed in the order in which they were scheduled. Every job accepted while the scheduler is running is processed exactly once, with the key and value it was scheduled with, followed by exactly one completion carrying its result; a key's queue is retired only when nothing is pending for it. At most the configured number of keys is active at a time, a key which becomes active gets a queue of the configured depth, whatever that is, resizing loses nothing, and once the scheduler is halted nothing is reported as complete and no caller stays blocked.",
 ["schedules","configurations"],
 "all interleavings of scheduling, processing, resizing and halting, for any configuration",
 "the existing tests run one scheduler configuration for a second and never resize or halt it under load.",
 [S+"async_scheduler.go",S+"async_item_queue.go"],
 [("scheduleItem/grabWorker/releaseWorker/enqueueWorker",S+"async_scheduler.go"),("asyncItemQueue",S+"async_item_queue.go")],
 "lockset and must-precede typestate over schedule/process/release; queue operation contracts",
 "all paths; fairness of the Go scheduler is assumed")

prop("C12", "Batched items respect keys and limits and each completes exactly once",
 "The batch executor is never invoked with more than the configured number of items, with no items, or by more than the configured number of batches at once, and a key that is in an executing batch is not added to another one before it finished. Every item added is executed exactly once, and empty batches are never dropped: the callback of a batch is invoked exactly once, through the asynchronous completion of its event, after its last item was executed and in the order of arrival. A batch is started when it is full or when its delay has elapsed, and not by the delay of an earlier batch. Items that have to wait are started when a batch finishes, in order of arrival per key.",
 ["schedules","inputs"],
 "all interleavings of adding, timer flushes and batch completion, and any mix of keys and empty batches",
 "the existing tests add a few keys and wait for one callback.",
 [S+"async_batcher.go"],
 [("asyncExecutorFor/addToExecutor/conditionallyExecuteBatch/executeBatch/flushPendingItems",S+"async_batcher.go")],
 "lockset analysis plus typestate and exact-guard analysis of the batch state machine",
 "all paths of adding, timer flush and batch completion")

prop("C13", "Non-transactional producers report every record exactly once",
 "A batch produced outside of the transaction completes its event only after every record of the batch was acknowledged or failed, each record carries its own error, and the callback runs exactly once through the asynchronous completion of the event; a batch without records completes immediately with the callback's answer. Records are returned to the pool only after the callback returned. Records without a topic go to the destination's default topic, others keep theirs, and the blocking producer returns the error of its own record only after it was acknowledged. A producer writes to the cluster of the destination it was made for, and the destination of a source is that source's topic on its cluster.",
 ["schedules","inputs","fault_sequences"],
 "all batches (including empty ones), callback presence and produce failures",
 NOKAFKA+"the failure and empty batch paths need a broker.",
 [S+"producer.go"],
 [("BatchProducer.Produce, produceBatcher",S+"producer.go"),("Producer.Produce/ProduceAsync",S+"producer.go")],
 "must-precede path analysis and value flow of per-record callbacks",
 "all paths; the client invokes each promise once (assumed)")

prop("C14", "Interjections run inside transactions and callers always get an answer",
 "An interjection is executed on the partition's goroutine, as part of a transaction, with the partition's store, and only while the partition is assigned and active. The channel returned for a one-off interjection always receives ErrPartitionNotAssigned or is closed after the interjector ran, also when the partition is revoked in between, and the caller is not blocked by a revoked partition. A scheduled interjection is scheduled again only after its previous run completed, synchronously or asynchronously, with a delay of the interval plus or minus at most the jitter, and never after the partition was revoked.",
 ["schedules"],
 "all interleavings of interjecting, revocation and completion",
 NOKAFKA+"the losing side of the revocation race is not reachable by a deterministic test.",
 [S+"interjection.go",S+"partition_worker.go",S+"source_consumer.go"],
 [("eventSourceConsumer.interject, forEachChangeLogPartition*",S+"source_consumer.go"),("scheduleInterjection, handleInterjection, processAsyncJob",S+"partition_worker.go"),("tick, cancel, timerDuration",S+"interjection.go")],
 "typestate of the answer channel and of the re-arm cycle; exact guards",
 "all paths of interject, accept, reject, execute and re-arm")

prop("C15", "Errors are handled as the application instructed",
 "Every transaction error and every produce error in a transaction is passed to the configured transaction error handler, or the default one when none is set, which fails the consumer. Continue keeps the consumer running; any other answer marks the event source unhealthy and makes it stop immediately, and for FatallyExit the process panics. A transaction with a failed record is still committed when the handler answers Continue, and its producer stays in use. After such a failure no further transaction is committed.",
 ["fault_sequences"],
 "all errors reported by the Kafka client and all handler answers",
 NOKAFKA+"broker faults are not simulated.",
 [S+"eos_producer.go",S+"source.go",S+"event_source.go"],
 [("commitLoop",S+"eos_producer.go"),("Source.fail, eosErrorHandler",S+"source.go"),("closeOnFail",S+"event_source.go")],
 "exact-guard path analysis of error handling, value flow of errors",
 "all paths from each error source to the handler and its answers")

prop("C16", "Records are routed by type and undecodable records are handled as configured",
 "A record whose type header matches a registered event type is decoded by that type's decoder and handed to exactly that type's processor, first registration first; every other record goes to the default processor. A record that can not be decoded is never handed to a processor: the configured deserialization error handler (by default one that continues) decides, and Continue completes the event, FailConsumer marks the event source unhealthy and stops it without completing the event, and FatallyExit panics.",
 ["inputs","configurations"],
 "all record types, registrations and decode failures",
 "the existing tests route a few types and never fail to decode.",
 [S+"event_source.go",S+"source.go",S+"record.go"],
 [("handleEvent, eventProcessorWrapper, eventProcessorExecutor.Exec, RegisterEventType",S+"event_source.go"),("deserializationErrorHandler",S+"source.go")],
 "exact-guard path analysis of routing and error answers",
 "all paths of routing, decoding and registration")

prop("C17", "Stopping an event source is orderly and always signals completion",
 "Stop never blocks, leaves the consumer group first (gracefully when an incremental balancer is active), and only after the group was left halts the internal processes and signals Done; calling it again has no further effect. StopNow halts everything, closes the client and signals Done without waiting, and a failure triggers it. Neither blocks because Done was already signalled, and halting an event source halts everything forked from it, while halting a fork does not halt the source.",
 ["schedules","histories"],
 "all orders and repetitions of Stop, StopNow, failures and signals",
 NOKAFKA+"repeated and concurrent stops are not exercised.",
 [S+"event_source.go",S+"source_consumer.go","streams/sak/context.go"],
 [("Stop, StopNow, WaitForSignals, WaitForChannel, closeOnFail",S+"event_source.go"),("leave, stop",S+"source_consumer.go"),("RunStatus","streams/sak/context.go")],
 "must-precede and non-blocking-send path analysis",
 "all paths of stopping")

prop("C18", "The incremental balancer assigns every partition to exactly one member",
 "In every plan computed while there is an active member, each partition is assigned to exactly one member: unassigned partitions go to active members only (to one that is ready or preparing if there is one, otherwise to the least loaded), a partition claimed by two members stays with the first, and a scheduled move takes a partition from its donor before giving it to the recipient. A partition is moved deliberately only to an active member which reported itself ready for it, and at most one partition is in motion at a time. While none is in motion, a further move is scheduled exactly when a leaving member has partitions to give, or the least loaded active member is below the even share or the most loaded one more than one above it, and a move whose recipient is ready is made. The plan is made cooperative before it is distributed, so a partition is never given to its new owner before the old one released it.",
 ["histories","inputs"],
 "all group memberships, claimed partitions and preparation states",
 "no existing test runs the balancer.",
 [S+"group_state.go",S+"incr_rebalancer.go"],
 [("newGroupState/initAssignments/initReceivership/distributeUnassigned/deliverScheduledPartitionMoves/assignToActiveMember/unassignFromDonor",S+"group_state.go"),("Balance, balanceTopic, addMemberToPlan, IntoSyncAssignment",S+"incr_rebalancer.go")],
 "effect pairing and must-precede path analysis over the group state sets, exact guards, budget expression",
 "all paths of plan construction; convergence (number of rounds) is out of reach")

prop("C19", "Leaving gracefully surrenders every partition first",
 "A member which asked to leave advertises itself as inactive from the next group join on, together with the time it left, and asks the group to rebalance. The balancer never gives an inactive member partitions it did not own and donates from inactive members before balancing active ones, longest leaving first. The leaver is released exactly once, only when it is inactive and an assignment without any partition arrives, and only then is its client closed.",
 ["histories","schedules"],
 "all histories of leaving, rebalances and assignments",
 "no existing test leaves a group.",
 [S+"incr_rebalancer.go",S+"group_state.go",S+"source_consumer.go"],
 [("GracefullyLeaveGroup, userData, ParseSyncAssignment",S+"incr_rebalancer.go"),("incrGroupInactiveLess, schedulePartitionMoves",S+"group_state.go"),("leave",S+"source_consumer.go")],
 "typestate of the member status, exact guards, must-precede path analysis",
 "all paths of leave, join metadata and assignment parsing")

prop("C20", "Partitions are prepared once and reported ready only when caught up",
 "An instruction to prepare a partition starts its preparation at most once until it is assigned, forgotten or failed, and the partition is reported ready only after its store caught up with the change log. Every change of the ready or preparing sets happens under one lock, is what the next group join advertises, and triggers a rebalance whenever, and only when, it changes what other members may do. An assigned partition is no longer advertised as ready or preparing, and forget instructions are applied to exactly the partitions they name.",
 ["histories","schedules"],
 "all sequences of prepare, prepared, failed, forget and assigned notifications",
 "no existing test prepares a partition.",
 [S+"incr_rebalancer.go",S+"source_consumer.go"],
 [("ParseSyncAssignment, PartitionPrepared, PartitionPreparationFailed, PartitionsAssigned, userData",S+"incr_rebalancer.go"),("PrepareTopicPartition, ForgetPreparedTopicPartition",S+"source_consumer.go")],
 "lockset analysis, effect pairing and must-precede path analysis",
 "all paths of the preparation protocol")

prop("C21", "Topics are provisioned consistently and misconfiguration is rejected",
 "An event source is created only with a group id, a topic and a source cluster, and only if the change log has as many partitions as the source topic; otherwise an error is returned. Existing topics determine the partition counts and replication factor in use, and only missing topics are created: the source topic on the source cluster with deletion, the commit log and change log on the state cluster with compaction, with the effective partition counts, replication factor and in-sync minimum. Every other failure is returned to the caller, and only network errors are retried, a bounded number of times.",
 ["configurations","fault_sequences"],
 "all configurations, pre-existing topics and broker errors",
 NOKAFKA+"topic creation needs a broker.",
 [S+"topics.go",S+"source.go"],
 [("CreateSource, resolveOrCreateTopics, createTopic, CreateDestination, isNetworkError",S+"topics.go"),("minInSyncConfig, replicationFactorConfig, commitLogPartitionsConfig, stateCluster",S+"source.go")],
 "exact-guard analysis of configuration functions, value flow into topic creation, error propagation analysis",
 "all paths and configuration expressions")

prop("C22", "Invalid producer pool configurations are rejected, unset ones defaulted",
 "A pool configuration is accepted exactly when the pool size, pending transaction count, target and maximum batch size are all at least one, the batch delay is at least one millisecond and the target does not exceed the maximum; any other one panics before any producer is created. A configuration is replaced by the default one exactly when all of its values are zero. The pool has the configured number of producers and pending transactions, and a transaction stops accepting events once the number of its events or records, whichever is larger, reaches the maximum batch size.",
 ["configurations"],
 "all values of every configuration field",
 "no existing test builds a pool from an invalid configuration.",
 [S+"eos_config.go",S+"source_consumer.go",S+"eos_producer.go"],
 [("EosConfig.validate, IsZero",S+"eos_config.go"),("newEventSourceConsumer",S+"source_consumer.go"),("shouldForceFlush, tryFlush, newEOSProducerPool",S+"eos_producer.go")],
 "exact-guard (truth table) analysis, must-precede path analysis, value flow",
 "all paths and comparison operators")

prop("C23", "Records carry exactly what was written and never leak between uses",
 "A record is produced with exactly the topic, partition, headers, timestamp, key and value that were set on it; an empty key or value becomes a null one, and its record type becomes exactly one type header which readers report as the record type. A record without a timestamp gets the time at which the application produced it. A record taken from the pool carries nothing of its previous use and asks for automatic partitioning. A record is returned to the pool exactly once per transactional produce, after its callback ran, and exported copies share no key, value or header memory with the pool.",
 ["inputs","histories"],
 "all record contents and all orders of reuse",
 "the existing tests check a few records and never reuse one.",
 [S+"record.go",S+"eos_producer.go","streams/sak/pool.go"],
 [("recordPool, toKafkaRecord, ToKafkaRecord, addRecordTypeHeader, newIncomingRecord",S+"record.go"),("produceKafkaRecord",S+"eos_producer.go")],
 "field coverage and value flow analysis of conversions and of the pool's reset function; typestate of release",
 "all paths and all fields of the record types")

prop("C24", "Encoders and decoders agree and reject malformed input",
 "Every codec decodes what it encoded to the same value: integers, lexicographic integers, strings, bytes and JSON, and the partition keys and offsets of the commit log. Lexicographic integer encodings sort, as bytes, in integer order. Decoding input of the wrong length returns an error and never reads out of bounds, and encoding and decoding errors are returned to the caller.",
 ["inputs"],
 "all values and all byte slices",
 "the existing tests round trip a handful of values.",
 [S+"codec.go",S+"commit_log.go"],
 [("intCodec, lexoInt64Codec, JsonCodec, stringCodec, byteCodec",S+"codec.go"),("writeTopicPartitionToBytes, topicPartitionFromBytes",S+"commit_log.go")],
 "sibling agreement analysis of layouts (offset, width, byte order, bias), exact length guards, error propagation",
 "layout expressions of every codec; the JSON library itself is trusted")

prop("C25", "Manually assigned partitions are respected, others are key-partitioned",
 "Whatever client produces it, a record with an explicitly assigned partition is sent to that partition, and a record without one is partitioned by the partitioner configured for its topic, or the default one when the topic has none. Markers and changes are only produced by clients that honour the assigned partition.",
 ["inputs","configurations"],
 "all records, partition counts and partitioner configurations",
 "the existing test covers one topic and a few partitions.",
 [S+"record.go",S+"topics.go",S+"eos_producer.go",S+"state_store_consumer.go",S+"global_change_log.go"],
 [("OptionalPartitioner",S+"record.go"),("client options",S+"topics.go")],
 "exact-guard analysis of the partitioner, option-flow analysis of every client construction",
 "all paths of the partitioner and all client construction sites")

prop("C26", "Metrics never block or break processing",
 "Emitting a metric never blocks: when the handler can not keep up the metric is dropped. Without a metrics handler no metric is emitted, and emitting a metric during or after shutdown does not panic. One commit metric is emitted for every committed transaction, and only after it was committed, and it reports the transaction's own start, commit start, record count, byte count and partition count. One metric is emitted for every partition whose preparation finished, with the preparation's own start, partition, record count and byte count.",
 ["schedules"],
 "all rates of emission and all shutdown timings",
 NOKAFKA+"needs a saturated handler or a shutdown race.",
 [S+"metric.go",S+"event_source.go",S+"eos_producer.go",S+"source_consumer.go"],
 [("emitMetric, EmitMetric, emitMetrics",S+"metric.go, event_source.go"),("clearState",S+"eos_producer.go")],
 "channel effect analysis (every send, every close), must-precede path analysis",
 "all uses of metric channels in the program")

prop("C27", "Every client is isolated correctly and options keep their precedence",
 "Every Kafka client only reads committed records, and options supplied by the cluster override the library's defaults, while options given at the construction site override both. Every transactional producer has its own unique transactional id, its transactions are abandoned by the library before the broker times them out, and it writes to the cluster that holds the commit log and change log. The consumer joins the configured group and topic on the source cluster with the library's assignment, revocation and offset hooks installed, and never auto-commits unless the application asked for offsets to be committed.",
 ["configurations"],
 "all cluster configurations and user supplied options",
 NOKAFKA+"options can not be observed without a broker.",
 [S+"topics.go",S+"eos_producer.go",S+"source_consumer.go"],
 [("NewClient",S+"topics.go"),("newProducerNode",S+"eos_producer.go"),("newEventSourceConsumer",S+"source_consumer.go")],
 "option-flow analysis of every client construction, constant comparison of timeouts",
 "all client construction sites")

prop("C28", "Replaying the change log rebuilds a simple store",
 "Replaying the change log entries returned by a simple store's put and delete operations, in order, into an empty store yields the same contents: a put entry carries the item's key and the encoded item and replaces the item with that key, a delete entry carries the key and no value and removes it. Deleting an absent item yields no entry. An entry that can not be decoded changes nothing and is reported as an error.",
 ["histories","inputs"],
 "all sequences of put and delete, and all entries",
 "the stores package has no test of the store.",
 ["streams/stores/simple_store.go",S+"record.go"],
 [("SimpleStore","streams/stores/simple_store.go")],
 "sibling agreement and exact-guard path analysis",
 "all paths of the store; the B-tree library is trusted")

prop("C29", "Stored keys are always found in the same shard",
 "A sharded tree always returns the same shard for equal keys, every shard index the hash function can produce exists, there are two to the power of one more than the given exponent shards, and all shards order items with the given comparator. The length is the sum over all shards.",
 ["inputs","configurations"],
 "all keys, hash functions and exponents",
 "the existing example uses one exponent.",
 ["streams/stores/sharded_tree.go"],
 [("ShardedTree","streams/stores/sharded_tree.go")],
 "canonical expression analysis of shard count, mask and index",
 "all paths and expressions of the sharded tree")

prop("C30", "MSK clusters are reached by exact name and matching authentication",
 "The cluster used is the one whose name equals the configured name, and the broker list used is exactly the one matching the configured authentication type; every failure or missing list is reported as an error and nothing is cached. Configured TLS settings and the mechanism matching the authentication type are applied, IAM credentials are retrieved anew for each authentication and errors retrieving them are returned. Options supplied by the application come last, successful results are reused, and configuration is safe for concurrent use.",
 ["configurations","fault_sequences","schedules"],
 "all authentication types, cluster listings and API failures",
 "the existing tests cover one authentication type.",
 ["msk/cluster.go"],
 [("Config, saslIamAuth, getBootstrapBrokers, getClusterArn","msk/cluster.go")],
 "exact case-table extraction, error propagation and lockset analysis",
 "all paths of the MSK module; the AWS SDK is trusted")

prop("C31", "Shared helpers keep their contracts",
 "A value taken from a pool is held by one borrower only, is reset before it can be borrowed again, and the pool never grows beyond its size and is safe for concurrent use. A linked list keeps forward and backward links, membership and length consistent under every operation, and ignores elements of other lists. Minimum, maximum and absolute value helpers return what their name says for every input, and copying helpers return every element exactly once.",
 ["inputs","histories","schedules"],
 "all operation sequences and inputs",
 "the list tests cover sample sequences and the pool has none.",
 ["streams/sak/pool.go","streams/sak/yadll.go","streams/sak/util.go"],
 [("Pool","streams/sak/pool.go"),("List","streams/sak/yadll.go"),("Min/Max/Abs/MapCopy/...","streams/sak/util.go")],
 "lockset and effect analysis, link-update completeness, exact guards",
 "all paths of the helper package")

prop("C32", "Locks are released on every path and never acquired in conflicting order",
 "Every lock taken by the library is released on every path, including error and early return paths, and is never taken again by the same goroutine while held. Locks are acquired in one consistent order. State shared between goroutines that is protected by a lock is only accessed while holding it.",
 ["schedules"],
 "all interleavings of all goroutines of the library",
 "lock misuse shows only in rare schedules, and most of this code is not run by the tests.",
 [S+"eos_producer.go",S+"source_consumer.go",S+"incr_rebalancer.go",S+"async_batcher.go",S+"async_scheduler.go",S+"commit_log.go",S+"state_store_consumer.go",S+"partitioned_store.go","streams/sak/pool.go"],
 [("sync.Mutex / sync.RWMutex fields","all files")],
 "interprocedural lockset analysis, lock-order graph, guarded-by rules",
 "all exported entry points, callbacks and goroutines, with calls inlined")

prop("C33", "Partition lifecycle callbacks are invoked at the right moments",
 "For every assigned partition the assigned callback runs after its worker exists, and the activated callback runs exactly once per activation, after the state store was restored and the worker was made ready. For every revoked partition the will-revoke callback runs before anything of it is torn down, and the revoked callback runs once per partition after its worker was told to stop and its store was dropped. Absent callbacks are skipped, and every callback receives the partition it is about.",
 ["histories","configurations"],
 "all assignment histories and callback configurations",
 NOKAFKA+"callbacks only fire with a consumer group.",
 [S+"source.go",S+"source_consumer.go",S+"partition_worker.go"],
 [("onPartitionsAssigned/onPartitionActivated/onPartitionWillRevoke/onPartitionsRevoked, executeHandler",S+"source.go"),("assignPartitions, revokePartitions",S+"source_consumer.go")],
 "must-precede and exactly-once path analysis, callback-to-configuration binding",
 "all paths of assignment and revocation")

prop("C34", "A double-ended heap tracks its items and drops none",
 "Every operation of the double-ended priority heap keeps, for each item it holds, the position recorded in the item equal to its real position, so later updates and removals address the right item. Looking at the minimum or maximum never changes the heap, adding and removing change its size by exactly one, and operations on an empty heap return nothing. Updating or removing an item restores order in both directions from its position.",
 ["histories","inputs"],
 "all sequences of heap operations",
 "the heap has no test.",
 ["streams/stores/min_max_heap.go"],
 [("MinMaxHeap","streams/stores/min_max_heap.go")],
 "write-effect analysis of item slots and recorded positions, purity and must-call analysis",
 "all paths; the full min-max ordering invariant is out of reach and not claimed")

prop("C35", "A global change log delivers every record of its topic",
 "A global change log consumes every partition of its topic from the beginning and delivers every record it fetches, unmodified, to its receiver, one at a time; an error of the receiver is logged and does not stop delivery. Pausing and resuming affect exactly the requested partitions, and resuming continues at the requested offset. It stops, and closes its client, when its run status is halted.",
 ["histories","inputs"],
 "all topics contents, partition counts and pause/resume sequences",
 NOKAFKA+"needs a broker.",
 [S+"global_change_log.go"],
 [("GlobalChangeLog",S+"global_change_log.go")],
 "value flow and path analysis of the consume loop and of client calls",
 "all paths of the change log consumer")

prop("C36", "Group offsets are marked only for committed events, and only on request",
 "When the application asked for consumer group offsets to be committed, every real event of a transaction, and no interjection, is marked for committing, and only after its transaction was committed. Otherwise nothing is ever marked and automatic committing is disabled.",
 ["fault_sequences","configurations"],
 "all transactions, failures and configurations",
 NOKAFKA+"needs a broker.",
 [S+"eos_producer.go",S+"source_consumer.go",S+"source.go"],
 [("clearState",S+"eos_producer.go"),("newEventSourceConsumer",S+"source_consumer.go")],
 "must-precede path analysis and exact guards",
 "all paths of the commit routine and all marking sites")

prop("C41", "Every transaction which accepted an event is handed to the committer",
 "A transaction that accepted an event or interjection is handed over for committing as soon as it reached its target size, and otherwise by a timer which is armed with the configured batch delay when the first event joins, and armed again for as long as the transaction could not be handed over; later events never defer it. A transaction without events is never handed over, and every transaction is begun exactly once before it is produced to, flushed or ended.",
 ["schedules","histories"],
 "all arrival patterns of events, occupancies of the commit queue and configurations",
 NOKAFKA+"a single lingering event is the case nobody notices until traffic stops.",
 [S+"eos_producer.go"],
 [("forwardExecutionContexts, tryFlush, doForwardExecutionContexts",S+"eos_producer.go"),("producerNode.flushRemaining, produceKafkaRecord",S+"eos_producer.go")],
 "typestate analysis of the forwarding loop over all paths between two waits",
 "all paths; how long committing takes is C39 and not decided")


prop("C42", "Event contexts report and forward what they were created from",
 "An event context reports the offset, partition and input of the record it was created from, and reports an interjection as such, without an input and with a negative offset. It forwards every given record exactly once, in order and in its own transaction, reports asynchronous completions under its own identity with the given finalizer, and carries the lifetime, completion signal and revocation accounting of its worker. Mocked contexts carry what they were mocked from, and an event source reports the source and the state of the source it was created with.",
 ["inputs","histories"],
 "all records, interjections, numbers of forwarded records and finalizers",
 "every handler is written against these accessors; tests construct one or two contexts and never look at most of the fields.",
 [S+"event_context.go",S+"event_source.go"],
 [("EventContext.Forward, Input, Offset, AsyncJobComplete",S+"event_context.go"),("newEventContext, newInterjectionContext, MockEventContext",S+"event_context.go"),("EventSource.State, Source",S+"event_source.go")],
 "symbolic value analysis of constructors and accessors; per-iteration path analysis of Forward",
 "all paths")

prop("C43", "An event source is assembled from its own parts and consumes until it is closed",
 "The consumer of an event source shares the source, commit log, Kafka client, metrics channel and run status of that event source with its producers and its state store consumer. Its Kafka client balances with exactly the configured balance strategies, or the default ones when none are configured, and the consumer leaves the group through the incremental balancer its client uses. Every consumer loop hands each fetch on once, keeps polling while its client is open, and ends when its client was closed. No goroutine waits for a private channel nobody serves.",
 ["configurations","histories"],
 "all configurations of an event source and all sequences of fetches",
 NOKAFKA+"assembling a consumer needs a broker.",
 [S+"source_consumer.go",S+"state_store_consumer.go",S+"global_change_log.go",S+"balancer_options.go"],
 [("newEventSourceConsumer, start",S+"source_consumer.go"),("consume",S+"state_store_consumer.go"),("consume",S+"global_change_log.go"),("toGroupBalancers",S+"balancer_options.go")],
 "symbolic object construction over all paths, typestate of fetches and clients, escape analysis of channels",
 "all paths of the constructors and consumer loops, all channels that stay private to a function")



# Properties this family can not decide: (id, title, statement, over, qtext, why, files, mech, reason)
NAP = [
 ("C37","Rebalancing converges to an even distribution",
  "Starting from any distribution of partitions over members, a finite number of rebalances leads to a state in which member loads differ by at most one and no further move is scheduled.",
  ["histories"],"all initial distributions and all rebalance histories",
  "no existing test runs the balancer.",[S+"group_state.go"],[("isImbalanced, schedulePartitionMoves",S+"group_state.go")],
  "a ranking argument over the contents of runtime sets across unboundedly many rebalances; no sound dataflow or type-level argument in reach bounds these quantities (C18 to C20 decide the per-plan safety part)"),
 ("C38","Minimum and maximum of the double-ended heap are always exact",
  "After any sequence of operations the reported minimum (maximum) is an item no other item has (lacks) priority over.",
  ["histories"],"all operation sequences and priorities",
  "the heap has no test.",["streams/stores/min_max_heap.go"],[("up, down","streams/stores/min_max_heap.go")],
  "the ordering invariant relates the values in unboundedly many slots; it needs a functional proof or exploration of executions, not static analysis (C34 decides the position tracking and effect part)"),
 ("C39","Transactions are committed within the configured delay",
  "An event that completes without delay is committed no later than the configured batch delay plus one commit duration.",
  ["schedules"],"all loads and schedules",
  NOKAFKA+"timing is not observable.",[S+"eos_producer.go"],[("flushTimer",S+"eos_producer.go")],
  "a real-time bound that depends on the scheduler, the broker and queue occupancy at run time"),
 ("C40","At most one live member processes a partition at any time",
  "Across the whole consumer group, a committed transaction never contains work of a partition another member has already taken over.",
  ["schedules","crash_points","fault_sequences"],"all failures, pauses and rebalances of all members",
  NOKAFKA+"needs several processes and broker side fencing.",[S+"eos_producer.go",S+"source_consumer.go"],[("transactional ids, partition revocation",S+"eos_producer.go")],
  "depends on broker side fencing and on the relative timing of several processes, which is not a property of this source code alone"),
]

def main():
    with open(os.path.join(ROOT,"properties.jsonl"),"w") as f:
        for q in P:
            f.write(json.dumps(row(q["id"],q["title"],q["statement"],q["over"],q["qtext"],q["why"],q["files"],q["mech"]))+"\n")
        for n in NAP:
            f.write(json.dumps(row(*n[:8]))+"\n")
    done = claimed()
    m = {"version":1,
         "setup_cmd":"bash ./setup.sh",
         "checks":[{"property":q["id"],
                    "quick_cmd":"bash ./check.sh %s quick"%q["id"],
                    "thorough_cmd":"bash ./check.sh %s thorough"%q["id"],
                    "technique":"static analysis: "+q["tech"],
                    "level":"other",
                    "level_note":q["note"]} for q in P if q["id"] in done],
         "not_applicable":[{"property":n[0],"reason":n[8]} for n in NAP]+
            [{"property":q["id"],"reason":"no check yet"} for q in P if q["id"] not in done]}
    with open(os.path.join(ROOT,"MANIFEST.json"),"w") as f:
        json.dump(m,f,indent=1); f.write("\n")

def row(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
            "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"hook_needed":None}}

def claimed():
    # a property is claimed when the checker registers rules for it
    import re,glob
    ids=set()
    for f in glob.glob(os.path.join(ROOT,"checker","rules_*.go")):
        for m in re.findall(r'rule\("[^"]+",\s*"([^"]*)"',open(f).read()):
            ids|=set(m.split())
    return ids
if __name__ == "__main__":
    main()
