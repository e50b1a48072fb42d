#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A distributed query returns exactly the single-node answer",
 "Executing a SQL query on the cluster returns the same multiset of rows (and the same row order wherever the query prescribes one, and a valid choice of rows wherever it does not) as executing it on one node with plain DataFusion. This holds for every number of workers, target partitions and partitioning of the data, and for every distributed-planning option, static or adaptive.",
 ["programs", "inputs", "configurations"],
 "All queries of a bounded SQL grammar (scans, filters, projections, aggregates, every join type and mode, unions, windows, sorts, limits/offsets, distinct, grouping sets, nested subqueries) over small tables with duplicates, NULLs and empty partitions, times a grid of worker counts, target partitions and planner options.",
 "The repository's end-to-end tests sample a few dozen queries at one or two cluster sizes over fixed parquet files (many unavailable offline); plan-shape snapshots do not execute the plans. Wrong answers typically need a particular combination of operator, task count, partition count and option.",
 ["src/distributed_planner/distributed_query_planner.rs", "src/distributed_planner/inject_network_boundaries.rs", "src/distributed_planner/insert_broadcast.rs", "src/distributed_planner/normalize_collect_joins.rs", "src/distributed_planner/partial_reduce_below_network_shuffles.rs", "src/distributed_planner/push_fetch_into_network_coalesce.rs", "src/execution_plans/", "src/coordinator/", "src/worker/"],
 [("distributed planning pipeline", "src/distributed_planner/distributed_query_planner.rs"), ("coordinator execution", "src/coordinator/distributed.rs"), ("worker execution", "src/worker/impl_execute_task.rs")],
 ["rows and row order of the collected result vs. a plain DataFusion SessionContext over the same tables"])

prop("C02", "A shuffle delivers each row exactly once, to the partition owning its key",
 "Between a producer stage with any number of tasks and a consumer stage with any number of tasks, every row a producer task emits is delivered exactly once, to exactly one consumer partition of one consumer task, with values intact. Rows with equal partitioning keys, from whichever producer task, always meet in the same consumer partition, and rows coming from one producer partition keep their relative order there.",
 ["schedules", "inputs", "configurations"],
 "All producer-task x consumer-task x partition counts up to a bound, all small key distributions (skewed, NULL, empty producers, many batches), and all orders in which producers emit and consumer partitions are opened, read and dropped, within a deviation bound.",
 "Existing tests run a shuffle with one or two fixed shapes and let the scheduler pick one interleaving; off-by-one partition arithmetic or lost batches show only for other shapes or timings.",
 ["src/execution_plans/network_shuffle.rs", "src/worker/worker_connection_pool.rs", "src/worker/impl_execute_task.rs", "src/distributed_planner/network_boundary.rs"],
 [("consumer partition -> producer partition mapping", "src/execution_plans/network_shuffle.rs"), ("producer head scaled to consumer tasks", "src/distributed_planner/prepare_network_boundaries.rs"), ("take-once partition streams", "src/worker/worker_connection_pool.rs")],
 ["rows read from every (consumer task, partition) stream of a shuffle boundary"])

prop("C03", "Gathering tasks covers every producer partition exactly once",
 "When a stage with N tasks is gathered into M consumer tasks, each partition of each producer task is read by exactly one partition of exactly one consumer task, exactly once and in the order the producer emitted it; consumer partitions that have no producer are empty. Producers are assigned to consumers in contiguous groups whose sizes differ by at most one.",
 ["schedules", "configurations"],
 "All N, M and partitions-per-task up to a bound including uneven divisions and M > N, times all emission/read orders within a deviation bound.",
 "Unit tests cover a few (N, M) pairs; an indexing slip in an uneven division, or a stream claimed twice, drops or duplicates rows only for specific shapes.",
 ["src/execution_plans/network_coalesce.rs", "src/worker/worker_connection_pool.rs"],
 [("contiguous grouping with padding", "src/execution_plans/network_coalesce.rs")],
 ["rows read from every (consumer task, partition) stream of a gather boundary"])

prop("C04", "Every consumer of a broadcast receives the complete build side",
 "Each consumer task of a broadcast receives every row of the broadcast input exactly once and in the order produced, whatever the order in which consumers start, read, lag behind or go away, and the input itself is evaluated only once per producer partition. If the input fails or panics, every consumer that has not already received everything sees an error instead of a normal end of data.",
 ["schedules", "fault_sequences", "configurations"],
 "All interleavings (within a deviation bound) of input arrival, input end/error/panic, and consumer open/read/drop for up to 3 consumers x 2 partitions x 3 batches; all small task-count combinations across the network boundary.",
 "Tests exercise a handful of hand-written timings; replay-versus-live races and lost wake-ups depend on which consumer attaches or is dropped between which two input batches.",
 ["src/execution_plans/broadcast.rs", "src/execution_plans/network_broadcast.rs", "src/distributed_planner/insert_broadcast.rs"],
 [("replayable batch queue per input partition", "src/execution_plans/broadcast.rs"), ("virtual consumer partitions", "src/execution_plans/network_broadcast.rs")],
 ["batches seen by each consumer partition stream; number of times the input is executed"],
 state=[("batch queue", "batches already produced, closed flag, waiting consumers", "src/execution_plans/broadcast.rs")])

prop("C05", "A distributed UNION evaluates each child completely, exactly once",
 "When a UNION is spread over several tasks, every child is evaluated over exactly its whole input once across all tasks: no child partition is skipped or evaluated twice, and the tasks given to one child split that child among themselves consistently. No child is given more tasks than its own limit allows, and the union's output partition count is the same in every task.",
 ["configurations", "inputs"],
 "All child counts, per-child desired/maximum task counts, per-child costs and partition counts, and total task counts up to a bound.",
 "A few hand-picked splits are unit-tested; the apportionment arithmetic is a small integer program whose rounding cases are only reached by enumeration.",
 ["src/execution_plans/children_isolator_union.rs", "src/distributed_planner/insert_children_isolator_union.rs"],
 [("apportioning tasks to children", "src/execution_plans/children_isolator_union.rs"), ("per-task specialisation", "src/coordinator/query_coordinator.rs")],
 ["which child partitions every task executes and with which task context; rows of UNION queries"])

prop("C06", "Splitting a scan over tasks reads every piece of data exactly once",
 "When a leaf scan is split over T tasks, every file, byte range or partition of the original scan is read by exactly one task, every task sees the same number of output partitions, and any declared partitioning or ordering of the scan's output remains true of what the tasks produce. Planning never fails or panics because of the number or size of files, tasks or partitions, including empty scans.",
 ["inputs", "configurations"],
 "All small sets of files (counts, sizes including zero, groupings), target partitions, byte thresholds and task counts up to a bound, for the default scaling and for user-provided per-task variants.",
 "Tests use a few layouts; loss or duplication appears only for uneven files/tasks/partitions combinations.",
 ["src/events/defaults/file_scan_config.rs", "src/execution_plans/distributed_leaf.rs", "src/events/scale_up_leaf_node.rs", "src/distributed_planner/inject_network_boundaries.rs"],
 [("default file-scan scaling", "src/events/defaults/file_scan_config.rs"), ("per-task leaf variants", "src/execution_plans/distributed_leaf.rs")],
 ["the file ranges assigned to every (task, partition); rows scanned end to end"])

prop("C07", "Plan delivery and partition requests commute; the first plan of a task counts",
 "A worker serves a task's partitions correctly whether requests to read them arrive before or after the task's plan, in any order and from any number of requesters: each requester gets the full output of exactly the partitions it asked for under the task's plan, and a malformed or out-of-range request yields an error rather than data, a hang or a crash. A request for a task whose plan never arrives, or whose plan cannot be decoded, fails within a bounded time, a second plan for a task is refused and never replaces the first, and an abandoned delivery or read disturbs no other.",
 ["schedules", "histories", "fault_sequences"],
 "All sequences of up to 3 (thorough 4), and sequences of up to 6 (8) with at most 2 (3) unusual steps, of plan-delivery (prompt, slow, second, broken, abandoned), partition-read (valid, out-of-range, malformed, abandoned), coordinator-leaves and time-passes steps over 2 tasks on a real worker over both transports; every plan or read message of 20 queries late by 1 or 11 seconds.",
 "Tests send the plan first and read once; reordering is inherently a schedule property.",
 ["src/worker/impl_coordinator_channel.rs", "src/worker/impl_execute_task.rs", "src/worker/single_write_multi_read.rs", "src/worker/task_data.rs", "src/worker/worker_service.rs"],
 [("single-write multi-read plan slot", "src/worker/single_write_multi_read.rs"), ("task registry", "src/worker/worker_service.rs")],
 ["streams returned by the worker's execute endpoint; outcome of each plan delivery; number of times the leaf is executed"])

prop("C08", "A failure anywhere surfaces as a query error, never as missing rows or a hang",
 "If any stage's operator, a worker, or a message between coordinator and workers fails at any point of a query, the query's result stream ends with an error in bounded time; it never ends normally with rows missing and never hangs. When an operator returns an error, the message the user sees contains that error.",
 ["fault_sequences", "schedules"],
 "Every single fault (operator error, operator panic, stream cut, refused call, broken coordination channel) at every message/batch position of every boundary of a set of multi-stage plans, static and adaptive; pairs of faults for the smallest plans.",
 "Tests inject an error in one operator of one plan; faults at message boundaries are not injected at all.",
 ["src/coordinator/distributed.rs", "src/coordinator/query_coordinator.rs", "src/worker/impl_execute_task.rs", "src/worker/impl_coordinator_channel.rs", "src/protocol/grpc/worker_client.rs", "src/protocol/grpc/worker_service.rs"],
 [("error propagation through streams", "src/worker/worker_connection_pool.rs"), ("coordinator task supervision", "src/coordinator/query_coordinator.rs")],
 ["final item of the query's result stream vs. rows delivered"])

prop("C09", "However a query ends, workers and memory return to their idle state",
 "After a query completes, fails, is cancelled or stops early because of a limit, at whatever point that happens, every worker soon holds no running task, no operator stream of that query stays alive anywhere, and memory reserved for buffering its data has been released. (A request that reaches a worker only after its query's end is forgotten after a bounded time.) Later queries on the same cluster are unaffected.",
 ["schedules", "fault_sequences", "histories"],
 "Dropping the result stream after every possible number of polls/rows, failing at every fault point, and consuming fully, for a set of multi-stage plans, each followed by a check for quiescence and by another query.",
 "Tests check cleanup at one cancellation point of one plan; leaks depend on exactly where the stream was dropped.",
 ["src/worker/impl_execute_task.rs", "src/worker/impl_coordinator_channel.rs", "src/coordinator/query_coordinator.rs", "src/protocol/grpc/on_drop_stream.rs", "src/protocol/grpc/spawn_select_all.rs"],
 [("task invalidation on last partition drop", "src/worker/impl_execute_task.rs"), ("end-of-query notification", "src/coordinator/query_coordinator.rs")],
 ["tasks_running of every worker, live leaf streams, memory-pool reservation after the query is gone"])

prop("C10", "Every task's metrics reach the user exactly once, on the right operator",
 "When a distributed query has been fully consumed, the reported plan shows, for every operator of every stage, the metrics its tasks actually recorded: each task counted exactly once, attributed to the operator that recorded it. Waiting for the metrics terminates, also after a query that failed or was abandoned. Collecting metrics never changes the query's rows, and with collection switched off the plan is unchanged.",
 ["schedules", "programs", "configurations"],
 "A set of plans covering every operator and boundary kind x task counts x static/adaptive x per-task/aggregated format; row counts of every operator are compared with the rows that really flowed.",
 "Tests snapshot a few plans or only check that metrics are non-zero; misattribution needs comparison with independently counted rows.",
 ["src/metrics/task_metrics_collector.rs", "src/metrics/task_metrics_rewriter.rs", "src/coordinator/metrics_store.rs", "src/worker/impl_coordinator_channel.rs", "src/stage.rs"],
 [("pre-order metrics collection", "src/metrics/task_metrics_collector.rs"), ("metrics re-attachment", "src/metrics/task_metrics_rewriter.rs")],
 ["metrics of the rewritten plan and of EXPLAIN ANALYZE"])

prop("C11", "Work units reach exactly the task and partition they were issued for, in order",
 "Every work unit that a provider emits for a partition is delivered, unmodified and in emission order, exactly once to the one (task, local partition) that owns it, without waiting for slower feeds, and every feed of a task ends once all of that task's providers have ended, never before its own. A provider failure makes the query fail, a unit that cannot be decoded makes its partition fail, units of unknown feeds are ignored, a consumer that stops early never blocks the others, and none of this depends on the clocks of the machines.",
 ["schedules", "fault_sequences", "configurations"],
 "All small task x partition x feed counts, unit counts around the batching size, all provider emission orders within a deviation bound, provider errors and consumer drops at each position.",
 "Tests run one or two happy-path feeds with one timing.",
 ["src/work_unit_feed/", "src/coordinator/query_coordinator.rs", "src/worker/impl_coordinator_channel.rs"],
 [("remote feed registry", "src/work_unit_feed/work_unit_feed_registry.rs"), ("coordinator feed pump", "src/coordinator/query_coordinator.rs")],
 ["units received by each task partition vs. units emitted"])

prop("C12", "The network transport preserves each partition stream under any buffering",
 "For any set of partitions read over one connection, each partition's batches arrive complete, unmodified and in order, followed by that partition's own end or error, whatever the order in which the network delivers data, the sizes of the batches, the configured buffer size, batch size and compression, or the pace of the readers. A slow, blocked or dropped reader never deadlocks or corrupts the others once buffered data is read, and no reader sees a normal end if the connection failed first.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "All interleavings (within a deviation bound) of message delivery, reader polls and reader drops for up to 3 partitions x 3 batches, all buffer budgets around the batch sizes, all compressions, faults at each message.",
 "Tests stream through localhost with one pace; back-pressure and demultiplexing bugs depend on relative order of delivery and reading.",
 ["src/protocol/grpc/worker_client.rs", "src/protocol/grpc/worker_service.rs", "src/protocol/grpc/spawn_select_all.rs", "src/protocol/grpc/on_drop_stream.rs"],
 [("per-connection demultiplexer with byte budget", "src/protocol/grpc/worker_client.rs"), ("multiplexer with memory reservation", "src/protocol/grpc/spawn_select_all.rs")],
 ["batches/ends/errors per partition stream of the client; memory pool reservation on the server"])

prop("C13", "A plan survives serialization to a worker without any change of meaning",
 "Sending any plan fragment to a worker yields there the same tree of operators, with the same schemas, output partitioning and per-operator parameters (of this library's operators, of operators of user codecs, and of DataFusion's operators as far as DataFusion itself can encode them), the same stage, task and worker identities, and the same rows; an ordering that is claimed there was also claimed by the sender. The same holds for the head operators a request asks a worker to put on top. A plan that cannot be encoded or decoded makes the query fail, and damaged bytes of this library's operators give an error or a well-formed plan, never a crash.",
 ["inputs", "programs"],
 "All distributed operators x their parameter domains (task counts, partitions, partitioning schemes, fetch limits, local or remote input stages, nested children, weights and variants) and all plan fragments produced by the planner over the query grammar of C01; all truncations and single-byte corruptions of a set of encodings.",
 "Codec tests round-trip one instance per operator and compare display strings, which omit fields.",
 ["src/codec/distributed_codec.rs", "src/codec/user_codec.rs", "src/codec/physical_plan.rs"],
 [("extension codec", "src/codec/distributed_codec.rs")],
 ["decode(encode(plan)) compared structurally, by re-encoding, and by executing it"])

prop("C14", "An error raised on a worker reaches the client with kind and message intact",
 "Any DataFusion error raised while a worker executes a task is presented to the client as an error of the same kind, carrying the same message, nested cause and context as on the worker. What cannot be represented (errors of foreign types, join errors of the async runtime, invalid object paths) still arrives as an error that contains the original text.",
 ["inputs"],
 "All error variants (and nested Arrow, Parquet, object-store, IO, parser, schema, context, shared, collection and diagnostic wrappers) with all small field values, to nesting depth 3.",
 "Tests round-trip a hand-picked list; nested combinations and rarely used variants are not covered.",
 ["src/protocol/grpc/errors/"],
 [("error <-> wire mapping", "src/protocol/grpc/errors/datafusion_error.rs")],
 ["error received over the transport vs. error raised"])

prop("C15", "Workers run with the client's configuration, extensions and headers",
 "Every task of a query observes on its worker the same values of this library's options and of every registered configuration extension as the client session had when the query started, whatever their values, and every request the coordinator makes carries the client's passthrough headers unchanged. Passthrough headers never change an option, names with the reserved prefix are refused, and a value that no header can carry makes the query fail instead of being changed. Malformed incoming headers give an error or are ignored, never a crash, and later queries are unaffected.",
 ["inputs", "configurations", "histories"],
 "All small sets of extension types, keys and values (empty, unset, prefix-colliding, special characters), header names/values, number of stages and repeated registrations, over in-process and gRPC transports.",
 "Tests propagate one custom option with one value through one hop.",
 ["src/config_extension_ext.rs", "src/passthrough_headers.rs", "src/distributed_ext.rs", "src/worker/session_builder.rs"],
 [("extension options as headers", "src/config_extension_ext.rs"), ("passthrough headers", "src/passthrough_headers.rs")],
 ["options/headers observed inside each worker task"])

prop("C16", "Each task runs on exactly the worker its routing chose",
 "Every task of every stage is executed by exactly one worker, the one that the routing decision named for it, and readers of its output contact that same worker. Routing handlers are asked in order of registration and the first answer decides. A routing decision with the wrong number of workers, a failing handler or an empty or failing worker list is reported as an error before any task of that stage is sent, and default routing only ever uses workers that the resolver reports (or, for a single task, the client's own worker or one that already serves its input) and spreads tasks of a stage over distinct workers as evenly as possible.",
 ["configurations", "schedules"],
 "All small worker counts, task counts and routing functions (all assignments of tasks to workers up to a bound) over multi-stage plans; wrong-length responses; resolver answers that change between queries, between planning and running, and at any single call in between.",
 "Tests check one custom routing and eyeball default routing, which starts at a random worker.",
 ["src/events/route_tasks.rs", "src/events/defaults/routing.rs", "src/coordinator/query_coordinator.rs", "src/worker_resolver.rs"],
 [("routing handlers", "src/events/defaults/routing.rs"), ("task dispatch", "src/coordinator/query_coordinator.rs")],
 ["which worker receives each plan and each read request"])

prop("C17", "No stage ever runs with more tasks than its limits allow",
 "A stage's number of tasks is at least one, never exceeds the configured or available worker maximum nor any maximum demanded by an operator or handler of that stage, and meets the largest desired count when no limit forbids it. Operators that would produce wrong results when replicated (collected joins that cannot be broadcast, global sorts, limits and final aggregates over one partition) always run in a single task.",
 ["programs", "configurations"],
 "All small plan trees of leaf/unary/binary/union/exchange nodes x all desired/maximum answers per leaf up to a bound x worker limits x join types.",
 "Tests snapshot a few plans; the merge of desired/maximum counts over a tree has many combinations.",
 ["src/distributed_planner/inject_network_boundaries.rs", "src/events/desired_task_count.rs", "src/events/common.rs"],
 [("bottom-up task-count annotation", "src/distributed_planner/inject_network_boundaries.rs")],
 ["task counts of the stages in the final plan"])

prop("C18", "Adaptive planning never alters the data and always finishes",
 "With runtime-adaptive task counts, sampling a running stage never loses, duplicates, reorders or delays forever any row, reports what each sampled partition had ready truthfully and at most once (exactly once as long as nobody reads the stage), and the rest of the query is planned and finishes whatever the order, timing or figures of those reports and whatever row counts the leaves announce. Task counts chosen at run time respect the same limits as static ones.",
 ["schedules", "inputs", "configurations"],
 "All interleavings (within a deviation bound) of sampled-stream arrival, end, error, reader polls and report delivery; all small load-report contents (zero rows, all rows buffered, huge sizes) fed to the real planner.",
 "Tests run adaptive mode with whatever timing occurs; the sampler's switch from buffering to pass-through is a race.",
 ["src/execution_plans/sampler.rs", "src/coordinator/prepare_dynamic_plan.rs", "src/distributed_planner/statistics/"],
 [("sampling operator", "src/execution_plans/sampler.rs"), ("adaptive stage planning", "src/coordinator/prepare_dynamic_plan.rs")],
 ["rows through the sampler; load reports per partition; final plan and result"])

prop("C19", "Distributed plans are well-formed and preserve schema and ordering",
 "The distributed plan of a query has the single-node plan's schema and output ordering, its stages have distinct identities, every exchange's consumer side expects exactly the partitions its producer side provides for each consumer task, and no exchange appears where it would be pointless (one task to one task) or illegal. A query that does not benefit from distribution is left exactly as the single-node planner made it, and planning an already distributed plan again changes nothing.",
 ["programs", "configurations"],
 "All queries of the bounded SQL grammar x the configuration grid of C01, walking each resulting stage tree.",
 "Snapshots pin specific plans, not the invariant over all plans.",
 ["src/distributed_planner/", "src/stage.rs"],
 [("boundary preparation", "src/distributed_planner/prepare_network_boundaries.rs"), ("planner entry", "src/distributed_planner/distributed_query_planner.rs")],
 ["structure of the physical plan returned by the planner"])

prop("C20", "Metrics survive the wire and merge order-independently",
 "Encoding any set of operator metrics and decoding it elsewhere yields the same names, labels, partitions and values, including this crate's custom latency, byte and gauge metrics. Merging metrics of several tasks gives the mathematically expected sum, minimum, maximum or average, and for percentile latencies the estimate of the union of the samples, regardless of order and grouping of the merges; a 'first' metric keeps one that was merged first.",
 ["inputs", "histories"],
 "All metric kinds x small value sets x all merge orders and groupings of up to 4 recordings.",
 "Round-trip tests use one value per kind; merge order is not enumerated.",
 ["src/protocol/grpc/metrics_proto.rs", "src/metrics/latency_metric.rs", "src/metrics/bytes_metric.rs", "src/metrics/max_gauge_metric.rs"],
 [("metric wire format", "src/protocol/grpc/metrics_proto.rs"), ("custom metric merge", "src/metrics/latency_metric.rs")],
 ["metric values before and after transport and after aggregation"])

prop("C21", "Row limits are applied exactly once and stop producers early",
 "A LIMIT/OFFSET (with or without ORDER BY) over distributed data returns exactly the rows a single node could return: min(limit, available) rows after the offset, in order when ordered. Where a limit sits above a gathered stage, no partition of a producer task sends more rows than the limit plus offset, and limits on nested subqueries, joins' inputs and unions are never widened, dropped or applied per task when they are global.",
 ["programs", "inputs", "configurations"],
 "All limit/offset values around the per-partition row counts (0..N+1) x plan shapes with limits at every position x task counts and partition counts.",
 "Tests check one limit on one query; over- or under-fetching needs limit values relative to per-task row counts.",
 ["src/distributed_planner/push_fetch_into_network_coalesce.rs", "src/distributed_planner/insert_broadcast.rs", "src/execution_plans/network_coalesce.rs"],
 [("limit pushdown below gather", "src/distributed_planner/push_fetch_into_network_coalesce.rs")],
 ["row count/rows of results; rows emitted by each producer task"])

prop("C22", "Queries on shared workers do not affect each other",
 "Queries that run at the same time on the same workers, of the same or of different clients, with different data, settings and headers, each give the result (or the error) they would give alone: whatever the interleaving, no task runs another query's plan, sees another query's settings or headers or receives another query's rows, metrics or errors, and a query that fails or is dropped leaves the others unharmed. A plan that can be executed again after its execution gives the right rows again; executing it while it runs gives the right rows or an error, never wrong rows.",
 ["schedules", "histories", "faults"],
 "Two queries of two clients, the second started together with the first (any message late) or at any message of it, running to its end, dropped at any message or failing; a plan executed twice, in turn and overlapping.",
 "Tests run one query at a time on a cluster; mixing depends on keys, caches and the overlap of two histories.",
 ["src/worker/worker_service.rs", "src/worker/impl_coordinator_channel.rs", "src/worker/worker_connection_pool.rs", "src/distributed_planner/prepare_network_boundaries.rs"],
 [("identity of tasks", "src/distributed_planner/prepare_network_boundaries.rs"), ("task registry of a worker", "src/worker/worker_service.rs")],
 ["rows, errors and plans of both queries; settings and headers seen by every task"])

prop("C23", "Event handlers decide in order of registration",
 "Of the handlers a user registers for an event (desired task counts, scaling a leaf, routing tasks), the first that answers decides, in the order of registration, and later ones are not asked about that event; handlers that decline leave the decision to the next. Handlers that rewrite a worker's plan are all applied, in order, each to the outcome of the one before, once per plan that a task receives, and only where they were registered. An error or panic of a handler that is asked fails the query instead of being skipped.",
 ["configurations", "programs"],
 "All assignments of behaviours (defer, answer, answer differently, fail, panic) to three registered handlers of every kind of event, in both planner modes and over both transports.",
 "Tests register one handler; the order of dispatch matters only among several.",
 ["src/events/", "src/worker/impl_coordinator_channel.rs"],
 [("handler chains", "src/events/"), ("plan rewriting on workers", "src/worker/impl_coordinator_channel.rs")],
 ["which handlers were asked, what they were asked about, and the result of the query"])

prop("C24", "Plans with user-placed exchanges compute what they say",
 "A physical plan into which the user has placed shuffles, gathers and broadcasts, with any task counts that agree between neighbouring exchanges and any operators between them, gives exactly the rows the same plan gives without its exchanges, and keeps the order of a sorted result. That holds when some of the exchanges are elided because they connect one task to one task, when leaves are scaled to the tasks of their stage, including to other partition counts, and when limits are pushed below a gather.",
 ["programs", "configurations"],
 "All chains of up to three exchanges with all small task counts, kinds of exchange and operators between them, with leaves that keep or change their partition counts, over both transports.",
 "Tests have one custom plan; the mistakes depend on combinations of task and partition counts.",
 ["src/distributed_planner/prepare_network_boundaries.rs", "src/distributed_planner/network_boundary.rs", "src/execution_plans/network_coalesce.rs", "src/execution_plans/network_shuffle.rs", "src/execution_plans/distributed_leaf.rs", "src/common/recursion.rs"],
 [("finalising placed exchanges", "src/distributed_planner/prepare_network_boundaries.rs"), ("custom plans", "docs/source/advanced/05-custom-distributed-plans.md")],
 ["rows of the result"])

prop("C25", "What workers report, and the connections to them, can be relied on",
 "At any moment of a query a worker's status service reports exactly the tasks the worker has been given and still holds, each once and under the identifiers the coordinator uses, a row count that never shrinks and covers what the task has already delivered (where its head operator counts rows), the version it is configured with and the workers its resolver knows; asking changes nothing about the query's answer, and nothing is reported once the query is over. With the default channel resolver, a connection obtained for a worker's URL reaches the worker for as long as it, or a restarted one at that URL, is up; repeated and concurrent requests share one connection; a failed attempt is an error that names the URL and does not keep a later attempt from succeeding.",
 ["schedules", "histories", "faults"],
 "The status of every worker is asked at every message of every query, with any message late or the result abandoned; every sequence of connecting, calling, giving up, worker down and worker up, to a depth.",
 "Tests ask after a query has settled, and connect to a worker that is up or never was; what matters is the state between, and what a resolver remembers after failures.",
 ["src/protocol/grpc/observability/service.rs", "src/protocol/grpc/channel_resolver.rs", "src/worker/impl_coordinator_channel.rs", "src/worker/single_write_multi_read.rs"],
 [("observability service", "src/protocol/grpc/observability/service.rs"), ("cached connections", "src/protocol/grpc/channel_resolver.rs")],
 ["task reports", "versions answered", "errors of connection attempts"])

prop("C26", "Every way to run a statement runs exactly its query, once",
 "Running a query by INSERT INTO, COPY, CREATE TABLE AS, a view, a prepared statement, or a data frame (written, cached, counted, collected twice, read partition by partition) through a distributed session gives, writes and counts exactly the rows the query has on a single node. Data are handed to a table's sink once and are never committed incomplete: a statement whose execution fails reports an error, and its sink sees an error too unless it already has all the rows; an error of the sink fails the statement. EXPLAIN runs and sends nothing; EXPLAIN ANALYZE runs the statement once. No table is read more often than the query names it.",
 ["programs", "faults", "configurations"],
 "All ways to run a statement, for each of a set of multi-stage queries, on clusters in all modes, with one fault at every position.",
 "Tests collect SELECTs; what a write does when a worker fails at some message depends on how the result stream ends.",
 ["src/distributed_planner/distributed_query_planner.rs", "src/coordinator/distributed.rs", "src/explain_analyze.rs"],
 [("planning any statement", "src/distributed_planner/distributed_query_planner.rs"), ("end of the result stream", "src/coordinator/distributed.rs"), ("EXPLAIN ANALYZE", "src/explain_analyze.rs")],
 ["data written to sinks and files", "rows", "reported counts", "errors"])

prop("C27", "The console shows what the cluster reports and stays usable",
 "At every tick the monitoring console shows exactly the workers that the seed worker last announced, each with its real state (connecting, idle, active, disconnected), the tasks, queries, CPU and memory it last reported, durations and throughput that follow from the reports, and the tasks that were running and disappeared as completed, newest first and bounded in number; the header's counts agree with the table. A worker that fails, hangs, restarts or leaves affects only its own row, and one that comes back is shown again after the reconnection interval. While paused nothing is asked. Every key does what the help says, rows are sorted as the column headers claim, the detail view stays on its worker or returns to the overview when that worker is gone, and no sequence of reports, keys, terminal sizes and faults makes the console panic or stop reacting.",
 ["histories", "faults", "inputs"],
 "Every sequence, to a depth, of reports, faults, discovery answers, keys and time steps against scripted workers over loopback gRPC, the rendered screen compared with a model after each step.",
 "Tests check single helper functions; what the user sees depends on the history of reports and faults.",
 ["console/src/app.rs", "console/src/worker.rs", "console/src/input.rs", "console/src/ui/"],
 [("polling and reconnection", "console/src/worker.rs"), ("discovery and views", "console/src/app.rs"), ("keys", "console/src/input.rs"), ("rendering", "console/src/ui/")],
 ["the rendered screen", "requests that reach the workers"])

prop("C28", "The plan shown to the user is the plan that runs",
 "The text of a distributed plan is what is executed. It is a tree in which every stage sent to workers appears once, under the exchange that reads it, with exactly the tasks that were sent and a number of partitions that covers all those that are read; the operators shown for a task (its variant of each scan, its branches of each union) are those that its worker executes, in the same tree. Static plans show this before they run, adaptive ones afterwards; running a plan does not change what is shown; and EXPLAIN ANALYZE, plain and verbose, and the plan with metrics in either format show the same stages, tasks and operators.",
 ["inputs", "configurations"],
 "Every query of a grid of sources and tails, over tables and files, in every combination of layout, cluster and planner options in the bound, static and adaptive.",
 "Tests compare snapshots of the text of some plans, without comparing it to what is executed.",
 ["src/stage.rs", "src/explain_analyze.rs", "src/execution_plans/distributed_leaf.rs", "src/execution_plans/children_isolator_union.rs"],
 [("text of plans", "src/stage.rs"), ("EXPLAIN ANALYZE", "src/explain_analyze.rs")],
 ["display_plan_ascii and explain_analyze against plans received by workers"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
