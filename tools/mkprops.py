#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)
C = "reverb/cc/"
prop("T01", "Rate limiter bounds hold for every interleaving of inserts and samples",
 "For every table, an insert of a new item or a sample completes only at a moment at which the table's limiter allows it: samples need at least the configured minimum number of items and keep (inserts * samples_per_insert - samples) at or above min_diff, inserts above the minimum size keep it at or below max_diff. "
 "Updates of existing items, priority changes and deletes do not count as inserts, timed-out or cancelled calls change nothing, a reset starts the counts afresh, and counts restored from a checkpoint continue where they stopped. "
 "This holds in the blocking mode and in the table-worker mode, for single and batched samples.",
 ["schedules", "configurations", "histories"],
 "all interleavings of concurrent insert/sample/update/delete/reset/checkpoint callers, all limiter settings (min size, ratio, queue-like error buffers), all timeouts",
 "rate_limiter_test and table_test use two threads with fixed settings and one schedule; a check-then-act gap or a wrong counter shows only under particular interleavings and limiter settings.",
 [C+"rate_limiter.cc", C+"table.cc"],
 [("CanInsert/CanSample/AwaitCanInsert/AwaitAndFinalizeSample/MaybeCommitSample", C+"rate_limiter.cc"), ("InsertOrAssign/SampleFlexibleBatch/TableWorkerLoop", C+"table.cc")],
 [("inserts_, samples_, deletes_", "limiter cursor", C+"rate_limiter.h")], ["Table::InsertOrAssign", "Table::SampleFlexibleBatch", "Table::EnqueSampleRequest"])
prop("T02", "A permitted blocked insert or sample always proceeds (no lost wakeup)",
 "Whenever the limiter's state allows a waiting insert or sample to proceed and stays that way, some such waiter completes without any further external event: inserts, samples, deletes, resets and waiters that time out or turn into updates never swallow a wakeup that another waiter needs. "
 "When no caller can proceed any more, every waiter that is still blocked is really forbidden by the limiter. "
 "This holds in the blocking mode and in the table-worker mode, where queued requests are also picked up although the worker was asleep.",
 ["schedules", "configurations", "histories"],
 "all interleavings of several blocked producers and consumers with timeouts, deletes, resets and updates, including spurious wakeups and timeouts that race with signals",
 "A lost wakeup needs three or more threads at exact points (e.g. the signalled waiter times out); the tests use at most one waiter of a kind and real time.",
 [C+"rate_limiter.cc", C+"table.cc"],
 [("MaybeSignalCondVars", C+"rate_limiter.cc"), ("wakeup_worker_ and worker_state_", C+"table.cc")], [], ["return of Table calls", "sample callbacks"])
prop("T03", "Timeouts, cancellation and shutdown end blocked table calls cleanly",
 "A table call blocked by the limiter fails with a deadline error no earlier than its timeout and without unbounded delay after it, and fails with a cancelled error once the table is closed; a failed call has no effect on the table (no item inserted, no sample counted, nothing deleted). "
 "A call with an immediate or zero timeout still succeeds when the limiter allows it at once. "
 "Closing and destroying a table, with or without its worker, at any point of any workload ends every blocked call, answers every queued sample request and insert notification exactly once, and terminates.",
 ["schedules", "crash_points", "configurations"],
 "all points at which timeout, close or destruction can hit concurrent callers and worker threads",
 "Tests close an idle table with one blocked caller; shutdown against busy worker, extension and callback threads is never scheduled.",
 [C+"rate_limiter.cc", C+"table.cc"],
 [("Cancel/CheckIfCancelled/WaitWithDeadline", C+"rate_limiter.cc"), ("Close/~Table/TableWorkerLoop termination", C+"table.cc")])
prop("T04", "A table never exceeds max_size and evicts what its remover selects",
 "At every observable moment a table holds at most max_size items; an insert of a new key that would exceed it evicts exactly one item, the one the remover selects among all items including the new one, and an insert below capacity or of an existing key evicts none. "
 "Fifo, lifo and heap removers pick exactly the oldest, newest and extreme-priority item; a heap breaks ties by the least recent insert or update. "
 "Items disappear only through eviction, explicit deletion, reset or exhausting max_times_sampled.",
 ["schedules", "histories", "configurations"],
 "all interleavings of inserts, priority updates, deletes and samples, for all remover kinds and capacities, with and without the table worker",
 "table_test checks one eviction per selector sequentially; consistency of item map, sampler and remover under interleaved update/delete/insert histories is never compared to a model.",
 [C+"table.cc", C+"selectors/fifo.cc", C+"selectors/lifo.cc", C+"selectors/heap.cc", C+"support/intrusive_heap.h"],
 [("eviction in InsertOrAssign/InsertOrAssignInternal/DeleteItem", C+"table.cc"), ("selectors", C+"selectors/")])
prop("T05", "An item is sampled at most max_times_sampled times and is then gone",
 "With a positive max_times_sampled no item is ever returned by more samples than that, across all concurrent samplers; with the last permitted sample the item leaves the table atomically and is not visible to any later operation. "
 "Every sample reports the item's own running count: the counts of one item's samples are 1, 2, 3, ... without gap or repeat, and with no limit configured sampling never removes an item. "
 "Deleting and re-inserting a key starts a fresh count.",
 ["schedules", "histories", "configurations"],
 "all interleavings of batched and single samplers with inserts, updates, deletes and resets, in both table modes",
 "Tests sample from one thread; duplicates and gaps appear only when concurrent batches race on the last permitted sample.",
 [C+"table.cc"], [("times_sampled bookkeeping in SampleFlexibleBatch/SampleInternal/DeleteItem", C+"table.cc")])
prop("T06", "Concurrent table operations are linearizable to a sequential priority table",
 "Every concurrent history of inserts, samples, priority updates, deletes, lookups, copies and resets is explained by one order of these operations, consistent with real time, on a sequential table model: each sample returns an item then in the table that its sampler may select, together with its current priority, the table size and its selection probability. "
 "Fifo, lifo and heap samplers return exactly the oldest, newest, or extreme-priority item with probability 1; uniform and prioritized samplers return any member with probability 1/size or priority^exponent / sum, items of zero priority being selected only when all priorities are zero. "
 "A priority update or delete takes effect for every later sample and eviction and ignores unknown keys. An item whose chunks do not match its trajectory, or whose priority a selector cannot hold, is refused and changes nothing.",
 ["schedules", "histories", "configurations"],
 "all interleavings of concurrent clients on few keys, all sampler/remover combinations, both table modes",
 "Unit tests exercise each selector alone and the table from one or two threads in a fixed order.",
 [C+"table.cc", C+"selectors/prioritized.cc", C+"selectors/uniform.cc", C+"selectors/heap.cc", C+"selectors/fifo.cc", C+"selectors/lifo.cc"],
 [("mu_ critical sections", C+"table.cc"), ("sum tree", C+"selectors/prioritized.cc")])
prop("T07", "Table statistics always agree with the operation history",
 "At every moment the size, the number of episodes referenced by current items, the number of deleted episodes and the number of unique sampled items that a table reports equal those computed from the operations applied so far, and a reset sets all of them to zero. "
 "The limiter's statistics report every insert and sample call that went through the limiter exactly once as pending or completed, calls that had to wait as limited, and waiting times that equal the time actually waited. "
 "The reported event history lists completed calls in order with increasing ids and never an active call.",
 ["schedules", "histories", "configurations"],
 "all interleavings of operations whose items share episodes and chunks, both table modes, and all points at which statistics are read",
 "Tests read the counters after two or three sequential operations; drift needs shared episodes, evictions, resets and racing reads.",
 [C+"table.cc", C+"rate_limiter.cc"], [("episode_refs_, num_deleted_episodes_, num_unique_samples_", C+"table.cc"), ("StatsManager", C+"rate_limiter.cc")])
prop("T08", "Table extensions see every change exactly once and in order",
 "Every extension registered with a table is told of each insert, sample, priority update and delete exactly once, in the order in which the table applied them, with the item's state at that time, and of every reset after all earlier changes and before any later one. "
 "Replaying the notifications on an empty set yields the table's content. "
 "Asynchronous delivery through the extension worker never blocks the table forever, delivers everything that happened unless the table is destroyed, and registration and unregistration happen once per extension.",
 ["schedules", "histories", "configurations"],
 "all interleavings of table operations with the extension worker, for tables small enough that its buffer is full, sync and async extensions",
 "Tests use a mocked synchronous extension and one thread; the bounded buffer between table and extension worker is never full in tests.",
 [C+"table.cc", C+"table_extensions/interface.h", C+"table_extensions/base.h"], [("ExtensionOperation/ExtensionsWorkerLoop/Reset", C+"table.cc")])
prop("T09", "Queued asynchronous table requests are each handled exactly once",
 "With the table worker every accepted asynchronous insert is applied exactly once and in the order accepted, every asynchronous sample request is answered by exactly one callback with at most the requested number of samples, in order and as soon as the limiter allows, and a request that has not been filled by its deadline ends with a deadline error. "
 "When an insert is told to hold back, its notification comes exactly once when there is room again, or with an error when the table closes. "
 "Operations that remove the reason for blocking (deletes, resets, priority updates, checkpoints) never leave the worker asleep with work it could do.",
 ["schedules", "histories", "configurations", "crash_points"],
 "all interleavings of asynchronous producers and samplers with the worker, the callback executor, mutations, reset and close",
 "table_test with worker waits for the worker to sleep after each step, so producers and worker never truly overlap.",
 [C+"table.cc", C+"table.h", C+"support/task_executor.cc"], [("TableWorkerLoop/InsertOrAssignAsync/EnqueSampleRequest/FinalizeSampleRequest", C+"table.cc")])
prop("C01", "Chunks of live items stay available; unreferenced chunks are freed",
 "While anything references a chunk, looking its key up in the chunk store returns that very chunk with unchanged data, and inserting the same key again returns the existing chunk instead of a second copy. "
 "A lookup of a key that was never inserted or whose last reference is gone, and any lookup containing such a key, fails with a not-found error rather than returning something else. "
 "Once the last reference is dropped the chunk's memory is released, and the key may be inserted again with new data at any time.",
 ["schedules", "histories"],
 "all interleavings of inserts, lookups and reference drops of the same keys with the store's background cleanup, and with shutdown",
 "chunk_store_test drops and re-inserts from one thread and waits for the cleaner; re-insertion while the old entry is queued for cleanup is a race it never creates.",
 [C+"chunk_store.cc", C+"chunk_store.h"], [("weak_ptr map plus delete queue and cleaner thread", C+"chunk_store.cc")])
prop("W01", "Writer: acknowledged items are in the table exactly once with their own data",
 "With an in-flight limit, when a legacy writer's flush returns OK after a history of appends, sequence ends and item creations, every item created before it has been inserted in creation order, with its table, priority and exactly the last num_timesteps appended steps as data; an item is inserted once unless the stream broke before its confirmation arrived, in which case offering it again only updates the item of the same key. "
 "Without an in-flight limit nothing is acknowledged, but each stream carries items in creation order, and all items arrive when no stream broke and no error occurred before the writer's close returned OK. "
 "Whatever happens, the server never receives an item that was not created, an item under a second key, or different data; stream failures that may lose items and errors of the server are reported by a later call instead of being dropped.",
 ["fault_sequences", "schedules", "inputs", "crash_points"],
 "all stream faults (break before or after delivery of any message, refused reconnects, lost or delayed confirmations, non-transient errors) and all append/create/flush programs, chunk lengths, delta encoding and in-flight limits",
 "writer_test uses a fake stream with a fixed failure at one point; retransmission against a real server with real deduplication is not tested.",
 [C+"writer.cc", C+"writer.h", C+"reverb_service_impl.cc"], [("WritePendingData/StreamPendingItems/ConfirmItems and the streamed chunk set", C+"writer.cc")])
prop("W02", "TrajectoryWriter: flushed items are stored exactly once with their own data",
 "When a trajectory writer's flush or end of episode returns OK, every item created before it has been inserted with its table, priority and exactly the referenced column data, even if the stream broke and was reopened any number of times; items of one writer arrive in creation order. "
 "An item is inserted once; only an item whose confirmation was lost with its stream may be offered again, under the same key, so that it updates itself while it is still in the table. The server never receives an item that was not created, a confirmed item again, an item under a second key, or different data, no matter how columns are mixed, partially filled, chunked or split over episodes. "
 "After an error is reported the item that caused it has not been silently replaced by success, and data of dropped references is never sent. A value or item that cannot be stored as such (another dtype or shape than its column, a column twice in a step, mixed or empty columns) is refused by the call that gives it.",
 ["fault_sequences", "schedules", "inputs", "crash_points"],
 "all stream faults at any message, all interleavings of the caller with the background stream thread, and all append/create/flush/end-episode programs with constant and auto-tuned chunking",
 "trajectory_writer_test scripts one fault against mock streams; the interleaving of caller, stream worker and confirmation reader is left to the OS.",
 [C+"trajectory_writer.cc", C+"chunker.cc", C+"reverb_service_impl.cc"], [("write queue, in-flight set, stream worker", C+"trajectory_writer.cc"), ("Chunker/CellRef", C+"chunker.cc")])
prop("W03", "Writers never hang: limits, timeouts and errors are honoured",
 "Every writer call returns: a flush with a timeout returns no later than that timeout (plus bounded processing) with a deadline error if its items are not yet confirmed, and without a timeout it returns once the server confirms or fails permanently. "
 "A permanent server error (unknown table, invalid item, cancelled table) ends the stream once and is reported by the current or following calls, transient unavailability only delays, and once faults stop a flush succeeds in bounded time. "
 "Closing or destroying a writer at any time terminates its background work, and calls after close are rejected.",
 ["fault_sequences", "schedules", "crash_points"],
 "all points of stream death, error replies, stalled server, timeouts and destruction relative to the writer's threads",
 "Hangs need the stream to die while the background thread waits elsewhere; the tests' mocks fail at a fixed call.",
 [C+"trajectory_writer.cc", C+"writer.cc"], [("RunStreamWorker/Flush/Close", C+"trajectory_writer.cc"), ("Flush/Close", C+"writer.cc")])
prop("W04", "A writer never references data the server lacks and bounds items in flight",
 "Every insert request a writer sends, on a new or reopened stream, references only chunks already sent on that stream and still listed as kept, so the server never has to reject an item for missing data; a chunk is sent before or with the first item that needs it, and a trajectory writer does not drop it on a stream while an item that already waits needs it, only to send it again. "
 "The legacy writer never has more unconfirmed items than its configured limit, and data may be dropped from the writer's history only when no unconfirmed item needs it. "
 "Column references that outlived the configured history are refused with an error, never silently replaced.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "all writer programs, history lengths, chunk lengths, in-flight limits, confirmation delays and stream restarts",
 "Tests check a handful of message sequences with mock streams and no concurrent confirmation.",
 [C+"writer.cc", C+"trajectory_writer.cc", C+"chunker.cc", C+"reverb_service_impl.cc"], [("keep_keys, streamed_chunk_keys", C+"trajectory_writer.cc"), ("keep_chunk_keys", C+"writer.cc")])
prop("S01", "Sampler delivers exactly max_samples samples and takes no more from the table",
 "A sampler asked for max_samples delivers exactly that many, each produced by a distinct sample operation of the table, then reports the end of the sequence; in total its workers never take more samples from the table than they can deliver. "
 "This holds for local and remote workers, any number of workers, batch sizes and in-flight limits, for whole trajectories and for timestep-wise reading. "
 "Timestep-wise reading yields each trajectory's steps consecutively, with the end marked on exactly the last one.",
 ["schedules", "configurations", "fault_sequences"],
 "all interleavings of sampler workers, consumer and table, all settings of workers, batch size, in-flight and sample limits",
 "sampler_test reads a few samples with mocks; the shared request budget of several workers is only raced by chance.",
 [C+"sampler.cc", C+"reverb_service_impl.cc", C+"reverb_service_async_impl.cc"], [("RunWorker/FetchSamples budget", C+"sampler.cc"), ("SampleStream", C+"reverb_service_impl.cc")])
prop("S02", "A sampled trajectory is bit-identical to what the writer appended",
 "Whatever a sampler returns equals the data given to the writer for that item: same columns, same steps in the same order, same dtype, shape and bytes, squeezed where requested, independent of chunk boundaries, compression, delta encoding, message splitting and which rows of a chunk the item uses. "
 "The accompanying key, priority, probability, table size and times-sampled are those of the very sample operation, and no sample mixes parts of two items. "
 "Corrupted or incomplete sample messages, and samples that do not have the types and shapes the sampler was told to expect, are reported as errors, never as data; fitting ones are not refused.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "all trajectories built from any columns and steps, chunk lengths, delta encoding, response sizes, interleavings of several writers and samplers and stream breaks between messages",
 "Tests compare a few fixed tensors; combinations of partial chunks, delta encoding, multi-chunk columns, eviction during sampling and split responses are not reached.",
 [C+"sampler.cc", C+"chunker.cc", C+"tensor_compression.cc", C+"support/trajectory_util.cc", C+"reverb_service_impl.cc"], [("UnpackColumns/AsSample", C+"sampler.cc"), ("MergeAdjacent/FlatTrajectoryFromTimestepRange", C+"support/trajectory_util.cc"), ("Compress/DeltaEncode", C+"tensor_compression.cc")])
prop("S03", "A single-worker sampler keeps the table's order and its in-flight bound",
 "With one worker the samples reach the caller in the order in which the table produced them, so a queue or stack table is read in queue or stack order, and nothing is skipped even if the stream breaks between samples that were delivered. "
 "At no time has a sampler taken more samples beyond those the caller consumed than the configured in-flight limit of each worker plus the few that are being handed over. "
 "A local and a remote sampler of the same table behave alike in this.",
 ["schedules", "configurations", "fault_sequences"],
 "all interleavings of table, server handler, sampler worker and consumer, all batch sizes and in-flight limits",
 "Order and bound are timing dependent; tests check counts only.",
 [C+"sampler.cc", C+"support/queue.h"], [("max_samples_per_stream / active sample queue", C+"sampler.cc")])
prop("S04", "Sampler streams survive transient faults and end with the right status",
 "A sampler whose stream breaks with a transient error reconnects and keeps delivering correct samples; a permanent error, a rate limiter timeout or a closed table is reported to the caller with its own status, again on every later call, and is never turned into a normal end or a hang. "
 "The limiter timeout fires only if the limiter really denied samples for that long, and then at once; no sample taken before it is lost. Settings that make no sense are refused. "
 "Closing or destroying a sampler at any time unblocks a waiting consumer, stops all its workers in bounded time, and leaves the server able to serve others.",
 ["fault_sequences", "schedules", "crash_points"],
 "all fault points on the sample stream in both directions, all timeout settings, close and destroy at any time",
 "sampler_test scripts single failures with mocks; shutdown against blocked workers on a live table is not covered.",
 [C+"sampler.cc", C+"reverb_service_impl.cc"], [("RunWorker retry, worker_status_, Close", C+"sampler.cc")])
prop("K01", "Loading a checkpoint restores the tables that were saved",
 "Saving a set of tables and loading the checkpoint into equally named tables restores everything later operations can observe: items with data, priority and times sampled, insertion order, limits, selectors, signatures, limiter counts and statistics, so that any subsequent operation behaves as on the original (items of equal priority in a heap are taken in the order of their insertion). "
 "Chunks shared between items and tables stay shared and are stored once; checkpoints in the format of earlier versions load the same. "
 "A table set that does not match the checkpoint, or an explicit path without a checkpoint, is rejected with an error and without changing a table.",
 ["histories", "configurations", "schedules"],
 "all table configurations and operation histories before the save, all workloads after the load",
 "tfrecord_checkpointer_test saves one tiny history and compares a few fields, with a clock that only goes forward.",
 [C+"platform/tfrecord_checkpointer.cc", C+"table.cc"], [("Save/Load/LoadLatest", C+"platform/tfrecord_checkpointer.cc"), ("Checkpoint/InsertCheckpointItem", C+"table.cc")])
prop("K02", "A crash at any point never loses the last completed checkpoint",
 "If the process or machine stops at any point of saving a checkpoint, or several saves overlap, loading the latest checkpoint afterwards yields a checkpoint whose save had completed or one that was completely written, never a partial one, and at least the most recent one whose save was reported successful. "
 "If no save ever completed, loading reports that there is none, and saving works again after the restart. "
 "Explicitly loading a partially written checkpoint fails with an error.",
 ["crash_points", "fault_sequences", "histories", "schedules"],
 "every file operation of a save as crash point (with unsynced data lost, torn or kept), repeated crashes, overlapping saves, clock jumps",
 "No test crashes a save; the file system in tests never fails.",
 [C+"platform/tfrecord_checkpointer.cc"], [("DONE marker, write order, pruning", C+"platform/tfrecord_checkpointer.cc")])
prop("K03", "Checkpoint I/O errors are reported and damaged checkpoints are refused",
 "If any file operation of a save fails (no space, I/O error, short write, failed close or rename), the save reports an error instead of success, the tables keep working unchanged, and earlier checkpoints remain loadable. "
 "If a stored checkpoint was truncated or bits flipped in it, or reading fails, loading reports an error and never yields a table with missing, duplicated or altered items. "
 "A save that reports success can be loaded.",
 ["fault_sequences", "inputs", "crash_points"],
 "every file operation as fault point with every error kind, every damaged byte or truncation length",
 "Tests have no fault-injecting file system and load only intact files.",
 [C+"platform/tfrecord_checkpointer.cc"], [("status propagation and record checksums", C+"platform/tfrecord_checkpointer.cc")])
prop("K04", "Checkpoint pruning keeps the newest checkpoints and only removes older ones",
 "After each successful save with a retention limit n that no other save overlaps exactly the n most recently completed checkpoints remain (fewer if fewer exist) and the one just written is among them; nothing outside the checkpoint directory and no unrelated entry in it is deleted. "
 "The latest checkpoint found by loading is the most recently completed one. "
 "The fallback checkpoint is used only when the directory has no complete checkpoint of its own.",
 ["histories", "configurations", "fault_sequences"],
 "all sequences of saves, crashes, leftovers and clock changes, all retention limits and fallback settings",
 "Tests make three saves in a row on a clean directory.",
 [C+"platform/tfrecord_checkpointer.cc"], [("pruning in Save, LoadLatest, LoadFallbackCheckpoint", C+"platform/tfrecord_checkpointer.cc")])
prop("K05", "A checkpoint under load is a consistent cut of each table",
 "A checkpoint taken while clients insert, sample, update and delete captures, for each table, exactly one state that the table passed through between request and reply: items, priorities, sample counts, limiter counts and statistics all from the same instant. "
 "All data of every item in it is present even if the items are deleted while the checkpoint is being written. "
 "Taking it neither blocks other operations forever nor changes what they observe, and it works with and without the table worker.",
 ["schedules", "histories", "crash_points"],
 "all interleavings of a checkpoint with concurrent operations on shared chunks and several tables",
 "Existing tests checkpoint an idle server.",
 [C+"table.cc", C+"reverb_service_impl.cc", C+"platform/tfrecord_checkpointer.cc"], [("Table::Checkpoint under mu_ and retained chunk references", C+"table.cc")])
prop("V01", "The default server survives disconnects and bad requests without side effects",
 "An insert stream that ends or is broken at any message leaves in the tables exactly the complete items received before, each once, and no chunk of the broken stream stays in memory unless an item uses it; a broken or abandoned sample stream leaves the table consistent and usable for others. "
 "A server that is stopped, by a call or by an interrupt, ends all its streams and threads in bounded time and tells which of the two it was; it hands its tables' addresses to clients in its own process only. "
 "A malformed request (unknown table, unknown chunk, keeping a chunk that was not sent, a column without data, an unacceptable priority, a non-positive sample count) is answered with an error status on its own stream and never harms other clients, tables or the process. "
 "Each received item is confirmed exactly once, in order and only after it is in the table, when the client asked for confirmation; each sample request is answered with the number of complete samples it asked for, or ends with a timeout error not before its own timeout.",
 ["fault_sequences", "inputs", "schedules"],
 "all points at which a client stream breaks, all malformed request sequences, all interleavings with other clients",
 "Service tests feed well-formed fixed requests through fake streams, one at a time.",
 [C+"reverb_service_impl.cc", C+"chunk_store.cc"], [("InsertStreamInternal/SampleStreamInternal", C+"reverb_service_impl.cc")])
prop("V02", "The callback server survives disconnects and confirms inserts in order",
 "The asynchronous server inserts exactly the complete items it received, each once and in order, confirms each exactly once in order of reception when asked, and answers sample requests with the requested number of complete samples or the proper error, with at most one outstanding read and write per stream. "
 "A client that disappears, cancels or sends a malformed request at any moment ends only its own stream, exactly once, with an error status for the malformed one, takes no further samples and leaves no unused chunk in memory. "
 "Backpressure from a full table delays a stream but never deadlocks it, and closing the tables ends all streams.",
 ["fault_sequences", "inputs", "schedules"],
 "all orders of read, write, cancel and table callbacks, all points of cancellation, malformed messages, both slow tables and slow clients",
 "The asynchronous service tests use a real loopback channel with a well-behaved client.",
 [C+"reverb_service_async_impl.cc", C+"reverb_server_table_reactor.h", C+"table.cc"], [("InsertStreamReactor/SampleStreamReactor", C+"reverb_service_async_impl.cc"), ("ReverbServerTableReactor", C+"reverb_server_table_reactor.h")])
prop("V03", "Unary requests take effect exactly once and clients see current tables",
 "Priority mutations and resets received by a server are applied completely to the named table before the reply, and to no other table; requests for unknown tables return a not-found error and change nothing. "
 "Server info lists every table with its current size and signature, changes its state id only with the set of tables' definition, and a client's cached signatures never let it write to or sample from a server whose signature it has not checked. "
 "Server info and client calls with a timeout end within it when the server is unreachable, and succeed once it becomes reachable.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of unary calls from several clients with streams, unreachable phases and server restarts with other tables",
 "client_test uses fake stubs returning constants.",
 [C+"client.cc", C+"reverb_service_impl.cc"], [("GetServerInfo retry, info cache", C+"client.cc"), ("MutatePriorities/Reset/ServerInfo", C+"reverb_service_impl.cc")])
prop("Q01", "Internal queues and executors deliver every element once, in order, until closed",
 "The bounded and unbounded queues hand each pushed element to exactly one popper, in push order, never hold more than their capacity, and wake a blocked pusher or popper whenever it can proceed; after the last item was announced poppers get the remaining elements and then an end, after close all blocked calls return at once. "
 "The callback executor and the per-stream task workers run every task scheduled before shutdown exactly once, in order for a single worker thread. "
 "A periodic closure runs at most once per period, never concurrently with itself and never after stop returned.",
 ["schedules", "histories"],
 "all interleavings of several pushers, poppers, closers and timeouts",
 "queue_test runs one producer and one consumer in a fixed order.",
 [C+"support/queue.h", C+"support/unbounded_queue.h", C+"support/task_executor.cc", C+"support/periodic_closure.cc", C+"task_worker.h"], [("Queue::Push/Pop/PopBatch/Close", C+"support/queue.h"), ("UnboundedQueue", C+"support/unbounded_queue.h"), ("TaskExecutor", C+"support/task_executor.cc"), ("PeriodicClosure", C+"support/periodic_closure.cc")])
prop("N01", "Signature and tensor codecs round-trip",
 "Encoding a signature or tensor and decoding it again yields the original, and two specs are compatible exactly if dtype and shape agree. "
 "Malformed encodings are rejected with an error.",
 ["inputs"], "all signatures, specs and encodings",
 "Tests use a few examples.",
 [C+"support/signature.cc", C+"support/tf_util.h"], [("FlatSignatureFromStructuredValue", C+"support/signature.cc")])
prop("N02", "The Python layer forwards arguments and results faithfully",
 "The Python client, writers, samplers, datasets and server builders pass every argument and result unchanged between the user and the C++ core, mapping error codes to the documented exceptions. "
 "Structured trajectories come back with the structure they were written with.",
 ["inputs", "programs"], "all structures, argument combinations and error codes",
 "The Python tests cannot run here and sample few structures.",
 ["reverb/client.py", "reverb/trajectory_writer.py", "reverb/trajectory_dataset.py", "reverb/pybind.cc"], [("pybind glue", "reverb/pybind.cc")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
