#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Reads return exactly the newest visible version of every key",
  "A scan at a read timestamp returns, for every key, the value of the latest write (insert, overwrite or delete) committed at or before that timestamp, and nothing for keys never written or last deleted. The result is the same whichever mix of active buffer, sealed buffers and on-disk files currently holds the versions, and no key is returned twice.",
  ["histories", "inputs"], "every sequence of upserts, deletes, seals, flushes and read timestamps over colliding keys, up to the stated depth",
  "a test fixes one history; the merge of layers has a different shape for every placement of versions, duplicates and deletes over the layers",
  ["src/query/stream/merge.rs", "src/query/stream/mod.rs", "src/query/stream/package.rs", "src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs", "src/ondisk/scan.rs", "src/db/scan.rs"],
  [("k-way merge by key and commit time", "src/query/stream/merge.rs"), ("visible-version selection", "src/inmem/mutable/memtable.rs, src/inmem/immutable/memtable.rs"), ("file scan with delete side table", "src/ondisk/scan.rs")], "scan results")
p("C02", "Flush, seal and compaction never change what queries return",
  "Sealing the active buffer, flushing sealed buffers to files and compacting files leave the result of every query over the current data unchanged, including which rows are absent because they were deleted. The same history of writes therefore gives the same answers for every schedule of maintenance operations inserted into it.",
  ["histories", "schedules"], "every placement of seal, flush and compaction operations into every short write history",
  "equivalence over all maintenance placements is a relation between executions, which no single test states",
  ["src/db/mod.rs", "src/db/compaction.rs", "src/compaction/minor.rs", "src/compaction/driver.rs", "src/ondisk/merge.rs", "src/ondisk/sstable.rs"],
  [("flush of sealed buffers", "src/db/mod.rs, src/compaction/minor.rs"), ("compaction execution", "src/compaction/driver.rs, src/compaction/executor.rs"), ("file merge", "src/ondisk/merge.rs")], "scan results before and after maintenance")
p("C03", "A snapshot keeps returning the same result",
  "Once a snapshot or a transaction has been opened, repeating a read through it gives the same result no matter which writes, deletes, seals, flushes or compactions happen afterwards. Its result equals the committed state at the moment it was opened.",
  ["histories", "schedules"], "every history of later operations up to the stated depth, snapshot opened at every point",
  "requires quantifying over all later histories, including maintenance that moves the data the snapshot refers to",
  ["src/db/scan.rs", "src/mvcc/mod.rs", "src/transaction/mod.rs", "src/manifest/driver.rs"],
  [("read view and commit clock", "src/mvcc/mod.rs"), ("snapshot handle", "src/transaction/mod.rs"), ("scan planning against a pinned version", "src/db/scan.rs")], "results of repeated reads through one snapshot")
p("C04", "Conflicting transactions: the first committer wins",
  "If a key written by a transaction was written or deleted by someone else who committed after the transaction's snapshot, the commit fails with a conflict and changes nothing; otherwise it succeeds. So no committed update is ever silently overwritten by a transaction that did not see it.",
  ["histories", "schedules"], "every interleaving of two or three transactions and direct writes over colliding keys, with seals and flushes between them",
  "a lost update needs a particular interleaving of begin, write, maintenance and commit steps",
  ["src/transaction/mod.rs", "src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs", "src/db/mod.rs"],
  [("conflict check at commit", "src/transaction/mod.rs"), ("newer-version probes", "src/inmem/mutable/memtable.rs, src/inmem/immutable/memtable.rs")], "commit outcome and final table contents")
p("C05", "Transactions are all-or-nothing and read their own writes",
  "Reads inside a transaction see its own staged upserts and deletes on top of its snapshot, and nobody else sees any of them before commit. A commit makes all staged mutations visible under one timestamp; an abort, drop or failed commit leaves no trace, in memory or after recovery.",
  ["histories", "schedules", "crash_points"], "every short script of staged operations, in-transaction reads and endings, and every crash point of the commit",
  "partial visibility only shows at particular points of the commit or after particular crash points",
  ["src/transaction/mod.rs", "src/query/stream/mod.rs", "src/db/wal.rs"],
  [("staging buffer and overlay scan", "src/transaction/mod.rs, src/query/stream/mod.rs"), ("commit bundle in the log", "src/db/wal.rs, src/wal/writer.rs")], "reads inside and outside the transaction, state after reopening")
p("C06", "Acknowledged writes survive any crash",
  "Every write or transaction whose call has returned success is present after a crash at any later moment followed by reopening, with the same values, deletes and visibility order. This holds whichever flushes, log rotations, prunings and compactions were in progress at the crash.",
  ["crash_points", "histories", "configurations"], "every prefix of the storage-effect log of every short history, with torn last writes and loss of unsynced log bytes",
  "the state at every single crash point, including between two effects of one maintenance step, cannot be reached by tests that close cleanly",
  ["src/db/wal.rs", "src/db/builder.rs", "src/wal/writer.rs", "src/wal/replay.rs", "src/wal/storage.rs", "src/wal/manifest_ext.rs", "src/compaction/driver.rs", "src/db/mod.rs"],
  [("log append and acknowledgement", "src/wal/writer.rs, src/db/wal.rs"), ("recovery", "src/db/builder.rs, src/db/wal.rs, src/wal/replay.rs"), ("flush publication and log floor", "src/db/mod.rs, src/wal/manifest_ext.rs")], "contents after reopening")
p("C07", "Recovery shows only a prefix of what was written, and is repeatable",
  "After a crash the recovered contents are the effect of a prefix of the issued writes: an incomplete log tail is ignored, and a transaction that was not completely logged leaves nothing. Recovering again, or crashing during recovery, gives the same contents, and the reopened database accepts and keeps new writes.",
  ["crash_points", "histories"], "every crash point and every torn length of the last log write, every second crash during recovery",
  "torn tails and crashes inside recovery exist at every byte offset and effect boundary",
  ["src/wal/storage.rs", "src/wal/replay.rs", "src/db/wal.rs", "src/wal/writer.rs"],
  [("tail inspection and repair", "src/wal/storage.rs"), ("event replay", "src/db/wal.rs")], "contents after one and after repeated reopening")
p("C08", "Log records decode to what was written, or are rejected",
  "Every log record decodes to exactly the operation it was encoded from, and any number of concatenated records split back into the same sequence. A truncated record, a record with a damaged payload or with an invalid header is always rejected, never decoded to something else.",
  ["inputs", "fault_sequences"], "every record kind over boundary values, every truncation length, every single-bit payload corruption and every invalid header byte",
  "the fault space is every byte and every length, tests pick single positions",
  ["src/wal/frame.rs", "src/wal/mod.rs"],
  [("record encoding and checksums", "src/wal/frame.rs"), ("commit-time column handling", "src/wal/mod.rs")], "decoder results")
p("C09", "Log replay yields exactly the surviving records, in order, from the floor",
  "Replaying a log directory yields every complete record in the order it was written, across any division into files, and stops at the first incomplete record. With a retention floor given it yields exactly the records at or after the floor, and damage other than an incomplete tail is reported as an error rather than skipped.",
  ["inputs", "crash_points", "fault_sequences"], "every division of short record streams into files, every floor position, every truncation offset",
  "off-by-one errors at file borders, floors and cut points need all positions",
  ["src/wal/replay.rs", "src/wal/storage.rs"],
  [("segment listing and ordering", "src/wal/storage.rs"), ("scan with floor", "src/wal/replay.rs")], "replayed events")
p("C10", "The log writer acknowledges in order and only after its durability step",
  "Record sequence numbers are gap-free and increasing over commands, file rotations and restarts, and an acknowledgement reports exactly the records of its command. Success is reported only once the records are in the log file and, under the always-sync policy, have been synced; commands of one client are logged in the order issued. Under an interval policy a sync happens once the configured bytes or time have passed.",
  ["schedules", "histories", "configurations", "fault_sequences"], "every short command sequence under every sync policy and rotation size, every interleaving of two clients, with failures injected at every storage step",
  "acknowledgement-before-sync and rotation races appear only at particular steps",
  ["src/wal/writer.rs", "src/wal/mod.rs", "src/wal/storage.rs"],
  [("writer loop, rotation and sync policy", "src/wal/writer.rs"), ("tickets and acknowledgements", "src/wal/mod.rs")], "acknowledgements compared with the storage-effect log")
p("C11", "Log pruning never removes records still needed for recovery",
  "Log files are deleted only when every record in them belongs to writes already contained in published files or finished transactions. After any sequence of writes, flushes, compactions and prunings, reopening from the remaining log and files yields all committed data. A log file whose writes are all in published files is eventually removed: repeating write and flush does not grow the log for ever.",
  ["histories", "crash_points", "configurations"], "every short history with small log files, and every pruning floor",
  "requires relating the remaining log to the data at every step of every history",
  ["src/wal/manifest_ext.rs", "src/wal/storage.rs", "src/wal/writer.rs", "src/compaction/orchestrator.rs", "src/manifest/driver.rs", "src/db/mod.rs"],
  [("segment references of a flush", "src/wal/manifest_ext.rs"), ("floor computation", "src/manifest/driver.rs, src/compaction/orchestrator.rs"), ("deletion", "src/wal/storage.rs, src/db/mod.rs")], "remaining log files and contents after reopening")
p("C12", "Commit timestamps strictly increase, also across restarts",
  "Every commit gets a timestamp larger than that of every commit acknowledged before it, in the same process or before a restart, so a later write always shadows an earlier one. Reads opened after a commit was acknowledged see it.",
  ["histories", "crash_points"], "every short history of commits, flushes, prunings, crashes and reopenings",
  "a clock that restarts too low is only visible after specific combinations of flush, prune and reopen",
  ["src/mvcc/mod.rs", "src/db/wal.rs", "src/db/builder.rs", "src/wal/state.rs"],
  [("commit clock", "src/mvcc/mod.rs"), ("clock restoration at open", "src/db/wal.rs, src/db/builder.rs")], "which write wins after reopening")
p("C13", "Metadata updates are atomic and never lost",
  "Every metadata update either takes effect completely or not at all, whatever crash or storage error interrupts it, and updates by concurrent sessions are applied one after the other, so none is lost. A conditional update takes effect only if the head it was based on is still current; an update that reports success is in effect, one that reports a conflict or invalid edit is not.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of two updating sessions, every crash point and every injected storage error of short edit histories",
  "lost updates and half-applied edits need particular interleavings and crash points",
  ["src/manifest/driver.rs", "src/manifest/bootstrap.rs", "src/manifest/codec.rs", "src/manifest/domain.rs"],
  [("edit application over a compare-and-swap head", "src/manifest/driver.rs")], "latest snapshot and version list after each execution")
p("C14", "Every recorded version remains readable and exact",
  "The metadata of any retained version lists exactly the files produced by applying its edits in order: added files at their levels, minus removed ones, and its log floor is the smallest log file it still refers to. Listing and reading old versions returns the same content before and after any later updates, and the newest version equals the last update.",
  ["histories", "inputs"], "every sequence of edits (add, remove, replace log references, tombstone watermark) up to the stated depth",
  "needs every edit sequence compared with a reference fold, at every version",
  ["src/manifest/driver.rs", "src/manifest/domain.rs", "src/manifest/version.rs", "src/manifest/codec.rs"],
  [("version state fold", "src/manifest/domain.rs"), ("version snapshots and listing", "src/manifest/driver.rs")], "version snapshots")
p("C15", "A table is registered once and keeps its definition",
  "Registering the same table definition again, in the same or a later session, returns the same table; a different definition under the same name is rejected and changes nothing. Distinct tables get distinct identities and independent contents, also when registration is interrupted or raced.",
  ["histories", "schedules", "crash_points"], "every short sequence of registrations with equal and differing definitions, every crash point, every interleaving of two registrations",
  "races and crashes between catalog and table creation are positional",
  ["src/manifest/bootstrap.rs", "src/manifest/driver.rs", "src/manifest/domain.rs", "src/db/builder.rs"],
  [("catalog registration", "src/manifest/driver.rs, src/manifest/bootstrap.rs"), ("definition comparison at open", "src/db/builder.rs")], "registration results and catalog contents")
p("C16", "Merging files keeps every visible version and drops nothing it must keep",
  "The output files of a merge contain, for every key, exactly the newest version of the inputs - the row, or the delete mark if the newest is a delete - each key once, and no others. Outputs are sorted, disjoint and split at the configured limits, for any number of inputs, batch sizes and output limits.",
  ["inputs", "histories", "configurations"], "every assignment of up to the stated number of versions and deletes of colliding keys to input files, every output limit and chunk size",
  "boundary conditions of cursors, chunks and output splitting need all small inputs",
  ["src/ondisk/merge.rs", "src/ondisk/sstable.rs", "src/compaction/executor.rs"],
  [("merge cursors and output rollover", "src/ondisk/merge.rs"), ("compaction executor", "src/compaction/executor.rs")], "contents of merge outputs against the inputs")
p("C17", "Compaction plans are sound",
  "A plan names only existing files, each once: a non-empty run of files of one source level within the configured count and size limits, moved to the next level; below level 0 it also includes every file of the next level whose key range overlaps the run. A plan is produced whenever a level exceeds its threshold, for a level that exceeds it, and none when all levels are within limits.",
  ["inputs", "configurations"], "every small layout of files (key range, size, level) under every small configuration",
  "overlap and limit logic has many small-layout corner cases",
  ["src/compaction/planner.rs", "src/compaction/orchestrator.rs"],
  [("level selection and overlap closure", "src/compaction/planner.rs")], "plans against layouts")
p("C18", "Publishing a compaction swaps exactly its inputs for its outputs",
  "After a compaction is published, the file set is the old one minus exactly the consumed inputs plus the outputs at the target level, and log references still cover everything not yet in files. If the head moved, a conflicting result is discarded without effect and the files it consumed stay live.",
  ["histories", "schedules", "crash_points"], "every small file layout and outcome, and every interleaving of a compaction with a flush",
  "depends on what else was published between planning and publication",
  ["src/compaction/orchestrator.rs", "src/compaction/driver.rs", "src/compaction/executor.rs", "src/manifest/domain.rs"],
  [("outcome to edits", "src/compaction/executor.rs"), ("log reference reconciliation", "src/compaction/orchestrator.rs"), ("conditional publication", "src/compaction/driver.rs")], "version contents before and after publication")
p("C19", "Data files return what was written and their statistics bound it",
  "Reading a data file returns every row and delete that was written to it with the same key, values and commit time, in key order with newer versions first. Its recorded row counts, key range, commit-time range and byte size describe exactly its contents, so skipping a file by its statistics never loses a row.",
  ["inputs"], "every small set of versions and deletes over colliding keys, read back at every timestamp",
  "statistics and sidecar handling depend on which of data and deletes are empty and how they overlap",
  ["src/ondisk/sstable.rs", "src/ondisk/scan.rs", "src/ondisk/metadata.rs", "src/ondisk/bloom.rs"],
  [("file builder and statistics", "src/ondisk/sstable.rs"), ("file reader and delete sidecar", "src/ondisk/sstable.rs, src/ondisk/scan.rs")], "file contents, descriptors, scans")
p("C20", "Scans honour filter, projection, limit and key order",
  "A scan returns the rows of the unrestricted result that satisfy the filter, in key order, restricted to the requested columns, and cut to the first rows of that order when a limit is given. This is independent of batch size and of where the rows are stored.",
  ["inputs", "histories"], "every filter over a small expression grammar, every projection, limit and storage layout over small tables with nulls",
  "the interaction of pushdown, pruning and limits with version merging has too many combinations for examples",
  ["src/db/scan.rs", "src/query/scan.rs", "src/query/stream/package.rs", "src/query/stream/merge.rs", "src/ondisk/scan.rs"],
  [("plan, pruning and pushdown", "src/db/scan.rs, src/ondisk/scan.rs"), ("residual filter, projection and batching", "src/query/stream/package.rs")], "scan results against a reference evaluation")
p("C21", "Keys have one consistent total order",
  "Comparison of keys is a total order that agrees with equality, hashing, and the order of the column values, for every supported key type, null and composite keys, whether the key is owned, borrowed or stored. Serialising and restoring a key keeps it equal, and a newer version of a key sorts before an older one.",
  ["inputs"], "all pairs and triples over boundary values of every key type and small composites",
  "order laws quantify over pairs and triples of values",
  ["src/key/row.rs", "src/key/owned.rs", "src/key/ts.rs", "src/extractor/extractors.rs"],
  [("key comparison and equality", "src/key/row.rs, src/key/owned.rs"), ("versioned key order", "src/key/ts.rs"), ("key extraction", "src/extractor/extractors.rs")], "comparison results")
p("C22", "Rejected input changes nothing; schemas are validated",
  "A write that is refused (wrong columns or types, null key, mismatched delete marks, reserved column names) returns an error and leaves visible data, the log and later writes unaffected. A schema whose key declaration is missing, ambiguous, names an unknown column or has an unsupported key type is refused when the table is defined.",
  ["inputs", "histories"], "every member of a family of malformed batches and schemas at every point of a short history",
  "tests check that an error is returned, not that state, log and recovery are untouched for every malformed shape",
  ["src/db/mod.rs", "src/db/wal.rs", "src/schema.rs", "src/extractor/extractors.rs", "src/inmem/mutable/memtable.rs", "src/wal/mod.rs"],
  [("ingest validation", "src/db/mod.rs, src/db/wal.rs"), ("schema builder", "src/schema.rs"), ("key projection validation", "src/extractor/extractors.rs")], "error results, contents, log")
p("C23", "Deleted rows never come back",
  "After a delete of a key is acknowledged, no read at or after it returns the key until it is written again, across seals, flushes, compactions, pruning and reopening. A delete and a write of the same key in one batch or transaction resolve to the last one issued.",
  ["histories", "crash_points"], "every short history of writes and deletes with maintenance and reopening at every point",
  "resurrection needs an older version surviving in some layer while the delete is dropped in another",
  ["src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs", "src/ondisk/merge.rs", "src/ondisk/scan.rs", "src/transaction/mod.rs", "src/db/wal.rs"],
  [("delete sidecars", "src/inmem/immutable/memtable.rs, src/ondisk/sstable.rs"), ("delete retention in merges", "src/ondisk/merge.rs")], "reads after deletes")
p("C24", "Write buffers keep, seal and report exactly what was put in",
  "The write buffer holds every inserted version, reports conflicts exactly for keys with a newer version, and refuses a batch it cannot hold without keeping part of it. Sealing yields a sorted immutable buffer with the same versions, deletes and bounds and leaves an empty one behind, and seal policies trigger exactly at their thresholds.",
  ["histories", "inputs", "configurations"], "every sequence of batches, deletes, seals and conflict probes over colliding keys up to the stated depth, every capacity",
  "slot reuse, index order and sidecar construction depend on the exact sequence",
  ["src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs", "src/inmem/policy.rs"],
  [("active buffer", "src/inmem/mutable/memtable.rs"), ("sealed buffer", "src/inmem/immutable/memtable.rs"), ("seal policies", "src/inmem/policy.rs")], "buffer scans, bounds and conflict probes")
p("C25", "Storage failures are reported and do not corrupt",
  "If any storage operation fails, the call that needed it returns an error or retries successfully, never success with missing effect. Data acknowledged earlier stays readable in the running process and after reopening, and a failed write is afterwards either completely present or completely absent.",
  ["fault_sequences", "histories"], "a failure (clean, partial, or persistent) injected at every storage operation of short histories, followed by reads and reopening",
  "there are as many fault points as storage calls; tests inject at a few",
  ["src/wal/writer.rs", "src/db/wal.rs", "src/db/mod.rs", "src/manifest/driver.rs", "src/compaction/driver.rs", "src/ondisk/sstable.rs"],
  [("error propagation of the write path", "src/wal/writer.rs, src/db/wal.rs"), ("maintenance abort paths", "src/compaction/driver.rs, src/db/mod.rs")], "call results and contents after the failure")
p("C26", "Background compaction reaches quiescence without exceeding its limits",
  "The background worker never runs more jobs at once than allowed, never publishes the same inputs twice, schedules follow-up compactions only within their budget and cool-down, and after a trigger keeps going until no level exceeds its threshold. Write throttling follows the configured level-0 limits exactly: none below the slow-down limit, delay from there, stall from the stop limit.",
  ["histories", "schedules", "configurations"], "every short sequence of triggers and outcomes under every small configuration, every interleaving of workers",
  "liveness and limit properties quantify over all trigger histories",
  ["src/compaction/driver.rs", "src/compaction/scheduler.rs", "src/compaction/handle.rs", "src/compaction/metrics.rs"],
  [("cascade and backpressure decisions", "src/compaction/driver.rs"), ("job queue", "src/compaction/scheduler.rs")], "decisions, job log, backpressure signal")
p("C27", "The log state file never misleads recovery",
  "The small state record kept beside the log always reads back as last stored, survives concurrent or interrupted updates without being half-written, and may lag behind the log but never leads it. Losing or lagging it changes neither recovered data nor the uniqueness of later sequence numbers and transaction ids.",
  ["crash_points", "schedules", "histories"], "every crash point between log and state updates, state removed or stale by any number of updates, every interleaving of two savers",
  "staleness by any number of steps combined with tail shapes is not sampled by tests",
  ["src/wal/state.rs", "src/wal/writer.rs", "src/db/wal.rs"],
  [("state load and store", "src/wal/state.rs"), ("state updates by the writer", "src/wal/writer.rs")], "state contents and restart behaviour")
p("C28", "Concurrent operations behave as if executed one after the other",
  "For every interleaving of concurrent writes, transactions, scans, flushes and compactions, each operation's result is one that some sequential order consistent with the calls' real-time order would give. No interleaving loses a write, shows part of a batch, deadlocks or panics.",
  ["schedules"], "every interleaving at await points of two or three client tasks plus one maintenance task up to the stated number of preemptions",
  "tests run one schedule per execution and cannot choose it",
  ["src/db/mod.rs", "src/db/scan.rs", "src/db/wal.rs", "src/transaction/mod.rs", "src/compaction/driver.rs"],
  [("locking of buffers and sealed list", "src/db/mod.rs"), ("scan planning and execution", "src/db/scan.rs")], "operation results and final contents")
p("C29", "Files in use are never scheduled for deletion",
  "The garbage list recorded after a compaction names exactly the files and log segments that this compaction removed from the current version, each once, and never one the current version still lists. Until a list is acted upon no file that any recorded version lists is removed, whatever conflicts or storage errors publication meets.",
  ["histories", "inputs"], "every small file layout, removal set and retained version set, and every short history of flushes and compactions",
  "needs the relation between deletions and all live versions at every step",
  ["src/compaction/orchestrator.rs", "src/compaction/driver.rs", "src/manifest/driver.rs", "src/manifest/domain.rs"],
  [("garbage plan from an outcome", "src/compaction/orchestrator.rs"), ("garbage plan record", "src/manifest/driver.rs")], "garbage plans and existing files")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
