#!/usr/bin/env python3
"""Source of properties.jsonl (one compact record per property); run to regenerate it and MANIFEST.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
J = "java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/"


def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": mech}
    a.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("V01", "Vector kernels agree with exact arithmetic on every instruction set",
     "For any two vectors of any dimension, the distance, inner-product, norm and multiply-add kernels return the mathematically defined value up to float rounding, whichever instruction set the host offers or is configured to use. The kernels read and write only the given elements, and the instruction set reported is the one installed.",
     ["inputs", "configurations"], "all dimensions, alignments, values and instruction-set switches",
     "No unit test calls the kernels; tail handling and lane shuffles differ per dimension modulo 4, 8 and 16 and per instruction set.",
     ["src/simd/hook.cc", "src/simd/distances_ref.cc", "src/simd/distances_sse.cc", "src/simd/distances_avx.cc", "src/simd/distances_avx512.cc", "src/simd/instruction_set.h"],
     ["per-ISA unrolled loops with masked tails", "function pointers installed by the dispatcher from CPU features"])
prop("C01", "Byte-string views order, match, trim and hex-code any bytes correctly",
     "Comparison of two byte strings is the unsigned lexicographic total order with a shorter prefix first, and equality, prefix and suffix tests and the first differing position agree with it for any content, including empty strings, zero bytes and bytes above 0x7f. Hex encoding yields two upper-case digits per byte, decoding returns the original bytes in either letter case and rejects every text that is odd-length or holds a non-hex character, and concatenating parts yields exactly their bytes in order. No operation reads outside the viewed bytes.",
     ["inputs"], "all byte strings, pairs, part lists and hex texts",
     "No unit test covers the views; the failing inputs are particular byte values, lengths or alignments.",
     ["src/common/slice.h", "src/common/slice.cc"], ["memcmp with length tie-break", "nibble tables with validation"])
prop("C02", "Generated identifiers are well formed and never repeat",
     "Every random identifier is 36 characters in the 8-4-4-4-12 lower-case hexadecimal form, is drawn from the full range of values at every position, and differs from every other one ever generated, including those generated at the same time by other threads and by processes forked from the same parent. A name-based identifier has the same form and is a function of the name alone, for any non-empty name.",
     ["inputs", "schedules", "histories"], "any number of identifiers from any threads and processes; any name bytes",
     "Uniqueness concerns all pairs of identifiers over the life of a cluster, and a shared or re-seeded generator repeats only under particular timing.",
     ["src/common/uuid.h", "src/common/uuid.cc"], ["independent random byte per position, two hex digits each"])
prop("C03", "Startup check reports exactly the kernel limits that are insufficient",
     "For any kernel settings and resource limits, each startup check passes only if the setting in force when it returns meets the documented minimum, fails with a reason if it does not, and is skipped if the setting cannot be read. A limit that the process may raise is raised to the minimum, none is ever lowered, and no outcome keeps the server from starting or stops the remaining checks.",
     ["configurations", "fault_sequences"], "all values and readability of the consulted settings, with and without privilege",
     "A unit test sees only the limits of the machine it runs on.",
     ["src/common/syscheck.cc", "src/common/syscheck.h"], ["reads /proc and resource limits, raises limits with setrlimit"])
prop("C04", "Log lines at or above the configured level are written once, whole and labelled",
     "At every moment exactly the messages whose severity is at or above the level last configured are written, each one once and unbroken to the log of its severity and of every lower one, however many threads write; a fatal message is written and then ends the process. Every line begins with its severity, local time to the microsecond, thread, source file and line, and every logging setting reads back as it was set.",
     ["inputs", "schedules", "configurations"], "all levels, level changes, writers and instants",
     "Tests never read log files back, and torn, lost or mislabelled lines need concurrent writers or particular dates.",
     ["src/common/logging.h", "src/common/logging.cc"], ["maps severity levels to the log library's threshold and verbosity", "prefix formatter"])
prop("J01", "SDK row codec returns every record it encoded",
     "Decoding a row written by the Java SDK yields the record that was written, for any table schema, either codec version, any column order, null pattern and column values, and again after the key is moved to another table id and back. Encoding and decoding change neither the record nor the stored bytes, each value column is listed once and readable at its listed offset, and a row of another table or of a schema newer than the reader's is refused.",
     ["inputs"], "all schemas, codec versions, records and reader schema versions",
     "The failing combination is one column type, nullability and neighbour out of thousands; the SDK tests use a few fixed schemas.",
     [J+"RecordEncoder.java", J+"RecordDecoder.java", J+"MyDecimal.java", J+"BufImpl.java", J+"schema/DecimalSchema.java", J+"schema/VectorSchema.java"],
     ["two-ended buffer: forward data and reverse length trailers", "V2 id/offset directory for value columns"])
prop("J02", "SDK key bytes order rows as their key columns do",
     "For any two rows of a table, the byte order of their encoded keys is the order of their key columns compared left to right with null first: numbers numerically including negative and special floating values, strings and bytes bytewise, decimals numerically in codec V2; equal key columns give equal keys. Every key lies in its table's range, ranges of different tables are disjoint and ordered by id, and the prefix encoding of the first columns is a byte prefix of the key and decodes to those columns.",
     ["inputs"], "all pairs of key tuples, key schemas and table ids",
     "Order must hold for every pair of values; tests compare at most a few.",
     [J+"schema/IntegerSchema.java", J+"schema/LongSchema.java", J+"schema/FloatSchema.java", J+"schema/DoubleSchema.java", J+"schema/StringSchema.java", J+"schema/BytesSchema.java", J+"schema/DecimalSchema.java", J+"MyDecimal.java", J+"RecordEncoder.java"],
     ["sign-bit flip for numbers", "8-byte padded groups for bytes", "binary decimal words"])
prop("J03", "SDK projection returns the chosen columns unchanged",
     "Decoding a chosen subset of columns returns exactly what decoding the whole row returns for them, in schema order, for any schema, either codec version, any subset and any null pattern among chosen and skipped columns; decoding only value columns does the same and leaves the others null.",
     ["inputs"], "all schemas, records and column subsets",
     "Skipping a column must consume exactly what encoding it produced, for each type, nullability and neighbour; tests project few combinations.",
     [J+"RecordDecoder.java", J+"schema/BytesSchema.java", J+"schema/StringSchema.java", J+"schema/ArraySchema.java"],
     ["per-type skipKey/skipValue mirrored with encode"])
prop("M01", "Versioned keys sort by user key then newest first and decode exactly",
     "For any two user keys and timestamps, encoded keys compare bytewise as the user keys do and, for one key, newest version first; no key's encoding is a prefix of another's, and an encoded key range holds exactly the versions of the keys in it. Decoding returns the key and timestamp that were encoded and refuses every byte string that is not an encoding. A packaged value gives back its bytes, its kind (put, put with TTL, delete) and its TTL, for any value including empty ones, whatever the output held before.",
     ["inputs"], "all keys, versions, values, TTLs and arbitrary byte strings to decode",
     "Order must hold for all pairs, and padding bugs need particular lengths modulo 8 and particular bytes.",
     ["src/mvcc/codec.cc", "src/mvcc/codec.h", "src/common/serial_helper.cc"], ["8-byte groups with a pad-count marker", "bit-inverted big-endian timestamp", "trailing flag byte, 8-byte TTL"])
prop("M02", "Vector and document keys sort by partition and id and decode exactly",
     "For any prefix, partition, id, scalar key and version, the row key decodes to exactly these parts, and encoded keys compare as (prefix, partition, id, scalar key), newest version first. A partition's key range holds all rows of that partition and of no other, and a region's key range decodes to the half-open id range it covers, open-ended when the region reaches the end of its partition.",
     ["inputs"], "all prefixes, partitions, ids, scalar keys, versions and ranges",
     "Order and range membership concern all pairs; unit tests of these codecs do not build here and use a few ids.",
     ["src/vector/codec.cc", "src/document/codec.cc"], ["prefix byte, big-endian partition, sign-flipped id, then scalar key", "memory-comparable encoding"])
prop("D01", "Document tokenizer parameters are accepted exactly when well formed",
     "A tokenizer parameter text is accepted only if it is valid JSON in which every column names a known tokenizer with valid n-gram sizes and the full-text engine accepts the same text; it is then reported with each column's type, and otherwise refused with a reason. The parameter generated by default for any set of columns is accepted and describes exactly these columns.",
     ["inputs"], "all column sets and parameter texts",
     "The unit tests try a handful of texts.",
     ["src/document/codec.cc", "src/document/codec.h"], ["JSON walk over columns, then the engine's verification"])
prop("R01", "Raw key-value requests act on a region as on one ordered map, also in the past",
     "Every put, batch put, delete, put-if-absent, compare-and-set and range delete of a region takes effect exactly as its reply says, batch requests marked atomic wholly or not at all, and the reply's per-key results tell the state before the request. A read returns the last value written, none once it was deleted or its time to live has passed, and a read at an earlier timestamp returns what was visible then, whichever storage engine serves the region. A range request touches exactly the keys between its bounds, inclusive bounds standing for every key that starts with them.",
     ["inputs", "histories"], "all request sequences, keys, values, lifetimes, bounds and read timestamps; both storage engines",
     "The meaning of each request depends on everything written before; no unit test of the store service builds here, and those that exist try single requests.",
     ["src/server/store_service.cc", "src/engine/storage.cc", "src/engine/mono_store_engine.cc", "src/engine/raft_store_engine.cc", "src/handler/raft_apply_handler.cc", "src/mvcc/reader.cc", "src/mvcc/iterator.cc", "src/common/helper.cc"],
     ["versioned keys, newest first", "value flags for put, delete and TTL", "write batches"])
prop("R02", "Requests a region must not serve are refused and change nothing",
     "A raw key-value request naming an outdated region version, an unknown region, a key outside the region's range or an empty key, or reaching a region that is not in service, not the leader, not yet consistently readable, or in a cluster set read-only for that request, is answered with the error for that cause and no data, and nothing stored changes. A range delete reaching outside the region removes only the region's own keys.",
     ["inputs", "configurations", "histories"], "all requests, region states, versions, leadership and read-only settings",
     "Each request has its own validation path and every combination of request and cause must be refused; tests cover none through the service.",
     ["src/server/store_service.cc", "src/server/service_helper.cc", "src/server/service_helper.h", "src/engine/raft_store_engine.cc", "src/raft/raft_node.cc"],
     ["validation functions before execution", "range intersection", "leader and consistent-read checks in the engine"])
prop("R03", "Concurrent raw key-value requests are linearizable, multi-key atomic ones too",
     "For any set of requests issued concurrently to a region, the replies on each key are those of some order in which every request takes effect at one instant between its call and its reply. Atomic batches that race on overlapping keys behave as if run one at a time: of put-if-absent batches that share a key at most one creates it, and moving amounts between keys by atomic compare-and-set keeps their total. No request waits for ever and no data is raced on.",
     ["schedules", "histories"], "all interleavings of concurrent requests",
     "A lost update needs a particular interleaving of read, check and write; unit tests are sequential.",
     ["src/server/store_service.cc", "src/common/latch.cc", "src/store/region_controller.h", "src/engine/mono_store_engine.cc", "src/engine/raft_store_engine.cc"],
     ["per-region key latches around read-check-write", "commands queued on a latch slot and woken in order"])
prop("R04", "Replicas that apply one log hold identical data, and replay changes nothing",
     "Every replica that applies the same sequence of committed entries stores exactly the same key-value records as the leader. A replica that restarts from an older applied position and applies the following entries again ends in the same state with its applied index at the last entry, and entries at or below the applied index are not applied again.",
     ["histories", "crash_points"], "all committed write sequences and restart positions",
     "Divergence appears only for particular sequences of writes, range deletes and restarts; no test runs two replicas.",
     ["src/raft/store_state_machine.cc", "src/handler/raft_apply_handler.cc", "src/engine/write_data.h", "src/meta/store_meta_manager.cc"],
     ["state machine skips indexes at or below the applied one", "physical writes carried in the log entry"])
prop("R05", "A scan returns one snapshot of its range in order, page by page, until released",
     "The pages of a scan, put together, are exactly the key-value pairs of its range as visible when the scan began (or at the timestamp it asked for), each once and in key order, whatever is written in between; with key-only no value is returned, no page exceeds the count asked for, and pages end only when the range is exhausted. After release, or on reaching the end with automatic release, the scan is gone and its storage snapshot is freed.",
     ["inputs", "histories"], "all ranges, page sizes, options, timestamps and writes between pages",
     "Holes and repeats appear only when writes fall between pages or when a page boundary meets a deleted or expired key.",
     ["src/scan/scan.cc", "src/scan/scan_manager.cc", "src/scan/scan_filter.cc", "src/engine/storage.cc", "src/mvcc/iterator.cc", "src/server/store_service.cc"],
     ["iterator held open by a scan context", "scan manager maps ids to contexts, releases idle ones"])
prop("T01", "Transactional reads return the snapshot of their timestamp, or name the lock",
     "A get, batch get or scan at timestamp T under snapshot isolation returns for every key the value of the newest commit at or before T, nothing where that is a delete, and never a value of a transaction not committed by then; under read-committed it returns the newest commit. A lock of another transaction that may still commit at or below T, and is not among those the reader has resolved, is reported instead of an older value. Pages of a scan or lock scan, put together, hold each key of the range once and in order, as it stood when the first page was read.",
     ["inputs", "histories"], "all histories of transactions, read timestamps, isolation levels, resolved sets, ranges and page sizes",
     "Which version is visible depends on commit order, deletes, rollback records, locks and page boundaries together; unit tests try single versions.",
     ["src/engine/txn_engine_helper.cc", "src/engine/storage.cc", "src/server/store_service.cc", "src/common/stream.cc", "src/mvcc/codec.cc"],
     ["lock, write and data column families", "streams that hold a snapshot between pages"])
prop("T02", "Prewrite and commit lock, validate and publish exactly what they acknowledge",
     "A prewrite either locks every key of the request with the values given, or changes nothing and names each conflict: a key locked by another transaction, a commit newer than the transaction's start, a rollback of this very transaction, or a key that must not exist. A commit publishes exactly the locked values at its commit timestamp, and refuses when the lock was rolled back, belongs to a promise of a later commit timestamp, or never existed. Async-commit and one-phase prewrites choose a commit timestamp above every timestamp the region has been read at, and within the limit given, or fall back as their answer says. Repeated and delayed requests give the same outcome as the first.",
     ["inputs", "histories"], "all sequences of prewrites and commits, repeats included, of optimistic, pessimistic, async-commit and one-phase transactions",
     "Outcomes depend on the whole history of a key and on messages arriving twice or late; no test of the engine builds here.",
     ["src/engine/txn_engine_helper.cc", "src/server/store_service.cc", "src/engine/concurrency_manager.cc", "src/handler/raft_apply_handler.cc"],
     ["write conflict check against the write column family", "max read timestamp", "in-memory lock table"])
prop("T03", "A transaction's fate, once decided by anyone, is the same for everyone",
     "Checking a transaction's status, rolling it back, resolving its locks, checking its secondaries and sending heartbeats act on a transaction that may be running, expired, half committed or long gone, and answer with its true state. Once one of these reports it rolled back it can no longer lock or commit anything; once its primary is committed at a timestamp every later answer names that timestamp. Only an expired lock is rolled back or its transaction pushed, a heartbeat only ever extends the lifetime, and resolving removes exactly the locks of the transaction it names.",
     ["inputs", "histories"], "all orders of status checks, rollbacks, resolutions, heartbeats and the transaction's own requests",
     "The dangerous orders are those in which a crashed client, a resolver and a late message meet; tests do not reach them.",
     ["src/engine/txn_engine_helper.cc", "src/server/store_service.cc"],
     ["rollback records that fence late prewrites", "primary key as the single point of decision", "lock TTL and min_commit_ts"])
prop("T04", "Pessimistic locks exclude others until released and are converted, not lost",
     "A pessimistic lock request locks all its keys or none, refuses keys locked by others or committed after its for-update timestamp, returns when asked the newest committed values, and may be repeated. While the lock stands no other transaction can write the key. The transaction's prewrite converts its own locks, keeps the write conflict check it may skip only for keys it has locked, and refuses when a lock it relies on was taken away or is of another for-update timestamp. A pessimistic rollback removes just the pessimistic locks of that transaction up to the timestamp named.",
     ["inputs", "histories"], "all sequences of pessimistic locking, locking again, prewriting, rolling back and committing",
     "A lock lost between locking and prewrite shows only in particular orders of rollback and conversion.",
     ["src/engine/txn_engine_helper.cc", "src/server/store_service.cc"],
     ["Lock-type entries in the lock column family", "pessimistic_checks and for_update_ts_checks"])
prop("T05", "Transactional garbage collection and range deletes remove only the unreadable",
     "Garbage collection at a safe point leaves every read at or after the safe point, by any key and timestamp, answering exactly as before, also when it stops between batches or meets locks, and leaves the records that decide the fate of transactions started after it. It removes older hidden versions together with their data. Deleting a range removes every lock, commit record and value of the range on every replica and nothing outside it.",
     ["inputs", "histories", "crash_points"], "all version histories, safe points, batch sizes and interruption points",
     "Wrongly collected versions are noticed only by a later read at a particular timestamp.",
     ["src/engine/txn_engine_helper.cc", "src/engine/gc_safe_point.cc", "src/handler/raft_apply_handler.cc"],
     ["write records at or below the safe point but the newest", "batched deletes"])
prop("T06", "Concurrent transactions are atomic, isolated and durable",
     "For clients that run transactions of every kind concurrently, abandon them half way, repeat messages, clear each other's locks and read all the while: a transaction acknowledged as committed has all of its keys committed at the one timestamp it was told, one refused or rolled back has none, no update is lost, every read equals the committed state of its timestamp, money moved between accounts adds up to the same total at every moment, replicas end identical, and no request is left waiting.",
     ["schedules", "histories"], "all interleavings of concurrent clients with every kind of transaction",
     "Violations need several clients meeting inside a request or between two; unit tests are sequential.",
     ["src/engine/txn_engine_helper.cc", "src/server/store_service.cc", "src/engine/concurrency_manager.cc", "src/common/latch.cc", "src/raft/store_state_machine.cc"],
     ["key latches per request", "in-memory locks of async-commit prewrites", "max read timestamp"])
prop("T07", "Transactional requests that overlap take effect one after the other",
     "While one transactional request is anywhere between reading and writing, others on the same keys may run; the answers of all and the stored locks, commits and values are those of some order in which the requests run one at a time. A read that overlaps an async-commit or one-phase prewrite either sees it, is told of its memory lock, or fixes its commit timestamp above the read's.",
     ["schedules"], "all pairs and triples of requests, the first held at the point of its storage write",
     "Every check a request makes can be invalid by the time it writes unless something excludes the other; single-threaded tests never see the gap.",
     ["src/server/store_service.cc", "src/engine/txn_engine_helper.cc", "src/common/latch.cc", "src/engine/concurrency_manager.cc", "src/server/service_helper.cc"],
     ["latches over the keys of a request", "in-memory lock table", "max read timestamp updated before reading"])
prop("T08", "Unservable transactional requests are refused, and failures change nothing",
     "A transactional request with an outdated region epoch, an unknown region, keys outside the region or empty, to a region out of service, not leader or not yet consistently readable, writing in a cluster set read-only, or lacking the timestamps, primary, keys or limits it needs, is answered with the error for that cause and no data, and neither stored data, raft log nor in-memory locks change. When the raft group refuses a request's write, the answer is an error, the state is as before, and nothing stays locked.",
     ["inputs", "configurations", "histories"], "all transactional requests, causes of refusal and positions of the offending key, with write failures injected",
     "Each of twenty requests has its own validation and error path; tests cover none through the service.",
     ["src/server/store_service.cc", "src/server/service_helper.cc", "src/engine/storage.cc", "src/engine/txn_engine_helper.cc"],
     ["Validate functions per request", "leader checks in storage", "memory locks released on failure"])
prop("K01", "The version KV answers every request from one ordered history of revisions",
     "Every change to the coordinator's key-value store gets the next revision, one per request, sub-numbered by key in a range delete; a put that refuses changes nothing. Puts answer the revision and, when asked, the previous value, and keep the stored value or lease when told to; ranges return exactly the live keys of the range in order with their create and modification revisions, version, lease and value, cut at the limit and saying whether there is more, keys only or just the count when asked; range deletes remove exactly the live keys and return them. Only the leader serves.",
     ["inputs", "histories"], "all sequences of puts, deletes, ranges, lease and compaction requests, limits, flags and leader changes",
     "Versions, create revisions and counts depend on the whole history of a key; no test of the coordinator builds here.",
     ["src/coordinator/kv_control_kv.cc", "src/coordinator/kv_control_fsm.cc", "src/coordinator/kv_control.cc", "src/server/version_service.cc", "src/raft/meta_state_machine.cc"],
     ["generations of a key index", "revision counter in the id epoch map", "lease attach on put"])
prop("K02", "A lease keeps its keys exactly as long as it lives",
     "A granted lease lives for its time to live, kept within the allowed limits, from the grant or the last renewal, across leader changes; until then it answers its remaining time and exactly the live keys attached to it. When it is revoked or expires, all keys attached to it are deleted in one revision and no key attached to it remains, also when puts race with its end; an expired or unknown lease accepts neither keys nor renewals, and identifiers are not given twice. Nothing but the lease's own end deletes a key because of a lease.",
     ["inputs", "histories", "schedules"], "all sequences of grants, renewals, revocations, puts, deletes, moments of time and leader changes, with races of puts and expiry",
     "Time, key attachment and leader changes interact over long histories; tests cover none.",
     ["src/coordinator/kv_control_lease.cc", "src/coordinator/kv_control_kv.cc", "src/server/version_service.cc"],
     ["lease_to_key_map_ rebuilt by each new leader", "periodic LeaseTask"])
prop("K03", "A watch is answered exactly once, by the first change it asked for",
     "A one-time watch on a key from a revision is answered at once with the current value if the key changed after that revision (or does not exist and the client does not wait), and otherwise with the first later put or delete its filters let through, carrying the new and, when asked, the previous value as they were. It is never missed, answered early or twice, however the change, a cancel, another watch or a change of leader races with its registration; a cancelled watch and those of a leader that steps down are answered without an event.",
     ["schedules", "histories"], "all interleavings of watch registration, changes, cancels and leader changes, all filters and start revisions",
     "A lost wakeup needs a change inside the registration of a watch.",
     ["src/coordinator/kv_control_watch.cc", "src/coordinator/kv_control_kv.cc", "src/server/version_service.cc", "src/coordinator/kv_control_fsm.cc"],
     ["one_time_watch_map_mutex_", "one_time_watch_closure_map_", "cancel callback"])
prop("K04", "Coordinator KV replicas agree after any crash, replay or snapshot",
     "Every replica of the version KV that has applied the log up to the same entry, wherever it crashed between two storage writes of an entry or of a snapshot install, however much of the log it replays and from whichever snapshot it starts, stores the same keys, revisions, leases and counters, byte for byte, and the next leader continues from them as if nothing had happened.",
     ["crash_points", "histories"], "all crash points of apply and snapshot install, replay starts, snapshots of any moment and leader changes",
     "The state is spread over several writes per entry without a transaction; only crashes between them show what replay does.",
     ["src/coordinator/kv_control_fsm.cc", "src/coordinator/kv_control_kv.cc", "src/raft/meta_state_machine.cc", "src/coordinator/coordinator_meta_storage.h", "src/meta/meta_writer.cc"],
     ["applied index written last", "LoadMetaToSnapshotFile and LoadMetaFromSnapshotFile"])
prop("K05", "Compacting the version KV removes only superseded history",
     "Compaction at a revision, of a range on request or of all keys by the periodic task, removes from each key the revisions before it that are superseded, and keys deleted before it, with their stored values; the current value of every live key, its create revision, version and lease, and all later history stay as they were, and no removed key's history or value remains stored.",
     ["inputs", "histories"], "all key histories, compaction revisions, ranges and numbers of keys",
     "Which revisions go depends on generations of deletes and re-creations and on batching over many keys.",
     ["src/coordinator/kv_control_kv.cc", "src/server/version_service.cc"],
     ["KvCompactApply over generations", "CompactionTask in batches"])
prop("O01", "A timestamp is handed out once, and never below one handed out before",
     "Every timestamp request answered without an error gets a block of exactly the asked number of consecutive timestamps that no other request ever gets, whichever coordinator answers, whatever leaders, old leaders that do not know they were deposed, clocks that stand still, jump or run back, lost proposals, restarts, snapshots and updates of the timestamp by hand come between; a leader answers in increasing order, also to requests that race, and each block fits the logical bits. A replica that does not lead, or leads but has not yet committed its first timestamp, hands out none; a new leader hands out timestamps again as soon as its proposals are committed. An update or reset by hand sets the timestamp back only when forced, takes effect when answered as done, and is not answered as done when it was not committed; an impossible count is refused and changes nothing.",
     ["inputs", "schedules", "histories"], "all interleavings of requests, clock readings, ticks, elections, lost and late proposals, restarts and resets",
     "A timestamp given twice needs a race or a change of leader at one moment; no test of the timestamp oracle builds here.",
     ["src/coordinator/tso_control.cc", "src/coordinator/tso_control.h", "src/raft/meta_state_machine.cc"],
     ["save_physical window with a guard on leader start", "tso_mutex_", "apply of OP_UPDATE_TSO"])
prop("I01", "Auto-increment ids are given once and every replica agrees on the next",
     "Every successful generate request on a counter gets a range of ids that holds the asked number of ids on the asked increment and offset and no id that any other request got, past 32 bits too; a counter only moves forward except by a forced update, or when it is deleted and created anew. Creating an existing counter changes nothing and is refused unless it is already at that start; update, generate and delete of one that does not exist and impossible arguments are refused and change nothing. This holds also when requests race with each other, when proposals are lost or committed after the leader was told they were not, and when leaders change; a request whose proposal was not committed is not answered as done. Every replica that applied the same log, replayed or from a snapshot, has the same counters.",
     ["inputs", "schedules", "histories"], "all sequences and interleavings of creates, updates, generates, deletes and restores, all counts, increments and offsets, all lost proposals, elections, restarts and snapshots",
     "The counter is read before and moved after a raft round trip, so races and 64-bit edges decide; no test of it builds here.",
     ["src/coordinator/auto_increment_control.cc", "src/coordinator/auto_increment_control.h", "src/raft/meta_state_machine.cc"],
     ["auto_increment_map_mutex_", "GetGenerateEndId and GetRealStartId", "apply of CREATE, UPDATE and DELETE"])
prop("S01", "The raft log reads back exactly what raft appended, region by region",
     "Every entry that raft appended to a region's log and did not truncate, reset away or destroy reads back with the same index, term, type, bytes and members, one by one, in ranges, as data entries, in searches and, for configurations, when raft starts, with the term cache on or off; entries that were truncated, overwritten, reset away or destroyed never come back. First and last index name exactly the entries that are there, an empty log ends just before it begins, ranges are in order and without holes, and operations on one region leave every other region's log as it is, whatever the region ids. This holds after every restart.",
     ["inputs", "histories", "schedules"], "all sequences of appends, truncations at both ends, resets, destructions and restarts over any number of regions, and their interleavings with readers",
     "All regions share one database and one write queue; a mistake in keys, bounds or the cache shows only for certain neighbours, terms or histories, and no test of the log builds here.",
     ["src/log/rocks_log_storage.cc", "src/log/rocks_log_storage.h", "src/log/index_term_map.cc"],
     ["Codec::EncodeKey", "AdjustIndexMeta", "IndexTermMap", "InitIndexMeta"])
prop("S02", "Log entries answered as stored survive a power loss, without holes",
     "With synchronous logging on, whatever append, truncation or reset was answered as done is on disk after a power loss at any moment, for every region; what was not yet answered is there whole or not at all, in the order it was issued. A log is never left with a hole or a mix of old and new, and goes on working after the loss. An operation whose sync to disk failed is not answered as done.",
     ["crash_points", "schedules"], "every point at which power can be lost, every grouping of the requests of many regions into one write, every failed sync",
     "Requests of many regions are grouped into one write and one sync; only a crash between the steps tells an answer too early, or a request cut in two.",
     ["src/log/rocks_log_storage.cc"],
     ["ExecuteRoutine", "ApplyWriteOp then SyncWal, then the answer", "RegisterRegion saves before use"])
prop("S03", "The raft log keeps what any of its users still needs, and frees the rest",
     "In an index store raft and the vector index both use the log. An entry is dropped from the head only when each of them asked to keep from a later one: until the vector index has asked, and again from the moment it holds the log after having released it, nothing it needs is dropped, however much raft lets go, also after a restart and when both ask at the same moment. When both have let go, the entries are freed. The one exception is a log that raft starts over behind its end, which drops all that is before rather than leave a hole.",
     ["histories", "schedules"], "all sequences and interleavings of truncations by both users, holds, releases, resets and restarts",
     "An entry dropped too early is noticed only when a vector index is loaded and replays, with silently wrong search results.",
     ["src/log/rocks_log_storage.cc", "src/handler/raft_vote_handler.cc", "src/vector/vector_index_snapshot_manager.cc"],
     ["truncate_prefixs per client", "TruncatePrefix"])
prop("G01", "Coordinators agree on all metadata, through crashes, restarts and snapshots",
     "Every coordinator that has applied the same log holds the same schemas, tables, indexes, regions, stores, executors, users, tenants, jobs and pending store commands, in memory and on disk, whether it got there as leader or follower, was stopped or killed at any moment and replayed part of its log again, or was given a snapshot, even if it was killed while the snapshot was installed. What a request put through changed is there afterwards and nothing else is: a command moved to another store stays moved, a job advances one step only when every store of that step is done, whatever was dropped stays dropped. No request that was accepted, in whatever order requests in flight reach the log, stops the coordinators.",
     ["histories", "crash_points"], "all sequences of requests, in any number in flight together, elections, crashes between any two storage writes, replays and snapshots",
     "Applying an entry updates dozens of tables in memory and on disk in several writes; only a crash or a snapshot between them tells one that was missed, and no test of the coordinator builds here.",
     ["src/coordinator/coordinator_control_fsm.cc", "src/coordinator/coordinator_meta_storage.h", "src/raft/meta_state_machine.cc", "src/coordinator/coordinator_control.cc"],
     ["ApplyMetaIncrement", "applied index kept with the id epochs", "Recover", "LoadMetaFromSnapshotFile", "UpdateJobProcess"])
prop("G02", "Coordinator identifiers are never given twice, and a name means one thing",
     "No identifier of a schema, table, partition, region, store, command, job or tenant counter that a client was given is ever given again, by any leader, to any number of clients at once, after any crash, restart or snapshot. Of all clients that create a schema, table or index of one name in one place exactly one succeeds, a name in use is refused, a name whose creation failed or that was dropped can be used again, and each name and identifier leads to what was created under it, listed once, until it is dropped. A schema with tables, or a tenant with schemas, is not dropped. Each region is found under its key range exactly once.",
     ["schedules", "histories", "crash_points"], "all interleavings of clients and sequences of creations, drops, failed proposals and changes of leader",
     "Names and numbers are reserved in the memory of a leader before anything is logged; what a lost leadership leaves behind shows only with the next one.",
     ["src/coordinator/coordinator_control.cc", "src/coordinator/coordinator_control_meta.cc", "src/coordinator/coordinator_control_fsm.cc", "src/coordinator/coordinator_meta_storage.h"],
     ["GetNextId and GetNextIds", "schema_name_map_safe_temp_ and its like", "BuildTempMaps at the start of a leadership"])
prop("G03", "GC safe points only advance, and tenants keep their own",
     "The safe point and the resolve-lock safe point, of the cluster and of each tenant, are at any time the highest value that any request put through asked for: a lower or equal one changes nothing, one that was answered is never taken back, whatever else is in flight and whoever leads next. An advance of one of them leaves the other one, the other tenants and a tenant's name and comment alone, and a change of name leaves the safe points alone. GC is stopped exactly from the request that stops it until the one that starts it.",
     ["schedules", "histories", "crash_points"], "all orders of advances, renames, creations and removals of tenants in flight together, lost proposals, changes of leader, crashes and snapshots",
     "A safe point that goes back, or one that is told before it is agreed, lets GC remove versions that a reader may still use.",
     ["src/coordinator/coordinator_control_coor.cc", "src/coordinator/coordinator_control_fsm.cc", "src/coordinator/coordinator_meta_storage.h"],
     ["UpdateGCSafePoint", "GetGCSafePoint", "tenant UPDATE in ApplyMetaIncrement", "UpdatePresentId"])
# ---- more ----

if __name__ == "__main__":
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    try:
        import jsonschema
    except ImportError:
        jsonschema = None
    subprocess.check_call([sys.executable, f"{V}/lib/mkmanifest.py"])
    subprocess.check_call([sys.executable, f"{V}/lib/mkdesign.py"])
