"""What each harness is built from, and which runs decide each property."""
SIMD_FLAGS = {"simd/distances_sse.cc": ["-msse4.2"], "simd/distances_avx.cc": ["-mf16c", "-mavx2"],
              "simd/distances_avx512.cc": ["-mf16c", "-mavx512f", "-mavx512dq", "-mavx512bw"]}
TARGETS = {
    "simd": dict(harness=["harness/simd.cc"], shim=False, flags=SIMD_FLAGS,
                 repo=["simd/hook.cc", "simd/distances_ref.cc", "simd/distances_sse.cc", "simd/distances_avx.cc", "simd/distances_avx512.cc"]),
    "slice": dict(harness=["harness/slice.cc"], shim=False, repo=["common/slice.cc"]),
    "uuid": dict(harness=["harness/uuid.cc"], shim=False, repo=["common/uuid.cc"]),
    "logging": dict(harness=["harness/logging.cc"], shim=False, repo=["common/logging.cc"]),
    "syscheck": dict(harness=["harness/syscheck.cc"], shim=False, repo=["common/syscheck.cc", "common/logging.cc"]),
    "codec": dict(harness=["harness/codec.cc"], protos="all", stub=True,
                  repo=["mvcc/codec.cc", "common/serial_helper.cc", "vector/codec.cc", "document/codec.cc", "common/helper.cc"]),
}
STORE = ["engine/storage.cc", "engine/mono_store_engine.cc", "engine/raft_store_engine.cc", "engine/rocks_raw_engine.cc", "engine/txn_engine_helper.cc",
         "engine/concurrency_manager.cc", "engine/gc_safe_point.cc", "engine/gc_task_tracker.cc", "handler/handler.cc", "handler/raft_apply_handler.cc",
         "handler/raft_apply_handler_txn.cc", "handler/raft_snapshot_handler.cc", "handler/raft_vote_handler.cc", "event/event.cc",
         "event/store_state_machine_event.cc", "meta/meta_reader.cc", "meta/meta_writer.cc", "meta/store_meta_manager.cc", "metrics/store_metrics_manager.cc",
         "metrics/store_bvar_metrics.cc", "mvcc/codec.cc", "mvcc/reader.cc", "mvcc/iterator.cc", "mvcc/ts_provider.cc", "common/helper.cc", "common/latch.cc",
         "common/role.cc", "common/runnable.cc", "common/serial_helper.cc", "common/stream.cc", "common/synchronization.cc", "common/threadpool.cc",
         "common/tracker.cc", "common/failpoint.cc", "common/logging.cc", "common/slice.cc", "common/uuid.cc", "config/config_helper.cc", "config/config_manager.cc",
         "config/yaml_config.cc", "coordinator/coordinator_interaction.cc", "scan/scan.cc", "scan/scan_filter.cc", "scan/scan_manager.cc",
         "vector/codec.cc", "document/codec.cc", "log/index_term_map.cc"]
SERVICE = STORE + ["raft/raft_node.cc", "raft/raft_node_manager.cc", "raft/state_machine.cc", "raft/store_state_machine.cc", "raft/dingo_filesystem_adaptor.cc", "server/store_service.cc", "server/service_helper.cc"]
TARGETS["kv"] = dict(harness=["harness/kv.cc", "shim/braft_shim.cc"], protos="all", stub=True, libs=["-lyaml-cpp"], repo=SERVICE)
TARGETS["txn"] = dict(harness=["harness/txn.cc", "shim/braft_shim.cc"], protos="all", stub=True, libs=["-lyaml-cpp"], repo=SERVICE)
TARGETS["coordmeta"] = dict(harness=["harness/coordmeta.cc", "shim/braft_shim.cc"], protos="all", stub=True, libs=["-lyaml-cpp"],
                            repo=SERVICE + ["coordinator/coordinator_control.cc", "coordinator/coordinator_control_coor.cc", "coordinator/coordinator_control_fsm.cc", "coordinator/coordinator_control_meta.cc", "coordinator/coordinator_control_watch.cc", "coordinator/auto_increment_control.cc", "raft/meta_state_machine.cc"])
TARGETS["coordkv"] = dict(harness=["harness/coordkv.cc", "shim/braft_shim.cc"], protos="all", stub=True, libs=["-lyaml-cpp"],
                          repo=SERVICE + ["coordinator/kv_control.cc", "coordinator/kv_control_fsm.cc", "coordinator/kv_control_kv.cc", "coordinator/kv_control_lease.cc",
                                          "coordinator/kv_control_watch.cc", "raft/meta_state_machine.cc", "server/version_service.cc"])
TARGETS["ids"] = dict(harness=["harness/ids.cc", "shim/braft_shim.cc"], protos="all", stub=True, libs=["-lyaml-cpp"],
                      repo=SERVICE + ["coordinator/tso_control.cc", "coordinator/auto_increment_control.cc", "raft/meta_state_machine.cc"])
TARGETS["raftlog"] = dict(harness=["harness/raftlog.cc", "shim/braft_shim.cc"], protos="all", stub=True, libs=["-lyaml-cpp"], repo=SERVICE + ["log/rocks_log_storage.cc"])
CHECKS = {
    "V01": dict(technique="ASan/UBSan run of every kernel against a long-double oracle", note="all kernels x dims 0..160 + large, exact-size misaligned buffers",
                runs=[dict(target="simd", san="asan"), dict(target="simd", san="none", tier="thorough")],
                rule="(kernel set, dimension, value class) triples; non-trivial when the kernel ran on exactly sized heap buffers and was judged against long-double arithmetic",
                require={"madd_cases": 1000, "dispatch_settings": 8}),
    "C01": dict(technique="ASan/UBSan/TSan runs of byte-string views on exact-size buffers against a std::string oracle", note="all pairs over boundary bytes to length 3, random to 5000 bytes, all 2-char hex texts",
                runs=[dict(target="slice", san="asan"), dict(target="slice", san="tsan")],
                rule="(operand, operand) or hex text; non-trivial when not all operands are empty",
                require={"pairs": 20000, "hex_invalid": 1000, "concats": 1000}),
    "C02": dict(technique="online monitors (shape, uniqueness, entropy) over ids from threads and forked processes, under ASan and TSan", note="thousands of ids from 8 threads + 6 forked processes",
                runs=[dict(target="uuid", san="asan"), dict(target="uuid", san="tsan")],
                rule="each generated identifier or hashed name is a case",
                require={"uuids": 4000, "forked_uuids": 1000, "named": 1000}),
    "C03": dict(technique="interposed kernel files and resource limits; monitor compares the verdict with the limit actually in force", note="all limit/privilege combinations, 243 check combinations",
                runs=[dict(target="syscheck", san="asan")],
                rule="each kernel setting / limit pair is a case",
                require={"limit_raised": 10, "limit_denied": 10, "combinations": 243}),
    "C04": dict(technique="offline checker over the log files written by real processes and threads (sanitized)", note="4 initial levels, run-time switches, 6 writer threads",
                runs=[dict(target="logging", san="asan"), dict(target="logging", san="tsan")],
                rule="(severity, level, file) or (thread, line) cases",
                require={"threaded_lines": 2000, "switch_checks": 500, "fatal_runs": 3}),
    "J01": dict(technique="round-trip and offset-directory monitors over randomized executions of the real Java codec", note="random schemas over 17 types, both codecs, boundary values",
                runs=[dict(py="javarun", main="SerialCheck", mode="roundtrip", label="java/roundtrip")],
                rule="(schema, record) pairs; distinct by encoded bytes", require={"roundtrips": 30000, "with_nulls": 10000, "offset_reads": 30000, "rejected_id": 10000}),
    "J02": dict(technique="pairwise order monitor over keys produced by the real Java codec", note="random key schemas, pairs sharing prefixes, neighbouring values",
                runs=[dict(py="javarun", main="SerialCheck", mode="order", label="java/order")],
                rule="pairs of rows of one table; distinct by key bytes", require={"ordered_pairs": 60000, "equal_pairs": 5000, "prefixes": 30000, "table_pairs": 1500}),
    "J03": dict(technique="projection monitor (partial decode against whole record) over the real Java codec", note="random schemas, records and column subsets",
                runs=[dict(py="javarun", main="SerialCheck", mode="projection", label="java/projection")],
                rule="(schema, record, column subset) triples", require={"projections": 20000}),
    "M01": dict(technique="ASan/UBSan run of the key/value codec on exact-size buffers against a reference encoding and an order oracle", note="all short boundary keys pairwise, random keys and versions, hostile encodings",
                runs=[dict(target="codec", san="asan", args=dict(mode="mvcc"), label="codec/mvcc")],
                rule="(key, version) pairs, value packages and integer pairs, by content", require={"pairs": 60000, "hostile_valid": 500, "hostile_invalid": 20000, "values": 50000, "kv_lists": 10000}),
    "M02": dict(technique="ASan/UBSan run of the vector and document key codecs against a reference encoding and an order oracle", note="random prefixes, partitions, ids, scalar keys, versions and id ranges",
                runs=[dict(target="codec", san="asan", args=dict(mode="keys"), label="codec/keys")],
                rule="pairs of (prefix, partition, id, scalar key, version)", require={"vector_rows": 20000, "document_rows": 20000, "ranges": 50000}),
    "D01": dict(technique="sanitized run of the tokenizer-parameter check against an independent verdict", note="random column sets and malformed parameters; the full-text engine's own check is a recording stand-in",
                runs=[dict(target="codec", san="asan", args=dict(mode="tokenizer"), label="codec/tokenizer")],
                rule="tokenizer parameter texts", require={"accepted": 1000, "refused": 2000, "defaults": 5000}),
    "R01": dict(technique="online reference model checked after every request to the real store service, under ASan/UBSan", note="random request sequences over adversarial keys on both engines, reads now and at recorded timestamps",
                runs=[dict(target="kv", san="asan", args=dict(mode="seq"), label="kv/seq")],
                rule="(request kind, keys, values) of each write; non-trivial as each is followed by reads judged against the model",
                require={"writes": 4000, "reads_at_ts": 2000, "range_deletes": 300, "cas_match": 300, "cas_mismatch": 200, "put_if_absent_some_present": 200}),
    "R02": dict(technique="online monitor of refusals: error code, empty answer, and byte comparison of all stored data, under ASan/UBSan", note="every raw request x every cause of refusal, both engines",
                runs=[dict(target="kv", san="asan", args=dict(mode="guard"), label="kv/guard")],
                rule="(round, cause, position of the offending key); non-trivial as each issues every request kind the cause applies to",
                require={"refusals": 3000, "guard_kind_0": 200, "guard_kind_8": 50, "wide_range_deletes": 80}),
    "R03": dict(technique="offline linearizability checker (Wing-Gong search) over recorded concurrent histories and conservation monitors, under ASan and TSan", note="hundreds of histories of 2-6 clients per run on both engines; batches compete for keys and move amounts",
                runs=[dict(target="kv", san="asan", args=dict(mode="conc"), label="kv/conc"), dict(target="kv", san="tsan", args=dict(mode="conc"), label="kv/conc")],
                rule="one concurrent history of a key, or one round of competing batches; distinct by requests and answers",
                require={"histories": 300, "overlapping_ops": 4000, "batch_rounds": 100, "transfers": 300, "contended_creates": 500}),
    "R04": dict(technique="byte comparison of leader and follower stores fed by one log through the real state machine, with restarts and replays, under ASan/UBSan", note="2 followers, restarts from up to 12 entries back, replays from before the applied index",
                runs=[dict(target="kv", san="asan", args=dict(mode="replica"), label="kv/replica")],
                rule="each write entering the log", require={"writes": 2000, "replica_comparisons": 200, "restarts": 40, "stale_entries": 3000}),
    "R05": dict(technique="trace checker comparing the pages of each scan with the model's snapshot at its start, and snapshot leak counters, under ASan/UBSan", note="both scan APIs, key-only, manual and automatic release, writes between pages",
                runs=[dict(target="kv", san="asan", args=dict(mode="scan"), label="kv/scan")],
                rule="(scan options, range, writes in between)", require={"scans": 700, "scan_pages": 1500, "writes_during_scan": 500}),
    "T01": dict(technique="online reference model of Percolator transactions judged after every request to the real store service, under ASan/UBSan", note="random sequences of requests by many transactions, live, abandoned and long gone, with repeats and late messages, on both engines with a follower; every answer and the complete lock, write and data column families are compared with the model after every request; weighted to gets, batch gets, scans and lock scans at past, present and future timestamps",
                runs=[dict(target="txn", san="asan", args=dict(mode="read"), label="txn/read")],
                rule="(request, expected answer)", require={'gets': 2000, 'reads_blocked': 400}),
    "T02": dict(technique="online reference model of Percolator transactions judged after every request to the real store service, under ASan/UBSan", note="random sequences of requests by many transactions, live, abandoned and long gone, with repeats and late messages, on both engines with a follower; every answer and the complete lock, write and data column families are compared with the model after every request; weighted to prewrites and commits",
                runs=[dict(target="txn", san="asan", args=dict(mode="write"), label="txn/write")],
                rule="(request, expected answer)", require={'op_prewrite': 4000, 'op_commit': 2000, 'async_commits': 150, 'one_pc_commits': 300, 'refused_prewrite': 1000}),
    "T03": dict(technique="online reference model of Percolator transactions judged after every request to the real store service, under ASan/UBSan", note="random sequences of requests by many transactions, live, abandoned and long gone, with repeats and late messages, on both engines with a follower; every answer and the complete lock, write and data column families are compared with the model after every request; weighted to status checks, rollbacks, resolutions, heartbeats",
                runs=[dict(target="txn", san="asan", args=dict(mode="life"), label="txn/life"), dict(target="txn", san="asan", args=dict(mode="overlap", late="1"), label="txn/late")],
                rule="(request, expected answer)", require={'op_check-status': 1500, 'op_batch-rollback': 400, 'op_resolve': 200, 'op_check-secondary': 200, 'overlap_late': 400}),
    "T04": dict(technique="online reference model of Percolator transactions judged after every request to the real store service, under ASan/UBSan", note="random sequences of requests by many transactions, live, abandoned and long gone, with repeats and late messages, on both engines with a follower; every answer and the complete lock, write and data column families are compared with the model after every request; weighted to pessimistic locks",
                runs=[dict(target="txn", san="asan", args=dict(mode="pess"), label="txn/pess")],
                rule="(request, expected answer)", require={'op_pessimistic-lock': 2000, 'op_pessimistic-rollback': 150}),
    "T05": dict(technique="online reference model of Percolator transactions judged after every request to the real store service, under ASan/UBSan", note="random sequences of requests by many transactions, live, abandoned and long gone, with repeats and late messages, on both engines with a follower; every answer and the complete lock, write and data column families are compared with the model after every request; garbage collection, also cut between batches, and range deletes among transactions",
                runs=[dict(target="txn", san="asan", args=dict(mode="gc"), label="txn/gc")],
                rule="(request, expected answer)", require={'op_gc': 800, 'gc_removed': 1200, 'gc_interrupted': 60, 'gc_reads_compared': 40000, 'op_delete-range': 80}),
    "T06": dict(technique="offline checker of a bank run by concurrent clients (conservation, atomicity, snapshot reads, acknowledged outcomes against committed versions), under ASan and TSan", note="2-6 clients x every kind of transaction, abandoned transactions, repeated messages, lock clearing, garbage collection, on both engines with a follower",
                runs=[dict(target="txn", san="asan", args=dict(mode="bank"), label="txn/bank"), dict(target="txn", san="tsan", args=dict(mode="bank", few="1"), label="txn/bank-tsan")],
                rule="(start, commit) of a transaction", require={'bank_committed': 1000, 'bank_reads_checked': 2000, 'bank_abandoned': 300}),
    "T07": dict(technique="serializability monitor: one request held at its storage write by a hook while others run, answers and complete state matched against every serial order of the model, under ASan and TSan", note="pairs and triples of all requests on few keys",
                runs=[dict(target="txn", san="asan", args=dict(mode="overlap"), label="txn/overlap"), dict(target="txn", san="tsan", args=dict(mode="overlap", few="1"), label="txn/overlap-tsan")],
                rule="the set of requests", require={'overlap_pairs': 2000, 'overlap_held': 500}),
    "T08": dict(technique="online monitor of refusals (error code, no data, byte comparison of all stored data and log length, no memory lock left) and of injected proposal failures, under ASan/UBSan", note="every transactional request x every cause x position of the offending key; raft refuses half of the writes",
                runs=[dict(target="txn", san="asan", args=dict(mode="guard"), label="txn/guard")],
                rule="(request, cause, position of the key) or (request, failed)", require={'refusals': 6000, 'guard_kind_8': 300, 'guard_kind_9': 1500, 'failed_prewrite': 30, 'failed_commit': 8}),
    "K01": dict(technique="online reference model of revisions, leases and watches judged after every request to the real version service of a replicated coordinator, under ASan/UBSan", note="random request sequences with hostile keys, limits, flags and refused proposals, leader changes; raw index and revision entries, counts and replicas compared throughout",
                runs=[dict(target="coordkv", san="asan", args=dict(mode="seq"), label="coordkv/seq")],
                rule="(key, value, flags of a change)", require={'puts': 2000, 'ranges': 1200, 'counts': 300, 'multi_deletes': 150, 'puts_keep_value': 80, 'puts_keep_lease': 40, 'follower_requests': 100, 'revisions_read': 8000}),
    "K02": dict(technique="online reference model of revisions, leases and watches judged after every request to the real version service of a replicated coordinator, under ASan/UBSan, and a race monitor under TSan", note="moved clock, expiry task, leader changes with and without a built lease map; puts racing with revoke and expiry",
                runs=[dict(target="coordkv", san="asan", args=dict(mode="lease"), label="coordkv/lease"), dict(target="coordkv", san="asan", args=dict(mode="leaserace"), label="coordkv/leaserace"), dict(target="coordkv", san="tsan", args=dict(mode="leaserace"), label="coordkv/leaserace-tsan")],
                rule="(change of a key), or (race, puts accepted)", require={'grants': 600, 'renews': 150, 'revokes': 150, 'leases_expired': 200, 'keys_revoked': 100, 'lease_queries': 1000, 'lease_races': 700}),
    "K03": dict(technique="online reference model of revisions, leases and watches judged after every request to the real version service of a replicated coordinator, under ASan/UBSan; duels of a watch with changes, cancels and leader changes, one party held at a storage read by a hook, and clients that follow a key by repeated watches, under ASan and TSan", note="all filters and start revisions; 2500 duels",
                runs=[dict(target="coordkv", san="asan", args=dict(mode="watch"), label="coordkv/watch"), dict(target="coordkv", san="asan", args=dict(mode="conc"), label="coordkv/conc"), dict(target="coordkv", san="tsan", args=dict(mode="conc"), label="coordkv/conc-tsan")],
                rule="(watch, revision) or (duel)", require={'watches': 1200, 'watch_puts': 200, 'watch_deletes': 60, 'watch_at_once': 300, 'held_duels': 90, 'duels_put': 1500, 'duels_cancel': 700, 'duels_leader_stop': 700, 'duels_leader_start': 700, 'followed_events': 1500}),
    "K04": dict(technique="byte comparison of replicas and reference model after crashes injected at single storage writes, replays, snapshots and re-elections, under ASan/UBSan", note="3 replicas; crash at a random write of apply, snapshot install or recovery; replay from any earlier entry",
                runs=[dict(target="coordkv", san="asan", args=dict(mode="crash"), label="coordkv/crash")],
                rule="(change of a key)", require={'restarts': 600, 'crash_recoveries': 250, 'crashes_during_recovery': 60, 'snapshots': 250, 'leader_crashes': 80, 'replica_comparisons': 600, 'replayed_entries': 1500}),
    "K05": dict(technique="online reference model of revisions, leases and watches judged after every request to the real version service of a replicated coordinator, under ASan/UBSan", note="compactions of ranges and of all keys at revisions around the newest, up to 135 keys; raw index, revision entries and their number compared",
                runs=[dict(target="coordkv", san="asan", args=dict(mode="compact"), label="coordkv/compact")],
                rule="(change of a key)", require={'compactions': 300, 'compactions_all': 100, 'revisions_compacted': 1500}),
    "O01": dict(technique="monitor of every timestamp handed out by the real timestamp oracles of a simulated group (uniqueness, order per leader, availability), under ASan/UBSan and TSan", note="random histories of requests, clock jumps, ticks, elections with late, lost and unknown first updates, deposed leaders that keep answering, restarts, snapshots and resets by hand; and racing clients, ticks, resets and elections whose blocks are checked for overlap and real-time order",
                runs=[dict(target="ids", san="asan", args=dict(mode="tso"), label="ids/tso"), dict(target="ids", san="asan", args=dict(mode="tsorace"), label="ids/tsorace"), dict(target="ids", san="tsan", args=dict(mode="tsorace"), label="ids/tsorace-tsan")],
                rule="(leads, logical part), race round", require={'tso_batches': 2500, 'tso_elections': 300, 'early_requests': 80, 'second_elections': 60, 'old_leader_requests': 80, 'resets_done': 250, 'resets_refused': 250, 'resets_forced': 60, 'held_ticks': 40, 'hostile_counts': 250, 'snapshots': 120, 'restarts': 250, 'follower_requests': 250, 'raced_batches': 15000, 'raced_resets_done': 40}),
    "I01": dict(technique="online reference model of counters judged after every request to the real auto-increment controls of a simulated group, held-proposal duels, and an overlap check of raced ranges, under ASan/UBSan and TSan", note="random creates, updates, generates, deletes and restores with edge counts, increments, offsets and starts, lost and unknown proposals, elections, restarts, snapshots; pairs of requests with one held between proposal and apply; racing clients",
                runs=[dict(target="ids", san="asan", args=dict(mode="inc"), label="ids/inc"), dict(target="ids", san="asan", args=dict(mode="incduel"), label="ids/incduel"), dict(target="ids", san="asan", args=dict(mode="incrace"), label="ids/incrace"), dict(target="ids", san="tsan", args=dict(mode="incduel"), label="ids/incduel-tsan"), dict(target="ids", san="tsan", args=dict(mode="incrace"), label="ids/incrace-tsan")],
                rule="(request kind, answer), duel kind", require={'generated': 500, 'generated_wide': 60, 'creates': 150, 'creates_existing': 500, 'deletes': 80, 'updates': 350, 'restores': 350, 'elections': 400, 'restarts': 300, 'snapshots': 150, 'proposals_lost': 100, 'proposals_committed_unknown': 100, 'counter_comparisons': 400, 'duels_0': 60, 'duels_1': 60, 'duels_2': 60, 'duels_3': 60, 'duels_4': 80, 'raced_ranges': 3000}),
    "S01": dict(technique="online reference model of every region's log compared with all reads of the real log storage after every operation, content checks by racing readers, under ASan/UBSan and TSan", note="random appends, truncations, resets, destructions and restarts on neighbouring and extreme region ids, term cache on and off; racing raft writers, vector index, readers and the birth and death of regions",
                runs=[dict(target="raftlog", san="asan", args=dict(mode="model"), label="raftlog/model"), dict(target="raftlog", san="asan", args=dict(mode="race"), label="raftlog/race"), dict(target="raftlog", san="tsan", args=dict(mode="race"), label="raftlog/race-tsan")],
                rule="(operation, cache, role, log shape, region), race round", require={'checks': 8000, 'appended': 20000, 'destroyed': 150, 'reborn': 150, 'reopens': 150, 'resets': 250, 'start_over': 300, 'suffix_truncated': 800, 'configurations': 600, 'searches_hit': 1500, 'raced_reads': 4000, 'raced_scans': 4000, 'raced_births': 400}),
    "S02": dict(technique="images of the simulated disk taken at random moments, after writes and before syncs; each is recovered by the real storage and must equal the log after a whole number of operations, not fewer than were answered; under ASan/UBSan and TSan", note="2-6 regions writing at once, small and large write groups, failed syncs, power losses that keep any suffix of the unsynced writes",
                runs=[dict(target="raftlog", san="asan", args=dict(mode="crash"), label="raftlog/crash"), dict(target="raftlog", san="tsan", args=dict(mode="crash"), label="raftlog/crash-tsan")],
                rule="(moment, operations in flight, log length, operations found beyond those answered)", require={'images': 2000, 'images_anytime': 800, 'images_unsynced': 200, 'images_written': 300, 'recovered': 3000, 'recovered_unanswered': 1500, 'syncs_failed': 20}),
    "S03": dict(technique="monitor of what each user of the log asked to keep against what the real storage holds, after every truncation and in races, under ASan/UBSan and TSan", note="truncations by raft and the vector index in all orders with holds, releases, resets, starts over and restarts; both at the same moment; replays by the vector index while raft truncates",
                runs=[dict(target="raftlog", san="asan", args=dict(mode="model"), label="raftlog/model"), dict(target="raftlog", san="asan", args=dict(mode="race"), label="raftlog/race"), dict(target="raftlog", san="tsan", args=dict(mode="race"), label="raftlog/race-tsan")],
                rule="(operation, cache, role, log shape, region), race round", require={'prefix_freed': 350, 'prefix_kept': 1000, 'holds': 100, 'releases': 100, 'raced_holds': 300, 'raced_replays': 3000, 'raced_truncations': 1000, 'raced_vector_truncations': 500}),
    "G01": dict(technique="replicas of the real coordinator state machine compared on disk and in their answers, and the leader with a reference model, after crashes at storage writes, replays and snapshot installations; under ASan/UBSan", note="random requests, up to 4 in flight and out of order, refused proposals, elections, kills at any storage write of any replica (again during recovery), restarts that replay applied entries, snapshots with kills while they are installed",
                runs=[dict(target="coordmeta", san="asan", args=dict(mode="seq"), label="coordmeta/seq")],
                rule="(request, its place among those in flight, schemas, tables and tenants there are)", require={'applied': 2500, 'crash_recoveries': 200, 'crashes_during_recovery': 80, 'crashes_in_snapshots': 20, 'leader_crashes': 70, 'follower_crashes': 120, 'replayed_entries': 5000, 'replica_comparisons': 1500, 'snapshots': 60, 'job_steps': 100, 'job_checks': 2500, 'command_lists': 2000, 'command_moves': 25, 'index_checks': 500, 'table_checks': 1000, 'requests_in_flight_together': 600, 'requests_out_of_order': 150}),
    "G02": dict(technique="reference model of names and ledger of every identifier given, checked online against the real coordinator, sequentially with crashes and in races of clients, under ASan/UBSan and TSan", note="creations and drops of schemas, tables, indexes and regions with colliding names, in flight together, with refused proposals and changes of leader; races of 3-6 clients for the same names",
                runs=[dict(target="coordmeta", san="asan", args=dict(mode="names"), label="coordmeta/names"), dict(target="coordmeta", san="asan", args=dict(mode="seq"), label="coordmeta/seq"), dict(target="coordmeta", san="asan", args=dict(mode="race"), label="coordmeta/race"), dict(target="coordmeta", san="tsan", args=dict(mode="race"), label="coordmeta/race-tsan")],
                rule="(request, its place among those in flight, schemas, tables and tenants there are), races by clients and names", require={'applied': 4000, 'identifiers': 5000, 'model_checks': 2500, 'elections': 700, 'refused_proposals': 180, 'refused_requests': 2500, 'index_checks': 1500, 'table_checks': 3000, 'raced_requests': 6000, 'raced_refusals': 2000, 'raced_creates': 300, 'races': 60}),
    "G03": dict(technique="reference model of all safe points and tenants checked online against the real coordinator after every step, and monotonicity monitors in races, under ASan/UBSan and TSan", note="advances below, at and above the current values, several in flight and out of order, with renames, new and dropped tenants, lost proposals, elections, crashes and snapshots; races of clients with readers",
                runs=[dict(target="coordmeta", san="asan", args=dict(mode="gc"), label="coordmeta/gc"), dict(target="coordmeta", san="asan", args=dict(mode="race"), label="coordmeta/race"), dict(target="coordmeta", san="tsan", args=dict(mode="race"), label="coordmeta/race-tsan")],
                rule="(request, its place among those in flight, schemas and tenants there are), races by clients and names", require={'applied': 2000, 'safe_point_advances': 500, 'tenant_advances': 900, 'renames': 300, 'tenant_checks': 3500, 'model_checks': 1400, 'elections': 280, 'crash_recoveries': 80, 'snapshots': 25, 'requests_out_of_order': 200, 'raced_safe_points': 2000, 'raced_reads': 3000, 'races': 60}),
}
