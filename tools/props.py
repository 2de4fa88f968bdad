"""Per property: which harness package runs it, under which build, and what its evidence says."""

def P(pkg, level, technique, rule, observe=(), race=False, cli=False, note="", assumptions=(), **kw):
    return dict(pkg=pkg, level=level, technique=technique, rule=rule, observe=list(observe), race=race, cli=cli,
                note=note, assumptions=list(assumptions), **kw)

MULTI = [8, 2, 4, 1, 3, 8, 2, 4]

PROPS = {
    "C01": P("sys", "exploration", "byte-exact output oracle over whole patches with instrumented input, source and output",
             "case = (reference, local, block size, parallelism, output kind) from generated contents and edit scripts; distinct by description, empty references are trivial",
             ["patches", "bytes_output", "spans_fetched", "patches_reusing_local_data", "outputs_same", "outputs_hardlink", "outputs_existing-longer", "huge_patches", "overlapping_operations"], cli=True),
    "C02": P("sys", "fault_enumeration", "fault injection at every input, source and output call with an honest-success oracle",
             "case = patch with a fault at each call index of each of 12 kinds, random multi-fault sequences, faults of server, disk and paths around real files, and failing system calls of the command",
             ["faults_hit", "faults_survived", "operations_succeeded", "faults_hit_fetchdirty", "closings_failed", "faults_hit_close"], cli=True, strace=["faults_hit_close"]),
    "C18": P("sys", "exploration", "independent index encoder and byte-exact output oracle around runs of the real command",
             "case = (file, name, block size, local file, output kind) built and patched by the command against an HTTP server",
             ["indexes_built", "index_records", "round_trips", "refused"], cli=True),
    "C33": P("sys", "exploration", "byte-exact output oracle over runs of the real command with resources at places of every documented form",
             "case = form and place of the index and of the source (names with special characters, links, plain/TLS/HTTP2/IPv6 servers, escapes, queries, credentials, redirects; absent ones)",
             ["patched", "index_path", "index_url", "source_url", "refused"], cli=True),
    "C19": P("sys", "fault_enumeration", "every truncation and header corruption of index files, file-state monitor around runs of the real command",
             "case = spoilt index x (patch with/without separate output, diff); every mutation of small indexes, random ones of larger",
             ["patches_refused", "diffs_refused", "valid_accepted"], cli=True),
    "C20": P("sys", "fault_enumeration", "file-state monitor under injected failures and kills at system calls of the real command",
             "case = in-place operation with a failing server/disk/install, or a run of the command killed or failed at the n-th system call of a kind",
             ["operations_failed", "installs_failed", "operations_succeeded", "states_observed_during_fetches", "runs_killed", "states_temp-partial", "states_temp-complete", "runs_with_failed_call"], cli=True,
             strace=["runs_killed", "states_temp-partial", "states_temp-complete", "runs_with_failed_call"]),
    "C27": P("sys", "fault_enumeration", "resource monitor (descriptors, connections, goroutines, temporary files) after operations that end in any way",
             "case = 1-4 operations x output kind x fault; finalizers are held off, so that nothing forgotten is closed by chance",
             ["operations_closed", "operations_failed", "operations_not_made", "temporary_files_kept"]),
    "C28": P("sys", "fault_enumeration", "job-done oracle and directory monitor around runs of the real command",
             "case = command with possible or impossible arguments and places, or a failing system call on one of its files",
             ["jobs_done", "jobs_refused", "faults_reported", "faults_survived"], cli=True, strace=["faults_reported", "faults_survived"]),
    "C24": P("sys", "exploration", "accounting oracle and independent block search over the printed statistics, race detector in the command",
             "case = (index, local file, parallelism); local files beyond 1 MiB are scanned in parallel", ["reports", "parallel_reports", "blocks_matched", "blocks_missing", "identical_files", "index_reports_beyond_4gb", "huge_reports"], cli="race"),
    "C22": P("sys", "exploration", "request monitor at the block source against independently found occurrences",
             "case as for C01; a block with an isolated occurrence must not be requested", ["blocks_requested", "blocks_isolated", "identical_files", "huge_patches"]),
    "C23": P("sys", "exploration", "race detector and per-operation result oracles over concurrent operations sharing an index",
             "case = 2-16 concurrent patches, scans, generations and lookups on one index", ["operations_patch", "operations_file", "operations_inplace", "operations_scan", "operations_generate", "operations_lookup", "matches"], race=True),
    "C03": P("src", "exploration", "integrity oracle over verifier verdicts, deliveries and patch output under corrupting sources",
             "case = reference, block size, hash, history of honest and corrupted responses (17 kinds); distinct by sizes and history",
             ["verifications_rejected", "verifications_accepted", "rejected", "delivered", "corrupted_patches"]),
    "C04": P("src", "fault_enumeration", "scripted raw HTTP server recording requests, byte-exact delivery oracle",
             "case = one of 40 server behaviours x range (also beyond 4 GB) x known/unknown size", ["requests_seen", "fetched", "bad_responses_reported"]),
    "C05": P("src", "exploration", "delivery-order and conservation monitor at quiescent points of randomly scheduled executions, race detector",
             "case = schedule of requests, completions and deliveries in a synctest bubble (distinct by its trace), or a free-running execution",
             ["deliveries", "schedules", "fetches"], race=True, gomaxprocs=MULTI),
    "C06": P("src", "exploration", "shutdown monitor at quiescent points of scheduled failures/closes/requests, leak detection, race detector",
             "case = schedule of requests, completions, failures, closes and late calls in a synctest bubble (distinct by its trace), or a free-running execution",
             ["faults", "closes", "requests_refused", "operations_closed"], race=True, gomaxprocs=MULTI),
    "C29": P("src", "fault_enumeration", "conservation and content oracle over deliveries, use monitor in the reader, race detector",
             "case = virtual file up to 2^54 bytes, read style, request history, failing seek or read, file shrunk or grown",
             ["deliveries", "complete", "failures_reported", "beyond_reported", "patches"], race=True, gomaxprocs=MULTI),
    "C21": P("src", "exploration", "exact-arithmetic model of request splitting and byte ranges",
             "all ranges/desired sizes for small files; random ones up to 2^62 bytes", ["requests", "blocks"]),
    "C07": P("unit", "exploration", "online trace oracle: every match event compared with the bytes",
             "case = (reference, scanned data, block size, base offset, read chunking) from content kinds incl. weak-checksum collisions and edit scripts; distinct by kind/script/sizes/style",
             ["matches", "weak_false_positives"]),
    "C08": P("unit", "exploration", "completeness oracle against an independent matcher",
             "case as for C07; every occurrence of a full reference block found by a naive matcher must be reported or overlapped by an earlier match",
             ["occurrences"]),
    "C09": P("unit", "fault_enumeration", "fault injection at every read with a stream-grammar monitor",
             "case = scan with a reader failing at each read index in turn (persistent/transient, with/without data); plus random large scans",
             ["faults_hit"]),
    "C10": P("unit", "exploration", "set-model monitor over merged spans under concurrent streams and the race detector",
             "case = set of match streams (duplicates, conflicts, error ends) merged by free-running or scheduled goroutines", ["spans"], race=True, gomaxprocs=MULTI),
    "C11": P("unit", "exploration", "partition oracle over span lists",
             "all found-span lists for small references, random lists for larger ones", ["partitions"]),
    "C12": P("unit", "exploration", "reference-model monitor after every operation",
             "random and exhaustive operation sequences on both rolling-sum forms against an independent double sum", ["sums_compared"]),
    "C13": P("unit", "exploration", "reference-model monitor after every operation",
             "all short operation sequences for capacities 1-4 and random long ones against a byte-slice model", ["writes", "truncations"]),
    "C14": P("unit", "exploration", "independent recomputation of every record, generator reuse under the race detector",
             "case = history of generations on one generator (stream/batch/output/index forms, reading styles, other earlier use)", ["records", "generations"], race=True, gomaxprocs=MULTI),
    "C15": P("unit", "fault_enumeration", "fault injection at every read/compress/write call, leak detection in synctest bubbles",
             "case = small input with a fault at each call index in turn, or a random large input with one fault", ["faults_hit"]),
    "C16": P("unit", "exploration", "multiset model of lookups, concurrent readers under the race detector",
             "case = multiset of checksums with forced weak/strong sharing, random present/absent queries, 1-8 readers", ["lookups_found"], race=True, gomaxprocs=MULTI),
    "C17": P("unit", "fault_enumeration", "round-trip and cut/fault enumeration against the record list",
             "every cut and read-error position of record streams; random chunkings", ["loads", "rejections"]),
    "C25": P("unit", "exploration", "scripted source and output monitors in synctest bubbles",
             "case = partition into found/missing spans, virtual local file up to 2^40 bytes, honest or misbehaving source", ["requests", "bytes_written", "huge_spans"]),
    "C30": P("unit", "exploration", "back-pressure monitor at quiescent points of synctest bubbles, monitor of the reachable memory during long runs",
             "case = amounts taken before the consumer stalls, or a stream of 24-48 MB generated, scanned, merged, copied or patched",
             ["stalls", "looks", "megabytes"]),
    "C31": P("unit", "exploration", "counting index between comparer and index, race detector",
             "case = 1-8 concurrent scans that share one comparer", ["comparisons", "weak_hits", "strong_hits", "false_hits"], race=True, gomaxprocs=MULTI),
    "C32": P("sys", "exploration", "memory monitor (peak resident set) around runs of the real command on large files",
             "case = build, diff or patch (separate output, in place, half or all to be fetched) of a file of some hundred megabytes",
             ["commands_measured", "looks", "megabytes"], cli=True, shards=4),
    "C26": P("unit", "exploration", "byte-stream model under random read patterns, race detector",
             "case = composition of helper streams with the content its parameters specify, read with 5 patterns, alone, by turns or at the same time", ["bytes", "streams_by_turns", "streams_in_parallel"], race=True),
}

NOT_APPLICABLE = {}
