"""What each check runs. PROPS: property -> stages, bounds, level. ENGINES: how a harness is built."""

SEQ_SRC = ["core.cpp", "mb.cpp", "world.cpp", "themes.cpp"]
WRAP = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "mmap", "munmap", "open", "open64", "ftruncate", "fallocate", "posix_fallocate", "pwrite", "pread", "unlink", "remove", "rename", "nanosleep", "usleep"]
# the library instrumented: every shared access is reported to mc/rt.cpp
INSTR = {"lib_cc": "clang++", "lib_flags": ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
                                            "-mllvm", "-tsan-instrument-read-before-write=1", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + ["-fno-builtin-" + f for f in ("memcpy", "memmove", "memset", "memcmp", "bcmp")],
         "cc": "clang++", "ldflags": ["-Wl,--wrap=" + w for w in WRAP] + ["-lpthread", "-ljemalloc"]}
# accesses that may become scheduling points go through mc/stubs.S
TSAN = "read1 read2 read4 read8 read16 write1 write2 write4 write8 write16 read_write1 read_write2 read_write4 read_write8 unaligned_read2 unaligned_read4 unaligned_read8 unaligned_write2 unaligned_write4 unaligned_write8 atomic8_load atomic8_store atomic16_load atomic16_store atomic32_load atomic32_store atomic64_load atomic64_store atomic8_exchange atomic16_exchange atomic32_exchange atomic64_exchange atomic16_fetch_add atomic32_fetch_add atomic64_fetch_add atomic16_fetch_sub atomic32_fetch_sub atomic64_fetch_sub atomic8_compare_exchange_strong atomic8_compare_exchange_weak atomic8_compare_exchange_val atomic16_compare_exchange_strong atomic16_compare_exchange_weak atomic16_compare_exchange_val atomic32_compare_exchange_strong atomic32_compare_exchange_weak atomic32_compare_exchange_val atomic64_compare_exchange_strong atomic64_compare_exchange_weak atomic64_compare_exchange_val memcpy memmove memset".split()
FIO = "open open64 ftruncate ftruncate64 fallocate fallocate64 posix_fallocate posix_fallocate64 mmap mmap64 pwrite pwrite64 pread pread64 write read fopen fopen64 fread fwrite fclose rename".split()
ENGINES = {
    "crash": dict(INSTR, sources=SEQ_SRC + ["rt.cpp", "stubs.S", "trace.cpp", "crash.cpp"]),
    "lf": dict(INSTR, sources=SEQ_SRC + ["rt.cpp", "stubs.S", "trace.cpp", "lf.cpp"]),
    "async": dict(INSTR, flags=["-O2", "-DCOSCHED"], sources=SEQ_SRC + ["rt.cpp", "stubs.S", "trace.cpp", "cosched.cpp", "asyncq.cpp"],
                  ldflags=INSTR["ldflags"] + ["-Wl,--wrap=" + w for w in ("pthread_create", "pthread_join", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutex_timedlock", "pthread_mutex_clocklock", "poll", "write")] + ["-Wl,--wrap=__tsan_" + n for n in TSAN]),
    # mbc.cpp is included by expr.cpp
    "expr": {"sources": SEQ_SRC + ["expr.cpp"], "repo_sources": ["binaries/expr_parser.cpp", "binaries/hexbin.cpp"], "deps": ["binaries/mbc.cpp"]},
    "fault": {"sources": SEQ_SRC + ["fio.cpp", "fault.cpp"], "ldflags": ["-Wl,--wrap=" + w for w in FIO] + ["-lpthread", "-ljemalloc"]},
    "seq": {"sources": SEQ_SRC + ["seq.cpp"]},
    "open": {"sources": SEQ_SRC + ["openclose.cpp"]},
}

NUM_MEANING = {"evaluations", "distinct_nontrivial", "states", "transitions", "traces_validated_against_impl", "ops_executed", "cut"}

SEQ_REN = {"evaluations": "traces_validated_against_impl", "distinct_nontrivial": "states", "ops_executed": "transitions"}
SEQ_TECH = "explicit-state model checking of the real code: breadth-first enumeration of all operation sequences to a depth, states merged by canonical structure hash, every step compared with a reference map"
SEQ_NOTE = ("Every operation sequence over the listed alphabets up to the depth is executed on the real library in a scratch directory; "
            "after each sequence every observation is compared with a reference map. States that agree in the whole stored structure, header counters, free lists and model are merged. "
            "Assumes the alphabets (key/value shapes chosen around every size and branching threshold in the code) represent the inputs; other shapes are outside the bound.")
SEQ_BOUNDS = {
    "quick": "63 alphabets: all sequences of adds/removes/overwrites/remove-all/collections over all keys of <=3 letters of {a,b} (31 ops, depth 4), prefix chains of 8 and 13 byte keys, nodes of 1..256 branches, keys of 1..256 bytes, values of 1..32767 bytes, bytes 00/01/7f/80/ff, over-limit keys and values, more than 256 released buffers of one size (depth 2-3)",
    "thorough": "the same alphabets one or two levels deeper (31 ops to depth 5, chains to depth 3, branches to depth 3-4, byte strings to depth 4)",
}


def seq(level_bounds=SEQ_BOUNDS, tech=SEQ_TECH, note=SEQ_NOTE, **kw):
    d = {"stages": [{"engine": "seq"}], "level": "model_checking", "technique": tech, "note": note, "bounds": level_bounds, "rename": SEQ_REN}
    d.update(kw)
    return d


CRASH_TECH = "exhaustive crash-point enumeration on the real code: every prefix of the stores of the last operation of every enumerated sequence is recovered by the real recovery code and compared with the states before and after"
CRASH_NOTE = ("The library is compiled with instrumentation that reports each of its stores (block copies in pieces of 8/4/2/1 bytes); for every prefix the files are rebuilt, opened by the next writer, "
              "compared with the reference map before/after the operation, audited (storage disjoint, counters), and then every key of the alphabet is written, replaced and removed. "
              "A process kill preserves every completed store (no power failure is modelled); sampled crash points are compared byte for byte with the files a really killed process left.")
CRASH_REN = {"evaluations": "sequences", "distinct_nontrivial": "distinct_states", "crash_points": "evaluations", "distinct_crash_images": "distinct_nontrivial"}
CRASH_RULE = "a case is one prefix of the recorded stores of the last operation of one enumerated sequence; it is distinct when the file image differs from those of the shorter prefixes"

PROPS = {
    "C01": seq(),
    "C02": seq(),
    "C03": seq(),
    "C04": seq(),
    "C05": seq(),
    "C12": seq(),
    "C10": seq({"quick": "15 stores (default, multi-block, partly mapped, unmapped, memory-only x empty/small/fragmented) x 19 operations to depth 3 (fragmented: 2), with collections of index, data, both and thresholds as operations anywhere in the sequence; one key set to depth 4",
                "thorough": "the same to depth 4 (one key set to depth 5)"}),
    "C13": seq({"quick": "24 stores (8 file configurations x empty/small/fragmented) x 18 operations to depth 3 (fragmented: 2), with close+reopen of the writer (in the same process and as a new process) and of the reader as operations; after every sequence writer, reader and a reader in another process are compared with the map",
                "thorough": "the same to depth 4"}),
    "C14": seq({"quick": "30 stores: 10 configurations (block sizes 512 B..32 KB, mapping limits of one block, two blocks, all, reader limits differing from the writer's, memory-only, sync-on-write, jemalloc) x empty/small/fragmented, 15 operations to depth 3 (fragmented: 2)",
                "thorough": "the same to depth 4"}),
    "C16": seq({"quick": "36 stores with the prefix cache (4 MB blocks: tables for 2 and 3 bytes; 16 MB: 2 to 4 bytes; jemalloc) x 6 key sets (cut at every depth around the cached ones; bytes 00 and ff) x empty/full, 15-23 operations (adds, overwrites, removes, remove-all, collection, writer with/without the cache, reader reopened) to depth 3 (one key set: 4); the cache's content is part of the state; every lookup through the writer and a reader with the cache is compared with a reader without it, and no value may lie in the cache's region",
                "thorough": "the same to depth 5 (full stores: 4)"}),
    "C21": seq({"quick": "11 starts (empty, 6 buckets filled, filled and partly overwritten/removed; bucket number 0, shortly before it wraps, and coming around to buckets that were never evicted; cleared after evictions) x 23 operations (bursts of one bucket of 8 updates, single updates, removals, collections with the count or size limit at, 1, 8, 20% and half below what is stored, with and without defragmentation, remove-all, reopen) to depth 3",
                "thorough": "21 starts (bucket numbers 0, 65528..65536) to depth 4"}),
    "C08": {"stages": [{"engine": "crash"}], "level": "fault_enumeration", "technique": CRASH_TECH, "note": CRASH_NOTE, "rename": CRASH_REN, "rule": CRASH_RULE, "bounds": {
        "quick": "22 stores and alphabets (all keys <=3 letters of {a,b} to depth 2, prefix chains, fan-out 1..256, keys to 256 bytes, values to 32 KB, multi-block / partly mapped / unmapped files); the last operation of every sequence killed before each of its stores; for 7 of them the recovery is killed before each of its stores as well",
        "thorough": "one level deeper everywhere, and the recovery killed before each of its stores everywhere"}},
    "C09": {"stages": [{"engine": "crash"}], "level": "fault_enumeration", "technique": CRASH_TECH, "note": CRASH_NOTE, "rename": CRASH_REN, "rule": CRASH_RULE, "bounds": {
        "quick": "9 stores (default, multi-block, partly mapped, unmapped, empty and filled), every sequence of 16-18 operations of length <=2 ending in a collection (all, index only, data only, thresholds), the collection killed before each of its stores; for one of them the recovery as well",
        "thorough": "sequences of length 3, the recovery killed before each of its stores everywhere"}},
}

FAULT_TECH = "exhaustive fault enumeration on the real code: the last operation of every enumerated sequence is executed once for every system call it makes, with that call failing (alone, and with all later ones failing)"
PROPS["C22"] = seq({"quick": "15 stores (default, several blocks, partly mapped, unmapped, index only mapped, sync, jemalloc; empty, small, several blocks filled; blocks filled exactly, to one byte less, and just begun) x 12 operations to depth 2-3 (4 MB blocks: 1), with a backup after every sequence and as an operation whose copy is checked again after later changes of the source; then 13 stores to depth 1 where every system call of a backup fails (alone, with all later ones) or ends the process",
                    "thorough": "one level deeper"},
                   tech=SEQ_TECH + "; then exhaustive fault enumeration of the backup itself",
                   note="After every sequence a backup is made; the copy is opened by a reader and by a writer with other settings (in other processes) and compared with the reference map, the source is compared as well, and updates of either must not show in the other. "
                        "A backup that fails must say so and leave the source intact; a copy left by a failed or killed backup must refuse to open or hold exactly the source's entries. Backups that run while the source is being updated, and those requested through the queue of an asynchronous writer, are not covered.",
                   stages=[{"engine": "seq", "share": 0.6}, {"engine": "fault", "share": 0.4}])

PROPS["C15"] = {"stages": [{"engine": "fault"}], "level": "fault_enumeration", "technique": FAULT_TECH,
    "note": "The reference map must be unchanged when an update reports an error and changed when it reports success; after every injected failure all observations are compared with it, the same update and others must succeed again (once calls no longer fail, if space is left), and the database is closed, reopened by a writer and a reader, and compared once more. "
            "Failures: open/create, ftruncate, fallocate, mmap, pread and short transfers; writes into storage that was already allocated are assumed to succeed, as is the memory of the process. Storage lost to a failed update until the next collection is allowed.",
    "rename": {"evaluations": "sequences", "distinct_nontrivial": "distinct_states", "failures_injected": "evaluations", "reported_as_errors": "distinct_nontrivial"},
    "rule": "an evaluation is one system call of the last operation of one enumerated sequence made to fail; it is non-trivial when the failure reached the operation, which reported an error (calls made in vain for what then succeeds in another way are not)",
    "bounds": {"quick": "16 stores (default, several blocks, partly mapped, unmapped, index only / data only mapped, sync, memory-only; filled to within 0-1 entries of a block end) to depth 2, and 48 stores with limits of 2-3 index and data blocks, filled to within 0-2 entries of all space, to depth 3; 20 stores in allocator mode (empty, data or index space used up, a block just filled) to depth 2; 8-12 operations; every system call of the last operation failing alone and with all later ones",
               "thorough": "one level deeper"}}
PROPS["C23"] = seq({"quick": "25 stores in allocator mode (blocks of 1, 2 and 4 MB, 2-8 of them; empty, small, values / labels / both over several blocks, with holes, blocks filled to their last byte, all space used) x 10-14 operations (add, overwrite, remove, remove-all, bulk writes and removals, writer reopened in the same or a new process, with or without a reader open, by a process that updates and dies without closing) to depth 3 (several blocks: 2; blocks filled to the last byte: 4)",
                    "thorough": "one level deeper"},
                   note=SEQ_NOTE + " In allocator mode a database whose writer died in the middle of an update or of a rebuild is reset by design; asynchronous writers cannot keep the contents. Both are outside this property.")
OPEN_NOTE = "Handles of two processes are real handles in two real processes that carry out one step at a time."
PROPS["C19"] = {"stages": [{"engine": "open"}], "level": "model_checking",
    "technique": "explicit-state model checking of the real code: breadth-first enumeration of all sequences of open/close/assign/kill over handles of two real processes, states merged by the handles and what the files and the registry show, every step compared with a reference of who is the writer",
    "note": OPEN_NOTE + " After every step every mutating operation is tried through every handle that is not the writer, and through the writer; the stored entries are compared with the reference map. An update through another handle is refused, or queued for an asynchronous writer. "
            "Opens that overlap in time are serialised by the library's lock file and explored one after the other.",
    "rename": SEQ_REN,
    "bounds": {"quick": "2 processes x (writer, asynchronous writer, reader, read-only reader, writer with another queue size, block size or an invalid bucket size, copy of the other handle; close, assign, kill): 26 actions to depth 4",
               "thorough": "depth 5"}}
PROPS["C20"] = {"stages": [{"engine": "open"}], "level": "exploration",
    "technique": "exhaustive enumeration of open configurations and header damages, executed on the real code: each is tried on a copy of a database, then the owner's handles look for every entry",
    "note": "Each configuration differs from the database's own in at most the stated number of settings; it is tried by a reader, a writer and an asynchronous writer in a new process and in the process that created the database. A handle that opens must find every entry (with fewer blocks than the database has, it may get errors, not other values); afterwards a reader and the writer with the right configuration must find everything. "
            "A header that is cut, incomplete or from another version makes a reader's open fail. A writer erases a database whose header is none of this version (the project's documented choice, also tested by it), and a writer that does not ask to keep an allocator-managed database resets it. Arbitrary damage inside of a header of the right version is not judged.",
    "rule": "an evaluation is one open of one database (or one damage); all are distinct; it is non-trivial when the settings or the header differ from the database's own",
    "bounds": {"quick": "5 databases x 3 modes x all configurations that differ in <=2 of 11 settings (42 values) x same/new process; 5 databases x 2 kinds of readers x every value of the version bytes, header cut at nearly every length, every subset of missing files",
               "thorough": "configurations that differ in <=3 settings, every cut length"}}

LF_TECH = "stateless model checking of the real reader against the recorded stores of the real writer: every interleaving of each lookup with each enumerated writer operation, up to observational equivalence and an advance bound, on the real code"
LF_NOTE = ("The stores of the real writer are recorded one by one; the real lookup code then runs under instrumentation on a second copy of the files, and before each of its loads that the remaining stores change, "
           "every different value it can observe is tried (depth first, by re-execution). The result must be one the map held at some moment between the call's start and end. "
           "Assumes sequentially consistent memory (no reordering of the writer's stores), at most the stated number of writer advances inside one lookup, and lookups that lag behind by no more than 64 updates; "
           "queries with more schedules than the cap are cut and counted (queries_cut).")
LF_REN = {"evaluations": "writer_sequences", "distinct_nontrivial": "distinct_writer_sequences", "schedules": "distinct_nontrivial"}
LF_RULE = "an evaluation is one execution of a lookup with the writer advanced at chosen loads; it is counted as distinct when it ran to the end (executions abandoned because they repeat an already explored retry are not); every one differs from the others in at least one value the reader observed"
LF_SUM = {"evaluations": ["schedules", "redundant_retries"]}


def lf(bounds, **kw):
    return dict({"stages": [{"engine": "lf"}], "level": "exploration", "technique": LF_TECH, "note": LF_NOTE, "rename": LF_REN, "rule": LF_RULE, "sum": LF_SUM, "bounds": bounds}, **kw)


PROPS["C06"] = lf({"quick": "20 alphabets (all keys <=3 letters of {a,b}, prefix chains of 8/13 bytes, fan-out 1..255, long keys, 4 file configurations incl. RemoveAll, reuse of one buffer 8 times), each enumerated last operation raced with lookups of all its keys; <=3 advances of the writer inside a lookup",
                   "thorough": "one or two levels deeper sequences, <=4 advances, every start state"})
PROPS["C07"] = lf({"quick": "the same alphabets; longest-prefix lookups (stored keys and extensions; <=2 advances), whole and prefix iterations (1 advance)",
                   "thorough": "one or two levels deeper, <=3 advances (iterations 2)"})
PROPS["C11"] = lf({"quick": "9 stores (default, multi-block, partly mapped, unmapped; empty and fragmented), sequences ending in an index/data/full collection, raced with lookups of every stored key; <=2 advances",
                   "thorough": "one level deeper, <=3 advances"})

Q_TECH = "stateful model checking of the real code under a controlled scheduler: producers and the real writer thread run as coroutines, every interleaving of their accesses to the queue (depth first, states hashed and merged) is executed, producers killed at every point (C18)"
Q_NOTE = ("The library is compiled with instrumentation that makes every access to the queue, its indices and the collection flag, every lock, wait and pipe operation a scheduling point. The state is the shared memory in scope, the stacks and registers of all threads and the oracle's; "
          "after every step of the writer the map is read through another handle, and the sequence of its states must be what the accepted updates produce when each is applied once, in an order that respects acceptance. After each schedule further updates must be accepted and applied. "
          "Assumes sequentially consistent memory; a producer that is not dead goes on before the writer has waited a second twice; scenarios marked with a bound explore up to that many preemptions.")
Q_REN = {"executions": "traces_validated_against_impl"}


def q(bounds):
    return {"stages": [{"engine": "async"}], "level": "model_checking", "technique": Q_TECH, "note": Q_NOTE, "rename": Q_REN, "bounds": bounds}


PROPS["C17"] = q({"quick": "512 scenarios: queues of 1-3 slots (4, 6 during collections and evictions), 1-2 producers in the writer's or in other processes with 1-3 updates (add, add without replacing, remove, remove all) each, index wrap-around, updates submitted during a collection and an eviction (64 KB blocks filled so that both really run), a second database in the process, the writer closed and reopened meanwhile; one producer: every interleaving, two producers with one update each: every interleaving, others up to 1-2 preemptions",
                  "thorough": "up to 2-4 preemptions where bounded"})
PROPS["C18"] = q({"quick": "135 scenarios: queues of 1-3 slots (4 during collections), one or two producers of 1-3 updates, one of them killed before any of its scheduling points; single producers in every interleaving, two with at most 1 preemption (0 while the writer is reopened)",
                  "thorough": "up to 3 preemptions, both producers killed"})

PROPS["C25"] = {"stages": [{"engine": "expr"}], "level": "exploration",
    "technique": "exhaustive enumeration of all expressions and commands up to a length over character and token alphabets, executed on the real parser and compared with a reference evaluator of the grammar",
    "note": "Every string up to the stated length is evaluated by the real parser (expr_parser.cpp, hexbin.cpp, and the command parsing of mbc.cpp compiled into the harness) and by the reference. Expressions whose operand exceeds the parser's 1 kB buffer may be refused; quotation marks inside of quotations are not supported by the client and not judged.",
    "rule": "an evaluation is one expression; it is non-trivial when it is well formed by the reference grammar, so that its value is compared as well as its acceptance",
    "bounds": {"quick": "all strings of <=6 of 13 characters, of <=5 of 22 tokens; 7 commands with all arguments of <=4 of 15 pieces; all byte strings of <=2 bytes and all digit strings of <=4 of 34 characters, every buffer size; all displayed keys/values of <=2 bytes read back; operands of 1-1100 bytes",
               "thorough": "characters <=8, tokens <=6, arguments <=5, byte strings <=3"}}

NOT_APPLICABLE = {}
