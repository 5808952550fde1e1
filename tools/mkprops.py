#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run to regenerate).
import json,os
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Exact-match operations behave like one map",
 "For every sequence of Add (with and without overwrite), Remove, RemoveAll, Find, InDB and Count on one database, the return codes, the returned values (bytes and length) and the count are those of a finite map from byte-string keys to byte-string values. Add without overwrite of a present key reports that it exists and changes nothing; Remove or Find of an absent key reports that it does not exist and changes nothing.",
 ["histories","inputs"],"all operation sequences over key sets that force every tree shape (splits, tail merges, nodes with 1..256 children, inline and external edge labels, values on inner nodes)",
 "Tests run a handful of fixed sequences over random or file-based keys; shape transitions depend on the order of adds and removes, and only some orders reach a given split/merge/reuse.",
 ["src/db.cpp","src/dict.cpp","src/dict_mem.cpp","src/detail/search_engine.cpp","src/free_list.cpp"],
 [("edge insert/split/remove","src/dict_mem.cpp AddRootEdge/InsertNode/AddLink/UpdateNode/RemoveEdge*"),("add/remove driver","src/dict.cpp Add/Remove/DeleteDataFromEdge"),("exact search","src/detail/search_engine.cpp find")],
 [("header->count","number of entries","src/drm_base.h")],["DB::Add","DB::Remove","DB::Find","DB::InDB","DB::Count","DB::RemoveAll"])

p("C02","Longest-prefix lookup returns the longest stored prefix",
 "After every sequence of updates, a longest-prefix lookup of a query returns the value of the longest stored key that is a prefix of the query (the query itself included) together with that key's length, and reports that nothing exists exactly when no stored key is a prefix of the query.",
 ["histories","inputs"],"all update sequences over nested-prefix key sets, and all queries up to a length over the same alphabet, from every reached state",
 "Tests query a few stored keys; which inner node carries a value and where an edge ends depends on history.",
 ["src/db.cpp","src/detail/search_engine.cpp","src/dict_mem.cpp"],
 [("prefix search","src/detail/search_engine.cpp findPrefix/findPrefixInternal")],None,["DB::FindLongestPrefix"])

p("C03","Lower-bound lookup returns the greatest key not above the query",
 "After every sequence of updates and with no concurrent writer, a lower-bound lookup of a query returns the value of the greatest stored key that is not greater than the query in bytewise order, and that key itself when asked for it, and reports that nothing exists exactly when every stored key is greater than the query.",
 ["histories","inputs"],"all update sequences over small key sets and all queries up to a length over the same alphabet, from every reached state",
 "Tests compare a few sorted random sets; the interesting cases are queries ending inside an edge, sharing a partial label, or below the first child of every node.",
 ["src/db.cpp","src/detail/search_engine.cpp"],
 [("bound search","src/detail/search_engine.cpp lowerBound / traverseToLowerBound / readBoundFromRootEdge")],None,["DB::FindLowerBound"])

p("C04","Iteration visits every entry exactly once",
 "After every sequence of updates, iterating the database yields every stored key exactly once with its current value and nothing else, and iterating with a prefix yields exactly the stored keys that start with that prefix.",
 ["histories","inputs"],"all update sequences over small key sets; all prefixes up to a length, from every reached state",
 "Tests iterate over a few databases; missed subtrees depend on which nodes carry values or have an external label.",
 ["src/iterator.cpp","src/db.cpp","src/dict.cpp"],
 [("iterator stack","src/iterator.cpp load_node/load_kvs/next")],None,["DB::begin","DB::end","DB::iterator::operator++"])

p("C05","Keys and values are arbitrary byte strings within the limits",
 "Every key of 1 to 256 bytes and every value of 1 to 32767 bytes, whatever bytes they hold, is stored and returned exactly, whatever other keys share prefixes with it; an operation with a key or value outside the limits is refused with an error and changes nothing. No lookup depends on bytes of the caller's buffer beyond the given length.",
 ["inputs"],"all key lengths, all value-size classes around each internal boundary, all byte values, all split positions inside long labels, with adversarial bytes placed after the key",
 "Tests use printable or hashed keys of a few lengths and std::string buffers that end where the key ends.",
 ["src/db.cpp","src/dict.cpp","src/dict_mem.cpp","src/detail/search_engine.cpp"],
 [("length checks","src/dict.cpp Add"),("label compare","src/detail/search_engine.cpp compareCurrEdgeTail/remainderMatches")],None,["DB::Add","DB::Find","DB::FindLongestPrefix","DB::Remove"])

p("C06","Concurrent exact reads see each update whole, in order",
 "While one writer adds, overwrites and removes keys, a concurrent exact-match lookup on another handle returns a result (a whole value, or absence) that the key had at some moment between the start and the end of the lookup; it may instead ask the caller to try again, and it never returns a mixed, truncated or foreign value, never reports a continuously present key as absent, and never fails otherwise.",
 ["schedules"],"all interleavings of the reader's and the writer's shared-memory accesses for every writer operation kind from every reached tree shape",
 "The concurrency tests run real threads for a second and hit arbitrary interleavings; the windows are a few instructions wide.",
 ["src/lock_free.cpp","src/lock_free.h","src/dict_mem.cpp","src/dict.cpp","src/detail/search_engine.cpp","src/detail/lf_guard.h"],
 [("edge-versioned lock-free protocol","src/lock_free.cpp WriterLockFreeStart/Stop, ReaderLockFreeStart/Stop"),("copy then link","src/dict_mem.cpp InsertNode/AddLink/UpdateNode")],
 [("header->lock_free","edge being modified and its history","src/lock_free.h")],["DB::Find"])

p("C07","Concurrent prefix reads and iteration see only stored entries",
 "While one writer updates the database, a concurrent longest-prefix lookup or iteration on another handle never returns a key/value pair that was not stored at some moment during the call, a longest-prefix lookup never misses a stored prefix key that is present throughout and longer than the one it returns, and neither crashes nor runs forever.",
 ["schedules"],"all interleavings of the reader's and the writer's shared-memory accesses for every writer operation kind from a set of tree shapes",
 "As for exact reads; no test checks prefix reads against a concurrent writer exhaustively.",
 ["src/lock_free.cpp","src/detail/search_engine.cpp","src/iterator.cpp","src/dict_mem.cpp"],
 [("lock-free retry in prefix search","src/detail/search_engine.cpp findPrefix"),("lock-free retry in iterator","src/iterator.cpp next/load_kvs")],None,["DB::FindLongestPrefix","DB::iterator"])

p("C08","A killed writer loses nothing acknowledged",
 "If the writer process dies at any point while applying an update, then after the next writer opens the database every entry whose update had completed before is intact, the interrupted update is either entirely applied or entirely absent, the entry count is right, and further updates and lookups behave normally.",
 ["crash_points","histories"],"every store to shared memory of every update kind from every reached tree shape as the last one before death, including death during recovery itself",
 "The abnormal-exit test kills a process at random or forces a handful of exception codes.",
 ["src/dict.cpp","src/dict_mem.cpp","src/mb_rc.cpp","src/db.cpp","src/lock_free.cpp"],
 [("exception record","src/drm_base.h excep_*"),("recovery","src/dict.cpp ExceptionRecovery"),("recovery at open","src/db.cpp InitDBEx / src/mb_rc.cpp ExceptionRecovery")],
 [("header->excep_updating_status","which multi-step update was in progress","src/drm_base.h")],["DB::DB(writer)","DB::Find","DB::Count"])

p("C09","A writer killed during garbage collection loses nothing",
 "If the writer process dies at any point of a garbage collection, the next writer that opens the database ends with exactly the entries that were stored before the collection started, and the database is fully usable.",
 ["crash_points"],"every store to shared memory during a collection as the last one before death, for every collection kind and a set of fragmented layouts, including death during the recovery",
 "No test stops a collection between two stores.",
 ["src/mb_rc.cpp","src/dict.cpp","src/mbt_base.cpp"],
 [("two-phase relocation","src/mb_rc.cpp ReorderBuffers/CollectBuffers/Finish"),("restart of unfinished collection","src/mb_rc.cpp ExceptionRecovery")],
 [("header->rc_m_index_off_pre","collection in progress","src/drm_base.h")],["DB::CollectResource","DB::DB(writer)"])

p("C10","Garbage collection never changes the contents",
 "A garbage collection, whatever its thresholds, leaves every entry, value and the count unchanged, leaves the database fully usable for further updates, and a collection that runs leaves no garbage of the kind it collected: that storage is packed, so it does not need more space than before except for what block boundaries waste.",
 ["histories","configurations"],"all update sequences to a depth followed by every collection kind (index only, data only, both) and further updates",
 "Tests collect once after a bulk load; which buffers must be reordered before they can be compacted depends on the layout.",
 ["src/mb_rc.cpp","src/mbt_base.cpp","src/dict_mem.cpp","src/free_list.cpp"],
 [("reorder and collect","src/mb_rc.cpp MoveIndexBuffer/MoveDataBuffer/DoTask")],None,["DB::CollectResource","DB::Find","DB::Count","DB::iterator"])

p("C11","Readers stay correct while a collection runs",
 "While the writer runs a garbage collection, a concurrent exact-match lookup on another handle returns the value the key has (or asks to try again): no entry is reported absent or with wrong bytes because its storage is being moved.",
 ["schedules"],"all interleavings of one lookup with a complete collection, for a set of fragmented layouts",
 "Tests do not read during a collection in a controlled way.",
 ["src/mb_rc.cpp","src/lock_free.cpp","src/detail/search_engine.cpp"],
 [("lock-free guard around relinking","src/mb_rc.cpp DoTask")],None,["DB::CollectResource","DB::Find"])

p("C12","Storage is never shared, leaked or misaccounted",
 "After every sequence of updates, the storage of any two live objects is disjoint, no live object overlaps storage that is registered as free, everything lies within the allocated range, and the statistics kept in the header (entry count, amount of garbage waiting to be collected) agree with what is actually reachable; removing everything and adding it again does not need more space than the first time.",
 ["histories"],"all update sequences to a depth; every reachable database image is audited by an independent walker",
 "Tests check a few counters after bulk operations; overlap shows only when a freed buffer is reused by a later operation of the right size.",
 ["src/free_list.cpp","src/dict_mem.cpp","src/dict.cpp","src/rollable_file.cpp"],
 [("free lists by size","src/free_list.cpp"),("reserve/release","src/dict_mem.cpp ReserveNode/ReserveData/Release*, src/dict.cpp ReserveData/ReleaseBuffer")],
 [("header->pending_*_buff_size","bytes registered as free","src/drm_base.h")],["header statistics","DB::Count"])

p("C13","Contents survive close and reopen",
 "Closing and reopening the database at any point of any update sequence, as writer or as reader, by one or several handles, yields exactly the same entries, values and count, and updates continue correctly from there.",
 ["histories","configurations"],"all update sequences to a depth with close/reopen as one of the operations, in every on-disk configuration",
 "Tests reopen after bulk loads only.",
 ["src/db.cpp","src/dict.cpp","src/dict_mem.cpp","src/rollable_file.cpp","src/resource_pool.cpp"],
 [("mmap-backed files","src/rollable_file.cpp, src/mmap_file.cpp"),("header","src/drm_base.cpp")],None,["DB::Close","DB::DB"])

p("C14","Results do not depend on storage configuration",
 "The same sequence of operations gives the same results whatever block sizes, number of blocks, mapping limits (fully mapped, partly mapped, not mapped), and memory mode (file backed, memory only, allocator managed) the database is configured with, as long as it does not run out of space.",
 ["configurations","histories"],"all operation sequences to a depth, run in lock-step over a set of configurations chosen so that block boundaries and mapping limits fall inside the data",
 "Tests use a few megabyte-sized configurations that are nearly always fully mapped.",
 ["src/rollable_file.cpp","src/mmap_file.cpp","src/file_io.cpp","src/dict.cpp","src/dict_mem.cpp"],
 [("block rolling and fallback file IO","src/rollable_file.cpp Reserve/RandomRead/RandomWrite")],None,["DB::Add","DB::Find","DB::Remove","DB::iterator"])

p("C15","Running out of space fails cleanly",
 "An update that cannot get storage, because the configured block limit is reached or because the operating system refuses to create, extend or map a file, returns an error and leaves every other entry readable with its value and the count right; the same or other updates that fit still succeed afterwards.",
 ["fault_sequences","configurations"],"every allocation or system-call failure point of every update kind from a set of tree shapes, and every fill level up to the block limit",
 "Tests hardly ever exhaust space and never make a system call fail.",
 ["src/rollable_file.cpp","src/mmap_file.cpp","src/dict.cpp","src/dict_mem.cpp","src/db.cpp"],
 [("reserve error paths","src/rollable_file.cpp Reserve, src/dict_mem.cpp ReserveData, src/dict.cpp ReserveData")],None,["DB::Add","DB::Remove","DB::Find"])

p("C16","The prefix cache never changes any result",
 "With the prefix cache enabled, every lookup on every handle returns exactly what it would return without it, after every sequence of adds, overwrites, removes, removal of everything and garbage collection.",
 ["histories","configurations"],"all update sequences to a depth over key sets that share 2-, 3- and 4-byte prefixes, with all lookups from every state, on writer and reader handles",
 "Tests seed the cache and look keys up; stale seeds need a split, remove or move of the cached edge at the right time.",
 ["src/util/prefix_cache.cpp","src/dict.cpp","src/dict_mem.cpp","src/detail/search_engine.cpp"],
 [("seeding and invalidation","src/dict.cpp, src/detail/search_engine.cpp seedFromCache, src/util/prefix_cache.cpp")],None,["DB::Find"])

p("C17","Every accepted asynchronous update is applied exactly once",
 "Every asynchronous update that a producer handle reports as accepted is eventually applied by the asynchronous writer exactly once and with the exact arguments given, updates accepted one after the other are applied in that order, and an update reported as not accepted is not applied.",
 ["schedules"],"all interleavings (to a preemption bound) of two or three producers and the writer on the real queue",
 "Tests push updates from real threads and check the final state.",
 ["src/shmq_update.cpp","src/async_writer.cpp","src/shm_queue_mgr.cpp"],
 [("slot acquisition","src/shmq_update.cpp SHMQ_AcquireSlot/SHMQ_PrepareSlot"),("consumer loop","src/async_writer.cpp async_writer_thread/ProcessTask")],
 [("AsyncNode in_use/num_reader","slot ownership","src/shm_queue_mgr.h"),("queue_index, writer_index","ring positions","src/drm_base.h")],["DB::AddAsync","DB::RemoveAsync","DB::Find"])

p("C18","A dead producer does not stop asynchronous updates",
 "If a producer process dies at any point while submitting an asynchronous update, the updates accepted from other producers before and after are still applied, and the dead producer's update is applied entirely or not at all.",
 ["crash_points","schedules"],"every shared-memory access of a submission as the last one, combined with all interleavings (to a preemption bound) of another producer and the writer",
 "No test kills a producer inside a submission.",
 ["src/shmq_update.cpp","src/async_writer.cpp"],
 [("skip abandoned slots","src/async_writer.cpp NextShmSlot")],None,["DB::AddAsync","DB::Find"])

p("C19","At most one writer at a time",
 "However many handles, threads or processes try to open the same database for writing, in whatever order they open and close, at most one holds it; the others get an error, a mutating operation on a handle that is not the writer never changes the stored entries itself (it is refused, or at most queued for an asynchronous writer to apply), and once the writer closes or dies a new one can open it.",
 ["histories","schedules"],"all sequences of open/close/kill over several handles and processes; every mutating operation on every non-writer handle kind",
 "Tests open two writers in one order.",
 ["src/db.cpp","src/resource_pool.cpp","src/util/utils.cpp"],
 [("writer lock file","src/db.cpp InitDB, src/util/utils.cpp acquire_file_lock"),("in-process registry","src/resource_pool.cpp")],None,["DB::DB","DB::Status","DB::Add"])

p("C20","Opening never damages or misreads an existing database",
 "Opening an existing database with any combination of mode and configuration values either succeeds with all its entries available or fails with an error and leaves its entries unchanged for the next correct open; a reader opening a database whose header is missing, cut short, incomplete or from another version gets an error rather than wrong data. (A writer deliberately starts afresh when the header is not one of this version, and when an allocator-managed database is opened without asking to keep its contents; with fewer blocks configured than the database has, operations may report errors, but never wrong entries.)",
 ["configurations","inputs"],"all combinations of a grid of open options against existing databases, and every single-field corruption of the header from a set of values",
 "Tests try one or two mismatching values.",
 ["src/db.cpp","src/dict.cpp","src/drm_base.cpp"],
 [("config validation","src/db.cpp ValidateConfig/PreCheckDB"),("header validation","src/drm_base.cpp ValidateHeaderFile, src/dict.cpp Dict::Dict")],None,["DB::DB","DB::Status"])

p("C21","Eviction removes only the oldest entries",
 "A collection asked to enforce a size or count limit removes entries only when a limit is exceeded, never removes an entry that was updated more recently (by more than one eviction bucket) than an entry it keeps, keeps every surviving entry and the count exact, and makes progress towards the limit.",
 ["histories","configurations"],"all update histories over a small number of buckets, with every limit around the current size and count, including bucket-index wrap-around",
 "Tests evict once from a large random database.",
 ["src/mb_rc.cpp","src/dict.cpp"],
 [("bucket-based LRU","src/mb_rc.cpp LRUEviction")],[("header->eviction_bucket_index","oldest bucket","src/drm_base.h")],["DB::CollectResource","DB::Find"])

p("C22","A backup is a faithful, independent copy",
 "A backup taken at any point of any update sequence opens as a database with exactly the source's entries, stays unaffected by later updates of the source, and leaves the source unaffected; a backup that cannot be written reports an error instead of ending the process.",
 ["histories","configurations"],"all short update sequences crossing block boundaries followed by a backup, then updates on either side; every failure of the copy",
 "Tests take one backup of one database.",
 ["src/mb_backup.cpp","src/db.cpp"],
 [("file copy","src/mb_backup.cpp Backup/copy_file")],None,["DB::Backup"])

p("C23","Startup rebuild keeps every entry",
 "Reopening an allocator-managed database that asked to keep its contents yields exactly the entries stored before, however often it is reopened and whatever updates run in between, and new updates never overwrite live storage. (A database whose writer died in the middle of an update or of a rebuild is deliberately reset to empty.)",
 ["histories","configurations"],"all update/reopen sequences to a depth with block sizes small enough that the rebuild compacts and evacuates several blocks",
 "Tests rebuild a few fixed databases.",
 ["src/mb_rc.cpp","src/db.cpp","src/rollable_file.cpp","src/dict_mem.cpp","src/dict.cpp"],
 [("shrink and evacuate","src/mb_rc.cpp StartupShrink/StartupEvacuate"),("allocator reseed","src/drm_base.h, src/rollable_file.cpp")],None,["DB::DB","DB::Find"])

p("C24","Retired storage is not reused under an active reader",
 "During a startup rebuild, storage that a lookup already in progress on another handle may still read is not handed out for reuse until that lookup has ended, and lookups of a reader that died do not block reuse forever.",
 ["schedules","crash_points"],"all interleavings (to a preemption bound) of readers entering and leaving lookups with the writer's retire/quiesce/release steps, with more readers than registration slots, and reader death at every step",
 "Tests hold one reader at one point.",
 ["src/db.cpp","src/mb_rc.cpp"],
 [("reader epoch slots","src/db.cpp BeginReaderEpochGuard/EndReaderEpochGuard"),("quiescence test","src/mb_rc.cpp IsReaderEpochQuiesced/ReleaseReusableBlocks"),("barrier fallback","src/db.cpp AcquireRebuildBarrier*")],
 [("header->reader_epoch_slot","active readers","src/drm_base.h")],["DB::Find","ResourceCollection::StartupEvacuate"])

p("C25","Command expressions evaluate as documented",
 "The command client's key and value expressions (quoted strings, bin(...) of hexadecimal, hex(...), 0x literals, concatenation, nesting) evaluate to exactly the bytes they denote, hex and bin are inverse of each other, and every malformed expression is rejected with an error.",
 ["inputs"],"all expressions up to a length over the grammar's alphabet and all byte strings up to a length",
 "There is no test of the command client's parser.",
 ["binaries/expr_parser.cpp","binaries/hexbin.cpp"],
 [("recursive descent","binaries/expr_parser.cpp Parse"),("hex conversion","binaries/hexbin.cpp")],None,["ExprParser::Evaluate","hex_2_bin","bin_2_hex"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
