"""The property registry: statement, anchors and the analyses that decide each property."""
import os
from . import rules, execs, trust

PROPS = {}


def refs(*names):
    def run(L):
        for n in names:
            rules.apply_ref(L, n + ".ref")
    run.__name__ = "reference meanings of " + ", ".join(names)
    return run


REFTECH = "reference-meaning obligations: definitions lowered to normalised guarded terms and compared as must-fact sets"
REFEXPL = ("Every definition listed in the reference files is read from /repo's current source, resolved, lowered to a normalised "
           "guarded term and compared in both directions with the meaning the property needs (no execution, no solver); "
           "each is one obligation: rule, construct (file:definition), and what is missing or additionally admitted.")


def prop(id, title, statement, over, q, why, files=(), mech=(), state=(), run=(), ref=(), floor=1, technique=None,
         explain=None, assume=(), level_note=None, observe=(), reason=None):
    rs = ([refs(*ref)] if ref else []) + list(run)
    fl = list(files)
    if ref:
        for r in ref:
            for e in open(os.path.join(rules.HERE, "ref", r + ".ref"), encoding="utf-8"):
                if e.startswith("@file"):
                    f = e.split()[2]
                    if f not in fl:
                        fl.append(f)
    PROPS[id] = dict(id=id, title=title, statement=statement, over=list(over), q=q, why=why, files=fl,
                     mech=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     run=rs, floor=floor, technique=technique or REFTECH, explain=explain or REFEXPL,
                     assume=list(assume) or ["the reference meanings in /verif/ref state the intended behaviour",
                                             "constructs the language's own checker rejects do not occur"],
                     level_note=level_note, observe=list(observe), reason=reason)


DFYTESTS = "the stable tests verify a Verus marshalling subset only; "

prop("P01", "Dictionary semantics: a query returns the last value written to its key",
     "A query answers with the value most recently written to exactly that key, or the default value if the key was never written; "
     "a range query returns exactly the keys in its bounds, in order, without gaps, and writes affect no other key. "
     "Every write of a valid key and value is accepted by the specification and takes effect at one atomic point.",
     ["inputs", "histories"], "every sequence of put, query and range-query operations over all keys and values",
     DFYTESTS + "no test touches the dictionary specification, and sampled maps cannot cover all histories",
     mech=[("map specification", "MapSpec/MapSpec.s.dfy"), ("map specification (Verus)", "Splinter/src/spec/MapSpec_t.rs"),
           ("abstract map", "Splinter/src/abstract_system/AbstractMap_v.rs")], ref=["dictionary"], floor=50)

prop("P02", "A crash falls back to a state no older than the last persistent version",
     "After a crash the visible store equals one version that existed before the crash, at or after the last version made persistent; "
     "no crash invents a state, mixes two versions, or goes back behind a completed sync. The persistent version never moves backwards.",
     ["crash_points", "histories"], "a crash at any point of any history of operations and syncs",
     DFYTESTS + "nothing exercises a crash",
     mech=[("three-version machine", "MapSpec/ThreeStateVersioned.s.dfy"), ("crash-tolerant map", "Splinter/src/spec/MapSpec_t.rs")],
     ref=["crash", "crash_dfy"], floor=48)

prop("P03", "A sync is acknowledged only once everything before it is persistent",
     "A sync request is acknowledged only after every write accepted before it was requested has become persistent; "
     "it is acknowledged at most once and only if it was requested. A sync requested while a commit is under way waits for a later commit.",
     ["histories", "crash_points", "schedules"], "every interleaving of writes, sync requests, commits and acknowledgements",
     DFYTESTS + "sync bookkeeping is not reached by any test",
     mech=[("outstanding sync ids", "MapSpec/ThreeStateVersioned.s.dfy"), ("sync request table", "Versions/JournalView.i.dfy"),
           ("atomic state", "Splinter/src/implementation/AtomicState_v.rs")], ref=["sync"], floor=20)

prop("P04", "Every accepted request is executed once and answered once with its own reply",
     "A request enters the system once, is executed once, and gets at most one reply, which carries its own id and the result of its own execution. "
     "No reply is produced for a request that was not accepted or not executed, and a crash forgets unanswered requests rather than answering them wrongly.",
     ["histories", "schedules", "crash_points"], "every interleaving of request acceptance, execution, reply and crash",
     DFYTESTS + "the request/reply protocol is specification-level and has no test",
     mech=[("system model", "Splinter/src/trusted/SystemModel_t.rs"), ("tokenized store", "Splinter/src/trusted/KVStoreTokenized_t.rs"),
           ("program model", "Splinter/src/implementation/ConcreteProgramModel_v.rs")], ref=["requests"], floor=30)

prop("P05", "The disk model grants an implementation no more than a real disk does",
     "Reads return what the disk holds at the moment they are served, writes take effect atomically per block in any order, "
     "and a crash drops exactly the operations still in flight. Responses exist only for requests made, once each, and the disk may corrupt a block only in the ways the model admits.",
     ["schedules", "crash_points", "fault_sequences"], "every ordering of disk requests, service, responses, corruption and crashes",
     DFYTESTS + "the trusted disk model is assumed, not tested",
     mech=[("Verus disk model", "Splinter/src/spec/AsyncDisk_t.rs"), ("Dafny disk model", "ByteBlockCacheSystem/AsyncDiskModel.s.dfy")],
     ref=["disk"], floor=60)

prop("P06", "Persistent, frozen and ephemeral versions advance only in commit order",
     "The store's durable, frozen and in-memory versions change only by the permitted steps: an update changes the newest one only, "
     "a freeze captures the newest, a commit makes the captured one durable, and a crash discards everything but the durable one. "
     "Journal and tree versions are promoted together.",
     ["histories", "crash_points"], "every sequence of updates, freezes, commits, journal extensions and crashes",
     DFYTESTS + "these are specification state machines without runtime tests",
     mech=[("versioned view", "Versions/StatesView.i.dfy"), ("journal view", "Versions/JournalView.i.dfy"), ("composite", "Versions/CompositeView.i.dfy")],
     ref=["views", "views_dfy"], floor=41)

prop("P07", "Journal and map stay coordinated: no logged update is lost or replayed twice",
     "The map's version and the journal's sequence range always meet: an update is logged and applied at the same sequence number, "
     "the journal is trimmed only up to what a durable map already contains, and recovery replays each retained entry exactly once in order before new requests are served. "
     "A commit makes a journal and a map durable together.",
     ["histories", "crash_points"], "every sequence of updates, commits, truncations, crashes and recoveries",
     DFYTESTS + "the coordination machines have no runtime tests",
     mech=[("crash-aware system", "Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs"), ("coordination system", "Splinter/CoordinationLayer/CoordinationSystem.i.dfy")],
     ref=["coordination", "splinter_coord_dfy"], floor=260)

prop("P08", "The journal preserves every retained entry in order across pages and truncation",
     "Reading the journal yields exactly the appended entries from its boundary onward, contiguous and in append order, whatever pages they were marshalled into; "
     "truncation removes only entries before the new boundary. A torn, stale or unlinked page is never read as part of the journal.",
     ["histories", "crash_points", "inputs"], "every sequence of appends, marshals, truncations, reads and crashes",
     DFYTESTS + "page chains of arbitrary shape cannot be sampled",
     mech=[("linked journal", "Splinter/src/journal/LinkedJournal_v.rs"), ("paged journal", "Splinter/src/journal/PagedJournal_v.rs"),
           ("journal ranges", "BlockCacheSystem/JournalSystem.i.dfy")], ref=["journal", "splinter_journal_dfy"], floor=390)

prop("P09", "Tree reorganisation never changes what any key's lookup returns",
     "Flushing, splitting, growing, merging, compacting and filtering the tree leave every key's query result unchanged, "
     "and a query follows one root-to-leaf path, combining buffered updates from newest to oldest. A new update is visible to every later query of its key and to no other key.",
     ["histories", "inputs"], "every tree shape and every sequence of reorganisations and updates",
     DFYTESTS + "tree shapes and reorganisation sequences are unbounded",
     mech=[("pivot/linked/filtered trees", "Splinter/src/betree"), ("betree specification", "Betree/BetreeSpec.i.dfy"), ("pivot betree", "PivotBetree/PivotBetreeSpec.i.dfy")],
     ref=["betree", "betree_dfy", "splinter_betree_dfy"], floor=1100)

prop("P10", "Allocation accounts every reachable block: none is reused while referenced",
     "A disk block is handed out only if no durable, frozen or in-memory structure still references it, and it is released only when the last reference is gone. "
     "Reference counts of shared tree nodes and branches always equal the references that exist.",
     ["histories", "crash_points"], "every sequence of allocations, structure changes, commits and crashes",
     DFYTESTS + "allocation layers are specification-level and untested",
     mech=[("likes accounting", "Splinter/src/allocation_layer/Likes_v.rs"), ("mini allocator", "Splinter/src/allocation_layer/MiniAllocator_v.rs"),
           ("allocation journal", "Splinter/src/allocation_layer/AllocationJournal_v.rs")], ref=["allocation", "splinter_alloc_dfy"], floor=380)

prop("P11", "Keys are totally ordered and every key is routed to exactly one child",
     "Key comparison is one total lexicographic order used everywhere; a node's pivots are strictly increasing and cover the whole key space. "
     "Each key belongs to exactly one child range, both bounds of a range are honoured as inclusive or exclusive, and the same answer is given by every implementation of the order.",
     ["inputs"], "every pair of keys and every pivot table",
     DFYTESTS + "orderings over unbounded byte strings cannot be enumerated",
     mech=[("byte-string order", "lib/Lang/System/SeqComparison.s.dfy"), ("pivots", "lib/Buckets/BoundedPivotsLib.i.dfy"), ("key type", "Splinter/src/spec/KeyType_t.rs")],
     ref=["keyorder"], floor=35)

prop("P12", "Combining buffered updates equals applying them one after the other",
     "Merging two buffered updates and applying the result gives the same value as applying the older and then the newer; overwriting hides everything older. "
     "Bucket merging, splitting, filtering and key translation keep for each key exactly the updates that belong to it, in order.",
     ["inputs", "histories"], "every pair and sequence of updates, buckets and key translations",
     DFYTESTS + "the message algebra quantifies over all values",
     mech=[("messages", "lib/Base/Message.i.dfy"), ("messages (Verus)", "Splinter/src/spec/Messages_t.rs"), ("buckets", "lib/Buckets/BucketsLib.i.dfy")],
     ref=["merge"], floor=80)

prop("P13", "Disk regions never overlap and every address falls in exactly one of them",
     "The two superblocks, the journal area, the indirection tables and the node blocks occupy pairwise disjoint, block-aligned regions inside the disk. "
     "Each address is classified as exactly one kind, the ranges wrap as the journal needs, and address arithmetic never leaves its region.",
     ["inputs", "configurations"], "every address and length",
     DFYTESTS + "no test computes an address",
     mech=[("Dafny layout", "BlockCacheSystem/DiskLayout.i.dfy"), ("Verus layout", "Splinter/src/implementation/DiskLayout_v.rs")],
     ref=["layout"], floor=30)

prop("P14", "The block allocator never hands out a block that is marked in use",
     "Allocation returns only a block that is free in every bitmap the allocator tracks (persistent, frozen, in-memory and outstanding), "
     "and reports failure only if there is none; marking and clearing affect exactly the block named. Bitmap operations mean the corresponding set operations.",
     ["inputs", "histories"], "every bitmap content and every allocation sequence",
     DFYTESTS + "bitmaps of 2^16 and more bits cannot be enumerated",
     mech=[("allocator model", "Impl/BlockAllocatorModel.i.dfy"), ("bitmap model", "lib/DataStructures/BitmapModel.i.dfy")],
     ref=["allocator"], floor=30)

prop("P15", "Parsing inverts marshalling and never reads outside its slice (Verus formats)",
     "Whatever is marshalled parses back to the same value, the bytes outside the written range are untouched, and the size announced is the size written. "
     "Parsing rejects rather than misreads bytes that hold no value of the format, and every slice and element access is bounds-checked.",
     ["inputs"], "every value, buffer, slice and offset of every format",
     "the tests verify the functions against their contracts, but not that the contracts and format definitions still say this",
     mech=[("format trait", "Splinter/src/marshalling/Marshalling_v.rs"), ("integer formats", "Splinter/src/marshalling/IntegerMarshalling_v.rs")],
     ref=["marshal"], floor=180)

prop("P16", "On-disk grammars decode to exactly what was encoded (Dafny formats)",
     "Decoding an encoded value consumes exactly its bytes and returns that value; malformed, truncated or oversized data is refused. "
     "Every grammar case has its own decoder and size, sizes never overflow, and packing of integers is little-endian and of fixed width.",
     ["inputs"], "every value and every byte string",
     DFYTESTS + "the Dafny grammar code is only resolved, never run",
     mech=[("generic marshalling", "lib/Marshalling/GenericMarshalling.i.dfy"), ("packed integers", "lib/Base/PackedIntsLib.i.dfy")],
     ref=["dfymarshal", "dfymarshal2"], floor=150)

prop("P17", "Trusted native operations are assumed to do no more than they really do",
     "Contracts of the trusted native operations (fixed-width integers, bit operations, array copies, packed integers, checksums, linear memory, disk calls) demand the bounds the native code needs "
     "and promise only what it delivers. Integer widths and wrap-around are those of the machine types.",
     ["inputs"], "every argument of every trusted operation",
     "trusted contracts are axioms: verification uses them and no test can contradict them",
     mech=[("native types", "lib/Lang/NativeTypes.s.dfy"), ("packed integers", "lib/Lang/System/PackedInts.s.dfy"), ("bits", "lib/Lang/System/Bits.s.dfy")],
     ref=["native"], floor=90)

prop("P29", "File system calls atomically change exactly the objects they name",
     "Each file-system call changes exactly the paths and inodes it names: create, link, rename, unlink, symlink and directory operations keep path maps and link counts consistent, "
     "reads see the latest write, and timestamps and attributes change only as the call prescribes. Illegal calls change nothing.",
     ["inputs", "histories"], "every call on every file-system state",
     DFYTESTS + "the file-system specification is not executable",
     mech=[("file system", "Filesys/FileSystem.s.dfy"), ("paths", "Filesys/PathSpec.s.dfy")], ref=["filesystem", "filesystem2"], floor=38)

prop("P30", "Concurrency models exclude conflicting access and conserve resources",
     "In the concurrency models a writer excludes readers and other writers, a reference is freed only by a holder, and balances and counters are conserved by every step. "
     "Combining resources is commutative, associative and never turns an invalid combination into a valid one.",
     ["schedules"], "every interleaving of threads and every split of resources",
     DFYTESTS + "schedules of the concurrency models are never explored",
     mech=[("reader-writer lock", "concurrency/scache/RWLock.i.dfy"), ("cache resources", "concurrency/scache/CacheResources.i.dfy"), ("state machines", "concurrency/hack-concurrency-framework/StateMachines.s.dfy")],
     ref=["concurrency", "concurrency2"], floor=220)

prop("P31", "Library sequences, sets, maps and multisets compute what their names say",
     "The collection helpers the rest of the system is specified with (remove, restrict, union, flatten, last, insert, apply, min and max, sums) "
     "compute the standard mathematical function on every input in their domain, including empty and boundary inputs.",
     ["inputs"], "every sequence, set, map and number in each helper's domain",
     DFYTESTS + "the helpers are mathematical definitions without tests",
     mech=[("sequences", "lib/Base/Sequences.i.dfy"), ("maps", "lib/Base/Maps.i.dfy"), ("sets", "lib/Base/Sets.i.dfy")], ref=["collections", "lib2"], floor=160)

prop("P32", "Page references and caches name exactly the pages they reach",
     "A cache update changes only the pages written, all other pages keep their content, and the set of pages a structure reports is exactly the set reachable from its root. "
     "A snapshot decodes only if every page of its chain is present and linked.",
     ["histories", "inputs"], "every page graph and every batch of cache updates",
     DFYTESTS + "page graphs are unbounded and the models are not executable",
     mech=[("cache interface", "Splinter/CacheIfc.i.dfy"), ("snapshots", "Splinter/MarshalledSnapshot.i.dfy")], ref=["splinterdfy"], floor=18)

prop("P33", "The block cache commits only complete, unmodified snapshots",
     "A cached block is dirtied, written back, evicted and reloaded without its content changing unnoticed; a block belonging to a frozen or durable snapshot is never overwritten in place. "
     "The superblock is written only after every block and journal entry it refers to is on disk, and is alternated so that one valid copy always exists.",
     ["histories", "crash_points", "schedules"], "every order of cache operations, disk responses, commits and crashes",
     DFYTESTS + "the block-cache machines are specification-level",
     mech=[("block cache", "BlockCacheSystem/BlockCache.i.dfy"), ("journal cache", "BlockCacheSystem/BlockJournalCache.i.dfy"), ("cache (Verus)", "Splinter/src/implementation/Cache_v.rs")],
     ref=["blockcache", "blockcache2"], floor=140)

prop("P34", "The worked examples satisfy their own specifications",
     "The crash-safe log, the linked-list stack, the concurrency-strategy examples and the search-tree examples take only steps that their own abstract specification admits: "
     "a logged value is durable once acknowledged, a crash loses only unsynced entries, ordering invariants of trees hold.",
     ["histories", "schedules", "crash_points"], "every operation sequence of the example systems",
     DFYTESTS + "examples are only resolved",
     mech=[("crash-safe log", "examples/log"), ("stack", "FramingExperiment/LinkedListStack.i.dfy"), ("red-black tree", "examples/red-black.dfy")],
     ref=["examples"], floor=120)


prop("P37", "Each implementation step changes cache and disk requests only as named",
     "The functional models the executable code is proved equal to describe one cache or tree step each: inserting, querying and scanning, flushing, splitting, growing, cloning and repivoting, "
     "allocating and freeing blocks, keeping the indirection table with its reference counts and in-memory journal, and issuing reads and writes. Each touches exactly the named nodes, locations, counters and requests, "
     "a free location or reference is one not in use anywhere, and a step that cannot proceed changes nothing.",
     ["inputs", "histories"], "every cache state and every argument of every step",
     DFYTESTS + "the models are mathematical definitions that are resolved but never run",
     mech=[("indirection table", "Impl/IndirectionTable.i.dfy"), ("disk requests", "Impl/IOModel.i.dfy"), ("splitting", "Impl/SplitModel.i.dfy"), ("in-memory journal", "Impl/JournalistImpl.i.dfy")],
     ref=["implmodel"], floor=130)

prop("P38", "Library containers behave as the mathematical object they stand for",
     "Hash tables, bitmaps, LRU queues, linked lists, packed sequences and in-memory B-trees are interpreted as the map, set or sequence of exactly the entries inserted and not removed. "
     "Probing finds a stored key at its slot and never a removed one, resizing and splitting keep every entry, queues keep the order of use, and counts equal the number of entries.",
     ["inputs", "histories"], "every sequence of operations on every container state",
     DFYTESTS + "no test runs a container",
     mech=[("hash table", "lib/DataStructures/LinearMutableMapBase.i.dfy"), ("B-tree", "lib/DataStructures/BtreeModel.i.dfy"), ("LRU queue", "lib/DataStructures/LruModel.i.dfy"), ("bitmap", "lib/DataStructures/BitmapImpl.i.dfy")],
     ref=["libds"], floor=150)

prop("P39", "Buckets and packed tables hold exactly the key-message pairs put into them",
     "A packed string array or packed key-value table returns at each position exactly the bytes appended there, sub-tables and last-drops keep the others in order, keys pair with their own message, "
     "and a bucket in tree or packed form is interpreted as the same sorted map. A bucket's weight is the sum of the encoded sizes of its keys and messages.",
     ["inputs"], "every table, position and sequence of appends",
     DFYTESTS + "sampled tables do not reach the offset arithmetic's boundaries",
     mech=[("packed strings", "lib/Buckets/PackedStringArray.i.dfy"), ("packed tables", "lib/Buckets/PackedKV.i.dfy"), ("buckets", "lib/Buckets/BucketImpl.i.dfy"), ("weights", "lib/Buckets/BucketWeights.i.dfy")],
     ref=["libbuckets"], floor=70)


prop("P35", "Every layer is interpreted as, and proved to refine, the layer above it",
     "Each layer's state and labels are interpreted in the layer above so that nothing a user can observe is hidden or invented: client requests, replies, sync requests, sync replies and crashes map to the same event above, "
     "the store's visible versions are those its journal, maps and disk really hold, tree and journal contents map key by key and entry by entry, and the disk's bytes map to the blocks they encode (including writes still in flight). "
     "The theorem of each layer covers every initial state and every step, from no stronger hypotheses than the layer's invariant, and promises a step of the layer above between the interpreted states, with the interpreted label.",
     ["histories", "crash_points", "inputs"], "every state, step and label of every layer",
     DFYTESTS + "an interpretation that hides a difference, or a theorem that leaves a step out, makes every proof above it vacuous while all of them still check",
     mech=[("end-to-end refinement (Verus)", "Splinter/src/implementation/ModelRefinement_v.rs"), ("coordination system", "Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs"),
           ("journals", "Splinter/src/journal/LinkedJournalRefinement_v.rs"), ("trees", "Splinter/src/betree/LinkedBetreeRefinement_v.rs"), ("bytes to blocks (Dafny)", "ByteBlockCacheSystem/InterpretationDisk.i.dfy"),
           ("end-to-end refinement (Dafny)", "ByteBlockCacheSystem/ByteSystem_Refines_ThreeStateVersionedMap.i.dfy")],
     ref=["refinement", "refinement_dfy"], floor=440)


# ------------------------------------------------------------------ executable code
FLOWTECH = ("path-sensitive dataflow over the syntax tree: per-function path summaries (branch facts, value numbers, observed calls, field effects) "
            "compared pairwise with a reference summary")
FLOWEXPL = ("Every listed function is read from /repo's current source and reduced to its set of paths: the branch facts that select it, the value-numbered "
            "result, the observed calls with their arguments in order, the effects on fields and by-reference parameters, and one abstract pass per loop. "
            "Every compatible pair of code path and reference path must agree; each function is one obligation (nothing is executed, no solver is used). "
            "A helper that was split, merged or moved is followed through its callers.")
FLOWASSUME = ["the reference behaviours in /verif/ref/exec state the intended behaviour",
              "library and operating-system calls behave as documented; calls are compared by name, arguments and order"]
PT = ["tools/lib_deps.py", "tools/lib_aggregate.py"]
PYTESTS = "the stable tests only parse the Python tools and never run them; "

prop("P22", "A build is reported verified only when every file it depends on verified",
     "The verification report of a root file covers every Dafny file reachable from it. A file counts as good only if its checker output shows a finished verification with no errors, time-outs, "
     "inconclusive or resource-limited results, no parse or resolution errors, and (for an untrusted file) no assumption outside a comment; output that shows none of these is an error, never a success. "
     "The summary says Overall: Success exactly when no covered file failed, and lists each failing file under its own kind of failure with its log; the status published for a commit is success, failure or neutral according to that first line. "
     "A sub-command that fails makes the integration run fail.",
     ["inputs"], "every set of report files, every checker output and every include graph",
     PYTESTS + "report contents and include graphs are unbounded",
     mech=[("verdict classification", "tools/lib_aggregate.py"), ("summary", "tools/aggregate-verchk.py"), ("text report", "tools/gen-build-report.py"),
           ("graph report", "tools/dep-graph.py"), ("published status", "tools/verichecks/report-result.py"), ("integration run", "tools/continuous-integration.py")],
     run=[execs.py(PT + ["tools/aggregate-verchk.py"], [("lib_aggregate", "summarize"), ("lib_aggregate", "summarize_verbose")], ["lib_aggregate"], rule="verdict",
                   extra=[("lib_aggregate", "=allConditions"), ("lib_aggregate", "=badConditions")]),
          execs.py(PT + ["tools/aggregate-verchk.py"], [("aggregate-verchk", "main"), ("aggregate-verchk", "create_report"), ("aggregate-verchk", "write_summary")],
                   ["aggregate-verchk"], rule="summary", extra=[("aggregate-verchk", "<module>")], ignore=()),
          execs.py(PT + ["tools/gen-build-report.py"], [("gen-build-report", "main")], ["gen-build-report"], rule="text-report", extra=[("gen-build-report", "<module>")]),
          execs.py(PT + ["tools/dep-graph.py"], [("dep-graph", "main")], ["dep-graph"], rule="graph-report", extra=[("dep-graph", "<module>")]),
          execs.py(PT + ["tools/continuous-integration.py"], [("continuous-integration", "main")], ["continuous-integration"], rule="integration-run",
                   extra=[("continuous-integration", "<module>")]),
          execs.py(["tools/verichecks/report-result.py"], [], ["report-result"], rule="published-status", extra=[("report-result", "<module>")])],
     files=PT + ["tools/aggregate-verchk.py", "tools/gen-build-report.py", "tools/dep-graph.py", "tools/verichecks/report-result.py", "tools/continuous-integration.py"],
     floor=40, technique=FLOWTECH, explain=FLOWEXPL, assume=FLOWASSUME)

prop("P23", "Dependencies are the exact include closure; trusted never rests on untrusted",
     "The dependency closure of a set of roots is exactly the files reachable through include directives (commented-out directives do not count), each once, with every include resolved relative to the including file; a missing file is an error. "
     "An include whose name declares no trust level, or of an untrusted (.i) file by a trusted (.s) file, is rejected wherever it occurs in the closure. "
     "The generated makefile gives every target a dependency on the corresponding target of each file it includes, so that a change upstream rebuilds and re-verifies everything downstream.",
     ["inputs"], "every set of source files, include lines and roots",
     PYTESTS + "include graphs are unbounded",
     mech=[("include closure", "tools/lib_deps.py"), ("makefile dependencies", "tools/veridepend.py")],
     run=[execs.py(PT + ["tools/aggregate-verchk.py"], [("lib_deps", e) for e in ("depsFromDfySources", "toposortGroup", "childrenForIref", "targetName")], ["lib_deps"], rule="include-closure", extra=[("lib_deps", "<module>"), ("lib_deps", "=ROOT_PATH")]),
          execs.py(PT + ["tools/veridepend.py"], [("veridepend", "Veridepend.__init__")], ["veridepend"], rule="makefile-dependencies",
                   extra=[("veridepend", "<module>"), ("veridepend", "=BUILD_DIR")])],
     files=PT + ["tools/veridepend.py"], floor=30, technique=FLOWTECH, explain=FLOWEXPL, assume=FLOWASSUME)

prop("P36", "Source accounting bills every line to exactly one of spec, impl and proof",
     "A trusted (.s) file's lines all count as specification; any other file's non-ghost lines count as implementation and exactly the rest as proof, after checker output, nested comments, export and import lines and blank lines are removed. "
     "A report covers the root and every file it depends on exactly once, and each row and the total is the sum of exactly the files mapped to it.",
     ["inputs"], "every source file and every include closure",
     PYTESTS + "source texts are unbounded",
     mech=[("classification", "tools/line_count_lib.py"), ("per-file counts", "tools/line_counter.py"), ("report", "tools/line_counter_report_lib.py")],
     run=[execs.py(PT + ["tools/line_count_lib.py", "tools/line_counter.py", "tools/line_counter_report_lib.py"], [],
                   ["line_count_lib", "line_counter", "line_counter_report_lib"], rule="line-accounting",
                   extra=[("line_counter", "<module>"), ("line_counter", "loadFile"), ("line_counter", "main"), ("line_counter_report_lib", "report"),
                          ("line_count_lib", "Counter.collect_line_counts"), ("line_counter_report_lib", "=row_labels")])],
     files=["tools/line_count_lib.py", "tools/line_counter.py", "tools/line_counter_report_lib.py"],
     floor=28, technique=FLOWTECH, explain=FLOWEXPL, assume=FLOWASSUME)

# ------------------------------------------------------------------ C++ framework
CPPTESTS = "the C++ framework is not compiled by the stable tests at all; "
CPPASSUME = FLOWASSUME + ["declarations of the Dafny C++ runtime and of the generated bundle are those in /verif/stubs",
                          "functions of the generated bundle are opaque calls that may change any state"]
FW = "framework/"


def fw(*pats):
    return lambda n: any(p in n for p in pats)


prop("P18", "Native operations compute exactly what their trusted specifications promise",
     "Every function that verified code calls through a trusted extern (little-endian packing and unpacking of 32- and 64-bit integers and sequences of them, checksum and carry-less-multiply intrinsics, xor, "
     "array fill, clone and copy, byte-string comparison, linear sequences, maybe-cells and boxes with destructors, map removal, machine addition) computes its result from exactly the operands, offsets and lengths its specification names, "
     "writes only the destination range, leaves its other arguments alone, and hands back the old contents where it swaps.",
     ["inputs"], "every argument value, offset and length",
     CPPTESTS + "their Dafny contracts are axioms the verifier trusts without looking at the code",
     mech=[("packing, arithmetic, intrinsics", FW + "Framework.h"), ("arrays and comparison", FW + "NativeArrays.h"), ("linear sequences", FW + "LinearExtern.h"), ("boxes and destructors", FW + "LinearBox.h")],
     run=[execs.cpp(fw("NativeArrays_Compile::", "LinearMaybe::", "LinearExtern::", "LinearBox_s::", "MapRemove__s_Compile::", "NativeArithmetic_Compile::", "F2__X__s_Compile::",
                       "Bits__s_Compile::", "NativePackedInts_Compile::"), lambda n: True, "native-operation", skip=("operator==",))],
     files=[FW + f for f in ("Framework.h", "NativeArrays.h", "LinearExtern.h", "LinearBox.h")], floor=50, technique=FLOWTECH, explain=FLOWEXPL, assume=CPPASSUME)

prop("P19", "No disk error is swallowed: a failed or short transfer stops the system",
     "Opening the disk, allocating a transfer buffer, reading, writing, and starting or completing an asynchronous write each check the outcome the operating system reports. An open that fails, an allocation that returns nothing, a read that returns an error or fewer bytes than expected, "
     "a synchronous or asynchronous write that errs or writes fewer bytes than the whole padded buffer, and an asynchronous request that is refused or ends in any state but done or in-progress all end the process with an error status; none is ever reported to verified code as success.",
     ["fault_sequences"], "every disk fault, at every transfer",
     CPPTESTS + "faults of the operating system cannot be enumerated by tests that never run the code",
     mech=[("synchronous transfers", FW + "Framework.cpp"), ("asynchronous writes", FW + "Framework.cpp"), ("formatting", FW + "Framework.cpp")],
     run=[execs.cpp(fw("aligned_copy(", "readFromFile(", "readSync(", "writeSync(", "WriteTask::", "DiskIOHandler::DiskIOHandler", "DiskIOHandler::~", "DiskIOHandler::read(", "DiskIOHandler::write(",
                       "DiskIOHandler::waitForOne", "DiskIOHandler::completeWriteTasks", "DiskIOHandler::prepareWriteResponse", "fail(", "Mkfs("),
                    fw("DiskIOHandler::", "fail(", "Mkfs("), "disk-fault", skip=("handle_",)),
          execs.cpp(fw("aligned_copy(", "readFromFile(", "readSync(", "writeSync(", "WriteTask::", "ReadTask::", "DiskIOHandler::DiskIOHandler", "DiskIOHandler::~", "DiskIOHandler::read(", "DiskIOHandler::write("),
                    fw("DiskIOHandler::", "fail("), "disk-fault-direct-io", skip=("handle_",), defines=("set:USE_DIRECT=1",))],
     files=[FW + "Framework.cpp", FW + "Framework.h"], floor=17, technique=FLOWTECH, explain=FLOWEXPL, assume=CPPASSUME)

prop("P20", "A write is acknowledged only after it is durable; replies match requests",
     "Every read and write gets an identifier never used before. A write response carries the identifier, address and length of a write whose whole padded buffer the operating system reports written to a file opened for synchronous writes, and each request is answered at most once. "
     "The bytes written are the bytes given (padded to 4096), at the address given, in a buffer of their own that outlives the transfer. At most eight asynchronous writes are outstanding; the counts of outstanding and waiting writes are exact; a waiting write is started as soon as a slot frees up, "
     "and completing all writes waits for and starts every one of them. A read response carries the bytes read at the address asked for.",
     ["inputs", "schedules", "histories"], "every sequence of reads, writes, completions and response requests",
     CPPTESTS + "completion order is a schedule chosen by the operating system",
     mech=[("requests and responses", FW + "Framework.cpp"), ("request tables", FW + "Framework.h")],
     run=[execs.cpp(fw("MainDiskIOHandler_Compile::"), fw("DiskIOHandler::"), "disk-request"),
          execs.cpp(fw("MainDiskIOHandler_Compile::"), fw("DiskIOHandler::"), "disk-request-direct-io", defines=("set:USE_DIRECT=1",))],
     files=[FW + "Framework.cpp", FW + "Framework.h"], floor=44, technique=FLOWTECH, explain=FLOWEXPL, assume=CPPASSUME)

prop("P21", "The client interface hands requests to verified code and back unchanged",
     "Insert, Query, Succ and Sync reject over-long keys and values, and otherwise repeat the matching verified handler, with the caller's key, value, range and sync identifier, until it reports success, answering disk responses in between; they return exactly what the handler returned, and Sync returns only after the handler reports the sync complete. "
     "Giving up is a fatal error, never a silent success. A successor scan continues each batch from the end of the previous one, in order, without repeating or skipping an entry, and stops at the target count or the end. Each wrapper calls the handler of the same name. A crash re-creates the state and the disk handler from the file. "
     "Formatting writes exactly the initial blocks to a new file. The optional row cache never returns a value other than the last one set for that key, also across a crash.",
     ["inputs", "histories"], "every client request and every sequence of handler outcomes",
     CPPTESTS + "handler outcomes and retry counts depend on disk completion",
     mech=[("client loops", FW + "Framework.cpp"), ("wrappers", FW + "BundleWrapper.cpp"), ("byte strings", FW + "Application.h"), ("row cache", FW + "UnverifiedRowCache.cpp")],
     run=[execs.cpp(fw("Application::", "handle_", "MaxKeyLen(", "MaxValueLen(", "ByteString::", "RowCache::", "Mkfs(", "MallocAccounting_Compile::", "AllocationReport_Compile::"),
                    fw("Application::Application", "Application::~", "Application::crash", "Application::EvictEverything", "Application::Count", "Application::Sync", "Application::Insert", "Application::Query",
                       "Application::Succ(", "Application::log", "handle_", "MaxKeyLen(", "MaxValueLen(", "RowCache::", "Mkfs(", "_Compile::", "ByteString::"), "client-call"),
          execs.cpp(fw("Application::", "RowCache::"), fw("Application::", "RowCache::"), "client-call-with-row-cache", defines=("USE_UNVERIFIED_ROW_CACHE",))],
     files=[FW + f for f in ("Framework.cpp", "BundleWrapper.cpp", "BundleWrapper.h", "Application.h", "UnverifiedRowCache.cpp")], floor=60, technique=FLOWTECH, explain=FLOWEXPL, assume=CPPASSUME)

# ------------------------------------------------------------------ the Rust store and the bank example
RSTESTS = "the stable tests verify a marshalling subset only and never compile or run this code; "
RSASSUME = FLOWASSUME + ["ghost and tracked code is erased; tokens passed along are not compared", "values are compared as Rust moves and borrows make them: no two of them alias"]
RSGAPS = {"Implementation.handle_query": "a query is consumed without ever being answered (the answering code is commented out)",
          "Implementation.recover": "the superblock read at start-up is parsed and dropped: the store starts empty whatever the disk holds",
          "marshall": "has no body yet: every attempt to write a superblock ends the process",
          "unmarshall": "has no body yet: every recovery ends the process"}


RSP = execs.RS


def rsfn(*pats):
    return lambda n: any(p in n for p in pats)


IMPL = ("implementation/Implementation_v.rs:Implementation.", "implementation/Implementation_v.rs:SyncRequestBuffer.", "implementation/Implementation_v.rs:Journal.", "implementation/Implementation_v.rs:increment",
        "implementation/Implementation_v.rs:new_empty")

prop("P26", "The Rust store answers each request by its own handler and syncs in order",
     "The store's main loop recovers before it serves, and hands every received request and disk response to the handler for its kind. A put appends exactly its key and value as the newest journal entry and leaves all earlier entries alone; puts, no-ops and queries are answered once with their own id. "
     "A sync request is queued and answered with its own id only after the response to a superblock write issued after it was queued. A superblock carries the whole journal, goes to the superblock address, is launched whenever requests wait and none is in flight, never while one is in flight, and takes over exactly the requests queued so far. "
     "After a response every request it covers is answered once and the next superblock is considered. Recovery reads the superblock address first and installs what it holds.",
     ["histories", "schedules"], "every sequence of requests and disk responses",
     RSTESTS + "request and response orders are unbounded",
     mech=[("main loop and handlers", RSP + "implementation/Implementation_v.rs"), ("superblock", RSP + "implementation/DiskLayout_v.rs"), ("client interface", RSP + "trusted/ClientAPI_t.rs")],
     run=[execs.rs(execs.STORE, lambda n: rsfn(*IMPL)(n) or rsfn("DiskLayout_v.rs:", "TrustedEntry_t.rs:entry", "sequential_main.rs:main", "KeyType_t.rs:Key.clone")(n), "store-behaviour",
                   skip=("Journal.lookup",), gaps=RSGAPS)],
     files=[RSP + f for f in ("implementation/Implementation_v.rs", "implementation/DiskLayout_v.rs", "trusted/ClientAPI_t.rs", "trusted/TrustedEntry_t.rs")],
     floor=22, technique=FLOWTECH, explain=FLOWEXPL, assume=RSASSUME)


def also(id, run, files=(), note=None):
    """further analyses for a property declared above"""
    p = PROPS[id]
    p["run"] = p["run"] + list(run)
    p["files"] = p["files"] + [f for f in files if f not in p["files"]]
    if "path-sensitive" not in p["technique"]:
        p["technique"] += "; executable code: " + FLOWTECH
        p["explain"] += " " + FLOWEXPL


H = "implementation/Implementation_v.rs:Implementation."
also("P03", [execs.rs(execs.STORE, rsfn(*[H + f for f in ("handle_sync_request", "maybe_launch_superblock", "send_superblock", "deliver_inflight_replies", "handle_disk_response", "send_sync_response")]), "sync-acknowledged")],
     [RSP + "implementation/Implementation_v.rs"])
also("P04", [execs.rs(execs.STORE, rsfn(*[H + f for f in ("handle_noop", "handle_put", "handle_sync_request", "send_sync_response", "deliver_inflight_replies", "handle_disk_response", "handle_user_request", "kvstore_main")] + ["ClientAPI_t.rs:", "TrustedEntry_t.rs:entry"]),
                       "request-answered", skip=("ClientAPI.new",))],
     [RSP + "implementation/Implementation_v.rs", RSP + "trusted/ClientAPI_t.rs"])
also("P14", [execs.rs(execs.STORE, rsfn("exec/MiniAllocator_v.rs:"), "page-allocation")], [RSP + "exec/MiniAllocator_v.rs"])
also("P34", [execs.rs(execs.BANK, lambda n: True, "bank-behaviour", skip=("unverified_concurrent_tests", "main"))], [RSP + f for f in execs.BANK])
also("P15", [execs.rs(execs.FORMATS, lambda n: True, "format-behaviour")], [RSP + f for f in execs.FORMATS])

# ------------------------------------------------------------------ escapes from proof
prop("P24", "Nothing is accepted without proof beyond the recorded trusted base",
     "Every lemma and every function with a contract is accepted because its proof is checked. The only exceptions are the recorded ones: the axioms and external bodies of the trusted files, and the listed unfinished proofs. "
     "No function, lemma, module or foreign operation other than those is assumed correct (assume, admit, an external body or axiom that promises something, a specification assumed for foreign code, a bodiless lemma, a forged permission token), in Verus or in Dafny.",
     ["inputs"], "every function and lemma of the Verus and Dafny sources",
     "a test passes just as well when the obligation behind it is assumed away: an assumption makes the verifier accept anything",
     mech=[("Verus sources", "Splinter/src"), ("Dafny sources", "lib"), ("Verus marshalling", "Splinter/src/marshalling")],
     run=[trust.trust("rs", lambda f: True, floor=70), trust.trust("dfy", lambda f: True, floor=400)],
     files=["Splinter/src/marshalling/IntegerMarshalling_v.rs", "Splinter/src/trusted/ClientAPI_t.rs", "lib/Lang/System/PackedInts.s.dfy"], floor=800,
     technique="whole-tree inventory of escapes from proof over the token stream, compared with the recorded trusted base",
     explain="Every Verus and Dafny source file is scanned; each assume, admit, promising external body, axiom, assumed specification, bodiless lemma and forged token is located with the function it stands in and must be a recorded one "
             "(identified by file, function, kind and text; a helper or a renamed function inherits the record of the function it came from).",
     assume=["the recorded escapes in /verif/ref/trust.ref are the intended trusted base and the known unfinished proofs"])
for _p in list(PROPS.values()):
    if _p["id"] == "P24":
        continue
    for _k in ("rs", "dfy"):
        _fs = frozenset(f for f in _p["files"] if f.endswith("." + _k))
        if _fs:
            _p["run"] = _p["run"] + [trust.trust(_k, lambda f, s=_fs: f in s)]

# ------------------------------------------------------------------ what this family of technique cannot decide
prop("P25", "Executable Dafny refines its model: every proof still goes through",
     "Every method and lemma of the Dafny and Verus sources meets its contract: the executable store (Impl, lib/DataStructures, lib/Buckets) computes what its functional model says, and every refinement lemma is provable.",
     ["inputs", "histories"], "every lemma and every method of the sources",
     DFYTESTS + "no test verifies the Dafny store or the refinement proofs",
     mech=[("store implementation", "Impl/BookkeepingImpl.i.dfy"), ("Verus store", "Splinter/src/implementation/Implementation_v.rs")], files=["Impl/BookkeepingImpl.i.dfy"],
     reason="whether a proof goes through is decided by handing verification conditions to a solver, which is another family; what static analysis decides of it is claimed elsewhere: the contracts and models themselves (P01-P17, P29-P35) and that no proof is skipped (P24)")
prop("P27", "Every accepted request is eventually answered",
     "Under a disk that keeps responding, every query, update and sync is answered after finitely many steps; no schedule of completions starves one.",
     ["schedules", "histories"], "every fair schedule of disk completions",
     DFYTESTS + "fair schedules are infinite objects",
     mech=[("retry loops", "framework/Framework.cpp"), ("store main loop", RSP + "implementation/Implementation_v.rs")], files=["framework/Framework.cpp"],
     reason="progress quantifies over unbounded schedules and needs a measure on runtime state that no syntactic fact bounds; the safety half (no request is dropped, a freed slot is refilled, a deferred sync is launched) is claimed under P04, P20, P21 and P26")
prop("P28", "Memory, cache and write amplification stay within their configured bounds",
     "The cache never holds more than its configured number of nodes for long, journal and indirection table stay below their limits, and amortised work per update is bounded by the tree's fan-out.",
     ["inputs", "histories"], "every workload",
     DFYTESTS + "amortised bounds hold over histories, not runs",
     mech=[("eviction", "Impl/EvictImpl.i.dfy"), ("flush policy", "Impl/FlushPolicyModel.i.dfy")], files=["Impl/EvictImpl.i.dfy"],
     reason="the bound is on runtime quantities over whole histories (resident nodes, buffer weights, amortised work); no sound static argument in reach bounds them")
