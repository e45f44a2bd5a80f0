#!/usr/bin/env python3
"""Writes ../properties.jsonl (one source of truth for property texts)."""
import json, os
L="crates/cfg-noodle/src/storage_list.rs"; N="crates/cfg-noodle/src/storage_node.rs"
F="crates/cfg-noodle/src/flash.rs"; W="crates/cfg-noodle/src/worker_task.rs"; B="crates/cfg-noodle/src/lib.rs"
D="crates/cfg-noodle/src/data_portability.rs"; S="crates/cfg-noodle/src/safety_guide.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe,hook_needed=None)))

p("P01","Acknowledged writes survive power loss at any point",
"Once process_writes has returned success, every value that was the current value of an attached node when that call ran is what a fresh boot hydrates for that key, until a later process_writes supersedes it. This holds no matter at which later storage operation (element append, element invalidation, flash word write, page erase) power is lost, including during garbage collection and during the next write.",
["crash_points","histories","configurations"],
"For every history of attach/write/detach/process_* calls, every retained-record count, both an abstract element store and the NOR flash backend, and every storage operation of the history as the point where power is lost (torn writes included).",
"Unit tests run a handful of fixed histories and never cut power; the quantifier over crash points and over histories is out of their reach.",
[L,F],[("record write then read-back verification before nodes are marked clean","process_writes / verify_list_in_flash"),("retention of newest records during GC","process_garbage"),("newest-good-record scan","get_or_populate_latest")],
["values loaded from handles after a fresh list/nodes are attached to the surviving storage contents"])

p("P02","A boot sees exactly one whole record, never a mix",
"The set of values hydrated by a boot is exactly the set captured by one single process_writes attempt (or no stored values at all), never a combination of values from two attempts or part of one. The attempt is never older than the newest acknowledged one.",
["crash_points","histories"],
"For every history and every power-cut point, including repeated power cuts across several boots.",
"Tests contain no power cuts; mixing needs a cut inside a record combined with stale elements of earlier records.",
[L],[("Start/Data/End framing with sequence number and CRC","write_to_flash / get_or_populate_latest"),("hydration only from the chosen record's element range","extract_all")],
["joint vector of hydrated values of all keys after reboot, each value tagged with the write that produced it"])

p("P03","Hydration uses the newest intact record, whatever the damage",
"For any sequence of elements in storage - intact records, records with missing, altered, reordered or undecodable elements, records written out of sequence order - the values hydrated are those of the intact record with the highest sequence number. A record with missing, added, altered or undecodable elements, mismatching sequence numbers or a wrong checksum contributes no value; with no intact record every node gets its default. (Two records with the same highest sequence number, and a key twice in one record, cannot be produced by the crate and are left open.)",
["inputs","fault_sequences"],
"For every combination of records and damage in storage and every attached key set.",
"Tests try a few hand-made bad records; the space of damage and orderings is combinatorial.",
[L,F,B],[("scan with CRC and sequence matching","get_or_populate_latest"),("range-guided extraction","extract_all"),("element decoding","HalfElem::from_bytes / SerData::kv_pair")],
["hydrated values vs. an independent parser of the same element sequence"])

p("P04","Garbage collection never removes the newest intact records",
"Garbage collection never invalidates an element that belongs to one of the configured number of newest intact records present when it starts, and never writes new elements. This holds at every intermediate point of a collection, so interrupting or failing it at any operation leaves those records readable.",
["histories","crash_points","fault_sequences","configurations"],
"For every storage content, retained count K, interruption/error/cancellation point inside collection and every sequence of earlier failed operations.",
"Tests check end states of a few successful collections with K=3 only.",
[L],[("index ranges of the retained records compared with the iteration position","process_garbage::last_records_contain"),("SeqState ring of newest records","SeqState::insert_good")],
["every invalidate call of the collector, judged against an independent parse of the contents at its start"])

p("P05","Garbage collection reclaims everything else; space stays bounded",
"After a collection that was due completes successfully, storage holds exactly the elements of the newest intact records (at most the configured number) and nothing else. Repeating update, write and collect can therefore go on forever on a storage of bounded size without ever running out of space.",
["histories","configurations","inputs"],
"For every prior content (junk, partial and damaged records, surplus records), every K, every flash geometry with room for K+2 records, and arbitrarily many update cycles.",
"Tests run a few cycles; exhaustion shows only after many cycles or particular junk.",
[L,F],[("popping everything outside retained ranges","process_garbage"),("page reuse in the queue backend","flash.rs push/invalidate")],
["element list after successful process_garbage; FullStorage errors over long runs"])

p("P06","Storage faults, aborts and power cuts never wedge the list",
"After any finite series of failed, aborted (future dropped) or power-cut storage operations, once storage works again a process_garbage followed by process_writes on the same running list succeeds and makes every current value durable, provided one process_reads has completed before the write. On a fresh boot the sequence process_reads, process_garbage, process_writes succeeds likewise, and no operation is left failing forever.",
["fault_sequences","crash_points","histories"],
"For every placement of read errors, write errors, silent corruption, future drops and power cuts in the history.",
"One test injects one read error; recovery after faults inside write, verification or collection is not exercised.",
[L,W],[("need-for-collection tracking and forced rescan","SeqState / process_garbage"),("sequence number reuse after a failed write","process_writes")],
["results of the recovery sequence and hydrated values afterwards"])

p("P07","A reported write success means the data really is in storage",
"process_writes returns success only if an intact record holding exactly the current value of every attached, hydrated node is present in storage at return; if the storage dropped or altered an element so that this is not the case, it reports failure. After a failure every not-yet-stored change is still pending and is stored by a later successful call.",
["fault_sequences","inputs"],
"For every element of every record and every way the storage can silently mis-store it, and every error placement.",
"Tests never let the storage corrupt what it is given while reporting success.",
[L],[("CRC/count/sequence read-back","verify_list_in_flash"),("nodes marked clean only after verification","process_writes")],
["independent parse of storage contents at the return of each process_writes"])

p("P08","No update is lost and nothing is written needlessly",
"A value changed through a handle (or taken from a default) stays pending until a process_writes that returns success has stored that value or a newer one for the key - also when the change happens while another write, read or collection is in progress. A process_writes with nothing pending and with stored data present performs no storage modification and reports zero bytes written.",
["schedules","histories"],
"For every interleaving of handle writes, attaches, detaches and process_* calls at every await point.",
"Tests have one or two fixed interleavings.",
[L,N],[("per-node dirty state under the list lock","State::NeedsWrite / ValidNoWriteNeeded transitions"),("dirty scan","needs_writing")],
["byte counters and storage operations of each call; record contents after the next successful write"])

p("P09","Handles read their own writes, isolated per key",
"load on a handle returns exactly the value of the last completed write through it (or the hydrated/default value if there was none), whatever reads, writes, collections, faults and other nodes' operations run concurrently. A write whose future is dropped before completion either took effect entirely or not at all, and no operation on one key ever changes the value of another.",
["schedules","histories"],
"For every interleaving and cancellation of handle operations with background processing.",
"Tests load after few fixed operations without faults or cancellations.",
[N,L],[("value replaced only under lock, hydration only from Initial","StorageListNodeHandle::write / deserialize")],
["each load against a per-key register model"])

p("P10","One live handle per node, one list per node, one node per key",
"At every moment a node has at most one live handle, is a member of at most one list, and no two nodes with the same key are attached to one list; attach and detach calls that would break this fail with the documented error and change nothing. Dropping a handle, or dropping an attach or detach future at any point, leaves the node usable: it can again be attached or detached once no handle is live.",
["schedules","histories"],
"For every interleaving of attach, detach, handle drop and dropped futures over several lists, nodes and keys.",
"Tests check a few sequential error cases and no cancelled attach.",
[N],[("tagged list pointer","taken_for_list in attach_with_default / detach / Drop"),("duplicate key search","find_node")],
["result of every attach/detach compared with a reference protocol model"])

p("P11","Payloads are dropped exactly once and never leak",
"Every payload instance created by cloning, decoding or default construction is dropped exactly once: nothing is dropped twice, nothing is used after drop, and after detaching nodes only values still owned by the caller remain alive. This includes repeated attach/detach cycles, failed decoding, failed writes and dropped futures.",
["histories","schedules"],
"For every history of attach, write, load, detach, process_* and cancellation.",
"Tests use plain data types without drop tracking.",
[N],[("drop on detach","detach: assume_init_drop by state"),("swap on write","StorageListNodeHandle::write"),("hydration into uninit slot","deserialize")],
["ledger of payload births, clones and drops"])

p("P12","Safe API use is free of undefined behaviour and data races",
"No program using only the safe public API, on any number of threads, causes undefined behaviour or a data race: no out-of-bounds, dangling, uninitialised or misaligned access and no unsynchronised conflicting access. Payload types that cannot be shared between threads cannot be shared through nodes and handles.",
["schedules","programs"],
"For every multi-threaded use of nodes, handles, lists and worker functions with any payload type the API accepts.",
"Tests run natively on mostly one thread; undefined behaviour is invisible to assertions.",
[N,L,S],[("list mutex and atomic state protocol","safety_guide rules"),("Send/Sync impls","unsafe impl Sync for StorageListNode")],
["Miri (many schedules), ThreadSanitizer and AddressSanitizer reports on multi-threaded workloads; compile outcome of probe programs"])

p("P13","Attach hydrates with the stored value or the default, and ends",
"An attach of a node not hydrated before yields the stored value if the newest intact record has a decodable entry for the key, and otherwise the supplied default - the default only after a process_reads that ended after the attach registered returned success; a failed read never yields a default. Every process_reads call that starts after an attach registered and succeeds releases that attach, in every interleaving.",
["schedules","histories","fault_sequences"],
"For every interleaving of many concurrent attaches, re-attaches, detaches and process_* calls, with failing reads and dropped attaches.",
"Tests attach one or two nodes in fixed order.",
[N,L],[("wait_for_value on hydration state","attach_with_default"),("initial nodes marked and waiters woken","process_reads / mark_initial_nonresident")],
["attach completion vs. process_reads completion in a wake-accurate executor"])

p("P14","The default worker persists and hydrates within its debounce bounds",
"With the default worker running on working storage, every attach completes within a bounded time after requests pause (100 ms debounce) and every handle write becomes durable within a bounded time after writes pause (10 s debounce), whatever mix and timing of attaches and writes preceded. Writes are not stored before they have paused for 10 s, and leftovers of earlier boots are collected without any request. Bounded storage errors only delay this until a later trigger; the worker never dies, spins or stops serving.",
["schedules","histories","fault_sequences"],
"For every timing of attaches and writes relative to the worker's debounce windows and the delayed first collection.",
"Tests cover one or two timings in real time.",
[W],[("debounced select loop","default_worker_task")],
["virtual-time trace of attach completion and of records reaching storage"])

p("P15","Stopping the default worker flushes pending writes",
"When the stop future completes at any moment, the default worker returns in bounded time and, if storage works and a first read had completed, every value written through a handle before the stop is durable when it returns. This holds whatever the worker was doing at that moment, including waiting, debouncing, reading, writing or collecting, and even when another node was just attached.",
["schedules","crash_points"],
"For every stop instant, including every await point inside an ongoing read, write or collection.",
"Tests stop an idle worker.",
[W],[("final process_writes with collection retry","default_worker_task after select")],
["storage contents after the worker future returns"])

p("P16","Arbitrary storage bytes and buffer sizes never panic or hang",
"For every flash or element content, every scratch-buffer length and every payload size, all operations finish within a number of steps linear in the contents and report problems as errors, never by panicking, looping or overflowing. Foreign or damaged elements that are not part of an intact record are skipped.",
["inputs","configurations"],
"For arbitrary raw flash images, element contents, buffer lengths (including empty) and payload sizes around the limits.",
"Tests use well-formed contents and large buffers.",
[L,F,B,N],[("checked decoding","HalfElem::from_bytes, SerData, serialize_node, serialize")],
["panic monitor, step counter and result of each call"])

p("P17","Stored values round-trip, also across schema changes",
"Any value of any payload type that was acknowledged is hydrated equal to itself by the same type; adding optional or defaulted fields and removing fields keeps the remaining fields' values. An entry that does not decode as the node's type yields that node's default and does not disturb any other key.",
["inputs","programs"],
"For all payload values and schema pairs within the documented portability rules, and incompatible pairs.",
"The documentation example covers one value of one schema pair.",
[N,L,D],[("key/value CBOR encoding","serialize_node / serialize / deserialize"),("fallback to default","extract_all / attach_with_default")],
["hydrated value vs. value written, over generated values and type pairs"])

p("P18","The NOR flash backend stores every permitted element faithfully",
"On every flash geometry (read, write and erase sizes, number of pages) any sequence of appended elements (data elements with a key and value) whose size is within the advertised maximum is read back in order and unchanged until invalidated, with and without caches and across remounts. check_node_size accepts exactly those keys and values that the backend can store and the list can write, given a scratch buffer of the documented length.",
["configurations","inputs","histories"],
"For all geometries, element sizes 0..max and histories of push, invalidate, remount.",
"Tests use one geometry.",
[F,B],[("element encoding and limits","Flash::push / HalfElem / MAX_ELEM_SIZE"),("size check","NdlDataStorage::check_node_size")],
["pushed vs. iterated elements; boundary sizes accepted/rejected vs. process_writes outcome"])

p("P19","Sequence numbers of stored records strictly increase",
"Every record completed by a successful process_writes carries a sequence number strictly greater than that of every intact record in storage before it, over any number of boots, failures and collections. Both framing elements of a record carry the same number and it is never zero.",
["histories","crash_points","fault_sequences"],
"For every history of boots, faults and power cuts, starting from any existing sequence numbers.",
"Tests look at short single-boot histories.",
[L],[("next sequence number derived from the newest record seen","SeqState::insert_good / get_or_populate_latest")],
["independent parse of storage before and after each process_writes"])

p("P20","Reads and needless calls never modify storage",
"process_reads, reset_cache, attach, detach, load and write never append or remove a stored element; neither does process_garbage when no collection is due, nor process_writes when it fails with a precondition error. Before storage has been read at all (no process_reads attempted since boot or reset_cache), while an attached node still waits for hydration, and while a collection is due, process_writes refuses to write.",
["histories","fault_sequences"],
"For every state of the list and storage in which these calls can be made.",
"Tests do not observe the storage operations issued by each call.",
[L],[("precondition checks","process_writes / process_garbage early returns"),("read-only iteration","get_or_populate_latest / extract_all")],
["per-call log of mutating storage operations"])

p("P21","Operation reports state the bytes actually moved",
"The byte counters returned by process_reads, process_writes and process_garbage equal the sizes reported by the storage for the elements actually read, appended and popped during that call. Current bytes read equals the data elements of the record used for hydration and is zero when none exists.",
["histories","inputs"],
"For every successful call in every history.",
"Tests do not compare counters with traffic.",
[L,F],[("counters","ProcessReadCounters / ProcessWriteCounters / ProcessGarbageCounters")],
["element sizes seen at the storage trait vs. returned counters"])

p("P22","Flash wear is spread evenly and erases track data written",
"On the NOR backend repeated updates rotate through all pages: over a long run the number of erases of any two pages differs by a small constant, and total erases stay proportional to the bytes written. A never-erased word is never programmed twice in a way NOR flash forbids.",
["histories","configurations"],
"For long update histories over many geometries and value sizes.",
"Tests run too few cycles to fill the flash.",
[F,L],[("queue rotation","sequential-storage queue as driven by process_writes/process_garbage")],
["per-page erase counters and bit-transition monitor of a simulated NOR flash"])

p("P23","The no-op worker serves every attach with defaults only",
"With the no-op worker running, every attach completes with the node's default, writes through handles are visible to load, detach and re-attach give the default again, and nothing ever fails or panics. This holds for any number and timing of nodes.",
["schedules","histories"],
"For every interleaving of attaches, writes, detaches and worker steps.",
"One test with a single node and fixed order.",
[W,F],[("always-empty storage","no_op_worker_task / AlwaysEmptyFlash")],
["results of attach and load under a wake-accurate scheduler"])

p("P24","Read and write requests are never missed by a waiting worker",
"Whenever an attach registers a node that needs hydration, or a handle write completes, a worker that waits on the corresponding request queue now or later is woken at least once after that event, also when an earlier wait was dropped or several events coincide. A custom worker that waits, then processes, therefore never sleeps while a node is unhydrated or a handle write is pending.",
["schedules","histories"],
"For every interleaving of attaches and writes with waiting, processing and cancelled waits of the worker.",
"Tests always have the worker already waiting.",
[N,L],[("stored wake-ups","needs_read / needs_write wake in attach_with_default and write")],
["wake-accurate executor: quiescence with outstanding work is a violation"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
