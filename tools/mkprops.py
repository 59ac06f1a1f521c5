"""Writes properties.jsonl and MANIFEST.json (run in /verif)."""
import json
S="crates/craballoc/src/slab.rs"; V="crates/craballoc/src/value.rs"; R="crates/craballoc/src/range.rs"; T="crates/craballoc/src/runtime.rs"; W="crates/craballoc/src/slab/wgpu_slab.rs"; C="crates/crabslab/src/"
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":None}})
p("C01","No lost updates: what was written before a commit is in the buffer after it",
 "When a commit returns, the GPU buffer holds, for every live value and array item, the value of a write that completed before that commit began, or of one that overlaps it or follows it; an initial value counts as a write. No write is ever dropped because of what other threads create, write, drop or commit at the same time, and each handle's writes reach the words of its own value only.",
 ["schedules","inputs","histories"],"every interleaving of threads that create, write, drop, query and commit on one allocator; every sequence of such operations on one thread; every value type",
 "The tests commit on one thread after everything else has finished. A lost notification or a queue taken in two steps needs a thread switch at one of a handful of instructions, and a merge of adjacent ranges that goes wrong needs a particular history of dirty words.",
 [S,V,R],[("register source, then notify","insert_update_source "+S),("drain notifications, then sources","drain_updated_sources "+S),("merging of adjacent updates","RangeManager<SlabUpdate>::add_range "+R)],
 [("update_queue","source ids that have updates nobody took yet",S),("update_sources","id to weak reference of the value's update list",S)],["SlabAllocator::commit","runtime buffer contents after commit"])
p("C02","Published values are whole, and no item ever goes back to an older value",
 "A value that spans several words is never seen half old and half new in a buffer no commit is working on. The value an item has in the buffer only ever moves forward: once a commit has published a write, no later state of the buffer holds a value that a completed write had already replaced before, including through buffer re-creation and through re-use of the space of dropped values.",
 ["schedules","histories"],"every interleaving of writers of the same and of adjacent items with any number of committers; every history of commits, growth and re-use",
 "Overlapping commits can apply their batches in the wrong order, and a stale batch can land on recycled words; both need two threads to interleave inside a commit, which no test does.",
 [S,V,R],[("commits are serialized","commit_lock in SlabAllocator::commit "+S),("updates of one value are kept in order","Gpu::set, GpuArray::set_item, Hybrid::modify "+V)],
 [("updates","updates of one value that no commit has taken yet, oldest first",V)],["buffer snapshots between commits"])
p("C03","A GPU-side reader gets each value by its id, array or offset, or a default",
 "After a commit, reading the buffer through the id or array of a live value gives the value last committed, whole and field by field through field offsets, for every supported type. A reader whose buffer is outdated, truncated, or changing under it, or that follows an id to nowhere, gets a value or the type's default and never panics; an item that does not lie fully inside the buffer reads as the default.",
 ["inputs","histories","fault_sequences"],"every value type (primitives, tuples, arrays, options, enums, vectors, matrices, derived structs and enums, nested ids and arrays), every placement in the slab, every outdated, truncated or corrupted copy of the buffer",
 "Unit tests read a handful of values from intact slabs; a reader that races with growth or holds an older, shorter buffer is not exercised at all.",
 [C+"slab.rs",C+"id.rs",C+"array.rs",C+"offset.rs",C+"impl_slab_item/mod.rs",C+"impl_slab_item/glam.rs",C+"impl_slab_item/primitives.rs",C+"impl_slab_item/tuples.rs","crates/crabslab-derive/src/lib.rs"],
 [("bounds check before a typed read","Slab::contains, Slab::read "+C+"slab.rs"),("per-type codec","SlabItem::read_slab, write_slab "+C)],(),["Slab::read, Slab::read_unchecked over a buffer snapshot"])
p("C04","Live allocations never overlap and always lie inside the slab",
 "At every moment the word ranges of any two live values or arrays are disjoint, whatever threads create, clone, drop and commit concurrently and however space is recycled and merged. Every live allocation lies inside the buffer that the first commit begun after its creation returns. Words of a dropped value are not handed out again while any strong handle to it exists.",
 ["schedules","inputs","histories"],"every interleaving of creations, drops, upgrades and commits; every mix of sizes including zero-sized values and empty arrays",
 "The tests allocate from one thread, from an allocator with few recycled ranges. Growth racing with growth, a drop racing with an upgrade, and re-use of merged ranges of uneven size are not sampled.",
 [S,V,R],[("allocation under one lock","allocate, allocate_array "+S),("recycled ranges split on re-use","RangeManager<Range>::remove "+R),("liveness test before recycling","drain_updated_sources "+S)],
 [("recycles","ranges free for re-use",S),("len","first word never handed out",S)],["Hybrid::id, Gpu::id, array() of live handles"])
p("C05","Space of dropped values comes back exactly once and is re-used",
 "The space of every dropped value or array becomes available again once the last handle that owns it is gone and a commit has run, and exactly once. Freed neighbouring ranges merge, so that after everything has been dropped and committed an array as large as all the space ever used fits into that space. A program that creates and drops values of one size uses no more space than the values that were alive or waiting for a commit at any one time.",
 ["schedules","inputs","histories"],"every order and interleaving of drops by any number of threads, commits, defragmentation and re-allocation",
 "Whether space leaks depends on which thread drops the last handle relative to a commit's steps, and merging on the order in which neighbours come back; the tests try one or two fixed orders on one thread.",
 [S,V,R],[("a dropped owner notifies the slab","Drop for Gpu, GpuArray, Hybrid "+V),("recycling in a commit","drain_updated_sources "+S),("merging","RangeManager::defrag, add_range "+R)],
 [("recycles","ranges free for re-use",S)],["ids of later allocations; size of an array that fits after everything was dropped"])
p("C06","Growing the slab keeps what it holds, and the buffer never shrinks",
 "When a commit re-creates the buffer because the slab has grown, everything the old buffer held that was not written anew is in the new one, including what GPU programs wrote there. The buffer's size never decreases, and it covers everything allocated before the commit began, even while other threads grow the slab.",
 ["schedules","inputs","histories"],"every interleaving of allocations with commits that re-create the buffer; every sequence of sizes",
 "The tests grow the slab on one thread between commits. Growth in the middle of a commit, and two threads that grow at once, need particular interleavings.",
 [S,W,T],[("copy of the old buffer","recreate_buffer "+S+", buffer_copy "+T),("capacity doubling under the allocation lock","maybe_expand_to_fit "+S)],
 [("capacity","words the next buffer will have",S),("needs_expansion","the buffer is smaller than the capacity",S)],["buffer size and contents after each commit"])
p("C07","Commits change only what was written, and nothing changes outside of a commit",
 "The buffer's contents change only inside a commit, never because a value is written, created, dropped, cloned, queried or read back. A commit changes no word that does not belong to a value with a pending write, so that data a GPU program wrote to a live value stays until the CPU side writes that same item.",
 ["schedules","inputs","histories"],"every sequence and interleaving of operations between and around commits, with GPU-side writes at any point in between",
 "The tests compare the few words they wrote; a write that strays, or an update that is applied twice and undoes GPU-side data, shows only where other data lies and only in some histories.",
 [S,R,T,W],[("updates carry their exact range","SlabUpdate "+V),("each update is taken once","drain_updated_sources, GpuRef::get_update "+V)],
 (),["snapshots of the buffer before and after each operation"])
p("C08","A buffer handle knows when it is outdated and catches up",
 "A buffer handed out by a commit or query says it is valid exactly as long as no commit has replaced it; once a commit that replaced it has returned, it says invalid. Bringing it up to date reports a change exactly if the buffer it refers to changed, moves forward in time only, and leaves it with the newest buffer; the flag that a buffer is new is set for the commit that created it and for no later one.",
 ["schedules","histories"],"every interleaving of validity checks and updates of any number of handle copies with commits that do or do not replace the buffer",
 "The tests check one handle around one re-creation on one thread; the window between storing the new buffer and marking the old one as outdated needs an interleaved reader.",
 [S],[("creation and invalidation times","SlabBuffer::is_valid, update_if_invalid, is_new_this_commit "+S),("both are set in one step","recreate_buffer "+S)],
 [("invalidation_k","time of the last replacement",S),("invocation_k","number of commits so far",S)],["SlabBuffer methods"])
p("C09","Pending updates are reported: none is missed, and none is left when all is done",
 "From the moment a write completes until a commit takes it, the allocator reports that updates are queued and lists the identifier of the written value. After a commit that took everything, with nothing written since, it reports none. Asking never loses, delays or invents an update, at any interleaving with writers and committers.",
 ["schedules","histories"],"every interleaving of the queries with writes, drops, creations and commits",
 "The tests query once on one thread. That a query drains the notifications makes it a writer in disguise, and only an interleaving between its two steps and a commit shows whether something is lost.",
 [S],[("queue of notified sources","get_updated_source_ids, has_queued_updates "+S)],[("update_queue","source ids that have updates nobody took yet",S)],["SlabAllocator::get_updated_source_ids, has_queued_updates"])
p("C10","Values with a CPU side are linearizable, and the GPU agrees when all is quiet",
 "Reads, writes, in-place modifications and write guards of a value or array with a CPU side behave as if they happened one after the other, between call and return, on every clone and upgraded handle, and each modification sees the result of exactly the ones before it. Out-of-range items are refused without an effect. Once all writers are done and a commit has run, the GPU buffer holds the same value as the CPU side.",
 ["schedules","histories"],"every interleaving of operations on shared handles, with commits in between, including calls into the API from inside a modification",
 "Linearizability is a statement over all concurrent histories; the tests have none, and the agreement of both sides depends on the CPU and the GPU update being ordered alike by every pair of writers.",
 [V,S],[("CPU value and GPU update change under one lock","Hybrid::modify, HybridWriteGuard, HybridArray::modify "+V)],
 [("cpu_value","the CPU side",V)],["get, set, modify, lock of Hybrid and HybridArray"])
p("C11","A value lives exactly as long as a strong handle to it does",
 "Every operation on a strong handle works, with an unchanging id and identifier shared by all its clones, no matter which other handles, buffers or allocator clones are dropped. A weak handle can be upgraded as long as a strong handle exists and never after the last one is gone; the reported number of owners is right. When all allocators, buffer handles and values are gone every GPU buffer has been freed.",
 ["schedules","histories"],"every order and interleaving of clone, drop, downgrade, upgrade, conversion and commit over any number of threads",
 "The race between the last drop, an upgrade and a commit that recycles needs three threads at particular points, and what outlives what is a property of all orders of dropping.",
 [V,S],[("strong and weak counts","WeakHybrid::upgrade, WeakGpu::upgrade, Drop impls "+V)],(),["upgrade, ref_count, id, notifier_index; buffers alive at the end"])
p("C12","Reading back gives the buffer's contents or an error, also if it fails half way",
 "Reading a range, an array or the whole buffer back gives exactly the words that were asked for, as of some moment during the read. A read whose mapping fails, whose device is lost or that is dropped at any point ends in an error or not at all; it never panics or hangs, returns no wrong data, and leaves the allocator fully usable.",
 ["fault_sequences","schedules","crash_points"],"every range; mapping failure, device loss and cancellation at every suspension point of a read, alone and while other threads write, commit and grow the slab",
 "The tests read back a healthy buffer to the end; they never cancel a read, fail a mapping, read an empty range or read while the buffer is being replaced.",
 [S,W,T],[("staging buffer, map callback, channel","WgpuRuntime::buffer_read "+W)],(),["SlabAllocator::read, read_array, read_one; IsRuntime::buffer_read"])
p("C13","Every call returns: no deadlock, no livelock, no lock across calls",
 "As long as no thread keeps a write guard, every call of every thread returns within a bounded number of its own steps once the others have paused outside of the API or finished. A thread that keeps a write guard to one value blocks only operations on that value's CPU side, never commits, reads back, other values or handle bookkeeping. Calling the API from inside a modification of a value, or from the iterator an array is made of, works for all calls that do not touch that value's CPU side, and so does using the allocator while a read of the same thread is still pending.",
 ["schedules","histories"],"every interleaving of all API calls over up to five threads, nested calls and guards kept across other threads' commits included",
 "Deadlock freedom is a statement about all interleavings and lock orders; a single-threaded test cannot block itself in any of them.",
 [S,V,W],[("lock order","SlabAllocator locks: commit, recycles, buffer, sources "+S),("guards hold only the CPU-side lock","HybridWriteGuard "+V)],(),["progress of all simulated threads within the step bound"])
p("C14","A panic in user code stays with the value it happened in",
 "A panic of a caller's closure, of a caller's type while it is cloned or encoded, or of the owner of a write guard reaches its caller. Afterwards at most operations on the CPU side of that one value refuse service: all other values, the allocator, commits and reads back work as before, no half-encoded value is published, and no space is lost for good. Calls that destructors make while a panic unwinds, dropping values above all, work like any others.",
 ["fault_sequences","schedules","crash_points"],"a panic at each point where user code runs, at every interleaving with other threads",
 "No test panics on purpose. A lock poisoned at the wrong point turns one caller's panic into the failure of every later commit, which only an injected panic shows.",
 [V,S],[("encoding before shared state is touched","Gpu::set, GpuArray::new "+V),("poisoned locks that hold consistent data are taken over","commit_lock "+S)],(),["all later operations of all threads after an injected panic"])
p("C15","A failing GPU runtime does not take the allocator down with it",
 "If creating, copying or writing a buffer panics inside the runtime, the commit reports it by panicking and every later commit, on any thread, works again. Buffers stay consistent: what earlier commits had published is still there, writes made after the failure are published by the next commit, and the space of dropped values is still recycled.",
 ["fault_sequences","schedules","crash_points"],"a panic before or after the effect of each of the runtime's calls within a commit, in sequence and at every interleaving with other threads",
 "The runtimes of the tests never fail. What a commit leaves behind when it is cut off between two of its steps is not reachable without a fault.",
 [S,T],[("state changes only after the runtime call returned","recreate_buffer "+S)],(),["commits and contents after an injected runtime failure"])
p("C16","All runtimes agree, and every GPU command is valid",
 "The same operations in the same order leave the same slab contents and sizes and give the same ids on every runtime. Every command given to the GPU is valid: buffers are created with the usages that were asked for and those the allocator needs and with the label that was set, copies and writes are aligned and inside both buffers, and encoded work is submitted.",
 ["configurations","schedules","inputs"],"every sequence of operations, on the CPU runtime, the wgpu runtime and a reference runtime; every label and usage configuration",
 "The tests check a few values on the wgpu runtime if there is a GPU, and others on the CPU runtime; nothing runs the same history on both, and validity of every command is checked by a driver, if at all, for those few.",
 [T,W,S],[("runtime trait","IsRuntime for CpuRuntime "+T+", for WgpuRuntime "+W)],(),["slab contents per runtime; commands recorded by the simulated wgpu"])
def na(id,title,st,over,q,why,files,mech): p(id,title,st,over,q,why,files,[(x,files[0]) for x in mech])
na("C17","Encoding then decoding any value gives it back, at exactly its declared size",
 "For every supported type and every value, writing it into a slab at any index and reading it from there gives the value back, the index after it is the index plus the declared size, and no word outside of that range changes or is looked at.",
 ["inputs"],"every value of every supported type at every index of every slab","Tests sample a few values per type.",
 [C+"slab.rs",C+"impl_slab_item/mod.rs",C+"impl_slab_item/glam.rs",C+"impl_slab_item/primitives.rs",C+"impl_slab_item/tuples.rs"],["SlabItem impls"])
na("C18","Derived layouts are the concatenation of their fields",
 "The derived size of a struct is the sum of its fields' sizes, fields lie in declaration order without gaps, field offsets point at them, and an enum is its discriminant followed by room for its largest variant, for every type the derive accepts.",
 ["programs"],"every struct and enum definition the derive macros accept","Tests derive for a few types.",
 ["crates/crabslab-derive/src/lib.rs",C+"offset.rs"],["derive(SlabItem), derive(Offsets)"])
na("C19","Appending to a growable slab returns ids that read back, and keeps what is there",
 "Appending a value or a slice to a growable slab grows it as needed, returns an id or array that reads back what was appended, and changes no word that was in use before.",
 ["inputs","histories"],"every sequence of appends to a slab of any length","Tests append a few items.",
 [C+"slab.rs"],["GrowableSlab for Vec, CpuSlab"])
na("C20","Ids and arrays do exact index arithmetic",
 "The id of an array's item is the array's start plus the index times the item's size for indices below its length and the null id otherwise, slices and iterators of arrays follow from it, and conversions between an id's raw forms keep its value.",
 ["inputs"],"every start, length and index that fits the address space","Tests sample small arrays.",
 [C+"array.rs",C+"id.rs"],["Array::at, Array iterators, Id arithmetic"])
na("C21","Range bookkeeping keeps a set of words exact",
 "Adding ranges to a range set and taking some out again always leaves ranges that together hold exactly the words added and not taken, each of them once.",
 ["inputs","histories"],"every sequence of additions, removals and merges on the range type by itself","Tests use a few fixed sequences.",
 [R],["RangeManager, Range"])
bad=[x["title"] for x in P if len(x["title"])>80]
assert not bad, bad
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
tech="deterministic simulation: seeded schedules and injected faults over the real code, reference-model oracle"
note={
"C01":"Reference model of every item's writes with call and return times; buffer snapshots must show an acceptable write.",
"C02":"Snapshots between commits are matched to whole written values; a value replaced before an earlier observation is a violation.",
"C03":"Every id and array is read from current, outdated, truncated and corrupted copies of the buffer and compared to the model, the default, and field-offset reads.",
"C04":"Each allocation's words are compared to all live ones and to the buffers commits return.",
"C05":"A final reclaim phase drops everything, commits, and allocates all space in one array; uniform programs bound the footprint.",
"C06":"GPU-side writes and committed values must survive growth; sizes are monotone and cover what was allocated before.",
"C07":"Buffer snapshots around operations and commits; only items with pending writes may differ.",
"C08":"Buffer handles are checked against the simulator's own record of which buffer is current.",
"C09":"Reports are compared to the sets of sources that certainly have, and certainly have no, pending writes.",
"C10":"Wing-Gong linearizability check of each value's history; GPU equals CPU at quiescence.",
"C11":"Ownership model with upper and lower bounds on owners; buffers counted at the end.",
"C12":"Map failure, lost callback and cancellation after each poll on the simulated wgpu; contents matched to the model.",
"C13":"No run may deadlock or exceed its step bound; guards are kept while others commit.",
"C14":"Panics injected in closures, clone, encode and guard owners; everything else must go on.",
"C15":"Runtime calls panic before or after their effect; later commits are checked against the model.",
"C16":"The same program is executed on three runtimes and compared; the simulated wgpu validates every command."}
json.dump({"version":1,"setup_cmd":"bash build.sh",
 "checks":[{"property":k,"quick_cmd":f"bash check.sh {k} quick","thorough_cmd":f"bash check.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":tech,"level":"exploration",
   "level_note":v+" Sampled, not exhaustive. Interleavings are those of atomic operations and lock calls under sequential consistency; the wgpu crate and the scheduler are simulated, all of crabslab and craballoc is the real code."} for k,v in note.items()],
 "not_applicable":[
  {"property":"C17","reason":"A pure function of type, value and index: no schedule, time, I/O or fault takes part. Where the codec matters to what a GPU reader sees it is exercised under C03."},
  {"property":"C18","reason":"A statement about a compile-time code generator over all type definitions: nothing to simulate. The derived types of the simulator's pool are exercised under C03."},
  {"property":"C19","reason":"Single-owner, in-memory, purely sequential function of its inputs: no nondeterminism or fault to inject."},
  {"property":"C20","reason":"Pure index arithmetic: no schedule, time, I/O or fault takes part."},
  {"property":"C21","reason":"The range type by itself is a sequential data structure; its part in allocation and commits is decided under C01, C04, C05 and C07."}],
 "notes":"One simulator (sim/) decides all properties; each check runs its own program profile. bash selftest.sh checks determinism. No hooks in /repo: scheduling points are compiled in by rustc's sanitizer instrumentation, see DESIGN.md."},
 open("MANIFEST.json","w"),indent=1)
