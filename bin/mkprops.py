#!/usr/bin/env python3
# writes properties.jsonl (kept as a script so that the statements are easy to review)
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
GC=["collector/gembc.c","collector/portablems.c"]
p("G01","Reachable objects survive every collection intact",
 "At every point of every program, each object reachable from the program's roots through its pointer members is the same object it was: same identity (two references are equal exactly if they named one object), same type and length, same data, and members referring to the same objects. No collection, of any generation and in either collector, may lose, merge, duplicate or alter a reachable object.",
 ["programs","histories","configurations"],
 "all mutator programs (allocations, stores, root changes, object shapes, cycles, sharing, deep and wide graphs), all points at which a collection can happen, all collectors, generation counts, pool and card sizes",
 "The tests run eight fixed programs, which check a checksum or nothing at all, mostly with 16 MB pools in which few collections happen; they reach a handful of heap shapes out of all.",
 GC+["ggggc/gc.h","ggggc-internals.h","allocator.c"],
 [("minor collection: copying survivors to the next generation","collector/gembc.c ggggc_collect0"),("full collection: mark, break table, sliding compaction","collector/gembc.c ggggc_collectFull/ggggc_compact/ggggc_postCompact"),("mark and sweep","collector/portablems.c mark/sweep"),("search list","ggggc-internals.h TOSEARCH_*")],
 [("object graph","objects, members and data as the program sees them","objects in pools")],["GGC_RP/GGC_RD/GGC_RAP/GGC_RAD on everything reachable, after each operation which may collect"])
p("G02","Stores into older objects keep younger objects alive and correct",
 "When a program stores a reference to a newer object into any older object or array, however long ago the older object was allocated, the newer object and everything reachable from it survive later collections of the young generation, and the stored reference keeps naming it. This holds for every member, element and descriptor user pointer, wherever the older object lies in memory.",
 ["programs","histories","configurations"],
 "all histories of allocation, ageing (any number of collections between), stores and re-stores, for all member positions and object placements relative to cards and pools, 1 to 5 generations",
 "The one test aimed at remembered sets is not part of the test matrix; the others store old-to-young references only at the few places their fixed programs happen to.",
 ["ggggc/gc-gembc.h","collector/gembc.c","ggggc/gc.h"],
 [("write barrier","ggggc/gc-gembc.h GGGGC_WP"),("card scanning","collector/gembc.c ggggc_collect0 (remember, firstObject)"),("card metadata upkeep","collector/gembc.c ggggc_mallocGen1, ggggc_postCompact")],
 [("remembered cards","cards which may hold references to younger generations","pool->remember"),("first objects","where scanning of a card starts","pool->firstObject")],["contents of old objects after later minor collections"])
p("G03","Garbage is reclaimed: the heap stays bounded",
 "A program whose reachable data stays below a bound runs forever in memory proportional to that bound, however much it allocates: memory of unreachable objects (including cycles, and objects which had grown old) is eventually reused. Any allocation which fits a pool succeeds when memory is available, and never collects forever without making progress.",
 ["programs","histories","configurations"],
 "all allocation/death patterns (ages at death, object sizes, fragmentation), all collectors and generation counts",
 "No test measures memory; a collector which never reclaims old garbage passes the tests as long as the machine has memory.",
 GC+["allocator.c"],
 [("pool reset after promotion, compaction, free list","collector/gembc.c, collector/portablems.c sweep/clearFreeList"),("heap growth policy","allocator.c ggggc_expandPoolList, collector/portablems.c clearFreeList"),("pool reuse","allocator.c ggggc_newPool/ggggc_freeGeneration")],
 [("pools","memory obtained from the operating system","allocator.c")],["memory obtained from the operating system's allocation interface"])
p("G04","A new object is zeroed, of the requested size, and overlaps no other",
 "Every allocation (objects, pointer arrays, data arrays of any element size, including length 0) returns an object whose members and elements are all null or zero, whose length is the one requested, and whose memory is disjoint from every other object in use. This holds for fresh and for reused memory alike, and an object larger than can ever fit is refused by a clean out-of-memory stop.",
 ["programs","histories","configurations"],
 "all sequences of allocations of all sizes interleaved with deaths and collections, in all collectors and allocators",
 "The tests initialise most of what they read, and rarely reuse memory with odd sizes; zeroing and disjointness are not asserted.",
 GC+["allocator.c"],
 [("allocation and clearing","collector/gembc.c ggggc_mallocRaw; collector/portablems.c ggggc_mallocRaw"),("array sizes","allocator.c ggggc_mallocPointerArray/ggggc_mallocDataArray"),("free list split","collector/portablems.c ggggc_mallocRaw")],
 [],["all words of each new object", "contents of all other objects afterwards"])
p("G05","Exactly the pushed, unpopped and globalized variables are roots",
 "While a variable is pushed (by any of the push macros, in any nesting of calls, with popping by any supported mechanism) or globalized, the object it refers to survives and the variable always names it, also after the object has moved. Once it is popped it no longer keeps anything alive, and returning from a function leaves exactly its caller's variables as roots.",
 ["programs","histories","configurations"],
 "all nestings of frames of all sizes, globalization at any depth, early returns; C with and without GNU features, and C++",
 "The tests push a few variables in a few functions; globalize and the larger pushes are not exercised, and over-rooting is invisible to them.",
 ["ggggc/gc.h","ggggc/push.h","pushgen.c","roots.c"],
 [("push and pop","ggggc/push.h, ggggc/gc.h GGGGC_POP/GGGGC_LOCAL_PUSH"),("globalize","roots.c ggggc_globalize")],
 [("pointer stack","per-thread chain of addresses of root variables","ggggc_pointerStack")],["root variables' referents after collections; finalizers of objects which lost their last root"])
p("G06","Finalizers run exactly once, only after the object became unreachable",
 "A finalizer never runs while its object is reachable, runs at most once per registration, and has run once a full collection completes after the object became unreachable (however old the object, and whichever thread allocated it). When it runs, the object and everything it refers to are intact, and may be made reachable again.",
 ["programs","histories","configurations"],
 "all histories of registrations (several per object, chains and cycles of finalizable objects, resurrections, finalizers which allocate, collect or register), over all collectors and generation counts",
 "One test program counts finalizers at the very end, after which running early, or on live objects, cannot be told apart from running correctly.",
 ["allocator.c"]+GC,
 [("registration and running","allocator.c ggggc_finalize/ggggc_runFinalizers"),("deciding readiness","collector/gembc.c FINALIZER_POOL, keepFinalizers; collector/portablems.c ggggc_collect0")],
 [("finalizer lists","pending registrations","pool->finalizers")],["finalizer invocations relative to reachability"])
p("G07","Tagged words are never followed and never altered",
 "With internal tagging, a word in a pointer member, array element, root variable or JIT stack whose low bits are non-zero is left exactly as the program stored it and keeps nothing alive, whatever the rest of the word is; untagged words in the same places are treated as references. With external tagging, a type's even-tagged words are references and its odd-tagged words plain data, for every layout.",
 ["programs","histories","configurations","inputs"],
 "all tagged values in all places, mixed with references, changed between the two over time, under every kind of collection",
 "The tests store two or three tagged constants in one array; tagged words in old objects, roots and full collections are mostly untouched.",
 GC+["ggggc/gc-gembc.h","allocator.c"],
 [("tag test","IS_TAGGED in both collectors, write barrier in ggggc/gc-gembc.h"),("external tags","allocator.c ggggc_allocateDescriptorT, descriptor tags")],
 [],["contents of tagged words and referents after collections"])
p("G08","The JIT pointer stack is a root, word by word",
 "With the JIT pointer stack enabled, every reference between the stack's top and its end (with external tagging: every word its tag word marks as a reference) keeps its object alive and names it after collections, for any depth and any mixture of frames; null and non-pointer words are left alone, and popped words keep nothing alive. This also holds while the thread is blocked or another thread collects.",
 ["programs","histories","configurations"],
 "all sequences of pushes, pops and stores on the JIT stack, interleaved with collections of all kinds",
 "One test uses a single fixed JIT frame.",
 GC+["threads.c"],
 [("JIT stack scanning","collector/gembc.c, collector/portablems.c (jpslCur loops)"),("blocked threads","threads.c ggc_pre_blocking/ggc_post_blocking")],
 [("JIT stack","ggc_jitPointerStack..ggc_jitPointerStackEnd","ggggc/gc.h")],["stack words after collections"])
p("G09","Every type layout is honoured, and types live as long as their objects",
 "For every layout of pointers and data (any size, with pointers anywhere, from minimum-size objects to ones described by many words), exactly the described words are treated as references and data words are never altered. A type created at run time stays valid while it or any object of it is reachable, its user pointer is a reference like any other and shared by all its objects, and creating types never disturbs existing ones.",
 ["inputs","programs","histories","configurations"],
 "all object sizes and pointer bitmaps (or tag vectors), all interleavings of type creation, use and collection",
 "The tests define five small types at compile time; none has more than a few words, and user pointers and run-time types are never used.",
 ["allocator.c","ggggc/gc.h"]+GC,
 [("descriptor construction","allocator.c ggggc_allocateDescriptor*"),("layout decoding","ADD_OBJECT_POINTERS and its counterparts in both collectors")],
 [("descriptors","objects describing layouts, themselves collected and moved","struct GGGGC_Descriptor")],["contents of objects of generated types, user pointers"])
p("T01","A collection sees every thread stopped, and all their roots",
 "While one thread collects, no other thread runs program code that touches objects; every other thread is either waiting at a yield point or inside a blocking operation. Objects referred to only by another thread's roots (running, yielding, blocked, just created or about to exit) survive, and every thread's roots name the same objects afterwards.",
 ["schedules","programs","configurations"],
 "all interleavings of threads which allocate, store, yield, collect, block, start and exit",
 "The one threaded test runs a few schedules of one program, in which threads share almost nothing.",
 ["collector/gembc.c","collector/portablems.c","threads.c"],
 [("stop-the-world protocol","ggggc_collect0/ggggc_yield in both collectors"),("thread accounting","threads.c changeThreadCount")],
 [("world barrier","barrier of all running threads","ggggc_worldBarrier"),("stop flag","request to stop","ggggc_stopTheWorld")],["per-thread operations relative to the begin and end of collections"],"begin and end of a collection")
p("T02","Threads which keep yielding never deadlock in the collector",
 "In any program whose running threads keep reaching yield points, allocations or blocking operations, and whose own locks, barriers and semaphores would not deadlock, every operation completes: collections started by any number of threads at once, thread creation, exit and joining, and blocking operations never wait for each other forever.",
 ["schedules","programs","configurations"],
 "all interleavings of simultaneous collection requests, creations, exits, joins, blocking and unblocking",
 "A deadlock needs a particular interleaving, and the tests run a handful of schedules.",
 ["threads.c","threads/posix.c","collector/gembc.c","collector/portablems.c"],
 [("trylock-and-yield loops","threads.c, ggggc_collect0"),("barrier re-initialisation","threads.c changeThreadCount")],
 [],["completion of every operation under every schedule"])
p("T03","Threads can be started, finish and be joined; what they published stays",
 "Each successfully created thread runs its function exactly once with exactly the argument given (which stays alive meanwhile), joining returns after it has finished, and after its exit collections no longer wait for it or treat its variables as roots. Objects it allocated and published survive as long as they are reachable; when creation fails an error is returned and the program goes on as if it had not been tried.",
 ["schedules","programs","fault_sequences","configurations"],
 "all interleavings and numbers of creations and exits, failed creations, memory reuse after exit",
 "The tests join all their threads at the end and never use what they allocated; creation never fails there.",
 ["threads.c","threads/posix.c","allocator.c"],
 [("thread start and exit","threads.c ggggcThreadWrapper, threads/posix.c ggc_thread_create"),("pools of exited threads","allocator.c")],
 [],["thread arguments, results, published objects, errors"])
p("T04","Blocking operations keep their meaning, and are safe to collect during",
 "Locks exclude, barriers release all of their parties together, and semaphores count exactly as their plain counterparts do, with success reported as 0 and failure as -1 with errno set. A thread inside a blocking operation neither delays a collection nor loses any object it refers to, and it resumes only when no collection is going on.",
 ["schedules","programs","configurations"],
 "all interleavings of blocking operations by any number of threads with collections by others, including all threads blocked at once",
 "No test uses locks, barriers or semaphores of the library.",
 ["threads.c","threads/posix.c","ggggc/threads-posix.h"],
 [("leaving and rejoining the world","threads.c ggc_pre_blocking/ggc_post_blocking"),("blocking wrappers","threads/posix.c BLOCKING")],
 [("blocked threads","their roots and pools","ggggc_blockedThread*")],["return values, mutual exclusion, objects of blocked threads"])
p("L01","A list is the sequence its operations say",
 "After any history of list operations, the list's contents, order and length are those of the corresponding sequence: each operation (append, prepend, insertion of elements or whole lists after a node, removal from the beginning, conversion to an array, traversal) has exactly its sequence meaning and returns the right element. Lists stay correct across collections and keep exactly their elements alive.",
 ["histories","programs","configurations"],
 "all sequences of operations on several lists, including empty lists and the first, last and only node, with collections in between",
 "The test performs one fixed sequence of operations and prints it; its output is not compared with anything.",
 ["collections/list.c","ggggc/collections/list.h"],
 [("list operations","collections/list.c")],[("head, tail, length","","ggggc/collections/list.h")],["contents after each operation"])
p("M01","A map is the dictionary its operations say",
 "After any history of puts, gets and clones, a map holds exactly the latest value of each key which was put: looking up finds it whatever the other keys, their hashes (including all-colliding ones) and the number of times the map has grown. A clone and its original are independent from then on, and maps stay correct across collections.",
 ["histories","programs","inputs","configurations"],
 "all sequences of operations on several maps, all hash functions consistent with equality, with collections in between",
 "The test inserts a fixed set of well-distributed keys and reads them back.",
 ["collections/map.c","ggggc/collections/map.h"],
 [("open hashing with growth","ggggc/collections/map.h")],[],["lookups of all keys after each operation"])
p("U01","Boxed values come back as they went in",
 "For every scalar type and every value, boxing it in a unit object and reading it back gives the same value, also from arrays of units and across collections, and converting an array of units to an array of data gives exactly their values, in order.",
 ["inputs","histories","configurations"],
 "all values of each boxed type, including extremes, negatives, infinities and NaNs, arrays of any length, with collections between boxing and reading",
 "The tests box a few hundred small integers.",
 ["ggggc/collections/unit.h"],
 [("unit types and conversion","ggggc/collections/unit.h")],[],["values of the boxes and of the converted array"])
p("P01","Every allocator hands out disjoint, sufficient memory, or stops cleanly",
 "With each memory source (aligned allocation, mapping, malloc, program break, portable), the collector only ever touches memory it has obtained and not given back, no two pools overlap, and programs behave the same. When the system refuses memory, an allocation which can still be satisfied succeeds, and otherwise the program stops with an out-of-memory report instead of corrupting memory or hanging, also when several threads allocate.",
 ["fault_sequences","programs","configurations"],
 "all sequences of pool requests, all alignments of what the system returns, failure of any request",
 "Tests never see the system refuse memory, nor return unaligned or adjacent mappings on purpose.",
 ["allocator.c","allocator/mmap.c","allocator/malloc.c","allocator/malign.c","allocator/sbrk.c","allocator/portable.c"],
 [("pool sources","allocator/*.c"),("pool reuse","allocator.c ggggc_newPool")],[],["calls to the system's memory interface and the addresses of objects"])
p("B01","The portable barrier releases each round only when all have arrived",
 "The library's own barrier, used where the system has none, lets no party through a round before all have arrived at it, lets all through once they have, and can be reused at once for any number of rounds, whatever the interleaving.",
 ["schedules"],
 "all interleavings of arrivals and departures of any number of parties over any number of rounds, including a fast party arriving again before a slow one has left",
 "The test platforms have a native barrier, so this code is never even compiled by the tests.",
 ["gen-barriers.c","ggggc/gen-barriers.h"],
 [("two-phase release by the last arrival","gen-barriers.c ggc_barrier_wait_raw")],[("arrivals","count of parties waiting","barrier->cur")],["arrivals and departures of parties"])
p("X01","C++ references behave as roots with value semantics",
 "In C++, reference objects (plain, array-of-pointer and data-array wrappers) construct, copy, assign, compare, index and convert with the meaning of the references they hold, keep their objects alive for exactly their lifetime, and survive moves of their objects; members accessed through overloaded operators read and write the same objects with the same guarantees as the C interface.",
 ["programs","histories","configurations"],
 "all programs over the wrapper classes, with collections at any point",
 "One test program is compiled as C++ with a few wrapper uses.",
 ["ggggc/gc.h","ggggc/push.h"],
 [("wrapper classes","ggggc/gc.h class GGC, GGCPA, GGCDA"),("member operators","ggggc/gc.h GGC_MPTR/GGC_MDATA for C++")],[],["object graph seen through the wrappers"])
p("D01","Corruption checking reports corruption, and only corruption",
 "With memory-corruption checking compiled in, a correct program never stops and behaves exactly as without it, in every collector and configuration. An object whose guard word was overwritten and which is still part of the heap makes the next collection stop the program with a report.",
 ["programs","histories","configurations","fault_sequences"],
 "all correct programs; all reachable objects (of any age, in any place) as the victim of an overwrite",
 "The tests run the checked configuration on a few correct programs with one collector, and never corrupt anything.",
 ["collector/gembc.c","collector/portablems.c","ggggc/gc.h"],
 [("guard words and heap walks","memoryCorruptionCheck in both collectors")],[],["completion of correct programs; reports after injected overwrites"])
p("C01","Documented build options do not change what a program computes",
 "Every combination of the documented options (collector, number of generations, pool and card size, source of memory, features a program does not use, debugging, GNU C features, no threads), with any optimisation, C or C++, gives a correct program the same results: objects, members, lengths and identities. Debugging options only add their reports. With the tiny heap, no more than a few pools for each generation are ever taken from the system, and a program is stopped only by the report that it exceeded the tiny heap, and not at all while everything it holds fits easily in one pool.",
 ["configurations","programs","histories"],
 "all combinations of documented options; all programs",
 "The tests build a handful of configurations, each on its own set of programs, and never compare configurations with each other or combine options pairwise.",
 ["ggggc/gc.h","ggggc-internals.h","allocator.c","allocator/","collector/","globals.c"],
 [("option selection and defaults","ggggc/gc.h"),("memory source selection, tiny heap","ggggc_newPool in allocator.c"),("collection reports","report in both collectors")],[],["results of programs in each configuration; reports on stopping"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
