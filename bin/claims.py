COLL = "TLA+ specification (Coll.tla) of the collections: generated programs replayed in the real code, logs validated by TLC"
HOOKS = ["4bfd3ad"]
S = " Sampled behaviours of an explicit specification replayed in the real code and validated event by event by TLC; not exhaustive; trusts the driver's observation of memory through the interface."
THR = "TLA+ specification (Thr.tla) of threads and collections: generated concurrent programs run in the real code under a virtual scheduler, logs validated by TLC"
TS = " Schedules are sampled (random, priority-based, few preemptions) at synchronisation and shared-variable granularity; sequentially consistent memory."
CLAIMED = {
 "G01": (HEAP, "model_checking", "18 builds (both collectors, 1-5 generations, C and C++)." + S),
 "G02": ("TLA+ (Gembc.tla: exhaustive model of the generational algorithm; one program per model state replayed) and Heap.tla traces", "model_checking",
         "The generational algorithm with write barrier is checked exhaustively for small bounds; every reachable model state is reached on the real code too." + S),
 "G03": (HEAP, "model_checking", "Bounded memory is judged by the pools obtained from the system over runs of up to thousands of pools' allocation." + S),
 "G04": (HEAP, "model_checking", "Memory is filled with junk before the library sees it." + S),
 "G05": (HEAP, "model_checking", "Push macros of every arity, manual, PUSH_N, globalize, several popping mechanisms; finalizers show that popped variables are no roots." + S),
 "G06": (HEAP, "model_checking", "Finalizers of four kinds; 'must have run' is checked at each full collection." + S),
 "G07": (HEAP, "model_checking", "Internal and external tagging, with and without JIT stack and finalizers." + S),
 "G08": (HEAP, "model_checking", "JIT stack frames with all mixtures of words, plain, tagged and externally tagged." + S),
 "G09": (HEAP, "model_checking", "Static and run-time types of many sizes and pointer layouts." + S),
 "D01": (HEAP, "model_checking", "40 debug builds." + S),
 "C01": (HEAP, "model_checking", "A covering array of the documented options (every two choices meet; about 60 builds), 15 tiny-heap and all-debugging builds, and ten roomy tiny-heap ones. portablems only with its own memory source, as others do not build." + S),
 "L01": (COLL, "model_checking", "18 builds; finalizers show what lists keep alive." + S),
 "M01": (COLL, "model_checking", "18 builds, five hash functions including allocating ones, two key types; finalizers show what maps keep alive." + S),
 "U01": (COLL, "model_checking", "18 builds, eight types, ten values of each." + S),
 "T01": (THR, "model_checking", "19 builds, up to four threads; events between a collection's begin and end reveal threads which run during it." + TS),
 "T02": (THR, "model_checking", "24 builds, up to eight threads; the scheduler recognises deadlocks and livelocks." + TS),
 "T03": (THR, "model_checking", "24 builds, up to eight threads, creation failures injected, storms of 300 threads with bounded memory." + TS),
 "T04": (THR, "model_checking", "24 builds, failures of the system's primitives injected." + TS),
 "P01": ("TLA+ specifications Heap.tla with Pools.tla (memory obtained and given back) and Thr.tla: generated programs, refusals and concurrent allocation on every memory source, logs validated by TLC",
         "model_checking", "Five memory sources, unaligned and moving system memory behind stand-ins, refusal at every depth of a program, up to six threads. Windows' source is not covered." + S),
 "X01": (HEAP, "model_checking", "Nine C++ builds with two compilers and three language levels, with and without finalizers; every operation is done by reference objects and overloaded members. Reference objects destroyed out of order stop the program by design and are not generated." + S),
 "B01": (THR, "model_checking", "Four builds with the portable barrier, up to eight parties." + TS),
}
