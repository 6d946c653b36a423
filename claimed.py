common="Seeded sampling of runs, no exhaustiveness. Trusted: the reference evaluator and generator in /verif/sim, the build of /repo's sources with the allocation seam on. Every alarm is gated on exact repetition in the same and in a fresh process. "
claimed["C04"]=("generated programs against a reference evaluator under every executor, optimization level and seeded collection schedules",common+"Programs are drawn from the generator's language subset; script code that fails is kept alive at optimization 2 because of the recorded finding.")
na={
"C23":"Compilation of one text is a single-threaded pure function of its bytes: no schedule, clock, I/O, fault or history takes part, so there is nothing for a simulator to decide. (Import faults and failed-compilation histories, where they do, are C10-C12.)",
"C24":"Compile-time evaluation is a pure function of the expression; no nondeterminism or fault can be injected that the property depends on. Differences at optimization 2 are still caught by C04 when they change behaviour.",
"C25":"The translated program is a separate C++ program built by a host compiler; its equality with the script is a pure input-output relation of a batch translator with no schedule, clock, I/O or crash in it.",
"C26":"Conversions and math functions are pure functions of their arguments; no schedule, fault or history takes part. Input-space testing is a different technique.",
}
claimed["C01"]=("heap-heavy generated programs and host call histories with collections forced at seeded allocations, host callbacks and call boundaries, against a reference evaluator",common+"Object graphs are those the generator's language subset can build.")
claimed["C06"]=("generated programs and host histories with seeded runtime errors, thrown objects and failing host callbacks, against a reference evaluator that stops at the same point",common+"The call stack text is checked for presence, its frames are compared between executors only where directed scenarios do so.")
claimed["C07"]=("generated programs of nested guarded calls with errors seeded below them, against a reference evaluator",common)
claimed["C09"]=("closure-heavy generated programs under host call histories and forced collections, against a reference evaluator with one cell per variable instance",common)
claimed["C05"]=("generated programs and a corpus of scripts with failing allocations (n-th, all from the n-th, host allocator refusals, tight limits), then the same program again without faults",common+"Failures of the compiler's own containers are not injected: they are asserted, not handled.")
claimed["C08"]=("generated coroutine programs whose instances are resumed in seeded orders by script and host with collections and failing calls in between, against a reference that runs every instance as its own sequential execution",common)
claimed["C02"]=("seeded phases of building and dropping object graphs, allocation beyond tight limits and repeated programs, with used memory compared before and after collections",common+"Memory kept alive by an error that unwinds closures is excluded (recorded finding of C04).")
claimed["C03"]=("seeded histories of a script of finalizable objects with resurrecting, allocating, collecting and failing finalizers, against a host-side model of reachability and content",common)
claimed["C12"]=("a generated program driven by its host while correct, mutated and cut texts are compiled between its calls and inside its callbacks, against its reference and against the outcome of every text in an untouched copy of the engine",common+"Texts that crash the compiler in an untouched engine are left out (what one text does is not a matter of history). A failing nullcLinkCode is not exercised.")
claimed["C18"]=("seeded histories of file and console operations over a simulated disk and terminal with short, failing and lost transfers, full disks, refused opens and failing closes, against a file model",common+"The disk is a stub behind glibc's real buffered streams; copies of a File object that share a handle are not exercised.")
claimed["C11"]=("seeded histories of module loads (source and binary), replacements, removals, failing module texts and programs that import them, around programs that stay linked, against a model of the module registry",common+"Modules are drawn from a template language with a model of every function's result.")
claimed["C15"]=("generated programs under a simulated debugger: breakpoints of both kinds, removals and step commands decided by the plan before the run and inside every break callback, against the full instruction trace and the reference evaluator",common+"Interpreter only: breakpoints of the x86 executor rely on a structured exception handler that exists on Windows only.")
claimed["C16"]=("the debug adapter as a whole in process: its threads as fibers of a seeded scheduler that may switch at every shared access of its code and at every lock, wait and message, with a client that answers every stop, requests at seeded points of the schedule, spurious wake-ups and an input that ends anywhere, against a model of the protocol and of the debugged program",common+"Interleavings are sequentially consistent; the engine itself runs without preemption; malformed JSON, endless programs and requests after terminate are outside the histories.")
claimed["C17"]=("the language server as a whole in process: client histories as one input stream in seeded pieces, cut at seeded bytes, over a simulated disk, against a model of the protocol and of the documents, other fragmentations and fresh servers",common+"Malformed JSON, requests before initialize and identifiers that are negative numbers are outside the histories.")
claimed["C20"]=("seeded lifetimes of the engine: initialise, use, terminate at any point and initialise again, with the deterministic arena accounting for every host block and with failing operations on a terminated engine",common+"Single threaded use; what the arena cannot see (memory obtained from the C++ runtime by the engine) is watched for growth only.")
claimed["C21"]=("bytecode of programs and modules kept through seeded histories of other compilations, heap shifts and engine restarts, then linked, run against the reference, and compared byte for byte with a new compilation",common+"Bytecode is only used by the engine build that wrote it.")
claimed["C10"]=("compilations whose every file read is decided by the simulator: failing, cut, empty and corrupted reads at seeded places of import graphs, files changing between compilations, import path histories and restarts, against a model of the lookup and against a fresh engine given the same delivered sources",common+"Outcomes of damaged texts are compared with the same compiler in a fresh state, not with an independent parser.")
claimed["C22"]=("seeded recursion shapes, frame sizes, stack sizes and histories driven to and around the deepest level that fits, with failing operations, host errors and collections at the bottom, against a closed-form model and a limit that must not move",common+"The native stack of the process is the default 8 MB; stacks are exhausted through the engine, not by the host itself.")
claimed["C14"]=("seeded histories of calls across the host/script boundary: generated signatures of raw and wrapped functions, class layouts, callbacks at seeded nesting with injected host failures and collections in between, compared with a model of the values delivered",common+"The calling convention exercised is the one of the build machine (x86-64 System V); typeid arguments cannot be given by a host.")
claimed["C19"]=("seeded histories of operations on the standard vectors, lists, hash maps, events and strings of eleven element types, one host call at a time, with forced collections, failing allocations at chosen points and wrong uses, against plain models checked after every operation",common+"An operation made of several steps may leave a part of its result when it fails; entries created without a value are only required to be usable.")
claimed["C13"]=("seeded histories of function overrides by functions, lambdas and texts, evaluations, links and redirections made at every depth of active calls of every kind, with texts that do not compile, failing links, runtime errors and forced collections in between, against a model of what every call reaches and of the data of every active frame, closure, coroutine and global",common+"Texts linked while functions are active declare no closures and no globals outside of the recorded finding.")
