#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so the texts stay reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","No reachable script object is ever lost or changed by garbage collection",
 "Whatever point of a running program a collection happens at, every object the program can still reach - through globals, locals, temporaries, call arguments, captured variables, suspended coroutines, containers, interior pointers or host-held calls - keeps its identity, type and contents. A collection never makes a valid access fail and never lets a live object's memory be handed out again. This holds for the interpreter and for the x86 code generator.",
 ["schedules","programs","histories"],
 "every placement of collections among the allocations of every program, both executors, all optimization levels",
 "Collections are triggered by byte counts, so the tests meet a handful of collection points; each allocation site of each program is a different set of roots.",
 ["NULLC/StdLib.cpp","NULLC/Executor_Common.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp"],
 [("mark from globals, call frames, register files and temporaries","NULLC/Executor_Common.cpp GC::MarkUsedBlocks"),("pools, big blocks, sweep","NULLC/StdLib.cpp NULLC::CollectMemory/AllocObject")],
 ["values returned to the host by nullcRunFunction / host callbacks","std.gc"],
 "forced collection at a chosen allocation; freed memory filled with a pattern",
 [("object marker","visible/freed/finalizer flags and type of a block","NULLC/StdLib.cpp"),("GC roots","pending mark lists","NULLC/Executor_Common.cpp")])

p("C02","Unreachable memory is reclaimed, so bounded live data needs bounded memory",
 "After a collection, objects that the program can no longer reach do not count towards used memory: dropping everything a phase created brings used memory back to what it was before the phase, whatever mixture of sizes, cycles, arrays, closures and coroutines it created. A program whose live data stays far below the memory limit can allocate and drop without bound and never be told that memory is exhausted.",
 ["histories","programs","schedules"],
 "every sequence of allocation and release phases, object shapes and collection points",
 "Leaks show only as growth over long alloc/release histories; tests check a few sizes once.",
 ["NULLC/StdLib.cpp","NULLC/Executor_Common.cpp"],
 [("sweep, free lists and usage accounting","NULLC/StdLib.cpp NULLC::CollectUnmarked/FreePending")],
 ["GC.UsedMemory()","error text of a run"],
 "forced collection at a chosen allocation")

p("C03","A finalizer runs exactly once per object, on intact unreachable content",
 "For every object of a type with a finalizer, the finalizer runs exactly once: not while the object is reachable, at the latest when the host finalizes the program, and always seeing the object and everything it references as the program left them. Objects made reachable again by a finalizer stay valid, and neither allocation nor collection inside finalizers breaks this.",
 ["schedules","histories","programs"],
 "every interleaving of allocation, release, collection and finalizer execution, including collections that happen while finalizers run",
 "Needs collections at unusual points: while finalizers are running, with several generations pending, with arrays of finalizable objects; tests use one collection at the end.",
 ["NULLC/StdLib.cpp","NULLC/nullc.cpp"],
 [("finalization list, resurrect, __finalizeObjects","NULLC/StdLib.cpp NULLC::FinalizePending/CollectMemory/FinalizeMemory")],
 ["log written by finalizers through a host function"],
 "forced collection at a chosen allocation; freed memory filled with a pattern",
 [("finalizeList","objects whose finalizers are to run","NULLC/StdLib.cpp")])

p("C04","Executor, optimization level and collection schedule never change behaviour",
 "For a given program and inputs, the values it outputs, the host calls it makes with their arguments, its result and whether and with what error it stops are the same with the interpreter and the x86 executor, at optimization levels 0, 1 and 2, at any sufficient stack size, and for any placement of collections. This includes runs that end in a runtime error or are cut short by an error the host raises in a callback.",
 ["programs","configurations","schedules","fault_sequences"],
 "every program that does not print addresses, all six executor/optimization configurations, every collection schedule and every host-callback fault placement",
 "Each test runs a fixed program; an interaction of lowering, register allocation, collection and error exit exists only in particular programs and schedules.",
 ["NULLC/InstructionTreeVm.cpp","NULLC/InstructionTreeRegVmLower.cpp","NULLC/Executor_RegVm.cpp","NULLC/CodeGenRegVm_X86.cpp","NULLC/Translator_X86.cpp","NULLC/Executor_X86.cpp"],
 [("optimizer and lowering","NULLC/InstructionTreeVm*.cpp"),("two executors of the same register code","NULLC/Executor_RegVm.cpp, NULLC/Executor_X86.cpp")],
 ["trace of host callbacks","nullcGetResult / nullcGetLastError"],
 "forced collection at a chosen allocation")

p("C05","A failing allocation is a reported error and the limit is never exceeded",
 "If an allocation made by a running script cannot be satisfied - because the configured memory limit would be exceeded or because the host allocator refuses - the run stops with an error reported to the host instead of crashing or corrupting anything, whichever operation was allocating. Used memory never exceeds the configured limit, and after the error the engine can run the same program again, correctly, once memory is available.",
 ["fault_sequences","crash_points","programs"],
 "every choice of the failing allocation(s), every allocating operation of the language and standard library, both executors",
 "Tests hit the limit only with one large array; each of the allocating operations can be the one that fails.",
 ["NULLC/StdLib.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/nullbind.h","NULLC/includes/string.cpp","NULLC/includes/vector.cpp"],
 [("limit check, error on failure","NULLC/StdLib.cpp NULLC::AllocObject/AllocArray")],
 ["return value of nullcRunFunction, nullcGetLastError","GC.UsedMemory()"],
 "failure of a chosen script allocation")

p("C06","A runtime error stops exactly the failing run and leaves the engine reusable",
 "An error during execution - division by zero, index out of bounds, null access, failed cast, failed assertion, missing return, an error raised by a host function at any depth of script-to-host-to-script calls - makes that run, and only that run, return failure with a message naming the cause and the script call stack; everything the script did before the error point has happened and nothing after it has. Globals keep their values for inspection, and later runs and calls behave as if the failed run had ended normally at that point.",
 ["histories","fault_sequences","programs"],
 "every kind of error at every point of every call nesting, followed by every continuation",
 "Tests cover one error per program and throw the engine state away afterwards; stale state after an unwind shows only in what runs next.",
 ["NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/nullc.cpp"],
 [("Stop / signal and longjmp unwinding","NULLC/Executor_X86.cpp, NULLC/Executor_RegVm.cpp")],
 ["nullcRunFunction result, nullcGetLastError, nullcGetGlobal"],
 None)

p("C07","try isolates any error of the guarded call and execution continues correctly",
 "A guarded call (std.error try) returns the value of the call if it succeeds and otherwise the message or object of the error that stopped it, at any nesting of guarded calls, function calls and host calls. After it returns, the caller's locals, globals, coroutines and pending guarded calls are exactly as sequential execution up to the error leaves them; a thrown object arrives unchanged.",
 ["histories","fault_sequences","schedules"],
 "every nesting of guarded calls, every error kind and point, collections at any allocation including while the error is delivered",
 "Tests have a few fixed nestings; register, stack and handler state restored on catch depends on the depth, executor and error kind.",
 ["NULLC/includes/error.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/nullc.cpp"],
 [("nested call, clear error and resume","NULLC/includes/error.cpp NULLCError::try_0, nullcClearError")],
 ["script output through host callbacks"],
 "forced collection at a chosen allocation")

p("C08","Coroutine instances are isolated under every interleaving",
 "However resumptions of any number of coroutine instances are interleaved - including with each other's bodies, with collections and with failed calls - each instance continues from its last yield with its own locals, and yields exactly the sequence it would yield if it were the only one. An instance that finishes restarts from the beginning, and a coroutine used as a generator visits every element once.",
 ["schedules","histories"],
 "every interleaving of resumptions of coroutine instances and every placement of collections between and inside them",
 "Tests interleave two instances in one fixed order.",
 ["NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp","NULLC/StdLib.cpp"],
 [("coroutine state in a heap context, jump offset","NULLC/InstructionTreeVm.cpp, NULLC/ExpressionTree.cpp")],
 ["values yielded to the host"],
 "forced collection at a chosen allocation")

p("C09","Captured variables are shared while in scope and survive it",
 "Closures that capture the same variable instance, and the scope that declares it, observe each other's writes for as long as the scope is active, and after it ends the closures keep the variable with its last value; a new execution of the scope (a loop iteration, a recursive or repeated call) gets new variables. This holds for variables of any type, whatever order closures are created, called and dropped in and wherever collections happen.",
 ["schedules","histories","programs"],
 "every order of creating, calling and dropping closures and leaving scopes, every placement of collections",
 "Tests use single captures; linked lists of open captures misbehave only for particular orders of creation and scope exit.",
 ["NULLC/StdLib.cpp","NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp"],
 [("upvalue lists and closing","NULLC/StdLib.cpp NULLC::CloseUpvalue")],
 ["values reported to the host"],
 "forced collection at a chosen allocation")

p("C10","Imports are all-or-nothing under file faults, every buffer released once",
 "Whatever the file layer does while modules are imported - missing files, failing or truncated reads at any import, files appearing or changing between compilations - a compilation either succeeds with the behaviour the delivered sources define or fails with an error, and a failed import leaves no partial module behind: once the files are readable again the same compilation succeeds as if the fault had never happened. Every buffer handed to the compiler is released exactly once, whatever the outcome, and import paths are tried in the order they were added.",
 ["fault_sequences","histories"],
 "every sequence of compilations over changing import graphs with every placement of file faults",
 "Tests read intact files from disk; error paths of nested imports run only when a read fails mid-graph.",
 ["NULLC/Compiler.cpp","NULLC/BinaryCache.cpp","NULLC/nullc.cpp"],
 [("module lookup through import paths, load, compile, cache","NULLC/Compiler.cpp BuildModuleFromPath, NULLC/BinaryCache.cpp")],
 ["nullcSetFileReadHandler callbacks, nullcCompile/nullcBuild, nullcEnumerateModules"],
 None)

p("C11","The module registry behaves as a map under every history",
 "Loading a module from source or from bytecode, removing one, enumerating and compiling against modules behave like operations on a map from name to module: a program compiles against exactly what was last loaded under the names it imports, enumeration lists each loaded module once, a removed module is gone, a failed load changes nothing, and a program already linked is unaffected by later changes to the registry.",
 ["histories","fault_sequences"],
 "every history of loads, reloads, failing loads, removals, compilations and runs",
 "Tests load a module once and use it; stale cache entries or dangling module data need load/remove/reload histories.",
 ["NULLC/BinaryCache.cpp","NULLC/nullc.cpp","NULLC/Compiler.cpp"],
 [("name to bytecode cache","NULLC/BinaryCache.cpp")],
 ["nullcLoadModuleBySource, nullcLoadModuleByBinary, nullcRemoveModule, nullcEnumerateModules"],
 None)

p("C12","A failed compilation or link never disturbs the program already linked",
 "When a compilation fails, at any point and for any reason, or succeeds without being linked, the program linked before still runs with the same behaviour and its globals keep their values, and the next successful compilation is not affected by the failed ones before it. The error reported is for the compilation that failed.",
 ["histories","fault_sequences"],
 "every history mixing runs, calls, failing compilations cut or corrupted at any point, and successful ones",
 "Tests compile broken programs in isolation and discard the engine state.",
 ["NULLC/Compiler.cpp","NULLC/nullc.cpp","NULLC/Linker.cpp","NULLC/ExpressionTree.cpp"],
 [("compiler context reset, separate linker state","NULLC/nullc.cpp nullcCompile/nullcLinkCode/nullcClean")],
 ["nullcCompile, nullcGetLastError, nullcRunFunction, nullcGetGlobal"],
 None)

p("C13","Code replaced while a program runs takes effect exactly as requested",
 "Evaluating code, overriding a function with another function or with new code, linking further code from the host and redirecting functions - between calls or from inside functions that are on the call stack - leave globals, active calls, closures and coroutines valid; from then on every call of an overridden function reaches the latest replacement, and no other function changes. A failing evaluation reports its error and changes nothing.",
 ["histories","programs","fault_sequences"],
 "every history of eval, override, redirect and incremental link operations mixed with calls at any depth, both executors",
 "Code reallocation while frames are active shows only after particular growth histories; tests do one override.",
 ["NULLC/includes/dynamic.cpp","NULLC/Linker.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp"],
 [("incremental linking, code relocation of active frames, redirect","NULLC/Linker.cpp LinkCode, Executor*::UpdateInstructionPointer")],
 ["script results and host callbacks"],
 None)

p("C14","Host and script calls deliver arguments, results and errors at any nesting",
 "A value passed from script to a host function, from the host to a script function, or returned either way arrives unchanged for every parameter type and combination, through wrapped or raw bindings, at any depth of alternating script and host calls. The caller's own locals and pending computation are unaffected by what the callee does, and an error raised at any depth reaches the outermost host call.",
 ["histories","programs","schedules"],
 "every signature mix, every nesting of host and script calls up to the stack limits, every placement of collections and errors inside them",
 "Tests call one level deep with fixed signatures.",
 ["NULLC/nullc.cpp","NULLC/nullbind.h","NULLC/Executor_Common.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp"],
 [("argument marshalling, nested Run","NULLC/Executor_RegVm.cpp Run, NULLC/Executor_X86.cpp Run, RunRawExternalFunction")],
 ["arguments seen by host functions, results seen by the host"],
 "forced collection at a chosen allocation")

p("C15","Debugging observes a program without changing it",
 "With the interpreter, whatever breakpoints the host adds, removes or clears - before the run or from inside break callbacks - and whatever step commands it answers with, the program's output, result and errors are those of the undebugged run. Execution stops before each execution of an instruction holding a breakpoint and at no other place unless stepping, one-hit breakpoints stop once, removed ones never, and a stop command ends the run at once with the engine reusable.",
 ["schedules","histories","programs"],
 "every history of breakpoint changes and step commands over every program, including from within callbacks and nested calls",
 "Tests run debug callbacks not at all; arming, replacing and restoring instructions depends on the history of commands.",
 ["NULLC/Executor_RegVm.cpp","NULLC/nullc_debug.h","NULLC/nullc.cpp"],
 [("break instruction patching and restore","NULLC/Executor_RegVm.cpp AddBreakpoint/RemoveBreakpoint/RunCode rviNop")],
 ["nullcDebug* API, break callback"],
 None,
 [("breakCode","replaced instructions with step state","NULLC/Executor_RegVm.h")])

p("C16","The debug adapter never loses a command or hangs under any thread timing",
 "Whatever the relative timing of the thread that reads debugger requests and the thread that runs the program, a request to continue, step, restart or disconnect that follows a stopped event is always acted on, so that once the client keeps answering stops the session ends with exactly one exited and one terminated event. Each request gets exactly one response, and messages from the two threads are never interleaved within the output stream or given the same sequence number. Breakpoints that were set stay set, also over a restart, and stop at their lines; stacks, variables and output are those of the program.",
 ["schedules","histories"],
 "every interleaving of the request thread and the application thread",
 "There is no test of the adapter; a lost wake-up needs the request to arrive between the stopped event and the wait.",
 ["vscode/nullc_lang_debugger/debug.cpp","vscode/nullc_lang_debugger/handler.cpp","vscode/nullc_lang_debugger/context.h","vscode/nullc_lang_debugger/main.cpp"],
 [("condition variable between request and application thread","vscode/nullc_lang_debugger/debug.cpp OnDebugBreak")],
 ["bytes written to the client"],
 None)

p("C17","The language server answers each complete request once for any stream",
 "However the input stream is split and wherever it ends, the language server answers every complete request message exactly once, in order, with the same result for the same document history, acts on nothing else, and leaves cleanly when its input ends - in the middle of a header or a message included. Document state follows the sequence of open, change and close notifications, and a request about a broken document does not disturb later ones.",
 ["fault_sequences","histories","crash_points"],
 "every document history, every fragmentation of the stream and every truncation point",
 "There is no test of the server; truncation and history effects need a driven stream.",
 ["vscode/nullc_lang_server/main.cpp","vscode/nullc_lang_server/handler.cpp"],
 [("stream framing and dispatch","vscode/nullc_lang_server/main.cpp, handler.cpp HandleMessage")],
 ["bytes written to stdout, diagnostics published"],
 None)

p("C18","Script file and console operations match a plain file model under I/O faults",
 "Every std.file and std.io operation reports truthfully what reached or came from the file or stream: reported byte counts and success flags equal what was transferred even when the underlying operation fails, is short, hits end of file or a full disk, data read equals data written at that position, and operations on closed files raise an error. No fault crashes the program, writes outside the given array or leaks or double-closes a handle.",
 ["fault_sequences","histories"],
 "every history of file and console operations on several files with failures, short transfers and end of file at any of them",
 "Tests write and read one small file on a working disk.",
 ["NULLC/includes/file.cpp","NULLC/includes/io.cpp","Modules/std/file.nc","Modules/std/io.nc"],
 [("thin mapping to stream calls, argument checks","NULLC/includes/file.cpp, NULLC/includes/io.cpp")],
 ["results of script calls, contents of the simulated disk"],
 None)

p("C19","Containers agree with their models under any history, collection and failure",
 "The standard containers (vector, list, hashmap) and the string functions give the results of their abstract models for every history of operations and element types, wherever collections happen; iteration visits every element exactly once in order (for hashmap: in any order). An operation that fails for lack of memory and is caught leaves the container usable and with its previous contents.",
 ["histories","schedules","fault_sequences"],
 "every operation history with every placement of collections and allocation failures",
 "Tests run short fixed sequences.",
 ["Modules/std/vector.nc","Modules/std/list.nc","Modules/std/hashmap.nc","Modules/std/string.nc","NULLC/includes/vector.cpp","NULLC/includes/string.cpp"],
 [("script-level containers over auto arrays and objects","Modules/std/*.nc")],
 ["values reported to the host"],
 "forced collection and failure at a chosen allocation")

p("C20","Initialise and terminate conserve host resources in every history",
 "Every block obtained from the host allocator is returned to the deallocator exactly once by the time the engine is terminated, and every log stream opened is closed once, after any history of compilations, links, runs, errors and module operations, failed ones included. An engine initialised again after termination behaves like a fresh one: no modules, globals, errors or memory usage carry over.",
 ["histories","fault_sequences"],
 "every history of engine operations between initialisation and termination, repeated",
 "Tests never check the allocator balance and start each case from the same kind of state.",
 ["NULLC/nullc.cpp","NULLC/stdafx.cpp","NULLC/StdLib.cpp","NULLC/Pool.h","NULLC/BinaryCache.cpp"],
 [("custom allocator, terminate/reset paths","NULLC/nullc.cpp nullcTerminate, nullcInitCustomAlloc")],
 ["allocator and log stream callbacks"],
 None)

p("C21","Compiled code survives a restart and depends only on its sources",
 "Bytecode saved from one engine instance and linked in another - after a termination and restart at any point, with only the saved bytes surviving - behaves like the program it was compiled from. Compiling the same sources gives the same bytecode whatever happened in the engine before: earlier compilations, errors, runs, collections or heap layout.",
 ["histories","crash_points","configurations"],
 "every history before the compilation, every restart point between saving and linking, both executors",
 "Tests compile and link in the same instance from a fixed history.",
 ["NULLC/Bytecode.cpp","NULLC/Compiler.cpp","NULLC/Linker.cpp","NULLC/BinaryCache.cpp","NULLC/nullc.cpp"],
 [("position independent bytecode, import hashes","NULLC/Bytecode.cpp, NULLC/Compiler.cpp GetBytecode")],
 ["nullcGetBytecode, nullcLinkCode, nullcLoadModuleByBinary, results of runs"],
 None)

p("C22","Exhausting a stack at any depth and call mix is a reported error",
 "Unbounded recursion - direct, mutual, through closures, finalizers, coroutines or alternating with host calls, with frames of any size and any configured stack size - ends in an error reported to the host instead of a crash or a hang. Recursion that fits succeeds with correct results before and after such an error.",
 ["programs","configurations","histories"],
 "every recursion shape, frame size, stack size and depth, both executors, followed by further runs",
 "Tests use one recursion per executor at the default size; guard checks depend on frame sizes and on which stack is exhausted first.",
 ["NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/nullc.cpp"],
 [("frame size checks (interpreter), guard pages and signal handler (x86)","NULLC/Executor_RegVm.cpp, NULLC/Executor_X86.cpp")],
 ["nullcRunFunction result and error"],
 None)

# not addressed by this technique
p("C23","Every source text is either compiled or rejected with an error",
 "For every input text the compiler terminates and either produces a program or reports an error with a position inside the text; it never crashes, hangs or corrupts memory.",
 ["inputs"],"every byte sequence given as source",
 "Tests contain a fixed set of broken programs.",
 ["NULLC/Lexer.cpp","NULLC/ParseTree.cpp","NULLC/ExpressionTree.cpp"],[("recursive descent with depth limits, error recovery","NULLC/ParseTree.cpp, NULLC/ExpressionTree.cpp")],["nullcCompile"])
p("C24","Compile-time evaluation gives the run-time result",
 "An expression or function evaluated at compile time has the value it would have at run time, or is left to run time.",
 ["programs"],"every constant expression and function",
 "Tests evaluate fixed expressions.",
 ["NULLC/ExpressionEval.cpp","NULLC/InstructionTreeVmEval.cpp"],[("tree and instruction evaluators","NULLC/ExpressionEval.cpp")],["nullcTestEvaluateExpressionTree"])
p("C25","The C++ translation of a program behaves like the program",
 "The C++ source generated for a program, compiled against the runtime sources, produces the output the program produces when run.",
 ["programs"],"every translatable program",
 "Tests translate a fixed set of programs.",
 ["NULLC/ExpressionTranslate.cpp"],[("source generation","NULLC/ExpressionTranslate.cpp")],["nullcTranslateToC"])
p("C26","Number and string conversions and math functions follow their definitions",
 "Conversions between numbers and strings and the math library return the values their definitions give for every argument.",
 ["inputs"],"every argument value",
 "Tests sample a few values.",
 ["NULLC/StdLib.cpp","NULLC/includes/math.cpp","Modules/std/math.nc"],[("direct computation","NULLC/StdLib.cpp")],["script results"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
