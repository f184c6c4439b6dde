#!/usr/bin/env python3
"""Single source of the property texts: writes /verif/properties.jsonl."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("G01", "A collection keeps everything stored inside an object it keeps",
  "Whenever a garbage collection keeps a pair, vector, closure, partial application, generated symbol or captured continuation, it also keeps every value stored in that object, whatever its size, and never lets a stored value expire before its holder. This includes every value on every stack frame saved in a continuation.",
  ["programs", "histories", "inputs"], "every object of every kind, every size, every point at which a collection runs",
  "The tests build a few small objects and rarely collect while they are still used; a slot the collector forgets only shows when that one slot is the last reference.",
  ["src/types.c", "src/runtime.c", "src/gc.c"],
  [("per-kind marking functions", "src/types.c: consGCFunc, vectorGCFunc, nativeGCFunc, symbolGCFunc; src/runtime.c: continuationGCFunc"),
   ("registration per kind", "src/types.c: typesInit; src/runtime.c: coraInit; src/gc.c: gcRegistForType")],
  [("object payload", "slots that hold values", "src/types.h, src/gc.h struct scm*")],
  ["values read back after collections"])

p("G02", "A collection keeps everything the running program can still reach",
  "A collection that starts while a program is running keeps every value reachable from the global variables, from the current call's arguments and locals, from all suspended calls and from the pending result, however many of each there are.",
  ["programs", "histories"], "every program state at which a collection starts",
  "Tests reach collections only in a handful of states, and a forgotten root is visible only if it is the sole reference at that instant.",
  ["src/runtime.c", "src/runtime.h", "src/gc.c"],
  [("root enumeration", "src/runtime.c: coraGCFunc"), ("root phase", "src/gc.c: gcMarkRoot")],
  [("machine registers", "globals, current frame, call stack frames, result register", "src/runtime.h: struct Cora")],
  ["values read back after collections"])

p("G03", "Assignments during or between collections never lose a live value",
  "Assigning a global, a vector element or a symbol's value never lets a collection reclaim a value the program can still reach: an overwritten value is preserved for the collection in progress, and a newer value stored into an older object stays alive as long as that object. This holds for every assignment, at any moment relative to a collection.",
  ["programs", "histories", "schedules"], "every interleaving of assignments with incremental collection steps",
  "The interleaving of an assignment with an incremental collection step is decided by allocation volume; tests do not control it.",
  ["src/gc.c", "src/gc.h", "src/types.c", "src/runtime.h", "src/runtime.c"],
  [("deletion barrier", "src/gc.c: writeBarrierForIncremental"), ("generational barrier", "src/gc.c: writeBarrierForGeneration"),
   ("assignment operations", "src/types.c: vectorSet, vectorAppend; src/runtime.c: primSet; src/runtime.h: globalSet")],
  [("remembered set", "older objects that received newer values", "src/gc.c: struct GC rset")],
  ["values read back after collections"])

p("G04", "A value an operation still needs is never collected in its middle",
  "Collections start only between two steps of the running program, never inside a built-in operation; an operation that itself runs program code before it finishes keeps every value it uses afterwards reachable while that code runs.",
  ["programs", "histories", "schedules"], "every built-in operation, every program code it can call back into, every collection start",
  "A value held only by C code is lost only if a collection starts and completes during the callback and the storage is reused before the value is read.",
  ["src/runtime.c", "src/gc.c", "lib/*.c", "main.c"],
  [("collection trigger in the trampoline only", "src/runtime.c: coraRun"), ("nested runs", "src/runtime.c: coraDispatch, builtinLoad, builtinLoadSo")],
  [("C locals holding values", "references the collector cannot see", "all native functions")],
  ["results of nested calls"])

p("G05", "A fresh object is large enough and completely filled in",
  "Every newly created object has room for everything that is stored in it, and every slot the collector or the program may later read has been given a value before a collection can run or the object is handed out. This holds for every requested length or number of captured values.",
  ["inputs", "programs", "histories"], "every object creation, every length",
  "Reused storage usually still holds harmless old values, so a missing initialisation or an off-by-one size only corrupts memory in unlucky layouts.",
  ["src/types.c", "src/runtime.c", "lib/*.c"],
  [("constructors", "src/types.c: makeCons, makeBytes, makeString, makeNative, makeVector; src/runtime.c: makeCurry, makeContinuation, primGenSym")],
  [("object header and payload", "size, kind and slots", "src/types.h, src/gc.h")],
  ["values read back"])

p("G06", "The allocator never hands out less space than requested",
  "For every object size, the storage handed out is at least as large as the request and the slots of one block never overlap or run past its end.",
  ["inputs"], "every request size below and above the large-object limit",
  "There are thousands of sizes and the tests allocate a few of them; a table entry that is one class too small corrupts a neighbour only when both are used.",
  ["src/gc.c"],
  [("size class tables", "src/gc.c: sizeClass, smallSizeClassIdx, mediumSizeClassIdx, getSlotBySize"), ("slot bumping", "src/gc.c: blockAlloc, gcAlloc")],
  [("size classes", "slot size per class", "src/gc.c")],
  ["memory contents of neighbouring objects"])

p("V01", "Every operation step passes control on exactly once",
  "Each step of a built-in or compiled operation, on every path through it including error paths, either returns one result to its caller or passes control to exactly one next call; it never does both, never twice, and never neither.",
  ["programs", "inputs", "fault_sequences"], "every path through every built-in and through the shipped compiled code",
  "Error paths of built-ins (failed open, failed bind, bad argument) are not run by the tests, and a path that forgets to return silently runs the wrong code later.",
  ["src/runtime.c", "src/runtime.h", "lib/*.c", "init.c", "lib/toc.c"],
  [("return and call protocol", "src/runtime.h: coraReturn, coraCall0..4; src/runtime.c: coraCall, coraDispatch, coraRun")],
  [("next step register", "function and label to run next", "src/runtime.h: Frame ctx")],
  ["result of any call"])

p("V02", "Operations touch only their own arguments, locals and captured values",
  "An operation registered with a given number of arguments reads only those arguments, its frame is large enough for every local it uses, and it reads no captured value beyond those it was created with. This holds for every built-in, every library operation and all shipped compiled code.",
  ["programs", "inputs"], "every registered operation and every compiled closure",
  "A frame that is one slot too small or an argument read beyond the registered count corrupts or reads a neighbouring frame, which tests only notice if that neighbour matters.",
  ["src/runtime.c", "lib/*.c", "init.c", "lib/toc.c", "lib/md4c/wrap.c"],
  [("registration", "src/runtime.c: coraInit, registerAPI, coraRegisterAPI; makeNative call sites")],
  [("frames", "argument and local slots of a call", "src/runtime.h")],
  ["values of arguments and locals"])

p("V03", "Every value an operation hands to the program is a proper value",
  "Everything a built-in or library operation returns, stores into a structure or passes to a call is a proper value of the language: integer results are converted to numbers, addresses are wrapped as opaque handles, and arithmetic is performed on the numbers represented, never on the machine representation of values.",
  ["inputs", "fault_sequences"], "every value produced by native code on every path",
  "A raw machine integer looks like a tiny number or prints oddly; tests of the success path that ignore the result cannot see it.",
  ["src/runtime.c", "src/types.c", "src/reader.c", "lib/*.c", "lib/md4c/wrap.c"],
  [("conversions", "src/types.h: makeNumber, fixnum, makeNaNPtr, makeCObj, ptr")],
  [("value representation", "tagged 64-bit word", "src/types.h: Obj")],
  ["results of operations"])

p("V04", "An operation never uses a value of the wrong kind as if it were the right one",
  "When a built-in or library operation is given a value of the wrong kind, execution stops or an error result is returned; the storage of a value is never read or written as if it belonged to a different kind of value. Only the kind marker of a value may be examined before its kind is known.",
  ["inputs", "programs"], "every operation, every combination of argument kinds",
  "Tests call operations with the right kinds; the number of wrong combinations is large and a missing check often appears to work.",
  ["src/types.c", "src/types.h", "src/runtime.c", "src/reader.c", "lib/*.c"],
  [("kind checks", "src/types.h: car, cdr, iscons, isBytes, issymbol; src/types.c: mustNative, mustCObj, stringStr, bytesData, vectorRef")],
  [("kind marker", "tag bits and header type", "src/gc.h")],
  ["behaviour on wrong arguments"])

p("V05", "Non-local exits keep the handler and stack bookkeeping consistent",
  "Every installed handler is removed exactly once, whether its body finishes or throws, and raising with no handler installed stops the program instead of using a stale one. After entering or leaving a handler, throwing, or resuming a captured continuation, the current stack limits always describe the newest stack segment.",
  ["programs", "histories"], "every sequence of try, throw and resume",
  "Tests cover short fixed sequences of try/throw/resume; deeper nestings and uncaught throws are not reached.",
  ["src/runtime.c", "src/runtime.h"],
  [("try, throw, resume", "src/runtime.c: builtinTryCatch, builtinThrow, continuationAsClosure"), ("segment switch", "src/runtime.c: stackAllocSlowPath, coraReturnSlowPath")],
  [("handler stack", "installed handlers", "src/runtime.h: trystack"), ("segments", "stack segments and current limits", "src/runtime.h: struct segmentStack")],
  ["control flow after throw and resume"])

p("V06", "Every argument arrives in its position for any number supplied",
  "A function applied to fewer, exactly as many, or more arguments than it takes receives each argument in its own position: a partial application remembers the supplied arguments in order, a later call appends its own after them, and surplus arguments go, in order, to the result of the first call.",
  ["programs", "inputs"], "every arity, every split of the arguments over successive calls",
  "Tests try a few arities; the specialised call paths, the generic path, the partial and the surplus path each move arguments separately.",
  ["src/runtime.h", "src/runtime.c", "src/types.c"],
  [("call paths", "src/runtime.h: coraCall0..4; src/runtime.c: coraCall, coraDispatch, makeCurry, callCurry, builtinApply")],
  [("callee frame", "slot 0 is the function, slot i its i-th argument", "src/runtime.h")],
  ["values of parameters"])

p("B01", "No input overflows a fixed-size buffer",
  "Reading program text, printing, converting symbols and numbers, and moving file or network data never write outside the fixed-size buffers used for it, whatever the length of the input; input that does not fit is rejected or truncated.",
  ["inputs"], "all inputs of any length",
  "Tests use short tokens and lines.",
  ["src/reader.c", "src/runtime.c", "src/types.c", "lib/*.c", "main.c"],
  [("bounded buffers", "src/reader.c: readNumber, sexpRead; src/types.c: symbolStr; lib/io.c: mkdirP, ioReadAll, ioCopy; lib/toc/internal.c; main.c: shebang")],
  [("stack buffers", "fixed char arrays", "same")],
  ["memory outside the buffer"])

p("B02", "Indexed access stays inside the object for every index",
  "Reading or writing an element of a vector, string, byte buffer or closure at an index given by the program touches only storage inside that object; an index, offset or length that does not fit stops the program or yields an error or empty result.",
  ["inputs"], "every index, offset and length, including negative and huge ones",
  "Tests use valid indices; off-by-one and negative cases read a neighbour without crashing.",
  ["src/types.c", "src/runtime.h", "lib/string.c", "lib/net.c", "lib/io.c", "src/str.c"],
  [("index checks", "src/types.c: vectorRef, vectorSet; src/runtime.h: closureRef; lib/string.c: stringSlice, stringIndex, bytesRef, bytesMemCpy; lib/net.c: netSend, netRecv")],
  [("object length", "size, len, captured", "src/types.h, src/gc.h")],
  ["memory outside the object"])

p("S01", "Text buffers are never used after they move or are freed, nor leaked",
  "Every internal text buffer an operation creates is released exactly once on every path, and after an operation that may relocate or release a buffer only its result is used.",
  ["inputs", "fault_sequences"], "every path through every function that builds text",
  "A buffer that happens not to grow hides a stale pointer, and leaks are invisible to functional tests.",
  ["src/runtime.c", "src/types.c", "src/str.c", "lib/*.c"],
  [("text buffers", "src/str.c: strNew, strDup, fromCStr, fromBlk, strCat, strCpy, strAppend, strShrink, strFree")],
  [("ownership of a buffer", "who must release it", "same")],
  ["memory errors"])

p("O01", "Operating-system handles are checked before use and released",
  "A file, pipe, socket, address list or descriptor obtained from the system is used only when obtaining it succeeded, and on every path it is either released or handed to the program; failures are reported to the program or stop it.",
  ["fault_sequences", "inputs"], "every failure of every system call that yields a handle",
  "Tests do not make opens, pipes, sockets, binds or connects fail.",
  ["lib/io.c", "lib/os.c", "lib/net.c", "src/runtime.c", "main.c", "lib/json.c"],
  [("handle acquisition", "fopen, popen, socket, accept, getaddrinfo, dlopen, epoll_create call sites")],
  [("handles", "open descriptors and streams", "same")],
  ["descriptor leaks, use of invalid handles"])

p("P01", "Reading program text always ends at the end of input",
  "The reader finishes for every finite input, complete or truncated at any point: at the end of input it stops or reports that there is no further expression, instead of looping or recursing without limit. The end of input is never mistaken for a character, nor a character for the end of input.",
  ["inputs", "crash_points"], "every prefix of every program text, every byte value",
  "Tests read complete well-formed expressions only.",
  ["src/reader.c"],
  [("reader", "src/reader.c: sexpRead, readCons, readListMacro, readNumber, eatWhitespace")],
  [("input position", "characters left in the stream", "src/reader.c")],
  ["termination of the reader"])

p("K01", "Compiler, macro expander, evaluator and runtime agree on the primitives",
  "Every primitive operation has the same name and number of arguments everywhere: as recognised by the macro expander, as compiled, as available to interpreted code and as implemented by the runtime; code the compiler emits for it matches what the runtime defines. A primitive applied to all its arguments therefore means the same wherever it is used.",
  ["programs", "configurations"], "every primitive in every context (compiled call, partial application, interpreted, passed as a value)",
  "Tests use some primitives in some contexts; a primitive missing in one place only fails in that combination.",
  ["lib/toc.cora", "init.cora", "lib/eval.cora", "src/runtime.h", "src/runtime.c", "src/types.h", "init.c", "lib/toc.c"],
  [("primitive tables", "lib/toc.cora: *builtin-prims*; init.cora: cora/init#*builtin-prims*; lib/eval.cora"), ("emission", "lib/toc.cora: generate-inst")],
  [("primitive", "name, number of arguments, implementation", "same")],
  ["result of primitive applications"])

p("K02", "Shipped libraries refer only to names that exist",
  "Every name used by the shipped libraries is a local variable, a definition of the same package, something exported by an imported package, a primitive or a built-in, and every exported name is defined. No path through a library can therefore stop on an undefined name.",
  ["programs", "inputs"], "every expression of every shipped library, including branches tests never take",
  "Names are looked up when an expression runs, so a misspelled name in an untested branch is invisible.",
  ["init.cora", "lib/*.cora", "lib/*.c", "src/runtime.c"],
  [("package name resolution", "init.cora: cora/init#lookup-var, parse-package"), ("registration", "src/runtime.c: registerAPI, coraRegisterAPI, coraInit")],
  [("bindings", "definitions, exports and imports per package", "lib/*.cora")],
  ["undefined value errors"])

p("K03", "Shipped libraries call functions with a number of arguments they accept",
  "Within the shipped libraries a call of a known function never passes more arguments than it takes unless its result is itself a function, and never stops short of its arguments where a final result is required.",
  ["programs", "inputs"], "every call of a known function in every shipped library",
  "A call with a missing argument silently produces a function instead of failing, so only a test that inspects exactly that result would notice.",
  ["init.cora", "lib/*.cora"],
  [("function definitions", "func, defun, lambda in lib/*.cora; registered built-ins")],
  [("arity", "number of parameters", "same")],
  ["results of library functions"])

p("K04", "Every intermediate form a compiler pass produces is handled downstream",
  "Every kind of node a compiler pass can produce is recognised by each later pass with the same shape, and the code generator has a case for every kind of node and constant that can reach it, so no program is silently compiled to nothing or wrongly shaped code.",
  ["programs"], "every program the compiler accepts",
  "Tests compile a small set of programs; an unhandled or reshaped node needs the right combination of constructs.",
  ["lib/toc.cora"],
  [("passes", "lib/toc.cora: parse, closure-convert, tailify, liveness-analyze, collect-lambda, collect-cont, generate-inst")],
  [("intermediate forms", "tagged lists such as %const, %closure, call, continuation", "lib/toc.cora")],
  ["emitted code"])

p("K05", "Emitted C text reproduces string constants and names exactly",
  "A string constant of a compiled program denotes, in the emitted C, the same characters, whichever characters it contains, and two different names are never given the same C name.",
  ["inputs", "programs"], "every string constant and every symbol",
  "Tests use constants made of letters.",
  ["lib/toc/internal.c", "lib/toc.cora"],
  [("escaping", "lib/toc/internal.c: builtinEscapeStr, builtinGenerateSym"), ("emission", "lib/toc.cora: generate-inst, generate-entry")],
  [("C source text", "emitted file", "same")],
  ["value of constants in compiled programs"])

p("K06", "Compiled calls restore exactly the locals they saved",
  "When a compiled function makes a non-tail call, every local needed afterwards is saved before the call and restored after it from the same place, frames are large enough for what is saved, and a tail call reuses the caller's frame.",
  ["programs"], "every compiled non-tail and tail call",
  "A wrong slot matters only for particular combinations of live variables.",
  ["lib/toc.cora", "init.c", "lib/toc.c", "src/runtime.h"],
  [("save and recover", "lib/toc.cora: save-to-frame, recover-from-frame, lambda-frame-size, liveness-analyze; src/runtime.h: saveCont")],
  [("frame slots", "locals saved across a call", "init.c, lib/toc.c")],
  ["values of locals after calls"])

p("A01", "The public embedding interface is implemented as declared",
  "Every function and constant the public C header declares exists in the library with the declared parameters, and each one performs the operation of its name on the arguments in the declared order.",
  ["programs", "configurations"], "every function of the public header",
  "No test links against the public header alone.",
  ["src/cora.h", "src/export.c", "src/runtime.c", "src/types.c"],
  [("declarations", "src/cora.h"), ("definitions", "src/export.c")],
  [],
  ["link errors, results of API calls"])

p("H01", "Text placed in generated HTML is always escaped",
  "Whatever characters occur in document text or attribute values, the characters that are special in HTML are replaced by their own entities when the document is written as HTML.",
  ["inputs"], "all document texts and attribute values",
  "The single HTML test contains no special characters.",
  ["lib/sxml.cora"],
  [("escaping", "lib/sxml.cora")],
  [],
  ["generated HTML"])

# ---- declined -------------------------------------------------------------
p("N01", "Arithmetic on integers is exact",
  "Addition, subtraction, multiplication, division and comparison of integers give the mathematically exact result for all integers a number can represent.",
  ["inputs"], "all pairs of integers", "Tests use small constants.",
  ["src/types.h", "src/runtime.c"], [("arithmetic", "src/types.h: PRIM_ADD; src/runtime.c: primDiv")])
p("N02", "Interpreted and compiled programs give the same result",
  "Evaluating an expression interactively and compiling and loading it give the same value and the same effects in the same order.",
  ["programs"], "all programs", "Tests run a program one way.",
  ["lib/eval.cora", "lib/toc.cora"], [("evaluator and compiler", "lib/eval.cora, lib/toc.cora")])
p("N03", "Printing a value and reading it back gives an equal value",
  "Reading the printed form of any number, boolean, symbol, string or list gives back an equal value.",
  ["inputs"], "all printable values", "Tests read fixed texts.",
  ["src/reader.c"], [("reader and printer", "src/reader.c")])
p("N04", "Concurrent tasks communicate without lost or duplicated messages",
  "Every message sent on a channel or event is received exactly once by one receiver, tasks are scheduled fairly, and a task waiting for a socket is resumed when it becomes ready.",
  ["schedules"], "all interleavings of tasks", "Tests do not run the task libraries.",
  ["lib/cml.cora", "lib/async.cora", "lib/chan.cora", "lib/net.c"], [("scheduler", "lib/cml.cora, lib/async.cora")])
p("N05", "Unreachable objects are eventually reclaimed and memory stays bounded",
  "A program whose reachable data is bounded runs in bounded memory: every unreachable object is reclaimed after a bounded number of collections.",
  ["programs", "histories"], "all long-running programs", "Tests are short.",
  ["src/gc.c"], [("sweeping and versions", "src/gc.c: inuse, gcFlip, nextVersion")])
p("N06", "Objects kept by one collection are not freed by version wrap-around",
  "The age and cycle counters of objects never wrap so that a live object is taken for dead or a dead one for live, for any number of collections.",
  ["histories"], "any number of collection cycles", "Tests run a few hundred cycles.",
  ["src/gc.c"], [("version arithmetic", "src/gc.c: versionCmp, nextVersion, markObject")])
p("N07", "A hash table returns the last value stored under a key",
  "Looking up a key in a hash table gives the value last stored under an equal key, for any sequence of insertions, updates and removals.",
  ["histories"], "all sequences of operations", "No test uses the table.",
  ["lib/hash.cora", "lib/hash-h.c"], [("hash table", "lib/hash.cora")])
p("N08", "A captured continuation can be resumed any number of times",
  "Resuming a captured continuation behaves the same the first and every later time.",
  ["histories"], "all resume sequences", "Tests resume each continuation once.",
  ["src/runtime.c"], [("continuations", "src/runtime.c: makeContinuation, continuationAsClosure")])
p("N09", "Markdown is parsed as its specification says",
  "The document tree produced for a markdown text is the one the CommonMark specification prescribes.",
  ["inputs"], "all markdown texts", "No test parses markdown.",
  ["lib/md4c/md4c.c", "lib/md4c/wrap.c"], [("parser", "lib/md4c/md4c.c")])
p("N10", "Well-typed programs according to the checker do not fail at run time",
  "A program accepted by the optional type checker never applies an operation to a value of another type.",
  ["programs"], "all accepted programs", "No test uses the checker.",
  ["lib/infer.cora"], [("inference", "lib/infer.cora")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
