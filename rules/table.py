"""Which analyses decide which property, and what they claim."""


def ir(*names): return [('ir', n) for n in names]
def py(*names): return [('py', n) for n in names]


RULES = {}


def rule(id, rules, technique, explain, note, obligations, assume=()):
    RULES[id] = dict(rules=rules, technique=technique, explain=explain, note=note,
                     obligations=list(obligations), assume=list(assume))


rule('V01', ir('V01'),
     'typestate dataflow over LLVM IR with interprocedural summaries',
     'For every function of step type (registered built-ins, library operations, compiled code) the number of control '
     'transfers (store of the next step) is tracked as a typestate on every CFG path from each entry label to each '
     'return; the rule demands exactly one transfer, none after a transfer except through the protocol functions, and '
     'every path that ends otherwise must not return.',
     'Decides every path of every step in the analysed configuration; assumes functions declared noreturn or ending in '
     'a trap do not return.', ['step functions'],
     ['aborting (assert, exit, abort) is an allowed end of a path'])
rule('V02', ir('V02'),
     'definite-assignment and bounds dataflow over LLVM IR of every registered step',
     'Every registration (makeNative, registerAPI and wrappers) is resolved to its function, arity, frame size and captured '
     'count; every access of the frame pointer in the step is given an offset and must lie in the registered arguments, or '
     'in a local slot written first on every path, and inside the frame; every captured value read lies inside the '
     'captured count of every creation site; callers write only argument slots of frames they allocated.',
     'Decides each constant-offset access of each step; accesses with run-time offsets are decided by linear facts.',
     ['registrations', 'frame reads', 'frame writes', 'captured value accesses', 'frame stores by callers'])

rule('V03', ir('V03'),
     'type-qualifier inference (value / C integer / address) over LLVM IR, typed by debug info',
     'Every 64 bit quantity is classified from the declared types of the parameters, results and memory it comes from and from '
     'the operations it passes through; a C integer or address must not reach an argument, result or memory location declared '
     'to hold a value without one of the conversions, a value must not be passed where an integer is declared, and no '
     'arithmetic, ordering, truncation or conversion to floating point is applied to the representation of a value.',
     'Decides every declared value position in core, libraries and shipped compiled code; positions whose type is erased '
     '(void pointers, words of the collector) are not classified.',
     ['values passed on', 'values returned', 'values stored', 'integers passed on', 'arithmetic', 'orderings', 'conversions'],
     ['declared types of parameters and fields tell values from integers'])

rule('V04', ir('V04'),
     'path exploration over LLVM IR with the kind of one value fixed (known bits of the marker and the type byte)',
     'For every value whose representation is taken apart to an address, and for each of the ten kinds (number, immediate, '
     'handle, symbol, string, pair, function, vector, generated symbol, continuation), the paths from the definition of the '
     'value to each access through that address are explored with the marker bits and the type byte fixed; an access '
     'beyond the header must be reachable for one kind only, and lie on a field of that kind; a value without storage must '
     'reach none. Values are created with a marker that agrees with the type byte. Kinds of captured values come from all '
     'creation sites.',
     'Decides every access in core, libraries and shipped compiled code; handles of different system objects are one kind, '
     'and pointers kept in C variables of the collector are not derived from values.',
     ['values examined', 'accesses', 'values made'])

rule('V05', ir('V05'),
     'typestate and region-copy dataflow over LLVM IR on try, throw, resume, frame allocation and return, plus an effect (who-may-write) analysis',
     'Every path of the functions registered as try and throw, of the code they store in frames and continuations, and of frame '
     'allocation and return is followed from an arbitrary consistent machine state with symbolic lengths of the call stack, handler '
     'stack and segment list. Obligations: exactly one handler is pushed or popped, tied to the call and segment of its body; the '
     'stack limits describe the newest segment at every exit; throw cuts all three stacks back to the mark, calls the handler '
     'stored where try put it, and captures exactly the dropped calls and segments; resuming restores exactly these. No other '
     'function stores to the handler stack or the stack segments.',
     'Decides each transition for all stack depths. Whether a segment may be resumed twice is out of reach (N08).',
     ['throws', 'resumptions', 'handlers installed', 'handlers removed', 'returns', 'returns to an older segment',
      'frame allocations', 'functions that leave them alone'],
     ['a new stack segment does not overlap the old ones', 'marks on the handler stack are those try and resume push'])

rule('V06', ir('V06'),
     'region-copy dataflow over LLVM IR: paths with loops summarised as linear regions, continuations followed symbol by symbol',
     'Every path of the application functions (coraCall, coraCall0..4, apply, the entry of interpreted functions) is followed with '
     'memory as a list of copied regions at linear addresses; for an unknown number of arguments the frame, argument array, partial '
     'application or saved continuation must hold exactly the arguments, each at its position. The code stored in the partial '
     'application and in the continuation is followed from that state: it must apply the original function to the remembered '
     'arguments followed by the new ones, and the result of the first call to the surplus ones.',
     'Decides the application machinery for all argument counts; frames of compiled calls are decided by V02 and the argument '
     'expressions themselves are the compiler\'s (K06).',
     ['application functions', 'application paths', 'partial applications', 'surplus applications', 'list applications',
      'interpreted functions'],
     ['argument counts are not negative', 'a new stack segment does not overlap the old ones'])

rule('G01', ir('G01'),
     'region-coverage dataflow over LLVM IR of the marking functions, with slot sets derived from debug info',
     'For every object kind the constructors create, the value-holding slots are enumerated from the type of the object; the '
     'marking function registered for the kind must, on every path that is not proved empty, mark each scalar slot, each '
     'slot of the flexible payload (the loop range must equal the payload length) and every frame of a saved continuation, '
     'with the version of the holder; gcMark must reach the registered function for every kind, queue each object it keeps, '
     'and the gray queue must be drained completely.',
     'Decides completeness of marking per kind and the plumbing of gcMark and the queue; not the arithmetic of versions.',
     ['stored slots'], ['a kind stores values only in fields declared as values'])
rule('G02', ir('G02'),
     'region-coverage dataflow over LLVM IR of the root function, with roots derived from debug info of the machine',
     'Every field of the machine structure that holds values (scalars, the current frame, every vector of values and every '
     'vector of frames) is a root; the function handed to the collector must mark each of them entirely, on every path, in '
     'the collector it is given; the root phase must prepare the queue, call that function and scan the remembered set.',
     'Decides the root set against the declared layout of the machine.', ['roots', 'root phase obligations'],
     ['C locals are not roots; property G04 covers them'])
rule('G03', ir('G03'),
     'must-pass-through dataflow over LLVM IR: every assignment site against the barrier protocol',
     'Every store into a value slot of an object that is not freshly allocated in the same function, and every store into '
     'the vector of globals, must be made by the deletion barrier and, for heap objects, be accompanied on every path by the '
     'generational barrier on the same holder and value; the barriers themselves must mark the old value when a collection '
     'is marking, must store the value on every path and must remember an older holder of a newer value; the root phase must '
     'scan every remembered holder.',
     'Decides every assignment site in core, libraries, shipped compiled code and main.', ['generational obligations', 'assignments'],
     ['the generation test itself (version arithmetic) is out of scope'])

rule('G04', ir('G04'),
     'interprocedural dataflow over LLVM IR: collection starts, and liveness of object references across nested runs',
     'Every start of a collection must lie in the loop that runs the steps of the machine. In every function, after inlining, '
     'that runs program code before it finishes (calls the run loop, directly or not), each value or interior address of a '
     'collectable object, and each frame the collector does not see, obtained before that call must not be used after it; '
     'values must be read again from the machine. No C variable is assigned a collectable value.',
     'Decides every function of core, libraries and main; values bound once to built-in functions and interned symbols are '
     'exempt because they stay reachable.', ['operations', 'nested runs', 'collection starts', 'C variable stores'],
     ['program code does not rebind the names of built-in functions between two runs made by main'])

rule('S01', ir('S01'),
     'path-sensitive typestate of every block of memory, over LLVM IR after inlining',
     'Each creation of a block (malloc, calloc, realloc, strdup) in core, libraries and main is followed on every path through '
     'branches, merges, loops and the inlined text-buffer functions, with the outcome of null tests remembered: a block that was '
     'released or moved must not be read, written, passed on, returned or released again, and a block that was not released, '
     'returned, stored or handed to the program when the operation ends is a leak.',
     'Decides every creation site; a block stored into a structure or handed out is no longer followed, and the markdown parser '
     'md4c.c is followed function by function.',
     ['creation sites', 'releases'], ['obtaining memory succeeds'])

rule('O01', ir('O01'),
     'path-sensitive typestate of every system handle, over LLVM IR after inlining',
     'Each call that obtains a file, pipe, socket, descriptor, address list, library, user record, environment variable or json '
     'node is followed on every path with the outcome of the tests of its result (null, or negative for descriptors, the return '
     'code for address lists) remembered: it must not be used, stored or handed out before it is known to have succeeded, nor '
     'after it was released, and at the end of the operation it was released by the matching function or handed to the program '
     '(returned, stored, converted to a value, its code run).',
     'Decides every call that obtains a handle in core, libraries and main; what the program does with a handle it was given is '
     'out of scope.',
     ['creation sites', 'releases'])

rule('B01', ir('B01'),
     'linear-inequality dataflow over LLVM IR after inlining (dominating conditions, loop invariants by induction)',
     'Every write into a local or global array, directly, through memory functions (memcpy, memset, read, fread, recv, fgets, '
     'snprintf, realpath ...) or through the positions kept in global counters, is given an offset and a length as linear '
     'expressions; the conditions that hold there (branches taken, loop bounds by induction, results of library functions) must '
     'imply that it lies inside the array. Unbounded writes (sprintf with unbounded text, strcpy, gets) need a bounded source.',
     'Decides every write to an array of fixed size in core, libraries and main, for all inputs; what the conditions do not '
     'imply is reported.', ['accesses', 'element accesses decided', 'counters kept in range'],
     ['texts and objects are shorter than 2^29 bytes', 'the markdown parser md4c.c and vector.h are excluded'])

rule('B02', ir('B02'),
     'linear-inequality dataflow over LLVM IR after inlining, lengths of objects from the fields that declare them',
     'Every access to the variable part of a vector, byte buffer, string, closure or text buffer at an offset that is not '
     'constant, and every length handed to a memory or text function, is expressed linearly over the values of the operation; '
     'the conditions that hold there must imply that it lies between the start of the elements and the length the object '
     'declares; every store to a length field must agree with the storage of the object. The text functions of str.c are '
     'decided once for all arguments that fit, and every call must pass such arguments.',
     'Decides every element access in core, libraries and main for all indices; aborting is an allowed answer to a bad index.',
     ['accesses', 'block accesses decided', 'element accesses decided', 'length fields set', 'lengths handed to text functions'],
     ['texts and objects are shorter than 2^29 bytes', 'the markdown parser md4c.c and vector.h are excluded',
      'captured values at constant positions are decided by V02', 'strings end with a zero byte at their length (G05)'])

rule('G05', ir('G05A', 'G05B'),
     'linear-inequality dataflow over LLVM IR for the size of each new object, region-initialisation dataflow for its slots',
     'Every access to a block of memory through the pointer its creation returned must lie inside the requested size, for every '
     'request; every slot the collector traces and every element the program can read must be stored, on every path, before the '
     'object is returned, stored, passed on or the next object is created.',
     'Decides every creation in core, libraries and main.',
     ['accesses', 'block accesses decided'],
     ['counts of arguments handed to coraCall, makeCurry and makeContinuation are between 0 and 2^24',
      'requests above the size of a header only (G06)'])

rule('G06', ir('G06'),
     'constant propagation over every request size, linear-fact proofs and list-membership dataflow over LLVM IR of the allocator',
     'For every request size below the large-object limit the allocator is folded down to the list of blocks it uses and the '
     'class it gives them: the list exists, the class covers the request and fits a block. A list only ever receives blocks of '
     'its own class; a slot is handed out at the position of its block, proved to end inside it, and the position moves '
     'behind it. A block gets memory of its own, counted by its arena, never more than the arena has. For every large size the '
     'object is proved to end inside its arena, the search continues behind it, and the free blocks found cover it. For all '
     'relative versions a place whose object is in use is not handed out.',
     'Decides gc.c with facts for all sizes; block counts are taken not to overflow, memory from the system to be obtained, '
     'and the free-block lengths noted in merged large objects are not proved to add up.',
     ['request sizes', 'classes', 'places handed out', 'list updates', 'position updates', 'blocks put back', 'arena growth',
      'sizes in blocks', 'versions examined'])

rule('P01', ir('P01'),
     'constant-propagating path exploration over LLVM IR (an end-of-input mode and one exploration per next-character value)',
     'The reader functions are explored with every read returning end of input from an arbitrary point on: every loop and every '
     'recursive call must leave, with the error code set; and once per next-character value 0..255 and end of input: the branch '
     'taken at end of input differs from that of every character, no character is narrowed before the comparison, and every '
     'loop iteration consumes a character.',
     'Decides termination at end of input and progress of every reader loop and recursion; nesting depth of complete text is '
     'bounded only by the C stack.', ['end of input obligations', 'character obligations', 'loop progress obligations', 'character cases'])

rule('K02', py('k02'),
     'name resolution over the macro-expanded library sources (own reader and expander) and the registration tables in LLVM IR',
     'Every .cora source is read and expanded with the macros the sources define; every global name in the resulting core '
     'forms must be defined by the package itself, a package it imports, the packages loaded at start-up or a C registration '
     '(taken from the IR); exports must be defined; top-level code must not use a later definition; names the C code looks '
     'up must be defined, and so must every global the compiled images init.c and lib/toc.c read (by their tables of names).',
     'Decides every syntactic reference; names computed at run time (intern, value of a variable) are not covered.',
     ['global references', 'names used by C code', 'global references of compiled images'])

rule('K03', py('k03'),
     'arity and kind inference (data / waiting for n arguments) over the macro-expanded library sources, fixpoint over results',
     'Every call in the expanded libraries whose function is known (single definition, C registration, primitive) is typed: '
     'too many arguments for a function that never returns a function, and partial calls whose value is used as data, tested, '
     'discarded or returned where other branches return data, are errors.',
     'Decides calls of known functions; calls of parameters and of values from containers are not known.',
     ['calls of known functions'])

rule('H01', py('h01'),
     'abstract interpretation of the expanded sources of lib/sxml: the escaping function per byte value, taint of all output writes',
     'The functions that copy bytes into the output are found; the escaping function is interpreted abstractly for each of the '
     '256 byte values at an arbitrary position of an unknown text and must write the entity of each special character, the '
     'character itself otherwise, and go on with the next position; from the exported functions every write that is reached '
     'must be a literal, a name, a number or the escaping function.',
     'Decides the writer in lib/sxml for every byte value and every shape of document; names of elements and attributes are '
     'taken as given.',
     ['characters decided', 'writes followed'])

rule('A01', ir('A01') + py('a01'),
     'compile-fail witnesses for the declarations, and structural equality of optimised LLVM IR with a reference implementation',
     'Every function and constant declared in cora.h must be defined, with a type that compiles together with the header; each '
     'accessor must be equal, after optimisation, to the internal operation it stands for applied to the declared arguments in '
     'their order (spec/api_ref.c).',
     'Decides declarations and the accessor functions; coraInit, coraCall, coraReturn, coraRun and coraRegisterAPI are only '
     'checked for their declaration here (V01, V02, V06 judge what they do).',
     ['declared functions', 'declared constants', 'functions compared'])

rule('K01', ir('K01') + py('k01'),
     'constant folding of witness functions over LLVM IR, one per primitive and kind of argument; comparison of the tables of primitives',
     'The tables of primitives of the compiler, the expander and the evaluator must agree on names, numbers of arguments and '
     'implementations. For each primitive and each kind of value a witness function is written with the call the compiler emits; '
     'after optimisation its result must be the constant the language promises (type tests, equality of different kinds and of a value '
     'with itself), it must never return (operands of the wrong kind), or its result must be computed from the arguments in order by the '
     'operation named (arithmetic, order, fields of pairs).',
     'Decides every kind of value; how the sum or quotient is rounded (N01) and equality inside texts and lists are not decided.',
     ['primitives', 'answers by kind', 'refusals', 'computations', 'answers of operations by kind'],
     ['a number has one of the mask bits clear'])

rule('K05', ir('K05'),
     'path analysis of the conversion loops in lib/toc/internal.c over LLVM IR, once per byte value; the output is decoded as C text or as a code',
     'escape-str, generate-sym, generate-num and generate-str are found by the names they are registered under. For each of the '
     'byte values the path of one round of the loop is followed with that byte as a constant: what it writes must decode, as C '
     'text whatever follows, to that byte; what it writes for the bytes of names must be a prefix-free code of identifier '
     'characters, and names of different kinds must start differently; numbers must be written with a format of their width, '
     'text with its whole length.',
     'Decides every byte value and every position of the text; the places in lib/toc.cora that call these operations are not '
     'judged.',
     ['characters of strings', 'characters of names', 'number formats', 'text written'])

NOT_APPLICABLE = {
 'K04': 'the passes of lib/toc.cora exchange untyped lists built at run time; which shapes reach which pass is a property of all input programs and no declaration bounds them. The clause-by-clause part that is static (names, numbers of arguments) is claimed by K02 and K03',
 'K06': 'the pairing of a saved slot with the variable it holds exists only in the data the compiler builds for one program (lists of live variables), not in a construct of its source; frame sizes and slots of the shipped compiled code are decided by V02',
 'N01': 'exactness over all 2^64 operand pairs is a numeric fact about machine arithmetic on run-time values; no dataflow argument bounds the operands, and the representable range itself is not fixed by any declaration',
 'N02': 'equality of results of two implementations quantifies over the run-time behaviour of all programs; a static comparison would have to prove the compiler and the evaluator correct',
 'N03': 'relates two character-level loops through run-time data; needs an inductive proof or execution, no static rule on constructs decides it',
 'N04': 'delivery and fairness are protocol properties of run-time schedules built from heap-allocated continuations in a dynamically typed language; the flow of tasks through queues is not statically visible',
 'N05': 'liveness and memory bounds depend on run-time allocation volumes and cycle counts no static argument in reach can bound',
 'N06': 'depends on the numeric history of version counters across unboundedly many collections',
 'N07': 'functional correctness of an algorithm over all operation histories; no construct-level rule implies it',
 'N08': 'depends on whether a captured stack segment is still held when resumed again, a run-time ownership history; the present design transfers the segment on the first resume',
 'N09': 'conformance to an external grammar over all texts is not a dataflow property',
 'N10': 'type soundness of a user-level type checker written in cora itself; a meta-theorem, not decidable from constructs',
}


def level_of(p): return RULES[p].get('level', 'other')
