AI = 'static abstract interpretation of the IR from the public entry points over enumerated module shapes with abstract contents, compared with a reference semantics'
AIN = ' Trusted: clang IR, ISO C behaviour of library functions, 64-bit target. Values that cannot be decided are counted in the evidence and never reported.'

row('P11', 'A loaded instance has exactly what its module describes',
    'After a successful load of a well-formed module made of supported features, the instance seen through the public API has exactly what the module describes: each function index denotes its own body or import, tables and memories have the declared limits and the contents their element and data segments give them, globals have the values of their initialisers at their full width, every export name and kind finds exactly its item and any other name and kind finds nothing, and the start function is the declared one and not called by loading.',
    ['inputs', 'programs', 'configurations'], 'all combinations of section contents in the enumerated shapes: imported and own items of each kind, several tables and memories, all supported initialisers and segments, absent sections, custom sections anywhere; initial values, offsets and contents symbolic',
    'Tests load a few modules; index spaces that mix imports and own items, several tables, absent sections and initialiser kinds combine in far more ways.',
    ['pwart/modparser.c', 'pwart/wagen.c', 'pwart/namespace.c', 'include/pwart.h'],
    [('section decoding', 'pwart/modparser.c load_module'), ('constant expressions', 'pwart/modparser.c waexpr_run_const'), ('instance inspection', 'pwart/wagen.c pwart_inspect_module_state')],
    'other', AI, 'Each instance is compared field by field with the described module: index spaces, contents, exports, start.' + AIN)
row('P12', 'Imports are resolved by name and kind and bound to what was provided',
    'Loading asks the resolver for every import with exactly the module name, field name and kind of that import, whatever was resolved before, binds the import to exactly the object provided, and uses the builtin symbols only for imports from the builtin module name that the resolver does not provide, and only with their own kind. An import that nobody provides, or a table or memory whose maximum is below the declared minimum, makes the load fail with an error.',
    ['inputs', 'histories', 'configurations'], 'all kinds, name lengths up to the supported limit, repeated and permuted names, with and without resolver, every builtin symbol',
    'Tests use few import names of similar length; leftovers of earlier names, confusions of kind and binding order show only with particular sequences.',
    ['pwart/modparser.c', 'pwart/extfunc.c', 'pwart/namespace.c'],
    [('import section', 'pwart/modparser.c load_module'), ('builtin symbols', 'pwart/extfunc.c pwart_get_builtin_symbols')],
    'other', AI, 'The sequence of resolver requests and the bound objects are compared with the import list.' + AIN)
row('P13', 'A namespace resolves every name to the module last defined under it',
    'Whatever sequence of definitions, redefinitions and removals is applied to a namespace, also from the attach and detach callbacks: finding a module and resolving a symbol through the namespace resolver use exactly the module last defined under that name (host modules are asked, with the request unchanged; modules of WebAssembly answer with their export of that name and kind; missing and removed modules answer nothing), a module loaded into the namespace is bound to what the namespace offered at that moment, host modules get one on_attached per definition and one on_detached when they are replaced, removed or the namespace is deleted, a module that fails to load changes nothing, and the namespace needs neither the caller\'s structures nor the caller\'s name strings after a call.',
    ['histories', 'inputs'], 'all sequences of up to two of sixteen operations, random longer sequences, 40 modules, two namespaces, callbacks that define and remove modules',
    'The tests define a handful of modules once, keep all names in string literals, and never redefine, remove or use callbacks.',
    ['pwart/namespace.c', 'include/pwart.h'],
    [('resolver', 'pwart/namespace.c namespace_SymbolResolve'), ('define and remove', 'pwart/namespace.c pwart_namespace_define_module, pwart_namespace_remove_module'), ('deletion', 'pwart/namespace.c pwart_namespace_delete')],
    'other', AI, 'Every operation of each sequence is interpreted and compared with a reference list of named modules.' + AIN)
row('P15', 'memory.grow grows by whole cleared pages or changes nothing',
    'For every memory (growable, fixed, native; any index), every current size, maximum and delta: memory.grow either returns the previous size, and then the memory has exactly the new size, its old content is preserved, every new byte reads zero, storage for the new size exists and the old storage is released, or it returns -1 because the new size exceeds the maximum or storage cannot be obtained, and then nothing has changed. No other memory and nothing of the caller is affected.',
    ['inputs', 'fault_sequences', 'programs'], 'all memory kinds and positions among up to four memories, sizes and deltas around every boundary including 32-bit overflow, and failing allocation',
    'Tests grow by one or two pages in one memory and never run out of memory, overflow the page count or look at recycled storage.',
    ['pwart/extfunc.c', 'pwart/opgen_mem.c', 'pwart/wagen.c'],
    [('growth', 'pwart/extfunc.c insn_memorygrow'), ('call emitted for memory.grow', 'pwart/opgen_mem.c opgen_GenMemoryGrow')],
    'other', 'abstract interpretation of the run-time helper in the state of the emitted call; every path is compared with the contract of memory.grow at boundary values', 'The paths of the helper are symbolic in size, maximum and delta; each is compared with the contract over boundary valuations, with successful and failing allocation.' + AIN)
row('P16', 'Loading and freeing leaves no memory behind and frees nothing twice',
    'When a module compiler and the module state made with it are freed, in either order, and likewise when a compiler is freed after its module was rejected or before it was used, every allocation made for them has been released exactly once and nothing is read or written after it was released. The instance stays usable after its compiler is freed.',
    ['histories', 'inputs', 'programs'], 'all module shapes of P11 and all rejected modules of P17; both orders of release',
    'Leaks and double releases do not change results; tests do not run under a leak checker and free in one order only.',
    ['pwart/wagen.c', 'pwart/modparser.c', 'pwart/def.h'],
    [('release of the compiler', 'pwart/wagen.c pwart_free_module_compiler'), ('release of the instance', 'pwart/wagen.c pwart_free_module_state')],
    'other', AI, 'Abstract heap with allocation sites; every object must be released exactly once on every path.' + AIN)
row('P17', 'A module that cannot be accepted is refused with an error message',
    'Loading a module that is not WebAssembly, needs an import that is missing or too small, has a segment that does not fit, exceeds a documented or built-in limit (names, parameters, locals, operand depth) or uses a feature that is not implemented returns a readable error message to the caller: the process is not ended, no memory outside live objects is accessed, and no unusable instance is handed out.',
    ['inputs', 'configurations'], 'the enumerated classes of refused modules: header, imports, limits around each boundary, segments, constant expressions, every unassigned or unimplemented opcode',
    'Each limit has an off-by-one neighbourhood and each opcode a position; an accepted bad module often seems to work.',
    ['pwart/modparser.c', 'pwart/wagen.c', 'pwart/opgen_misc.c', 'pwart/opgen_ctl.c', 'pwart/opgen_utils.c'],
    [('section checks', 'pwart/modparser.c load_module'), ('unknown opcodes', 'pwart/wagen.c pwart_GenCode'), ('operand depth', 'pwart/opgen_utils.c push_stackvalue')],
    'other', AI, 'Every refused module class must end in a returned error text on every path.' + AIN)
row('P10', 'Every valid binary encoding of an instruction or section means the same',
    'The binary format allows redundant LEB128 bytes in every immediate, count, index and size. Whichever of the valid encodings a function body or a section uses, and whatever the size of the number (around every byte boundary, signed or unsigned), loading reads exactly the encoded value, consumes exactly its bytes, stays in step with the instruction stream in every pass over a body, generates the same code and builds the same instance.',
    ['inputs', 'programs'], 'boundary values of every immediate kind (constants, locals, globals, functions, types, labels, memory arguments, memories, tables, 0xfc instructions, select types) and all module shapes of P11 plus large counts, each in the shortest, a padded and the longest encoding',
    'Test modules come from one assembler, which writes the shortest encodings and uses small numbers.',
    ['pwart/util.c', 'pwart/modparser.c', 'pwart/wagen.c', 'pwart/opgen_ctl.c', 'pwart/opgen_mem.c', 'pwart/opgen_misc.c'],
    [('LEB128 readers', 'pwart/util.c read_LEB_'), ('immediates skipped by the first pass', 'pwart/wagen.c skip_immediates'), ('sections', 'pwart/modparser.c load_module')],
    'translation_validation', 'static translation validation by abstract interpretation: the code emitted for every encoding of a fragment is compared with the code for its decoded form, which is compared with the WebAssembly semantics',
    'The readers are interpreted over the bytes of every encoding; the emitted operations and the built instance must agree.' + AIN)
row('P14', 'Stacks, frames and configuration behave as the header documents',
    'The values an embedder writes with the put functions are the parameters the callee reads and the values the callee stores are what the get functions read, for every signature, with and without operand alignment and from any 8-byte aligned frame; pwart_call_wasm_function passes exactly the given frame; allocated stacks are aligned, have the requested size, and are released whole; compile configuration set is the configuration read back and used, with the documented defaults; user data of a module is kept.',
    ['inputs', 'programs', 'configurations'], 'all type sequences up to length four and random longer ones, both alignment settings, all stack sizes and allocator alignments, all configuration values',
    'Tests use a few signatures, one allocator and one configuration per process.',
    ['pwart/pwart.c', 'pwart/wagen.c', 'pwart/extfunc.c', 'include/pwart.h'],
    [('put and get', 'pwart/pwart.c pwart_rstack_put_ and get_ functions'), ('stacks', 'pwart/pwart.c pwart_allocate_stack, pwart_free_stack'), ('configuration', 'pwart/pwart.c pwart_set_global_compile_config')],
    'other', AI, 'Frame positions written and read are compared with the documented layout.' + AIN)
row('P18', 'Builtin functions do what the header documents, in the documented frame',
    'Every symbol of the documented builtin list exists once with its kind. Called with its documented parameters in a frame, each builtin function reads exactly those parameters at their places, has exactly the documented effect (allocation and release of host memory, byte copy between possibly overlapping ranges, string length, casts, the host definition strings, C stdio calls with these arguments and with error 0 on success; load_module, unload_module and import act on the namespace of the calling module as the namespace functions do, load_module also runs the start function once) and leaves exactly the documented results.',
    ['inputs', 'histories', 'configurations'], 'all argument values in both frame layouts and at all frame alignments; sequences of namespace operations by builtin functions',
    'Tests use some builtin functions with one frame layout and small values, and never let one fail.',
    ['pwart/extfunc.c', 'pwart/hostdef.c', 'pwart/namespace.c', 'include/pwart.h'],
    [('builtin functions', 'pwart/extfunc.c insn_memory_alloc, insn_ref_copy_bytes, insn_load_module, insn_import, insn_fopen'), ('symbol table', 'pwart/pwart.c pwart_get_builtin_symbols')],
    'other', AI, 'Each builtin function is interpreted with abstract frames; its effects and results are compared with the documentation in pwart.h.' + AIN)
row('P19', 'WASI calls reach uvwasi with the WebAssembly arguments translated',
    'The module wasi_snapshot_preview1 offers exactly the 46 WASI preview 1 functions. Each, called with its parameters in a frame of either layout, calls the uvwasi function of the same name exactly once on the initialised uvwasi object, with every scalar parameter in its place, every address turned into a pointer into the bytes the WASI memory has at that moment (addresses are unsigned), and every vector of buffers converted to native buffers; the result is the error code. Argument and environment functions fill the memory as WASI prescribes. Initialising passes on the program arguments and the preopened directory, may be repeated, reports failure, and leaves nothing allocated once the module is deleted.',
    ['inputs', 'histories', 'configurations'], 'all parameter values (symbolic, and addresses on both sides of 2^31), vectors of up to 40 buffers, moved memories, both frame layouts, sequences of initialisations and deletions',
    'The project has no test of the WASI module, and it cannot be run here; a swapped or truncated argument in one of 46 wrappers shows only when that call is made with an unusual value.',
    ['pwart_syslib/libwasi.c', 'include/pwart_syslib.h'],
    [('wrappers', 'pwart_syslib/libwasi.c wasm__fd_read, wasm__path_open, wasm__sock_recv'), ('arguments and environment', 'pwart_syslib/libwasi.c wasm__args_get, wasm__environ_get'), ('life cycle', 'pwart_syslib/libwasi.c pwart_wasi_module_init, pwart_wasi_module_delete')],
    'other', AI, 'Each wrapper is resolved by name and interpreted with an abstract frame and memory; the call that reaches uvwasi is compared with the WASI signature.' + AIN)
row('P20', 'libuv and libffi modules pass calls, callbacks and results through',
    'The modules libuv and libffi offer exactly the functions of their lists. Each passes its parameters to the library function in order and leaves the results of the library, outputs before codes, from the start of the frame. Objects handed out are distinct and large enough, stay valid until their destroy, close, free or delete function is called, and are then released. A closure or C callback can be called any number of times and always runs its WebAssembly function with its own interface, result place, arguments and user data; a new thread runs its function once, with its argument, on a stack of its own. Without libffi all functions do nothing except that ffi_is_enabled gives 0. pwart_syslib_load defines the modules in the namespace (WASI only if it was initialised), pwart_syslib_unload removes those that are there, and afterwards nothing is left allocated or used.',
    ['inputs', 'histories', 'configurations'], 'all parameter and result values, both frame layouts, interfaces of up to 255 parameters, sequences of allocation, preparation, calls and release of several closures, load and unload sequences, with and without libffi',
    'The one test of these modules is not part of the build here and calls a callback once; lifetimes and results at the wrong place of the frame need other histories.',
    ['pwart_syslib/libuv.c', 'pwart_syslib/libffi.c', 'pwart_syslib/pwart_syslib.c', 'include/pwart_syslib.h'],
    [('libuv functions', 'pwart_syslib/libuv.c wasm__uv_dlsym, wasm__uv_thread_create, wasm__uv_mutex_trylock'), ('callbacks', 'pwart_syslib/libffi.c wasmcb__ffi_closurecb, wasmcb__c2wasm_adapter'), ('load and unload', 'pwart_syslib/pwart_syslib.c pwart_syslib_load, pwart_syslib_unload')],
    'other', AI, 'The wrappers are interpreted with abstract frames and models of the library functions that record calls and lifetimes.' + AIN)
row('P21', 'Machine code of each sljit operation does what sljitLir.h describes',
    'For every LIR operation (moves, bit operations, arithmetic, shifts, multiply and divide, conditions, selects, compare and jump, floating point and conversions, unaligned and pair accesses), every kind of operand (register, immediate of any size, absolute, base with displacement, base with index) and every aliasing of destination and sources, in the instruction sets with and without extensions, the x86-64 code generated for it computes exactly the described result and flags, changes no other register or memory, and reads nothing outside its operands.',
    ['inputs', 'programs', 'configurations'], 'all register and memory contents, for operand kinds, aliases, immediates and displacements at the encoding boundaries, two CPU feature sets',
    'The code generator picks an encoding by register number, alias, immediate size and CPU feature; tests run a few combinations with a few values on one CPU.',
    ['sljit/sljit_src/sljitNativeX86_common.c', 'sljit/sljit_src/sljitNativeX86_64.c', 'sljit/sljit_src/sljitLir.c'],
    [('two operand operations', 'sljit/sljit_src/sljitNativeX86_common.c sljit_emit_op2, emit_cum_binary, emit_shift_with_flags'), ('operand encoding', 'sljit/sljit_src/sljitNativeX86_64.c emit_x86_instruction'), ('floating point', 'sljit/sljit_src/sljitNativeX86_common.c sljit_emit_fop1, sljit_emit_fop2')],
    'translation_validation', 'static translation validation: the code generator is interpreted abstractly, the bytes it leaves are decoded into terms and compared with the described operation',
    'Each operation is generated by abstract interpretation of sljit; every path of the bytes, with symbolic registers and memory, must equal the operation.' + AIN)

row('P22', 'Functions built with sljit obey the C ABI; jumps and constants reach targets',
    'For every frame (scratch and saved registers, float registers, local size, options), signature, return kind, call kind (C call, register argument call, tail call, call through memory or a constant address), jump and label layout, fast call, computed jump and rewritten constant or jump, the generated x86-64 function has its arguments where the signature says, calls with the right arguments and a 16-byte aligned stack, returns the described value with every preserved register and the stack pointer restored, keeps its locals and writes nothing else.',
    ['inputs', 'programs', 'configurations'], 'all register, argument and memory contents, for frame sizes, register counts, signatures, jump distances and addresses at the encoding boundaries',
    'Prologues, argument moves and jump lengths depend on combinations of register counts, frame size, signature and distance; tests run a few of them on values that rarely expose a lost register or misaligned stack.',
    ['sljit/sljit_src/sljitNativeX86_64.c', 'sljit/sljit_src/sljitNativeX86_common.c', 'sljit/sljit_src/sljitLir.c'],
    [('prologue and epilogue', 'sljit/sljit_src/sljitNativeX86_64.c sljit_emit_enter, emit_stack_frame_release'), ('calls', 'sljit/sljit_src/sljitNativeX86_64.c sljit_emit_call, sljit_emit_icall, call_with_args'), ('jumps, labels, constants', 'sljit/sljit_src/sljitNativeX86_common.c sljit_generate_code, generate_jump_or_mov_addr, sljit_emit_const')],
    'translation_validation', 'static translation validation: whole generated functions are decoded into terms and compared with a reference interpreter of the LIR program and with the C ABI',
    'Each function is generated by abstract interpretation of sljit; every path of its bytes from entry to return must match the reference and the ABI.' + AIN)
row('P23', 'Executable memory blocks are disjoint, big enough, reused, and locked',
    'In every history of sljit_malloc_exec, sljit_free_exec and sljit_free_unused_memory_exec, with mappings that may fail: a returned block is aligned, at least as large as asked for, inside mapped executable memory and disjoint from every used block; no operation writes into a used block; chunks are unmapped whole, only when no block in them is used, and are not touched afterwards; released memory is used again and can be returned completely; a failed mapping gives NULL and leaves the heap usable; the heap is read and written with the allocator lock held and every return releases it.',
    ['histories', 'inputs', 'fault_sequences'], 'all histories up to the heap states reached with four (thorough: six) used blocks, for sizes around the limits of blocks and chunks',
    'Merging, cutting and releasing depend on the order of earlier calls and on sizes within a few bytes of a limit; tests allocate a handful of functions, and a lost lock or overlap rarely shows.',
    ['sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c', 'sljit/sljit_src/allocator_src/sljitExecAllocatorPosix.c', 'sljit/sljit_src/sljitUtils.c'],
    [('allocation', 'sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c sljit_malloc_exec'), ('release', 'sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c sljit_free_exec, sljit_free_unused_memory_exec'), ('system memory', 'sljit/sljit_src/allocator_src/sljitExecAllocatorPosix.c alloc_chunk, free_chunk')],
    'other', AI, 'The IR of the allocator is interpreted from every heap state found so far, with the contents of used blocks as symbols, an abstract mmap/munmap and lock; new heap states are added until the bound.' + AIN)
row('P24', 'Running out of memory in sljit is reported and never corrupts or leaks',
    'Whichever allocation fails while a compiler is created, any operation is emitted or code is generated, the sljit entry point returns NULL or SLJIT_ERR_ALLOC_FAILED (no executable memory: SLJIT_ERR_EX_ALLOC_FAILED), keeps that error in the compiler and accesses no memory it does not own; every later entry point fails with the same error, no code is generated from such a compiler, and releasing it frees each of its allocations exactly once.',
    ['fault_sequences', 'inputs', 'programs'], 'every operation with every kind of operand, from buffers with every amount of room left, with the failing allocation at each place',
    'Each of several hundred buffer requests needs its own check; a missing one only matters when memory ends within those few bytes, which no test provokes.',
    ['sljit/sljit_src/sljitNativeX86_common.c', 'sljit/sljit_src/sljitNativeX86_64.c', 'sljit/sljit_src/sljitLir.c'],
    [('buffers', 'sljit/sljit_src/sljitLir.c ensure_buf, ensure_abuf, sljit_create_compiler, sljit_free_compiler'), ('encoders', 'sljit/sljit_src/sljitNativeX86_64.c emit_x86_instruction'), ('code generation', 'sljit/sljit_src/sljitNativeX86_common.c sljit_generate_code')],
    'fault_enumeration', AI, 'Every entry point is interpreted from states with little room left and an allocator that fails.' + AIN)
row('P25', 'A compiler rebuilt from its serialized form generates the same code',
    'At any point of any program, serializing an sljit compiler, releasing it, rebuilding it from the buffer and continuing gives the same machine code with every label, jump, address and constant at the same place and in the same order, and emits no false argument error; buffers cut short or of another kind, and allocations that fail, give NULL without reading behind the buffer or leaking.',
    ['programs', 'histories', 'fault_sequences'], 'programs of all families of P22, serialized at the beginning, middle and end (thorough: before every operation), once or twice, and every truncation of their buffers',
    'What must be saved depends on where in a program the cut is; the tests serialize a few programs at a few points, mostly at the end.',
    ['sljit/sljit_src/sljitSerialize.c', 'sljit/sljit_src/sljitLir.c'],
    [('writing', 'sljit/sljit_src/sljitSerialize.c sljit_serialize_compiler'), ('reading', 'sljit/sljit_src/sljitSerialize.c sljit_deserialize_compiler')],
    'other', AI, 'Each program is generated by abstract interpretation with and without a round trip and the code is compared.' + AIN)
row('P26', 'Modules, namespaces and compilers share no hidden static state',
    'Apart from the compile configuration, which only pwart_set_global_compile_config writes, and tables built once on first use with the same contents for every first use, no API call, module load, translation or sljit call changes static storage or memory that only static storage points to. So modules, namespaces and compilers influence each other only through the objects they were given, and the same calls give the same result whatever ran before. The executable heap of sljit is written only under its lock.',
    ['histories', 'inputs', 'configurations'], 'all inputs of the checks of loading, namespaces, host objects, translation and sljit (any history: the state is shown not to change)',
    'A cache or a leaked flag in static storage only shows when two particular modules, namespaces or compilers follow each other; tests use each on its own.',
    ['pwart/pwart.c', 'pwart/modparser.c', 'pwart/namespace.c', 'pwart/extfunc.c', 'sljit/sljit_src/sljitLir.c', 'sljit/sljit_src/sljitNativeX86_common.c'],
    [('configuration', 'pwart/pwart.c pwart_gcfg, pwart_set_global_compile_config'), ('first-use tables', 'pwart/pwart.c builtin_symbols, native_memory'), ('sljit', 'sljit/sljit_src/sljitLir.c compiler_initialized; sljit/sljit_src/sljitNativeX86_common.c cpu_feature_list; sljit/sljit_src/sljitUtils.c get_page_alignment')],
    'other', AI, 'Every store of the interpreted calls is watched; stores that reach static storage in functions that were not interpreted are judged from the IR alone.' + AIN)
row('P27', 'Instances used from several host threads behave as if used one after another',
    'Calls into compiled code, memory.grow and the embedding API made from several threads on shared namespaces, memories and first-use tables give the results of some sequential order, without torn or lost updates.',
    ['schedules'], 'all interleavings of threads', 'Interleavings cannot be enumerated by tests.',
    ['pwart/pwart.c', 'pwart/namespace.c', 'pwart/extfunc.c'], [('shared state', 'pwart/pwart.c builtin_symbols, pwart_gcfg')],
    na='pwart has no locks, atomics or documented thread rules that a lockset or ownership analysis could check against: exclusion is left to the embedder. The part that can be decided, that separate modules and compilers share no mutable state, is P26; the locking of the executable heap is in P23.')
row('P28', 'The other sljit back ends generate code with the documented meaning',
    'On every target sljit supports (x86-32, ARM, RISC-V, MIPS, PPC, S390X, LoongArch) the generated machine code does what sljitLir.h describes, as on x86-64.',
    ['inputs', 'programs', 'configurations'], 'all targets', 'Only the host target is built and tested.',
    ['sljit/sljit_src'], [('back ends', 'sljit/sljit_src/sljitNative*.c')],
    na='pwart at this commit is built for x86-64 only here; deciding the others needs an instruction-set model per target (as x86.py is for x86-64), and cross headers that the sandbox lacks.')
row('P29', 'SIMD and atomic operations of sljit do what sljitLir.h describes',
    'sljit_emit_simd_* and sljit_emit_atomic_* generate code with the described effect for every operand.',
    ['inputs', 'programs'], 'all operands', 'The tests sample operands.',
    ['sljit/sljit_src/sljitNativeX86_common.c'], [('vector operations', 'sljit/sljit_src/sljitNativeX86_common.c sljit_emit_simd_mov')],
    na='pwart never emits these operations; atomicity quantifies over interleavings of hardware threads, which no static argument on one instruction stream bounds, and x86.py has no vector semantics.')
row('P30', 'Translation is linear in the module; compiled code adds no endless work',
    'Loading needs time and memory proportional to the module, and compiled code performs a bounded number of machine instructions per WebAssembly instruction.',
    ['inputs', 'programs'], 'all modules', 'Tests use small modules.',
    ['pwart/wagen.c', 'pwart/modparser.c'], [('single pass', 'pwart/wagen.c pwart_GenCode')],
    na='A bound on time quantifies over run-time work (searches over the operand stack, library calls) that the abstract interpretation cuts at loop bounds; it gives no cost argument.')
