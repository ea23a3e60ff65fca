"""Property id -> check."""
from . import tvcheck, frags, hostcheck, loadprops, hostprops, decode, nsprops, growcheck, frameprops, sysprops, mixed, sjprops, sjmem, sjser, statics
from .frags import *


def tv(pid, families, floor, *note):
    return lambda tier: tvcheck.run(pid, tier, families, floor, list(note))


def host(pid, families, floor, rule, *notes):
    return lambda tier: hostcheck.run(pid, tier, families, floor, rule, notes)


PROPS = {
    'P01': tv('P01', [numeric, bitclasses, consts], 100000, "out-of-range float to integer conversions and integer division traps are outside (the project documents no traps)"),
    'P02': tv('P02', [memory], 50000, "no bounds checks are part of this design; addresses are compared, not bounded"),
    'P03': tv('P03', [locals_, mixed.family('locals', 700)], 50000),
    'P04': tv('P04', [calls, mixed.family('calls', 900)], 50000),
    'P05': tv('P05', [control, mixed.family('control', 900)], 50000),
    'P06': tv('P06', [moved, mixed.family('moved', 1500)], 20000),
    'P07': tv('P07', [zeroinit], 5000),
    'P08': tv('P08', [globals_, tables], 10000),
    'P09': tv('P09', [bulk], 5000),
    'P10': decode.run,
    'P11': host('P11', [loadprops.instantiation], 6000, "the instance left by loading a module description, seen through the public header, has exactly the described functions, tables, memories, globals, exports and start function"),
    'P12': host('P12', [hostprops.imports], 2500, "every import is requested from the resolver with its own module name, field name and kind, and is bound to exactly what the resolver (or the builtin table) provides; unsatisfiable imports are refused"),
    'P13': host('P13', [nsprops.namespaces], 40000, "after every operation on a namespace, finding modules, resolving symbols and the attach/detach callbacks follow a reference list of named modules; nothing is left or used after the namespace was deleted"),
    'P14': host('P14', [frameprops.frames], 12000, "the frame helpers place and read every value at the offset a WebAssembly function uses for it; stacks, calls and the configuration do what pwart.h says"),
    'P15': lambda tier: tvcheck.run('P15', tier, [growcheck.growing], 20000, ["the size of a memory never exceeds 65536 pages or its maximum before the operation (P11)"], cls=growcheck.TV15,
        rule="every path of the function that the code emitted for memory.grow calls, in the state of that call: result, new size, storage, clearing and failure as the WebAssembly semantics demand"),
    'P16': host('P16', [hostprops.release], 700, "after the documented release calls no object allocated by pwart is left, none is released twice and none is used after its release"),
    'P17': host('P17', [hostprops.rejection], 220, "a module that must be refused gives a readable error; the process is not ended and no memory outside the live objects is accessed"),
    'P18': host('P18', [frameprops.builtins], 20000, "every builtin function, called through its builtin symbol with a frame of the documented signature, has the documented effect and results",
                "fopen and fclose are required to give error 0 when they succeed"),
    'P19': lambda tier: hostcheck.run('P19', tier, [sysprops.wasi], 12000, "every function of the wasi_snapshot_preview1 module, called with a frame, calls the uvwasi function of its name once with its parameters in order (addresses translated, vectors converted) and leaves the error code as its result; arguments, environment and life cycle as documented",
        ["uvwasi is not installed: its declarations in pwsa/stubs/uvwasi.h are part of the trusted base"], make=sysprops.makeboth),
    'P20': lambda tier: hostcheck.run('P20', tier, [sysprops.native], 8000, "every function of the libuv and libffi modules calls the library with its parameters in order and leaves the library's results; callbacks and threads run their function with the given data any number of times; loading and unloading the modules changes the namespace accordingly and leaves nothing allocated",
        ["uvwasi is not installed: its declarations in pwsa/stubs/uvwasi.h are part of the trusted base"], make=sysprops.makeboth),
    'P21': sjprops.run21,
    'P22': sjprops.run22,
    'P23': sjmem.run23,
    'P24': sjmem.run24,
    'P25': sjser.run25,
    'P26': statics.run26,
}
