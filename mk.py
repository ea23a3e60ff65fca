#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
PW = 'pwart/'
ROWS = []


def row(id, title, st, over, text, why, files, mech, level=None, technique=None, note=None, na=None, state=(), observe=()):
    ROWS.append(dict(id=id, title=title, statement=st, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique,
                     note=note, na=na, state=state, observe=observe))


TVT = 'static translation validation: abstract interpretation of the translator IR over operand-location partitions, value-numbering comparison of the emitted low-level code with the WebAssembly semantics'
TVN = ' Trusted: clang IR, the stated meaning of the sljit operations, the written WebAssembly semantics; 64-bit target; machine code generation below sljit operations is not part of this check.'

row('P01', 'Numeric instructions compute the WebAssembly function of their operands',
    'The code the compiler generates for every numeric, comparison, conversion, sign-extension and constant instruction yields exactly the WebAssembly-defined result of its operands, at the operand width, whatever the operand values are and wherever the operands come from (constant, parameter, local, global, memory, call or block result). This includes shift-count masking, rotation by zero, bit counts of zero, NaN and signed-zero rules of min, max and copysign. Inputs for which WebAssembly traps are outside.',
    ['inputs', 'programs', 'configurations'], 'all operand values, all operand locations the compiler can choose, register pressure, and both frame alignment / index extension settings',
    'The tests evaluate each instruction on a handful of constants, mostly with operands in one place; neither all 2^64 values nor the operand-location combinations are reachable by running examples.',
    ['pwart/opgen_num.c', 'pwart/opgen_utils.c', 'pwart/extfunc.c'],
    [('opcode to operation mapping', 'pwart/opgen_num.c opgen_GenNumOp'), ('arithmetic helper functions', 'pwart/extfunc.c insn_*')],
    'translation_validation', TVT, 'Every numeric opcode x operand location x pressure is translated abstractly and compared for all operand values at once.' + TVN)
row('P02', 'Loads and stores access the addressed bytes with the right width and sign',
    'The code generated for a load or store accesses exactly the bytes at (start of the selected memory + unsigned index + unsigned offset), with the access width, sign extension and value type of the instruction, and nothing else changes in any memory. This holds for every static offset up to 32 bits, every memory of a multi-memory module, growable, fixed and native memories.',
    ['inputs', 'programs', 'configurations'], 'all addresses, offsets, values; memory kinds and indices; operand locations',
    'Tests use small constant offsets and memory 0; offsets of 2^31 and above, second memories and operand-location combinations are not exercised.',
    ['pwart/opgen_mem.c', 'pwart/opgen_utils.c'],
    [('address computation', 'pwart/opgen_mem.c opgen_GenBaseAddressReg'), ('access selection', 'pwart/opgen_mem.c opgen_GenLoad/opgen_GenStore')],
    'translation_validation', TVT, 'All load/store opcodes with symbolic address, offset and value over seven memory configurations.' + TVN)
row('P03', 'A value on the operand stack or in a local is never lost or overwritten',
    'A local keeps its value until the program assigns it, and an operand that was pushed keeps its value until the program consumes it, whatever instructions, register shortage, spills, local assignments, calls or bit reinterpretations come between. In particular an operand read from a local keeps the old value when the local is assigned later.',
    ['programs', 'inputs', 'configurations'], 'all programs over the operand and local instructions, bounded to the fragment shapes listed in DESIGN.md',
    'Tests check final results of a few functions; losing a value needs a particular combination of register pressure, aliasing and assignment order.',
    ['pwart/opgen_mem.c', 'pwart/opgen_utils.c', 'pwart/opgen_num.c'],
    [('alias search before overwriting', 'pwart/opgen_utils.c stackvalue_FindSvalueUseReg'), ('register allocation and spilling', 'pwart/opgen_utils.c pwart_GetFreeReg, pwart_EmitSaveStack'), ('local assignment', 'pwart/opgen_mem.c opgen_GenLocalSet/Tee')],
    'translation_validation', TVT, 'After every instruction of every fragment all operands and locals are compared with the semantics.' + TVN)
row('P04', 'Calls and returns follow the documented frame layout and keep live values',
    'A direct, indirect or tail call reaches the selected function with a frame that holds its arguments in the documented layout, its results become the top operands in order, and all other live operands and all locals of the caller keep their values. A function returns its results, one or several, in the documented layout at the start of its frame.',
    ['programs', 'configurations', 'inputs'], 'all signatures over the value types up to five parameters and three results, operand locations, frame alignment settings',
    'The tests call a few signatures with the default layout; frame shifting, overlapping moves of several results and live temporaries around calls need particular combinations.',
    ['pwart/opgen_utils.c', 'pwart/opgen_ctl.c', 'pwart/wagen.c', 'include/pwart.h'],
    [('call sequence', 'pwart/opgen_utils.c pwart_EmitCallFunc2'), ('return sequence', 'pwart/opgen_utils.c pwart_EmitFuncReturn'), ('entry sequence', 'pwart/opgen_utils.c pwart_EmitFuncEnter')],
    'translation_validation', TVT, 'The frame content at every emitted call, tail call and return is compared with the documented layout and the operand values.' + TVN)
row('P05', 'Branches transfer control and carried values as WebAssembly defines',
    'Structured control instructions take the path the condition or index value selects (full 32-bit condition, unsigned table index with default), continue at the right instruction, and leave exactly the operands WebAssembly defines: those below the label plus the carried result. A branch to the outermost label returns from the function.',
    ['programs', 'inputs', 'configurations'], 'nesting shapes of block, loop, if/else, br, br_if, br_table, return, select over all condition sources',
    'Tests contain few nesting shapes and conditions of value 0 or 1; carried values over discarded operands and branches out of the function are not tested.',
    ['pwart/opgen_ctl.c'],
    [('branch generation', 'pwart/opgen_ctl.c opgen_GenBr/BrIf/BrTable/If/Else/End'), ('fused compare flags', 'pwart/wagen.c pwart_GenCode')],
    'translation_validation', TVT, 'All paths of the emitted code are followed together with the structured semantics.' + TVN)
row('P06', 'Memory accesses after a call or memory.grow use the current memory',
    'Compiled code never accesses a growable memory through an address taken before an instruction that may have moved that memory (calls of any kind and memory growth), on any control-flow path, including loops and joins where only one side contains the call.',
    ['programs', 'histories'], 'all orders of accesses, calls, growth and joins in the fragment shapes; single and several memories',
    'A moved memory only shows when reallocation really moves it and the freed block is reused; tests cannot force that on each path.',
    ['pwart/opgen_utils.c', 'pwart/opgen_mem.c', 'pwart/wagen.c'],
    [('base register reload after calls', 'pwart/opgen_utils.c pwart_EmitCallFunc2'), ('base caching', 'pwart/wagen.c pwart_PrepareFunc')],
    'translation_validation', TVT, 'Every emitted access is checked to go through a base read after the last possible move on its path.' + TVN)
row('P07', 'Locals that may be read before being assigned start as zero',
    'With zero-initialisation of locals enabled, which is the default, every read of a non-parameter local that is not preceded by an assignment on the executed path yields zero in its full width, for every local type and wherever the compiler keeps the local.',
    ['programs', 'configurations'], 'all local types and positions; all arrangements of reads and assignments over nested blocks, branches and loops in the fragment shapes',
    'Uninitialised frame memory and registers are usually zero in a test run, so a missing initialisation does not show.',
    ['pwart/wagen.c', 'pwart/opgen_utils.c'],
    [('reads-before-assignment scan', 'pwart/wagen.c pwart_PrepareFunc'), ('initialisation at entry', 'pwart/opgen_utils.c pwart_EmitFuncEnter')],
    'translation_validation', TVT, 'An unassigned local is a distinct unknown unless the emitted code wrote it; each read on each path is compared with zero.' + TVN)
row('P08', 'Global and table instructions access exactly the addressed entry',
    'Global reads and writes access the selected global at its full width, table get, set, size, copy and fill, and function references access exactly the selected entries of the selected table or the selected function, for every table and global index and every operand source.',
    ['programs', 'inputs', 'configurations'], 'all global types, table indices, entry indices and operand locations',
    'Tests use one table and few globals; wrong entries or widths show only with particular indices and values.',
    ['pwart/opgen_mem.c', 'pwart/opgen_misc.c', 'pwart/extfunc.c'],
    [('global access', 'pwart/opgen_mem.c opgen_GenGlobalGet/Set'), ('table access', 'pwart/opgen_mem.c opgen_GenTableGet/Set')],
    'translation_validation', TVT, 'All value types and two tables with symbolic indices.' + TVN)
row('P09', 'Bulk memory and memory size instructions act on the right memory and range',
    'memory.copy, memory.fill, memory.size and memory.grow act on the memories named by the instruction with exactly the given destination, source, value and byte count, for every combination of memories, and table.copy and table.fill likewise for tables.',
    ['programs', 'inputs', 'configurations'], 'all combinations of two memories or tables, symbolic ranges, operand locations',
    'Tests copy and fill within one memory with small constants.',
    ['pwart/opgen_misc.c', 'pwart/extfunc.c'],
    [('bulk instruction generation', 'pwart/opgen_misc.c opgen_GenMemoryCopy, opgen_GenMemoryFill'), ('runtime helpers', 'pwart/extfunc.c insn_memoryfill, insn_ref_copy_bytes')],
    'translation_validation', TVT, 'Effects of the emitted helper calls are derived from the helpers\' IR in the caller\'s frame.' + TVN)

exec(open(os.path.join(D, 'mk_more.py')).read()) if os.path.exists(os.path.join(D, 'mk_more.py')) else None

with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
    for r in ROWS:
        p = dict(id=r['id'], title=r['title'], statement=r['statement'], quantifier=dict(over=r['over'], text=r['text']), why_tests_cant=r['why'],
                 anchors=dict(files=r['files'], mechanism=[dict(name=a, where=b) for a, b in r['mech']], hook_needed=None))
        if r['state']: p['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in r['state']]
        if r['observe']: p['anchors']['observe_at'] = list(r['observe'])
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd='python3 -c "import ctypes"', hooks=dict(guard='PWART_VERIF', enable='no hooks are needed: nothing in /repo is guarded', source_commits=[]),
         checks=[], not_applicable=[], notes='All checks are static: they read the LLVM IR of /repo\'s current sources and never run them. See DESIGN.md.')
for r in ROWS:
    if r['na']: m['not_applicable'].append(dict(property=r['id'], reason=r['na'])); continue
    m['checks'].append(dict(property=r['id'], quick_cmd='python3 check.py %s --tier quick' % r['id'], thorough_cmd='python3 check.py %s --tier thorough' % r['id'],
                            technique=r['technique'], level=r['level'], level_note=r['note']))
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(D, 'MANIFEST.json'), 'a').write("\n")
print(len(ROWS), 'properties', len(m['checks']), 'checks')
