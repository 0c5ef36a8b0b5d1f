"""The checks: which harness, profiles and targets decide which property."""
from .driver import Build, Check, NPROC
from .targets import ALL, TARGETS, CROSS, OLD, SIMD, SIMD_ONLY, ATOMIC_ONLY
import os

KNAME = ["", "op0", "op1", "op2", "op2u", "op2r", "shift_into", "prefetch", "op_flags", "select", "label", "jump", "cmp", "op2cmpz", "fcmp",
         "setflags", "fop1", "fop2", "fop2r", "fset32", "fset64", "fcopy", "fselect", "mem", "mem_update", "fmem", "fmem_update",
         "local_base", "op_addr", "const", "fast_call", "fast_enter", "fast_return", "ijump", "icall", "pad", "aligned_label"]

IR_RULE = ('A case is a generated program (1-60 instructions, weighted by the profile, operands, values and displacements boundary biased) that is emitted, run on the '
           'target and compared with a reference interpreter written from sljitLir.h: all registers, float registers, two memory arenas, helper call log. '
           'Non-trivial: the program holds at least two different instruction kinds besides moves and its text was not seen before in the same job.')
IR_ASSUME = ['qemu user mode executes the cross targets as the CPU does', 'the reference interpreter in harness/ir.h is right (it agrees with 19 targets)',
             'the host compiler compiles the C reference (soft float and shifts) correctly']


META_FLAGS = ['-DSLJIT_HAVE_CONFIG_PRE=1']
# the other two executable allocators of the host: code and data are at different addresses, or pages are never writable and executable
PROT, WX = '-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1', '-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1'


def tier_secs(quick, thorough):
    """CPU seconds of one job worker slot: total wall seconds of the search."""
    return thorough if os.environ.get('VERIF_TIER') == 'thorough' else quick


def weight(t, native_w):
    return native_w if TARGETS[t].native else 0.4 if t in OLD else 1.0


def far(c, quick, thorough):
    """Codes at chosen addresses which call and jump to each other."""
    per_target(c, 'farfuzz', [('x', 1)], quick=quick * 0.6, thorough=thorough * 0.6, flags=META_FLAGS, incs=['-I@H/guard'])
    per_target(c, 'farfuzz', [('x', 1)], quick=quick * 0.4, thorough=thorough * 0.4, flags=[PROT], tag='prot')


FAR_RULE = (' farfuzz: two to five codes at chosen addresses with distances around the ranges of the jump instructions (2^13 to 2^46, region boundaries) which call each other, jump to labels of each other, '
            'load addresses and are patched to each other; results against a model.')
SPAN_RULE = (' spanfuzz: up to ten blocks in one code with gaps around the ranges of the jump instructions of the target (128 bytes to 128 MB), visited in a random order through all kinds of jumps and '
             'fast calls, with untaken jumps and label addresses; result against a model. Non-trivial there: a gap of at least 100 bytes and two visited blocks.')


def ir_check(pid, profiles, quick=44, thorough=720, far_part=0):
    c = Check(pid, rule=IR_RULE + (FAR_RULE + SPAN_RULE if far_part else ''), extra_names=KNAME + FAR_NAMES[:2] + ['long codes run'] if far_part else KNAME, assumptions=IR_ASSUME)
    if far_part:
        far(c, quick * far_part * 0.5, thorough * far_part * 0.4)
        per_target(c, 'spanfuzz', [('n', 4), ('h', 1)], quick=quick * far_part * 0.5, thorough=thorough * far_part * 0.6, flags=META_FLAGS, incs=['-I@H/guard'])
        quick, thorough = quick * (1 - far_part), thorough * (1 - far_part)
    total = tier_secs(quick, thorough) * NPROC * 1000.0
    wsum = sum(w for _, w in profiles)
    # native x86 is ten times faster, it needs less time
    tw = {t: weight(t, 0.6) for t in ALL}
    tsum = sum(tw.values())
    for prof, w in profiles:
        for t in ALL:
            ms = total * (w / wsum) * tw[t] / tsum
            k = 1 if ms < 60000 else int(ms / 60000) + 1
            for s in range(k):
                c.add(Build('irfuzz', t), prof, ms / k, s)
    return c.run().finish()


def per_target(c, harness, profiles, quick=44, thorough=720, targets=None, native_w=0.6, seg=60000, **bargs):
    """Jobs of a harness which runs on all targets."""
    total = tier_secs(quick, thorough) * NPROC * 1000.0
    ts = targets or ALL
    tw = {t: weight(t, native_w) for t in ts}
    tsum = sum(tw.values())
    wsum = sum(w for _, w in profiles)
    for prof, w in profiles:
        for t in ts:
            ms = total * (w / wsum) * tw[t] / tsum
            k = 1 if ms < seg else int(ms / seg) + 1
            for s in range(k):
                c.add(Build(harness, t, **bargs), prof, ms / k, s)
    return c


def c06():
    c = Check('C06', rule='A case is a tree of one to five generated functions (random signatures, register counts, local sizes, kept registers, call convention) which call '
              'each other and C functions through all call forms, including tail calls; the arguments, results, saved registers, locals, stack pointer and stack alignment seen at '
              'each step are compared with a simulation. Non-trivial: at least one call or tail call was executed and the case was not seen before in the same job.',
              extra_names=['call of generated function', 'call of C function', 'set_context', 'split', 'get return address', 'return', 'return_to', 'tail calls', 'register argument convention',
                           'kept registers', 'no argument', 'one argument', 'two arguments', 'three arguments', 'four arguments', '', 'call', 'rewritable call', 'icall imm', 'icall reg', 'icall [abs]',
                           'icall [reg+off]', 'icall [sp+off]', 'icall [reg+reg<<n]'],
              assumptions=['qemu user mode executes the cross targets as the CPU does', 'gcc compiles the C stubs according to the ABI of the target'])
    return per_target(c, 'abifuzz', [('x', 1)]).run().finish()


FAR_NAMES = ['far transfer programs run', 'far transfer programs run after patching', '']
META_NAMES = KNAME + FAR_NAMES + ['serializations', 'truncated buffers refused', 'caller buffers (rwx)', 'caller buffers (two views)', 'attached blocks', 'labels, jumps, constants checked',
                                  'failed allocations', '', 'verbose runs', '', 'programs without a patchable site', 'constants patched', 'jumps patched', 'calls patched',
                                  'read-only buffer programs']
META_ASSUME = ['qemu user mode executes the cross targets as the CPU does', 'the reference interpreter in harness/ir.h is right (the C01-C05 checks compare it with all targets)']


ARG_FN = ('enter context ret retvoid retto op0 op1 op2 op2u op2r shift opsrc opdst fop1 fop2 fop2r fset32 fset64 fcopy label alabel jump call cmp fcmp cmpz ijump icall opflags select fselect mem memup fmem '
          'fmemup vmov vrep vlmov vlrep vext vsign vop2 aload astore lbase const opaddr custom').split()


def meta(pid, kinds, rule, quick=46, thorough=720, wx=(), prot=True, alt=False, gen=0, far_part=0):
    c = Check(pid, rule=rule + (FAR_RULE if far_part else ''), extra_names=META_NAMES + (['generated codes of call sequences'] if gen else []), assumptions=META_ASSUME)
    if gen:
        per_target(c, 'argfuzz', [('g', 1)], quick=quick * gen, thorough=thorough * gen, flags=META_FLAGS, incs=['-I@H/guard'])
        quick, thorough = quick * (1 - gen), thorough * (1 - gen)
    if far_part:
        far(c, quick * far_part, thorough * far_part)
        quick, thorough = quick * (1 - far_part), thorough * (1 - far_part)
    if alt:
        per_target(c, 'metafuzz', kinds, quick=quick, thorough=thorough, flags=META_FLAGS + ['-DVT_ALT=1'], incs=['-I@H/pre'], hsrcs=['alt1.c', 'alt2.c'])
    else:
        q = 0.6 if prot else 1.0
        per_target(c, 'metafuzz', kinds, quick=quick * q, thorough=thorough * q, flags=META_FLAGS, incs=['-I@H/pre'])
        if prot:
            per_target(c, 'metafuzz', kinds, quick=quick * 0.4, thorough=thorough * 0.4, flags=META_FLAGS + [PROT], incs=['-I@H/pre'], tag='prot')
        for k, w in kinds:
            if k in wx:
                c.add(Build('metafuzz', 'x86_64', flags=META_FLAGS + [WX], tag='wx', incs=['-I@H/pre']), k, tier_secs(quick, thorough) * 1000.0 * 0.2, 0)
    return c.run().finish()


_META_RULE = (' The programs are those of C01-C05 (with guards, loops, helper calls, rewritable jumps, constants, labels with alignment). Non-trivial: the program holds at least two '
              'different instruction kinds besides moves and was not seen before in the same job.')


def c07():
    return meta('C07', [('patch', 2), ('robuf', 1)], 'A case is a program with rewritable jumps, calls and constants; after generation a random history of sljit_set_jump_addr and sljit_set_const is '
                'applied, after each step the program is run again and compared with the interpretation of the program as patched, and the bytes outside of the generated code are compared. '
                'Kind robuf: random read-only buffers, their labels, addresses and references, content written after generation and read back by generated code.' + _META_RULE, wx=['patch', 'robuf'], far_part=0.2)


def c08():
    return meta('C08', [('ser', 1)], 'A case is a program which is serialized and deserialized at random points of its emission (also repeatedly and at the end); the resulting function must behave as the '
                'interpreter says, all labels, jumps and constants are matched with those of the unbroken compilation and their addresses used, the first compiler is finished and compared as well, and every '
                'truncation, damaged signature or version must be refused.' + _META_RULE)


def c10():
    return meta('C10', [('oom', 1)], 'A case is a program and a random walk over its allocation requests (heap and executable memory): each chosen request fails once; the operation in progress must return the '
                'documented failure, all later operations must return the same error without requests or emission, no code is returned, and every block is released at the end (tracked allocator with guard zones).'
                + _META_RULE, wx=['oom'])


def c16():
    return meta('C16', [('det', 1)], 'A case is a program that is compiled several times: again in the process, after other compilations, with verbose output, and by two other builds of the sources (without debug '
                'checks, argument checks and verbose; with all of them and other buffer sizes). All must give the same bytes at the same address.' + _META_RULE, alt=True)


def c11():
    c = Check('C11', rule='A case is a sequence of 2-40 calls of all public emitter functions with valid arguments, some of which are then damaged (single bits, limits, other registers, other operand kinds, swapped '
              'arguments). An oracle written from the documentation classifies each call: valid calls must be accepted, the first invalid one must give the bad argument error without emission, and all following calls, '
              'including code generation, the same error. Calls whose validity the documentation leaves open are not generated. Non-trivial: the case has at least two calls and was not seen before in the same job.',
              extra_names=['accepted calls', 'generated codes', 'refused invalid calls', 'refused calls after an error', 'ended by an unsupported instruction', '', '', '']
              + ['invalid ' + x for x in ARG_FN], assumptions=['qemu user mode executes the cross targets as the CPU does'])
    return per_target(c, 'argfuzz', [('x', 1)], flags=META_FLAGS, incs=['-I@H/guard']).run().finish()


def c18():
    return meta('C18', [('buf', 1)], 'A case is a program generated into caller supplied buffers: every size around the needed one, alignments, one view and two views, against guard pages or canaries; also the size '
                'reported for the code and all addresses of labels, jumps, constants and read-only buffers. The placed code is run and compared with the interpreter.'
                ' Profile g of argfuzz: sequences of all emitter calls without a return, jumps bound to labels and addresses at all distances; the code must stay inside of its block.' + _META_RULE, gen=0.3)


def c19():
    return meta('C19', [('lists', 1)], 'A case is a program with attached memory blocks requested at random points of the emission; all labels, jumps and constants made by the program must be enumerated in order with '
                'their indices, targets, user data and addresses before and after code generation, and all blocks must be aligned, disjoint and keep their content.' + _META_RULE, wx=['lists'])


WRAPS = ['-Wl,' + ','.join('--wrap=' + x for x in 'mmap mmap64 munmap mprotect ftruncate ftruncate64 open open64 close mkostemp mkostemp64 memfd_create madvise posix_madvise'.split())]
MEMFD = ['-DHAVE_MEMFD_CREATE=1', '-D_GNU_SOURCE=1']


def c09():
    c = Check('C09', rule='A case is a history of 3-200 operations on an executable allocator: allocations (sizes around block, page and chunk limits, sizes of existing gaps, huge sizes), code generation, '
              'frees, release of unused memory, rewriting and running blocks, and injected failures of the system calls. After each operation every live block must be inside of its mappings, '
              'disjoint, aligned and keep its content in both views. Non-trivial: the history allocates and frees, and was not seen before in the same job.',
              extra_names=['allocations', 'generated functions', 'frees', 'failed allocations (injected)', 'refused sizes', 'allocations without new mapping', 'releases of unused memory', '', '', '', '', '', 'executed blocks'],
              assumptions=['qemu user mode keeps several mappings of one file coherent after the mapping is made executable again'])
    total = tier_secs(40, 720) * NPROC * 1000.0
    jobs = [(t, f, g) for t, w in (('x86_64', 4), ('x86_32', 2), ('s390x', 1), ('mips32el', 1), ('armv7', 1), ('ppc32', 1))
            for f, g in (([], ''), ([PROT], 'prot'), ([PROT] + MEMFD, 'memfd'), ([WX], 'wx')) for _ in range(w)]
    n = {}
    for t, f, g in jobs:
        k = n[(t, g)] = n.get((t, g), -1) + 1
        c.add(Build('allocfuzz', t, flags=f, links=WRAPS, tag=g), 'x', total / len(jobs), k)
    return c.run().finish()


def c15():
    c = Check('C15', rule='A case is a history of 2-120 operations on up to four utility stacks: allocation (sizes around page limits, invalid sizes, injected failures of memory requests), resizes (any byte '
              'position, page limits, the whole reserve, outside of it), writes and releases; pages given back to the system lose their content at once. After each operation the fields, content and '
              'mappings of all stacks are compared with a model. Non-trivial: the history has resizes, and was not seen before in the same job.',
              extra_names=['stacks', 'released stacks', 'refused sizes', 'failed allocations (injected)', 'other refused', 'extended', 'reduced', 'refused resizes'],
              assumptions=['Linux variants only: the Windows variant cannot be built here'])
    total = tier_secs(30, 600) * NPROC * 1000.0
    jobs = [(t, f, g, k) for t, w in (('x86_64', 4), ('x86_32', 2), ('s390x', 1), ('mips32el', 1), ('armv7', 1), ('loongarch64', 1))
            for f, g in (([], ''), (['-DSLJIT_UTIL_SIMPLE_STACK_ALLOCATION=1'], 'simple')) for k in range(w)]
    for t, f, g, k in jobs:
        c.add(Build('stackfuzz', t, flags=META_FLAGS + f, incs=['-I@H/pre'], links=WRAPS, tag=g), 'x', total / len(jobs), k)
    return c.run().finish()


def c12():
    kinds = SIMD_KINDS
    c = Check('C12', rule='A case is a sequence of 1-12 vector operations (all public vector emitters, all register and element sizes including unsupported ones, register and memory operands with all addressing modes, '
              'alignments and the test form) on random contents. Each must be accepted or refused as its test form says, the test form must not emit, and all vector and word registers and the memory (placed '
              'at inaccessible pages) are compared with a model; status flags must be kept. Non-trivial: at least one vector operation was executed and the case was not seen before in the same job.',
              extra_names=kinds + ['unsupported ' + x for x in kinds] + ['only the result of the test form', '', '', '', '', '', '', '', '', '', 'operations executed'],
              assumptions=['qemu user mode executes the vector instructions as the CPU does', 'targets without vector support by sljit (ARMv6, PPC, MIPS, RISC-V without V) are not checked'])
    return per_target(c, 'simdfuzz', [('x', 1)], quick=40, targets=SIMD).run().finish()


def c13():
    o = 'mov mov_u8 mov_s8 mov_u16 mov_s16 mov_u32 mov_s32 mov32 mov_p mov32_u8 mov32_s8 mov32_u16 mov32_s16'.split()
    c = Check('C13', rule='Profile s: a case is a sequence of 1-12 atomic transactions of one thread (all widths and forms, all register choices and aliasings, several ways to compute the new value, expected values which differ '
              'from the memory for compare and swap, all consumers of the stored flag); memory, all registers, locals and flag results are compared with a model. Profile t: 2-8 threads (generated loops, and '
              '__atomic operations of the C compiler) update counters which are shared or neighbours; at the end all updates must be there and no other byte changed. Non-trivial: at least one transaction '
              '(two threads) was executed and the case was not seen before in the same job.',
              extra_names=['transactions', 'unsupported forms', 'expected value differs', 'compare and swap without atomic load', 'threads', 'cases with threads', 'updates by threads', '', '', '']
              + ['operation ' + x for x in o] + ['', 'default form', 'compare and swap form', 'load and store form', '', '', ''] + ['consumer ' + x for x in 'none jump flags flags32 or and select fselect fselect32 flags_mem xor'.split()],
              schedule=True, assumptions=['qemu user mode executes atomic instructions as the CPU does (it compares values, so a foreign change which is undone is not noticed)', 'compare and swap of LoongArch (LAMCAS) cannot be executed by the installed qemu'])
    ts = ALL + list(ATOMIC_ONLY)
    per_target(c, 'atomfuzz', [('s', 1)], quick=24, thorough=400, targets=ts, links=['-pthread'])
    return per_target(c, 'atomfuzz', [('t', 1)], quick=20, thorough=320, targets=ts, native_w=3, links=['-pthread']).run().finish()


def c17():
    wr = ['-pthread', '-Wl,--wrap=mmap,--wrap=mmap64,--wrap=munmap']
    c = Check('C17', rule='A case has 2-6 threads which start together, each with a list of 1-160 operations on its own objects: code generation (also with serialization), running, patching constants and the target of a '
              'call, frees, raw executable blocks, utility stacks, release of unused memory and feature queries. Every result must be the one of a single thread (model of the generated function, answers of a '
              'process with one thread), generated code and raw blocks must keep their content, and all mappings must be given back. Profile f: each case is a new process (first use of everything); profile x: '
              'one process, also under the thread sanitizer. Non-trivial: every thread has at least two operations and the case was not seen before in the same job.',
              extra_names=['generated functions', 'calls', 'constant changes', 'call target changes', 'frees', 'raw blocks', 'content checks', 'utility stacks', 'releases of unused memory', 'feature queries', '', '', 'threads'],
              schedule=True, assumptions=['schedules are those of the operating system (and of qemu user mode)', 'the thread sanitizer runs after the first use of each lazily computed constant'])
    per_target(c, 'thrfuzz', [('f', 1)], quick=18, thorough=280, native_w=3, links=wr)
    total = tier_secs(18, 280) * NPROC * 1000.0
    for flags, tag, t in (([], '', 'x86_64'), ([], '', 'x86_32'), ([PROT], 'prot', 'x86_64'), ([PROT], 'prot', 'x86_32'), ([WX], 'wx', 'x86_64')):
        for k, prof in enumerate('fx'):
            c.add(Build('thrfuzz', t, flags=flags, links=wr, tag=tag), prof, total / 18, 40 + k)
    for flags, tag in (([], 'tsan'), ([PROT], 'tsanprot'), ([WX], 'tsanwx')):
        for k in range(3 if tag == 'tsan' else 2):
            c.add(Build('thrfuzz', 'x86_64', flags=flags + ['-fsanitize=thread'], links=['-fsanitize=thread'] + wr, tag=tag), 'x', total / 13, 50 + k)
    return c.run().finish()


def c14():
    c = Check('C14', rule='A case is a pattern of the supported syntax (or a damaged one) with flags, a text given in random pieces (with resets, zero length pieces, both match functions), and sometimes a failing memory '
              'request. After each piece the match is compared with a reference (backtracking-free set matcher on the syntax tree) run on the text so far; invalid patterns must be refused; pattern and text end at an '
              'inaccessible page. Non-trivial: a match of at least one character was found and the case was not seen before in the same job.',
              extra_names=['results with a match', 'results without a match', 'match calls', 'finished matches', 'resets', 'refused patterns', 'failed memory requests'],
              assumptions=['qemu user mode executes the cross targets as the CPU does', 'patterns whose expansion has more than 250 terms are not compared'])
    return per_target(c, 'regexfuzz', [('x', 1)], quick=40, native_w=1.6, flags=META_FLAGS, incs=['-I@H/pre'], srcs=['sljit_src/sljitLir.c', 'regex_src/regexJIT.c']).run().finish()


def c20():
    c = Check('C20', rule='A case is a function with a random number of registers and 1-40 items: custom machine instructions built by an independent encoder from the reported register indices (move and add of word '
              'registers, moves of floating point and vector registers, all temporary registers, the stack register), addressing forms with a support query, feature queries, index queries of all registers and '
              'compare queries. The machine code of the function must be the same without the queries, queries must not change the compiler, query and emission must agree, and the results are compared with a '
              'model of registers and memory. Shares of the vector and atomic harnesses compare all test forms with the real emission. Non-trivial: more than one item (one operation) and not seen before in the same job.',
              assumptions=['qemu user mode executes the cross targets as the CPU does', 'whether a supported feature is implemented efficiently is not observable and not judged', 'there is no support query for the unaligned and the paired memory accesses'])
    k = 'move add|temporary register|move of float registers|move of vector registers|temporary vector register|update form|float update form|feature|all indices|compare|stack register|plain|float pair'.split('|')
    c.extra_names_by = {'queryfuzz': ['custom move', 'custom add'] + k[1:] + [''] * 9 + ['64 bit vectors', '128 bit vectors', '256 bit vectors'],
                        'simdfuzz': ['vector ' + x for x in SIMD_KINDS] + ['unsupported vector ' + x for x in SIMD_KINDS] + ['only the test form'],
                        'atomfuzz': ['transactions', 'unsupported atomic forms']}
    per_target(c, 'queryfuzz', [('x', 1)], quick=30, thorough=480, targets=ALL + list(SIMD_ONLY))
    per_target(c, 'simdfuzz', [('x', 1)], quick=8, thorough=120, targets=SIMD)
    return per_target(c, 'atomfuzz', [('s', 1)], quick=8, thorough=120, targets=ALL + list(ATOMIC_ONLY), links=['-pthread']).run().finish()


SIMD_KINDS = 'load store replicate lane_load lane_store lane_replicate extend sign op2 shuffle'.split()
CHECKS = {
    'C01': lambda: ir_check('C01', [('int', 3), ('mix', 1)]),
    'C02': lambda: ir_check('C02', [('flags', 3), ('mix', 1)]),
    'C03': lambda: ir_check('C03', [('mem', 3), ('mix', 1)]),
    'C04': lambda: ir_check('C04', [('float', 3), ('mix', 1)]),
    'C05': lambda: ir_check('C05', [('ctrl', 3), ('mix', 1)], quick=54, far_part=0.45),
    'C06': c06,
    'C07': c07,
    'C08': c08,
    'C09': c09,
    'C10': c10,
    'C11': c11,
    'C12': c12,
    'C13': c13,
    'C14': c14,
    'C15': c15,
    'C16': c16,
    'C17': c17,
    'C18': c18,
    'C19': c19,
    'C20': c20,
}


def run(pid):
    return CHECKS[pid]()

_T = 'random program generation, differential execution against a reference interpreter on 19 targets, shrinking'
_N = 'Sampling: no violation in the generated programs. Trusts qemu user mode for the cross targets and the reference interpreter.'
LEVELS = {k: ('exploration', _T, _N) for k in ('C01', 'C02', 'C03', 'C04', 'C05')}
LEVELS['C06'] = ('exploration', 'random call tree generation, model simulation of frames and registers, C functions on the other side of the ABI, 19 targets, shrinking', _N)
_M = 'Sampling: no violation in the generated cases. Trusts qemu user mode for the cross targets and the reference interpreter.'
LEVELS['C07'] = ('exploration', 'random programs and random patch histories, model interpretation of the patched program, 19 targets and 3 allocators, shrinking', _M)
LEVELS['C08'] = ('exploration', 'random programs serialized at random points, round trip against unbroken compilation and reference interpreter, truncation of buffers, 19 targets, shrinking', _M)
LEVELS['C10'] = ('fault_enumeration', 'random programs, single allocation failures at all (at most 24 chosen) requests of each, tracked allocator, state invariant after the failure, 19 targets and 3 allocators, shrinking', _M)
LEVELS['C16'] = ('exploration', 'metamorphic: random programs compiled in several contexts and builds must give equal bytes, 19 targets, shrinking', _M)
LEVELS['C18'] = ('exploration', 'random programs generated into random caller buffers with guard zones, reference interpreter, 19 targets, shrinking', _M)
LEVELS['C19'] = ('exploration', 'random programs with attached blocks, list enumeration against a model, 19 targets and 3 allocators, shrinking', _M)
LEVELS['C09'] = ('exploration', 'model-based random histories of the executable allocators with injected system call failures, shrinking',
                 'three allocators (and memfd) on six targets; Linux allocators only')
LEVELS['C11'] = ('exploration', 'random call sequences with damaged arguments, validity oracle written from the documentation, 19 targets, shrinking', 'Sampling: no violation in the generated sequences. Calls whose validity is not documented are not judged.')
LEVELS['C15'] = ('exploration', 'model-based random histories of the utility stack with injected failures and dropped pages, shrinking', 'both Linux variants on six targets')
LEVELS['C12'] = ('exploration', 'random vector operation sequences, element-wise reference model, agreement of the test form, guard pages, 12 targets and CPU variants, shrinking', _M)
LEVELS['C13'] = ('exploration', 'random transactions against a model of registers and memory, concurrent random update loops with conservation of updates, 20 targets and CPU variants, shrinking', _M + ' Schedules are those of the operating system.')
LEVELS['C14'] = ('exploration', 'random patterns and texts in random pieces, reference matcher on the syntax tree, failing memory requests, 19 targets, shrinking', _M.replace('reference interpreter', 'reference matcher'))
LEVELS['C17'] = ('exploration', 'random operation lists in concurrently started threads, comparison with single-threaded results and content checks, thread sanitizer, new process per case for first use, shrinking', 'Sampling: no violation in the generated cases. Schedules are those of the operating system; thread sanitizer on x86-64 only.')
NOT_CLAIMED = {}
LEVELS['C20'] = ('exploration', 'random sequences of queries and of custom instructions built from reported indices, agreement of query and emission, equal code without the queries, model of registers, 24 targets and CPU variants, shrinking', _M.replace('reference interpreter', 'model'))
