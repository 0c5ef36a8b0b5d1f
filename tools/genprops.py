#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text is easy to edit)."""
import json, os
B = ["sljit_src/sljitLir.c", "sljit_src/sljitNativeX86_common.c", "sljit_src/sljitNativeX86_64.c", "sljit_src/sljitNativeX86_32.c",
     "sljit_src/sljitNativeARM_64.c", "sljit_src/sljitNativeARM_32.c", "sljit_src/sljitNativeARM_T2_32.c",
     "sljit_src/sljitNativeRISCV_common.c", "sljit_src/sljitNativeRISCV_64.c", "sljit_src/sljitNativeS390X.c",
     "sljit_src/sljitNativeLOONGARCH_64.c", "sljit_src/sljitNativePPC_common.c", "sljit_src/sljitNativePPC_64.c",
     "sljit_src/sljitNativePPC_32.c", "sljit_src/sljitNativeMIPS_common.c", "sljit_src/sljitNativeMIPS_64.c", "sljit_src/sljitNativeMIPS_32.c"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Integer instructions compute the documented result on every target",
  "For every supported target CPU, operand form (register, immediate of any value, absolute, based, indexed or stack-local memory) and word or 32-bit width, an integer move, extension, arithmetic, logic, shift, rotate, double-shift, multiply-add, long-multiply, divide, bit-count or byte-reverse instruction stores exactly the value documented for it in its destination. No other register, local variable or memory byte that the instruction is not documented to change is changed. This holds for any sequence of such instructions.",
  ["inputs", "programs", "configurations"], "all sequences of integer instructions, all operand forms, aliasings, immediates, offsets and input values, on each of the targets",
  "The unit tests fix a few hundred operand/value combinations; encoder paths are chosen by immediate ranges, register numbers, aliasing of destination and sources and cached temporaries, of which there are far too many to list.",
  B, [("operand checking and generic dispatch", "sljitLir.c sljit_emit_op0/op1/op2/op2r/shift_into"), ("per target instruction selection", "sljitNative*.c emit_op, emit_single_op, emit_op_imm, load_immediate, getput_arg"), ("x86 operand encoder", "sljitNativeX86_*.c emit_x86_instruction")],
  ["register, local and memory contents after the generated function ran"])
p("C02", "Status flags follow the documented condition and survive as documented",
  "When an instruction asks for the zero flag and/or one variable flag, every later conditional jump, flag-to-value operation or conditional select that consumes the flag before it becomes undefined behaves exactly as the documented condition (zero, unsigned and signed compare, overflow, carry) of that operation and width. Carry-consuming add and subtract chains compute the exact multi-word result, combined compare-and-jump and operate-and-jump forms take the branch exactly when the documented condition holds, and instructions documented not to modify flags leave them usable.",
  ["inputs", "programs", "configurations"], "all flag-setting operations, flag combinations, operand forms and values, all consumers, all flag-preserving instructions placed in between, on each target",
  "Targets without a flag register recompute flags with instruction sequences that depend on operand form, immediates and destination aliasing; unit tests exercise a handful of values for each.",
  B, [("status flag tracking", "sljitLir.c sljit_set_current_flags, check_sljit_emit_* flag checks"), ("flag materialisation", "sljitNative*.c emit_add_sub/emit_single_op flag paths, get_cc, sljit_emit_jump, sljit_emit_op_flags, sljit_emit_select, sljit_emit_cmp, sljit_emit_op2cmpz")],
  ["branch taken or not", "values produced by flag consumers"], [("last_flags", "flags that are valid at the current emission point", "struct sljit_compiler")])
p("C03", "Memory operands access exactly the addressed bytes",
  "Every load and store (plain operand, unaligned or register-pair form, pre- or post-update form, integer or floating point) transfers exactly the bytes at the effective address given by its operand, for every base, index, shift and displacement value, including stack locals, and extends or truncates the value as documented. Neighbouring bytes are never modified, update forms change the base register exactly as documented, and the address of the local area obtained by the program designates the same bytes as stack-relative operands.",
  ["inputs", "programs", "configurations"], "all access widths, signedness, addressing forms, displacement values, alignments, register choices and aliasings of data, base and index registers, on each target",
  "Displacements are encoded in a different way in every range and size class; the tests use a few displacements for each width.",
  B, [("address encoders", "sljitNative*.c emit_op_mem, getput_arg, emit_x86_instruction, sljit_emit_mem, sljit_emit_mem_update, sljit_emit_fmem"), ("local offset adjustment", "sljitLir.c ADJUST_LOCAL_OFFSET, sljit_get_local_base")],
  ["memory images around the accessed address, destination and base registers"])
p("C04", "Floating point instructions give IEEE results with documented conversions",
  "For single and double precision, moves, add, subtract, multiply, divide, negate, absolute value, copy-sign, constant setting, bit copies between integer and floating point registers, and precision conversions give the IEEE-754 round-to-nearest result for every operand (NaN for NaN). Conversions to integers round towards zero and saturate as the target's documented constants say, conversions from signed and unsigned integers are correctly rounded, and floating point compares, jumps and selects obey the documented ordered or unordered condition. No other floating point or integer register or memory byte is altered.",
  ["inputs", "programs", "configurations"], "all operations, operand forms, register aliasings, bit patterns (zeros, denormals, infinities, NaNs, halfway cases, integer boundaries), on each target",
  "The tests fix a small number of values; conversions are software sequences on many targets and compare conditions are composed from several hardware conditions.",
  B, [("float emitters", "sljitNative*.c sljit_emit_fop1/fop2/fop2r, sljit_emit_fop1_conv_*, sljit_emit_fop1_cmp, sljit_emit_fset32/64, sljit_emit_fcopy, sljit_emit_fselect"), ("conversion constants", "sljitConfigInternal.h SLJIT_CONV_*_FLOAT")],
  ["floating point registers bit patterns, integer results, branches taken"])
p("C05", "Jumps, labels and fast calls always transfer control to their target",
  "For every layout of code, label positions (aligned or not), jump distances and jump kinds (conditional, unconditional, compare-and-jump, fast call, indirect, jump to an address), execution continues at exactly the label the jump was bound to, in both directions and in loops. Fast calls return right behind the call with all registers and locals intact, label address operations yield the address that the label has in the final code, and aligned labels have the requested alignment.",
  ["programs", "inputs", "configurations"], "all control flow graphs, block sizes (from empty to beyond every short-branch range), jump kinds and bindings, on each target",
  "Jump shortening and far-jump rewriting depend on the exact distances; tests have a few small functions and two large ones.",
  B, [("jump shortening and relocation", "sljitNative*.c detect_*jump_type, reduce_code_size, generate_code loops, sljit_emit_jump/ijump/fast_enter"), ("label handling", "sljitLir.c set_label, sljit_emit_aligned_label, sljit_emit_op_addr")],
  ["order in which blocks are executed", "values of label addresses"])
p("C06", "Function entry, calls and returns obey the ABI",
  "For every signature (argument types, counts, return type), number of scratch and saved integer and floating point registers, local size and entry option, the generated function receives each argument value in the documented register and returns the documented value to its caller. Saved registers of the caller keep their values, locals of the function are private and correctly sized and aligned, and calls to C functions or other generated functions (direct, indirect, tail call, register-argument convention, return to an address) pass arguments and results exactly and preserve saved registers and locals.",
  ["inputs", "programs", "configurations"], "all signatures, register counts, local sizes, options and call kinds, argument values, nesting of calls, on each target",
  "The number of combinations of types, counts, options and frame sizes is in the millions; tests fix some dozens.",
  B, [("prologue and epilogue", "sljitNative*.c sljit_emit_enter, sljit_set_context, emit_stack_frame_release, sljit_emit_return*"), ("argument marshalling", "sljitNative*.c call_with_args, softfloat_call_with_args, hardfloat_call_with_args, sljit_emit_call, sljit_emit_icall")],
  ["argument values seen by callee", "return values", "callee saved registers seen by a generated caller"])
p("C07", "Runtime patching changes exactly the patched target or constant",
  "After code generation, setting the address of a rewritable jump or call, setting the value of a patchable constant, or writing a read-only buffer makes later executions use exactly the new value, any number of times and for every value the operation kind can represent. Nothing else in the generated code changes behaviour, and until patched the initial target or value is used.",
  ["histories", "inputs", "configurations"], "all histories of patch operations with arbitrary values on programs with any number of patchable jumps, constants and buffers, on each target and executable allocator",
  "The immediate is spread over several instruction fields; tests patch each kind with two or three values.",
  B, [("patching", "sljitNative*.c sljit_set_jump_addr, sljit_set_const, emit_const, inline_set_const"), ("read-only buffers", "sljitLir.c sljit_read_only_buffer_start_writing/end_writing, sljitNative*.c sljit_emit_aligned_label")],
  ["value or path observed by running the code after each patch"])
p("C08", "Serialization round trip yields an equivalent compiler",
  "Serializing a compiler at any point of code emission and deserializing the buffer yields a compiler that can continue emission and code generation and produces a function equivalent to the one produced without the round trip, with labels, jumps and constants preserved in their original order. The original compiler is not affected, and a truncated buffer or one produced for another configuration is rejected without reading out of bounds or leaking.",
  ["programs", "histories", "inputs", "configurations"], "all emission histories, all cut points for the round trip (also repeated), all prefixes of the buffer",
  "Tests serialize five hand-written programs at one point each.",
  ["sljit_src/sljitSerialize.c"] + B, [("serialized formats", "sljitSerialize.c sljit_serialize_compiler/sljit_deserialize_compiler"), ("state re-setup", "sljitSerialize.c header fields, sljitNativeARM_32.c constant pool")],
  ["code bytes and behaviour with and without the round trip", "return value for truncated buffers"])
p("C09", "Executable allocator returns disjoint, usable, exact memory",
  "For every history of executable allocations, frees and releases of unused memory, every live block is big enough for the requested size, aligned, writable and executable through the documented mapping, overlaps no other live block, and keeps its content until it is freed. Freed memory can be allocated again, after freeing everything and releasing unused memory nothing stays reserved, and an allocation failure is reported as such without damaging live blocks. This holds for each of the built-in executable allocators.",
  ["histories", "inputs", "fault_sequences", "configurations"], "all histories of allocate/free/release with arbitrary sizes, with mapping failures at any point, for each allocator",
  "The tests allocate only what the compiled functions need, one after the other.",
  ["sljit_src/allocator_src/sljitExecAllocatorCore.c", "sljit_src/allocator_src/sljitExecAllocatorPosix.c", "sljit_src/allocator_src/sljitProtExecAllocatorPosix.c", "sljit_src/allocator_src/sljitWXExecAllocatorPosix.c"],
  [("block list with boundary tags", "sljitExecAllocatorCore.c sljit_malloc_exec/sljit_free_exec/sljit_free_unused_memory_exec"), ("dual mapping", "sljitProtExecAllocatorPosix.c"), ("W^X switching", "sljitWXExecAllocatorPosix.c")],
  ["returned addresses", "block contents", "mappings created and removed"])
p("C10", "Allocation failure gives a sticky clean error, never a crash or leak",
  "If any single memory or executable memory allocation request made while creating a compiler, emitting, serializing or generating code fails, the operation in progress reports the failure through its documented return value, and every later operation on that compiler keeps returning the same error without emitting anything. No step crashes, no code is returned, and freeing the compiler releases everything that was allocated.",
  ["fault_sequences", "programs"], "all programs and every allocation request index at which memory can run out",
  "Tests never fail an allocation.",
  ["sljit_src/sljitLir.c", "sljit_src/sljitSerialize.c"] + B[1:], [("sticky error", "sljitLir.c PTR_FAIL_IF_NULL, FAIL_IF, CHECK_ERROR, ensure_buf, ensure_abuf"), ("release", "sljitLir.c sljit_free_compiler")],
  ["return codes", "allocator call log"], [("error", "sticky error code", "struct sljit_compiler")])
p("C11", "Argument checking accepts all valid and rejects invalid instructions",
  "With argument checking compiled in, an instruction that violates a documented argument rule (wrong register, register out of the entered range, bad operand kind, unsupported flag, bad option bits, size or alignment out of range, or a condition on a status flag which the last flag setting instruction did not provide) is answered with the bad-argument error, which stays set, without crashing or emitting code. A sequence that obeys the documented rules is never rejected by it, and argument checking never changes the code generated for a valid sequence.",
  ["inputs", "programs", "configurations"], "all single-argument corruptions of all valid instruction sequences, and all valid sequences",
  "The test program is compiled without argument checking, and contains only valid sequences.",
  ["sljit_src/sljitLir.c"], [("checks", "sljitLir.c check_sljit_* functions, function_check_src/dst/src_mem/is_reg")], ["return code of the emitter", "generated code bytes"])
p("C12", "SIMD operations act lane-wise as documented",
  "Every vector move, replicate, lane move, lane replicate, lane extension, sign-mask and binary vector operation that a target reports as supported gives, for every element size, register size, alignment, operand form and lane index, exactly the documented content of each lane, including the zeroing option, and stores exactly the documented number of bytes. Other vector, floating point or integer registers are not changed.",
  ["inputs", "programs", "configurations"], "all supported combinations of operation, register size, element size, element type, lane index, alignment and operand form, with arbitrary lane contents",
  "Tests use one or two lane indices and data patterns for each form.",
  B, [("SIMD emitters", "sljitNative*.c sljit_emit_simd_mov/replicate/lane_mov/lane_replicate/extend/sign/op2")], ["vector register contents stored to memory", "integer results", "support queries"])
p("C13", "Atomic load/store pairs are atomic read-modify-write operations",
  "An atomic load followed by an atomic store to the same address stores the new value exactly when the stored-flag reports success, in each supported width and form, and only touches the bytes of that width. When the location was changed in between to a different value the store fails and memory keeps the foreign value. Concurrent read-modify-write loops built from such pairs never lose an update.",
  ["schedules", "inputs", "configurations"], "all widths, register choices and values, and all interleavings of concurrent threads",
  "Tests run the operations single-threaded with a few values.",
  B, [("atomic emitters", "sljitNative*.c sljit_emit_atomic_load/store")], ["memory content, stored flag, final counter values"])
p("C14", "The regex engine finds the documented match for every pattern and text",
  "For every pattern of the supported syntax and every subject string, compiling and matching with the example regex engine reports exactly the match that the pattern's meaning defines (earliest begin and, by default, its documented preference for the end; with the match-begin, match-end and non-greedy flags the documented variant), or no match if none exists. The outcome does not depend on how the text is split among continued match calls, and malformed patterns are rejected with an error without crashing or reading out of bounds.",
  ["inputs", "histories", "configurations"], "all patterns and texts, all flag combinations, all splittings of the text, on each target",
  "The test program checks around sixty fixed pattern and text pairs.",
  ["regex_src/regexJIT.c", "regex_src/regexJIT.h", "sljit_src/sljitLir.c"], [("parser and state machine generator", "regexJIT.c parse, generate_transitions, generate_search_states, regex_compile"), ("match loop", "regexJIT.c regex_continue_match, regex_continue_match_debug, regex_get_result")],
  ["match begin, end, id, finished state"])
p("C15", "Stack utility keeps bounds, contents and failure atomicity",
  "For every history of allocate and resize operations on the utility stack, the usable region has exactly the requested size, lies inside the reserved maximum, is readable and writable, and keeps the bytes that stay inside it across resizes. Invalid requests (start size above the maximum, zero size, resize outside of the reserved area) are refused and change nothing, and releasing the stack releases the whole reservation.",
  ["histories", "inputs", "fault_sequences"], "all histories of resize requests with arbitrary sizes",
  "Only the regex engine uses it, always growing by a constant.",
  ["sljit_src/sljitUtils.c"], [("stack", "sljitUtils.c sljit_allocate_stack/sljit_stack_resize/sljit_free_stack")], ["struct fields and memory contents"], [("start/end/min_start/top", "bounds of the stack", "struct sljit_stack")])
p("C16", "Code generation is deterministic and not changed by diagnostics",
  "The same sequence of instructions compiled again in the same process, in another process, after other compilations, with verbose output enabled, or from a build with or without debug and argument checks gives the same machine code when placed at the same address. Verbose output itself never fails, crashes or alters the emitted code.",
  ["programs", "configurations", "histories"], "all instruction sequences, build option combinations and compile histories",
  "Tests compile each function once and never compare code.",
  B, [("state initialisation", "sljitLir.c sljit_create_compiler, emit_enter/set_context resets"), ("verbose output", "sljitLir.c check_* verbose parts")], ["generated code bytes, verbose text"])
p("C17", "Independent compilers can be used from several threads",
  "When several threads create compilers, generate, run and free code at the same time, each thread observes exactly the results it would observe alone, executable memory handed to different threads never overlaps, and no data race or lost block exists in the shared executable allocator or lazily initialised global state.",
  ["schedules", "histories", "configurations"], "all interleavings of threads that compile, run and free code",
  "Apart from a small multi-threaded smoke run the tests are single-threaded.",
  ["sljit_src/sljitLir.c", "sljit_src/allocator_src/sljitExecAllocatorCore.c", "sljit_src/allocator_src/sljitProtExecAllocatorPosix.c", "sljit_src/allocator_src/sljitWXExecAllocatorPosix.c", "sljit_src/sljitUtils.c"],
  [("allocator lock", "sljitUtils.c SLJIT_ALLOCATOR_LOCK"), ("feature detection", "sljitNativeX86_common.c get_cpu_features")], ["results of each thread", "race detector reports"])
p("C18", "Code buffers and reported sizes bound everything that is written",
  "Generated code lies completely inside the memory provided for it: a caller-supplied buffer is never written outside of its bounds, a buffer that is too small gives an error and no code, and the reported generated size covers all code, label, jump, constant and read-only-buffer addresses. The code behaves the same for every buffer address, executable offset or allocator the buffer comes from.",
  ["inputs", "programs", "configurations"], "all programs, buffer sizes around the needed size, buffer placements near and far from the jump targets and executable offsets",
  "Tests use the default allocator almost exclusively, and never look at bytes behind the code.",
  B, [("size estimation", "sljitNative*.c reduce_code_size, sljitLir.c allocate_executable_memory, sljit_get_generated_code_size")], ["guard bytes around the buffer, reported sizes and addresses, behaviour"])
p("C19", "Compiler-attached memory and object lists stay valid and ordered",
  "Small memory blocks requested from a compiler are word aligned, of the requested size, disjoint from each other, untouched by emission and code generation, and stay valid until the compiler is freed; sizes outside of the documented range are refused. Walking the labels, jumps and constants of a compiler enumerates exactly those created, in creation order, with the documented indices, targets, user data and addresses after code generation.",
  ["histories", "inputs"], "all emission histories interleaved with memory requests of all sizes",
  "Tests allocate a couple of blocks and enumerate lists only for the serialization examples.",
  ["sljit_src/sljitLir.c", "sljit_src/sljitSerialize.c"], [("fragment allocator", "sljitLir.c sljit_alloc_memory, ensure_abuf"), ("object lists", "sljitLir.c sljit_get_first_label/jump/const, sljit_get_next_*, sljit_get_*_index")], ["addresses, contents, enumeration results"])
p("C20", "Capability queries and native register indices match what is emitted",
  "Each query that asks whether an instruction form, CPU feature, compare type or register exists answers the same as what emission of that form then does: a reported form is emitted and works, an unreported one is refused with the unsupported error and leaves the compiler as documented, and a query alone emits nothing. The machine register index reported for each register designates the register that holds its value, so custom machine instructions using these indices act on it.",
  ["inputs", "configurations"], "all instruction forms with a query option, all features, all compare types, all registers on each target",
  "Tests call the queries only to skip unsupported cases.",
  B, [("queries", "sljitNative*.c sljit_has_cpu_feature, sljit_cmp_info, sljit_get_register_index, SLJIT_MEM_SUPP/SLJIT_SIMD_TEST/SLJIT_ATOMIC_TEST paths"), ("custom instructions", "sljitNative*.c sljit_emit_op_custom")], ["return values, code size before and after, behaviour of custom instructions"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
