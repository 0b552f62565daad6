#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification of the compiled C++ (own verification-condition generator over LLVM IR of /repo, z3/cvc5)'
PROPERTIES = []
CLAIMED = {}
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, claimed=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPERTIES.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                           anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if claimed:
        CLAIMED[id] = claimed
    else:
        NA[id] = na


prop('P01', 'The interpreter computes every arithmetic operation exactly',
     'Every arithmetic, bitwise, comparison, shift, power and conversion operation of the bytecode interpreter stores exactly the value the language defines (two\'s complement wrap-around for int and long, IEEE operations for float and double) in its destination, whatever the operands, and changes no other register or memory. '
     'A division or remainder with a zero divisor, or one that overflows, stops the program with an error instead of producing a value or crashing the host.',
     ['inputs'], 'all operand values (including INT_MIN, -1, 0, NaN bit patterns), all register numbers and both operand sources (register or memory)',
     'Tests run a few operand pairs per operation; wrong results at extreme operands, aliasing of source and destination registers and clobbered neighbours are only visible for particular values and register assignments.',
     ['NULLC/Executor_RegVm.cpp'], [('instruction semantics', 'ExecutorRegVm::RunCode, one case per opcode'), ('integer power', 'VmIntPow, VmLongPow')],
     claimed='Each opcode is a contract on RunCode (started at one instruction, ended at the next): all operand values, register numbers and both operand sources, no bound; integer power by loop invariant. Floating-point operations are uninterpreted functions shared by contract and code; pow() and fmod() are trusted libm.')
prop('P02', 'Interpreter memory operations touch exactly their operand',
     'Every load, store, copy, fill, address and index operation of the interpreter transfers exactly the bytes of its operand between registers and memory, with the sign or zero extension the type defines, and changes nothing else. '
     'An access through a null reference and an array index outside [0, size) stop the program with an error before anything is read or written.',
     ['inputs'], 'all addresses, offsets, sizes, indices, element sizes and values, and all register numbers',
     'Each test indexes and dereferences a few places; an off-by-one bound, a wrong extension or a store that is one byte too wide only shows for boundary values.',
     ['NULLC/Executor_RegVm.cpp'], [('loads, stores, copies', 'ExecutorRegVm::RunCode rviLoad*, rviStore*, rviMov*, rviMemCopy, rviSetRange'), ('indexing', 'rviIndex, rviGetAddr, rviIndexUnsized')],
     claimed='Same contracts as P01 for the memory opcodes; memory is modelled as one flat byte-addressed space disjoint from the register file. References passed to a store are assumed to designate memory of the language (address >= 64 KiB or null), as the compiler guarantees.')
prop('P03', 'Interpreter control transfer goes exactly where the program says',
     'Every jump, conditional jump, call, return, pointer conversion and no-op instruction continues at exactly the instruction the program designates, taking a conditional branch exactly when the tested value is (non-)zero, with registers and memory unchanged except for the defined results. '
     'A call hands the callee exactly the argument values, a zero-filled frame and its own registers, and returns with the caller\'s registers, frame and call stack as they were, apart from the result. '
     'Execution never continues after an instruction that reported an error.',
     ['inputs'], 'all register contents, argument and result values, stack depths, branch targets and callee outcomes',
     'Tests only exercise branch decisions on small truth values; a 64-bit condition tested as 32 bits, or a result returned into the wrong register width, needs particular values.',
     ['NULLC/Executor_RegVm.cpp'], [('control flow', 'ExecutorRegVm::RunCode rviJmp, rviJmpz, rviJmpnz, rviCall, rviCallPtr, rviReturn, rviConvertPtr'), ('calls', 'ExecutorRegVm::ExecCall, ExecReturn, ExecConvertPtr')],
     claimed='Same contracts as P01 for the control opcodes; ExecCall, ExecReturn and ExecConvertPtr are used through contracts that are themselves discharged. Their microcode lists are verified up to two argument and two result operations (a bound on the list, none on the values). ExecNop and native callees are assumed contracts; ExecCheckedReturn is proved under P10.')
prop('P04', 'Optimiser rewrites preserve what the program computes',
     'Every rewrite of the compiler\'s intermediate form - folding of constant operations, algebraic and address peephole rewrites, removal of dead instructions and branches - leaves the value, the memory access, the branch decision and the trap of the rewritten instruction and of its users exactly as the unoptimised program defines them. '
     'An operation that stops the program (division by zero or overflow, index out of range) is never folded away, an instruction that is used or has an effect is never removed, and use lists and block lists stay consistent.',
     ['inputs'], 'all constants (including NaN, -0.0, INT_MIN, LLONG_MIN), all operand values and all positions in a block',
     'Optimiser bugs miscompile programs only for particular constants (INT_MIN, -0.0, a zero divisor in dead code, a carry in a folded address) that example programs do not contain.',
     ['NULLC/InstructionTreeVm.cpp', 'NULLC/InstructionTreeVmCommon.cpp'], [('constant folding', 'RunConstantPropagation'), ('algebraic rewrites', 'RunPeepholeOptimizations'), ('dead code', 'RunDeadCodeElimiation'), ('use lists', 'ReplaceValueUsersWith, VmValue::AddUse, RemoveUse')],
     claimed='Per rewrite rule: the real pass is run on a real instruction graph whose constants and operand values are symbolic, and the meaning before and after is compared for all values. Bound: the graph shapes listed in contracts/vmopt.py (one instruction, operands up to two levels, one user).')
prop('P05', 'Lowering to register code preserves every operation',
     'The register instructions (and call/return microcode) the compiler emits for each operation of its intermediate form compute exactly the value, perform exactly the memory accesses, calls and returns with exactly the argument values and result registers, and take exactly the branch that the operation defines, for every constant and every placement of the operands. '
     'They change no register that still holds a needed value, and the register allocator never hands out a register that is in use or loses a free one. '
     'Final code carries every instruction unchanged, with block, function and variable arguments replaced by their exact addresses.',
     ['inputs'], 'all constants, operand values and register contents, all operand kinds (register, constant, local or global variable, struct, fat pointers), operands that die or stay alive, reused registers, any constant table',
     'Selection of an immediate, memory or constant-table form and the reuse of registers depend on particular constants (INT_MIN, zero offsets, constants already in the table) and on lifetimes that example programs rarely combine.',
     ['NULLC/InstructionTreeRegVmLower.cpp'], [('instruction selection', 'LowerInstructionIntoBlock, TryLowerConstantToMemory, LowerConstantIntoBlock'), ('register allocation', 'RegVmLoweredFunction::GetRegister, FreeRegister, AllocateRegister, TransferRegisterTo, CompleteUse'), ('constant table', 'RegVmLoweredModule::FindConstant'), ('code output', 'RegFinalizeInstruction, RegFinalizeFunction, RegVmFinalizeModule')],
     claimed='Per instruction kind, operand kinds and lifetime scenario: LowerInstructionIntoBlock is run on a graph with symbolic constants and operand values; the emitted instructions are executed by the semantics proved in P01-P03 and compared with the meaning of the operation, for all values. Bounds: the listed operand kinds and six register-allocation scenarios; assignment of registers across blocks is not covered. Constant table search: any table, by loop invariant.')
prop('P06', 'Linking a module relocates every reference and changes nothing else',
     'Linking a compiled module into a program appends its code, constants, types, functions, variables, locals, source positions and symbols to those of the program, with every reference renumbered: variables of the module and of its imports address the memory of the module that defines them, jumps and function entries move with the code, constants with the constant table, type and function numbers designate the same type and function as in the module (also inside argument and result lists), prototypes designate their implementation. '
     'Records that were there before stay as they are, except types that the module completes. Tables grow without losing content, and code that is running stays in memory. Missing imports, types redefined with another size, functions defined twice and host functions without implementation are reported as errors.',
     ['inputs', 'programs'], 'all instructions and operands, all sizes of code and constants of the program, all positions of the imported variables, all kinds of types and functions, full and partly filled tables',
     'Tests link a few modules in one order; an opcode left out of the relocation or a table appended with the wrong base shows only for programs with several modules that both use it.',
     ['NULLC/Linker.cpp', 'NULLC/Linker.h', 'NULLC/Bytecode.cpp'], [('linking of a module', 'Linker::LinkCode'), ('tables', 'FastVector')],
     claimed='Linker::LinkCode under contract together with the table accessors of Bytecode.cpp and FastVector. A module of the contracts has one instruction with arbitrary fields and one to three records per table (bounded), argument and result lists have at most two operations (bounded); program tables have symbolic sizes for code, constants, symbols, source and variables in turn.')

prop('P07', 'Compile-time evaluation gives the same value as running the code',
     'Whenever the compiler evaluates an operation on constants at compile time - arithmetic, comparison, shift, power, logical operation, conversion, increment and decrement, variable load and store, indexing, member access, conditional - the value it substitutes is exactly the value the same operation produces at run time, for every operand type. '
     'An operation that would stop the program at run time (division or remainder by zero or overflowing, null dereference, index out of range) is reported as not evaluable and yields no value, and never crashes the compiler.',
     ['inputs'], 'all constant operands of every arithmetic type (including INT_MIN, LLONG_MIN, NaN, char and short boundaries), all indices and stored values',
     'A constant expression that evaluates differently from the same expression on variables is only visible for particular operand values and type combinations, and tests sample few of them.',
     ['NULLC/ExpressionEval.cpp'], [('operators', 'EvaluateBinaryOp, EvaluateUnaryOp, EvaluatePrePostModify'), ('conversions', 'EvaluateCast'), ('storage', 'CreateLoad, CreateStore, EvaluateVariableAccess, EvaluateAssignment, EvaluateArrayIndex, EvaluateMemberAccess'), ('conditional', 'EvaluateConditional')],
     claimed='Per operation and operand type: Evaluate is run on an expression node whose literal values are symbolic, and the literal it returns is compared with the run-time meaning of the operation (the semantics proved in P01 and P04), for all values; integer power by loop invariant. Control flow (loops, user function calls) of the evaluator is not covered.')
prop('P08', 'std.memory accesses are exact and never leave the buffer',
     'Every std.memory read, write, copy, set and compare either stops the program with an error and changes nothing, exactly when the addressed range is not inside the given array (negative offset or count, range past the end, empty array or null destination), or transfers exactly the addressed bytes and changes nothing else.',
     ['inputs'], 'all array contents and lengths, offsets, counts, sizes and values, including overlapping ranges',
     'The acceptance condition depends on 32-bit lengths, offsets and counts whose interesting values (overflowing products, last partial element, overlap) are far outside what sample tests exercise.',
     ['NULLC/includes/memory.cpp'], [('range check', 'check_access'), ('typed reads and writes', 'read_*, write_*, read_into_*'), ('bulk operations', 'copy, set, compare')],
     claimed='All 49 functions of the module, all inputs, no bound. Allocation and error reporting are replaced by their contracts.')
prop('P09', 'Native code generated for an instruction behaves like the interpreter',
     'For every register instruction the x86-64 code generator handles, the native instructions it requests have exactly the effect the interpreter has for the same instruction: the same result register value at full width, the same memory access, the same wrap-around, truncation, sign extension, NaN ordering, shift and division behaviour. '
     'A call stores its arguments, records the return address, enters the function or the wrapper and puts every result where the program expects it; a return leaves every result, releases the frame and registers, and a checked return or pointer conversion consults its check first. '
     'A fault or an error call happens exactly when the interpreter stops with an error, before anything is changed. No register of the program is changed except the result, only allocatable machine registers are overwritten, and a machine register that is assumed to hold a value does hold it.',
     ['inputs'], 'all register contents, memory contents, operands and constants, all placements of the operands in the register file (including the same register used twice), every state of the register cache and every combination of values already held in machine registers',
     'Native code differs with the content of the register cache, so an instruction is generated in many variants; a wrong variant or a width mistake shows only for particular values in a particular register history that tests rarely produce.',
     ['NULLC/CodeGenRegVm_X86.cpp'], [('one generator per instruction', 'GenCodeCmd*'), ('register choice', 'CodeGenGenericContext::GetReg, GetXmmReg, LockReg, FindRegAtMemory'), ('interpreter', 'InstructionTreeRegVm semantics of ExecutorRegVm::RunCode')],
     claimed='Per GenCodeCmd function: the real generator is run with symbolic operands and a symbolic register cache; the requested instructions are executed on a reference x86-64 machine from an arbitrary state and compared with the interpreter semantics proved in P01-P03, for all values. The emit and encoding layers are assumed.')


prop('P10', 'A reference or array returned by a function stays valid',
     'When a function returns a reference or an array that designates its own locals (directly or through other functions), the caller receives a reference to a heap copy of the whole object - of its real type for extendable classes, of all elements for arrays - with the same content, which the garbage collector knows with its real type and element count. '
     'A reference to anything that outlives the function is returned unchanged. The garbage collector does not run while the copy is made and works again afterwards; if the copy cannot be allocated the program stops with an error. The interpreter and native code agree.',
     ['inputs', 'fault_sequences'], 'all object types, sizes and positions on the stack, all array lengths, all returned values (local, caller local, heap, null), success and failure of the allocation',
     'Tests return references to single ints; a copy of the wrong size, a wrong type for the collector or a collector left disabled shows only for larger types, after a later collection or under memory pressure.',
     ['NULLC/Executor_RegVm.cpp', 'NULLC/CodeGenRegVm_X86.cpp'], [('interpreter', 'ExecutorRegVm::ExecCheckedReturn'), ('native code', 'CheckedReturnWrap')],
     claimed='Both functions under contract, for all type tables, stacks and values; allocation and the collector switch are replaced by their contracts. Which returns are checked is decided by the lowering (P05) and requested by ExecReturn (P03) and GenCodeCmdReturn (P09).')
prop('P11', 'The machine code written is exactly the instruction that was requested',
     'For every operation and operand form the native back end requests, the bytes written to the code buffer decode to exactly that operation, on exactly the requested operand size, registers, memory operand (base, index, scale, displacement) and immediate, and occupy exactly the space reported. '
     'Every jump leads to the instruction or label it names, the recorded address of every virtual machine instruction is where its code starts, and markers that are not instructions write nothing.',
     ['inputs'], 'all registers in every operand position (including R8-R15 and the registers with special encodings), all displacements and immediates, all scales, all jump distances',
     'A wrong prefix, a missing special case or an immediate that is one value too large for its short form shows only for one register or one boundary value, which a test program reaches only by accident of register allocation.',
     ['NULLC/Translator_X86.cpp'], [('encoder', 'x86TranslateInstructionList'), ('address forms', 'encodeAddress, encodeRex, encodeRegister'), ('jumps', 'x86Jcc, x86JMP, x86CALL, x86AddLabel, x86SatisfyJumps')],
     claimed='Per operation and operand form: the real encoder runs with symbolic registers, displacements and immediates, and the bytes it writes are decoded by an independent decoder and compared with the request, for all values. That the generators request no other form is an obligation of P09.')

prop('P12', 'Built-in functions are exact and never leave their operands',
     'Every function of the built-in run-time library works on exactly the objects it is given, whatever their type, size, length and contents: duplicate, replace, swap, equal, assign and array_copy transfer or compare all bytes of the operand and no other; string comparison, concatenation and conversion of integers to strings give the exact text in a new string that fits it; auto ref and auto[] conversion, indexing and growth check type and length; dynamic type tests follow the class hierarchy exactly. '
     'A new object or array has the requested size, is zero, carries the header the collector needs, and is refused when it would exceed the memory limit. A null operand, a mismatch or a failed allocation is an error of the script and never a crash of the host or an access outside of the operands.',
     ['inputs'], 'all values, types, sizes, lengths and contents of the operands, null operands, every outcome of an allocation, all memory accounting states',
     'The functions are generic: size and layout come from run-time type tables. Boundary lengths (empty string, size at a pool boundary, element just past the end), the most negative integer, failing allocations and aliased operands occur for single values among 2^32 and are not what a test program writes.',
     ['NULLC/StdLib.cpp'], [('objects', 'DuplicateObject, ReplaceObject, SwapObjects, CompareObjects, AssignObject, CopyArray'), ('strings', 'StrEqual, StrNEqual, StrConcatenate, StrConcatenateAndSet, ShortToStr, IntToStr, LongToStr'), ('auto ref and auto[]', 'FunctionRedirect, Typeid, AutoArrayAssign, AutoArrayAssignRev, AutoArrayIndex, AutoArray, AutoArraySet, RefCompare'), ('allocation', 'AllocObject, AllocArray'), ('closures and classes', 'CloseUpvalue, IsDerivedFrom, AssertCoroutine')],
     claimed='Per built-in function: its result, its effect on memory and its errors, for all operands and both outcomes of an allocation; loops by invariants (class chain, digits by unrolling to the fixed width). AllocObject and AllocArray are discharged against the contract their callers use; block pools and collector entry are assumed. Closing of closures is bounded (lists of at most three). String to number parsing, float formatting and the mark phase of the collector are not covered.')

prop('P13', 'Compiled programs mean what their source says',
     'For every program the compiler accepts, the code it produces computes what the language definition gives for the source text, on the interpreter and natively alike.',
     ['inputs'], 'all source programs and all inputs of them',
     'Tests sample a few thousand programs; the parser and the type checker translate arbitrarily nested constructs.',
     ['NULLC/ParseTree.cpp', 'NULLC/ExpressionTree.cpp', 'NULLC/ExpressionGraph.cpp', 'NULLC/InstructionTreeVm.cpp'], [('front end', 'Parse, AnalyzeExpression, CompileVm')],
     na='Needs a formal semantics of the source language and an induction over syntax trees through some 20,000 lines of C++ of mutually recursive tree code with heap-allocated nodes; no verifier here handles that. The parts behind the front end are claimed separately (P01-P07, P09, P11).')
prop('P14', 'The compiler accepts exactly valid programs and never crashes',
     'Whatever text it is given, the compiler terminates with either a program or an error message with a position, without crashing, reading outside of the text or exhausting host memory.',
     ['inputs'], 'all byte strings and all import graphs',
     'Tests contain some hundred invalid programs; crashes hide in combinations of errors.',
     ['NULLC/Lexer.cpp', 'NULLC/ParseTree.cpp', 'NULLC/ExpressionTree.cpp', 'NULLC/TypeTree.h'], [('error recovery', 'Stop, Report, setjmp frames')],
     na='Error exits use longjmp out of deep recursion over trees of unbounded shape; function contracts for the parser and type checker need recursive heap predicates (separation logic) that neither the bit-vector back ends nor the installed verifiers for C++ support.')
prop('P15', 'The garbage collector frees only unreachable objects',
     'An object that a running program can still reach through its stack, globals, closures or other objects is never freed or moved by a collection, and its contents stay.',
     ['inputs', 'histories'], 'all object graphs, all points at which a collection can start',
     'Collections run at allocation thresholds; a missed root shows only if the collection falls into a window of a few instructions.',
     ['NULLC/StdLib.cpp', 'NULLC/GCRoots.cpp', 'NULLC/Executor_RegVm.cpp'], [('mark and sweep', 'MarkMemory, MarkUsedBlocks, CollectMemory, ObjectBlockPool'), ('roots', 'ExecutorRegVm::BeginCallStack, GetNextFrame')],
     na='Reachability is a transitive closure over an unbounded heap graph that the solvers at hand cannot express, and the roots depend on which registers are live at each collection point, which the code does not record. Headers and registration of new blocks, which the collector relies on, are claimed under P12, array marks of copied results under P10.')


def main():
    exec(open(os.path.join(HERE, 'gen_more.py')).read(), globals()) if os.path.exists(os.path.join(HERE, 'gen_more.py')) else None
    PROPERTIES.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3-vt -c "import z3"',
             checks=[dict(property=k, quick_cmd='python3-vt check.py %s --tier quick' % k, thorough_cmd='python3-vt check.py %s --tier thorough' % k,
                          evidence_file='evidence/%s.json' % k, technique=TECH, level='proof', level_note=v) for k, v in sorted(CLAIMED.items())],
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
