"""property id -> contract modules"""
TRUSTED_BASE = [
    'clang 18 front end and opt -passes=sroa: the LLVM IR that is verified is produced from /repo by them on every run',
    'the VC generator in /verif/vc (LLVM IR semantics, loop generalisation, memory model)',
    'z3 5.3 and cvc5 1.1.2',
    'libc contracts in vc/builtins.py (memcpy, memmove, memset, memcmp, strlen, operator new/delete, libm as uninterpreted functions)',
]
COMMON_ASSUMPTIONS = [
    'the LLVM IR built with clang -O0 has the behaviour of the shipped g++ -g build (both implement the same C++ source)',
    'machine integers are modelled exactly (bit-vectors, wrap-around); floating-point arithmetic is an uninterpreted function shared by code and contract',
    'objects are smaller than 2^46 bytes and distinct objects do not overlap',
]
PROPS = {
    'P01': dict(modules=['interp:arith'], assumptions=[
        'the program state satisfies the layout the compiler produces: a 256-register frame, instruction fields as emitted by the lowering',
        'pow and fmod (libm) are trusted; shift counts are smaller than the operand width (C++ leaves others undefined)']),
    'P02': dict(modules=['interp:mem'], assumptions=[
        'references are null or designate memory at addresses >= 64 KiB that is disjoint from the register file and the instruction array',
        'rviMemCopy operands are identical or disjoint; array element offsets stay below 2^31']),
    'P03': dict(modules=['interp:ctl', 'vmcall', 'jitwrap:sub'], assumptions=[
        'RunCode calls ExecCall, ExecReturn, ExecConvertPtr through their contracts; those contracts are discharged here too, except that a call or return instruction is taken to move at most two operands and two results (the microcode list is bounded, operand values are not)',
        'ExecNop (breakpoints), ExecError and native functions are replaced by assumed contracts; ExecCheckedReturn by the contract discharged under P10',
        'a callee pops its own return address and restores the register file top (the contract of RunCode used by ExecCall)']),
    'P04': dict(modules=['vmopt'], assumptions=[
        'the graphs given to a rewriting step are the shapes listed per contract (one instruction, operands up to two levels deep, one user) with all constant values and opaque operands; other graph contents are framed by the use lists',
        'member offsets of variables are in [0, 2^28) and of pointers in (-2^28, 2^28); shift counts are smaller than the operand width',
        'the meaning of a graph is the definition in contracts/vmgraph.py (class Ev); integer power, pow and fmod are uninterpreted',
        'IEEE identities used: x*1 = x, x/1 = x, x+(-0) = x, x-(+0) = x']),
    'P05': dict(modules=['vmlower'], assumptions=[
        'the instruction given to the lowering has the operand kinds listed per contract (the kinds the front end and the optimiser produce); constants, offsets, register contents and table contents are arbitrary',
        'registers of distinct live values are distinct at entry (the allocator state invariant, which the contract re-establishes); assignment of registers across blocks (colouring, AllocateLiveInOutRegisters) is not covered',
        'member offsets and variable offsets are below 2^22 each; array types are smaller than 2 GB (an element offset index*size does not overflow when index < count)',
        'a register instruction means what the contracts of P01-P03 prove of the interpreter; a kill mark ends the value of a register after the operands are read (early) or after the result is written (late)',
        'integer division is any function of its operands (lowering does not evaluate it); double addition and multiplication commute up to the payload of a NaN']),
    'P06': dict(modules=['link'], assumptions=[
        'the linked module has one instruction, one to three records per table and argument lists of at most two operations (bounded; the linker handles the records of a table in a loop); program tables have the sizes stated per contract',
        'the hash map returns the entry inserted last under a hash, and hashes distinguish names (names are compared by hash in the code)',
        'argument lists of different instructions do not overlap; the bytecode of the module is valid (indices within its tables)',
        'allocation succeeds; records of the module have arbitrary content where the contract does not say otherwise']),
    'P07': dict(modules=['consteval'], assumptions=[
        'the expression given to the evaluator has the node kinds and operand types listed per contract (literals, typed locals, operands one level deep); all literal values are arbitrary',
        'literals of bool, char, short and int types carry values representable in an int, bool literals are 0 or 1; shift counts are smaller than the operand width; doubles converted to integers fit the target',
        'floating-point arithmetic, pow and fmod are uninterpreted functions shared by code and contract; the limits of the evaluator (memory, instructions, call depth) are not reached']),
    'P08': dict(modules=['memory'], assumptions=['nullcThrowError and nullcAllocateArrayTyped are replaced by their contracts (record an error; zeroed block of count*size bytes, or error and empty array)']),
    'P09': dict(modules=['jit', 'jitcall', 'jitwrap'], assumptions=[
        'the requests to the emit layer (EMIT_OP_*) mean the x86-64 instruction they name, executed by the reference machine in contracts/x86.py; FindRegAtMemory returns only a register that holds the value of the memory operand; the emit layer itself (CodeGen_X86.cpp) and the encoders (Translator_X86.cpp) are not covered here',
        'the state at entry is the one the generators leave: RBX, R13, R14, R15 hold the register file, the run state, the constants and the frame; no register is locked',
        'argument and result microcode is covered for every list of at most two operations (bounded; the generators handle a list in a loop)',
        'a callee preserves RBX, RSP and R12-R15 and balances the data and call stacks; a call through a pointer follows a direct call somewhere in the program, which installs the call wrapper (the base module contains direct calls)',
        'wrappers called from native code are replaced by their contracts, which are discharged in contracts/jitwrap.py (calls, conversions, errors) and under P10 (checked return); host functions and RunRawExternalFunction are assumed',
        'generated code runs between instructions only through its labels: no jump targets the middle of an instruction sequence',
        'x87 and SSE arithmetic are the uninterpreted functions of the interpreter contract, addition and multiplication commute; integer products in address arithmetic are exact']),
    'P10': dict(modules=['checkedret'], assumptions=[
        'a returned reference is null or designates an object that lies entirely on the data stack or entirely in the heap; a heap block never starts exactly at the end of the data stack (it is preceded by its header)',
        'NULLC::AllocObject, AllocArray and SetCollectMemory are replaced by their contracts (a zeroed block of the requested size and type, or an error and null; collection switched on or off)',
        'the type table entry of a reference or unsized array names its element type; an object of an extendable class starts with its type id']),
    'P11': dict(modules=['encode'], assumptions=[
        'the meaning of machine code bytes is the decoder in contracts/encode.py, written from the Intel encoding rules',
        'the request is one of the forms listed in contracts/encode.py; that the code generators request no other is an obligation of P09, for requests made by the emit layer itself it is assumed',
        'lists of one instruction, and of three around a local jump (bounded; the encoder handles a list in a loop); code is smaller than 2 GB',
        'the jump tables have free capacity (growth of FastVector is not exercised); the table of register codes has its initial content']),
    'P12': dict(modules=['builtin'], assumptions=[
        'inside AllocObject the block pools (ObjectBlockPool::Allocate), alignedAlloc, the tree of big blocks and CollectMemory are assumed: a block of the requested size or none; callers use the contracts of AllocObject and AllocArray that are discharged here',
        'objects and arrays are smaller than 2 GB, strings too; the memory limit is below 2^31 - 1024; the default alignment is at most 16',
        'the type description functions (nullcGetTypeSize, nullcGetArraySize, nullcGetSubType, nullcIsArray and the like) return the type table entry; type and function ids in values are valid',
        '__closeUpvalue is covered for lists of at most three closures with all contents (bounded; the function handles the list in a loop)',
        'the object whose dynamic type is asked for is not null when its class is extendable (the compiler checks the conversion)',
        'a division by a constant is described by its defining equation n = q*d + r; the base class relation by its defining unfolding (class chains are finite); products of 32 bit numbers in array_copy and auto[].set by the lemmas used (commutative, monotone, low half)',
        'operands of memcpy in replace, equal and array_copy may be the same object but do not overlap partially']),
}
