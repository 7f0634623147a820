#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept here so that it is easy to edit)."""
import json, os
T="crates/tinywasm/src/"; P="crates/parser/src/"; Y="crates/types/src/"; C="crates/cli/src/"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    props.append(d)

p("C01","Valid modules execute exactly as the WebAssembly specification says",
  "For every valid module using supported proposals, every call of an export yields the results, or the trap, that the WebAssembly specification prescribes for integer arithmetic, conversions, locals, globals, structured control flow, branches and direct calls. The final values of memories, globals and tables visible to the embedder are also those the specification prescribes.",
  ["programs","inputs"],"every valid module over the supported instruction set x every argument vector x every sequence of calls",
  "The spec testsuite runs a fixed list of modules, each small and idiomatic; combinations of instructions (operand order, branch placement, dead code, value kept across labels) are unbounded and only a handful are sampled.",
  [P+"visit.rs",P+"conversion.rs",P+"optimize.rs",T+"interpreter/executor.rs",T+"interpreter/stack/value_stack.rs"],
  [("single pass lowering of structured code to flat jumps",P+"visit.rs FunctionBuilder"),("dispatch loop",T+"interpreter/executor.rs Executor::exec"),("drop/keep on branches",T+"interpreter/stack/value_stack.rs")],
  ["Function::call results","Trap returned","Memory::read_vec / Global::get / Table::get after the call"])
p("C02","Optimisation settings never change what a program does",
  "For every valid module, turning the parser's rewriting optimisations on or off changes neither the results nor the traps nor the memory, global and table contents observed by any sequence of calls. Fused and rewritten instruction sequences behave exactly like the sequence the module contained, also when a branch targets the middle of it.",
  ["programs","configurations","inputs"],"every valid module x both optimiser settings x every call sequence",
  "The tests run nearly everything with the default settings only and compare against spec expectations; the number of adjacent instruction combinations and label placements that trigger rewriting is unbounded.",
  [P+"optimize.rs",P+"visit.rs",P+"lib.rs",T+"interpreter/executor.rs"],
  [("peephole rewriting with jump-target boundaries",P+"optimize.rs"),("emission-time fusion of locals and constants",P+"visit.rs"),("superinstruction handlers",T+"interpreter/executor.rs")],
  ["traces of the same call sequence under each ParserOptions value"])
p("C03","Floating point results follow IEEE 754 and the WebAssembly NaN rules",
  "Every scalar floating-point operation, comparison, conversion and truncation returns the correctly rounded value, sign, infinity, zero sign or trap prescribed by the specification for every operand. A NaN result is always one the specification allows: canonical when every NaN operand is canonical, and otherwise an arithmetic NaN.",
  ["inputs","programs"],"all pairs of f32 / f64 bit patterns for each operation, standalone and inside larger expressions",
  "Tests enumerate a few hundred operand pairs per operation out of 2^64 or 2^128, and never inside fused expressions.",
  [T+"interpreter/num_helpers.rs",T+"interpreter/executor.rs",T+"interpreter/no_std_floats.rs"],
  [("min, max, nearest, trapping truncation helpers",T+"interpreter/num_helpers.rs"),("fused multiply-add-store instructions",T+"interpreter/executor.rs")],
  ["Function::call results bit patterns"])
p("C04","Vector instructions compute the specified lanes on every build",
  "Every fixed-width and relaxed SIMD instruction returns exactly the lane values the specification prescribes (one of the allowed ones for relaxed instructions) for all operands and immediates, and its loads and stores trap and take effect like scalar ones. The build that uses x86 intrinsics returns the same bits as the portable build.",
  ["inputs","programs","configurations"],"every vector instruction x every pair of 128-bit operands x every immediate x portable and x86 builds",
  "Tests sample a few operand vectors per instruction and only the portable build; lane-level corner cases multiply (saturation, rounding, high/low halves, out of range indices).",
  [T+"interpreter/simd/instructions.rs",T+"interpreter/simd/macros.rs",T+"interpreter/simd/utils.rs",T+"interpreter/executor.rs"],
  [("lane-wise helper macros",T+"interpreter/simd/macros.rs"),("x86 intrinsics for swizzle and shuffle",T+"interpreter/simd/instructions.rs")],
  ["Function::call v128 results","memory contents"])
p("C05","Guest memory accesses never leave the memory and trap atomically",
  "Every load, store, fill, copy, init and grow of a 32- or 64-bit linear memory, for every address, offset, length, page size and memory index, either accesses exactly the addressed bytes or traps when any byte of the range lies outside the current size. A trapping access changes nothing in any memory, and no access ever reaches a memory other than the one it names.",
  ["inputs","programs","configurations"],"all addresses, static offsets, lengths, access widths, memory indices, page sizes and index types, near and beyond every boundary",
  "Boundary arithmetic spans 2^64 address/offset/length combinations; tests sample a few per instruction on one-page memories.",
  [T+"interpreter/executor.rs",T+"store/memory/mod.rs",T+"store/memory/instance.rs",T+"store/memory/vec.rs",T+"store/memory/paged.rs"],
  [("effective address computation",T+"interpreter/executor.rs"),("range checks in memory instance and backends",T+"store/memory/instance.rs")],
  ["trap kind","full memory snapshot before and after each call"])
p("C06","All linear memory backends are observably the same memory",
  "A program and its embedder observe the same bytes, sizes, growth results and traps whichever memory backend the engine is configured with: contiguous, paged with any chunk size, lazily allocated or custom. Growth never loses or invents bytes, new bytes are zero, and limits are enforced identically.",
  ["configurations","histories","inputs"],"every backend and chunk size x every history of reads, writes, copies, fills and growth",
  "Tests exercise each backend with a few fixed operations; chunk-crossing offsets and histories of growth between accesses are not sampled.",
  [T+"store/memory/vec.rs",T+"store/memory/paged.rs",T+"store/memory/lazy.rs",T+"store/memory/instance.rs",T+"store/memory/mod.rs"],
  [("LinearMemory trait and its provided range methods",T+"store/memory/mod.rs"),("chunk splitting",T+"store/memory/paged.rs"),("materialisation on first access",T+"store/memory/lazy.rs")],
  ["guest results","Memory::read_vec/len/page_count/grow","log of calls received by a custom backend"])
p("C07","Tables, references and indirect calls reach exactly the right function",
  "Table get, set, size, grow, fill, copy, init and element drop behave as the specification prescribes for 32- and 64-bit tables, including bounds, overlap and null elements, and out-of-range operations change nothing. An indirect call, from any module sharing the table, runs exactly the function stored in the slot, with that function's own module state, or traps with the prescribed reason if the slot is missing, null or of a different type.",
  ["programs","histories","inputs"],"every history of table operations over several modules of one store sharing tables",
  "Tests mostly use one module per store, where function indices and store-wide addresses coincide.",
  [T+"store/table.rs",T+"store/element.rs",T+"interpreter/executor.rs",T+"store/mod.rs"],
  [("resolution of module function indices to store addresses",T+"store/table.rs"),("type check of indirect calls",T+"interpreter/executor.rs exec_call_indirect")],
  ["call_indirect results","Table::get/size","trap kind"])
p("C08","Pausing and resuming a call is invisible to the program",
  "Running a call to completion through any sequence of bounded fuel or time slices produces the same results, trap, host-call sequence and final state as running it in one go. Each host function is called exactly once per guest call, whatever the slicing.",
  ["schedules","programs"],"every sequence of slice sizes, including zero and one, x every program",
  "Tests resume a few loops with a couple of constant budgets.",
  [T+"func.rs",T+"interpreter/executor.rs",T+"interpreter/mod.rs",T+"store/mod.rs"],
  [("saved frame and stacks between slices",T+"func.rs FuncExecution"),("suspension check in dispatch loop",T+"interpreter/executor.rs")],
  ["ExecProgress sequence","host call event log","final state"])
p("C09","Fuel and time budgets bound every slice and guarantee progress",
  "A slice given a fuel budget returns control after a number of guest instructions bounded by the budget plus a fixed constant, for every program including infinite loops, recursion and tail calls. Every slice with a non-zero budget makes progress, so a terminating call completes after finitely many slices. A host function sees the fuel left in the running slice (none outside fuel-driven execution), and what it charges counts against that slice.",
  ["programs","schedules"],"every program shape x every budget x both fuel policies",
  "Tests check that one loop suspends; the bound and the progress guarantee for other loop shapes, host-charged fuel and tail calls are not sampled.",
  [T+"interpreter/executor.rs",T+"func.rs",T+"engine.rs"],
  [("fuel accounting per chunk of instructions",T+"interpreter/executor.rs run_with_fuel"),("host charged fuel",T+"func.rs FuncContext::charge_fuel")],
  ["number of slices","count of observed guest work (global counter) per slice"])
p("C10","Host callbacks re-enter the guest without disturbing the suspended caller",
  "A host function may call back into any exported function of the store, to any nesting depth within the limits, and the suspended guest frames see their operands, locals and control flow unchanged afterwards, whether the nested call returns, traps or fails. The error or trap of a host function ends the guest call that invoked it with exactly that failure, and attempts to start an unrelated call on the busy store are refused.",
  ["histories","programs"],"every interleaving of guest and host frames, with nested failures at every depth",
  "Tests cover one level of re-entry with trivial operand stacks.",
  [T+"func.rs",T+"interpreter/executor.rs",T+"interpreter/stack/value_stack.rs",T+"interpreter/stack/call_stack.rs"],
  [("stack base save and restore around nested calls",T+"func.rs FuncContext::call_untyped"),("host call dispatch",T+"interpreter/executor.rs exec_call_host")],
  ["event log of guest and host entries","results","error values"])
p("C11","A trapped or failed call leaves the store consistent and usable",
  "After any call ends in a trap, a host error, stack exhaustion or an abandoned paused execution, effects performed before that point persist, effects after it do not happen, and every later call on the same store behaves exactly as it would have without the failed call's leftovers. An execution that has failed cannot be resumed.",
  ["histories","fault_sequences"],"every position of a failure in every history of calls",
  "Tests rarely call anything after a trap and never compare with a run without the failing call.",
  [T+"func.rs",T+"interpreter/executor.rs",T+"interpreter/stack/value_stack.rs",T+"store/mod.rs"],
  [("stack reset on call entry and failure",T+"func.rs")],
  ["results of later calls","state snapshots"])
p("C12","Stack limits are enforced as traps and tail calls use constant stack",
  "Unbounded recursion (direct, indirect, across instances or re-entrant through host functions) or an over-deep operand stack always ends in a stack-exhaustion trap under every stack configuration, never in a crash of the host, and depths within the configured limit succeed. Tail calls, direct or indirect and to guest or host functions, run in constant stack space for any number of iterations and return exactly the callee's results to the original caller.",
  ["configurations","programs"],"every stack size, fixed or dynamic x every frame shape x every tail call chain",
  "Tests run default limits and a single recursion shape.",
  [T+"interpreter/stack/call_stack.rs",T+"interpreter/stack/value_stack.rs",T+"interpreter/executor.rs",T+"engine.rs"],
  [("capacity checks on push",T+"interpreter/stack/value_stack.rs"),("frame replacement on tail call",T+"interpreter/executor.rs exec_return_call")],
  ["trap kind","maximum depth reached","results"])
p("C13","Instantiation runs its steps in order and fails cleanly",
  "Instantiating a module evaluates globals, element segments, data segments and the start function in the order of the specification, with constant expressions yielding the specified values, and stops at the first failure with everything already written kept and nothing later performed. Passive, active and declared segments are available or dropped exactly as specified afterwards.",
  ["programs","fault_sequences"],"every combination of segments, offsets, constant expressions and start functions, with a failure at every position",
  "Tests include a few linking modules with one failing segment.",
  [T+"instance.rs",T+"store/mod.rs",P+"module.rs",P+"conversion.rs"],
  [("init order",T+"instance.rs instantiate_no_start"),("constant expression evaluation",T+"store/mod.rs eval_const")],
  ["error or instance","memory, table and global contents of imported objects after failure","start side effects"])
p("C14","Imports are linked if and only if their types match",
  "Instantiation succeeds in linking exactly when every import is supplied with an object of the same kind and of a type the specification allows for that import (function signatures, global type and mutability, table element type, index type and limits, memory index type, page size and limits). Otherwise it fails with an unknown-import or incompatible-import error and has no effect, and objects of another store are never linked.",
  ["inputs","configurations"],"the cross product of import declarations and supplied objects, including grown memories and tables",
  "Tests cover a few mismatches per kind with default limits.",
  [T+"imports.rs",T+"instance.rs"],
  [("per-kind comparison",T+"imports.rs link / compare_types"),("store ownership checks",T+"reference.rs StoreItem")],
  ["instantiate result"])
p("C15","Serialised modules behave exactly like the modules they were made from",
  "Serialising a module and loading it again yields a module whose every observable (imports, exports, instantiation outcome, call results, traps and state) equals that of the original, and serialising it again yields the same bytes. Loading truncated data or data with a wrong magic or version is refused with an error.",
  ["programs","inputs"],"every module the parser accepts; every prefix of every archive",
  "One test round-trips a tiny module.",
  [Y+"archive.rs",Y+"lib.rs",Y+"instructions.rs",Y+"value.rs"],
  [("magic and version header, postcard encoding",Y+"archive.rs")],
  ["traces of the original and the reloaded module","archive bytes"])
p("C16","The parser accepts exactly the valid modules and never crashes",
  "For every byte string, parsing returns either a module or an error, without panicking, hanging or allocating out of proportion to the input. It accepts every valid module that uses only supported proposals and rejects every invalid one, and parsing the same bytes from a stream in arbitrary pieces gives the same outcome as from memory.",
  ["inputs","schedules"],"all byte strings x all ways of cutting them into reads",
  "Tests feed the fixed malformed and invalid modules of the spec suite as one slice.",
  [P+"lib.rs",P+"module.rs",P+"visit.rs",P+"conversion.rs",P+"error.rs"],
  [("validation of every payload and operator",P+"module.rs"),("incremental buffering",P+"lib.rs parse_module_stream")],
  ["parse result","panic or abort"])
p("C17","Parallel parsing is race-free and indistinguishable from sequential parsing",
  "With any number of parser threads a module is parsed to the same result, byte for byte, or rejected with the same verdict, as with one thread. No data race or deadlock is possible.",
  ["schedules","configurations","programs"],"every thread count, scheduling and distribution of function sizes and errors",
  "Parallel parsing only starts above a size threshold that few tests reach, and one schedule is observed per run.",
  [P+"parallel.rs",P+"lib.rs",P+"module.rs"],
  [("work splitting and ordered merge",P+"parallel.rs")],
  ["serialised module bytes","errors","ThreadSanitizer reports"])
p("C18","The embedding API rejects every mismatch of types, arity or store",
  "Calling, looking up or defining functions, globals, tables and memories through the embedding API with the wrong value types, arity, kind, mutability or an object of another store always returns an error and changes nothing. Correctly typed use always transfers every value unchanged in both directions, and a host function returning wrong values is reported as an error.",
  ["inputs","histories"],"every signature x every argument list x every pairing of handles with stores",
  "Tests try a few signatures and one foreign store.",
  [T+"func.rs",T+"reference.rs",T+"instance.rs",T+"imports.rs"],
  [("signature comparison at lookup and call",T+"instance.rs func"),("store id check",T+"reference.rs StoreItem")],
  ["API results","state after a rejected call"])
p("C19","Instances share exactly what they import and nothing else",
  "Instances linked to the same memory, table, global or function see each other's effects on it immediately and identically, also when it was re-exported under another name or imported twice, while objects that were not shared are unaffected by other instances. Handles held by the embedder keep denoting the same object throughout.",
  ["histories","programs"],"every import/export graph over several instances x every history of operations",
  "Tests link two modules with one shared object at a time.",
  [T+"instance.rs",T+"imports.rs",T+"store/mod.rs",T+"interpreter/executor.rs"],
  [("per-instance address maps",T+"instance.rs"),("switching the current instance on cross-module calls",T+"interpreter/executor.rs")],
  ["reads through every alias after each operation"])
p("C20","Module descriptions report exactly what the binary declares",
  "The imports, exports and their types that a parsed module or instance reports are exactly those declared in the binary, in order, with their full types and limits, for every valid module and however it was parsed or serialised. Looking an export up by name returns the object with that type, and unknown names are reported as missing.",
  ["programs"],"every valid module's import and export sections",
  "Tests check names of one or two exports.",
  [Y+"lib.rs",P+"module.rs",P+"conversion.rs",T+"instance.rs"],
  [("type conversion",P+"conversion.rs"),("descriptor iterators",Y+"lib.rs Module::imports/exports")],
  ["Module::imports/exports","ModuleInstance::exports/extern_item"])
p("C21","No input causes undefined behaviour or memory errors in the runtime",
  "Executing any valid module, in the default build and in the build with x86 intrinsics, performs no out-of-bounds, uninitialised or misaligned access and no other undefined behaviour, as judged by an address sanitizer and an interpreter for undefined behaviour. The same holds for dropping stores, instances and paused executions at any point.",
  ["programs","inputs","configurations"],"every program and operand that reaches unsafe code or library allocations",
  "Tests are never run under a sanitizer, and never with the unsafe feature enabled.",
  [T+"interpreter/simd/instructions.rs",T+"lib.rs",P+"parallel.rs"],
  [("unsafe forbidden except in the x86 feature",T+"lib.rs"),("bounds of intrinsics operands",T+"interpreter/simd/instructions.rs")],
  ["AddressSanitizer and Miri reports"])
p("C22","The command line tool runs, compiles and reports faithfully",
  "Invoking an export from the command line prints exactly the values the library returns for the parsed arguments, exits successfully only if the call succeeded, and reports traps and malformed arguments with a failing status. Compiling a module and running the result prints the same as running the source, never overwrites an existing file unless told to, and writes nothing when the input is refused. Inspecting a module lists exactly its imports and exports with their types, and a specification script succeeds exactly if all its directives hold.",
  ["inputs","configurations"],"every export, argument list, flag combination and input format",
  "The tool has a handful of smoke tests.",
  [C+"cli.rs",C+"cmd/run.rs",C+"cmd/compile.rs",C+"value_parse.rs",C+"output.rs",C+"load.rs",C+"engine_flags.rs"],
  [("argument parsing by parameter type",C+"value_parse.rs"),("format detection",C+"load.rs")],
  ["stdout","exit status","files in a scratch directory"])
p("C23","When memories are allocated is never observable",
  "Whether the storage of a module's own memories is allocated at once, on first use or not at all is invisible: sizes, contents, growth results, traps and host accesses through exports are the same with the allocation optimisation on or off, for every module.",
  ["programs","configurations"],"every way a module or its embedder can (or cannot) reach a memory, with the optimisation on and off",
  "Tests check the chosen strategy for a few fixed modules.",
  [P+"lib.rs",P+"module.rs",Y+"instructions.rs",T+"instance.rs",T+"store/memory/lazy.rs"],
  [("usage analysis over emitted instructions",Y+"instructions.rs memory_addr"),("skip/lazy/eager decision",P+"module.rs")],
  ["traces with the option on and off"])
p("C24","Host-side memory, table and global access matches a plain model",
  "Reading, writing, filling, copying, growing and scanning strings through embedder handles and the stream-like cursor behaves like the same operation on a plain byte or element array of the object's current size: partial operations report the exact count, out-of-range ones fail and change nothing, and strings round-trip. What the embedder writes is what the guest reads and vice versa.",
  ["histories","inputs"],"every history of host and guest operations on one object, at all offsets and lengths",
  "Tests use a few in-range offsets.",
  [T+"reference.rs",T+"store/memory/instance.rs",T+"store/table.rs"],
  [("handle operations",T+"reference.rs"),("cursor seek/read/write",T+"reference.rs MemoryCursor")],
  ["API return values","contents after each operation"])
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for d in props: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(props))
