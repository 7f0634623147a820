#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Claimed properties and the method that decides each."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
D="online differential monitor: generated embedder histories, every result, trap, host call and state snapshot judged against an independent reference interpreter"
N="Exploration of seeded random histories; nothing is proved. Trusts the reference interpreter (validated against the specification testsuite by /verif/selftest) and the generator's reach."
N2="Exploration of seeded random inputs; nothing is proved. Trusts wasmparser as the independent validator and decoder, and the generators' reach."
N3="Exploration of seeded random programs; nothing is proved. A slice may overrun its budget by 2048 counted effects before it is an alarm."
C={
"C01":(D+"; and an operand monitor: every instruction with operands from and results to every kind of place, edge operands, exact results, traps and NaN classes",N),
"C02":(D+", with the rewriting optimiser on and off, on idiom-heavy code; and an operand monitor: every instruction with operands from and results to every kind of place, edge operands, exact results, traps and NaN classes",N),
"C03":(D+" on float-heavy code; and an operand monitor: every instruction with operands from and results to every kind of place, edge operands, exact results, traps and NaN classes",N),
"C04":(D+" on vector-heavy code; and an operand monitor: every instruction with operands from and results to every kind of place, edge operands, exact results, traps and NaN classes, allowed sets of relaxed instructions, and bit-for-bit agreement of the x86 intrinsics build",N),
"C05":(D+" on memory-heavy code with boundary operands",N),
"C06":(D+", the same history on contiguous, paged, lazy, lazy paged and recording custom backends",N),
"C07":(D+" on table-heavy code over several instances",N),
"C08":(D+", the same history under many fuel and time slicings",N),
"C09":("online budget monitor: a counting memory backend and host function bound what every fuel or time slice of generated endless and finite programs executes, and watch the fuel shown to host functions",N3),
"C10":(D+" with re-entrant and failing host functions, plus a directed re-entry monitor",N),
"C11":(D+" with frequent traps and later calls on the same store, plus a monitor of what nine kinds of failures leave behind",N),
"C12":(D+" on call- and tail-call-heavy code with small dynamic stacks, plus monitors that bracket every stack limit and run long tail-call cycles on one-frame stacks",N),
"C13":(D+" on modules with failing segments and start functions",N),
"C14":(D+" with matching and mismatching imports; and a link monitor of supplied objects against near-miss declarations",N),
"C15":(D+", modules going through serialisation",N),
"C16":("online verdict monitor: valid, mutated and hostile byte strings through every parsing entry point, judged against an independent validator, with panic, allocation and hang monitors",N2),
"C17":("differential monitor over thread counts and stream chunkings, plus ThreadSanitizer on the parallel parser",N2),
"C20":("online monitor of every descriptor and lookup against an independent decoder",N2),
"C19":(D+" on import graphs over several instances",N),
"C23":(D+", allocation analysis on and off, without guest-debug",N),
"C24":(D+" dominated by embedder reads, writes, fills, copies and growth; and an online model monitor: random operation sequences on one object against a plain array",N),
"C22":("online process monitor: generated command line sessions and specification scripts in a scratch directory; status, output and files judged against the library called with the same arguments and formatted independently","Exploration of seeded random sessions; nothing is proved. Values come from the library itself (its own correctness is the other properties')."),
"C21":("AddressSanitizer build with the x86 intrinsics over behavioural histories, hostile bytes, archives, host accesses and random drop orders; Miri with symbolic alignment checks over generated vector-heavy modules run in slices","Exploration of seeded random inputs; nothing is proved. The interpreter for undefined behaviour covers a few hundred small modules a run."),
"C18":("online monitor of refusals: every kind of mismatch at every entry point of the embedding interface must fail and leave snapshots of two stores unchanged, and random values must pass through unchanged in both directions","Exploration of seeded random signatures, values and mismatches; nothing is proved. Typed shapes are a fixed list of 26."),
}
NA={}
checks=[dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=C[i][0],level="exploration",level_note=C[i][1]) for i in ids if i in C]
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[dict(property=i,reason=NA.get(i,"check not built yet")) for i in ids if i not in C])
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); print(len(checks))
