#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

TESTS = ("The existing tests run fixed riscv-tests programs on the reference interpreter only; "
         "the pipelined model, its caches, TLBs, predictors and queues are never executed by them. ")
OBS = ["committed instruction stream reported to the difftest interface (pc, instruction, registers, CSRs, store)",
       "final memory image", "UART output", "exit reason"]

prop("C01", "Pipelined execution computes the architectural result of every instruction",
     "For every program the out-of-order simulator commits exactly the instruction sequence the RISC-V architecture prescribes, "
     "and after each committed instruction every integer register holds the architecturally correct value, whatever the dependency pattern, "
     "functional-unit latency or issue order. The zero register always reads as zero.",
     ["programs", "schedules"],
     "all straight-line and loop programs over the integer, multiply/divide and bit-manipulation instructions with arbitrary operand values and dependency chains, under every issue/writeback interleaving",
     TESTS + "Renaming, wake-up and bypass faults need particular dependency distances and latency collisions.",
     ["back-end/Idu.cpp", "back-end/Ren.cpp", "back-end/Dispatch.cpp", "back-end/Isu.cpp", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp", "back-end/Rob.cpp", "back-end/include/IssueQueue.h", "back-end/Exu/include/Fu.h"],
     [("decode", "back-end/Idu.cpp"), ("rename and free list", "back-end/Ren.cpp"), ("wake-up and select", "back-end/Isu.cpp, back-end/include/IssueQueue.h"), ("bypass", "back-end/Prf.cpp"), ("in-order commit", "back-end/Rob.cpp")],
     [("architectural register map", "which physical register holds each architectural register at commit", "back-end/Ren.cpp")], OBS)
prop("C02", "Wrong-path execution leaves no architectural trace",
     "Whatever the branch predictor predicts, a mispredicted branch or jump discards every younger instruction and execution resumes at the architecturally correct target with all register, memory and CSR state as if the wrong path had never been fetched.",
     ["programs", "schedules"],
     "all control-flow programs (nested branches, loops, calls, returns, indirect jumps) under every prediction outcome and resolution order",
     TESTS + "Recovery bugs need nested mispredictions resolved out of order while long-latency instructions are in flight.",
     ["back-end/Idu.cpp", "back-end/Ren.cpp", "back-end/Rob.cpp", "back-end/PreIduQueue.cpp", "back-end/Exu/Exu.cpp", "back-end/Lsu/RealLsu.cpp", "front-end/front_top.cpp", "front-end/BPU"],
     [("branch tag allocation and masks", "back-end/Idu.cpp"), ("rename checkpoints", "back-end/Ren.cpp"), ("fetch target queue", "back-end/PreIduQueue.cpp"), ("front-end redirect", "front-end/front_top.cpp")],
     [("branch mask", "unresolved older branches of an in-flight instruction", "back-end/Idu.cpp")], OBS)
prop("C03", "Loads return the latest program-order store under any memory timing",
     "Every load returns, byte for byte, the value of the most recent earlier store to each byte in program order (or the initial memory contents), and committed stores reach memory with the right bytes, regardless of cache hits, misses, evictions, store-to-load forwarding, queue occupancy and memory latency or response order.",
     ["programs", "schedules"],
     "all sequences of byte/half/word loads and stores with aliasing, partially overlapping and set-conflicting addresses, under arbitrary memory-system ready/latency/reorder behaviour",
     TESTS + "No test reaches the load/store queues, the data cache, the miss handling or the write-back path at all.",
     ["back-end/Lsu/RealLsu.cpp", "MemSubSystem/RealDcache.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/WriteBuffer.cpp", "MemSubSystem/MemSubsystem.cpp", "MemSubSystem/MemRouteBlock.cpp"],
     [("store-to-load forwarding and load replay", "back-end/Lsu/RealLsu.cpp"), ("data cache hit/miss/refill", "MemSubSystem/RealDcache.cpp"), ("miss status registers", "MemSubSystem/MSHR.cpp"), ("dirty write-back", "MemSubSystem/WriteBuffer.cpp")],
     [("store queue", "uncommitted and unretired stores", "back-end/Lsu/RealLsu.cpp")], OBS)
prop("C04", "Synchronous exceptions are precise",
     "When an instruction raises an exception (environment call, illegal instruction, instruction/load/store page fault), every older instruction has taken effect, no younger instruction and no part of the faulting one has, the trap CSRs record the right cause, faulting pc and trap value for the privilege level it is delivered to, and the handler starts at the configured vector.",
     ["programs", "schedules"],
     "all programs mixing trapping and non-trapping instructions at every privilege level, with traps nested behind unresolved branches and outstanding memory accesses",
     TESTS + "Precision can only be lost through pipeline overlap, which no test exercises.",
     ["back-end/Rob.cpp", "back-end/Exu/Csr.cpp", "back-end/Idu.cpp", "back-end/Ren.cpp", "back-end/Lsu/RealLsu.cpp"],
     [("exception commit and flush", "back-end/Rob.cpp"), ("trap CSR update and delegation", "back-end/Exu/Csr.cpp"), ("architectural map restore", "back-end/Ren.cpp")], (), OBS)
prop("C05", "Virtual memory is translated and protected exactly as the page tables say",
     "With Sv32 translation enabled every fetch, load and store uses the mapping that the in-memory page tables define (4 KB and 4 MB pages, user/supervisor, R/W/X, A/D, SUM, MXR and MPRV rules), faulting exactly when the architecture requires; after an address-space switch or fence of the changed mappings no stale translation is used.",
     ["programs", "schedules", "histories"],
     "all page-table contents, privilege levels and status bits, and all histories of mapping changes followed by a translation fence, under arbitrary walk latency",
     TESTS + "The TLBs and the shared page-table walker are never executed by tests; stale entries need a remap history.",
     ["back-end/Lsu/TlbMmu.cpp", "back-end/Lsu/include/TlbMmuKernel.h", "MemSubSystem/PtwWalker.cpp", "MemSubSystem/include/MemPtwBlock.h", "MemSubSystem/MemRouteBlock.cpp", "front-end/icache"],
     [("TLB lookup, refill and flush", "back-end/Lsu/TlbMmu.cpp, back-end/Lsu/include/TlbMmuKernel.h"), ("page-table walk", "MemSubSystem/PtwWalker.cpp"), ("permission checks", "back-end/Lsu/include/TlbMmuKernel.h")], (), OBS)
prop("C06", "Atomic memory operations are indivisible and LR/SC pairs obey the reservation",
     "Each atomic read-modify-write returns the old memory word and stores the architecturally defined new one exactly once, and a store-conditional succeeds only if it matches a still-valid reservation, writing memory if and only if it reports success, regardless of speculation and memory timing.",
     ["programs", "schedules"],
     "all interleavings of AMO, LR, SC, plain loads/stores and mispredicted branches around them, under arbitrary memory timing",
     TESTS + "Only sequential AMO semantics in the interpreter are sampled.",
     ["back-end/Lsu/RealLsu.cpp", "back-end/Dispatch.cpp", "back-end/Rob.cpp", "back-end/Exu/include/Fu.h"],
     [("AMO split into load/compute/store", "back-end/Dispatch.cpp"), ("reservation register", "back-end/Lsu/RealLsu.cpp")],
     [("reservation", "address reserved by the last load-reserved", "back-end/Lsu/RealLsu.cpp")], OBS)
prop("C07", "Interrupts are taken precisely, and only when enabled and pending",
     "A machine or supervisor interrupt is taken only when it is pending, enabled, delegated as configured and permitted at the current privilege level; it is delivered between two instructions with correct cause, return pc and status stacking; and an enabled pending interrupt is eventually taken.",
     ["programs", "schedules"],
     "all programs manipulating enables, pending bits, delegation, privilege level and timer/interrupt-controller devices, with interrupts arriving at any pipeline state",
     TESTS + "Tests contain no asynchronous event at all.",
     ["back-end/Exu/Csr.cpp", "back-end/Rob.cpp", "MemSubSystem/include/PeripheralModel.h", "rv_simu_mmu_v2.cpp"],
     [("interrupt selection", "back-end/Exu/Csr.cpp"), ("interrupt commit", "back-end/Rob.cpp"), ("timer and interrupt controller", "MemSubSystem/include/PeripheralModel.h")], (), OBS)
prop("C08", "Instruction fetch sees modified code after an instruction fence",
     "After a program stores new instructions and executes fence.i, all subsequently fetched instructions are the newly stored ones, whether the old or new bytes were in the data cache, the instruction cache, in flight or only in memory.",
     ["programs", "schedules"],
     "all store/fence.i/execute histories over lines in every cache state, under arbitrary memory timing",
     TESTS + "The interpreter has no caches, so staleness cannot occur there.",
     ["front-end/icache", "MemSubSystem/RealDcache.cpp", "back-end/Rob.cpp", "back-end/Lsu/RealLsu.cpp", "MemSubSystem/MemSubsystem.cpp"],
     [("fence.i drain and dcache clean", "back-end/Rob.cpp, MemSubSystem/RealDcache.cpp"), ("icache invalidate", "front-end/icache")], (), OBS)
prop("C09", "Device accesses happen exactly once, in order, and never speculatively",
     "Each load or store to a device register performed by the program reaches the device exactly once and in program order, never from a wrong path or a squashed instruction, and returns the value the device holds; in particular the UART prints exactly the bytes the program writes.",
     ["programs", "schedules"],
     "all programs interleaving device and memory accesses with branches, traps and interrupts, under arbitrary bus timing",
     TESTS + "No test touches a device in the pipelined model.",
     ["back-end/Lsu/RealLsu.cpp", "MemSubSystem/PeripheralAxi.cpp", "MemSubSystem/include/PeripheralModel.h", "rv_simu_mmu_v2.cpp"],
     [("MMIO serialisation at ROB head", "back-end/Lsu/RealLsu.cpp"), ("device bus bridge", "MemSubSystem/PeripheralAxi.cpp"), ("device effects at commit", "rv_simu_mmu_v2.cpp")], (), OBS)
prop("C10", "The simulator always makes progress and never fails internally",
     "On every program the simulator keeps committing instructions until the program ends: it never deadlocks, livelocks, crashes, reads or writes outside its own storage, or trips one of its own consistency assertions, under any fetch, memory or interrupt timing.",
     ["programs", "schedules", "configurations"],
     "all programs of every class above mixed together, all memory timings, in builds with the internal assertions compiled in",
     TESTS + "Deadlocks need resource exhaustion or lost wake-ups at specific cycles.",
     ["rv_simu_mmu_v2.cpp", "back-end", "front-end", "MemSubSystem"],
     [("deadlock watchdog", "rv_simu_mmu_v2.cpp, back-end/DeadlockDebug.cpp"), ("internal assertions", "back-end/include/util.h")], (), OBS + ["process exit status", "assertion messages"])
prop("C11", "Single-precision arithmetic in the pipeline is IEEE-754 / RISC-V correct",
     "Every supported floating-point-in-integer-register instruction executed by the pipeline returns the correctly rounded result the RISC-V specification prescribes, including canonical NaNs, signed zeros, subnormals, infinities and saturating conversions, for every operand.",
     ["inputs", "programs"],
     "all operand bit patterns and rounding modes of the supported operations, issued at any distance from producers and consumers",
     TESTS + "Tests sample a few operands per operation.",
     ["back-end/Exu/include/FPU.h", "back-end/Exu/include/fadd.h", "back-end/Exu/include/fmul.h", "back-end/Exu/Exu.cpp", "back-end/Idu.cpp"],
     [("floating-point functional unit", "back-end/Exu/include/FPU.h")], (), OBS)
prop("C12", "CSR accesses and privilege changes follow the privileged architecture",
     "CSR reads return and CSR writes store the architecturally legal value with the views (machine/supervisor) kept consistent, and trap returns restore privilege and interrupt-enable state exactly; effects are visible to the next instruction.",
     ["programs", "histories"],
     "all sequences of CSR read/write/set/clear operations, xRET and privilege changes at every level with arbitrary values",
     TESTS + "Tests sample a handful of CSR values, in the interpreter only.",
     ["back-end/Exu/Csr.cpp", "back-end/Exu/include/Csr.h", "back-end/Idu.cpp", "back-end/Rob.cpp"],
     [("CSR write masks and views", "back-end/Exu/Csr.cpp"), ("serialising commit", "back-end/Rob.cpp")], (), OBS)
prop("C13", "Results do not depend on timing or on the microarchitecture size",
     "The committed instruction stream and final state of a program that reads no clock are the same for every shipped size configuration, every memory timing and every branch-prediction outcome.",
     ["configurations", "schedules", "programs"],
     "all shipped configuration profiles and all memory/fetch timings, for all generated programs",
     TESTS + "The shipped profiles are not even compiled by the tests.",
     ["include/config.h.default", "include/config.h.small", "include/config.h.medium", "include/config.h.large", "include/config.h", "front-end", "back-end"],
     [("profile configuration headers", "include/config.h and include/config.h.*"), ("all queues sized by them", "back-end, front-end, MemSubSystem")], (), OBS)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
import importlib.util
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_extra.py")
if os.path.exists(extra):
    exec(open(extra).read())
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
