RT = ("The existing tests run a fixed set of riscv-tests binaries on the interpreter and look only at the pass/fail word each program writes; "
      "values, encodings and states the binaries do not contain are never tried. ")
ROBS = ["registers, CSRs, program counter and privilege after every interpreted instruction", "step report (branch, trap, page fault, store, device access flags)",
        "memory contents", "console output", "end of program"]
RF = ["diff/ref.cpp", "diff/include/ref.h"]
prop("R01", "The reference interpreter executes integer instructions exactly",
     "For every program of integer, multiply/divide, bit-manipulation, branch and jump instructions the reference interpreter leaves in every register and in the program counter the value the RISC-V architecture prescribes, for all operands and register combinations, and reports branches and their direction correctly.",
     ["inputs", "programs"], "all operand values, register choices (including the zero register and source = destination) and immediates of the implemented integer extensions, in arbitrary sequences",
     RT, RF, [("integer execution", "diff/ref.cpp")], [("integer register file", "architectural registers of the interpreter", "diff/include/ref.h")], ROBS)
prop("R02", "The reference interpreter performs loads, stores and atomics exactly",
     "Loads return, and stores, read-modify-writes and store-conditionals leave in memory, exactly the bytes the architecture prescribes, at every size, alignment-legal offset and physical address inside or outside RAM; the reported store address and data are those performed, and no other byte of memory changes.",
     ["inputs", "programs", "histories"], "all access sizes, sign extensions, byte offsets, atomic operations, reservations and addresses, in arbitrary sequences over few addresses",
     RT, RF, [("load/store and atomic execution", "diff/ref.cpp")], [("reservation", "address reserved by load-reserved", "diff/include/ref.h")], ROBS)
prop("R03", "The reference interpreter takes traps and interrupts and handles CSRs exactly",
     "Every exception, interrupt, CSR instruction and trap return changes privilege, the trap CSRs, the interrupt-enable stack and the program counter as the privileged architecture prescribes, with delegation, vectored mode and interrupt priority honoured and with consistent machine and supervisor views.",
     ["programs", "histories", "inputs"], "all sequences of CSR operations, privilege changes, delegation settings, illegal instructions, environment calls and interrupt arrivals",
     RT, RF, [("trap entry, CSR execution", "diff/ref.cpp")], [("CSR file and privilege", "machine and supervisor CSRs", "diff/include/ref.h")], ROBS)
prop("R04", "The reference interpreter translates addresses exactly as Sv32 prescribes",
     "With translation on, every fetch, load and store reaches the physical address the page tables map it to, or raises the page fault of the right kind with the right trap value, for every combination of page-table bits, superpages, privilege, MPRV, SUM and MXR.",
     ["inputs", "programs", "histories"], "all page-table contents (valid, malformed, misaligned superpage, every permission and status bit combination), privileges and status settings",
     RT + "The riscv-tests virtual-memory binaries use one fixed page table.", RF, [("page-table walk", "diff/ref.cpp")], (), ROBS)
prop("R05", "The reference interpreter's floating point is IEEE-754 / RISC-V correct",
     "Every implemented floating-point instruction, including the fused multiply-add family, leaves in its destination the correctly rounded result RISC-V prescribes for the rounding mode of the instruction, for all operand bit patterns; reserved encodings trap as illegal.",
     ["inputs"], "all operand bit patterns, rounding modes and operations, weighted to rounding, overflow, underflow, cancellation and conversion boundaries",
     RT, RF, [("floating-point execution", "diff/ref.cpp")], (), ROBS)
prop("R06", "The reference interpreter models devices and reports each step truthfully",
     "Console, interrupt-controller and timer accesses of the interpreter have the documented effect (output bytes, pending external interrupt and its claim, timer compare and count), and the per-step report says exactly whether the instruction was a branch, trap, page fault, store or device access.",
     ["programs", "histories"], "all sequences of device accesses of all sizes, interleaved with interrupts, traps and address translation",
     RT, RF, [("device effects of stores", "diff/ref.cpp")], (), ROBS)
prop("R07", "The reference interpreter never crashes or invokes undefined behaviour",
     "No program of the supported subset makes the interpreter abort, hang, access memory outside its own storage or execute an operation that is undefined in C++.",
     ["programs", "inputs"], "all programs of the supported subset, well behaved or not",
     RT + "They are not built with sanitizers.", RF, [("instruction execution", "diff/ref.cpp")], (), ROBS)

DF = ["diff/diff.cpp", "diff/ref.cpp", "rv_simu_mmu_v2.cpp", "diff/include/diff.h"]
DOBS = ["whether the simulator's built-in checker stops the run at a committed instruction"]
prop("D01", "The built-in checker accepts every correct execution",
     "While the simulated core executes a program correctly (every commit agrees with the RISC-V architecture), the simulator's own step-by-step checker never stops the run: its reference follows the core through interrupts, device accesses, faults, reservations and self-modifying code.",
     ["programs", "schedules", "histories"], "all programs of the supported subset, all memory and fetch timings and interrupt arrivals, with the built-in checker enabled",
     "The existing tests run the reference alone: core, checker and reference are never linked together, so nothing exercises the hand-over of state at interrupts, device accesses and faults.",
     DF, [("commit-time comparison and state hand-over", "diff/diff.cpp"), ("preparation of the core's state for comparison", "rv_simu_mmu_v2.cpp")],
     [("reference state", "architectural state followed instruction by instruction", "diff/ref.cpp")], DOBS)
prop("D02", "The built-in checker rejects every wrong commit",
     "If at some checked commit the core's reported program counter, instruction, general register, CSR (pending-interrupt bits excepted) or store (presence, address, data) differs from what the architecture prescribes, the simulator's own checker stops the run at that commit.",
     ["fault_sequences", "programs"], "every commit of arbitrary programs and every single alteration of one of the compared quantities, including a store invented or dropped",
     "No existing test gives the checker a wrong execution, so a comparison that was never made would not be noticed by any of them.",
     DF, [("commit-time comparison", "diff/diff.cpp")], [("core state as reported to the checker", "registers, CSRs, store and instruction of one commit", "diff/include/diff.h")], DOBS)

XF = ["main.cpp", "rv_simu_mmu_v2.cpp", "back-end/BackTop.cpp", "diff/diff.cpp"]
XOBS = ["console output, exit status and committed instructions of a run started from the command line"]
prop("X01", "Direct, fast-forward and reference-only runs execute the program faithfully",
     "A program image started from the command line executes the same architectural instruction sequence, prints the same console bytes and returns the same exit status whether it runs on the core from reset, is fast-forwarded any number of instructions on the reference first, or runs on the reference alone. A fast-forward executes exactly the requested number of instructions and a commit limit stops the run within one commit group of the requested count, never earlier.",
     ["programs", "configurations", "schedules"], "all program images, switch points from reference to core, commit limits and memory timings",
     "The existing tests never link the command-line program; nothing runs image loading, the switch from reference to core or the commit limit.",
     XF, [("mode selection and main loop", "main.cpp"), ("image loading and state transfer", "back-end/BackTop.cpp")],
     [("exit reason", "why the run stopped", "main.cpp")], XOBS)
prop("X02", "A run resumed from a checkpoint continues exactly where the checkpoint was taken",
     "Restoring a checkpoint file of any architectural state (registers, CSRs, privilege, reservation, memory, device words) and running on continues with exactly the instruction sequence, memory contents and traps the original run would have had. The reference executes exactly the part of the interval not given to warmup, and the core stops within one commit group after warmup plus the measured count.",
     ["programs", "histories", "configurations"], "all architectural states reachable by programs at any instruction, all intervals, warmup lengths and commit limits",
     "No existing test contains a checkpoint file or links the code that reads one.",
     XF + ["diff/include/diff.h"], [("checkpoint reading and state transfer", "back-end/BackTop.cpp"), ("warmup and measurement control", "main.cpp")],
     [("checkpoint interval", "instructions between the checkpoint and the measured window", "main.cpp")], XOBS)

prop("X03", "Malformed command lines, images and checkpoints are refused before anything runs",
     "A command line with an unknown option or mode, a missing argument, a number that is not a plain decimal count, a missing file or an inconsistent combination ends with a non-zero status before any instruction executes; so does an image that cannot be read or does not fit memory, and a checkpoint that is missing, cut short or differs in magic, version, memory size or device layout. The help option prints the usage and succeeds, and every well-formed command line runs as its options say, the last occurrence of an option deciding.",
     ["inputs", "configurations"], "all sequences of options and values, positions of the file argument, unreadable or oversized images, and damaged checkpoint headers, lengths and layouts",
     "No existing test starts the simulator's own main() or reads an image or checkpoint through it, and the release build compiles the repository's assertions out.",
     ["main.cpp", "back-end/BackTop.cpp"], [("option parsing and plausibility rules", "main.cpp"), ("image and checkpoint reading", "back-end/BackTop.cpp")],
     [("target file", "image or checkpoint named on the command line", "main.cpp")], ["exit status of main", "instructions executed by core and reference", "console output"])

prop("X04", "With perfect fetch nothing is mispredicted and nothing else changes",
     "The simulator built without its branch predictor, which takes the instruction stream from a reference run ahead of the core, executes every program exactly as the architecture prescribes, in all run modes. No branch, jump or return is ever mispredicted and no instruction is squashed for a misprediction, also after traps, CSR instructions and a start from a checkpoint or fast-forward.",
     ["programs", "configurations", "histories"], "all programs, run modes, switch points and memory timings of the perfect-fetch build",
     "No existing test builds or runs this configuration; a wrongly resynchronised reference shows only as a slower run or as a late divergence.",
     ["diff/br_oracle.cpp", "front-end/FrontTop.cpp", "rv_simu_mmu_v2.cpp", "back-end/BackTop.cpp"], [("instruction stream from the reference and resynchronisation at redirects", "diff/br_oracle.cpp"), ("hand-over of fetched groups to the core", "rv_simu_mmu_v2.cpp")],
     [("fetch reference", "architectural state running ahead of the core", "diff/br_oracle.cpp")], ["committed instructions", "misprediction counts of the report"])

prop("P01", "The statistics report of a run is true and adds up",
     "The report printed at the end of a run states exactly how many instructions, loads, stores, conditional branches, indirect jumps and returns retired in the measured window and how many cycles it took. Every total in it equals the sum of its parts (cache requests, replays, mispredictions, stall reasons, issue and decode slot shares), every rate equals the quotient of the counts it is made of, and queue occupancies are those of the entries in use.",
     ["programs", "schedules", "configurations"], "all programs, memory timings, run modes, warmup lengths and commit limits",
     "No existing test runs the core or prints a report; the numbers, which are what the simulator is run for, are never compared with anything.",
     ["back-end/include/PerfCount.h", "back-end/Ren.cpp", "back-end/Dispatch.cpp", "back-end/Lsu/RealLsuPerf.cpp", "back-end/Lsu/RealLsu.cpp", "rv_simu_mmu_v2.cpp", "front-end/icache/icache.cpp", "main.cpp"],
     [("retirement counters", "back-end/Ren.cpp"), ("slot accounting", "back-end/Dispatch.cpp"), ("report", "back-end/include/PerfCount.h")],
     [("counters", "numbers of events in the measured window", "back-end/include/PerfCount.h")], ["the report printed when the run ends"])

prop("P02", "A run is a function of its inputs: the same run twice gives the same report",
     "Two runs of the same image or checkpoint with the same options and the same memory timing take the same number of cycles and print identical statistics, whatever uninitialised memory happened to contain, wherever objects were placed and whatever the time of day. No counter, prediction, replacement choice or delay depends on anything else.",
     ["programs", "configurations", "inputs"], "all programs, run modes and memory timings, all initial contents of heap and stack memory, object addresses and clock values",
     "No existing test runs the core, let alone compares two runs of it.",
     ["main.cpp", "rv_simu_mmu_v2.cpp", "front-end", "back-end", "MemSubSystem"],
     [("initialisation and reset of every module", "rv_simu_mmu_v2.cpp"), ("predictor and cache replacement state", "front-end/BPU")],
     [("microarchitectural state", "contents of predictors, caches and queues at reset", "rv_simu_mmu_v2.cpp")], ["the report printed when the run ends", "cycle count"])

FX = "The existing tests never execute a functional unit of the core. "
prop("F01", "Every execution unit computes the exact result for every operand",
     "The arithmetic-logic, multiply, divide and both floating-point units (library-based and gate-level) return, for every operation they implement, every pair of operand values and every rounding mode, exactly the value the RISC-V architecture prescribes, and return it for the instruction that asked for it.",
     ["inputs"], "all operations of the five units, all 32-bit operand pairs and immediates, all rounding modes",
     FX + "Operand-dependent errors (rounding, cancellation, subnormals, overflow limits, division corner cases) need specific operand pairs among 2^64.",
     ["back-end/Exu/include/Fu.h", "back-end/Exu/include/FPU.h", "back-end/Exu/include/fadd.h", "back-end/Exu/include/fmul.h"],
     [("integer units", "back-end/Exu/include/Fu.h"), ("floating-point units", "back-end/Exu/include/FPU.h"), ("gate-level adder and multiplier", "back-end/Exu/include/fadd.h")],
     [("operation in the unit", "decoded instruction with its operand values", "back-end/Exu/include/ExuTypes.h")], ["result and instruction tag when the unit reports completion"])
prop("F02", "Execution units deliver each accepted operation once, unless it is squashed",
     "A multi-cycle unit that accepts an operation delivers it exactly once, in order, with the right result and with exactly the still unresolved branches it depends on, however long the consumer makes it wait. An operation squashed by a flush or mispredicted branch is never delivered, operations not depending on that branch are unaffected, and an empty unit accepts new work.",
     ["schedules", "histories"], "all interleavings of acceptance, partial and full squashes, branch resolutions and back-pressure, cycle by cycle",
     FX + "The interleavings depend on cycle-exact coincidences.",
     ["back-end/Exu/include/AbstractFU.h", "back-end/Exu/include/Fu.h", "back-end/Exu/include/FPU.h"],
     [("pipelined and iterative units", "back-end/Exu/include/AbstractFU.h")], [("operations in flight", "accepted but not yet delivered", "back-end/Exu/include/AbstractFU.h")],
     ["unit handshake: ready, complete, delivered instruction"])

UX = "The existing tests never execute the fetch unit. "
prop("U01", "The fetch unit's queues are first-in first-out and carry every entry unchanged",
     "Each of the four queues of the fetch unit delivers the entries written to it in order, once, with every field as written, also when an entry passes straight through an empty queue. A redirect or reset discards everything queued before it and nothing written with or after it. Full and empty are reported for the contents after the cycle, so that a writer respecting them never loses an entry.",
     ["histories", "schedules"], "all sequences of writes, reads, simultaneous or staggered within the cycle, redirects, resets and group-splitting predictions, up to full capacity, with arbitrary field values, in the small and the large size",
     UX + "Lost, duplicated or mixed-up entries need specific fill levels and coincidences of write, read and redirect; wrong prediction bookkeeping fields never show in program results.",
     ["front-end/fifo/fetch_address_FIFO.cpp", "front-end/fifo/instruction_FIFO.cpp", "front-end/fifo/PTAB.cpp", "front-end/fifo/front2bank_FIFO.cpp"],
     [("queue update: clear, push, pop", "front-end/fifo/PTAB.cpp"), ("pass-through when empty", "front-end/fifo/instruction_FIFO.cpp")],
     [("queued entries", "fetch addresses, fetched groups, predictions, checked groups", "front-end/front_module.h")], ["entry delivered by the queue, full and empty flags"])
prop("U02", "Fetched control transfers are recognised and predictions corrected accordingly",
     "Every fetched instruction is classified correctly as direct jump, conditional branch, indirect jump or none of these, and the target of direct ones is computed exactly. A fetch group continues at the target of its first jump or predicted-taken branch (at the predicted address if that one is indirect) and otherwise at the sequential address; fetch is restarted exactly when that differs from the prediction.",
     ["inputs"], "all instruction words, addresses, predicted directions and predicted next addresses of a fetch group, in the small and the large size",
     UX + "Wrong targets for some offset bits are repaired later by the core and cost only time, so program results do not show them.",
     ["front-end/predecode.cpp", "front-end/predecode_checker.cpp"],
     [("classification and target computation", "front-end/predecode.cpp"), ("correction of the prediction", "front-end/predecode_checker.cpp")],
     [("fetch group", "instructions, their addresses and the prediction made for them", "front-end/predecode_checker.h")], ["kind and target of each instruction; corrected directions, next address and restart request of the group"])

prop("T01", "Dependent operations take their stated latencies, no less and no more",
     "In a loop that has warmed up, the passes never take less time than the longest chain of operations depending on each other through registers: one cycle for a simple integer operation, the configured multiply latency, one cycle more than the configured latency for divide and for floating point (add and subtract 5, multiply 3, divide 10), four cycles for a load that hits the data cache, counted from the stored value when it reads one just stored. If nothing else limits the loop they take at most an eighth longer than the chain, plus one cycle a pass and half a cycle for every instruction off the chain. A loop of independent simple operations runs at the full decode width; cached address translation changes none of this.",
     ["programs", "configurations", "schedules"], "all loops over those operations with any mix of chained and independent work, operand routing, alignment, with and without translation, in every core size",
     "the simulator's product is cycle counts, yet the tests check only architectural results; an operation that wakes its consumers one cycle late or early leaves every result right and every reported figure wrong, and only a loop isolating that operation shows it",
     ["back-end/Isu.cpp", "back-end/include/Isu.h", "back-end/Exu/include/AbstractFU.h", "back-end/Exu/include/Fu.h", "back-end/Exu/include/FPU.h", "back-end/Prf.cpp", "back-end/Lsu/RealLsu.cpp", "MemSubSystem/RealDcache.cpp", "include/config.h"],
     [("wake-up delay by operation", "back-end/Isu.cpp"), ("pipelined and iterative units", "back-end/Exu/include/AbstractFU.h"), ("result forwarding", "back-end/Prf.cpp"), ("load-to-use path", "back-end/Lsu/RealLsu.cpp")],
     [("wake-up queue", "operations issued whose results consumers may soon use", "back-end/include/Isu.h"), ("unit pipelines", "operations under way", "back-end/Exu/include/AbstractFU.h")],
     ["cycle number at the commit of the loop's closing branch"])
prop("T02", "A loop whose transfers always go the same way is predicted",
     "In a loop whose branches, jumps and indirect jumps each go the same way every time, whose returns each go back to their direct call (functions may be called from several places), and of which no more than two compete for one place of the prediction tables, the second hundred passes suffer at most one misprediction in ten passes. With one or two branches among them whose directions repeat every second or fourth time it is at most one in three passes. Instructions in the loop that make fetching start anew do not change this.",
     ["programs", "configurations"], "all such loops of up to sixteen constructs with calls nested up to four deep, at any address, in every core size",
     "a predictor that is never trained, trained at the wrong index or whose return stack is off by one still yields right results, so no functional test can fail; the only symptom is the misprediction count of programs that ought to have none",
     ["front-end/BPU/BPU.h", "front-end/BPU/dir_predictor/TAGE_top.h", "front-end/BPU/target_predictor/BTB_top.h", "front-end/BPU/type_predictor/TypePredictor.h", "front-end/train_IO.h"],
     [("direction prediction and training", "front-end/BPU/dir_predictor/TAGE_top.h"), ("target prediction", "front-end/BPU/target_predictor/BTB_top.h"), ("kind prediction", "front-end/BPU/type_predictor/TypePredictor.h"), ("return stack and histories", "front-end/BPU/BPU.h")],
     [("return stack", "addresses of pending returns", "front-end/BPU/BPU.h"), ("global history", "outcomes of recent branches", "front-end/BPU/BPU.h"), ("update queue", "committed branches waiting to train the tables", "front-end/BPU/BPU.h")],
     ["misprediction counters at the commit of the loop's closing branch"])
prop("T03", "A working set that fits the caches is read from memory once",
     "In a loop whose instruction and data lines and page tables fit the caches (at most four lines in any 64th of the lines, at most fourteen pages) and whose control flow is predictable, the second half of the passes reads none of those lines from memory again and writes nothing back.",
     ["programs", "configurations", "schedules"], "all loops of loads and stores over such a working set, any order, any mix of clean and dirty lines, translated or not, any memory latency, in every core size",
     "evicting a line although a free way exists, forgetting a use, or losing a fill leaves all values right; tests compare values only, while bus traffic and run time silently grow",
     ["MemSubSystem/RealDcache.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/WriteBuffer.cpp", "front-end/icache/icache.cpp", "front-end/icache/icache_module.cpp", "front-end/icache/GenericTable.h", "MemSubSystem/PtwWalker.cpp"],
     [("victim choice and replacement state", "MemSubSystem/RealDcache.cpp"), ("miss handling", "MemSubSystem/MSHR.cpp"), ("instruction cache lookup and fill", "front-end/icache/icache.cpp")],
     [("cache tags and validity", "which lines are present", "MemSubSystem/RealDcache.cpp"), ("dirty bits", "which lines differ from memory", "MemSubSystem/RealDcache.cpp")],
     ["read requests and writes accepted by the memory interface"])
