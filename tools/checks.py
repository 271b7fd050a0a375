"""What each check runs. secs: seconds of workload per tier, on every worker."""
Q, T = 30, 420
VARIANTS = {
    "plain": {"env": {"RUSTUP_TOOLCHAIN": "1.81.0"}},
    "asan": {"env": {"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": "-Zsanitizer=address"}, "args": ["--target", "x86_64-unknown-linux-gnu", "--features", "sysalloc"], "sub": ["x86_64-unknown-linux-gnu"],
             "run_env": {"ASAN_OPTIONS": "exitcode=86:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:allow_user_segv_handler=1:detect_stack_use_after_return=1"}, "report_rc": [86]},
    "tsan": {"env": {"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": "-Zsanitizer=thread"}, "args": ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--features", "sysalloc"], "sub": ["x86_64-unknown-linux-gnu"],
             "run_env": {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1"}, "report_rc": [66]},
}
VARIANTS["arm"] = {"env": {"RUSTUP_TOOLCHAIN": "1.81.0"}, "args": ["--features", "arm"]}
REF = "independent reference model of the instruction set and of the machine, run in lockstep position at the host boundary"
CHECKS = {
    "C01": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: differential execution of every engine against a reference machine, boundary-event logs compared offline",
            "rule": "a case is one generated guest (image, host behaviour, cost function, ISA and version drawn at random) run by the reference model and by all engines; it counts once per distinct set of operations executed and fused, ISA, version and way of ending"},
    "C02": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: all registers observed after every target instruction, judged by a reference instruction-set model",
            "rule": "a case is a batch of 40 single instructions or short sequences with chosen operands, or one control transfer with a chosen offset, or one refused access; distinct by set of operations executed, ISA, version, register width and way of ending"},
    "C03": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: the real decoder driven over all 16-bit words, structured 32-bit sweeps and random address sequences, each result judged by a reference decoder",
            "rule": "a case is a sweep (every 16-bit word, or all opcode/funct3/rs2 combinations of one funct7) or a sequence of 3000 addresses through a warm cache; distinct by operation, length, ISA, version and width, and by page offset for the address sequences"},
    "C04": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: same guest with fusion on and off on every engine plus a reference matcher for what has to be fused and charged",
            "rule": "a case is one guest rich in fusable groups and near misses; distinct by set of operations executed, number of fused groups, version and width"},
    "C05": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: histories of guest accesses, jumps, host calls and page-flag changes on all engines, every permission decision judged by a reference memory",
            "rule": "a case is a history of about 120 operations (guest runs of stubs with hostile addresses and host calls) applied to all engines at once; distinct by page-flag state, code position, version and width at the points where everything is compared"},
    "C07": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: operation histories on every memory implementation, every result and the whole contents judged by a flat byte-array model",
            "rule": "a case is a history of operations on all engines' memories or on the bare memory types; distinct by page-flag state and configuration at the points where the whole memory is compared"},
    "C18": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: histories of reservations, conditional stores, atomics, plain stores, resets and snapshots on all engines against a reference reservation automaton",
            "rule": "a case is a history of about 120 operations rich in atomics; distinct by page-flag state, code position, version and width at the points where everything is compared"},
    "C22": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: histories of guest and host writes with dirty marks cleared in between; content change per page tracked by the reference and compared with the marks",
            "rule": "a case is a history of about 120 operations rich in clearings of dirty marks; distinct by page-flag state, code position, version and width at the points where everything is compared"},
    "C09": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: cycle counter logged at every host event and stop on all engines, judged by a per-instruction cost ledger of the reference machine",
            "rule": "a case is one guest run whole on every engine, or cut by limits, steps, pauses and yields, or one pass over the cost table; distinct by set of operations executed and fused, engine and number of pieces"},
    "C10": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: runs stopped at drawn cycle limits and resumed, counter monitored against the limit at every host event, final state compared with an uninterrupted reference run",
            "rule": "a case is one guest run under a series of limits on every engine (raised), under exact, tight and absurd limits (tight), or with the counter near 2^64 (wrap); distinct by operations executed, engine, number of pieces, limit and starting count"},
    "C11": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: chains of stop, serialised snapshot, resume on a drawn engine, each compared with a reference machine that was never suspended",
            "rule": "a case is one guest cut at limits, pauses, yields and steps, carried between engines by snapshots, or a set of refused versions; distinct by engine, cycle count and pc of each snapshot"},
    "C12": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: chains of tracked loads, guest and host writes, data-source snapshots and resumes on drawn engines against a reference machine; every snapshot's pages audited against memory and data source",
            "rule": "a case is one guest with tracked data, carried between engines by data-source snapshots, or a set of refusals; distinct by engine, cycle count and pc of each snapshot"},
    "C19": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: registers, pc and cycles observed after every single step and compared with the reference machine; steps mixed with runs, limits, pauses and yields",
            "rule": "a case is one guest executed step by step, or by a mix of steps and runs, on every engine that steps; distinct by operations executed, engine and number of pieces"},
    "C14": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: argument lists of every size loaded by every engine, the stack then read back byte by byte and judged by a layout model, everything outside it compared with its earlier content",
            "rule": "a case is one argument list (or a series of stack regions) on every engine, version and width; distinct by argument shape, memory size and version"},
    "C15": {"secs": {"quick": 40, "thorough": 480}, "variants": [("plain", 0.7), ("tsan", 0.3)],
            "technique": "race detection and runtime monitoring: pauses requested by handlers and by other threads at drawn moments, the number of backward jumps after each request counted against a bound, final state compared with an unpaused reference run; ThreadSanitizer build",
            "rule": "a case is one guest with requests from its host calls or from up to four threads, an endless loop to be stopped, or a history of clones of the pause handle; distinct by operations executed, engine and number of pauses"},
    "C16": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: a used machine reset between runs or inside a host call, then observed whole (registers, memory, flags, reservation, cycles, decoding) and run against a reference machine that is new",
            "rule": "a case is a chain of programs run on one machine with resets or execs between them, or code replaced in place; distinct by operations executed, engine and way of resetting"},
    "C17": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: log of every call of every handler and debugger, with the state it saw, checked against the order and content the reference machine gives",
            "rule": "a case is one guest rich in host calls with a drawn set of handlers, debuggers, refusals, errors and changes made by them; distinct by operations executed, number of handlers and way of ending"},
    "C21": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: the same guest run under all three versions on every engine, each observed against the reference machine of that version and, for the documented differences, against directed expectations",
            "rule": "a case is one guest or one directed corner under all three versions; distinct by operations executed, corner, version and width"},
    "C24": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: bytes written and bytes read before being written tracked by a shadow map of the reference machine, compared with the chaos-mode engines; runs with one seed repeated",
            "rule": "a case is one guest, one history of host calls or one comparison of seeds on the assembly engines; distinct by operations executed, seed and memory size"},
    "C13": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: well-formed, twisted and damaged program images loaded by every engine, each verdict, the whole memory and all page flags judged by an independent reader of the headers",
            "rule": "a case is one image, or a chain of images over one another, on every engine; distinct by headers, version, width and way of loading"},
    "C06": {"secs": {"quick": 45, "thorough": 480}, "variants": [("plain", 0.7), ("asan", 0.3)],
            "technique": "memory-error detection: every VM buffer between inaccessible pages and filled with a chosen byte, AddressSanitizer build, host registers checked around the assembly entry point; hostile sessions, images, guests, snapshots and memory calls",
            "rule": "a case is one hostile session, one bare memory under 60 calls, one guest leaving its memory on all engines, one history, or one chain of forged snapshots; distinct by engine, version, ISA and ways of ending"},
    "C08": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: the same runs and sessions repeated under different contents of freshly allocated host memory, on reused and reset machines, all observable state digested and compared; unwritten bytes compared with zero",
            "rule": "a case is one guest, session, set of segments, fresh machine or reuse on all engines; distinct by operations executed, operations and their places, and configuration"},
    "C20": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: hostile images, code, host calls and forged snapshots in arbitrary order on one machine; panics, signals, CPU time per call and size of every allocation monitored",
            "rule": "a case is one hostile session, one bare memory under many calls, one image, or one piece of random code; distinct by engine, version, ISA, way of ending and amount executed"},
    "C23": {"secs": {"quick": 45, "thorough": 480}, "variants": [("plain", 0.6), ("tsan", 0.4)],
            "technique": "race detection and differential monitoring: machine lives (loads, runs, pauses, snapshots, resets, drops) on threads, interleaved, nested in system calls and handed between threads, each compared operation by operation with the same life alone; ThreadSanitizer build",
            "rule": "a case is a set of 2 to 8 machine lives run alone and then side by side in one of four ways; distinct by kinds of machines and the observed overlap or order"},
    "C25": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: the real instruction implementations run over symbolic registers and a recording memory, every resulting expression evaluated by an independent evaluator under drawn assignments and compared with the same instructions run on 64-bit registers",
            "rule": "a case is a batch of register-interface calls, or one decoded instruction sequence evaluated under 6 assignments; distinct by set of operations executed, or by operand forms and magnitudes"},
    "C26": {"secs": {"quick": 45, "thorough": 480}, "variants": [("arm", 1.0)],
            "technique": "runtime monitoring: the machine code assembled from the ARM engine's source executed by an A64 interpreter that watches stack, callee-saved registers, jumps and every write, under the workloads of the other properties and judged by the same reference machine",
            "rule": "a case is one case of the workload of another property (programs, single instructions, jumps, faults, fusion, permissions, reservations, dirty marks, cycles, limits, snapshots, pauses, resets, dispatch, steps, versions, chaos, hostile sessions) with every assembly machine an ARM one; distinct as in that property"},
    "C27": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: instructions produced by the real decoder (and built from drawn operands) tagged, rebuilt, taken apart and printed; the text is parsed by an independent reader and judged by the operands the reference decoder names",
            "rule": "a case is a batch of words or fusable sequences decoded, or of instructions built from drawn operands; distinct by operation, form, width and length"},
    "C28": {"secs": {"quick": Q, "thorough": T},
            "technique": "runtime monitoring: the same program run through the library's short routes and through parts put together by hand, every observable compared, and both judged by the reference machine",
            "rule": "a case is one program run by each short route and by hand; distinct by operations executed, route and way of ending"},
}
