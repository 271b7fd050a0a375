#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that long texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","All execution engines agree on every program",
 "For every program, arguments, instruction-set/version configuration and cost function, the plain interpreter, the tracing interpreter and the assembly engine with each of its trace decoders, on flat or sparse memory, either all succeed with the same exit code, cycle count, registers, memory contents and page flags, or all fail. Along the way each of them hands the host the same sequence of syscalls and breakpoints, with the same registers and cycle count at each. When the failure is a single memory fault inside decodable code the reported kind of error is the same too.",
 ["programs","inputs","configurations"],
 "every guest program (incl. ones with long basic blocks, page-crossing code, trace-slot and decode-cache collisions, faults), every isa/version/memory-size/cost-function configuration",
 "Tests run ~60 fixed binaries mostly on one engine each; agreement needs arbitrary programs on all engines side by side. The assembly engine is ~2400 hand-written lines with caches keyed on pc, page and frame that only collide in unusual layouts.",
 ["src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/machine/asm/traces.rs","src/machine/asm/execute_x64.S","src/instructions/execute.rs"],
 [("direct-threaded assembly loop","src/machine/asm/execute_x64.S"),("trace decoders","src/machine/asm/traces.rs"),("interpreter step","src/machine/mod.rs DefaultMachine::step"),("trace interpreter","src/machine/trace.rs run_with_decoder")],
 ["return value of run","registers/pc/cycles accessors","memory load_bytes and fetch_flag","Syscalls::ecall and Debugger::ebreak callbacks"])
p("C02","Instructions compute what the RISC-V specification says",
 "For every supported instruction (I, M, C, A and the B extension, 64-bit on all engines and 32-bit on the Rust engines) and all operand values, register choices and immediates, executing it changes the destination register, memory, pc and nothing else exactly as the RISC-V specification prescribes. x0 always reads zero, word-sized results are sign-extended, division by zero, overflow and shift-amount masking follow the specification. The few historical deviations of VM version 0 are limited to the documented ones (loads touching the last byte of memory, jalr with identical source and destination, rejected compressed hints).",
 ["inputs","programs","configurations"],
 "every instruction x operand values x register aliasing x immediate x engine x version",
 "Tests sample a few operand values per instruction; the property quantifies over 2^128 operand pairs and all register aliasings, and lives in three separate implementations.",
 ["src/instructions/execute.rs","src/instructions/common.rs","src/instructions/register.rs","src/machine/asm/execute_x64.S","definitions/src/instructions.rs"],
 [("handlers","src/instructions/execute.rs"),("register arithmetic","src/instructions/register.rs"),("assembly handlers","src/machine/asm/execute_x64.S")],
 ["registers, pc and memory after each instruction"])
p("C03","Decoding accepts exactly the enabled encodings and gets them right",
 "For every instruction word the decoder recognises it exactly when it is a legal encoding of the base set or of an enabled extension for the configured version and register width, yields the operation, registers, immediate and length the RISC-V encoding tables prescribe, and otherwise reports an invalid instruction naming that pc and word. Decoding through the caches, at any address (page ends, cache-colliding addresses) and in any order, gives the same result as decoding afresh.",
 ["inputs","configurations","histories"],
 "all 2^16 compressed words exhaustively, 32-bit words (structured and random), all isa/version/width settings, any sequence of addresses",
 "Tests decode a few dozen words; the encoding space is 2^32 per configuration and cache effects depend on the decode history.",
 ["src/decoder.rs","src/instructions/rvc.rs","src/instructions/i.rs","src/instructions/m.rs","src/instructions/a.rs","src/instructions/b.rs","src/instructions/utils.rs","src/instructions/mod.rs"],
 [("instruction factories","src/instructions/{rvc,i,m,a,b}.rs factory"),("fetch and decode cache","src/decoder.rs decode_raw")],
 ["InstDecoder::decode result and error"])
p("C04","Macro-op fusion never changes what a program computes",
 "With macro-op fusion enabled every program that finishes produces the same exit code, registers, memory, syscalls and control flow as with it disabled, for VM version 2 on every engine, whatever registers the fusable sequences use and however control enters them. Only the cycle count differs, and a fused group is charged exactly the cost of the fused operation. In version 1 the only differences are the documented ones of far jumps whose scratch register is not the link register.",
 ["programs","inputs","configurations"],
 "all instruction sequences near a fusion pattern (register aliasing, x0, immediates at the 32-bit limits, jumps into the middle, pattern split over pages or block ends) x operand values",
 "Tests contain a handful of fused sequences with fixed registers; correctness depends on every aliasing of up to five registers.",
 ["src/decoder.rs","src/instructions/execute.rs","src/machine/asm/execute_x64.S"],
 [("fusion rules","src/decoder.rs decode_mop"),("fused handlers","src/instructions/execute.rs handle_adc.. handle_custom_load_imm"),("fused assembly handlers","src/machine/asm/execute_x64.S")],
 ["final state with and without fusion"])
p("C05","Guest code can never write executable pages or execute writable ones",
 "Whatever a guest executes, it can never change a byte of a page that is marked executable and never have an instruction executed that was fetched, even partly, from a page that is not; such an attempt ends the run with a permission error (or out-of-bound error) on every engine. Pages loaded as frozen can never be re-initialised, and host-side stores through the machine's memory obey the same permission checks. This stays true after earlier faults, host changes to page flags, resets and reloads.",
 ["programs","inputs","histories","configurations"],
 "all guest stores/AMOs/SCs and jumps at any address, size and alignment, in any order with legal accesses and host-side flag changes",
 "Tests try a few single illegal accesses; the engines cache permission checks per page, so violations need particular histories.",
 ["src/memory/wxorx.rs","src/memory/mod.rs","src/machine/asm/mod.rs","src/machine/asm/execute_x64.S","src/elf.rs"],
 [("W^X wrapper","src/memory/wxorx.rs"),("assembly write check","execute_x64.S CHECK_WRITE"),("frozen pages","init_pages")],
 ["contents of executable pages before/after","error returned by run and by Memory methods"])
p("C06","The VM never touches host memory outside its own buffers",
 "No guest program, program image, argument list, snapshot or sequence of memory calls makes the VM read, write or execute host memory outside the buffers it allocated for that machine, read memory it never initialised, release memory wrongly, or corrupt the host's registers or stack across a run. Every guest access outside the guest address space is reported as an error instead.",
 ["programs","inputs","histories"],
 "hostile guest addresses (all alignments around 0, page, frame and memory end, 2^31, 2^32, 2^63, 2^64), hostile images and API calls, on all engines",
 "Out-of-bounds host accesses rarely change a test's result; they need a memory-error detector and hostile addresses.",
 ["src/machine/asm/mod.rs","src/machine/asm/execute_x64.S","src/machine/asm/traces.rs","definitions/src/asm.rs","src/memory/flat.rs","src/memory/sparse.rs"],
 [("bounds checks in assembly","execute_x64.S CHECK_READ/CHECK_WRITE"),("raw pointer helpers","definitions/src/asm.rs cast_ptr_to_slice"),("bounds checks","src/memory/mod.rs check_no_overflow")],
 ["guard pages and red zones around every VM allocation","AddressSanitizer reports","host callee-saved registers around the assembly entry point"])
p("C07","Guest memory behaves as one flat little-endian byte array",
 "For every memory implementation and every sequence of loads, stores, bulk stores, fills and page initialisations, by the guest and by the host in any interleaving, each successful read returns exactly the bytes most recently written there (zero if never written), little-endian, for any size and alignment. An access succeeds exactly when it lies wholly inside the address space and its permission allows it, and a rejected access changes no byte. Permission and other page flags read back as they were set, cleared or initialised.",
 ["histories","inputs","configurations"],
 "all operation sequences on flat, sparse, write-xor-execute and assembly-machine memory, aligned and straddling pages and frames",
 "Unit tests perform single stores and loads; lazily initialised frames, per-page caches and page straddling make correctness history-dependent.",
 ["src/memory/flat.rs","src/memory/sparse.rs","src/memory/wxorx.rs","src/memory/mod.rs","src/machine/asm/mod.rs"],
 [("flat","src/memory/flat.rs"),("sparse paging","src/memory/sparse.rs fetch_page"),("lazy frames","src/machine/asm/mod.rs check_memory, FastMemory")],
 ["Memory trait results against a byte-array model"])
p("C08","Fresh guest memory reads zero and runs are deterministic",
 "Memory that nobody wrote reads as zero, and the result of a run depends only on the program, arguments, configuration and host callbacks: never on what the host heap contained before, on earlier use of the same machine before a reset, or on other machines. Repeating a run gives bit-identical results.",
 ["programs","histories","configurations"],
 "all programs and images (including zero-filled segments of any size/placement) under different contents of the recycled host memory",
 "Test processes get zeroed memory from the operating system, so reading uninitialised memory looks like reading zeros.",
 ["src/machine/asm/mod.rs","src/machine/asm/execute_x64.S","definitions/src/asm.rs","src/memory/mod.rs","src/memory/sparse.rs"],
 [("lazy frame initialisation","src/machine/asm/mod.rs inited_memory, FastMemory::prepare_memory"),("page fill","src/memory/mod.rs fill_page_data")],
 ["memory contents and results under differently poisoned allocations"])
p("C09","Cycles charged equal the cost of the instructions executed",
 "When a run finishes, and at every syscall or breakpoint, the consumed cycles equal the sum of the configured cost of every instruction (or fused group) executed so far plus whatever syscalls added, on every engine, regardless of how code is cut into blocks, entered by jumps, cached, or interleaved with resets, step-wise execution or resumption. The built-in cost estimate assigns each operation its published cost.",
 ["programs","inputs","configurations"],
 "all programs x cost functions x engines x suspension points",
 "Tests compare totals of few fixed programs; cycles are consensus-critical and the block-wise charging of the assembly engine can only be checked against per-instruction sums for arbitrary control flow.",
 ["src/cost_model.rs","src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/traces.rs","src/machine/asm/execute_x64.S"],
 [("per-instruction charging","src/machine/mod.rs step/add_cycles"),("block charging","src/machine/asm/traces.rs, execute_x64.S trace entry"),("cost table","src/cost_model.rs estimate_cycles")],
 ["cycles() at syscalls, breakpoints and exit"])
p("C10","The cycle limit is never exceeded and stopping at it loses nothing",
 "A run whose total cost is within the limit finishes normally, one whose cost exceeds it ends with the cycles-exceeded error (or cycles-overflow if the counter would wrap) on every engine, and the consumed counter never goes above the limit through guest execution. After stopping at the limit, raising it and running the same machine again produces exactly the final state and total cycles of an uninterrupted run, however often that happens; the same holds when a syscall that adds cycles without checking goes over the limit.",
 ["programs","inputs","configurations","fault_sequences"],
 "all programs x all limits 0..total+1 and near 2^64 x engines x sequences of limit increases",
 "Tests use single limits on single programs; exactness matters at every possible limit value, and block-wise charging makes each engine stop at different places.",
 ["src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/machine/asm/traces.rs","src/machine/asm/execute_x64.S"],
 [("limit checks","src/machine/mod.rs add_cycles, ecall"),("limit check at block entry","execute_x64.S .exit_max_cycles_exceeded")],
 ["run result, cycles() and state after continuation"])
p("C11","Suspending to a snapshot and resuming elsewhere is invisible",
 "A machine suspended at any point where its run returned (cycle limit, pause, a syscall asking to stop) and rebuilt in a fresh machine from its snapshot continues to exactly the same result, registers, memory, page permissions and remaining cycles as if it had never been suspended, whichever engine takes the snapshot, whichever resumes it, through serialisation, and however many times this is repeated, for 64-bit and 32-bit machines. A snapshot of a different VM version is refused.",
 ["programs","crash_points","configurations"],
 "all programs x all suspension points x engine pairs x repeated suspensions",
 "Tests resume a few programs at one or two fixed cycle limits.",
 ["src/snapshot.rs","src/machine/mod.rs","src/machine/asm/mod.rs"],
 [("make/resume","src/snapshot.rs make_snapshot, resume"),("dirty flags","Memory::set_flag FLAG_DIRTY")],
 ["final outcome versus uninterrupted run","memory and flags after resume"])
p("C12","Data-source snapshots restore machines exactly",
 "A machine that loaded its program and other data through a tracked data source, was suspended at any point and rebuilt in a fresh machine from the snapshot plus the same data source, has the same registers, pc, memory contents, page permissions, reservation, cycles and cycle limit as the original and finishes identically, on any engine and through repeated snapshots, whatever the guest or host wrote over loaded data before. Pages whose current content is not exactly their recorded slice of the data source are carried in the snapshot itself; a missing data item or version mismatch is an error.",
 ["programs","crash_points","histories"],
 "all interleavings of program loading, tracked host writes, guest writes, untracked host writes and snapshots; overlapping segments and unaligned loads",
 "Tests cover a few fixed programs with one data item; correctness depends on the history of overlapping tracked and untracked writes.",
 ["src/snapshot2.rs","src/elf.rs"],
 [("page tracking","src/snapshot2.rs track_pages, untrack_pages, mark_program, store_bytes"),("restore","src/snapshot2.rs resume")],
 ["state after resume versus original","final outcome"])
p("C13","Program images load exactly as their headers say, or are refused",
 "For every byte string offered as a program, loading either maps each loadable segment's file bytes at its address (as far as its page-rounded memory size reaches) with zeros up to that size and the permissions its flags ask for, sets the entry point and reports the bytes loaded, or returns an error. Images with unreadable or writable-and-executable segments, segments outside the file or the address space, the wrong word size, or overlapping a frozen page are refused. All engines load the same image identically.",
 ["inputs","configurations"],
 "all ELF images, well-formed or mutated, for versions 0-2, 32/64-bit, all engines",
 "Tests load a fixed set of binaries and a few malformed ones.",
 ["src/elf.rs","src/machine/mod.rs","src/memory/mod.rs","src/memory/wxorx.rs","src/machine/asm/mod.rs"],
 [("header parsing","src/elf.rs parse_elf, convert_flags"),("mapping","src/machine/mod.rs load_binary_inner, init_pages, fill_page_data")],
 ["memory, flags, pc and result after load"])
p("C14","Arguments arrive intact on a well-formed stack",
 "For every argument list, after loading the stack pointer is 16-byte aligned and points at argc followed by the pointers to each argument, each a NUL-terminated copy of the given bytes, then a null pointer, all inside the stack region; with no arguments memory is untouched and argc reads zero. An argument list that does not fit is refused. Version 0 keeps its original layout.",
 ["inputs","configurations"],
 "all argument counts, lengths and contents incl. empty, zero bytes and lists close to or over the stack size; versions 0-2; 32/64-bit; all engines and memory sizes",
 "Tests pass a few short arguments.",
 ["src/machine/mod.rs"],
 [("stack setup","src/machine/mod.rs initialize_stack")],
 ["registers and memory after load_program","argc/argv as read by a guest"])
p("C15","Pause requests from any thread stop the run once and lose nothing",
 "A pause requested from any thread at any moment makes a looping guest stop with the pause result after a bounded number of further backward jumps, consuming the request; a request made before the run starts is honoured too, and one made after the run ended does not corrupt anything. The machine can then be run again and ends with exactly the state and cycles of an unpaused run, however many pauses arrive, and concurrent use of the pause handle is free of data races.",
 ["schedules","programs"],
 "all arrival times of pause requests relative to guest progress, many threads, all engines",
 "Tests pause one program a few times at wall-clock moments; lost or corrupting pauses need particular interleavings.",
 ["src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/machine/asm/execute_x64.S"],
 [("pause flag","src/machine/mod.rs Pause"),("check at jumps","execute_x64.S .prepare_trace"),("check per step/trace","run_with_decoder")],
 ["run results, final state, number of requests vs pauses"])
p("C16","A reset or reloaded machine is indistinguishable from a new one",
 "After resetting a machine, inside a syscall or between runs, no register, memory byte, page permission, reservation, cycle count or cached decoding of the previous program remains visible: loading and running another program gives the same result as on a new machine with that cycle limit. Code loaded over addresses that earlier held other code executes as the new code on every engine.",
 ["histories","programs"],
 "all pairs (or chains) of programs and reset points, incl. from inside syscalls, same addresses with different code, all engines",
 "Tests reset once between two fixed programs.",
 ["src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/machine/asm/traces.rs","src/decoder.rs","src/memory/sparse.rs","src/memory/flat.rs"],
 [("reset","SupportMachine::reset, reset_memory"),("cache invalidation","reset_signal handling in run_with_decoder; TraceDecoder::reset")],
 ["final state versus fresh machine"])
p("C17","Syscalls and breakpoints are dispatched exactly once, in order",
 "Each executed ecall is offered to the registered handlers in registration order until one accepts it, exactly once per execution and with the guest's registers, cycles and memory current; an unclaimed number is an invalid-syscall error, exit ends the run with the low byte of its argument without consulting handlers, and a handler's error, register, memory and cycle changes take effect precisely. Each executed ebreak calls the debugger exactly once, or does nothing without one. Handlers are initialised once per load, before the stack is built.",
 ["programs","histories","configurations"],
 "all call numbers, handler sets, handler results and positions of ecall/ebreak in code, all engines",
 "Tests register one or two handlers with fixed numbers.",
 ["src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/syscalls/mod.rs","src/debugger.rs"],
 [("dispatch","src/machine/mod.rs ecall/ebreak"),("exits from assembly","src/machine/asm/mod.rs run_with_decoder")],
 ["log of handler invocations with machine state"])
p("C18","Store-conditional succeeds only under a live matching reservation",
 "A store-conditional writes and returns zero exactly when the most recent reservation made by this machine is for the same address and has not been consumed or cleared since; otherwise it returns non-zero and leaves memory unchanged. Every store-conditional ends the reservation, machine reset clears it, and suspending and resuming preserves it. Atomic read-modify-write operations return the old value and store the combined value, on every engine.",
 ["programs","histories"],
 "all interleavings of load-reserved, store-conditional, AMOs, plain stores, resets and snapshots over colliding addresses and widths",
 "Tests check a few fixed sequences.",
 ["src/instructions/execute.rs","src/machine/asm/execute_x64.S","src/memory/mod.rs","src/snapshot.rs","src/snapshot2.rs"],
 [("lr/sc handlers","src/instructions/execute.rs handle_lr_w..handle_sc_d"),("assembly lr/sc","src/machine/asm/execute_x64.S"),("reservation","Memory::lr/set_lr")],
 ["registers and memory after each operation","Memory::lr"])
p("C19","Stepping one instruction at a time equals running",
 "Executing a program one step at a time, on any engine offering stepping, each step executing exactly one instruction (or fused group), visits the same sequence of pc and register states as the architecture defines and ends in the same final state and cycle count as running it in one go; steps and runs can be mixed.",
 ["programs","configurations"],
 "all programs x engines with step x points of switching between step and run",
 "Tests step through one program in one place.",
 ["src/machine/mod.rs","src/machine/asm/mod.rs"],
 [("interpreter step","src/machine/mod.rs step"),("assembly step","src/machine/asm/mod.rs step")],
 ["state after each step"])
p("C20","No input makes the VM panic, abort or hang",
 "For every program image, argument list, guest code, snapshot and host-side memory or register call with arbitrary values, on every engine and configuration, the call returns a value or an error: it never panics, aborts the process or runs on without consuming cycles. Work done per call is bounded by the sizes involved and the cycle limit.",
 ["inputs","programs","configurations"],
 "arbitrary bytes as images, code, snapshots; arbitrary addresses/lengths in API calls",
 "Tests feed a handful of historic crashers.",
 ["src/elf.rs","src/decoder.rs","src/machine/mod.rs","src/machine/asm/mod.rs","src/memory/sparse.rs","src/memory/flat.rs","src/snapshot.rs","src/snapshot2.rs","src/instructions/execute.rs"],
 [("error returns instead of panics","whole API")],
 ["panics and signals observed by the harness"])
p("C21","Each VM version keeps its published behaviour",
 "Versions 0, 1 and 2 each keep exactly the behaviour they were published with: version 0 refuses loads that touch the last byte of memory, writes the link register before computing a jalr target, rejects compressed hint encodings, freezes writable segments and uses its original unaligned, 32-bit-word argument layout; later versions do none of that, and only version 2 handles jump targets and traces above 4 GiB by their full address and uses the corrected fusion rules. Fusion is refused for version 0 by the engines that run it.",
 ["configurations","programs","inputs"],
 "all programs exercising version-dependent behaviour x versions x engines",
 "Tests cover each difference with one binary; consensus needs every old version to stay bit-exact in every corner.",
 ["src/machine/mod.rs","src/elf.rs","src/instructions/common.rs","src/instructions/execute.rs","src/instructions/utils.rs","src/instructions/rvc.rs","src/decoder.rs","src/machine/asm/execute_x64.S"],
 [("versioned opcodes","src/instructions/utils.rs jalr/lb/..."),("version tests","src/elf.rs, src/machine/mod.rs, src/decoder.rs"),("v0/v1 assembly handlers","src/machine/asm/execute_x64.S")],
 ["outcomes per version against a versioned reference model"])
p("C22","Every page modified since its dirty mark was cleared is marked dirty",
 "Whatever wrote to it (guest store, atomic, host store or fill, page initialisation) and on every memory implementation and engine, a page whose content changed since the dirty mark was last cleared carries the dirty mark, so that a snapshot taken then contains it. Reads and instruction fetches never set the mark, and clearing one page's mark affects no other page or flag.",
 ["histories","programs"],
 "all interleavings of guest and host writes with clearing of dirty marks, incl. page-straddling writes and writes repeated to the same page",
 "Tests check marks after a few host stores; the engines skip the marking for repeated writes to one page, so loss needs a particular history.",
 ["src/memory/flat.rs","src/memory/sparse.rs","src/memory/mod.rs","src/machine/asm/mod.rs","src/machine/asm/execute_x64.S"],
 [("set_dirty","src/memory/mod.rs"),("assembly write check","execute_x64.S CHECK_WRITE"),("write cache reset","src/machine/asm/mod.rs set_flag/clear_flag")],
 ["fetch_flag versus content diffs"])
p("C23","Machines running side by side do not influence each other",
 "Any number of machines, of any engines, created, run, paused, snapshotted, reset and dropped concurrently on different threads or interleaved on one thread each behave exactly as they do alone. There is no data race between them.",
 ["schedules","programs"],
 "all interleavings of machine lifecycles over threads",
 "Tests run machines one at a time.",
 ["src/machine/asm/mod.rs","src/machine/asm/execute_x64.S","src/machine/mod.rs","src/machine/trace.rs","definitions/src/asm.rs"],
 [("per-machine state only","AsmCoreMachine, decoders, DefaultMachine")],
 ["results of concurrent runs versus the same run alone; race detector reports"])
p("C24","Chaos mode only affects memory the program never wrote",
 "With chaos mode on, the assembly engine fills untouched memory with pseudo-random bytes fully determined by the seed, every byte the program, loader or host has written still reads back exactly, and a program that reads only bytes written before behaves as with chaos mode off. Two runs with the same seed are identical.",
 ["programs","inputs","configurations"],
 "all programs x seeds",
 "The chaos feature set runs the same fixed tests and never compares contents.",
 ["src/machine/asm/mod.rs","definitions/src/asm.rs"],
 [("frame fill","src/machine/asm/mod.rs inited_memory"),("switch","definitions/src/asm.rs new_with_memory")],
 ["memory contents and outcomes per seed"])
p("C25","Symbolic register values denote the same results as concrete ones",
 "For every instruction sequence executed over symbolic register values, evaluating the resulting expressions under any assignment of the initial registers and memory gives the value concrete 64-bit execution would have produced.",
 ["programs","inputs"],
 "all register operations x operand expressions x assignments",
 "No existing test evaluates a symbolic expression.",
 ["src/instructions/ast.rs","src/instructions/register.rs","src/instructions/execute.rs","src/instructions/utils.rs"],
 [("symbolic register","src/instructions/ast.rs Value")],
 ["evaluated expressions versus concrete registers"])
p("C26","The 64-bit ARM assembly engine behaves like the other engines",
 "On 64-bit ARM hosts the assembly engine produces for every program the same result, cycles, registers, memory, page flags, reservation and errors as the other engines, stops at the same cycle limits, pauses, steps and host calls, and keeps the platform's calling convention: it preserves what its caller owns, keeps the stack aligned and writes nowhere but in its machine, that machine's memory and its own stack frame.",
 ["programs","inputs","configurations"],
 "all programs on aarch64 hosts",
 "The tests run on the build host's architecture only; the ARM engine is never executed here by any of them.",
 ["src/machine/asm/execute_aarch64.S","src/machine/asm/mod.rs"],
 [("direct-threaded assembly loop","src/machine/asm/execute_aarch64.S")],
 ["as for the x86-64 engine","stack, callee-saved registers and writes of the engine's machine code"])
p("C27","Decoded instructions print and convert faithfully",
 "For every instruction the decoder can produce, fused groups included, its tagged form converts back to the same instruction, and its printed text names that operation, its registers by their standard names and its immediate as a signed number. Building an instruction from operands and taking it apart again gives the operands back, for every operation, register, immediate and length.",
 ["inputs"],
 "all instructions x operands",
 "Existing tests print a handful of instructions; tagged conversion and printing are never checked against operands in general.",
 ["src/instructions/mod.rs","src/instructions/tagged.rs","definitions/src/instructions.rs"],
 [("tagged conversion","src/instructions/tagged.rs TaggedInstruction"),("typed wrappers","src/instructions/mod.rs Rtype Itype Stype Utype R4type R5type")],
 ["printed text","tagged instruction","operands read back"])
p("C28","The library's short routes equal assembling the parts by hand",
 "Running a program with run or run_with_memory, with memories and cores of default size (4 MiB, full instruction set, version 2, no cycle limit, zero costs), through the tracing and assembly wrappers' own load, limit and accessor functions, with a pause handle given to the builder, or with one decoder serving several machines of the same program gives exactly what the same parts assembled by hand give.",
 ["programs","inputs","configurations"],
 "all programs x routes",
 "Tests use the routes to run programs but never compare what they give with the parts.",
 ["src/lib.rs","src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/machine/asm/traces.rs","src/memory/mod.rs"],
 [("short route","src/lib.rs run_with_memory"),("wrapper","src/machine/trace.rs TraceMachine"),("wrapper","src/machine/asm/mod.rs AsmMachine")],
 ["exit code or error","registers","cycles","memory"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
