#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=hook)))

STEP = "one callback per iteration of the run loop, plus read access to CSRs and the privilege level (cfg carron_sim)"
TESTS = "The 8 baseline tests decode a handful of words, execute one C.LI and store/load a few DRAM bytes with no clock, interrupt, fault or device event; "

prop("C01", "Every retired instruction has its RV32/64IMAC effect",
 "Whatever interrupts, timer jumps, page-table edits and device events surround it, each instruction the emulator retires changes exactly the integer registers, program counter and memory bytes that the RV32IMAC/RV64IMAC specification prescribes for it. Nothing else changes: no other register, no other memory byte, no instruction skipped or executed twice around an interrupt.",
 ["programs", "schedules", "inputs"], "every instruction sequence over the base, M, A, C and Zicsr sets for RV32 and RV64, every operand value, every placement of asynchronous events between instructions",
 TESTS + "operand corner cases, jumps to self and instructions at an interrupt boundary are never executed.",
 ["src/cpu/execution/inst_32/base_i.rs", "src/cpu/execution/inst_32/m_extension.rs", "src/cpu/execution/inst_16/c_extension.rs", "src/cpu/decode", "src/cpu/fetch.rs", "src/lib.rs"],
 [("fetch/decode/execute once per loop iteration", "src/cpu.rs exec_one_cycle"), ("pc update after execution", "src/cpu/execution/inst_32.rs, inst_16.rs")],
 [("regs", "x0..x31, masked to XLEN", "src/cpu/reg.rs"), ("pc", "program counter", "src/cpu.rs")], ["registers, pc and memory after every iteration of Emulator::emulation"], STEP)

prop("C02", "Synchronous exceptions are precise",
 "An instruction that raises an exception (illegal instruction, misaligned or faulting access, breakpoint, environment call) has no other architectural effect: registers and memory are as before it. The trap handler sees the correct cause, the exception pc of that very instruction, a trap value that names the faulting address (or the instruction word/zero for illegal instructions, zero for environment calls and interrupts), and starts at the trap vector of the privilege level the delegation registers select.",
 ["programs", "schedules", "inputs"], "every faulting instruction at every privilege level, delegation setting, vector mode and position relative to pending interrupts",
 TESTS + "no test executes a faulting instruction.",
 ["src/cpu/trap.rs", "src/cpu.rs", "src/cpu/execution", "src/cpu/decode", "src/lib.rs"],
 [("error return path to Cpu::trap", "src/lib.rs emulation"), ("delegation and CSR update", "src/cpu/trap.rs trap")],
 [("mcause/scause, mepc/sepc, mtval/stval", "what the handler reads", "src/cpu/csr.rs")], ["CSRs, privilege and pc after the faulting iteration"], STEP)

prop("C03", "Trap entry and return keep the privilege and interrupt-enable stack",
 "Every trap into M or S mode saves the interrupted privilege level and interrupt-enable bit, disables interrupts for the target level and enters at the vector address selected by the trap-vector mode; mret and sret restore exactly what was saved, reset the stack fields as specified, and resume at the saved pc. This holds for every nesting of interrupts and exceptions over all privilege levels.",
 ["histories", "schedules", "programs"], "every nesting and interleaving of traps, returns and status writes, direct and vectored vectors, RV32 and RV64",
 TESTS + "no test takes a trap or returns from one.",
 ["src/cpu/trap.rs", "src/cpu/execution/inst_32/priv_extension.rs", "src/cpu/csr.rs"],
 [("xPP/xPIE/xIE stack on entry", "src/cpu/trap.rs trap"), ("xRET", "src/cpu/execution/inst_32/priv_extension.rs")],
 [("mstatus", "MIE/MPIE/MPP/SIE/SPIE/SPP stack", "src/cpu/csr.rs")], ["mstatus, privilege and pc after every trap and return"], STEP)

prop("C04", "Interrupts are taken exactly when pending, enabled and highest priority",
 "Before each instruction an interrupt is taken if and only if one is pending, individually enabled and globally enabled for the current privilege level and delegation; among several the architectural priority order (machine external, software, timer, then supervisor external, software, timer) decides. An interrupt whose source stays asserted is never lost, whatever the order of masking, delegation, nesting and return, and taking it does not hide it from the pending register.",
 ["schedules", "histories"], "every arrival instant of software, timer and external interrupts relative to instructions, mask changes, traps and returns, at every privilege level and delegation",
 TESTS + "no test raises an interrupt.",
 ["src/cpu/trap.rs", "src/cpu/csr.rs", "src/bus/plic.rs", "src/bus/clint.rs"],
 [("check_interrupt before every fetch", "src/cpu/trap.rs"), ("external lines folded into mip", "src/cpu/trap.rs")],
 [("mip/mie/mideleg", "pending, enabled, delegated", "src/cpu/csr.rs")], ["whether an iteration traps with an interrupt cause; mip as read by the guest"], STEP)

prop("C05", "Timer advances monotonically and its interrupt follows the compare register",
 "Guest-visible machine time never goes backwards unless the guest writes it, advances in step with executed instructions (one tick per hundred, delivered in batches of at most fifty) and the user-visible time counter advances by the same amounts. The timer interrupt is pending exactly while time is at or past the compare value, for every value of both including wrap-around and clock jumps, and 32-bit and 64-bit accesses to the timer registers see the same value.",
 ["schedules", "histories", "inputs"], "every interleaving of instruction execution, timer/compare writes of either width, time jumps forwards and backwards, and interrupt enabling",
 TESTS + "no test touches the timer.",
 ["src/cpu.rs", "src/cpu/trap.rs", "src/bus/clint.rs", "src/lib.rs"],
 [("timer_increment once per batch", "src/lib.rs emulation, src/cpu.rs timer_increment"), ("mtime >= mtimecmp", "src/cpu/trap.rs check_interrupt")],
 [("mtime/mtimecmp", "CLINT registers", "src/bus/clint.rs"), ("time", "CSR 0xc01", "src/cpu/csr.rs")], ["CLINT registers, time CSR, mip.MTIP/STIP"], STEP)

prop("C06", "External interrupts are claimed in priority order, exactly once per completion",
 "The interrupt controller signals a context exactly while some source enabled for it is asserted, not in service, and has priority above zero and above the context's threshold; the two contexts never disturb each other's signal. A claim returns the highest-priority such source (lowest number on ties, threshold not applied, zero if none) and puts it in service, so it is not handed out again by either context until completed; a source still asserted on completion becomes claimable again. Reserved words of a context's register block read as zero and have no effect.",
 ["histories", "schedules"], "every history of line changes, enables, priorities, thresholds, claims and completions over 31 sources and both contexts, with 32-bit and 64-bit register accesses",
 TESTS + "no test touches the interrupt controller.",
 ["src/bus/plic.rs", "src/bus.rs", "src/cpu/trap.rs"],
 [("claim/complete", "src/bus/plic.rs context_claim, context_write"), ("line change", "src/bus/plic.rs set_interrupt_level")],
 [("pending/claimed/enable/priority/threshold", "per source and context", "src/bus/plic.rs")], ["register reads and the external bits of mip"], None)

prop("C07", "Serial input reaches the guest exactly once and in order",
 "The bytes the guest reads from the serial port's receive register are exactly the bytes that arrived on standard input, each once, in order, with unchanged 8-bit value, no matter how they are split into reads and lines, when they arrive relative to guest execution and register accesses, and whether the stream ends, is interrupted or contains arbitrary binary data. Every completed line, and everything received before end of file, is delivered within a bounded number of emulated instructions while the guest keeps reading.",
 ["schedules", "fault_sequences", "inputs"], "every chunking and arrival schedule of input (including EINTR, end of file, empty lines, invalid UTF-8) against every polling or interrupt-driven reader",
 TESTS + "no test constructs input or polls the serial port; the reader is a thread whose timing tests do not control.",
 ["src/bus/uart.rs", "src/bus/uart/io.rs", "src/bus.rs"],
 [("reader thread and channel", "src/bus/uart.rs new"), ("tick drains the channel into the queue", "src/bus/uart.rs tick"), ("receive register pops", "src/bus/uart/io.rs rx_byte")],
 [("rx queue", "bytes accepted but not read", "src/bus/uart.rs")], ["bytes read from the receive register; LSR"], "read(2)/pthread seams are symbol-interposed in the harness, no hook")

prop("C08", "Serial output appears once, in order, byte for byte",
 "Each byte the guest writes to the serial transmit register appears on standard output exactly once, in program order, as that single 8-bit value (only the low eight bits of the store matter), also when the host interrupts the write or accepts it only partially, and interleaved in order with console output made through the host proxy. In loop-back mode or while the divisor latch is selected nothing is written to standard output.",
 ["schedules", "fault_sequences", "inputs"], "every byte sequence and register value, every pattern of interrupted and partial host writes, every mixture with other console output",
 TESTS + "no test transmits.",
 ["src/bus/uart.rs", "src/bus/uart/io.rs", "src/bus.rs", "src/fesvr/syscall.rs"],
 [("transmit", "src/bus/uart/io.rs tx_byte"), ("register dispatch", "src/bus/uart.rs store8_with_plic")], [], ["bytes passed to write(1)"], None)

prop("C09", "Serial status registers and interrupt line agree with the queue state",
 "At every instant the data-ready status bit is set exactly when a received byte is waiting, the interrupt line and the interrupt identification register report exactly the enabled conditions that hold (received data before transmitter empty), and clearing the receive FIFO happens exactly when the guest asks for it. Configuration registers read back what was written, line and modem status cannot be changed by writing them, and byte loads of either signedness see the same register.",
 ["histories", "schedules"], "every history of register reads and writes interleaved with input arrival, loop-back and FIFO control",
 TESTS + "no test touches the serial port.",
 ["src/bus/uart.rs", "src/bus/uart/io.rs", "src/bus.rs", "src/bus/plic.rs"],
 [("update_interrupt after every relevant change", "src/bus/uart/io.rs")], [("IER/IIR/FCR/LCR/MCR/LSR", "16550 registers", "src/bus/uart.rs")], ["register reads, PLIC source 1"], None)

prop("C10", "Load-reserved/store-conditional and AMOs are atomic and make progress",
 "A store-conditional writes memory and reports success only if the most recent load-reserved on this hart named the same address and no other store-conditional, successful or not, has been executed since; otherwise it writes nothing and reports failure. A reservation and conditional not separated by a trap or a timer batch always succeed, retry loops terminate, and every AMO returns the old (sign-extended) memory value and stores the specified combination or, if it faults, does neither.",
 ["histories", "schedules", "programs"], "every interleaving of LR, SC, AMO, plain accesses, traps, interrupts and batch boundaries, over aliased and distinct addresses, W and D sizes",
 TESTS + "no test executes an atomic instruction.",
 ["src/cpu/execution/inst_32/a_extension.rs", "src/lib.rs"],
 [("reservation_set", "src/cpu.rs, src/cpu/execution/inst_32/a_extension.rs"), ("cleared each batch", "src/lib.rs emulation")],
 [("reservation_set", "physical address reserved", "src/cpu.rs")], ["rd and memory after each atomic"], STEP)

prop("C11", "Address translation and page permissions follow the current page tables",
 "Every fetch, load, store and AMO made with translation on reaches exactly the physical bytes that the Sv32/Sv39 tables in memory at that moment map it to, with the page's R/W/X/U/A/D bits, SUM, MXR and MPRV applied as specified; otherwise it takes the page fault of its own access type and touches nothing. Non-canonical addresses, malformed, misaligned-superpage or corrupted entries page-fault, and tables outside memory raise an access fault, never a crash or a stale mapping. Writing the address-translation register with a mode the hart does not have changes nothing.",
 ["histories", "inputs", "fault_sequences"], "every page-table content and every history of table edits, satp switches, permission-register changes and entry corruption between accesses, for RV32 and RV64",
 TESTS + "no test turns translation on.",
 ["src/cpu/mmu.rs", "src/cpu.rs", "src/cpu/fetch.rs"],
 [("table walk on every access", "src/cpu/mmu.rs trans_addr"), ("leaf checks", "src/cpu/mmu.rs check_leaf_pte"), ("effective privilege", "src/cpu.rs trans_addr")],
 [("satp", "root and mode", "src/cpu/csr.rs")], ["values loaded, bytes stored, causes taken"], STEP)

prop("C12", "Lower privilege levels cannot read or change what they must not",
 "Code in U or S mode that names a control register above its privilege, writes a read-only one, or executes a return, fence or register access its level or the TVM/TSR/counter-enable controls forbid, takes an illegal-instruction trap with no effect. Supervisor views of status, interrupt-enable and interrupt-pending registers expose and modify only the supervisor fields and leave all other fields of the underlying registers unchanged.",
 ["programs", "histories"], "every CSR number, access kind and value and every privileged instruction at every privilege level and setting of the controlling bits",
 TESTS + "no test runs below machine mode.",
 ["src/cpu/execution/inst_32/zicsr_extension.rs", "src/cpu/execution/inst_32/priv_extension.rs", "src/cpu/csr.rs"],
 [("access check", "src/cpu/execution/inst_32/zicsr_extension.rs check_accessible"), ("masked views", "src/cpu/csr.rs read/write/bitset/bitclr")],
 [("priv_lv", "current privilege", "src/cpu.rs")], ["CSRs, cause and privilege after each access"], STEP)

prop("C13", "Memory holds what was last stored, and only mapped addresses respond",
 "A load of any width from RAM returns the bytes most recently stored there by any access width, sign- or zero-extended as the instruction says, and the read-only boot memory never changes. An access to an address (or of a width) that no device accepts raises the access fault of its own kind with no effect, also at the last bytes before and the first bytes after every device window.",
 ["histories", "inputs"], "every history of loads and stores of every width, alignment-legal address and device boundary",
 "The dram tests store and immediately load single values inside DRAM; no overlap of widths, no device boundary, no unmapped address and no ROM write is tried.",
 ["src/bus.rs", "src/bus/dram.rs", "src/bus/mrom.rs", "src/bus/clint.rs", "src/bus/plic.rs", "src/bus/uart.rs"],
 [("bus dispatch by range", "src/bus.rs"), ("little-endian byte store", "src/bus/dram.rs")], [("dram", "guest RAM", "src/bus/dram.rs")], ["bus loads and instruction-level loads/stores"], None)

prop("C14", "Proxied host calls return the host's data and errors faithfully",
 "Each file call the guest makes through the host proxy performs exactly that operation on the host descriptor the guest's descriptor stands for, and returns to the guest the host's result: the transferred bytes and count (also when short or zero), or the negated error number with the guest's buffers left untouched. Bytes outside the reported count, and memory outside the call's buffers, reply block and mailbox, are never altered, and the mailbox is answered exactly once per request.",
 ["fault_sequences", "histories", "inputs"], "every sequence of open/read/write/pread/pwrite/lseek/fstat/fstatat/close calls with every argument, and every host fault (EIO, EINTR, ENOSPC, EMFILE, short transfers, end of file) at every call",
 TESTS + "no test runs the host proxy.",
 ["src/fesvr.rs", "src/fesvr/syscall.rs"],
 [("handle_syscall", "src/fesvr.rs"), ("errno conversion", "src/fesvr/syscall.rs sysret_errno")], [("tohost/fromhost", "mailbox words", "src/fesvr.rs")], ["guest memory after the call; arguments seen by the host calls"], "host calls are symbol-interposed in the harness, no hook")

prop("C15", "Guest descriptors stay a faithful map of open host files",
 "A successful open gives the guest the lowest free descriptor number and from then until it closes it successfully that number, and no other, stands for that host file; descriptors 0, 1 and 2 initially stand for the host's standard streams. Closed or never-opened descriptors fail with a bad-descriptor error without touching any host file, failed opens and closes change nothing, and no host descriptor is leaked or closed twice.",
 ["histories", "fault_sequences"], "every history of opens, closes, re-opens and uses, including failures injected at each call",
 TESTS + "no test uses the descriptor table.",
 ["src/fesvr.rs", "src/fesvr/syscall.rs"],
 [("fd_alloc/fd_dealloc/fd_lookup", "src/fesvr.rs")], [("fd_table", "guest to host descriptors", "src/fesvr.rs")], ["descriptor passed to each host call"], "host calls are symbol-interposed in the harness, no hook")

prop("C16", "A guest exit request stops the emulator at once with its status",
 "When the guest reports completion through the mailbox, or calls the proxied exit, the process terminates with exactly that status before any further guest instruction executes, and everything the guest had already written to files or the console is there. Without such a request the emulator never stops by itself, and writing zero to the mailbox is not a request.",
 ["schedules", "histories"], "every status value and every instant of the request relative to timer batches, interrupts, traps, console output and earlier calls",
 TESTS + "no test runs a program to completion.",
 ["src/lib.rs", "src/fesvr.rs", "src/fesvr/syscall.rs"],
 [("mailbox polled after every instruction", "src/lib.rs emulation"), ("exit", "src/fesvr.rs handle_syscall, src/fesvr/syscall.rs exit")], [("tohost", "mailbox word", "src/fesvr.rs")], ["exit status, instruction count at exit, bytes written"], "exit(3) is symbol-interposed in the harness; " + STEP)

prop("C17", "Execution is a function of the program and its input schedule",
 "Two runs of the same image with the same input arriving at the same emulated instants execute the same instructions with the same results, produce the same output and finish in the same state, whatever the host's thread timing, hash seeds, addresses and wall clock do. In particular the boot ROM and device tree are byte-identical across runs.",
 ["schedules", "configurations"], "every program, input schedule and pair of host environments (hash seeds, thread wake-up order, address layout, time of day)",
 TESTS + "a test runs once in one environment.",
 ["src/lib.rs", "src/bus/uart.rs", "src/bus/device_tree", "src/cpu.rs"],
 [("single-threaded loop; only the stdin reader is a thread", "src/lib.rs, src/bus/uart.rs")], [], ["hash of pc/registers over the whole run, output bytes, ROM bytes"], STEP)

prop("C18", "No guest action or input can crash or hang the emulator",
 "No instruction word, register value, CSR write, page table, memory-mapped access or serial input byte sequence at any privilege level makes the emulator process panic, abort, or stop executing guest iterations; every such action completes as an instruction or a guest-visible trap. (Requests to the host proxy are outside this property.)",
 ["programs", "inputs", "schedules", "fault_sequences"], "every instruction stream including undefined encodings, every CSR number, every device register access of every width, every input stream and arrival schedule",
 TESTS + "no test executes an undefined encoding or an odd device access.",
 ["src/cpu/decode", "src/cpu/execution", "src/cpu/csr.rs", "src/cpu/mmu.rs", "src/bus.rs", "src/bus/plic.rs", "src/bus/uart.rs", "src/bus/clint.rs", "src/bus/mrom.rs", "src/bus/dram.rs"],
 [("Err((tval, cause, msg)) instead of panic", "everywhere in src/cpu and src/bus")], [], ["panic, abort or signal of the process; loop iterations continue"], STEP)

prop("C19", "The boot image is loaded completely and described correctly, or not at all",
 "After start-up guest memory holds every loadable segment, the kernel and the initial ramdisk at their load addresses and zeroes elsewhere, the boot ROM enters the image with the hart id and the device-tree address in the argument registers, and the device tree describes the memory, devices, interrupt wiring and ramdisk range actually emulated. If the host fails to open, map or completely provide one of those files the emulator stops before the first guest instruction.",
 ["configurations", "fault_sequences", "inputs"], "every ELF class, segment layout, base address, kernel/ramdisk size and start address, and every host failure while loading",
 "One test loads one fixed ELF and never looks at the memory or the device tree; no load failure is tried.",
 ["src/elfload.rs", "src/elfload", "src/bus/dram.rs", "src/bus/mrom.rs", "src/bus/device_tree", "src/cpu.rs"],
 [("segment copy", "src/bus/dram.rs new"), ("reset vector", "src/bus/mrom.rs new"), ("device tree build", "src/bus/device_tree")], [("mrom", "reset vector and device tree blob", "src/bus/mrom.rs")], ["guest memory and ROM before the first iteration; registers at the first image instruction"], STEP)

prop("C20", "The command line decides what is emulated",
 "The machine that starts is the one the command line describes, in whatever order and spelling its options are given: the named image (or the proxy kernel, when one is named) is loaded with exactly the named kernel and ramdisk and nothing that was not named, execution starts at the given entry address or else in the boot ROM, and a program under the host proxy receives exactly the given argument strings after the names of the proxy kernel and the image. A display option executes no guest instruction, and a missing or non-ELF image or a malformed address starts nothing.",
 ["configurations", "inputs", "fault_sequences"], "every combination, order and spelling of options, every argument string, and every host failure while the named files are opened",
 TESTS + "no test goes through the command line.",
 ["src/main.rs", "src/cmdline.rs", "src/bus/dram.rs", "src/cpu.rs", "src/fesvr/syscall.rs", "src/elfload.rs"],
 [("main", "src/main.rs"), ("Arguments::new", "src/cmdline.rs"), ("getmainvars", "src/fesvr/syscall.rs")], [("args", "parsed command line", "src/lib.rs")], ["guest memory, first pc and argument block of the machine that starts"], STEP)

prop("C21", "Logging observes and does not disturb",
 "With any log level the machine executes the same instructions with the same results as without one: registers, memory, devices, host calls and exit status are unaffected, and everything the guest sends to its console appears complete and in order on standard output among the log's lines. The diff log names, for every instruction after the first 350 million, its address and the values of all registers after it, and nothing before; the info log's pc lines name the instruction being executed.",
 ["programs", "configurations", "schedules"], "every program, input and trap at every log level, and every position of the diff log's beginning",
 TESTS + "the tests run with the log switched off.",
 ["src/log.rs", "src/lib.rs", "src/cpu", "src/bus", "src/fesvr"],
 [("log macros", "src/log.rs"), ("diff log of pc and registers", "src/lib.rs emulation, src/cpu/reg.rs show")], [("INST_COUNT", "instructions so far", "src/log.rs")], ["standard output; architectural state after every instruction"], STEP)

prop("C22", "Address triggers stop exactly the watched accesses",
 "An address trigger set through tselect, tdata1 and tdata2 raises a breakpoint exception, before any effect, for every fetch, load or store of the watched address in a privilege mode it is set to watch, and for nothing else, whichever trigger is selected at that moment and however the others are set. Options that do not exist read back as zero.",
 ["programs", "schedules"], "every setting of every trigger, every selection order, access kind, width and privilege mode, every way of writing the trigger registers, and every interrupt or trap in between",
 TESTS + "no test sets a trigger.",
 ["src/cpu/csr/breakpoint.rs", "src/cpu/csr.rs", "src/cpu.rs"],
 [("check_breakpoint before translation", "src/cpu/csr/breakpoint.rs, src/cpu.rs trans_addr"), ("trigger registers", "src/cpu/csr/breakpoint.rs, src/cpu/csr.rs")], [("triggers", "tselect and the tdata1/tdata2 of each trigger", "src/cpu/csr.rs")], ["CSRs, pc, privilege and memory after every instruction"], STEP)

prop("C23", "Physical memory protection is enforced on every access",
 "Once a protection entry is active, every fetch, load, store, atomic and page-table read of S- and U-mode that the lowest-numbered matching entry does not permit in full raises an access fault and has no effect, as does one that matches no entry; machine mode is bound only by locked entries. Permitted accesses proceed unchanged. Locked entries and their addresses cannot be changed, and accesses under MPRV are judged for the mode they act for.",
 ["programs", "schedules"], "every setting of the sixteen entries (off, TOR, NA4, NAPOT, locked or not, overlapping in any order), every access kind, width and alignment at their edges, translated or not, in every privilege mode",
 TESTS + "no test sets a protection entry.",
 ["src/cpu/mmu/pmp.rs", "src/cpu/mmu.rs", "src/cpu/csr.rs", "src/cpu.rs"],
 [("pmp", "src/cpu/mmu/pmp.rs"), ("protected page-table reads", "src/cpu/mmu.rs load_pte"), ("pmpcfg/pmpaddr writes and locks", "src/cpu/csr.rs")], [("pmpcfg0-3, pmpaddr0-15", "entries", "src/cpu/csr.rs")], ["CSRs, pc, privilege and memory after every instruction"], STEP)

prop("C24", "Showing an image prints what is in its file and runs nothing",
 "Asked to show an image instead of running it, the emulator prints, for every 32- and 64-bit ELF file, the fields of the headers asked for with the values the file holds, every word of each segment's bytes in the file, and every instruction of each executable section by its encoding, with the name and operands its encoding means in that instruction set, all of it in file order, once and nothing else; a standard output that interrupts or takes only part of what it is given loses nothing. It then ends normally without starting the guest. Bytes that are no instruction do not stop it, and an image that cannot be read or is no ELF file is refused.",
 ["inputs", "crash_points"], "every layout of headers, tables, names, segments and sections in a file of either class, every instruction word and remainder in a section, every display option, and every failure of the host while the file is loaded or the output written",
 "The 8 baseline tests decode a handful of words; no test loads an image or prints anything.",
 ["src/main.rs", "src/elfload.rs", "src/elfload/elf_32", "src/elfload/elf_64", "src/cpu/instruction.rs", "src/cpu/decode", "src/cmdline.rs"],
 [("header fields", "src/elfload/elf_32/*.rs and elf_64/*.rs new_*, show"), ("segment and section dumps", "program_header.rs dump, section_header.rs dump"), ("names and operands", "src/cpu/instruction.rs print_myself, opc_to_string")],
 None, ["every byte written to standard output", "how the process ends"], "none beyond the step callback (which must not be reached)")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        if p["anchors"]["hook_needed"] is None: pass
        f.write(json.dumps(p) + "\n")
