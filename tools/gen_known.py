#!/usr/bin/env python3
"""Writes /verif/known-findings.txt: one `fixed:` line per repair in /repo.
Known (unrepaired) findings would be `known:` lines, kept in KNOWN below."""
import subprocess
PROP = {
 "SLT compares": "C01", "RV32 register shifts": "C01", "REM uses": "C01", "ECALL and EBREAK no": "C02",
 "jumps, taken": "C01", "C.EBREAK raises": "C02", "vectored trap": "C03", "sstatus, ustatus": "C12",
 "mstatus.MPP never": "C18", "a failing SC": "C10", "a faulting AMO": "C10", "illegal instructions found": "C02",
 "a CSR access at": "C18", "every CSR is": "C12", "writing a read-only": "C12", "SRET honours": "C12",
 "MRET outside": "C12", "S-mode cannot": "C11", "non-canonical": "C11", "a page table outside": "C11",
 "Sv32 physical": "C11", "an access just past": "C13", "unsupported device": "C13", "the UART transmits": "C08",
 "console input": "C07", "the console reader": "C07", "LB from the UART": "C09", "LBU and LWU": "C09",
 "FIFO clear": "C09", "a pending UART": "C07", "the UART line": "C09", "IIR reports": "C09",
 "each PLIC context": "C06", "taking an interrupt": "C04", "the CLINT msip": "C04", "a PLIC source is": "C06",
 "the PLIC applies": "C06", "a claimed PLIC": "C06", "reserved PLIC": "C18", "64-bit PLIC": "C06",
 "PLIC access faults": "C13", "LW of a PLIC": "C06", "unknown OP-32": "C18", "C.SDSP requires": "C13",
 "encodings outside": "C02", "software writes to sip": "C12", "a guest cannot raise": "C04",
 "a satp write": "C11", "ELF header tables": "C19", "p_memsz and": "C19", "the device tree names": "C19",
 "give the guest duplicates": "C15", "let the counter-enable": "C12",
 "a failing pwrite": "C14", "a failing fstat": "C14", "stat results": "C14", "openat and fstatat": "C15", "a proxied file name": "C14",
 "PMP applies to": "C23", "PMP decides": "C23", "locked PMP": "C23", "unlocked PMP": "C23", "a PMP violation": "C23",
 "a PMP entry": "C23", "every PMP": "C23", "every trigger": "C22", "CSRRS and CSRRC": "C22", "unsupported trigger": "C18",
 "selecting a trigger": "C18", "the time CSRs": "C05", "the cycle counter": "C12", "misa is": "C12",
 "segment dump": "C24", "section dump": "C24", "disassembly panics": "C24", "sh_entsize of": "C24", "stray comma": "C24",
 "malformed entry": "C20", "names of section": "C24",
}
KNOWN = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "7bebf4d..HEAD"],
                     capture_output=True, text=True, check=True).stdout.splitlines()
out = ["# Genuine defects found by the checks. `fixed:` lines suppress nothing.\n"]
out += [k + "\n" for k in KNOWN]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in PROP.items() if s.startswith(k)]
    assert len(p) == 1, s
    out.append(f"fixed: property={p[0]} {h} {s}\n")
open("/verif/known-findings.txt", "w").writelines(out)
