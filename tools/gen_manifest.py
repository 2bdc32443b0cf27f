#!/usr/bin/env python3
import json, subprocess
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NOT_YET = {p: "its scenario is not written yet" for p in []}
TECH = {
 "C14": "deterministic simulation of guest, proxy and a faulty simulated host; every host call compared with a descriptor/file model",
 "C15": "deterministic simulation of guest, proxy and a faulty simulated host; descriptor-table model over the whole history",
 "C16": "deterministic simulation with interposed exit; exit requests at seeded instants",
 "C17": "deterministic simulation: the same seeded plan executed under perturbed host environments, traces compared",
 "C18": "deterministic simulation, seeded fuzzing of guest code, registers, devices and input for panics, hangs and exits",
 "C20": "deterministic simulation of the whole program from its command line over seeded spellings, files and host faults",
 "C21": "deterministic simulation of the machine under every log level against the reference model, and without the log where they disagree",
 "C24": "deterministic simulation of the whole program from its command line over seeded files and host faults; everything written compared with an independent ELF writer and disassembler",
 "C19": "deterministic simulation of start-up over seeded configurations with injected host faults; image and device tree checked by an independent parser",
}
NOTE = {
 "C14": "Every proxied call in every run is compared; which calls, descriptors, lengths and host faults occur is sampled by seed.",
 "C15": "Descriptor histories are sampled by seed; the host side is a simulated file system that never reuses numbers.",
 "C16": "Exit instants and statuses are sampled by seed; exit(3) is interposed in the process under test.",
 "C17": "Environments perturbed: hash seeds, input-thread wake-up order, address layout. The same plan must give the same trace.",
 "C18": "Absence of crashes is checked on the sampled executions only.",
 "C20": "The real main and command-line parser run in the simulated process; command lines are sampled by seed.",
 "C21": "Programs, levels and the diff log's beginning are sampled by seed; the wording of log lines is not judged.",
 "C24": "Files, options and faults are sampled by seed; layout and spacing of the text are not judged.",
 "C19": "Start-up configurations and load faults are sampled by seed.",
}
default_tech = "deterministic simulation with fault injection: real emulator in lock-step with an executable reference model under seeded schedules"
default_note = "Every executed step is compared with the reference model; which steps are executed is sampled by seed. Trusts the model's reading of the RISC-V manuals and device data sheets."
checks = []
for p in props:
    if p in NOT_YET: continue
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, default_tech), "level": "exploration",
        "level_note": NOTE.get(p, default_note)})
hook = subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^Add simulator"],capture_output=True,text=True).stdout.split()
m = {"version": 1, "setup_cmd": "cd sim && (cargo build --release --offline || true)",
     "hooks": {"guard": "carron_sim", "enable": "RUSTFLAGS='--cfg carron_sim' (set in /verif/sim/.cargo/config.toml)", "source_commits": hook},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT_YET.items()],
     "notes": "check.sh builds /verif/sim (path dependency on /repo) and runs seeded simulations; see DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json","w"), indent=1); print(len(checks), "checks")
