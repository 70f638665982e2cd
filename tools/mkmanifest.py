#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, subprocess, sys
claimed = {
 "P01": "Seeded search: random command lines over all subcommands and random tables, every read split, interrupted or re-sourced by the simulator; oracle is the undisturbed run of the same binary.",
 "P02": "Seeded search over gzip encodings, delivery schedules, truncation points and bit flips; oracle is the plain-text run. Corruption is judged only for commands that read to the end.",
 "P03": "Seeded search over failure points of open, read and map for every input; oracle: failure status, diagnostic, exact prefix of the fault-free output.",
 "P04": "Seeded search over failing, short and interrupted writes at every output byte; oracle: success only with the complete output.",
 "P05": "Seeded search over the byte at which standard output breaks; oracle: success, silence, exact prefix, bounded further reading.",
 "P09": "Seeded search over commands, faults and kill points; oracle: directory snapshots plus the log of every modifying call.",
 "P16": "Seeded search over faults and schedules; oracle: operation count bounded linearly by bytes moved, no signal, no hang.",
 "P06": "Seeded search over inputs, keys, memory budgets (down to a few lines per run, up to no spill) and read schedules; oracle is a reference stable sort written independently of the code.",
 "P07": "Seeded search over sets of sorted inputs, both merge algorithms, keys and read schedules; oracle is a reference stable merge.",
 "P08": "Seeded search over faults at every temporary-storage operation of spilling sorts and merges; oracle: temporary directory empty after exit, success only with the fault-free result.",
 "P10": "Seeded search over histories of completed, failed and killed runs on one simulated storage; oracle is the same last run on clean storage.",
 "P11": "Seeded search over sequences of test cases, child behaviour, delivery of child output and storage faults; oracle is a reference model of the documented test format and of the scripted child.",
 "P12": "Seeded search over expression streams and their delivery; oracle: at read events of the recorded history, output already written covers the run on the complete lines delivered; values by an independent evaluator of the expressions.",
 "P13": "Seeded search over random sources, hash seeds, clocks, process ids and terminals; oracle is the first run, or the requested shape for random data.",
 "P14": "Seeded search over objects, response chunkings, delays, retries and network failures of a simulated S3 endpoint on simulated time; oracle is the same command on a local file.",
 "P15": "Seeded search over file lists and delivery schedules for nine commands; oracle is a reference model of each command.",
 "P17": "Seeded search over large inputs and delivery schedules; oracle: at read events of the history, output lag against the run on the delivered prefix is bounded, and reading stops within a fixed distance of the last line needed.",
 "P19": "Seeded search over sorted files, keys, patterns, contexts, output schedules and failures of open and map; oracle is a linear search.",
 "P20": "Seeded search over files, conditions, positions of an offending line, delivery schedules and read failures; oracle is a reference evaluation of the conditions.",
 "P21": "Seeded search over lists of files with equal, different, missing and lonely headers and their delivery; oracle: the run without headers under the expected header, or rejection.",
 "P22": "Seeded search over damaged command lines, damaged data, terminals and faults of every kind; oracle: exit status 0, 1 or 2 with a message, bounded work, no panic or signal.",
 "P23": "Seeded search over values, encodings, formats and delivery schedules; oracle is an independent decoder of the formats and a reference model of the commands.",
 "P24": "Seeded search over tables, terminals, generator lists and delivery schedules; oracle is a reference layout of the cells.",
 "P18": "Seeded search over interleavings of the file operations of two or three processes on one simulated storage, with kills; oracle is each command run alone.",
}
extra = {}
try:
    extra = json.load(open('/verif/tools/claimed.json'))
except FileNotFoundError:
    pass
claimed.update(extra)
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
na_reason = {p: "pure function of its arguments: no schedule, fault, clock, storage or multi-party behaviour for a simulator to control, so deterministic simulation with fault injection has nothing to decide; property-based or proof techniques would be the right tool" for p in ["P50","P52","P53","P55"]}
note = " Sampling, not proof. Trusts: the shim sees every operating-system call of the process (checked: unknown writes are reported as escapes), the scratch file system, the C library."
checks = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration", "level_note": claimed[i] + note})
na = [{"property": p["id"], "reason": na_reason.get(p["id"], "check not built yet")} for p in props if p["id"] not in claimed]
hook = subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "./check --build",
 "hooks": {"guard": "cfg(cdx_sim)", "enable": "RUSTC_WORKSPACE_WRAPPER=/verif/tools/wsw.sh adds --cfg cdx_sim when the checks build /repo into /verif/build/target",
           "source_commits": [l.split()[0] for l in hook if l.split(' ',1)[1].startswith('hook:')]},
 "checks": checks, "not_applicable": na,
 "notes": "One driver (sim/) decides every property; replay a violation with ./check PROP --replay FILE. See DESIGN.md."}
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
