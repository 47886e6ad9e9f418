#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have a check (simcheck list)."""
import json, subprocess, sys
root = "/verif"
have = subprocess.check_output([root + "/target/release/simcheck", "list"], text=True).split()
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
SIM = "deterministic simulation of the operating system under the real library"
T = {
 "C01": ("seeded short transfers and EINTR, checked against a value model", "exploration"),
 "C02": ("the file image at the moment close returns, with process death or disk loss right after it", "exploration"),
 "C03": ("every selected call of the write path made to fail in turn", "fault_enumeration"),
 "C04": ("process death at selected points of the operation log, torn writes, unwinding and dropped writers", "fault_enumeration"),
 "C05": ("every selected call of a reading session made to fail in turn, files cut under the reader", "fault_enumeration"),
 "C06": ("every selected call of open and get_tree made to fail in turn, descriptor exhaustion, retry after the fault", "fault_enumeration"),
 "C07": ("files cut at seeded bytes, zero-filled tails, unwritten leading block, foreign files", "fault_enumeration"),
 "C08": ("seeded histories of interleaved cursors, handles and drops against a value model", "exploration"),
 "C09": ("seeded thread schedules (switches at calls, futexes, allocations and items) compared with solo runs", "exploration"),
 "C10": ("instrumented providers and callbacks whose event log is checked against a row model, with failing I/O", "exploration"),
 "C11": ("derived writers and readers under seeded I/O, faults and interleaving against a row model", "exploration"),
 "C12": ("files written under seeded I/O parsed by an independent reader of the format", "exploration"),
 "C13": ("seeded histories of trees written under new and existing names against a map model", "exploration"),
 "C14": ("mutation log of the simulated disk over failing and succeeding reading sessions; create over old contents", "exploration"),
 "C15": ("resource accounting of the simulated system (descriptors, calls, bytes, heap) over sizes and failing calls", "exploration"),
 "C16": ("ROOT-made files under seeded I/O, failing calls and interleaving against recorded digests", "exploration"),
 "C17": ("byte equality of written files across I/O splitting, hash seeds, history and threads", "exploration"),
 "C18": ("chosen records and items taken across the 2 GB, 2 GiB, 4 GiB and 1 GiB limits on a simulated sparse disk, read back and parsed independently", "exploration"),
 "C21": ("compressed images (zlib, lzma, LZ4, one or many blocks) under seeded I/O, failing reads and seeded damage, against a value model", "exploration"),
 "C20": ("seeded histories of matching and other type requests between iterator steps and after failing reads, with the calls of each refusal counted", "exploration"),
 "C23": ("the command line tools run as processes on the simulated machine, with split, interrupted and failing reads and prints, against a model of their output", "exploration"),
 "C24": ("seeded histories of calls in any order over several files and trees, with failing I/O, full disks and panicking providers between them, against a model of what each file holds", "exploration"),
 "C25": ("files made by an independent writer in the layouts of ROOT and Geant4, read under split, interrupted and failing I/O and truncation, against the values put in", "exploration"),
 "C26": ("bits, bytes, numbers and sectors of finished files changed on the simulated disk, against the reading of the intact file and bounds on memory", "exploration"),
 "C19": ("rename, unlink, replacement and chdir injected at seeded calls of a reading session", "fault_enumeration"),
}
NA = {
 "C22": "A pure string function (C++ type name to Rust type name) without any I/O, schedule, time or history.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, lvl = T[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": f"{SIM}: {t}",
            "level": lvl,
            "level_note": "Seeded search over many simulated runs of the unmodified library; a clean batch is evidence, not proof. Trusts the simulated file system to behave like POSIX apart from the injected faults, and the reference model in sim/src.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seam is the C library boundary, defined by the simcheck binary itself (sim/src/simos.rs)."},
          open(root + "/MANIFEST.json", "w"), indent=1)
