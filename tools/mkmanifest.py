#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
T = "deterministic simulation with fault injection: "
TECH = {
 "C01": "seeded schedules of concurrent synchronous logging, byte-exact oracle on every target",
 "C02": "seeded schedules of producers, background writers and closers with stalled targets and process pauses",
 "C03": "seeded schedules of concurrent logging, closing and signals",
 "C04": "seeded schedules and arrival times in simulated time, clock steps, stalled targets",
 "C05": "seeded stalls of the target with bounded-queue oracle",
 "C06": "seeded schedules, byte comparison of a synchronous and an asynchronous output under argument mutation",
 "C07": "seeded schedules with failing and stalled targets among several outputs",
 "C08": "seeded creation orders and schedules against a reference model of the logger tree",
 "C09": "seeded configuration histories and schedules against a reference model",
 "C10": "seeded schedules of reconfiguration during logging, per-record atomicity oracle",
 "C11": "seeded valid and broken configuration files with read faults, independent validity oracle",
 "C12": "seeded schedules, linearizability of level and output changes against a sequential model",
 "C13": "seeded rotation histories with restarts, conservation checked after every storage operation",
 "C14": "seeded rotation histories with foreign files and directory orders",
 "C15": "seeded record sizes, limits and restarts, every write and rotation checked",
 "C16": "seeded clock, time zone and restart histories, period oracle on every stored record",
 "C17": "seeded clock steps and restarts, conservation checked after every storage operation",
 "C18": "seeded process crashes before, after and inside storage operations, restart and recovery oracle",
 "C19": "seeded storage faults, containment and recovery oracle",
 "C20": "seeded storage faults and crashes while archiving, archive contents decoded independently",
 "C21": "seeded storage faults and crashes while appending to archives, contents decoded independently",
 "C22": "seeded schedules with a simulated syslog daemon going down and up",
 "C23": "seeded signal delivery at arbitrary scheduling points",
 "C24": "seeded rotation histories, modes checked at every storage operation",
 "C25": "seeded schedules of records over deep logger trees, byte-exact attribution oracle",
 "C29": "seeded schedules of all public operations against each other, concurrent map access ends the process as in Go",
 "C31": "seeded histories and schedules of loads that redefine a rolling output of a file in use, and of several outputs of one file; record and open-file accounting in the simulated file system",
 "C30": "seeded schedules of values, outputs, formatters and creators that use the library while it calls them",
 "C26": "seeded rotation, archive and fault histories, descriptor table and directory audited between calls",
}
NOTE = {
 "C18": "crash = process death; completed writes and renames are durable (no power-loss model)",
 "C10": "sequentially consistent memory; no data races of weaker memory models",
}
NA = {
 "C27": "a pure function of layout and record: no schedule, clock, I/O or fault for the simulator to vary (input testing would decide it, which is another technique)",
 "C28": "a pure function over eight levels and strings: no schedule, clock, I/O or fault for the simulator to vary",
}
claimed = open(os.path.join(V, "tools", "claimed.txt")).read().split()
checks = []
na = []
for i in ids:
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
            "technique": T + TECH[i], "level": "exploration",
            "level_note": "seeded search over schedules and faults of the real code under the simulator; a clean batch is evidence, not proof" + ("; " + NOTE[i] if i in NOTE else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
