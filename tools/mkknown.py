#!/usr/bin/env python3
"""Writes known_findings.json: defects found in log4g, fixed ones included (they suppress nothing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C02", "ddf3332", "closing an asynchronous output right after it was created could return before its background writer had started, losing the queued records"),
 ("C03", "715e937", "logging while an asynchronous output is closed panicked (send on closed channel) or hung, and closing twice panicked"),
 ("C06", "936eda7", "asynchronous outputs formatted records later, so changes to the arguments after the call were printed"),
 ("C01", "9a63dab", "concurrent writers corrupted a memory output"),
 ("C15", "f9b575f", "sizes with K, M or G were not parsed as documented"),
 ("C08", "59a80c2", "a logger first created as the parent of another one ignored its own configuration"),
 ("C11", "91ec2bd", "configurations that cannot be parsed were accepted or panicked, as were file names without extension and duplicate loggers"),
 ("C25", "ad10721", "records of loggers inheriting their outputs lost their fields and got the level check of the ancestor"),
 ("C08", "ad10721", "a logger inheriting its outputs was filtered by the level of the ancestor that owns them"),
 ("C25", "7da7747", "Printf called directly on a logger reported a call site inside the library"),
 ("C10", "e197d27", "reconfiguration and logging raced: records could be dispatched to a mixture of configurations"),
 ("C12", "e197d27", "level and outputs set at run time were not applied atomically"),
 ("C09", "2d44cf5", "a logger no longer mentioned by a new configuration kept its old settings"),
 ("C09", "6f5cf60", "changed definitions of outputs and formats were ignored on reload"),
 ("C15", "e270f41", "the first record of a process was appended to a file that had already reached its limit"),
 ("C19", "4c1257a", "a failing rotation stopped logging for good"),
 ("C20", "9201403", "backups were deleted without being archived although archiving is configured"),
 ("C26", "93a3088", "the temporary archive was left behind when its rename failed"),
 ("C17", "3c0e760", "rotating in a period whose backup or archive exists already overwrote it"),
 ("C16", "a8ac2e0", "the file left by an earlier process was labelled with the period of the new process"),
 ("C22", "34146ea", "a syslog daemon that was down at the start silently cost the logger its whole configuration"),
 ("C07", "34146ea", "a syslog output whose daemon was down at the start took the other outputs of the logger with it"),
 ("C21", "50adcaf", "one transient read error while a cumulative tar archive was opened wrapped the whole archive into a single entry"),
 ("C14", "989d20c", "files named like log.007 or log.-1 were taken for backups and deleted"),
 ("C14", "58e9670", "files with labels the time pattern never writes (fractions of a second, months in other letters) were taken for backups and deleted"),
 ("C31", "aa76196", "an output redefined while in use, or two outputs of one file, wrote to files already rotated away: records lost, limit exceeded, descriptors leaked"),
 ("C14", "efc30fa", "an asynchronous output that received nothing rotated empty files each period, for which backups with records were removed"),
 ("C14", "c36e88a", "a file just opened was rotated away empty when the period ended before its first record was written"),
]
KNOWN = []
fs = [dict(property=p, fixed=c, what="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in FIXED] + KNOWN
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump({"findings": fs}, f, indent=1)
    f.write("\n")
