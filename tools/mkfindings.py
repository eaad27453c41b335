#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; the output is committed)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [  # property, subject of the fix commit (prefix), what failed
 ("C03", "keep scanning all staging buffers", "a thread's messages were never written: the background thread skipped the buffer after a reclaimed one and could sleep/exit without it"),
 ("C01", "do not treat backslashes", r"formats with a backslash before a conversion ('\\%d') decoded to text without the argument"),
 ("C01", "decode specifiers with an empty precision", "'%.f', '%.s' printed the specifier instead of the value"),
 ("C01", "pass negative dynamic widths", "'%*d' with a negative width or precision printed wrong padding"),
 ("C01", "decode wide strings from an aligned copy", "%ls decoded through a misaligned pointer (undefined behaviour)"),
 ("C01", "log signed and unsigned character strings", "%s with unsigned char* logged the pointer value and crashed the decompressor"),
 ("C12", "never read string arguments beyond", "'%.*s' on an unterminated buffer read beyond its end"),
 ("C13", "flush the old dictionary", "ordered decoding of several executions formatted buffered messages of the old execution with the new dictionary"),
 ("C06", "keep a full window of stages", "empty extents shrank the reorder window: messages printed before real-time-earlier ones"),
 ("C06", "enlarge the reorder window", "a message two passes late was printed after real-time-later ones"),
 ("C06", "do not touch 64 MB", "ordered decoding of a log of hundreds of threads ran out of memory"),
 ("C16", "carry the rounding", "a nanosecond part of .9999999995 or more printed as 1000000000 (ten digits)"),
 ("C14", "let a decoder be reused", "opening a second file with a used decoder leaked the first and mixed its remaining messages in"),
 ("C18", "pad O_DIRECT output", "padding was inserted at a stale position with O_DIRECT and corrupted the log"),
 ("C18", "wait for the outstanding write", "a signal during aio_suspend made the logger reuse the buffer still being written"),
 ("C18", "write the rest after a partial write", "the rest of a short write was dropped, truncating the log in the middle"),
 ("C19", "count the active readers", "recording went on under a trace being printed; overwritten events were printed"),
 ("C19", "publish a time trace event", "a half-recorded event was printed"),
 ("C20", "aggregate over log ids that are unused", "minMaxMean on an unused id died of a division by zero; ids out of range read beyond the table"),
 ("C20", "compute no distribution", "rcdfTime on a log with fewer than two messages crashed"),
 ("C20", "include the smallest time difference", "the mean printed by rcdfTime left the smallest difference out"),
 ("C20", "report files that are not logs", "opening a file that is not a log (for example 4 KB of zeros) died of an assertion"),
]
EXTRA = json.load(open(V + "/tools/findings_extra.json")) if os.path.exists(V + "/tools/findings_extra.json") else {"fix": [], "known": []}
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
fixed = []
for p, subj, what in FIX + [tuple(x) for x in EXTRA["fix"]]:
    h = [a for a, b in log if b.startswith("fix: " + subj)]
    assert len(h) == 1, (subj, h)
    fixed.append(f"fixed: property={p} {h[0]} {what}")
subj_all = [b for a, b in log if b.startswith("fix:")]
assert len(subj_all) == len(fixed), (len(subj_all), len(fixed))
json.dump(dict(known=EXTRA["known"], fixed=fixed), open(V + "/known_findings.json", "w"), indent=1)
