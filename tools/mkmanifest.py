#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the notes below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential monitor: generated printf statements vs. snprintf", "Random and boundary formats x argument values compiled against the library; every decoded text compared with snprintf on the same call. Trusts glibc printf."),
 "C02": ("differential monitor: generated programs through the preprocessor, run and decoded", "Random source layouts and formats; output compared with the same program compiled with NANO_LOG as vsnprintf; argument evaluations counted."),
 "C03": ("trace monitor: exactly-once and per-thread-order checker over stress runs with injected delays", "Sampled schedules with small buffers, delay points, slow I/O; every decoded message matched against the exact expected sequence."),
 "C04": ("snapshot monitor at sync() return, SIGKILL injection, stuck-call watchdog", "Log file cut at its size when sync returned must decode to everything completed before the call; sampled schedules."),
 "C05": ("crash-point enumeration: decoder under ASan on every truncation and on logs of killed processes", "All cut positions of small logs, sampled positions of larger ones; prefix oracle."),
 "C06": ("real-time order monitor over stress runs and simulated pass schedules", "Begin/end ticks of each log call vs. decoded order; sampled schedules plus constructed extents."),
 "C07": ("reference filter model over random level/log histories", "Both front ends; every recorded id compared with the model, arguments of filtered statements included."),
 "C08": ("reference partition model over random log/sync/setLogFile histories with bad targets", "Each resulting file decoded on its own; byte prefixes of existing files compared."),
 "C09": ("context monitor: file, line, severity, thread number of every decoded message", "Generated multi-unit programs, #line contexts, concurrent first use, many threads."),
 "C10": ("exhaustive and random round trips on guarded buffers under ASan/UBSan", "All 8/16-bit values, boundaries and random 32/64-bit values, random sequences."),
 "C11": ("reference FIFO monitor over random operation sequences and two-thread stress", "Every byte and region judged against the model; sampled interleavings with delay points."),
 "C12": ("AddressSanitizer, UBSan, valgrind memcheck, guard pages and allocation counts over all workloads", "Sanitizers on generated programs, stress, histories, exactly sized output buffers, decoding and decompressor commands; alignment excluded."),
 "C13": ("differential monitor: appended executions vs. each execution alone", "Random programs, counts and file switches; ordered, unordered and iterative decoding."),
 "C14": ("agreement monitor between decoder interfaces plus typed-value oracle", "Random logs; iterator vs. bulk vs. ordered; decoder reuse histories."),
 "C15": ("resource monitor: live buffers, heap, descriptors over thread churn", "Live buffer counts read from the runtime; sampled churn patterns."),
 "C16": ("clock monitor: decoded timestamps vs. wall clock sampled around each call", "Sampled calls, time zones and constructed timestamps; tolerance for calibration."),
 "C17": ("accounting monitor: statistics vs. messages issued and bytes on disk", "Random histories with file switches and concurrent readers of the statistics."),
 "C18": ("fault injection on asynchronous writes with exactly-once, in-flight-modification and liveness monitors", "Delays, short writes, EINTR and errors at random and enumerated points."),
 "C19": ("reference trace model, concurrent printing and frozen-recorder monitors", "All wrap boundaries, random histories; recorder stopped by a signal at arbitrary instructions."),
 "C21": ("oracle monitor: conversions vs. extended-precision arithmetic, calibration and sleep vs. the system clock", "Random and boundary values and frequencies, in optimised and UBSan builds; one calibration per process, judged by majority."),
 "C20": ("differential monitor: decompressor commands vs. values computed by the workload", "Random logs and command lines, invalid invocations under ASan."),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"checks/{i.lower()}.py"
    if os.path.exists(f"{V}/{f}"):
        checks.append(dict(property=i, quick_cmd=f"python3 {f}", thorough_cmd=f"python3 {f} --thorough", evidence_file=f"evidence/{i}.json",
                           technique=T[i][0], level="fault_enumeration" if i in ("C05", "C18") else "exploration", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason="not claimed: its check is not written yet"))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="NANOLOG_VERIF", enable="checks compile /repo/runtime with -DNANOLOG_VERIF -DNANOLOG_VERIF_STAGING_SIZE=.. -DNANOLOG_VERIF_OUTPUT_SIZE=.. [-DNANOLOG_VERIF_POINTS]", source_commits=hook),
         checks=checks, not_applicable=na,
         notes="Every check compiles what it needs from /repo's working tree into /verif/.build and removes it again. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
