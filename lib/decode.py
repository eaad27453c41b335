"""Parsing and comparing decompressor output."""
import re
HDR = re.compile(rb"^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)\.(\d+) (.*?):(\d+) (ERROR|WARNING|NOTICE|DEBUG|\(none\))\[(\d+)\]: (.*)$", re.S)

class Msg:
    __slots__ = ("date", "nanos", "file", "line", "level", "tid", "text")
    def __init__(s, m):
        s.date, s.nanos, s.file, s.line, s.level, s.tid, s.text = m.group(1), m.group(2), m.group(3), int(m.group(4)), m.group(5), int(m.group(6)), m.group(7)

def parse(out):
    """Splits decompressor stdout into executions of messages (single-line texts).
    Returns (executions, bad_lines, announced_count)."""
    execs, bad, count = [[]], [], None
    for ln in out.split(b"\r\n"):
        if not ln:
            continue
        m = HDR.match(ln)
        if m:
            execs[-1].append(Msg(m))
        elif ln.startswith(b"# New execution started"):
            execs.append([])
        elif ln.startswith(b"# Decompression Complete after printing "):
            count = int(ln.split()[5])
        else:
            bad.append(ln)
    return execs, bad, count
