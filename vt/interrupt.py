"""Interrupt the real code between two of its statements (as Ctrl-C does), deterministically."""
import os
import sys

from .runtime import REPO

ROOT = os.path.join(os.path.realpath(REPO), 'src', 'sympkf') + os.sep


class Interrupted(KeyboardInterrupt):
    pass


TOOL = 3


def _watched(f, event):
    """run f, calling event((file, line)) before every line of the code under test"""
    mon = sys.monitoring
    known = {}

    def line(code, number):
        mine = known.get(code)
        if mine is None:
            mine = known[code] = os.path.realpath(code.co_filename).startswith(ROOT)
        if not mine:
            return mon.DISABLE
        event((code.co_filename, number))
    mon.use_tool_id(TOOL, 'interrupt')
    try:
        mon.register_callback(TOOL, mon.events.LINE, line)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        return f()
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


def record(f):
    """(result, [(file, line)]): the statements executed by f, in order"""
    lines = []
    return _watched(f, lines.append), lines


def interrupted(f, where, occurrence, error=Interrupted):
    """run f, raise `error` before the given execution of the given line; True when it was reached"""
    left = [occurrence]

    def event(at):
        if at == where:
            left[0] -= 1
            if left[0] == -1:
                raise error('interrupted')
    try:
        _watched(f, event)
    except (error, Exception):
        pass
    return left[0] < 0


def points(rng, lines, n):
    """n crash points (line, occurrence) spread over the distinct statements; rare ones as likely as those of loops"""
    count = {}
    for z in lines:
        count[z] = count.get(z, 0) + 1
    distinct = sorted(count)
    chosen = rng.sample(distinct, min(n, len(distinct)))
    out = []
    for z in chosen:
        k = count[z]
        out.append((z, rng.choice([0, k - 1, rng.randrange(k)])))
    return out, len(distinct)
