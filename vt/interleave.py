"""Run callables in threads that take turns, switching between two statements of the code under test as a random schedule says."""
import os
import random
import sys
import threading

from .interrupt import ROOT, TOOL


class Turns:
    def __init__(self, rng, n, rate):
        self.rng, self.rate = rng, rate
        self.alive = set(range(n))
        self.turn = rng.randrange(n)
        self.cond = threading.Condition()
        self.switches = 0
        self.trace = []

    def _pass_on(self, me):
        others = sorted(self.alive - {me})
        if others:
            self.turn = self.rng.choice(others)
            self.switches += 1
            self.cond.notify_all()

    def point(self, me, what):
        with self.cond:
            if self.rng.random() < self.rate:
                self.trace.append((me, what))
                self._pass_on(me)
            self.wait(me)

    def wait(self, me):
        while self.turn != me:
            if not self.cond.wait(60):
                raise RuntimeError('schedule is stuck')

    def over(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.turn == me:
                self._pass_on(me)


def interleaved(calls, seed, rate, files=()):
    """([(value, error)], number of switches, schedule): the calls run in turns.  Statements of the code under test
    and of the given files (compiled code) are the places where a thread may give way."""
    rng = random.Random(repr(seed))
    turns = Turns(rng, len(calls), rate)
    out = [None] * len(calls)
    who = {}
    mon = sys.monitoring
    known = {}

    def line(code, number):
        mine = known.get(code)
        if mine is None:
            name = code.co_filename
            mine = known[code] = name in files or os.path.realpath(name).startswith(ROOT)
        if not mine:
            return mon.DISABLE
        me = who.get(threading.get_ident())
        if me is not None:
            turns.point(me, (os.path.basename(code.co_filename), number))

    def body(k):
        who[threading.get_ident()] = k
        try:
            with turns.cond:
                turns.wait(k)
            out[k] = (calls[k](), None)
        except BaseException as e:
            out[k] = (None, e)
        finally:
            who.pop(threading.get_ident(), None)
            turns.over(k)
    threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(calls))]
    mon.use_tool_id(TOOL, 'interleave')
    try:
        mon.register_callback(TOOL, mon.events.LINE, line)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        for th in threads:
            th.start()
        for th in threads:
            th.join()
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
    return out, turns.switches, turns.trace
