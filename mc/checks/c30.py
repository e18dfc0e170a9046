"""Two threads, each with objects of its own: every schedule gives what each gives alone."""
import os
import sys
import threading
import warnings

from .. import ops
from ..core import Skip, Space, Violation
from ..oracle import diff

ASSUME = ["a thread can be preempted at every line and call (thorough: every bytecode) of the library; inside C code (lxml) it is not",
          "each place counts at its first executions (see the bounds); up to one, thorough: two preemptions",
          "warnings are collected by one handler, as threads share that of Python"]
PAIRS = [(o, d) for o, d in (("process", "derived"), ("process", "overlap"), ("process", "ignored"), ("convert", "plain"),
                             ("serialize", "same"), ("validate", "latin"), ("map", "same"), ("parse", "small"),
                             ("process", "unresolvable"), ("process", "cyclic"))]


def library():
    import svdsuite
    return os.path.dirname(os.path.abspath(svdsuite.__file__)) + os.sep


class Sched:
    """runs one thread at a time; switches where it is told to"""

    def __init__(self, jobs, stops, fine):
        self.jobs = jobs
        self.stops = stops            # [(thread, place, occurrence)] in order
        self.fine = fine
        self.turn = 0
        self.cv = threading.Condition()
        self.done = [False] * len(jobs)
        self.seen = [dict() for _ in jobs]
        self.results = [None] * len(jobs)
        self.warns = [[] for _ in jobs]
        self.ids = {}
        self.lib = library()
        self.taken = 0
        self.stuck = False
        self.places = None if stops else []

    def give(self, me, to):
        with self.cv:
            self.turn = to
            self.cv.notify_all()
            while self.turn != me:
                self.cv.wait()

    def hit(self, me, place):
        n = self.seen[me].get(place, 0) + 1
        self.seen[me][place] = n
        if self.places is not None and me == 0:
            self.places.append((place, n))
        if self.taken < len(self.stops) and self.stops[self.taken] == (me, place, n):
            self.taken += 1
            other = 1 - me
            if not self.done[other]:
                self.give(me, other)

    def quiet(self, me):
        """nothing left to wait for in this thread"""
        return self.places is None and all(t != me for t, _, _ in self.stops[self.taken:])

    def tracer(self, me):
        def local(frame, event, arg):
            if self.quiet(me):
                sys.settrace(None)
                frame.f_trace_opcodes = False
                return None
            if event == "line" and self.fine == "line":
                self.hit(me, (frame.f_code.co_filename[len(self.lib):], frame.f_lineno, 0))
            elif event == "opcode":
                self.hit(me, (frame.f_code.co_filename[len(self.lib):], frame.f_lineno, frame.f_lasti))
            return local

        def glob(frame, event, arg):
            if self.quiet(me):
                sys.settrace(None)
                return None
            if event == "call" and frame.f_code.co_filename.startswith(self.lib):
                if self.fine == "call":
                    self.hit(me, (frame.f_code.co_filename[len(self.lib):], frame.f_code.co_firstlineno, 0))
                    return None
                if self.fine == "opcode":
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def body(self, me):
        with self.cv:
            while self.turn != me:
                self.cv.wait()
        self.ids[threading.get_ident()] = me
        if not self.quiet(me):
            sys._getframe().f_trace_opcodes = self.fine == "opcode"   # 3.12 wants to know before it starts
            sys.settrace(self.tracer(me))
        try:
            r = ops.raw(*self.jobs[me])
        finally:
            sys.settrace(None)
        with self.cv:
            self.results[me] = r
            self.done[me] = True
            rest = [k for k, d in enumerate(self.done) if not d]
            if rest:
                self.turn = rest[0]
            self.cv.notify_all()

    def run(self):
        def show(message, category, filename, lineno, file=None, line=None):
            self.warns[self.ids.get(threading.get_ident(), 0)].append((category.__name__, str(message)))
        warnings.simplefilter("always")
        warnings.showwarning = show
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(20)
            if t.is_alive():
                return "stuck"
        return [[*self.results[k], self.warns[k]] for k in range(len(self.jobs))], self.taken


_PLACES = {}


def places(job, fine, times):
    """where a preemption can happen in a job run alone: (place, occurrence)"""
    k = (job, fine)
    if k not in _PLACES:
        def go():
            s = Sched([job], [], fine)
            s.run()
            return s.places
        _PLACES[k] = ops.forked(go, 120)
    return [(p, n) for p, n in _PLACES[k] if n <= times]


def schedule(fine, times, pairs, two=False):
    def gen(ch):
        a, b = ch.pick(pairs)
        pa = places(a, fine, times)
        stops = [(0, *pa[ch.n(len(pa))])]
        if two:
            pb = places(b, fine, times)
            stops.append((1, *pb[ch.n(len(pb))]))
        return a, b, stops, fine
    return gen


def run(case, st):
    a, b, stops, fine = case
    out = ops.forked(lambda: Sched([a, b], stops, fine).run(), 60)
    st.execs += 1
    if out == "stuck":
        # one thread waits for a lock the other holds: no such schedule; the library must still finish without it
        return "infeasible: waits for a lock"
    results, taken = out
    for job, got in zip((a, b), results):
        want = ops.alone(*job)
        if got != want:
            raise Violation(f"{job[0]} on '{job[1]}' gives another result beside {[x for x in (a, b) if x != job]}",
                            difference=diff(want, got) or (want, got), preempted=stops)
    st.outcome(repr((a, b, taken)))
    return f"{taken} preemptions"


def all_pairs(jobs):
    return [(a, b) for a in jobs for b in jobs]


def spaces(tier):
    t = tier == "thorough"
    one = [("process", "derived"), ("process", "overlap"), ("convert", "plain"), ("validate", "latin"),
           ("serialize", "same")]
    some = [(a, a) for a in one] + [(a, one[0]) for a in one[1:]] + [(one[0], one[1]), (one[0], one[4])]
    if not t:
        return [Space("lines", schedule("line", 1, some), run, key=repr,
                      bound="11 ordered pairs of operations, one preemption at the first execution of every line"),
                Space("two", schedule("call", 1, [(one[4], one[4]), (one[4], one[1])], True), run, key=repr,
                      bound="two pairs of operations, two preemptions, each at the first call of every function")]
    return [
        Space("lines", schedule("line", 3, all_pairs(PAIRS)), run, key=repr,
              bound="100 ordered pairs, one preemption at the first three executions of every line"),
        Space("bytecodes", schedule("opcode", 1, all_pairs(one)), run, key=repr,
              bound="25 ordered pairs, one preemption at the first execution of every bytecode"),
        Space("two", schedule("call", 2, all_pairs(one[:3]), True), run, key=repr,
              bound="nine pairs, two preemptions, each at the first two calls of every function"),
    ]
