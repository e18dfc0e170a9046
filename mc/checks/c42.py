"""An operation that is interrupted, at whatever point, leaves nothing behind."""
import gc
import os
import sys
import warnings

from .. import observe, ops
from ..core import Space, Violation
from ..oracle import diff
from .c30 import library

ASSUME = ["an interruption (Ctrl-C, a signal handler that raises) or a lack of memory comes at a line of the library; inside C code it does not",
          "each line counts at its first executions (see the bounds)"]
DOCS = ["plain", "derived", "overlap", "ignored", "unresolvable", "cyclic", "duplicate", "small"]


def subject(op, doc):
    """what the operation works on"""
    from svdsuite import Parser, Process
    x = ops.DOCS[doc]
    if op in ("parse", "validate", "straight"):
        return x
    if op == "parser":
        return Parser.from_xml_content(x)
    d = Parser.from_xml_content(x).get_parsed_device()
    if op in ("convert", "map"):
        p = Process(d, None)
        return p if op == "convert" else p.get_processed_device()
    return d


def operate(op, o):
    from svdsuite import Parser, PeripheralRegisterMap, Process, Serializer, Validator
    return {"parse": lambda: observe.parsed(Parser.from_xml_content(o).get_parsed_device()),
            "straight": lambda: observe.parsed(Process.from_xml_content(o).convert_processed_device_to_svd_device()),
            "validate": lambda: Validator.validate_xml_content(o, get_exception=False),
            "parser": lambda: observe.parsed(o.get_parsed_device()),
            "process": lambda: observe.device(Process(o, None).get_processed_device()),
            "serialize": lambda: [Serializer.device_to_svd_content(o, pretty_print=True), Serializer.device_to_svd_str(o)],
            "convert": lambda: observe.parsed(o.convert_processed_device_to_svd_device()),
            "map": lambda: [[m.name, m.address, list(m.allocated_range), [[r.name, r.address, r.size] for r in m.registers]]
                            for m in PeripheralRegisterMap(o).peripheral_map]}[op]()


def content(op, o):
    if op in ("process", "serialize"):
        return observe.parsed(o)
    if op == "map":
        return observe.parsed(o, ("parent", "parsed"))
    if op == "convert":
        return observe.parsed(o.get_processed_device(), ("parent", "parsed"))
    return None


class Stop:
    """raises at the n-th execution of a line; without one, records the lines"""

    def __init__(self, place=None, n=0, exc=None):
        self.lib, self.place, self.n, self.exc = library(), place, n, exc
        self.seen, self.order, self.hit = {}, [], False

    def local(self, frame, event, arg):
        if event == "line":
            p = (frame.f_code.co_filename[len(self.lib):], frame.f_lineno)
            k = self.seen[p] = self.seen.get(p, 0) + 1
            if self.place is None:
                self.order.append((p, k))
            elif p == self.place and k == self.n:
                self.hit = True
                sys.settrace(None)
                raise self.exc
        return None if self.hit else self.local

    def glob(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.lib):
            if frame.f_code.co_name == "__del__":   # what is raised there goes nowhere
                return None
            return self.local
        return None

    def run(self, fn):
        sys.settrace(self.glob)
        try:
            return fn()
        finally:
            sys.settrace(None)


def caught(fn):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            v, e = fn(), None
        except BaseException as x:  # noqa: BLE001
            v, e = None, x
    return v, e, [(w.category.__name__, str(w.message)) for w in ws
                  if w.category is not ResourceWarning]   # a file that the traceback of an interruption kept open


def result(op, o):
    v, e, w = caught(lambda: operate(op, o))
    return [v, e and [type(e).__name__, str(e) if "0x7" not in str(e) else ""], w]


def surroundings():
    """what belongs to the program, not to the library"""
    return [os.getcwd(), sys.getrecursionlimit(), sorted(os.environ.items()), list(sys.path), repr(warnings.filters),
            warnings.showwarning, warnings.formatwarning, sys.excepthook, sys.stdout, sys.stderr, gc.isenabled(), gc.get_threshold(),
            sys.getswitchinterval(), sys.gettrace()]


_points = {}
_ref = {}


def points(op, doc, times):
    """the lines the operation executes, at their first executions"""
    k = (op, doc, times)
    if k not in _points:
        for _ in range(2):   # once for what happens at first use only
            s = Stop()
            o = subject(op, doc)
            caught(lambda: s.run(lambda: operate(op, o)))
        _points[k] = [(p, n) for p, n in s.order if n <= times]
        _ref[op, doc] = result(op, subject(op, doc))
        _ref["other"] = result("straight", ops.DOCS["same"])
    return _points[k]


def able(op, doc):
    if op not in ("convert", "map"):
        return True
    from svdsuite import Process
    return not observe.call(lambda: Process.from_xml_content(ops.DOCS[doc])).failed


def run(case, st):
    op, doc, times, i, kind = case
    place, n = points(op, doc, times)[i]
    exc = kind()
    o = subject(op, doc)
    before, around = content(op, o), surroundings()
    s = Stop(place, n, exc)
    where = dict(operation=op, document=doc, line=f"{place[0]}:{place[1]}", execution=n, interruption=kind.__name__)
    v, e, _ = caught(lambda: s.run(lambda: operate(op, o)))
    st.execs += 3
    if not s.hit:
        return "not reached again"
    if kind is KeyboardInterrupt and e is not exc:
        raise Violation("an interruption was swallowed", ended=repr(e) if e else "with a result", **where)
    if e is None and v != _ref[op, doc][0]:
        raise Violation("a lack of memory gave a wrong result in silence", difference=diff(_ref[op, doc][0], v), **where)
    e = exc = None
    x = diff(before, content(op, o))
    if x:
        raise Violation("an interrupted operation changed what it worked on", difference=x, **where)
    if surroundings() != around:
        raise Violation("an interrupted operation changed its surroundings", **where)
    for again, what in ((o, "the same operation on the same object"), (subject(op, doc), "the same operation")):
        x = diff(_ref[op, doc], result(op, again))
        if x:
            raise Violation(f"{what} gives something else after an interruption", difference=x, **where)
    x = diff(_ref["other"], result("straight", ops.DOCS["same"]))
    if x:
        raise Violation("another document gives something else after an interruption", difference=x, **where)
    st.outcome(f"{place} {n}")
    return "interrupted"


def spaces(tier):
    th = tier != "quick"
    most = ["parse", "parser", "process", "serialize", "convert", "map", "validate"]
    pairs = [(op, d) for d in DOCS for op in most if able(op, d)]
    quick = [(op, d) for op, d in pairs if d in ("derived", "small", "ignored") or op in ("process", "parse")]

    def gen(ch, which, times, kinds):
        op, doc = ch.pick(which)
        return op, doc, times, ch.n(len(points(op, doc, times))), ch.pick(kinds)
    out = [Space("interrupted", lambda ch: gen(ch, quick if not th else pairs, 2 if not th else 5, [KeyboardInterrupt]), run, key=repr,
                 bound=f"{len(quick if not th else pairs)} operations x every line at its first {'five executions' if th else 'two executions'}"),
           Space("no memory", lambda ch: gen(ch, [("process", "derived"), ("parse", "small"), ("serialize", "small")] if not th else pairs,
                                             1, [MemoryError]), run, key=repr, bound="the same with a lack of memory")]
    return out
