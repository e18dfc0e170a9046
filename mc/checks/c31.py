"""Resolver logging: the same result with and without a log, and a log that can be read."""
import base64
import gc
import gzip
import html
import os
import re
import shutil
import stat
import sys
import tempfile
import xml.etree.ElementTree as ET

from .. import borrow, observe, pm
from ..core import Skip, Space, Violation
from ..doc import *
from ..oracle import diff
from ..pgen import RICH, SMALL, by_kind, node, sites

ASSUME = ["the drawing program is a stand-in that draws nothing (space 'drawn': the real one, if installed)",
          "the missing image library, which is not used for this kind of picture, is declared present"]
STUB = """#!/bin/sh
out=
while [ $# -gt 0 ]; do
  if [ "$1" = -o ]; then out=$2; fi
  shift
done
[ -n "$out" ] || exit 0
echo '<svg xmlns="http://www.w3.org/2000/svg"><!-- x --><g/></svg>' > "$out"
"""
PATH = os.environ.get("PATH", "/usr/bin:/bin")
TMP = {}


def prepare(real):
    import rustworkx.visualization.graphviz as g
    g.HAS_PILLOW = True
    if real:
        os.environ["PATH"] = PATH
        return
    pid = os.getpid()
    if pid not in TMP:
        TMP[pid] = d = tempfile.mkdtemp(prefix="c31-")
        p = os.path.join(d, "dot")
        with open(p, "w") as f:
            f.write(STUB)
        os.chmod(p, stat.S_IRWXU)
        import atexit
        import multiprocessing.util as mu
        mu.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=1)
        atexit.register(shutil.rmtree, d, True)
    os.environ["PATH"] = TMP[pid] + ":" + PATH


def unpack(path):
    """what a reader of the log sees"""
    with open(path, encoding="utf-8") as f:
        page = f.read()
    packed = re.findall(r'"([A-Za-z0-9+/=]{40,})"', page)
    if len(packed) == 1:
        page = gzip.decompress(base64.b64decode(packed[0], validate=True)).decode("utf-8")
    return page


def names(xml):
    """names of derived elements and of those without dim: all of them go through the resolver"""
    root = ET.fromstring(xml)
    out, paths = set(), set()
    for tag in ("peripheral", "cluster", "register", "field"):
        for e in root.iter(tag):
            n = e.findtext("name")
            if n and "%s" not in n:
                out.add(n.strip())
            if e.get("derivedFrom"):
                paths.add(e.get("derivedFrom"))
    return out, paths


def judge(real):
    def run(xml, st):
        from svdsuite import Process
        if isinstance(xml, str):
            xml = xml.encode()
        a = observe.call(lambda: Process.from_xml_content(xml).get_processed_device())
        prepare(real)
        d = tempfile.mkdtemp(prefix="c31-")
        try:
            path = os.path.join(d, "log.html")
            b = observe.call(lambda: Process.from_xml_content(xml, path).get_processed_device())
            # a resolution that ran to its end has left its log by now, another one leaves it with its last reference
            late = a.exc is not None and type(a.exc.__cause__).__name__ not in ("UnprocessedNodesException", "LoopException")
            early = os.path.exists(path) or late
            exc, b.exc = b.exc, b.exc and (type(b.exc), str(b.exc))
            st.execs += 2
            if exc is not None:   # a log may be written when the last reference to what failed is gone
                shown, exc = repr(exc), None
                gc.collect()
            if (a.exc and (type(a.exc), str(a.exc))) != b.exc:
                raise Violation("logging changes whether a document is accepted, or why not", without=repr(a.exc),
                                logged=shown if b.exc else None, xml=xml)
            if a.warns != b.warns:
                raise Violation("logging changes the warnings", without=a.warns, logged=b.warns, xml=xml)
            if a.exc is None:
                x = diff(observe.device(a.obj), observe.device(b.obj))
                if x:
                    raise Violation("logging changes the processed device", difference=x, xml=xml)
            left = sorted(os.listdir(d))
            if left not in ([], ["log.html"]):
                raise Violation("logging leaves other files behind", files=left)
            if a.exc is None or names(xml)[1]:
                if not left or not early:
                    raise Violation("no log was written", xml=xml, error=repr(a.exc))
                page = html.unescape(unpack(path))
                if a.exc is None:
                    ns, paths = names(xml)
                    gone = sorted(n for n in ns | paths if n not in page)
                    if gone:
                        raise Violation("the log does not mention what was resolved", missing=gone, xml=xml, log=page[-3000:])
                st.outcome(str(len(page)))
                return "logged" if a.exc is None else "logged, rejected"
            return "rejected"
        finally:
            shutil.rmtree(d)
            os.environ["PATH"] = PATH
    return run


ODD = ["A", 'a"b', "a\\", "\\", 'a\\"b', "a\\N", "a<b>&", "a|b{x}[y]", "ä€😀", "a b", "--", "a;b", "SVG_CONTENT",
       "BODY_CONTENT", "</div>", "%n", "#1", "/*x*/", "graph", "a\u0085b", "\\n", "x" * 40, "L" * 300]


def odd(ch):
    """a name with characters that mean something to the programs behind the log, on each level"""
    n = ch.pick(ODD)
    lvl = ch.n(5)
    df = ch.flag()
    f = [F(n if lvl == 3 else "F", 0, 1, [EV([("v", "1")], name=n) if lvl == 4 else EV([("v", "1")])])]
    if df:
        f.append(F("F2", 2, 3, [EV([], df=n)]) if lvl == 4 else F("F2", 2, 3, df=n if lvl == 3 else "F"))
    r = [R(n if lvl == 2 else "R", f)]
    if df and lvl == 2:
        r.append(R("R2", df=n, off=8))
    c = [C(n if lvl == 1 else "C", r)]
    if df and lvl == 1:
        c.append(C("C2", df=n, off=0x40))
    p = [P(n if lvl == 0 else "P", c)]
    if df and lvl == 0:
        p.append(P("P2", df=n, base=0x1000))
    return to_xml(device(p))


def path_case(ch):
    """where the log should go"""
    return ch.pick(["missing directory", "directory", "full", "existing"]), ch.flag()


def run_path(case, st):
    """a log that cannot be written is no reason for a wrong result in silence"""
    from svdsuite import Process
    where, bad = case
    xml = to_xml(device([P("P", [R("R", df="nothing" if bad else None)])])).encode()
    a = observe.call(lambda: Process.from_xml_content(xml).get_processed_device())
    prepare(False)
    d = tempfile.mkdtemp(prefix="c31-")
    try:
        path = {"missing directory": os.path.join(d, "x", "log"), "directory": d, "full": "/dev/full",
                "existing": os.path.join(d, "log")}[where]
        if where == "existing":
            with open(path, "wb") as f:
                f.write(b"old" * 100000)
        b = observe.call(lambda: Process.from_xml_content(xml, path).get_processed_device())
        st.execs += 2
        if bad and not b.failed:
            raise Violation("a document that is rejected is accepted with logging")
        if not b.failed:
            x = diff(observe.device(a.obj), observe.device(b.obj))
            if x:
                raise Violation("a log that cannot be written changes the result", difference=x)
            if where == "existing":
                page = unpack(path)
                if "old" * 9 in page:
                    raise Violation("the old content of the log was kept")
        elif where == "existing" and not bad:
            raise Violation("an existing log makes processing fail", error=repr(b.exc))
    finally:
        b = None
        hook, sys.unraisablehook = sys.unraisablehook, lambda *_: None
        gc.collect()
        sys.unraisablehook = hook
        shutil.rmtree(d)
        os.environ["PATH"] = PATH
    return where






def overwritten(ch):
    """a log where there is one already, of a document of more or less or of the same length"""
    docs = [device([P("PPP", [R("RRR")])]), device([P("QQQ", [R("SSS", [F("FFF", 0, 1)]), R("TTT", df="SSS", off=8)])]),
            device([P("VVV", [R(f"W{i}", off=4 * i) for i in range(12)])]), device([P("BAD", [R("R", df="none")])])]
    return [to_xml(ch.pick(docs)).encode() for _ in range(2 + ch.n(2))]


def run_overwritten(case, st):
    from svdsuite import Process
    prepare(False)
    d = tempfile.mkdtemp(prefix="c31-")
    try:
        for x in case:
            b = observe.call(lambda: Process.from_xml_content(x, os.path.join(d, "log")))
            st.execs += 1
            b.exc = None
            gc.collect()
        b = observe.call(lambda: Process.from_xml_content(case[-1], os.path.join(d, "fresh")))
        b.exc = None
        gc.collect()
        logs = []
        for n in ("log", "fresh"):
            with open(os.path.join(d, n), encoding="utf-8") as f:
                logs.append(f.read())
        if len(logs[0]) != len(logs[1]) and abs(len(logs[0]) - len(logs[1])) > 200:   # compressed, with a time stamp
            raise Violation("a log written over another one is not what it is alone", sizes=[len(x) for x in logs], documents=case)
        if unpack(os.path.join(d, "log")) != unpack(os.path.join(d, "fresh")):
            raise Violation("a log written over another one says something else", documents=case)
        st.outcome(str(len(logs[0])))
    finally:
        shutil.rmtree(d)
        os.environ["PATH"] = PATH
    return "ok"


def graph(n, deep):
    def gen(ch):
        """every derivation graph of n elements on one level, incl. unresolvable and cyclic ones"""
        lvl = ch.pick(["peripheral", "register", "cluster", "field"])
        els = []
        for i in range(n):
            t = ch.n(n + 2)
            df = None if t == 0 else "Z" if t == n + 1 else f"N{t - 1}"
            if lvl == "peripheral":
                els.append(P(f"N{i}", [R("R", [F("F", 0, 0)])] if df is None or deep else [], df=df, base=0x1000 * i))
            elif lvl == "register":
                els.append(R(f"N{i}", [F("F", 0, 0)], df=df, off=4 * i))
            elif lvl == "cluster":
                els.append(C(f"N{i}", [R("R")] if df is None or deep else [], df=df, off=16 * i))
            else:
                els.append(F(f"N{i}", i, i, df=df))
        if lvl == "field":
            els = [R("R", els)]
        if lvl != "peripheral":
            els = [P("P", els)]
        return to_xml(device(els))
    return gen


def dims(ch):
    """dim elements holding derived ones, and derived from"""
    a = dict(dim=ch.pick([1, 2, 3]), dimIncrement=16)
    inner = ch.pick([[R("X"), R("Y", df="X", off=4)], [R("X", [F("F", 0, 0), F("G", 1, 1, df="F")])],
                     [R("X%s", dim=2, dimIncrement=4)], [R("X", df="B")], [C("K", [R("X", df="P.B")])]])
    els = [C("D%s", inner, off=0x100, **a)]
    if ch.flag():
        els.append(C("E", df=ch.pick(["D%s", "D0", "D1"]), off=0x200))
    els.append(R("B"))
    ps = [P("P", els)]
    if ch.flag():
        ps.insert(0, P("Q", df="P", base=0x2000))
    return to_xml(device(ps))


def spaces(tier):
    t = tier == "thorough"
    out = [
        Space("graphs", graph(3, False), judge(False), bound="three elements on each level, every base"),
        Space("dims", dims, judge(False), bound="dim x derivation on two levels"),
        Space("names", odd, judge(False), bound="23 unusual names on five levels"),
        Space("overwritten", overwritten, run_overwritten, key=repr, bound="up to three logs of four documents in one place"),
        Space("paths", path_case, run_path, key=repr, bound="four places x two documents"),
    ]
    if os.path.exists("/usr/bin/dot"):
        out.append(Space("drawn", odd if t else drawn_quick, judge(True), bound="unusual names drawn by the real program"))
    if t:
        out += borrow.spaces("quick", judge(False), {"c03": ["groups", "depth"], "c07": ["inside", "fields"],
                                                     "c13": None, "c18": None})
    else:
        out += borrow.spaces("quick", judge(False), {"c03": ["groups", "depth"]})
    return out


def drawn_quick(ch):
    n = len(ODD)
    i = ch.n(n)
    lvl = i % 5
    sub = _Fixed([i, lvl, 1])
    return odd(sub)


class _Fixed:
    """answers given in advance"""
    def __init__(self, answers):
        self.a = list(answers)

    def n(self, k):
        return self.a.pop(0)

    def pick(self, options):
        return options[self.n(len(options))]

    def flag(self):
        return bool(self.n(2))
