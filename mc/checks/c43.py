"""Warnings are messages and nothing else: how they are treated changes no result."""
import gc
import os
import re
import tempfile
import warnings

from .. import borrow, observe, ops, pm
from ..core import Space, Violation
from ..doc import *
from ..oracle import diff
from ..pgen import RICH, by_kind, node, sites

ASSUME = ["documents of the spaces of other checks, a full one with up to two unknown or repeated elements, and damaged ones; the "
          "filters of Python's warnings module"]


def whole(x, how):
    """the library's work on a document, as plain data"""
    from svdsuite import Parser, PeripheralRegisterMap, Process, Validator
    if how == "file":
        fd, path = tempfile.mkstemp(prefix="c43-")
        try:
            with os.fdopen(fd, "wb") as f:
                f.write(x)
            d = Parser.from_svd_file(path).get_parsed_device()
        finally:
            os.unlink(path)
    elif how == "str":
        d = Parser.from_xml_str(x.decode("utf-8", "replace")).get_parsed_device()
    else:
        d = Parser.from_xml_content(x).get_parsed_device()
    if how == "parse":
        return observe.parsed(d)
    p = Process(d, None)
    dev = p.get_processed_device()
    return [observe.parsed(d), observe.parsed(dev, ("parent", "parsed")), observe.parsed(p.convert_processed_device_to_svd_device()),
            [[m.name, m.address, len(m.registers)] for m in PeripheralRegisterMap(dev).peripheral_map],
            Validator.validate_xml_content(x, get_exception=False)]


def under(mode, fn, category=Warning):
    """value, exception, warnings shown, under a filter"""
    v = e = None
    with warnings.catch_warnings(record=True) as ws:
        warnings.resetwarnings()
        warnings.simplefilter("always")
        warnings.simplefilter(mode, category)
        try:
            v = fn()
        except Exception as x:  # noqa: BLE001
            e = x
    return v, e, [(w.category.__name__, str(w.message)) for w in ws if w.category is not ResourceWarning]


def kind(e):
    return e and (type(e).__name__, str(e) if "0x7" not in str(e) and "/tmp" not in str(e) else "")


def judge(xml, st, how="content"):
    from svdsuite import ParserWarning, ProcessWarning
    x = xml.encode() if isinstance(xml, str) else xml
    fn = lambda: whole(x, how)   # noqa: E731
    v, e, ws = under("always", fn)
    st.execs += 1
    for name, text in ws:
        if name not in ("ParserWarning", "ProcessWarning"):
            raise Violation("a warning of another category", category=name, text=text, xml=xml)
        if not text.strip():
            raise Violation("a warning without text", xml=xml)
    modes = ("ignore", "once", "default", "module") if ws else ("ignore",)
    for m in modes:
        v2, e2, ws2 = under(m, fn)
        st.execs += 1
        if kind(e) != kind(e2):
            raise Violation(f"acceptance depends on whether warnings are shown ({m})", always=repr(e), other=repr(e2), xml=xml)
        if v != v2:
            raise Violation(f"the result depends on whether warnings are shown ({m})", difference=diff(v, v2), xml=xml)
        if m == "ignore" and ws2:
            raise Violation("warnings that are ignored were shown", warnings=ws2, xml=xml)
        if not set(ws2) <= set(ws) or m == "once" and sorted(set(ws)) != sorted(ws2):
            raise Violation(f"warnings depend on how they are shown ({m})", always=ws, other=ws2, xml=xml)
    for cat in (Warning, ParserWarning, ProcessWarning):
        want = next((w for w in ws if cat is Warning or w[0] == cat.__name__), None)
        v2, e2, ws2 = under("error", fn, cat)
        st.execs += 1
        if want is None:
            if kind(e) != kind(e2) or v != v2 or ws != ws2:
                raise Violation("warnings that are not issued, turned into errors, change the result", always=repr(e), other=repr(e2),
                                xml=xml)
            continue
        e3 = e2
        while e3 is not None and not isinstance(e3, Warning):
            e3 = e3.__cause__
        if e2 is None:
            raise Violation("a warning turned into an error was swallowed", warning=want, xml=xml)
        if e3 is None or (type(e3).__name__, str(e3)) != want:
            raise Violation("a warning turned into an error gives another one", warning=want, error=repr(e2), xml=xml)
        v2 = e2 = e3 = None
        if not ws:
            continue
        v2, e2, ws2 = under("always", fn)
        st.execs += 1
        if kind(e) != kind(e2) or v != v2 or ws != ws2:
            raise Violation("a document gives something else after a warning was turned into an error", xml=xml, always=repr(e),
                            other=repr(e2), warnings=[ws, ws2])
    st.outcome(repr((v, kind(e), ws)))
    return ("rejected" if e else "ok") + (" with warnings" if ws else "")


def odd(ch, full):
    """elements with what is reported: unknown access, repeated elements"""
    d = RICH.copy()
    sts = by_kind([s for s in sites(RICH) if s[4][0] != "@" and s[4] != "range"])
    for k in range(2 if full else 1):
        s = ch.pick([None] + sts[::3]) if k else ch.pick(sts)
        if s:
            n = node(d, s[0])
            n.pre[s[2]] = f"<{s[3]}>{'bogus' if s[4] == 'access' else '1'}</{s[3]}>"
    return pm.to_xml(d)


def E1(*values):
    return [EV([dict(name=n, isDefault=True) if v is None else dict(name=n, value="1", isDefault=True) if v == "default 1" else (n, v)
                for n, v in values])]


# everything that processing reports: elements of a peripheral
REPORTED = [
    lambda: [R("r"), R("reserved", off=4)],
    lambda: [R("r"), R("x", off=4, size=12)],
    lambda: [R("r", off=2)],
    lambda: [R("r"), R("s", off=2, size=16)],
    lambda: [R("r"), R("s", off=0, alternateRegister="t"), R("t", off=0)],
    lambda: [R("r"), C("k", [R("reserved")], off=0x10)],
    lambda: [R("r"), C("k", [R("x", size=12)], off=0x10)],
    lambda: [R("r"), C("k", [], off=0x10)],
    lambda: [C("j", [R("a"), R("b", off=4)], off=0x10), C("k", [R("a")], off=0x14), C("l", [R("a")], off=0x10, alternateCluster="m")],
    lambda: [R("r", [F("f", 30, 40)])],
    lambda: [R("r", [F("reserved", 0)])],
    lambda: [R("r", [F("f", 3, 0)])],
    lambda: [R("r", [F("f", 0, 1, E1(("d", None), ("d_1", "0")))])],
    lambda: [R("r", [F("f", 0, 1, E1(("a", "0"), ("a", "1")))])],
    lambda: [R("r", [F("f", 0, 1, E1(("a", "1"), ("b", "1")))])],
    lambda: [R("r", [F("f", 0, 1, E1(("a", "4")))])],
    lambda: [R("r", [F("f", 0, 1, E1(("reserved", "1"), ("b", "2")))])],
    lambda: [R("r", [F("f", 0, 1, E1(("xx", "0b0x"), ("xx_1", "2")))])],
    lambda: [R("r", [F("f", 0, 1, E1(("d", "default 1"), ("b", "2")))])],
    lambda: [R("reserved")],
    lambda: [],
    lambda: [R("r%s", dim=2, dimIncrement=2), R("s", off=8)],
    lambda: [R("r", access="bogus", resetValue=5)],
    lambda: [R("r", [F("f", bitRange="[0:3]")])],
    lambda: [R("r", dim=2, dimIncrement=4)],
]


def processed(ch):
    """two things that are reported, in one peripheral each, which are at other addresses, overlap, or are not aligned"""
    i = ch.pick(range(len(REPORTED)))
    j = ch.pick([None] + list(range(i, len(REPORTED))))
    ps = [P("P", REPORTED[i](), base=ch.pick([0x1000, 0x1001]))]
    if j is not None:
        ps.append(P("Q", REPORTED[j](), base=0x5000))
    z = ch.n(4)
    ps.append(P("Z", [R("z")], base=0x9000 if z in (0, 1) else 0x1000,
                blocks=[(0, 0x20, "registers", None), (0x10, 0x20, "buffer", None)] if z == 1 else [(0, 0x1000, "registers", None)],
                **{"alternatePeripheral": "Y"} if z == 3 else {}))
    return to_xml(device(ps))


LEAF = re.compile(r"<(\w+)>[^<]*</\1>")


def spaced(ch):
    """texts and attributes with white space around, elements and attributes left out, said twice, or emptied"""
    base = pm.to_xml(RICH)
    seen, where, path = set(), [], []
    for m in re.finditer(r"<(/?)(\w+)([^>]*?)(/?)>", base):   # one of each kind in each kind of element
        close, name, attrs, empty = m.groups()
        if close:
            path.pop()
            continue
        for x in re.finditer(r' [\w:]+="[^"]*"', attrs):
            k = (name, x.group().split("=")[0])
            if k not in seen and "xmlns" not in k[1]:
                seen.add(k)
                where.append((m.start(3) + x.start(), m.start(3) + x.end(), False))
        leaf = LEAF.match(base, m.start())
        if leaf and (path[-1], name) not in seen:
            seen.add((path[-1], name))
            where.append((leaf.start(), leaf.end(), True))
        if not empty:
            path.append(name)
    a, b, leaf = ch.pick(where)
    t = base[a:b]
    if not leaf:
        new = [t[:-1] + '\n "', "", t.replace('"', '" ', 1)][ch.n(3)]
    else:
        i, j = t.index(">") + 1, t.rindex("<")
        new = [t[:i] + " \n" + t[i:j] + "\t" + t[j:], "", t + t, t[:i] + t[j:], t + t[:i] + " 1 " + t[j:]][ch.n(5)]
    x = base[:a] + new + base[b:]
    return x.replace("<description>", "<description> ", 1) if ch.flag() else x


def whole_docs(ch):
    """documents of all kinds through every entry, damaged ones as well"""
    name = ch.pick(sorted(ops.DOCS))
    x = ops.DOCS[name]
    k = ch.n(4)
    if k == 1:
        x = x[:len(x) // 3 * 2]
    elif k == 2:
        x = x.replace(b"<name>", b"<name>\xe4\xff", 1)
    elif k == 3:
        x = x.replace(b"</name>", b"</nam>", 1)
    return x, ch.pick(["content", "str", "file", "parse"])


def run_docs(case, st):
    gc.collect()
    r = judge(case[0], st, case[1])
    with warnings.catch_warnings(record=True) as ws:   # files that were left open
        warnings.simplefilter("always")
        gc.collect()
    ws = [str(w.message) for w in ws if w.category is ResourceWarning]
    if ws:
        raise Violation("something was left open", warnings=ws, document=case[0], entry=case[1])
    return r


QUICK = {"c17": ["groups"], "c18": ["names", "everything"], "c12": ["width"], "c13": ["fits"], "c06": ["menu", "shapes", "buried"], "c14": ["positions"],
         "c05": ["ignored"], "c39": ["two"], "c04": ["chains"]}


def spaces(tier):
    th = tier != "quick"

    def parse_only(x, st):
        return judge(x, st, "parse")
    out = [Space("entries", whole_docs, run_docs, key=repr, bound="14 documents, whole and damaged in three ways, through every entry"),
           Space("reported", lambda ch: odd(ch, th), parse_only, bound="full document with one (thorough: or two) repeated or unknown elements"),
           Space("spaced", spaced, parse_only, key=repr, describe=repr, bound="full document, any text or attribute with white space "
                 "around it, left out, said twice, emptied"),
           Space("processed", processed, judge, key=repr, describe=repr, bound=f"every pair of {len(REPORTED)} things that are reported")]
    return out + borrow.spaces("quick", judge, QUICK if not th else {**borrow.ALL, "c04": None, "c06": None})
