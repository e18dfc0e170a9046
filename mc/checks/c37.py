"""Unrelated content does not interfere: what is added elsewhere, and referred to by nobody, changes nothing else."""
from .. import borrow, observe
from ..core import Skip, Violation
from ..doc import to_xml
from ..gen import *
from ..oracle import diff, tree_space

ASSUME = ["additions have names of their own on their own level and overlap nothing; what they contain has the names others have"]
FAR = 1 << 36


def stranger(first):
    """a peripheral with everything in it, named like the rest below its own name"""
    f = [F("f", 0, 1, [EV([("a", "0"), ("b", "1")], name="V")]), F("g", 4, 5, df="f"), F("A%s", 8, 8, dim=2, dimIncrement=1)]
    r = R("R", f, size=16, access="read-only", resetValue=0x5A, resetMask=0xFF, protection="p", alternateGroup=None)
    ch = [r, R("A", df="R", off=0x10), R("B%s", off=0x20, dim=3, dimIncrement=4, size=8),
          C("C", [R("R", df="zz_other.R", off=4), R("r", off=8)], off=0x40), C("D[%s]", df="C", off=0x80, dim=2, dimIncrement=0x10),
          R("R0", off=0x100, size=64, resetValue=0xFFFFFFFFFFFFFFFF)]
    return P("zz_other", ch if first else ch[::-1], base=FAR * 3, size=16, access="write-only", resetValue=7, protection="n",
             interrupt=[("I", "d", 77)])


def without(t, name):
    """the processed tree without the elements of that name, and without what their presence may rightly change"""
    if isinstance(t, list):
        return [without(x, name) for x in t if not (isinstance(x, dict) and x.get("name") == name)]
    if not isinstance(t, dict):
        return t
    out = {}
    for k, v in t.items():
        if k == "registers":
            v = [(a, n) for a, n in v if n != name]
        elif k in ("children", "peripherals"):
            v = without(v, name)
        out[k] = v
    return out


def extents(t):
    """without the extents of peripherals and clusters, which an added register may enlarge"""
    if isinstance(t, list):
        return [extents(x) for x in t]
    if not isinstance(t, dict):
        return t
    return {k: extents(v) if k in ("children", "peripherals") else v for k, v in t.items()
            if k not in ("end_address", "end_address_effective", "peripheral_size", "peripheral_size_effective", "cluster_size")
            and not (k == "size" and t.get("kind") != "register" and "fields" not in t)}


def compare(a, b, view, what, xml, other):
    if a.failed:
        if not b.failed:
            raise Violation(f"{what} makes an invalid document valid", error=repr(a.exc), xml=xml, added=other)
        return
    if b.failed:
        raise Violation(f"{what} makes a valid document invalid", error=repr(b.exc), xml=xml, added=other)
    x = diff(view(a.tree), view(b.tree))
    if x:
        raise Violation(f"{what} changes something else", difference=x, xml=xml, added=other)


def clones(dev):
    """every peripheral once more, under another name in another place"""
    d = dev.copy()
    for e in [e.copy() for e in dev.ch]:
        e.a["name"] = type(e.a["name"])("zz_" + e.a["name"])
        e.a["baseAddress"] += FAR
        d.ch.append(e)
    return d


def twins(dev):
    """the same, but what is in the copies says something else, and they come first"""
    d = clones(dev)
    n = len(dev.ch)
    for e in d.ch[n:]:
        for x in e.walk():
            if x.kind == "register":
                x.a["resetValue"] = (x.a.get("resetValue") or 0) ^ 0x5A
                x.a["description"] = "twin"
            elif x.kind == "field":
                x.a["description"] = "twin"
    d.ch = d.ch[n:] + d.ch[:n]
    return d


def shift(p):
    """the tree of a peripheral moved and renamed the way its clone is"""
    def go(t):
        if isinstance(t, list):
            return [go(x) for x in t]
        if not isinstance(t, dict):
            return t
        return {k: [(a + FAR, n) for a, n in v] if k == "registers" else go(v) if k == "children" else
                v + FAR if k in ("base_address", "end_address", "end_address_effective") and v is not None else v
                for k, v in t.items()}
    return {**go(p), "name": "zz_" + p["name"]}


def judge(dev, st):
    if any(e.kind != "peripheral" or not isinstance(e.a.get("baseAddress"), int) or not isinstance(e.name, str)
           for e in dev.ch):
        return "something essential is missing"
    xml = to_xml(dev)
    a = observe.process(xml)
    st.execs += 1
    if a.tree:
        st.outcome(repr(a.tree))
    for first in (True, False):
        d = dev.copy()
        d.ch.insert(0 if first else len(d.ch), stranger(first))
        x = to_xml(d)
        b = observe.process(x)
        st.execs += 1
        compare(a, b, lambda t: without(t, "zz_other"), "another peripheral", xml, x)
    for first in (True, False):
        d = dev.copy()
        for p in d.ch:
            if p.df is None:
                p.ch.insert(0 if first else len(p.ch), R("zz_other", [F("f", 0), F("A", 1)], off=0x70000000, size=8, access="read-only"))
        x = to_xml(d)
        b = observe.process(x)
        st.execs += 1
        compare(a, b, lambda t: extents(without(t, "zz_other")), "another register", xml, x)
    d = clones(dev)
    x = to_xml(d)
    b = observe.process(x)
    st.execs += 1
    if a.failed:
        compare(a, b, None, "a copy of every peripheral", xml, x)
        return "rejected"
    if b.failed:
        raise Violation("a copy of every peripheral makes a valid document invalid", error=repr(b.exc), xml=xml, added=x)
    both = {p["name"]: p for p in b.tree["peripherals"]}
    for p in a.tree["peripherals"]:
        for want, what in ((p, "changes the original"), (shift(p), "is not the same again")):
            y = diff(want, both.get(want["name"]))
            if y:
                raise Violation(f"a copy of a peripheral {what}", difference=y, xml=xml, added=x)
    d = twins(dev)
    y = to_xml(d)
    c = observe.process(y)
    st.execs += 1
    compare(a, c, lambda t: {**t, "peripherals": [p for p in t["peripherals"] if not p["name"].startswith("zz_")]},
            "another peripheral much like it", xml, y)
    if len(both) != 2 * len(a.tree["peripherals"]):
        raise Violation("copies of peripherals are missing or too many", xml=xml, added=x)
    return "ok"


def groups(ch):
    """registers and clusters whose names and groups run into one another when put together"""
    names, gs = ["A", "AB", "A_B", "ABC", "A_BC"], [None, "B", "C", "BC", "B_C", "_B"]
    one, two = (ch.pick(names), ch.pick(gs)), (ch.pick(names), ch.pick(gs))
    k = ch.n(3)
    if k == 1:
        two = (two[0], None)

    def key(x):
        return x[0] if x[1] is None else f"{x[0]}_{x[1]}"
    if key(one) == key(two) and one != two:
        raise Skip   # one name in what is made of it
    a = R(one[0], [F("f", 0)], alternateGroup=one[1])
    b = C(two[0], [R("r")], off=0x40) if k == 1 else R(two[0], df=one[0] if k == 2 else None, off=4, alternateGroup=two[1])
    if k == 2 and two[1] is None or one == two:
        raise Skip
    els = [a, b, R("Z", off=0x80)]
    return device([P("P", els if ch.flag() else els[::-1])])


QUICK = {"c03": ["odd", "groups", "kinds", "depth", "clusters"], "c04": ["mixed", "chains"], "c05": ["nested", "ignored", "large"],
         "c08": ["levels"], "c10": ["nest"], "c12": ["literal", "width"], "c13": ["refs", "inherited"], "c14": None,
         "c16": ["labels", "groups", "pair"], "c18": ["names", "alignment"]}


def spaces(tier):
    own = [tree_space("groups", groups, "two names and groups that run into one another")]
    if tier == "quick":
        return own + borrow.trees("quick", judge, QUICK)
    return own + borrow.trees("quick", judge, {f"c{i:02d}": None for i in (14, 16, 18, 13, 11, 10, 3, 4, 5, 7, 12, 2, 8, 9, 15, 17, 6)})
