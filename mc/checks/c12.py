"""Expansion of enumerated values."""
from ..core import Violation
from ..gen import *
from ..oracle import tree_space

ASSUME = ["fields up to 6 bits wide where a default value is expanded (one entry per remaining value), up to 64 bits "
          "otherwise", "a default entry that also repeats another entry's value is outside the space"]
LIT = ["0", "1", "2", "3", "7", "8", "01", "0x1", "0X2", "0x0F", "#1", "#01", "#10", "0b1", "0b011", "0B10"]
WILD = ["#x", "#X1", "#1x", "0bxx", "#0x1", "0b1Xx", "#xxx", "#x0x", "#xxxx"]
BAD = ["", "x", "0x", "0b", "#", "0xg", "12a", "#2", "-1", "0b12", "1.5", "1x"]


def doc(vals, width, **kw):
    return device([P("PP", [R("RR", [F("FF", 0, width - 1, [EV(vals, **kw)])], size=64 if width > 32 else 32)])])


def relations(dev, r, st):
    for p in r.tree["peripherals"]:
        for reg in p["children"]:
            for f in reg.get("fields", ()):
                for c in f["enums"]:
                    vs = [v["value"] for v in c["values"]]
                    ns = [v["name"] for v in c["values"]]
                    if vs != sorted(set(vs)) or len(set(ns)) != len(ns) or any(
                            v < 0 or v >> f["bit_width"] for v in vs):
                        raise Violation("enumerated values are not distinct, sorted and within the field",
                                        values=c["values"])


def literal(ch, full):
    """every literal alone and next to a plain one, in fields of several widths"""
    w = ch.pick([1, 2, 3, 4] + ([6, 33, 64] if full else [33]))
    v = ch.pick(LIT + WILD + [b for b in BAD if b])
    vals = [{"name": "n", "description": ch.pick([None, "de"]), "value": v}]
    if ch.flag():
        vals.insert(ch.n(2), {"name": "m", "description": None, "value": ch.pick(["0", "1", "5"])})
    return doc(vals, w)


def binary(ch, nbits):
    """every string of 0, 1 and don't-care up to nbits, in fields wider, as wide and narrower"""
    n = 1 + ch.n(nbits)
    s = "".join(ch.pick("01x") for _ in range(n))
    return doc([{"name": "n", "description": "d", "value": ch.pick(["#", "0b"]) + s}], ch.pick([1, 2, 3, 5]))


def clash(ch, full):
    """three entries: equal names, equal values, reserved, too large, wildcards producing equal names"""
    names = ["a", "b", "reserved", "a_1"] + (["Reserved", "A"] if full else [])
    vals = ["0", "1", "#x", "0x3", "4"] + (["#1x", "01"] if full else [])
    es = [{"name": ch.pick(names), "description": None, "value": ch.pick(vals)} for _ in range(3)]
    return doc(es, 2)


def default(ch, full):
    """a default entry (with and without value) fills the values nobody claims"""
    w = ch.pick([1, 2, 3] + ([5, 6] if full else []))
    es = [{"name": "d", "description": ch.pick([None, "x"]), "isDefault": True, "value": ch.pick([None, "0", "#x1"])}]
    for i in range(ch.n(3)):
        es.append({"name": ch.pick(["a", "b", "reserved", "d_0", "d_1", "d"] if full else [["a", "d_1"], ["b", "d_0"]][i]), "description": None,
                   "isDefault": ch.pick([None, False, True]) if i == 0 else None,
                   "value": ch.pick(["0", "1", "#1x", "5", "7"] + ([None] if i == 0 else []))})
    return doc(ch.perm(es), w)


def subsets(ch, w):
    """every subset of explicit values of a w-bit field, without and with a default"""
    vs = [v for v in range((1 << w) + 1) if ch.flag()]
    es = [{"name": f"v{v}", "description": None, "value": str(v)} for v in vs]
    if ch.flag():
        es.insert(ch.n(len(es) + 1) if len(es) < 4 else 0, {"name": "def", "description": "dd", "isDefault": True})
    if not es:
        es = [{"name": "v", "description": None, "value": "0"}]
    return doc(es, w)


def width(ch):
    """what counts is the width of the field that holds the values: dims, derived fields, derived containers"""
    es = [{"name": "a", "description": None, "value": ch.pick(["0", "3", "7"])},
          {"name": "d", "description": None, "isDefault": True} if ch.flag() else
          {"name": "d", "description": None, "value": "#1x"}]
    w1, w2 = ch.pick([1, 2, 3]), ch.pick([1, 2, 3])
    f = F("f", 0, w1 - 1, [EV(es, name="V")])
    if ch.flag():
        g = F("g", 8, 8 + w2 - 1, [EV(df=ch.pick(["V", "f.V", "RR.f.V"]) if False else ch.pick(["f.V", "PP.RR.f.V"]))])
        g.ch[0].df = "PP.RR.f.V"
    else:
        g = F("g", 8, 8 + w2 - 1, df="f")
    return device([P("PP", [R("RR", [f, g] if ch.flag() else [g, f])])])


def wide(ch, top):
    """a default entry in every width of field up to top bits, next to a value at the low, high or middle end"""
    w = 1 + ch.n(top)
    v = ch.pick(["0", str((1 << w) - 1), str(1 << (w - 1)), "#" + "x" * min(3, w), "#1" + "x" * (w - 1), str(1 << w)])
    es = [{"name": "d", "description": None, "isDefault": True}]
    if ch.flag():
        es.insert(ch.n(2), {"name": "a", "description": None, "value": v})
    return doc(es, w)


def spaces(tier):
    th = tier != "quick"
    kw = dict(extra=relations)
    return [
        tree_space("literal", lambda ch: literal(ch, th), "literals x field width x neighbour", **kw),
        tree_space("binary", lambda ch: binary(ch, 6 if th else 5), "every binary pattern with don't-cares", **kw),
        tree_space("clash", lambda ch: clash(ch, th), "three entries with clashing names and values", **kw),
        tree_space("default", lambda ch: default(ch, th), "default entries", **kw),
        tree_space("subsets", lambda ch: subsets(ch, 4 if th else 3), "every subset of the values of a field", **kw),
        tree_space("width", width, "width of the field that holds the values", **kw),
        tree_space("wide", lambda ch: wide(ch, 13 if th else 11), "default entries in wide fields", **kw),
    ]
