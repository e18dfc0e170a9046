"""The notations of a field's position."""
from ..core import Violation
from ..gen import *
from ..oracle import tree_space

ASSUME = ["registers up to 128 bits; a field whose msb lies below its lsb is outside the space unless written as "
          "bitRange"]


def pos(a, style, lo, hi):
    a.update({"lsbmsb": {"lsb": lo, "msb": hi}, "offw": {"bitOffset": lo, "bitWidth": hi - lo + 1},
              "range": {"bitRange": f"[{hi}:{lo}]"}, "swap": {"bitRange": f"[{lo}:{hi}]"}}[style])
    return a


def consistent(dev, r, st):
    for p in r.tree["peripherals"]:
        for reg in p["children"]:
            for f in reg.get("fields", ()):
                if (f["bit_offset"], f["bit_width"], f["bit_range"]) != (
                        f["lsb"], f["msb"] - f["lsb"] + 1, [f["msb"], f["lsb"]]):
                    raise Violation("the notations of one field disagree", field=f)


def positions(ch, size):
    """every position of a field in a register of that size, in every notation"""
    lo = ch.n(size)
    hi = lo + ch.n(size - lo)
    f = E("field", None, [], **pos({"name": "f"}, ch.pick(["lsbmsb", "offw", "range", "swap"]), lo, hi))
    return device([P("P", [R("r", [f], size=size)])])


def wide(ch):
    """positions around the borders of wide registers, fields that stick out"""
    size = ch.pick([8, 16, 32, 64, 128])
    lo = ch.pick([0, 1, size // 2, size - 1, size, size + 3])
    hi = ch.pick([x for x in (lo, lo + 1, size - 1, size, 2 * size) if x >= lo])
    f = E("field", None, [], **pos({"name": "f"}, ch.pick(["lsbmsb", "offw", "range", "swap"]), lo, hi))
    return device([P("P", [R("r", [f], size=size)])])


def mixed(ch, full):
    """every subset of the five elements that describe a position, valid or not, own or derived"""
    a = {"name": "g"}
    for k, v in (("bitOffset", 4), ("bitWidth", 3), ("lsb", 8), ("msb", 9), ("bitRange", None)):
        if ch.flag():
            a[k] = ch.pick(["[13:12]", "[12:13]"] + (["[12:12]", "[3]", "13:12", "[a:b]", "[ 3:2]", "[3:2]]", "[-1:0]"]
                                                     if full else ["[3]", "[a:b]"])) if k == "bitRange" else v
    base = E("field", None, [], **pos({"name": "f", "access": "read-only"}, ch.pick(["lsbmsb", "offw", "range"]), 0, 2))
    df = ch.pick([None, "f"])
    g = E("field", df, [], access="write-only", **a)
    els = [base, g]
    return device([P("P", [R("r", els)])])


def derived(ch, full):
    """positions taken over from the base: every partial override, in a chain"""
    def over(d):
        return ch.pick([{}, {"lsb": d}, {"msb": d + 4}, {"bitOffset": d}, {"bitWidth": 2}, {"bitRange": f"[{d + 1}:{d}]"},
                        {"lsb": d, "msb": d + 2}, {"bitOffset": d, "bitWidth": 1}])
    base = E("field", None, [], **pos({"name": "f", "access": "read-only"}, ch.pick(["lsbmsb", "offw", "range"]), 3, 7))
    acc = "write-only"
    g = E("field", "f", [], name="g", access=acc, **over(20))
    h = E("field", "P.r.g", [], name="h", **over(40))
    r = R("r", [base, g] if ch.flag() else [g, base], size=64)
    return device([P("P", [R("s", [h], off=8, size=64), r])])


def spaces(tier):
    th = tier != "quick"
    kw = dict(extra=consistent)
    return [
        tree_space("positions", lambda ch: positions(ch, 32 if th else 16), "all positions x notations in one register",
                   **kw),
        tree_space("wide", wide, "borders of registers of all sizes", **kw),
        tree_space("mixed", lambda ch: mixed(ch, th), "every subset of the position elements", **kw),
        tree_space("derived", lambda ch: derived(ch, th), "partial overrides of an inherited position", **kw),
    ]
