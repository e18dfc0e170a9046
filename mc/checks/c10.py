"""Absolute addresses, ends and sizes of everything in the processed device."""
from ..core import Violation
from ..gen import *
from ..oracle import tree_space

ASSUME = ["addresses up to 64 bit; nesting up to three clusters; up to three address blocks"]
BASES = [0, 0x40000000, 0xFFFFF000, 0x1_0000_0000]


def relations(dev, r, st):
    """facts about a processed device that hold whatever the model says"""
    def walk(es, base, lo, hi):
        for e in es:
            if e["base_address"] != base + e["address_offset"]:
                raise Violation("absolute address is not parent address plus offset", element=e["name"])
            if e["kind"] == "cluster":
                walk(e["children"], e["base_address"], e["base_address"], e["end_address"])
                if e["cluster_size"] != e["end_address"] - e["base_address"] + 1:
                    raise Violation("cluster size does not match its end", element=e["name"])
                end = e["end_address"]
            else:
                end = e["base_address"] + e["size"] // 8 - 1
            if end > hi:
                raise Violation("an element reaches beyond the end of its parent", element=e["name"])
    for p in r.tree["peripherals"]:
        walk(p["children"], p["base_address"], p["base_address"], p["end_address_effective"])


def nest(ch, full):
    base = ch.pick(BASES[:3 if not full else 4])
    o = [0, 4, 0x100]
    co, do, ro = ch.pick(o), ch.pick(o), ch.pick(o)
    size = ch.pick([8, 16, 32, 64, 128] if full else [8, 32, 64])
    deep = ch.pick([0, 1, 2, 3])
    t = R("r", off=ro, size=size)
    es = [t]
    for i, off in zip(range(deep), [do, co, 0x20]):
        es = [C(f"C{i}", es + ([R(f"x{i}", off=off + 0x200)] if i == 1 else []), off=off)]
    return device([P("P", es + [R("z", off=0x800, size=8)], base=base)])


def dimmed(ch, full):
    """offsets and increments multiply through nested dims"""
    base = ch.pick(BASES[:2])
    dp, dc, dr = (ch.pick([None, 1, 2, 3]) for _ in range(3))
    ip, ic, ir = ch.pick([0x1000, 0x2000]), ch.pick([0x40, 0x60]), ch.pick([4, 8, 0xC])
    co, ro = ch.pick([0, 0x10]), ch.pick([0, 4])
    r = R("r%s" if dr else "r", off=ro, dim=dr, dimIncrement=ir if dr else None)
    c = C("c[%s]" if dc else "c", [r, R("t", off=0x38)], off=co, dim=dc, dimIncrement=ic if dc else None)
    p = P("p[%s]" if dp else "p", [c], base=base, dim=dp, dimIncrement=ip if dp else None)
    return device([p] + ([P("q", df="p[%s]" if dp else "p", base=0x5000_0000, dim=None)] if full and not dp else []))


def blocks(ch, full):
    """address blocks: number, order, offsets, sizes, gaps, protection; end and size of the peripheral"""
    base = ch.pick([0, 0x1000, 0xFFFF0000])
    alts = [(0, 0x10), (0x10, 0x10), (0x40, 0x100), (None, 4), (0x200, 1), (0, 0x100)]
    n = 1 + ch.n(3)
    bl = []
    for i in range(n):
        o, s = ch.pick(alts)
        bl.append((o, s, ["registers", "buffer", "reserved"][i], ch.pick([None, "s"]) if i == 0 else None))
    regs = [R("r", off=0), R("s", off=ch.pick([4, 0x20, 0x400]), size=8)]
    p = P("P", regs, base=base, blocks=bl)
    q = None
    k = ch.n(3)
    if k:
        q = P("Q", [R("t", off=0x800)] if k == 2 else [], df="P", base=0x4000_0000,
              blocks=None if not full or ch.flag() else [(4, 8, "registers", None)])
    return device([p] + ([q] if q else []))


def derived(ch):
    """addresses of inherited elements follow the deriving element"""
    o = [0, 0x10, 0x40]
    a = C("A", [C("B", [R("r", off=ch.pick(o))], off=ch.pick(o)), R("s", off=0x80)], off=ch.pick(o))
    d = C("D", [R("t", off=0xA0)] if ch.flag() else [], df=ch.pick(["A", "P.A", "A.B"]), off=ch.pick([0x100, 0x204]))
    e = R("e", df=ch.pick(["A.s", "A.B.r", "D.s" if d.df != "A.B" else "D.r"]), off=ch.pick([0x300, 0x304]))
    p = P("P", [a, d, e], base=ch.pick(BASES[:2]))
    q = P("Q", df="P", base=ch.pick([0x8000_0000, 0x9000_0004]))
    return device([p, q] if ch.flag() else [q, p])


def overlapping(ch, full):
    """elements that share addresses: the one that reaches furthest need not be the last"""
    def reg(n, *alt):
        a = ch.pick(alt)
        return R(n, off=ch.pick([0, 1, 4] if full else [0, 1]), size=ch.pick([8, 16, 32, 64] if full else [8, 32]),
                 **({} if a is None else a))
    a = reg("a", None)
    b = reg("b", {"alternateRegister": "a"}, {"alternateGroup": "g"})
    k = ch.n(4)
    if k == 0:
        third = []
    elif k == 1:
        third = [reg("c", {"alternateRegister": "a"}, {"alternateGroup": "h"})]
    elif k == 2:
        third = [C("K", [reg("c", None)], off=ch.pick([0, 1, 2]), alternateCluster="L"),
                 C("L", [R("d", size=32)], off=ch.pick([0, 8]))]
    else:
        third = [C("K", [reg("c", None), reg("d", {"alternateGroup": "h"})], off=ch.pick([0x10, 0x11]))]
    es = ch.pick([[a, b], [b, a]]) + third
    if ch.flag():
        return device([P("P", es)])
    return device([P("P", [C("C", es, off=ch.pick([0, 0x100])), R("z", off=0x80, size=8)])])


def wide(ch, full):
    """one element that reaches far beyond any number of others that start behind it; deep down, copied or repeated"""
    n = ch.pick([0, 1, 2, 3, 5, 8, 9, 12, 16, 17, 32, 33] if full else [0, 1, 3, 7, 9, 17, 33])
    far = ch.pick([0x80, 0x400, 0x10000])
    k = ch.n(4)
    c = C("W" if k != 3 else "W[%s]", [R("a"), R("b", off=far, size=ch.pick([8, 64]))], off=0,
          **(dict(dim=2, dimIncrement=2 * far) if k == 3 else {}))
    els = [c] + [R(f"r{i}", off=4 * i + 4) for i in range(n)]
    if ch.flag():
        els = els[::-1]
    if k == 1:
        els = [C("O", els, off=8), R("z", off=0x40)]
    p = P("P", els, base=0x1000)
    return device([p, P("Q", df="P", base=0x4000_0000)] if k == 2 else [p])


def spaces(tier):
    th = tier != "quick"
    kw = dict(extra=relations)
    return [
        tree_space("nest", lambda ch: nest(ch, th), "base x offsets on up to three cluster levels x size", **kw),
        tree_space("dimmed", lambda ch: dimmed(ch, th), "offsets times increments on three levels", **kw),
        tree_space("blocks", lambda ch: blocks(ch, th), "one to three address blocks", **kw),
        tree_space("overlapping", lambda ch: overlapping(ch, th), "alternate registers, groups and clusters", **kw),
        tree_space("wide", lambda ch: wide(ch, th), "a cluster that reaches beyond many elements behind it", quiet=False, **kw),
        tree_space("derived", derived, "inherited elements", **kw),
    ]
