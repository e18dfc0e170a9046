"""Derivation: own value, else the base's; own children and the base's."""
from ..gen import *
from ..oracle import tree_space

ASSUME = ["derivation between elements without dim (dim x derivation is C07); property values from a two or three "
          "letter alphabet each"]
NAMES = ["A", "B", "D"]
LINKS = [(None, "A", "B"), (None, "A", "A"), ("B", "D", None)]


def chain(ch, nvals, pairs):
    level = ch.pick("PCRF")
    props = PROPS[level]
    i = ch.n(len(props))
    todo = [props[i]]
    if pairs:
        j = i + ch.n(len(props) - i)
        if j != i:
            todo.append(props[j])
    links = ch.pick(LINKS)
    attrs = [{}, {}, {}]
    for p in todo:
        for a in attrs:
            v = ch.n(min(nvals, len(VALS[p])) + 1)
            if v:
                a[p] = VALS[p][v - 1]
    els = [elem(level, k, NAMES[k], df=links[k], **attrs[k]) for k in range(3)]
    return wrap(level, els)


KID = {
    "P": [lambda: R("a", off=0), lambda: C("c", [C("d", [R("x")])], off=0x40),
          lambda: C("a", [R("x"), R("y", off=4)], off=0x20), lambda: R("b", off=4)],
    "R": [lambda: F("a", 0, 1), lambda: F("b", 2, 3), lambda: F("a", 4, 5), lambda: F("c", 6, 7, access="read-only")],
    "F": [lambda: EV([("a", "0")], usage="read"), lambda: EV([("b", "1")], usage="write"), lambda: EV([("c", "2")]),
          lambda: EV([("d", "3")], usage="read", name="n", headerEnumName="h")],
}
KID["C"] = KID["P"]


def children(ch, n):
    """every pair (triple) of child sets of base, derived and twice derived element"""
    level = ch.pick("PCRF")
    link = ch.pick(LINKS)
    sets = [[KID[level][i]() for i in range(n) if ch.flag()] for _ in range(3)]
    els = [elem(level, k, NAMES[k], df=link[k], ch=sets[k]) for k in range(3)]
    return wrap(level, els)


def blocks(ch, n):
    opt = [None, (0, 0x40, "registers", None), (0x80, 0x40, "buffer", "s"), (0x20, 0x100, "reserved", "n")]
    irq = [None, ("I1", None, 1), ("I0", "d", 0), ("I2", "e", None)]
    link = ch.pick(LINKS)
    els = []
    for k in range(3):
        bl = [b for b in (ch.pick(opt) for _ in range(n)) if b]
        iq = [b for b in (ch.pick(irq) for _ in range(1 if n < 2 or k == 0 else 2)) if b]
        els.append(P(NAMES[k], [R("R0")] if link[k] is None else [], df=link[k], base=0x1000 * k, blocks=bl or None,
                     interrupt=iq or None))
    return device(els)


def lists(ch):
    """every list of up to two (of three) blocks or interrupts of a peripheral and of one derived from it"""
    opt = [None, (0, 0x40, "registers", None), (0x80, 0x40, "buffer", "s"), (0x20, 0x100, "reserved", "n")]
    irq = [None, ("I1", None, 1), ("I0", "d", 0), ("I2", "e", None)]
    els = []
    what = ch.pick(["blocks", "interrupt"])
    for k, df in enumerate((None, "A", "B")[:2 + ch.n(2)]):
        a = {"blocks": [opt[1]] if df is None else None}
        own = [b for b in (ch.pick(opt if what == "blocks" else irq) for _ in range(2 if k < 2 else 1)) if b]
        if own:
            a[what] = own
        els.append(P(NAMES[k], [R("R0")] if df is None else [], df=df, base=0x1000 * k, **a))
    return device(els)


def ranges(ch):
    """a derived field overrides none, some or all of its base's bit position, in every notation"""
    link = ch.pick(LINKS)
    els = []
    for k in range(3):
        a = {}
        st = ch.n(8)
        lo, hi = 8 * k, 8 * k + 2
        if st == 0:
            a = dict(lsb=lo, msb=hi)
        elif st == 1:
            a = dict(bitOffset=lo, bitWidth=3)
        elif st == 2:
            a = dict(bitRange=f"[{hi}:{lo}]")
        elif st == 3:
            a = dict(lsb=lo)
        elif st == 4:
            a = dict(msb=hi + 16)
        elif st == 5:
            a = dict(bitOffset=lo)
        elif st == 6:
            a = dict(bitWidth=2)
        els.append(E("field", link[k], (), name=NAMES[k], **a))
    return device([P("PP", [R("RR", els, access=None)])])


def nested(ch, deep):
    """copies of whole subtrees, whose elements derive inside and outside of them"""
    inner = [R("x", [F("f", 0, 1, [EV([("e", "1")], name="V")]), F("g", df=ch.pick([None, "f", "PB.CB.x.f"]), lo=4, hi=5)]),
             R("y", df=ch.pick([None, "x", "PB.CB.x"] + (["PA.r"] if deep else [])), off=4)]
    if deep:
        inner.append(C("n", [R("z", df=ch.pick([None, "PB.CB.x", "PA.r"]))], df=None, off=0x10))
    cb = C("CB", inner, access=ch.pick([None, "read-only"]), off=0x20)
    pb = P("PB", [cb], resetValue=ch.pick([None, 7]), base=0x1000)
    r = R("r", [F("q", 0)], df=ch.pick([None, "PB.CB.y"] + (["PB.CB.x"] if deep else [])), size=16 if not deep else ch.pick([None, 16]))
    cd = C("CD", [R("own", off=0x40)] if ch.flag() else [], df="PB.CB", off=0x80, size=ch.pick([None, 16]))
    pa = P("PA", [r, cd], base=0x2000)
    pc = P("PC", [R("w", df=ch.pick([None, "r", "PB.CB.y"]), off=0x200)] if ch.flag() else [],
           df=ch.pick(["PB", "PA"]), base=0x3000, access=ch.pick([None, "write-only"]))
    return device(ch.perm([pa, pb, pc]) if deep else ch.pick([[pa, pb, pc], [pc, pb, pa]]))


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("properties", lambda ch: chain(ch, 2 if th else 1, True), "each pair of inheritable properties x "
                   "absent/values on each element of a derivation chain, fan and reversed chain of three, four levels"),
        tree_space("values", lambda ch: chain(ch, 3, False), "each single property with absent/two or three values each"),
        tree_space("children", lambda ch: children(ch, 4 if th else 3), "every triple of subsets of three (thorough: four) children (some colliding) x three links"),
        tree_space("blocks", lambda ch: blocks(ch, 2 if th else 1), "address blocks and interrupts"),
        tree_space("lists", lists, "up to two address blocks or interrupts of base and derived peripheral"),
        tree_space("ranges", ranges, "eight ways to give a bit position, for each of three fields x three links"),
        tree_space("keywords", keywords, "every keyword of every element, on it, on its base, inherited, on instances"),
        tree_space("nested", lambda ch: nested(ch, th), "subtree copies with inner and outer references, every order "
                   "of three peripherals"),
    ]
