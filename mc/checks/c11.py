"""Order and completeness of the lists a processed device offers, and of the flattened view of registers."""
from ..core import Violation
from ..gen import *
from ..oracle import tree_space

ASSUME = ["up to four siblings on a level in every document order, positions and names from small alphabets with ties"]


def relations(dev, r, st):
    """flattened registers are exactly the registers below, sorted by address and name; order is total"""
    def flat(es):
        for e in es:
            if e["kind"] == "register":
                yield (e["base_address"], e["name"])
            else:
                yield from flat(e["children"])
    for p in r.tree["peripherals"]:
        want = sorted(flat(p["children"]))
        if sorted(p["registers"]) != want:
            raise Violation("the flattened registers are not the registers below the peripheral", peripheral=p["name"],
                            got=p["registers"], expected=want)
        if [a for a, _ in p["registers"]] != [a for a, _ in want]:
            raise Violation("the flattened registers are not in address order", peripheral=p["name"],
                            got=p["registers"])


def siblings(ch, n):
    """n siblings with positions and names from ties, in every order"""
    level = ch.pick("PCRF")
    names = ch.pick([["a", "b", "c", "d"], ["r10", "r9", "R2", "r2"], ["B", "_a", "a", "A"]])[:n]
    pos = [ch.n(3) for _ in range(n)]
    acc = ["read-only", "write-only"]
    els = []
    for nm, p in zip(names, pos):
        if level == "P":
            els.append(P(nm, [R("r")], base=[0, 0x1000, 0x20000][p]))
        elif level == "C":
            els.append(C(nm, [R("r")], off=[0, 4, 0x10][p]))
        elif level == "R":
            els.append(R(nm, off=[0, 4, 0x10][p]))
        else:
            k = len(els)
            els.append(F(nm, [0, 1, 9][p], access=acc[k % 2]))
    return wrap(level, ch.perm(els))


def extents(ch, n):
    """siblings that start at the same place and end at different ones, in every order"""
    level = ch.pick("PCRF")
    els = []
    for nm in "abc"[:n]:
        at, w = ch.n(2), ch.n(3)
        if level == "P":
            els.append(P(nm, [R("r"), R("s", off=(1, 2, 4)[w])], base=0x1000 * at, blocks=[(0, 8 << w, "registers", None)]))
        elif level == "C":
            els.append(C(nm, [R("r"), R("s", off=(4, 8, 12)[w])], off=0x20 * at, size=ch.pick([None, 16])))
        elif level == "R":
            els.append(R(nm, off=4 * at, size=(8, 16, 32)[w], alternateGroup=ch.pick([None, "g", "G"])))
        else:
            els.append(F(nm, 4 * at, 4 * at + w, access=ch.pick(["read-only", "write-only"])))
    return wrap(level, ch.perm(els))


def mixed(ch, full):
    """registers and clusters side by side, alternate groups, nested clusters whose registers interleave"""
    o = [0, 4, 8]
    r = R("b", off=ch.pick(o), alternateGroup=ch.pick([None, "g"] + (["G"] if full else [])))
    s = R(ch.pick(["a", "b"]), off=ch.pick(o if full else o[:2]), alternateGroup=ch.pick([None, "h"]))
    c = C(ch.pick(["c", "B"]), [R("x", off=ch.pick(o[::2])), R("w", off=ch.pick([0, 12]))], off=ch.pick(o[1:]))
    d = C("d", [C("e", [R("y", off=4), R("v", off=0)], off=ch.pick([0, 8])), R("z", off=ch.pick([0, 0x14]))],
          off=ch.pick([0, 2 * 4]))
    els = [r, s, c, d]
    return device([P("P", els if full and ch.flag() else els[::-1], base=0x100)])


def flattened(ch, full):
    """dims and derivation: every instance appears once"""
    c = C("C%s", [R("r%s" if ch.flag() else "r", off=0, dim=2, dimIncrement=ch.pick([4, 16])), R("s", off=8)],
          dim=ch.pick([1, 2, 3]), dimIncrement=ch.pick([0x10, 0x40]), off=ch.pick([0, 0x20]))
    for x in c.ch:
        if "%s" not in x.name:
            x.a.pop("dim", None)
            x.a.pop("dimIncrement", None)
    d = C("D", [R("t", off=0x80)], df=ch.pick([None, "C%s", "C0"]), off=ch.pick([0x100, 0x10]))
    e = R("e", df=ch.pick([None, "C0.s", "D.t"]), off=ch.pick([0x200, 4]))
    p = P("P", ch.perm([c, d, e]) if full else [e, d, c], base=0x1000)
    q = P("Q", [R("own", off=ch.pick([0x300, 0]))] if ch.flag() else [], df="P", base=ch.pick([0, 0x9000]))
    return device([p, q])


def interrupts(ch, full):
    """interrupts in value order, address blocks in offset order; both not inherited / inherited"""
    n = 1 + ch.n(3)
    ir = [(ch.pick(["A", "B"]) + str(i), [None, "d"][i % 2], ch.pick([0, 3, 5] + ([None] if full else []))) for i in range(n)]
    bl = ch.perm([(0, 4, "registers", None), (0x10, 4, "buffer", None), (0x8, 4, "reserved", "p")])
    p = P("P", [R("r")], interrupt=ir, blocks=bl)
    q = P("Q", df="P", base=0x1000, interrupt=[("Z", None, 9), ("Y", None, 2)] if ch.flag() else None, 
          blocks=[(4, 4, "registers", None), (0, 4, "registers", None)] if ch.flag() else None)
    return device([q, p])


def spaces(tier):
    th = tier != "quick"
    kw = dict(extra=relations, quiet=False)
    return [
        tree_space("siblings", lambda ch: siblings(ch, 4 if th else 3), "siblings in every order, ties in position",
                   **kw),
        tree_space("extents", lambda ch: extents(ch, 3 if th else 2), "siblings with one start and different ends", **kw),
        tree_space("mixed", lambda ch: mixed(ch, th), "registers, alternate groups and clusters interleaved", **kw),
        tree_space("flattened", lambda ch: flattened(ch, th), "dims and derivation", **kw),
        tree_space("interrupts", lambda ch: interrupts(ch, th), "interrupts and address blocks", **kw),
    ]
