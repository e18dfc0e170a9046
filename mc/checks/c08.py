"""Inheritance of register properties down the hierarchy, defaults, and values a field takes from its register."""
from ..gen import *
from ..oracle import tree_space

ASSUME = ["sizes from {8, 16, 32, 64}; each property is tried at five nested levels, up to three (thorough: four) "
          "settings anywhere in combination"]
V = {"size": [8, 16, 64], "access": ["read-only", "write-only", "writeOnce", "read-writeOnce"],
     "protection": ["s", "n", "p"], "resetValue": [0, 1, 0xFFFFFFFF], "resetMask": [0, 0xFF, 0xF0F0F0F0]}


def build(pa, ca, da, ra, dev, fa=None, dims=(None, None, None, None)):
    """device > peripheral > cluster > cluster > register > field, with a register on every level"""
    def dim(i, name, inc):
        if dims[i] is None:
            return name, {}
        return (name + ("[%s]" if i == 0 else "%s")), {"dim": dims[i], "dimIncrement": inc}

    def reg(name, off, a):
        fs = [F("f", 0, 1, **(fa or {}))]
        return R(name, fs, off=off, **a)
    rn, rd = dim(3, "R", 8)
    dn, dd = dim(2, "D", 0x40)
    cn, cd = dim(1, "C", 0x100)
    pn, pd = dim(0, "P", 0x1000)
    d = C(dn, [reg(rn, 0, {**ra, **rd}), reg("s", 0x20, {})], off=0x20, **da, **dd)
    c = C(cn, [d, reg("t", 0, {})], off=0x40, **ca, **cd)
    p = P(pn, [c, reg("u", 0, {})], base=0x10000, **pa, **pd)
    q = P("Z", [reg("v", 0, {})], base=0x80000)
    return device([q, p], **dev)


def levels(ch, full):
    """one property, every combination of levels that set it"""
    prop = ch.pick(REGS5)
    vs = [None] + V[prop][:3 if full else 2]
    if prop in ("resetValue", "resetMask"):
        vs = [None, V[prop][0], V[prop][1]] + ([V[prop][2]] if full else [])
    pick = [ch.pick(vs) for _ in range(5)]
    fa = {"access": ch.pick([None, "read-write", "writeOnce"])} if prop == "access" else {}
    sets = [{} if v is None else {prop: v} for v in pick]
    return build(sets[1], sets[2], sets[3], sets[4], sets[0], fa)


DEFAULT = {"size": 32, "access": "read-write", "protection": "any", "resetValue": 0, "resetMask": 0xFFFFFFFF}


def explicit(ch):
    """the default of a property said explicitly, on any level, where something else surrounds it"""
    prop = ch.pick(REGS5)
    vs = [None, DEFAULT[prop], V[prop][1]]
    sets = [{} if v is None else {prop: v} for v in (ch.pick(vs) for _ in range(5))]
    fa = {"access": ch.pick([None, "read-write", "write-only"])} if prop == "access" else {}
    return build(sets[1], sets[2], sets[3], sets[4], sets[0], fa, ch.pick([(None,) * 4, (2, 2, 2, 2)]))


def combined(ch):
    """any few settings of any properties anywhere, below dim instances too"""
    sets = [{k: ch.dev([None] + V[k][1:3 if k in ("resetValue", "resetMask") else 2]) for k in REGS5} for _ in range(5)]
    dims = tuple(ch.dev([None, 2]) for _ in range(4))
    return build(sets[1], sets[2], sets[3], sets[4], sets[0], None, dims)


def derived(ch, default=False):
    """a base and an element derived from it in differently configured surroundings: only explicit values are copied"""
    level = ch.pick("PCR")
    prop = ch.pick(REGS5)
    v = V[prop]
    vs = [None, v[0], v[1]] if not default else [None, DEFAULT[prop], v[1]]
    dev, outer, base, outer2, der, inner = (ch.pick(vs) for _ in range(6))
    st = lambda x: {} if x is None else {prop: x}  # noqa: E731
    kid = R("K", [F("f", 0)], **st(inner))
    if level == "P":
        els = [P("A", [C("c", [kid], **st(outer))], base=0, **st(base)),
               P("B", [R("own", off=0x80)], df="A", base=0x10000, **st(der))]
        if outer2 is not None:
            return device(els[::-1], **st(dev))
        return device(els, **st(dev))
    if level == "C":
        return device([P("P", [C("A", [kid], **st(base))], **st(outer)),
                       P("Q", [C("B", df="P.A", off=0x20, **st(der))], base=0x10000, **st(outer2))], **st(dev))
    return device([P("P", [C("X", [R("A", [F("f", 0)], **st(base))], **st(outer))]),
                   P("Q", [C("Y", [R("B", df="P.X.A", off=0x20, **st(der))], **st(outer2)), kid.__class__(
                       "register", None, [], name="K", addressOffset=0, **st(inner))], base=0x10000)], **st(dev))


def fields(ch):
    """what a field takes from its register (access, writeConstraint) and what it does not, also through derivation"""
    WC = [None, ("asread", True), ("asread", False), ("enum", True), ("range", 0, 3)]
    MW = [None, "oneToClear", "modify"]
    rw, fw, gw = ch.pick(WC), ch.pick(WC[:1] + WC[2:]), ch.pick([None, ("asread", True)])
    rm, fm = ch.pick(MW), ch.pick(MW)
    ra = ch.pick([None, "read-only"])
    rr, fr = ch.pick([None, "clear"]), ch.pick([None, "modify"])
    f = F("f", 0, 1, writeConstraint=fw, modifiedWriteValues=fm, readAction=fr)
    df = ch.pick([None, "f", "other"])
    g = F("g", 4, 5, df={None: None, "f": "f", "other": "P.O.o"}[df], writeConstraint=gw)
    r = R("R", [f, g], access=ra, writeConstraint=rw, modifiedWriteValues=rm, readAction=rr)
    o = R("O", [F("o", 0, 1, access="writeOnce", modifiedWriteValues="set", readAction="set")], off=8,
          access="write-only", writeConstraint=("range", 7, 9))
    return device([P("P", [r, o])])


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("levels", lambda ch: levels(ch, th), "one property set on any subset of five nested levels"),
        tree_space("explicit", explicit, "no value, the default, another value on any of five nested levels"),
        tree_space("combined", combined, "up to 3 (thorough: 4) settings or dims anywhere", budget=4 if th else 3),
        tree_space("derived", derived, "explicit versus surrounding values of base and derived element"),
        tree_space("derived default", lambda ch: derived(ch, True), "the same with the default said explicitly"),
        tree_space("fields", fields, "field values from the register"),
    ]
