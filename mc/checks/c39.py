"""Features combine: whatever is used together in a document, each feature means what it means alone."""
from ..gen import *
from ..oracle import tree_space

ASSUME = ["one document with about forty places at which a feature may be used; every combination of up to two of them in every way "
          "and three (thorough: four) in one way, and full products of the features that touch each other"]


def inst(name, e, i):
    """the name of the i-th instance of e, or e's own"""
    if "dim" not in e.a or "%s" not in name:
        return name
    if "[%s]" in name:
        return name.replace("[%s]", str(i))
    return name.replace("%s", e.a["dimIndex"].split(",")[i] if "dimIndex" in e.a else str(i))


def dimmed(o, name, w):
    """name and attributes of a plain element, a list, a list with indices, an array"""
    return [(name, {}), (name + "%s", dict(dim=2, dimIncrement=w)), (name + "%s", dict(dim=2, dimIncrement=w, dimIndex="X,Y")),
            (name + "[%s]", dict(dim=2, dimIncrement=w)), (name, dict(dim=2, dimIncrement=w)),
            (name + "%s", dict(dim=1, dimIncrement=w)),
            # the rest of the dimension, or all of it, comes from what the element is derived from
            (name + "%s", {}), (name + "[%s]", {}), (name + "%s", dict(dimIncrement=2 * w)), (name + "[%s]", dict(dim=3))][o]


def document(pick):
    """pick(options, place): the default comes first"""
    def dim(place, name, w, arr=True, lst=True, rest=False):
        return dimmed(pick([0] + ([1, 2] if lst else []) + ([3] if arr else []) + [4, 5] * lst
                           + ([6, 8] * lst + [7, 9] * arr) * rest, place), name, w)
    # fields
    wc = pick([None, ("range", 1, 5), ("asread", True)], "r.wc")
    n, a = dim("f.dim", "f", 2, arr=False)
    f = F(n, 0, 1, enum(pick(["none", "plain", "wild", "default", "two", "reserved"], "f.enum")), access=pick([None, "read-only", "writeOnce"], "f.access"),
          modifiedWriteValues=pick([None, "set"], "f.mwv"), **a)
    fi = inst(n, f, 0)
    g = pick([None, n, fi], "g.df")
    n2, a2 = dim("g.dim", "g", 2, arr=False, rest=True)
    if g is None:
        g = F(n2, 6, 7, writeConstraint=pick([None, ("enum", True)], "g.wc"), readAction=pick([None, "clear"], "g.ra"), **a2)
    else:
        g = F(n2, *pick([(6, 7), (None, None), (0, 1), (6, 6)], "g.range"), df=g, writeConstraint=pick([None, ("enum", True)], "g.wc"), **a2)
        if "lsb" not in g.a:
            g.a["bitOffset"] = 8
    h = pick([None, "A", "ABS", "own"], "h")
    flds = [f, g]
    # register
    rn, ra = dim("r.dim", "R", 4)
    r = R(rn, flds, size=pick([None, 16, 8, 64, 12], "r.size"), access=pick([None, "read-only", "write-only"], "r.access"),
          resetValue=pick([None, 5], "r.rv"), displayName=pick([None, "t", "t%s", "t[%s]"], "r.disp"), alternateGroup=pick([None, "G"], "r.ag"),
          writeConstraint=wc, modifiedWriteValues=pick([None, "clear"], "r.mwv"), off=pick([0, 1], "r.off"), **ra)
    # a cluster of a register and, perhaps, of a cluster
    cn, ca = dim("c.dim", "C", 0x40)
    ri = inst(rn, r, 1 if "dim" in r.a and r.a["dim"] > 1 else 0)
    an, aa = dim("a.dim", "A", 0x1000, lst=False)
    ai = inst(an, E("peripheral", **aa), 1)
    s = R("S", pick([[], [F("k", 3, 4)]], "s.f"), df=pick([None, f"{ai}.{ri}", f"{an}.{rn}"], "s.df"), size=pick([None, 16], "s.size"), off=4)
    kids = [s, R("T", off=8, df=pick([None, "S"], "t.df"))]
    k = pick([None, "plain", "register", "cluster"], "k")
    if k:
        kn, ka = dim("k.dim", "K", 0x10)
        kids.append(C(kn, [R("V", df="S" if k == "plain" else f"{ai}.{ri}" if k == "register" else None)], df=None, off=0x10,
                      access=pick([None, "writeOnce"], "k.access"), **ka))
        if k == "cluster":
            kids.append(C("L", [], df=kn, off=0x38))
    c = C(cn, kids, off=0x100, size=pick([None, 8, 64], "c.size"), access=pick([None, "read-only"], "c.access"),
          resetMask=pick([None, 0xF], "c.rm"), protection=pick([None, "s"], "c.prot"), **ca)
    ci = inst(cn, c, 1 if "dim" in c.a and c.a["dim"] > 1 else 0)
    chs = [r, c]
    dd = pick([None, "template", "instance", "path"], "d.df")
    if dd:
        dn, da = dim("d.dim", "D", 0x40, rest=True)
        chs.append(C(dn, pick([[], [R("own", off=0x30)], [R("S", off=4)]], "d.own"), off=0x300, size=pick([None, 16], "d.size"),
                     df={"template": cn, "instance": ci, "path": f"{ai}.{ci}"}[dd], **da))
    q = pick([None, "R", "Rd", "C", "D", "Qf", "alternate", "group", "overlap", "reserved", "same"], "q")
    if q == "R":
        chs.append(R("Q%s", df=ri, off=0x80, dim=2, dimIncrement=8))
    elif q == "Rd":
        un, ua = dim("q.dim", "Q", 8, rest=True)
        chs.append(R(un, df=rn, off=0x80, **ua))
    elif q == "C":
        chs.append(R("Q", [F("z", 30, 31, df=f"{ai}.{ri}.{fi}")], df=f"{ci}.S", off=0x80))
    elif q == "D":
        chs.append(R("Q", df=(inst(dn, E("cluster", **da), 0) if dd else "D") + ".S", off=0x80))
    elif q == "Qf":
        chs.append(R("Q", [F("e", 10, 11, [EV(df=f"{ai}.{ri}.{fi}.E")])], off=0x80))
    elif q == "alternate":
        chs.append(R("Q", off=0, alternateRegister=ri))
    elif q == "group":
        chs.append(R(ri, off=0, alternateGroup="H"))
    elif q == "overlap":
        chs.append(R("Q", off=2))
    elif q == "reserved":
        chs.append(R("Reserved", off=0x80))
    elif q == "same":
        chs.append(R(ri, off=0x80))
    if h == "A":
        chs.append(R("HH", [F("h", 12, 13, df=f"{ai}.{ri}.{fi}")], off=0x90))
    elif h == "ABS":
        r.ch.append(F("h", 12, 13, df=f"{ai}.{ci}.S.k"))
    elif h == "own":
        r.ch.append(F("h", 1, 2, access=pick([None, "write-only"], "h.access")))
    pa = P(an, chs, size=pick([None, 16, 64], "a.size"), access=pick([None, "write-only"], "a.access"), resetValue=pick([None, 9], "a.rv"),
           base=0x10000, interrupt=pick([None, [("I", None, 4)]], "a.irq"), description=pick([None, "x"], "a.desc"), **aa)
    if pick([False, True], "a.reverse"):
        pa.ch = pa.ch[::-1]
    bd = pick(["instance", "template", None], "b.df")
    u = R("U", off=0x380, df=pick([None, ri, f"{ci}.S", f"{ai}.{ci}.S", f"{an}.{rn}"], "u.df"))
    bn, ba = dim("b.dim", "B", 0x2000, lst=False, rest=True)
    pb = P(bn, [u] if bd is None or pick([True, False], "b.own") else [], df={"instance": ai, "template": an, None: None}[bd],
           base=pick([0x40000, 0x10004], "b.base"), alternatePeripheral=pick([None, ai], "b.alt"), access=pick([None, "read-only"], "b.access"),
           blocks=pick([None, [(0, 0x400, "registers", None), (0x800, 0x10, "buffer", "s")]], "b.blocks"), **ba)
    e = pick([None, "B", "deep"], "e")
    ps = [pa, pb]
    if e:
        ps.append(P("E", [R("W", df=f"{inst(bn, pb, 0)}.U" if e == "B" else f"{inst(bn, pb, 0)}.{ci}.S", off=0x3C0)],
                    df=bn if e == "B" else None, base=0x80000))
    if pick([False, True], "reverse"):
        ps = ps[::-1]
    return device(ps, size=pick([None, 16], "dev.size"), access=pick([None, "read-only"], "dev.access"),
                  resetMask=pick([None, 0xFF], "dev.rm"))


def enum(o):
    if o == "none":
        return []
    if o == "two":
        return [EV([("a", "0"), ("b", "1")], name="E", usage="read"), EV([("c", "#1x")], name="E2", usage="write")]
    return [EV({"plain": [("a", "1"), ("b", "0")], "wild": [("w", "#1x"), ("a", "0")], "reserved": [("reserved", "1"), ("a", "9")],
                "default": [("a", "2"), {"name": "d", "isDefault": True}]}[o], name="E")]


def some(ways=lambda options: options[1:]):
    """as many of the features at once as the budget allows, each in every way or in one"""
    return lambda ch: document(lambda options, place: ch.dev([options[0], *ways(options)]))


def first(options):
    return options[1:2]


def last(options):
    return options[-1:]


def product(places):
    """every combination of the features named, everything else by default"""
    def gen(ch):
        def pick(options, place):
            if place not in places:
                return options[0]
            return ch.pick([o for o in options if not (place.endswith(".dim") and o == 4)])
        return document(pick)
    return gen


GROUPS = {
    "templates": ["a.dim", "c.dim", "r.dim", "f.dim", "d.df", "b.df", "b.dim"],
    "references": ["a.dim", "c.dim", "r.dim", "s.df", "u.df", "b.df", "reverse"],
    "properties": ["dev.size", "a.size", "c.size", "r.size", "s.size", "s.df", "d.df", "d.size"],
    "fields": ["f.dim", "f.enum", "f.access", "g.df", "g.range", "g.dim", "h", "h.access"],
    "accesses": ["f.enum", "f.access", "f.mwv", "r.wc", "r.access", "r.mwv", "g.df", "g.wc", "g.ra"],
    "nested": ["k", "k.dim", "c.dim", "d.df", "t.df", "s.df", "e"],
    "dimensions": ["c.dim", "d.df", "d.dim", "r.dim", "q", "q.dim"],
    "around": ["q", "a.dim", "r.dim", "r.ag", "b.df", "a.reverse", "d.df"],
    "placed": ["b.base", "b.alt", "b.df", "a.dim", "b.dim", "b.blocks", "e", "b.own", "reverse"],
}


def spaces(tier):
    out = [tree_space("two", some(), "up to two features used at once, in every way", budget=2),
           tree_space("three", some(first), "up to three features used at once, in one way each", budget=3),
           tree_space("three others", some(last), "up to three features used at once, in another way each", budget=3)]
    if tier == "thorough":
        out += [tree_space("three ways", some(), "up to three features used at once, in every way", budget=3),
                tree_space("four", some(first), "up to four features used at once, in one way each", budget=4),
                tree_space("four others", some(last), "up to four features used at once, in another way each", budget=4)]
    out.append(tree_space("attributes", lambda ch: attributes(ch, tier != "quick"), "one attribute (thorough: two) of every "
                          "kind on every element of every shape of tree, single, repeated and derived from"))
    for g, places in GROUPS.items():
        out.append(tree_space(g, product(places), "every combination of " + ", ".join(places)))
    return out
