"""The processed device does not depend on the order in which siblings are declared."""
from .. import observe
from ..core import Space, Violation
from ..doc import to_xml
from ..gen import *
from ..oracle import check_tree, diff

ASSUME = ["property texts do not depend on the order of siblings; warnings are compared by the reference model only",
          "up to four siblings per level in derivation graphs, three peripherals in cross-level documents"]
NAMES = ["A", "B", "D", "G"]


def graphs(ch, n, level):
    """every derivation graph over n siblings"""
    els = []
    for i in range(n):
        df = ch.pick([None] + [NAMES[j] for j in range(n) if j != i])
        a = {}
        if level in "PCRF":
            a = {"description": f"d{i}"} if i % 2 == 0 or df is None else {}
            if level == "R" and df is None:
                a["size"] = [32, 16, 8, 64][i]
        kid = None
        if level == "F":
            kid = [EV([(f"v{i}", "1")], usage="read")] if i == 0 else None
        elif level == "R":
            kid = [F(f"f{i}", 2 * i)]
        elif level in "PC" and i == 1:
            kid = [R("own", off=0x40)]
        els.append((i, df, a, kid))
    return els


def build(level, els, order):
    out = [elem(level, els[i][0], NAMES[els[i][0]], df=els[i][1], ch=els[i][3], **els[i][2]) for i in order]
    if level == "V":
        # containers of different fields, so that the usage rule does not get in the way
        fs = [F(f"F{els[i][0]}", 4 * els[i][0], 4 * els[i][0] + 1, [o]) for i, o in zip(order, out)]
        for e in out:
            if e.df in NAMES:
                e.df = f"PP.RR.F{NAMES.index(e.df)}.{e.df}"
        return device([P("PP", [R("RR", fs)])])
    return wrap(level, out)


def gen_graph(ch, n, levels):
    level = ch.pick(levels)
    els = graphs(ch, n, level)
    order = ch.perm(list(range(n)))
    if order == sorted(order) and n > 1:
        pass
    return build(level, els, order), build(level, els, range(n))


def cross(ch, full):
    """references across peripherals, clusters, registers and fields; every order of every sibling list"""
    v = EV([("e", "1")], name="V", usage="read")
    v2 = EV(df=ch.pick(["PA.CA.RA.FA.V", "PA.RB.FB.V"]), name="W", usage="write")
    fa = F("FA", 0, 1, [v])
    fb = F("FB", 4, 5, [], df=ch.pick([None, "PA.CA.RA.FA"]))
    fc = F("FC", 8, 9, [v2])
    ra = R("RA", ch.perm([fa, fc]) if full else [fc, fa], size=16)
    rb = R("RB", [fb], df=ch.pick([None, "CA.RA" if full else "PA.CA.RA"]), off=4)
    ca = C("CA", [ra], off=0x40)
    cb = C("CB", [R("RC", df=ch.pick([None, "RB"] + (["PA.CA.RA"] if full else [])))], df=ch.pick([None, "CA"]), off=0x80)
    ca2 = C("CC", [], df=ch.pick(["PA.CA", "PA.CB"]), off=0x20)
    pa = P("PA", ch.perm([rb, ca, cb]) if full else ch.pick([[rb, ca, cb], [cb, ca, rb]]))
    pb = P("PB", ch.perm([ca2, R("RD", df=ch.pick([None, "PA.RB", "PC.RE"]))]), base=0x1000)
    pc = P("PC", [R("RE", df=ch.pick([None, "PB.CC.RA"]), off=0x300)], df=ch.pick([None, "PA"]), base=0x2000)
    ps = [pa, pb, pc]
    ref = device([x.copy() for x in ps])
    return device(ch.perm(ps)), sort_all(ref)


def sort_all(dev):
    dev = dev.copy()

    def go(e):
        e.ch.sort(key=lambda x: x.name or "")
        for x in e.ch:
            if x.kind != "enumeratedValues":
                go(x)
    go(dev)
    return dev


def ties(ch):
    """equal addresses and equal bit positions: only the name may decide the order"""
    n = 3
    level = ch.pick("PRCF")
    names = ch.pick([["A", "B", "D"], ["B1", "B10", "B2"], ["a", "A", "_"]])
    els, far = [], ch.n(3) if level == "F" else None
    for i in range(n):
        e = elem(level, 0, names[i])
        if level == "R":
            g = ch.pick([None, "g", "h"])
            if g:
                e.a["alternateGroup"] = g
        if level == "F":   # two fields may begin at one bit if one is read and the other written; either may be the longer
            e = F(names[i], 3 if i == far else 0, 3 + i if i == far else ch.pick([1, 2]),
                  access="write-only" if i == (far + 1) % 3 else "read-only")
        els.append(e)
    order = ch.perm(range(n))
    return wrap(level, [els[i] for i in order]), wrap(level, [e.copy() for e in els])


def dims(ch):
    """dim elements, references to the template and to instances, both orders"""
    a = R("A[%s]" if ch.flag() else "A%s", [F("f%s", 0, 1, dim=2, dimIncrement=4)], dim=2, dimIncrement=8, size=16)
    inst = "A1" if "[" not in a.name else ("A1" if ch.flag() else "A[1]")
    b = R("B", [F("g", df=ch.pick([None, "f0", "f%s", f"PP.{a.name}.f1"]), lo=16, hi=17)],
          df=ch.pick([a.name, inst, inst.replace("1", "0")]), off=0x40)
    c = R("D%s", df=ch.pick([None, "B", a.name]), off=0x80, dim=ch.pick([None, 3]), dimIncrement=ch.pick([None, 4]))
    els = [a, b, c]
    return wrap("R", [x.copy() for x in ch.perm(els)]), wrap("R", els)


def run(case, st):
    dev, ref = case
    label, r, _ = check_tree(dev, st)
    q = observe.process(to_xml(ref))
    st.execs += 1
    if r is None:
        return label
    if r.failed != q.failed:
        raise Violation("accepted in one order of declaration, rejected in another", xml=to_xml(dev), other=to_xml(ref),
                        error=repr(r.exc), other_error=repr(q.exc))
    if not r.failed and r.tree != q.tree:
        raise Violation("another order of declaration gives another device", difference=diff(q.tree, r.tree),
                        xml=to_xml(dev), other=to_xml(ref))
    return label


def sp(name, gen, bound):
    return Space(name, gen, run, key=lambda c: to_xml(c[0]), bound=bound, describe=lambda c: to_xml(c[0]))


def spaces(tier):
    th = tier != "quick"
    return [
        sp("graphs3", lambda ch: gen_graph(ch, 3, "PCRFV"), "every derivation graph over three siblings x every order, "
           "five levels"),
        sp("graphs4", lambda ch: gen_graph(ch, 4, "PCRFV" if th else "RC"), "every derivation graph over four siblings "
           "x every order (thorough: five levels)"),
        sp("cross", lambda ch: cross(ch, th), "references across levels x every order of every sibling list"),
        sp("ties", ties, "equal addresses, equal bits"),
        sp("dims", dims, "references into dim elements"),
    ]
