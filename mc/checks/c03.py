"""Which element a derivedFrom path names."""
from ..gen import *
from ..oracle import tree_space

ASSUME = ["names from a two or three letter alphabet, forced to collide between scopes and kinds; containment depth "
          "up to three; paths of up to four segments"]


def tagger():
    n = [0]

    def tag():
        n[0] += 1
        return f"t{n[0]}"
    return tag


def kids(ch, t, depth, off=0):
    """registers / clusters named A and B in one scope"""
    out = []
    for i, nm in enumerate("AB"):
        k = ch.n(3 if depth else 2)
        if k == 1:
            out.append(R(nm, off=off + 4 * i, description=t()))
        elif k == 2:
            out.append(C(nm, [R(x, off=4 * j, description=t()) for j, x in enumerate("AB")], off=off + 0x100 * (i + 1)))
    return out


def regs(ch, maxseg):
    """a register D in some scope; every path over {A, B, D}"""
    t = tagger()
    where = ch.n(3)
    n = 1 + ch.n(maxseg)
    path = ".".join(ch.pick("ABD" if i < 2 else "AB") for i in range(n))
    d = R("D", df=path, off=0x80)
    a, b = kids(ch, t, 1), kids(ch, t, 0)
    a.append(R("Z", off=0x90))
    b.append(R("Z", off=0x90))
    if where == 0:
        a.append(d)
    elif where == 1:
        b.insert(0, d)
    else:
        cs = [c for c in a if c.kind == "cluster"]
        if not cs:
            a.append(C("A" if not any(c.name == "A" for c in a) else "Q", [d, R("A", off=4, description=t())], off=0x300))
        else:
            cs[-1].ch.append(d)
    ps = [P("A", a), P("B", b, base=0x1000)]
    return device(ps if ch.flag() else ps[::-1])


def clusters(ch, maxseg):
    t = tagger()

    def sub(depth):
        out = [R("r", description=t())]
        if depth:
            for i, nm in enumerate("AB"):
                if ch.flag():
                    out.append(C(nm, sub(depth - 1) if i == 0 else [R("s", description=t())], off=0x100 * (i + 1)))
        return out
    n = 1 + ch.n(maxseg)
    path = ".".join(ch.pick("AB") for _ in range(n))
    d = C("D", [], df=path, off=0x800)
    pa, pb = sub(2), sub(1)
    w = ch.n(3)
    if w == 0:
        pa.append(d)
    elif w == 1:
        pb.append(d)
    else:
        tgt = [c for c in pa if c.kind == "cluster"]
        (tgt[0].ch if tgt else pa).append(d)
    ps = [P("A", pa), P("B", pb, base=0x1000)]
    return device(ps if ch.flag() else ps[::-1])


def fields(ch, maxseg):
    t = tagger()
    n = 1 + ch.n(maxseg)
    path = ".".join(ch.pick("AB") for _ in range(n))

    def reg(nm, off):
        return R(nm, [F(x, 4 * j, 4 * j + 1, description=t()) for j, x in enumerate("AB") if ch.flag()], off=off)
    d = F("D", df=path, lo=20, hi=21)
    ra, rb = reg("A", 0), reg("B", 4)
    c = C("A", [reg("B", 0)], off=0x100)
    rc = R("R", [F("A", 0, 1, description=t())], off=8)
    ps = [P("A", [rb, rc, c]), P("B", [ra], base=0x1000)]
    [ra, rb, rc, c.ch[0]][ch.n(4)].ch.append(d)
    return device(ps)


def enums(ch):
    t = [0]

    def ev(nm):
        t[0] += 1
        return EV([(f"v{t[0]}", "1")], name=nm, usage="read")
    path = ".".join(ch.pick(s) for s in [["A", "B", "X"], ["A", "B"], ["F", "G"], ["V", "W"]][ch.pick([3, 0, 1]):])
    d = EV(df=path, name="D", usage="write")
    fa = F("F", 0, 3, [ev("V")] if ch.flag() else [EV([("w", "1")], name="W", usage="write")])
    fb = F("G", 4, 7, [ev("W" if ch.flag() else "V")])
    fc = F("F", 0, 3, [ev("V")])
    fd = F("G", 4, 7, [ev(None if ch.flag() else "W")])
    fe, ff = F("H", 8, 9), F("I", 8, 9)
    [fe, ff, fa, fd][ch.n(4)].ch.append(d)
    a = R("A", [fa, fb, fe])
    b = R("B", [fc, fd, ff], off=4)
    if ch.flag():
        return device([P("A", [a, b]), P("B", [R("A", [F("F", 0, 3, [ev("V")])])], base=0x1000)])
    return device([P("A", [a]), P("B", [b], base=0x1000)])


def odd(ch):
    """malformed and unusual paths"""
    path = ch.pick(["", " ", ".", "..", "A.", ".A", "A..R", "A.R.", "A. R", "a", "A.r", "DEV.A.R", "DEV", "B.R.F",
                    "A.R.F.G", "A.R/F", "A:R", "self", "A.D", "D", "B.A.R", "A.B", "%s", "[%s]", "R%s", "R[%s]", "R0",
                    "A.C.R", "C.R", "A.C", "C", "R.F", "R", "A.R", "A.R.F", "F", "A", "B", "A.C.R.F", "V", "F.V",
                    "A.R.F.V", "R.F.V", "A.C.R.F.V"])
    lv = ch.pick("PCRFV")
    f = [F("F", 0, 1, [EV([("v", "1")], name="V")])]
    a = [R("R", f), C("C", [R("R", [F("F", 2, 3)])], off=0x40)]
    d = {"P": lambda: None, "C": lambda: C("D", [], df=path, off=0x100), "R": lambda: R("D", df=path, off=0x100),
         "F": lambda: None, "V": lambda: None}[lv]()
    ps = [P("A", a), P("B", [R("Q", off=0x20)], base=0x1000)]
    if d is not None:
        ps[ch.n(2)].ch.append(d)
    elif lv == "P":
        ps.append(P("D", df=path, base=0x2000))
    elif lv == "F":
        ps[1].ch[0].ch.append(F("D", 8, 9, df=path))
    else:
        (ps[1].ch[0].ch if ch.flag() else f).append(F("D", 8, 9, [EV(df=path, name="X")]))
    return device(ps)


def groups(ch):
    """several registers of one name in alternate groups: the one without a group is meant"""
    gs = [ch.pick([None, "g", "h"]) for _ in range(3)]
    ag = [R("A", [F("F", i)], off=0, alternateGroup=g, description=f"t{i}") for i, g in enumerate(gs)][:1 + ch.n(3)]
    d = R("D", df=ch.pick(["A", "PP.A"]), off=0x40, alternateGroup=ch.pick([None, "g"]))
    f = R("E", [F("X", df=ch.pick([None, "A.F", "PP.A.F"]), lo=9, hi=9)], off=0x44)
    if ch.flag():
        ch.pick(ag).a["alternateRegister"] = "D"
    els = ag + [d, f]
    return wrap("R", els if ch.flag() else els[::-1])


def depth(ch):
    """the nearest scope wins over the device level: same name as sibling and as peripheral"""
    t = tagger()
    names = ["A", "B"]
    inner = R("D", df=ch.pick(["A", "B", "A.A", "A.B", "B.A", "A.A.A", "A.A.B"]), off=0x40)
    c2 = C(ch.pick(names), [R(n, off=4 * i, description=t()) for i, n in enumerate(names)] + [inner])
    c1 = C(ch.pick(names), [c2] + ([R("B" if c2.name == "A" else "A", off=0x80, description=t())] if ch.flag() else []))
    pk = [c1] + ([R("B" if c1.name == "A" else "A", off=0x100, description=t())] if ch.flag() else [])
    ps = [P("A", pk), P("B", [R("A", description=t()), C("B", [R("A", description=t())], off=0x20)], base=0x1000)]
    return device(ps if ch.flag() else ps[::-1])


def deep(ch, full):
    """paths of up to nine (thorough: sixteen) names, from the device and from the scope, right or wrong at one place"""
    t = tagger()
    n = 1 + ch.n(15 if full else 8)
    names = ["A"] * n if ch.flag() else [f"C{i}" for i in range(n)]
    lv = ch.pick("RCF")
    kids = [R("X", [F("f", 0, description=t())], description=t()), C("Y", [R("Z", description=t())], off=0x40, description=t())]
    for k in range(n - 1, -1, -1):
        kids = [C(names[k], kids, off=0x100 if k % 2 else 0x80)] + ([R("X", description=t(), off=0x10)] if ch.n(2 if k == n // 2 else 1) else [])
    path = ["P"] + names + {"R": ["X"], "C": ["Y"], "F": ["X", "f"]}[lv]
    cut = ch.n(4)
    if cut == 1:
        path = path[1:]                   # relative: only right within P
    elif cut == 2:
        path = path[:1] + path[2:]        # one name missing
    elif cut == 3:
        path = path[:-1] + [path[-1].lower() if path[-1] != "f" else "F"]
    df = ".".join(path)
    e = {"R": lambda: R("D", df=df), "C": lambda: C("D", df=df), "F": lambda: R("E", [F("D", df=df, lo=4, hi=5)])}[lv]()
    e.a["addressOffset"] = 0x4000
    p, q = P("P", kids), P("Q", [R("K")], base=0x100000)
    (p if ch.flag() else q).ch.append(e)
    return device([p, q] if ch.flag() else [q, p])


def through(ch):
    """paths that lead through derived elements, while the device level offers something of the same name"""
    t = tagger()

    def xy(off=0):
        return [R(n, off=off + 4 * i, description=t()) for i, n in enumerate("XY") if ch.flag()]
    b = C("B", xy(), off=0x100)
    a = C("A", xy(0x20), df=ch.pick([None, "B", "Q.B", "B.C"]), off=0x200)
    d = R("D", df=ch.pick(["A.X", "B.X", "Q.X", "Q.A.X", "Q.B.X", "A.C.X"]), off=0x10)
    q = P("Q", [x for x in ([b, a, d] if ch.flag() else [d, a, b])])
    sh = P(ch.pick(["A", "B"]), [R("X", description=t()), C("C", [R("X", description=t())], off=0x40)],
           df=None, base=0x1000)
    sh2 = P("C", [], df=ch.pick(["Q", sh.name]), base=0x2000)
    ps = [q, sh, sh2]
    return device(ps if ch.flag() else ps[::-1])


def via(ch):
    """a register derived through a peripheral / cluster / register that is itself derived"""
    pa = P("A", [C("K", [R("X", [F("F", 0, 1)]), R("Y", df=ch.pick([None, "X", "A.K.X", "B.K.X"]), off=4)])])
    pb = P("B", [R("Z", df=ch.pick([None, "K.X", "B.K.X", "A.K.Y", "C.K.Y", "D.X"]), off=0x40),
                 C("D", df=ch.pick(["K", "A.K", "C.K"]), off=0x80)], df=ch.pick(["A", "C"]), base=0x1000)
    pc = P("C", [R("W", [F("G", df=ch.pick(["X.F", "B.K.X.F", "B.D.X.F", "A.K.Y.F"]), lo=8, hi=9)], off=0x60)],
           df=ch.pick([None, "A"]), base=0x2000)
    return device(ch.perm([pa, pb, pc]))


def kinds(ch):
    """elements of one name and different kinds in one scope: the kind asked for is meant"""
    t = tagger()
    reg = R("A", [F("A", 0, 1, [EV([("e", "1")], name="A")])] if ch.flag() else [], description=t(), alternateGroup="G")
    reg2 = R("A", [F("A", 2, 3)], off=4, description=t(), alternateGroup="H")
    clu = C("A", [R("A", [F("A", 4, 5)], description=t())], off=0x10)
    three = [[reg, clu], [clu, reg], [reg, reg2, clu], [clu, reg, reg2], [reg, clu, reg2]][ch.n(5)]
    path = ch.pick(["A", "A.A", "A.A.A", "A.A.A.A", "A.A.A.A.A"])
    lv = ch.pick("CRFV")
    d = {"C": lambda: C("D", [], df=path, off=0x40), "R": lambda: R("D", df=path, off=0x80),
         "F": lambda: R("D", [F("D", 8, 9, df=path)], off=0x80),
         "V": lambda: R("D", [F("D", 8, 9, [EV(df=path, name="D")])], off=0x80)}[lv]()
    where = ch.n(3)
    pb = P("B", [R("B", off=0x100)], base=0x1000)
    if where == 0:
        three = three + [d] if ch.flag() else [d] + three
    elif where == 1:
        pb.ch.append(d)
    else:
        three = three + [C("B", [d], off=0x200)]
    return device([P("A", three), pb])


def chains(ch):
    """two scopes with the same two names; each of the four elements is derived from any other, or from none"""
    level = ch.pick("RCF")
    ps = []
    for i, s in enumerate("PQ"):
        els = []
        for j, n in enumerate("AB"):
            df = ch.pick([None, "A", "B", "P.A", "P.B", "Q.A", "Q.B"])
            if df and level == "F" and "." in df:
                df = "PP." + df
            kw = {} if df else {"description": f"t{i}{j}"}
            els.append(F(n, 4 * j, 4 * j, df=df, **kw) if level == "F" else R(n, off=0x10 * j, df=df, **kw) if level == "R" else
                       C(n, [] if df else [R("r")], off=0x10 * j, df=df, **kw))
        ps.append(R(s, els, off=4 * i) if level == "F" else P(s, els, base=0x1000 * i))
    return device([P("PP", ps)] if level == "F" else ps)


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("registers", lambda ch: regs(ch, 4 if th else 3), "register in three scopes x every path of up to "
                   "3 (thorough: 4) segments x presence and kind of A and B in each scope"),
        tree_space("clusters", lambda ch: clusters(ch, 4 if th else 3), "cluster paths"),
        tree_space("fields", lambda ch: fields(ch, 4), "field paths of up to four segments"),
        tree_space("enums", enums, "enumerated value container paths"),
        tree_space("odd", odd, "malformed, over-long, too short and wrong-level paths"),
        tree_space("groups", groups, "alternate groups"),
        tree_space("kinds", kinds, "registers and clusters of one name in one scope, every order and level"),
        tree_space("deep", lambda ch: deep(ch, th), "paths of up to eleven (thorough: eighteen) names"),
        tree_space("depth", depth, "shadowing"),
        tree_space("chains", chains, "two scopes of two names, every derivation between the four elements"),
        tree_space("through", through, "paths through derived clusters, shadowed at device level"),
        tree_space("via", via, "paths through derived peripherals and clusters, every order"),
    ]
