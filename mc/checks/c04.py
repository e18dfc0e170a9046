"""Unresolvable, self-referential and cyclic inheritance is rejected, in finite time; anything else is not."""
from .. import observe
from ..core import Violation
from ..doc import to_xml
from ..gen import *
from ..oracle import tree_space
from . import c01

ASSUME = ["termination is judged by a limit of 60 s CPU time per document (a normal one takes a millisecond)",
          "up to four siblings or six elements across levels"]
N = ["A", "B", "D", "G"]


def graphs(ch, n, levels):
    level = ch.pick(levels)
    els = []
    for i in range(n):
        df = ch.pick([None] + N[:n] + ["ZZ"])
        a = {}
        if level == "R" and df is None:
            a["size"] = [32, 16, 8, 64][i]
        kid = None
        if level == "F":
            kid = [EV([(f"v{i}", "1")], usage="read")] if i == 0 else None
        els.append((i, df, a, kid))
    return c01.build(level, els, range(n))


def containment(ch, full):
    """clusters inside clusters whose references lead to one another, also through peripherals and dim instances"""
    paths = [None, "P.A", "P.A.B", "P.D", "Q.A"]
    dim = ch.flag()
    nm = "A[%s]" if dim else "A"
    paths = [p if p is None else p.replace("A", ["A0", "A[%s]"][i % 2], 1) if dim else p
             for i, p in enumerate(paths)]
    b = C("B", [R("r")] if ch.flag() else [], df=ch.pick(paths + (["A", "B"] if full else [])), off=0x10)
    a = C(nm, [R("r"), b], off=0x100, df=ch.pick([None, "D", "Q.A", "A"]), dim=2 if dim else None,
          dimIncrement=0x40 if dim else None)
    d = C("D", [R("s", off=0x30)] if ch.flag() else [], df=ch.pick([None] + paths[1:3]), off=0x200)
    q = P("Q", [C("E", [R("r")], df=None, off=0x400)] + ([C("F", df=ch.pick(["P.D", paths[1]]), off=0x500)] if full
                                                          else []), df=ch.pick([None, "P"]), base=0x1000)
    p = P("P", [a, d] if ch.flag() else [d, a])
    return device([p, q] if ch.flag() else [q, p])


def mixed(ch, full):
    """one reference per level, each out of a menu that contains cycles across levels"""
    p2 = ch.pick([None, "P", "Q"])
    p1 = ch.pick([None, "Q"]) if p2 is None or full else None
    c, c2 = ch.pick([None, "Q.D"]), ch.pick([None, "P.C"])
    r1 = ch.pick([None, "Q.S", "Q.C.R", "Q.D.T"])
    r2 = ch.pick([None, "P.C.R", "Q.D.T", "Q.D.R"])
    f = ch.pick([None, "Q.S.G"] + (["P.C.R.F", "Q.C.R.F"] if full else []))
    g = ch.pick([None, "P.C.R.F"] + (["Q.C.R.F"] if full else []))
    v = ch.pick([None, "P.C.R.F.V", "Q.S.G.W"] if full else [None])
    w = ch.pick([None, "P.C.R.F.V"] if full else [None])
    ev = EV([("a", "1")] if v is None else (), df=v, name="V")
    ew = EV([("b", "2")] if w is None else (), df=w, name="W")
    rr = R("R", [F("F", 0, 1, [ev], df=f)], df=r1)
    ss = R("S", [F("G", 4, 5, [ew], df=g)], df=r2, off=0x40)
    pp = P("P", [C("C", [rr], off=0x80, df=c)], df=p1)
    qq = P("Q", [ss, C("D", [R("T")], off=0x200, df=c2)], df=p2, base=0x1000)
    return device([pp, qq] if ch.flag() else [qq, pp])


def names(ch, full):
    """elements of two names only, on every level: progress must not depend on what an element is called"""
    ab = lambda: ch.pick("AB")  # noqa: E731
    menu = ["Q.B", "Q.B.X", "P.A.A"] + (["Q.A", "P.B", "Q.B.A"] if full else [])
    x = R("X", [F("A", 0, 1)])
    c1 = C(ab(), [R(ab(), [F(ab(), 8, 9, df=ch.pick([None, "Q.B.X.A"]))], df=ch.pick([None] + menu), off=0x20)],
           df=ch.pick([None] + menu), off=0x100)
    c2 = C("B", [x] + ([R("A", df=ch.pick(["X", "P.A.A", "P.B.A"]), off=8)] if ch.flag() else []),
           df=ch.pick([None, "P.A"]) if full else None, off=0x300)
    p = P("P", [c1] + ([R("B" if c1.name == "A" else "A", df=ch.pick(menu), off=0x40)] if ch.flag() else []))
    q = P("Q", [c2], base=0x1000)
    ps = [p, q]
    if full and ch.flag():
        ps.append(P(ab(), df=ch.pick("PQ"), base=0x2000))
    return device(ps if ch.flag() else ps[::-1])


def chains(ch, lengths):
    """long derivation chains in the order that suits the implementation least; and the same chain closed"""
    level = ch.pick("PCRF")
    n = ch.pick(lengths)
    closed = ch.flag()
    order = ch.pick(["forward", "backward", "evenodd"])
    els = []
    for i in range(n):
        df = f"E{i - 1}" if i else (f"E{n - 1}" if closed else None)
        kw = {}
        if level == "F":
            kw = dict(lsb=i % 32, msb=i % 32, access="read-only")
            if i >= 32:
                break
        els.append(elem(level, i, f"E{i}", df=df, **kw))
    if order == "backward":
        els.reverse()
    elif order == "evenodd":
        els = els[::2] + els[1::2]
    return wrap(level, els)


def missing(ch):
    """a reference to something that does not exist, at every level, hidden inside a copied or dim subtree"""
    lv = ch.pick("PCRFV")
    path = ch.pick(["X", "P.X", "X.Y", "P.C.X", "P.C.R.X", "P.C.R.F.X", "P.C", "P.C.R", "P.C.R.F", "P", "P.C.R.F.V", ""])
    df = {k: (path if k == lv else None) for k in "PCRFV"}
    dim = ch.pick([None, "P", "C", "R"])

    def d(k, n):
        return (n + "[%s]", dict(dim=2, dimIncrement=0x1000 if k == "P" else 0x100)) if dim == k else (n, {})
    ev = EV([("a", "1")] if df["V"] is None else (), df=df["V"], name="W")
    f = F("G", 4, 5, [ev], df=df["F"])
    nr, ar = d("R", "S")
    r = R(nr, [f], df=df["R"], **ar)
    nc, ac = d("C", "D")
    c = C(nc, [r], df=df["C"], off=0x40, **ac)
    np, ap = d("P", "Q")
    q = P(np, [c], df=df["P"], base=0x10000, **ap)
    p = P("P", [C("C", [R("R", [F("F", 0, 1, [EV([("a", "1")], name="V")])])])])
    e = P("E", df=ch.pick(["P", "Q" if dim != "P" else "Q0"]), base=0x30000)
    return device(ch.pick([[p, q, e], [e, q, p]]))


def twice(dev, r, st):
    """the rejection itself has to be repeatable"""
    if r.failed:
        q = observe.process(to_xml(dev))
        st.execs += 1
        if not q.failed:
            raise Violation("rejected first, accepted on the second attempt", xml=to_xml(dev))


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("graphs3", lambda ch: graphs(ch, 3, "PCRFV"), "every reference graph over three siblings, self and "
                   "dangling references included, five levels", extra=twice),
        tree_space("graphs4", lambda ch: graphs(ch, 4, "PCRFV"), "over four siblings"),
        tree_space("containment", lambda ch: containment(ch, th), "references between clusters that contain one another"),
        tree_space("mixed", lambda ch: mixed(ch, th), "references on several levels at once"),
        tree_space("names", lambda ch: names(ch, th), "elements that share two names on all levels"),
        tree_space("chains", lambda ch: chains(ch, [2, 5, 12] + ([30, 60] if th else [])), "long chains, open and closed"),
        tree_space("missing", missing, "dangling and wrong-level references at every level"),
    ]
