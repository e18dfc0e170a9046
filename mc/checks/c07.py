"""Derivation from and by dim elements."""
from ..gen import *
from ..oracle import tree_space

ASSUME = ["chains of up to three elements; dim up to 3; displayName is left out of register templates that are derived "
          "from (see C05)"]


def chain(ch, full):
    """base plain or dim; derived inherits or overrides each of dim, dimIncrement, dimIndex and the name pattern"""
    level = ch.pick("PCRF")
    arr = "[%s]" if level == "P" or (level in "CR" and ch.flag()) else "%s"
    w = {"P": 0x1000, "C": 0x20, "R": 4, "F": 2}[level]
    base_dim = ch.pick([None, 1, 2, 3])
    a = {} if base_dim is None else dict(dim=base_dim, dimIncrement=w, dimIndex=None)
    if base_dim and arr == "%s" and ch.flag():
        a["dimIndex"] = ["X", "X,Y", "X,Y,Z"][base_dim - 1]
    base = elem(level, 0, "A" + (arr if base_dim else ""), ch=kid(level), **a,
                **({"access": "read-only"} if level != "F" else {"description": "b"}))
    if base_dim:
        inst = [("A" + arr)] + ["A" + (lab) for lab in labels(a, arr, base_dim)]
        df = ch.pick(inst[:2] + inst[-1:])
    else:
        df = "A"
    nd = ch.pick(["D", "D%s", "D[%s]"])
    da = dict(dim=ch.pick([None, 2, 3]), dimIncrement=ch.pick([None, w * 2]), dimIndex=ch.pick([None, "P,Q"]))
    der = elem(level, 2 if level == "F" else 5, nd, df=df, **da)
    els = [base, der]
    if full or ch.flag():
        td = ch.pick(["D" if nd == "D" else nd, "D0"])
        els.append(elem(level, 5 if level == "F" else 9, ch.pick(["T", "T%s"]), df=td))
    return wrap(level, els if ch.flag() else els[::-1])


def kid(level):
    return {"P": [R("R", [F("f", 0)])], "C": [R("R", [F("f", 0)])], "R": [F("f", 0)], "F": [EV([("x", "1")], name="V")]}[level]


def labels(a, arr, dim):
    if a.get("dimIndex") and arr == "%s":
        return a["dimIndex"].split(",")
    return [str(i) for i in range(dim)]


def inside(ch, full):
    """what an instance contains: children of dim elements referred to through the template and through instances, from
    inside and outside, children that derive, children that are dims themselves"""
    arr = ch.flag()
    nm = "C[%s]" if arr else "C%s"
    i0, i1 = "C0", "C1"
    inner = R("S%s" if ch.flag() else "S", [F("g", df=ch.pick([None, "P.X.f", f"P.{i1}.R.f"]), lo=4, hi=5)],
              df=ch.pick([None, "R", f"P.{i0}.R", f"P.{nm}.R", "P.X"]), off=0x10)
    if "%s" in inner.name:
        inner.a.update(dim=2, dimIncrement=4)
    c = C(nm, [R("R", [F("f", 0, 1)], size=16), inner], off=0x100, dim=2, dimIncrement=0x80)
    xd = ch.pick([None, f"{i0}.R", f"{i1}.R", f"P.{nm}.R", f"{nm}.R", "C2.R"])
    x = R("X", [F("f" if xd is None else "h", 2, 3)], df=xd)
    d = C("D", [R("own", off=0x40)] if ch.flag() else [], df=ch.pick([None, nm, i1]), off=0x400)
    p = P("P", [c, x, d])
    q = P("Q" if not full or ch.flag() else "Q[%s]", [R("Y", df=ch.pick([None, f"P.{i1}.R", f"{i0}.{'S1' if '%s' in inner.name else 'S'}"]),
                                                       off=0x600)],
          df=ch.pick(["P"] + ([None] if full else [])), base=0x10000)
    if "%s" in q.name:
        q.a.update(dim=2, dimIncrement=0x1000)
    return device([p, q] if ch.flag() else [q, p])


def peripherals(ch, full):
    """peripheral arrays: derivation from the array, from an instance, by an array; children that refer to instances"""
    a = P("A[%s]", [R("R", [F("f", 0)]), C("C", [R("S", df=ch.pick([None, "A0.R", "A[%s].R", "A1.R"]), off=4)], off=0x20)],
          dim=ch.pick([1, 2]), dimIncrement=0x1000, base=0x10000, interrupt=[("I", None, 3)])
    b = P(ch.pick(["B", "B[%s]"]), [R("T", df=ch.pick([None, "R", "A0.R", "A0.C.S"]), off=0x80)],
          df=ch.pick(["A[%s]", "A0", "A1"]), base=0x20000, dim=ch.pick([None, 2]), dimIncrement=ch.pick([None, 0x2000]))
    bi = "B0" if "%s" in b.name else "B"
    c = P("D", [R("U", df=ch.pick([None, f"{bi}.R", f"{bi}.C.S", "B[%s].T"]), off=0x84)], df=ch.pick([None, b.name, bi, "A0"]),
          base=0x40000)
    if c.df is None:
        c.a["addressBlock"] = [(0, 0x1000, "registers", None)]
        c.ch.append(R("V"))
    return device(ch.perm([a, b, c]) if full else ch.pick([[a, b, c], [c, b, a]]))


def fields(ch, full):
    """dim fields derived from dim fields, with every way to move them"""
    da = ch.pick([1, 2])
    a = F("A%s", 0, 1, [EV([("x", "1")], name="V")], dim=da, dimIncrement=ch.pick([2, 3] if full else [2]),
          access="read-only")
    bn, bd = ch.pick([("B", None), ("B%s", None), ("B%s", 2), ("B%s", 3)])
    b = E("field", ch.pick(["A%s", "A0"] + (["A1"] if da == 2 else [])), (), name=bn, dim=bd,
          dimIncrement=ch.pick([None, 4]))
    k = ch.n(6)
    b.a.update([dict(lsb=16, msb=17), dict(msb=18, lsb=16), dict(bitOffset=16), dict(bitRange="[19:16]"), dict(msb=7),
                dict(bitWidth=1)][k])
    if k > 3:
        b.a["access"] = "write-only"
    inst = bd is not None or (bn == "B%s" and b.df == "A%s")
    bi = "B" if bn == "B" else ["B%s", "B1" if (bd or da) > 1 else "B0"][ch.n(2)] if inst else "B%s"
    c = E("field", bi, (), name="D%s", lsb=40, msb=ch.pick([40, 41]), dim=ch.pick([None, 2]) if bi == "B%s" else 2,
          dimIncrement=ch.pick([None, 5]))
    r = R("R", [a, b, c] if full and ch.flag() else [c, b, a], size=64)
    s = R("S", [F("Z", lo=60, hi=61, df=ch.pick([f"R.{bi}", f"P.R.A{da - 1}", "P.R.D%s", "P.R.D1"][:4 if c.a.get("dim") else 3]))], df=ch.pick([None, "R"]),
          off=0x20, size=64)
    return device([P("P", [r, s])])


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("chain", lambda ch: chain(ch, th), "base plain/dim x reference to template/instance x derived "
                   "inherits/overrides each dim property x name pattern, four levels, both orders"),
        tree_space("inside", lambda ch: inside(ch, th), "references into and out of dim clusters"),
        tree_space("peripherals", lambda ch: peripherals(ch, th), "peripheral arrays"),
        tree_space("fields", lambda ch: fields(ch, th), "dim fields"),
    ]
