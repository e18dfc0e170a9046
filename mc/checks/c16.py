"""Names are unique within their scope after expansion and inheritance."""
from ..core import Skip
from ..gen import *
from ..oracle import tree_space

ASSUME = ["two or three siblings per level; names from small alphabets incl. case variants and dim results"]


def pair(ch):
    """two siblings with equal or almost equal names, plain or by dim expansion, in both orders"""
    level = ch.pick("PCRF")
    arr = level == "P"
    opts = ["A", "A0", "A1", "a", "B"]
    el = []
    for i in range(2):
        if ch.flag():
            el.append(elem(level, 2 * i + 1, "A[%s]" if arr else ch.pick(["A%s", "%s"] if level == "R" else ["A%s"]),
                           ch=[R("K")] if level in "PC" else None, dim=ch.pick([1, 2]), dimIncrement={
                "P": 0x1000, "C": 0x20, "R": 4, "F": 2}[level], dimIndex=ch.pick([None, "A1,X"])))
        else:
            el.append(elem(level, 2 * i + 1, ch.pick(opts), ch=[R("K")] if level in "PC" else None))
    return wrap(level, el if ch.flag() else el[::-1])


def deriving(ch):
    """two elements of one name, or almost, of which either or both are derived from a third, a list or each other"""
    level = ch.pick("PCRF")
    dim = ch.flag()
    bn = ("S[%s]" if level == "P" else "S%s") if dim else "S"
    w = {"P": 0x1000, "C": 0x20, "R": 4, "F": 1}[level]
    kids = [R("K")] if level in "PC" else None
    els = [elem(level, 0, bn, ch=kids, **(dict(dim=2, dimIncrement=w) if dim else {}))]
    names = ["A", "B", "S0", "S"]
    for i in range(2):
        df = ch.pick([None, bn, "S1" if dim else None, "B"])
        nm = ch.pick(names)
        if nm == df:
            raise Skip
        own = df is not None and dim and ch.flag()
        els.append(elem(level, 2 * i + 3, nm + ("[%s]" if level == "P" else "%s") if own else nm,
                        ch=[R("K")] if level in "PC" and df is None else None, df=df,
                        **(dict(dim=2, dimIncrement=w) if own else {})))
    return wrap(level, ch.perm(els))


def kinds(ch):
    """a register and a cluster of one name, equal names in different scopes"""
    n = ["X", "Y"]
    c = C(ch.pick(n), [R(ch.pick(n), [F(ch.pick(n), 0)]), C("Z", [R(ch.pick(n))], off=8)], off=0x100)
    r = R(ch.pick(n), [F(ch.pick(n), 0), F(ch.pick(n), 4)])
    p = P(ch.pick(n), [c, r] if ch.flag() else [r, c])
    q = P(ch.pick(n), [R(ch.pick(n))], base=0x10000)
    return device([p, q])


def attributes(ch):
    """two elements of one name, or not, whatever else is said about them"""
    level = ch.pick("PCRF")
    els = []
    for i in range(2):
        a = {k: ch.dev([None, *VALS[k]]) for k in PROPS[level] if k not in ("alternateGroup", "alternateRegister")}
        els.append(elem(level, 2 * i + 1, "A" if i == 0 else ch.pick(["A", "B"]), ch=[R("K")] if level in "PC" else None,
                        **{k: v for k, v in a.items() if v is not None}))
    return wrap(level, els if ch.flag() else els[::-1], access=ch.dev([None, "read-only", "write-only"]))


def groups(ch, full):
    """registers of one name told apart by alternateGroup, only by it"""
    g = [None, "g", "h"]
    els = []
    for i in range(3):
        els.append(R(ch.pick(["A", "B", "A_g"] if i == 2 else ["A", "B"]), off=4 * i if full else 0,
                     alternateGroup=ch.pick(g), alternateRegister=ch.pick([None, "B"]) if i == 0 else None))
    if ch.flag():
        els.append(C(ch.pick(["A", "A_g"]), [R("k")], off=0x20))
    return device([P("P", els)])


def inherited(ch):
    """a name of its own that equals one of the inherited names, on every level, also through dims and chains"""
    level = ch.pick("PCR")
    nm = ch.pick(["K", "L", "K0"])
    base_k = ch.pick(["K", "K%s"])
    kk = {"dim": 2, "dimIncrement": 4 if level != "R" else 2} if "%s" in base_k else {}
    if level == "R":
        a = R("A", [F(base_k, 0, 0, **kk)])
        b = R("B", [F(nm, 8, 9)], df="A", off=0x40)
        c = R("D", [F(ch.pick(["M", "K1"]), 16, 17)] if ch.flag() else [], df="P.B", off=0x80)
        return device([P("P", [a, b, c] if ch.flag() else [c, b, a])])
    if level == "C":
        a = C("A", [R(base_k, **kk)])
        b = C("B", [R(nm, off=0x20, alternateGroup=ch.pick([None, "g"]))], df="A", off=0x40)
        c = C("D", [R(ch.pick(["M", "K1"]), off=0x30)] if ch.flag() else [], df="P.B", off=0x80)
        return device([P("P", [a, b, c] if ch.flag() else [c, b, a])])
    a = P("A", [R(base_k, **kk)])
    b = P("B", [R(nm, off=0x20)], df="A", base=0x10000)
    c = P("D", [C(ch.pick(["M", "K1", "K"]), [R("x")], off=0x30)] if ch.flag() else [], df="B", base=0x20000)
    return device([a, b, c] if ch.flag() else [c, b, a])


def labels(ch, full):
    """labels that repeat within one dimIndex, on every level, also nested and inherited"""
    level = ch.pick("CRF")
    n = ch.pick([2, 3, 4] if full else [2, 3])
    text = ",".join(ch.pick(["A", "B", "a", "1"] if full else ["A", "B", "1"]) for _ in range(n))
    x = elem(level, 1, ch.pick(["K%s", "%s"]) if level == "R" else "K%s", ch=[R("k")] if level == "C" else None, dim=n,
             dimIncrement={"C": 0x20, "R": 4, "F": 2}[level], dimIndex=text)
    y = elem(level, 8 if level != "F" else 5, ch.pick(["KA", "K1", "L"]), ch=[R("k")] if level == "C" else None,
             df=None)
    dev = wrap(level, [x, y] if ch.flag() else [y, x])
    if ch.flag():
        dev.ch.append(P("QQ", df="PP", base=0x80000))
    return dev


def spaces(tier):
    th = tier != "quick"
    kw = dict(quiet=False)
    return [
        tree_space("pair", pair, "two siblings", **kw),
        tree_space("deriving", deriving, "two siblings derived from a third", **kw),
        tree_space("kinds", kinds, "registers against clusters, scopes", **kw),
        tree_space("attributes", attributes, "two elements of one name with up to two attributes", budget=2, **kw),
        tree_space("groups", lambda ch: groups(ch, th), "alternate groups", **kw),
        tree_space("labels", lambda ch: labels(ch, th), "labels that repeat in one dimIndex", **kw),
        tree_space("inherited", inherited, "own against inherited names", **kw),
    ]
