"""Malformed dim declarations are rejected, well-formed ones are not."""
from ..core import Skip
from ..gen import *
from ..oracle import tree_space

ASSUME = ["dimIndex texts over a ten letter alphabet up to length 4 (thorough: 5) plus a menu of longer ones",
          "a dimIndex whose expansion repeats a label is outside (it leads to duplicate names, see C16)"]
ALPHA = "0129AC-, a_"


def text(ch, n):
    ln = 1 + ch.n(n)
    return "".join(ch.pick(ALPHA) for _ in range(ln))


def strings(ch, n):
    s = text(ch, n)
    if s != s.strip():
        raise Skip
    dim = ch.pick([1, 2, 3])
    return wrap("R", [R("N%s", off=0, dim=dim, dimIncrement=4, dimIndex=s), R("T", off=0x80)])


def menu(ch):
    level = ch.pick("CRF")
    idx = ch.pick(["0-1", "1-0", "0-0", "0-2", "00-01", "0--1", "-1", "0-", "-", ",", "a,,b", "a,b,", ",a,b", "a b",
                   "a;b", "a.b,c", "A-B", "B-A", "A-A", "a-b", "A-b", "AA-AB", "A-1", "1-A", "é,b", "a,é", "%s,b",
                   "[0],[1]", "0-1-2", "0x0-0x1", "a,b", "a, b", "a ,b", "a\tb", "a,\tb", "Z-A", "Y-Z", "9-10",
                   "1-2,3", "10-11", "0_1,2", "ab", "A", "7", "a-b,c", "+1,2", "1.5,2", "٣,4", "٠-١"])
    dim = ch.pick([0, 1, 2, 3])
    a = dict(dim=dim, dimIncrement=4, dimIndex=idx)
    nm = ch.pick(["N%s", "N[%s]"]) if level != "F" else "N%s"
    return wrap(level, [elem(level, 0, nm, **a), elem(level, 7, "T")])


def shapes(ch):
    """%s in the wrong places"""
    level = ch.pick("PCRF")
    name = ch.pick(["N%s", "N[%s]", "N", "%s[%s]", "N[%s]M%s", "N%s%s"])
    dim = ch.pick([None, 0, 1, 2])
    inc = ch.pick([None, 0, 4])
    idx = ch.pick([None, "0-1", "A,B", "A"])
    a = dict(dim=dim, dimIncrement=inc, dimIndex=idx)
    if level == "R":
        a["displayName"] = ch.pick([None, "d", "d%s", "d[%s]", "d%s[%s]"])
    if level in "RF" and dim is not None and dim > 1 and not inc and "%s" in name:
        a["description"] = "same place"
    return wrap(level, [elem(level, 0, name, **a), elem(level, 7, "T")])


def buried(ch):
    """an invalid dim below something that is copied, or that is dropped"""
    bad = ch.pick([dict(dim=2, dimIncrement=4, dimIndex="A"), dict(dim=0, dimIncrement=4),
                   dict(dim=3, dimIncrement=4, dimIndex="2-1"), dict(dim=2, dimIncrement=4, dimIndex="C-B"),
                   dict(dim=2, dimIncrement=4)])
    where = ch.n(4)
    f = F("F%s", 0, 0, **bad) if where == 0 else F("F", 0)
    r = R("R%s", [f], **bad) if where == 1 else R("R", [f], size=ch.pick([None, 12]))
    c = C("C%s", [r], off=0x40, **bad) if where == 2 else C("C", [r], off=0x40)
    p = P("P[%s]" if where == 3 else "P", [c, R("Z")], **(dict(bad, dimIncrement=0x1000) if where == 3 else {}))
    q = P("Q", df=p.name if where == 3 or ch.flag() else None, base=0x8000)
    return device([p, q] if ch.flag() else [q, p])


def ends(ch):
    """ranges between any two characters or short numbers, with as many instances as they are apart"""
    E_ = list("059ACXZ_[`abxz@:/") + ["00", "10", "AA", "a1"]
    a, b = ch.pick(E_), ch.pick(E_)
    digits = a.isdigit() and b.isdigit()
    d = int(b) - int(a) if digits else ord(b[-1]) - ord(a[-1])
    dim = abs(d) + 1 if ch.flag() else abs(d) + 2
    if dim > 64:
        raise Skip
    return wrap("R", [R("N%s", off=0, dim=dim, dimIncrement=4, dimIndex=f"{a}-{b}"), R("T", off=0x400)])


def borrowed(ch):
    """a repeated element that leaves dimIncrement or dimIndex out and is derived from a list, an instance, a plain one"""
    level = ch.pick("PCRF")
    arr = level == "P" or level != "F" and ch.flag()
    bi = ch.pick([None, "A-B", "5-6", "x,y"]) if not arr else None
    base = elem(level, 0, "N[%s]" if arr else "N%s", dim=2, dimIncrement=ch.pick([0x20, 0x40]) if level != "F" else 2,
                dimIndex=bi)
    first = {None: "0", "A-B": "A", "5-6": "5", "x,y": "x"}[bi]
    df = ch.pick(["N[%s]" if arr else "N%s", f"N{first}", "T"])
    a = {"dim": ch.pick([2, 3, 1]), "dimIncrement": ch.pick([None, 4 if level != "P" else 0x80]),
         "dimIndex": ch.pick([None, "0-1", "A,B,C"]) if not arr else None}
    x = elem(level, 9, ch.pick(["M[%s]", "M"]) if arr else ch.pick(["M%s", "M"]), df=df, **a)
    els = [base, elem(level, 7, "T"), x]
    return wrap(level, ch.perm(els))


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("strings", lambda ch: strings(ch, 5 if th else 4), "every dimIndex text over an 11 letter alphabet "
                   "x dim 1..3"),
        tree_space("menu", menu, "unusual dimIndex texts x dim 0..3"),
        tree_space("ends", ends, "ranges between any two of 21 characters and numbers x dim as far apart or one more"),
        tree_space("shapes", shapes, "name and displayName patterns x dim / dimIncrement / dimIndex presence"),
        tree_space("borrowed", borrowed, "a derived element that leaves dimIncrement or dimIndex out x what it is derived from"),
        tree_space("buried", buried, "an invalid dim anywhere in a copied or dropped subtree"),
    ]
