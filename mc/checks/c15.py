"""Fields of a register overlap only if they cannot be accessed the same way."""
from ..gen import *
from ..oracle import tree_space

ASSUME = ["registers of 8 bits, two fields in all positions and three on a 4-bit grid; access modes of the format"]
ACC = [None, "read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"]


def two(ch, n):
    """all pairs of positions within n bits, a few accesses"""
    lo, lo2 = ch.n(n), ch.n(n)
    hi, hi2 = lo + ch.n(n - lo), lo2 + ch.n(n - lo2)
    a, b = ch.pick([(None, None), ("read-only", "write-only"), ("read-only", "read-only")])
    return device([P("P", [R("r", [F("f", lo, hi, access=a), F("g", lo2, hi2, access=b)], size=8)])])


def access(ch):
    """all pairs of access modes, own, inherited from the register or from above, on overlapping and disjoint fields"""
    a, b = ch.pick(ACC), ch.pick(ACC)
    lo = ch.pick([0, 2, 4])
    fs = [F("f", 0, 2, access=a), F("g", lo, lo + 1, access=b)]
    r = R("r", fs if ch.flag() else fs[::-1], access=ch.pick([None, "read-only", "write-only"]))
    return device([P("P", [r], access=ch.pick([None, "read-only"]))])


def three(ch, full):
    """three fields on a small grid: every pair counts, not just neighbours"""
    A = ["read-only", "write-only", None]
    els = []
    for nm in "cab":
        lo = ch.n(3)
        els.append(F(nm, lo, lo + ch.n(3 if full else 2), access=ch.pick(A)))
    return device([P("P", [R("r", els)])])


def dims(ch):
    """instances of dim fields among themselves and with others; derived fields; inherited fields"""
    w, inc = ch.pick([1, 2, 3]), ch.pick([1, 2, 3])
    a = F("a%s", 0, w - 1, dim=ch.pick([1, 2, 3]), dimIncrement=inc, access=ch.pick([None, "read-only"]))
    lo = ch.pick([1, 4, 9])
    b = F("b", lo, lo, access=ch.pick([None, "write-only"]))
    d = ch.n(3)
    if d == 1:
        b = F("b", lo, lo + 1, df="a0", access=ch.pick([None, "write-only"]))
    r = R("r", [a] if d == 2 else [a, b])
    els = [r]
    if d == 2:
        els.append(R("s", [b], df="r", off=4))
    return device([P("P", els)])


def reserved(ch):
    """ignored fields overlap nothing; fields beyond the register count all the same"""
    n = ch.pick(["reserved", "Reserved", "RESERVED", "reserved_", "g"])
    lo = ch.pick([0, 1, 30, 31, 32, 40])
    return device([P("P", [R("r", [F("f", ch.pick([0, 30]), ch.pick([31, 33])), F(n, lo, lo + ch.n(2))])])])


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("two", lambda ch: two(ch, 8 if th else 6), "all pairs of positions"),
        tree_space("access", access, "all pairs of access modes"),
        tree_space("three", lambda ch: three(ch, th), "triples on a grid"),
        tree_space("dims", dims, "dim instances, derived and inherited fields"),
        tree_space("reserved", reserved, "ignored and protruding fields"),
    ]
