"""Names and addresses are arbitrary: renaming consistently and moving a device in memory only renames and moves the result."""
import re

from .. import borrow, observe
from ..core import Space, Violation
from ..doc import to_xml
from ..gen import *
from ..oracle import diff

ASSUME = ["a prefix is put before every name, everywhere; all peripherals are moved by one distance; interrupts, groups "
          "and enumerated values keep their names"]
PREFIXES = ["_", "Reg", "field_", "x" * 90 + "_"]
MOVES = [0x4, 0x20000000, 0xFFFFFFFF00000000]
ACROSS = [1 << 32, 1 << 31, 1 << 63, 1 << 20]   # some peripherals are below, some above
NAMED = {"peripheral": "alternatePeripheral", "cluster": "alternateCluster", "register": "alternateRegister", "field": None,
         "enumeratedValues": None}


def renamed(dev, pre):
    d = dev.copy()
    for e in d.walk():
        if e.kind in NAMED:
            if e.a.get("name") is not None:
                e.a["name"] = type(e.a["name"])(pre + e.a["name"])
            alt = NAMED[e.kind]
            if alt and e.a.get(alt):
                e.a[alt] = pre + e.a[alt]
        if e.df is not None:
            e.df = ".".join(pre + t if t else t for t in e.df.split("."))
    return d


def rename_tree(t, pre):
    """what renaming does to the processed device"""
    if isinstance(t, list):
        return [rename_tree(x, pre) for x in t]
    if not isinstance(t, dict):
        return t
    out = {}
    for k, v in t.items():
        if k == "registers":
            v = [(a, pre + n) for a, n in v]
        elif k in ("children", "peripherals", "fields", "enums"):
            v = rename_tree(v, pre)
        elif k in ("name", "alternate_peripheral", "alternate_cluster", "alternate_register") and v is not None:
            v = pre + v
        out[k] = v
    return out


def moved(dev, by):
    d = dev.copy()
    for e in d.ch:
        b = e.a.get("baseAddress")
        if e.kind != "peripheral" or not isinstance(b, int):
            return None
        e.a["baseAddress"] = b + by
    return d


def move_tree(t, by):
    if isinstance(t, list):
        return [move_tree(x, by) for x in t]
    if not isinstance(t, dict):
        return t
    out = {}
    for k, v in t.items():
        if k == "registers":
            v = [(a + by, n) for a, n in v]
        elif k in ("children", "peripherals"):
            v = move_tree(v, by)
        elif k in ("base_address", "end_address", "end_address_effective") and v is not None:
            v += by
        out[k] = v
    return out


def same(a, b, change, what, xml, other):
    if a.failed != b.failed:
        raise Violation(f"{what} changes whether the document is accepted", one=repr(a.exc), other=repr(b.exc), xml=xml,
                        changed=other)
    if not a.failed:
        x = diff(change(a.tree), b.tree)
        if x:
            raise Violation(f"{what} changes more than that", difference=x, xml=xml, changed=other)
    ka, kb = (sorted(c for c, _ in r.warns) for r in (a, b))
    if ka != kb:
        raise Violation(f"{what} changes the warnings", one=a.warns, other=b.warns, xml=xml, changed=other)


def special(dev):
    """texts for which a prefix makes a difference: no name, or something in it that is no part of a name; "reserved" (also put
    together from a template) has a meaning"""
    if "reserve" in to_xml(dev).lower():
        return True
    return any(e.kind in NAMED and isinstance(e.a.get("name"), str) and not re.fullmatch(
        r"[A-Za-z0-9_%\[\]]+", e.a["name"]) or e.df is not None and not re.fullmatch(r"[A-Za-z0-9_%\[\].]+", e.df)
        for e in dev.walk())


ODD = ["reserved1", "reserved_", "_reserved", "Reserved0", "reserve", "unreserved", "None", "null", "true", "default", "self", "parent",
       "device", "peripherals", "registers", "derivedFrom", "all", "any", "name", "dim", "P", "Z9", "_", "__", "z", "aux", "i", "s", "n",
       "x0", "b1", "e5", "inf", "nan", "CON", "int", "class", "read", "other", "Other_", "AA", "OtherX"]


def replaced(t, old, new):
    if isinstance(t, str):
        return t.replace(old, new)
    if isinstance(t, dict):
        return {k: replaced(v, old, new) for k, v in t.items()}
    return type(t)(replaced(x, old, new) for x in t) if isinstance(t, (list, tuple)) else t


def unordered(t):
    """without the order of elements at one address, which is that of their names"""
    if isinstance(t, dict):
        return {k: sorted((unordered(x) for x in v), key=lambda x: repr(x["name"] if isinstance(x, dict) else x))
                if isinstance(v, list) and k != "values" else v for k, v in t.items()}
    return t


def odd(ch):
    """a name that looks as if it had a meaning, on each level: of a plain element, of a base, of an alternate, of an array"""
    lvl, new, how = ch.pick("PCRFE"), ch.pick(ODD), ch.n(3)
    N = "NNNN"
    dim = {"name": N + "%s", "dim": 2, "dimIncrement": {"P": 0x1000, "C": 0x40, "R": 4}.get(lvl, 2)} if how == 1 else {"name": N}
    alt = {"P": "alternatePeripheral", "C": "alternateCluster", "R": "alternateRegister"}.get(lvl)
    base = N + "1" if how == 1 else N
    f, r, c, p = {}, {}, {}, {}
    {"P": p, "C": c, "R": r, "F": f, "E": {}}[lvl].update(dim)
    ev = [EV([("a", "1"), ("b", "2")], name=N if lvl == "E" else "V")]
    fs = [E("field", None, ev, lsb=0, msb=1, **{"name": "fld", **f}), F("Other", 8, 9)]
    if lvl == "F":
        fs.append(F("D", 12, 13, df=base))
    if lvl == "E":
        fs.append(F("D", 12, 13, [EV([], df=N)]))
    rs = [E("register", None, fs, **{"name": "reg", "addressOffset": 0, **r}), R("Other", off=0x10)]
    if lvl == "R":
        rs.append(R("D", df=base, off=0x20) if how < 2 else R("D", off=0, alternateRegister=N))
    cs = [E("cluster", None, rs, **{"name": "clu", "addressOffset": 0, **c}), R("Other", off=0x100)]
    if lvl == "C":
        cs.append(C("D", df=base, off=0x200) if how < 2 else C("D", [R("x")], off=0, alternateCluster=N))
    q = {k: v if k != "name" or how != 1 else N + "[%s]" for k, v in p.items()}
    ps = [E("peripheral", None, cs, **{"name": "per", "baseAddress": 0x4000, "addressBlock": [(0, 0x1000, "registers", None)], **q}),
          P("Other", [R("x")], base=0x10000)]
    if lvl == "P":
        ps.append(P("D", df=base, base=0x20000) if how < 2 else P("D", [R("y")], base=0x4000, alternatePeripheral=N))
    return device(ps), new


def run_odd(case, st):
    dev, new = case
    xml = to_xml(dev)
    other = xml.replace("NNNN", new)
    a, b = observe.process(xml), observe.process(other)
    st.execs += 2
    b.tree = unordered(b.tree)
    same(a, b, lambda t: unordered(replaced(t, "NNNN", new)), "a special name", xml, other)
    return "rejected" if a.failed else "ok"


def judge(dev, st, prefixes=PREFIXES, moves=MOVES, across=ACROSS):
    xml = to_xml(dev)
    a = observe.process(xml)
    st.execs += 1
    if a.tree:
        st.outcome(repr(a.tree))
    if not special(dev):
        for pre in prefixes:
            x = to_xml(renamed(dev, pre))
            st.execs += 1
            same(a, observe.process(x), lambda t: rename_tree(t, pre), "renaming", xml, x)
    bases = sorted({e.a.get("baseAddress") for e in dev.ch if isinstance(e.a.get("baseAddress"), int)})
    for by in moves + [m - bases[k] for m in across for k in {1, len(bases) - 1} if len(bases) > 1]:
        if by < 0:
            continue
        d = moved(dev, by)
        if d is None:
            break
        x = to_xml(d)
        st.execs += 1
        same(a, observe.process(x), lambda t: move_tree(t, by), "moving all peripherals", xml, x)
    return "rejected" if a.failed else "ok"


QUICK = {"c03": ["odd", "groups", "kinds", "depth", "clusters", "enums"], "c04": ["mixed", "chains"],
         "c05": ["nested", "ignored", "single"], "c08": ["levels"], "c10": ["nest"], "c11": ["siblings"], "c13": ["refs"], "c14": None,
         "c16": ["labels", "groups"], "c17": ["groups", "borders"], "c18": ["alignment"]}


def spaces(tier):
    key = lambda c: f"{c[1]}:{to_xml(c[0])}"   # noqa: E731
    own = [Space("odd", odd, run_odd, key=key, describe=key, bound=f"{len(ODD)} names that look like something else, on five levels")]
    if tier == "quick":
        return own + borrow.trees("quick", lambda d, st: judge(d, st, PREFIXES[1:3], MOVES[1:], ACROSS[:1]), QUICK)
    return own + borrow.trees("quick", judge, {f"c{i:02d}": None for i in (14, 16, 17, 13, 11, 10, 3, 4, 5, 7, 2, 8, 9, 12, 15, 6)}
                        | {"c18": ["empty", "sizes", "alignment", "everything"]})
