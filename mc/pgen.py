"""Families of parsed documents shared by the parser and serializer checks."""
import dataclasses
import os
import tempfile

from . import pm
from .core import Violation
from .pm import BAD, ENUMS, KINDS, N, T


def sites(doc, types=None, mandatory=None):
    """[(node number, kind, attribute, tag, type, mandatory)] of the attributes that are set"""
    out = []
    for i, n in enumerate(doc.walk()):
        for py, tag, typ, m in KINDS[n.kind][1]:
            if py in n.v and (types is None or typ in types) and (mandatory is None or m == mandatory):
                out.append((i, n.kind, py, tag, typ, m))
    return out


def node(doc, i):
    for k, n in enumerate(doc.walk()):
        if k == i:
            return n
    raise IndexError(i)


def homes(doc):
    """the kind of the element that holds each node, by number"""
    ns = list(doc.walk())
    home = {id(c): n.kind for n in ns for x in n.v.values() for c in (x if isinstance(x, list) else [x] if isinstance(x, N) else [])}
    return [home.get(id(n)) for n in ns]


def by_kind(sts):
    """one site per (kind, attribute), and per kind of the containing element where one kind serves several"""
    seen, out = set(), []
    for s in sts:
        k = s[1:3] + ((HOMES[s[0]],) if s[1] in ("dimArrayIndex", "writeConstraint") else ())
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


RICH = pm.rich()
HOMES = homes(RICH)
SMALL = pm.small()
OPTIONAL = [s for s in sites(RICH) if not s[5] and s[4] != "@*"]
ADDABLE = []   # what may be added to the small document: (node number, attribute, value)
for _i, _n in enumerate(SMALL.walk()):
    _full = next(n for n in RICH.walk() if n.kind == _n.kind and len(n.v) == max(
        len(m.v) for m in RICH.walk() if m.kind == _n.kind))
    for _py, _tag, _typ, _m in KINDS[_n.kind][1]:
        if _py not in _n.v and not _m and _typ != "@*" and _py in _full.v:
            ADDABLE.append((_i, _py, _full.v[_py]))


def without(ch, doc=None, pairs=True):
    """the rich document without one optional attribute, or without two of one element"""
    i = ch.n(len(OPTIONAL))
    d = RICH.copy()
    si = OPTIONAL[i]
    n = node(d, si[0])
    others = [s[2] for s in OPTIONAL if s[0] == si[0] and s[2] > si[2]]
    del n.v[si[2]]
    if pairs and others:
        k = ch.n(len(others) + 1)
        if k:
            del n.v[others[k - 1]]
    return d


def plus(ch):
    """the small document with up to two attributes more"""
    d = SMALL.copy()
    i = ch.n(len(ADDABLE))
    j = i + ch.n(len(ADDABLE) - i)
    ns = list(d.walk())
    for k in {i, j}:
        x, py, v = ADDABLE[k]
        ns[x].v[py] = v.copy() if isinstance(v, N) else v
    return d


LISTS = [s for s in sites(RICH) if s[4] == "@*" and not s[5]]


def lists(ch, pairs=False, short=False):
    """the rich document with one list of children emptied, cut, reversed or doubled - and possibly without an optional
    attribute of the same element"""
    s = ch.pick(by_kind(LISTS) if short else LISTS)
    d = RICH.copy()
    n = node(d, s[0])
    x = n.v[s[2]]
    n.v[s[2]] = [lambda: [], lambda: x[:1], lambda: x[1:], lambda: x[::-1], lambda: x + [c.copy() for c in x]][ch.n(5)]()
    others = [o[2] for o in OPTIONAL if o[0] == s[0]]
    k = ch.n(len(others) + 1)
    if k:
        del n.v[others[k - 1]]
        if pairs and k < len(others):
            j = ch.n(len(others) - k + 1)
            if j:
                del n.v[others[k + j - 1]]
    return d


TEXTS = ["x", "a b", "a<b>&amp;\"'", "ä€漢😀", "a\nb\tc", "  lead", "trail \n", "a  b", "]]>", "0", "None", "%s",
         "<![CDATA[x]]>"]


def values(ch):
    """one attribute of the rich document with a special value"""
    sts = by_kind([s for s in sites(RICH) if s[4] not in ("@@", "@*")])
    s = sts[ch.n(len(sts))]
    d = RICH.copy()
    n = node(d, s[0])
    typ = s[4].lstrip("@")
    if typ in ("s", "r"):
        t = TEXTS[ch.n(len(TEXTS))]
        n.v[s[2]] = T(t, t if typ == "r" else t.strip())
        if s[4][0] == "@":   # white space in attributes is normalized by XML
            t = t.replace("\n", " ").replace("\t", " ")
            n.v[s[2]] = T(t, t.strip())
        if ch.flag():
            n.v[s[2]] = T("a&#13;b&#9;c&#10;d", "a\rb\tc\nd", raw=True)
    elif typ == "i":
        n.v[s[2]] = [0, 1, 7, 10, 255, 1 << 31, (1 << 32) - 1, (1 << 64) - 1][ch.n(8)]
    elif typ == "b":
        n.v[s[2]] = bool(ch.n(2))
    elif typ == "range":
        n.v[s[2]] = [(0, 0), (5, 3), (0, (1 << 64) - 1)][ch.n(3)]
    else:
        n.v[s[2]] = ENUMS[typ][ch.n(len(ENUMS[typ]))]
    return d


def combos(ch):
    """what can be said in several ways is said in several ways at once: the position of a field, the constraint of what
    is written, the meaning of a value, the alternates of a register"""
    d = SMALL.copy()
    r = d.v["peripherals"][0].v["registers_clusters"][0]
    f = N("field", name="f")
    k = ch.n(3)
    if k == 0:
        for py, v in (("bit_offset", 1), ("bit_width", 3), ("lsb", 2), ("msb", 5), ("bit_range", "[7:4]")):
            if ch.flag():
                f.v[py] = v
    elif k == 1:
        f.v.update(lsb=0, msb=1)
        w = N("writeConstraint")
        for py, v in (("write_as_read", ch.flag()), ("use_enumerated_values", ch.flag()), ("range_", (1, 2))):
            if ch.flag():
                w.v[py] = v
        (f if ch.flag() else r).v["write_constraint"] = w
    else:
        f.v.update(lsb=0, msb=1)
        e = N("enumeratedValue", name="n")
        for py, v in (("description", "d"), ("value", "1"), ("is_default", ch.flag())):
            if ch.flag():
                e.v[py] = v
        f.v["enumerated_value_containers"] = [N("enumeratedValues", enumerated_values=[e])]
        for py in ("alternate_group", "alternate_register", "display_name"):
            if ch.flag():
                r.v[py] = py
    r.v["fields"] = [f]
    return d


def mixture(ch, n):
    """every sequence of registers and clusters up to n on two levels; fields, blocks, interrupts, enumerations in count"""
    d = SMALL.copy()
    p = d.v["peripherals"][0]

    def seq(tag, k, depth):
        out = []
        for i in range(ch.n(k + 1)):
            if ch.flag():
                out.append(N("register", name=f"k{tag}r{i}", address_offset=i * 4))
            else:
                out.append(N("cluster", name=f"k{tag}c{i}", description="x", address_offset=i * 4,
                             registers_clusters=seq(f"{tag}{i}", k - 1, depth + 1) if depth < 1 else
                             [N("register", name="z", address_offset=0)]))
        return out
    p.v["registers_clusters"] = seq("", n, 0)
    return d


def counts(ch, hi):
    d = SMALL.copy()
    p = d.v["peripherals"][0]
    r = p.v["registers_clusters"][0]
    p.v["address_blocks"] = [N("addressBlock", offset=16 * i, size=4, usage="registers") for i in range(ch.n(hi))]
    p.v["interrupts"] = [N("interrupt", name=f"I{i}", value=9 - i) for i in range(ch.n(hi))]
    r.v["fields"] = [N("field", name=f"f{i}", lsb=i, msb=i, enumerated_value_containers=[
        N("enumeratedValues", enumerated_values=[pm.ev(k) for k in range(ch.n(hi) if not i else 1)])
        for _ in range(ch.n(hi) if i < 1 else 0)]) for i in range(ch.n(hi))]
    d.v["peripherals"] = [p] + [N("peripheral", name=f"Q{i}", base_address=i) for i in range(ch.n(2))]
    return d


def parse(xml, how="content"):
    from svdsuite import Parser
    if how == "str":
        return Parser.from_xml_str(xml if isinstance(xml, str) else xml.decode()).get_parsed_device()
    if how == "file":
        fd, path = tempfile.mkstemp(prefix="mcp.", suffix=".svd")
        try:
            with os.fdopen(fd, "wb") as f:
                f.write(xml.encode() if isinstance(xml, str) else xml)
            return Parser.from_svd_file(path).get_parsed_device()
        finally:
            os.unlink(path)
    return Parser.from_xml_content(xml.encode() if isinstance(xml, str) else xml).get_parsed_device()


_names = {}


def parents(o, owner=None, seen=None):
    """every element of a parsed document knows the element that contains it"""
    t = type(o)
    if t not in _names:
        _names[t] = [f.name for f in dataclasses.fields(t)] if dataclasses.is_dataclass(t) else ()
    names = _names[t]
    if not names:
        return
    if owner is not None and getattr(o, "parent", owner) is not owner:
        raise Violation("a parsed element does not refer to the element that contains it",
                        element=type(o).__name__, container=type(owner).__name__)
    for n in names:
        if n != "parent":
            x = getattr(o, n)
            for c in (x if isinstance(x, list) else [x]):
                parents(c, o)


__all__ = ["BAD", "ENUMS", "KINDS", "N", "T", "RICH", "SMALL", "sites", "node", "by_kind", "without", "plus", "values",
           "mixture", "counts", "lists", "combos", "parse", "parents", "OPTIONAL", "ADDABLE"]
