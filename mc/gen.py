"""Pieces the document spaces of several checks share."""
from .doc import C, E, EV, F, P, R, device

VALS = {
    "size": [8, 16, 32], "access": ["read-only", "write-only", "read-write"], "protection": ["s", "n", "any"],
    "resetValue": [1, 0, 0xFFFFFFFF], "resetMask": [0, 0xFF, 0xFFFFFFFF], "version": ["v1", "v2"], "description": ["x", "y"],
    "alternatePeripheral": ["AP", "AQ"], "groupName": ["g1", "g2"], "prependToName": ["p1", "p2"],
    "appendToName": ["a1", "a2"], "disableCondition": ["c1", "c2"], "headerStructName": ["h1", "h2"],
    "alternateCluster": ["AC", "AD"], "alternateGroup": ["ag", "ah"], "alternateRegister": ["AR", "AS"],
    "dataType": ["uint8_t", "int32_t"], "modifiedWriteValues": ["oneToClear", "set", "modify"],
    "writeConstraint": [("asread", True), ("enum", False), ("range", 1, 5), ("range", 0, 0)], "readAction": ["clear", "modify"],
    "displayName": ["d1", "d2"],
}
PROPS = {
    "P": ["size", "access", "protection", "resetValue", "resetMask", "version", "description", "alternatePeripheral",
          "groupName", "prependToName", "appendToName", "disableCondition", "headerStructName"],
    "C": ["size", "access", "protection", "resetValue", "resetMask", "description", "alternateCluster",
          "headerStructName"],
    "R": ["size", "access", "protection", "resetValue", "resetMask", "description", "alternateGroup",
          "alternateRegister", "dataType", "modifiedWriteValues", "writeConstraint", "readAction", "displayName"],
    "F": ["access", "description", "modifiedWriteValues", "writeConstraint", "readAction"],
}
REGS5 = ["size", "access", "protection", "resetValue", "resetMask"]


def elem(level, i, name, df=None, ch=None, **a):
    """the i-th sibling of a level, laid out so that it overlaps nothing"""
    if level == "P":
        return P(name, [R("R0")] if ch is None and df is None else ch or [], df=df, base=0x10000 * i, **a)
    if level == "C":
        return C(name, [R("R0")] if ch is None and df is None else ch or [], df=df, off=0x100 * i, **a)
    if level == "R":
        return R(name, ch or [], df=df, off=0x10 * i, **a)
    if level == "F":
        if "lsb" in a or "bitOffset" in a or "bitRange" in a:
            return F(name, ch=ch or [], df=df, **a)
        return F(name, 3 * i, 3 * i + 1, ch or [], df=df, **a)
    return EV(ch if ch is not None else ([("v", str(i))] if df is None else []), df=df, name=name, **a)


def wrap(level, elems, **dev):
    """a document in which elems are the siblings of that level"""
    if level == "P":
        return device(elems, **dev)
    if level == "C":
        return device([P("PP", elems)], **dev)
    if level == "R":
        return device([P("PP", elems)], **dev)
    if level == "F":
        return device([P("PP", [R("RR", elems)])], **dev)
    return device([P("PP", [R("RR", [F("FF", 0, 3, elems)])])], **dev)


def attributes(ch, full):
    """one attribute (thorough: two) on one element of a tree, whatever it contains, single, repeated or derived from"""
    inner = lambda: C("J", [R("X", [F("a", 0, 3)])], off=0x20)  # noqa: E731
    reg = lambda: R("K", [F("b", 0, 3), F("c", 4, 7)], off=4)  # noqa: E731
    kids = ch.pick([(reg,), (inner,), (inner, reg), (reg, inner)])
    c = C("D", [k() for k in kids], off=0x100)
    p = P("PP", [c, R("L", off=8)] if ch.flag() else [R("L", off=8), c])
    els = {"P": [p], "C": [c] + [k for k in c.ch if k.kind == "cluster"]}
    els["R"] = [x for e in els["P"] + els["C"] for x in e.ch if x.kind == "register"]
    els["F"] = [f for r in els["R"] for f in r.ch]
    level = ch.pick("PCRF")
    t = ch.pick(els[level])
    for i in range(2 if full else 1):
        k = ch.pick(PROPS[level])
        t.a[k] = ch.pick(VALS[k] if full and not i else VALS[k][:2])
    how = ch.pick(["single", "dim", "base"])
    home = next((e for e in els["P"] + els["C"] + els["R"] if t in e.ch), None)
    ps = [p]
    if how == "dim":
        t.a.update(name=t.name + "%s", dim=2, dimIncrement={"P": 0x1000, "C": 0x40, "R": 0x40, "F": 8}[level])
    elif how == "base":
        move = {"P": {"base": 0x50000}, "C": {"off": 0x200}, "R": {"off": 0x300}, "F": {"lo": 16, "hi": 19}}[level]
        (home.ch if home else ps).append({"P": P, "C": C, "R": R, "F": F}[level]("Z", df=t.name, **move))
    return device(ps)


ALL_OF = {
    "access": ["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"], "protection": ["s", "n", "p", "any"],
    "dataType": [u + t + p for p in ("", " *") for u in ("uint", "int") for t in ("8_t", "16_t", "32_t", "64_t")],
    "modifiedWriteValues": ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear",
                            "set", "modify"],
    "readAction": ["clear", "set", "modify", "modifyExternal"],
    "writeConstraint": [("asread", True), ("asread", False), ("enum", True), ("enum", False), ("range", 0, 0), ("range", 3, 3),
                        ("range", 0, 0xFFFFFFFF), ("range", 5, 1)],
}


def keywords(ch):
    """every keyword of every element: on the element, as opposed to its base's, inherited and on instances of a dim"""
    level = ch.pick("DPCRFBE")
    if level == "B":
        b = (0, 0x40, ch.pick(["registers", "buffer", "reserved"]), ch.pick([None] + ALL_OF["protection"]))
        p = P("A", [R("r")], blocks=[b] + ([(0x80, 4, "registers", "s")] if ch.flag() else []))
        return device([p, P("B", df="A", base=0x1000, blocks=ch.pick([None, [(0x100, 4) + b[2:]]])),
                       P("C[%s]", df="B", base=0x2000, dim=2, dimIncrement=0x1000)])
    if level == "E":
        u = ch.pick([None, "read", "write", "read-write"])
        f = F("f", 0, 1, [EV([("v", "1")], usage=u, name=ch.pick([None, "E"]))], access=ch.pick([None] + ALL_OF["access"]))
        return device([P("A", [R("r", [f, F("g", df="f", lo=4, hi=5), F("h%s", df="g", lo=8, hi=9, dim=2, dimIncrement=2)],
                              access=ch.pick(ALL_OF["access"]))])])
    k = ch.pick(["access", "protection"] if level in "DPC" else ["access", "modifiedWriteValues", "readAction", "writeConstraint"]
                if level == "F" else list(ALL_OF))
    v = ch.pick(ALL_OF[k])
    if level == "D":
        return device([P("A", [R("r", [F("f", 0)]), C("c", [R("r")], off=0x10)])], **{k: v})
    kid = {"P": [R("r", [F("f", 0)])], "C": [R("r", [F("f", 0)])], "R": [F("f", 0)], "F": []}[level]
    w = ch.pick([None] + ALL_OF[k])
    inc = {"P": 0x1000, "C": 0x20, "R": 4, "F": 3}[level]
    return wrap(level, [elem(level, 1, "A", ch=kid, **{k: v}), elem(level, 2, "B", df="A", **{k: w}),
                        elem(level, 3, "C[%s]" if level == "P" else "C%s", df="B", dim=2, dimIncrement=inc)])


__all__ = ["keywords", "ALL_OF", "C", "E", "EV", "F", "P", "R", "device", "VALS", "PROPS", "REGS5", "elem", "wrap", "attributes"]
