"""Processing leaves its input alone, and nothing it returns is shared."""
import dataclasses
import enum
import re

from .. import borrow, observe
from ..core import Space, Violation
from ..doc import X, to_xml
from ..gen import *
from ..oracle import diff

ASSUME = ["documents of the spaces of other checks, and full documents with every kind of element"]
SKIP = ("parent", "parsed")


def objects(o, skip=("parsed", "parent"), path="", flat=False):
    """every mutable object below o with its path; the flattened register list only if flat"""
    if dataclasses.is_dataclass(o):
        yield path, o
        for f in dataclasses.fields(o):
            if f.name in skip or (f.name == "registers" and not flat):
                continue
            yield from objects(getattr(o, f.name), skip, f"{path}.{f.name}", flat)
    elif isinstance(o, (list, dict, set)):
        yield path, o
        for i, c in enumerate(o):
            yield from objects(c, skip, f"{path}[{i}]", flat)


def distinct(o, what, xml):
    seen = {}
    for path, x in objects(o):
        if id(x) in seen:
            raise Violation(f"{what} uses one object in two places", xml=xml, kind=type(x).__name__,
                            places=[seen[id(x)], path])
        seen[id(x)] = path
    return seen


def scramble(o):
    """overwrite everything that can be reached"""
    for _, x in list(objects(o, flat=True)):
        if isinstance(x, list):
            x.clear()
        elif dataclasses.is_dataclass(x):
            for f in dataclasses.fields(x):
                v = getattr(x, f.name)
                if f.name in SKIP or isinstance(v, list) or dataclasses.is_dataclass(v):
                    continue
                setattr(x, f.name, "scrambled" if not isinstance(v, int) else -7)


def origin(p, xml, known):
    """every processed element refers to the element of the document it was made from"""
    for path, x in objects(p):
        if dataclasses.is_dataclass(x) and hasattr(x, "parsed"):
            q = x.parsed
            if id(q) not in known:
                raise Violation("an element refers to something that is not in the parsed document", xml=xml, place=path)
            if type(q).__name__ != "SVD" + type(x).__name__ and not (
                    type(q).__name__ == "SVDEnumeratedValue" and type(x).__name__ == "EnumeratedValue"):
                raise Violation("an element refers to an element of another kind", xml=xml, place=path,
                                kinds=[type(q).__name__, type(x).__name__])


def judge(xml, st):
    from svdsuite import Parser, PeripheralRegisterMap, Process, Serializer
    parsed = observe.call(lambda: Parser.from_xml_content(xml.encode()).get_parsed_device())
    if parsed.failed:
        return "rejected by the parser"
    src = parsed.obj
    before = observe.parsed(src)
    idents = {id(x): p for p, x in objects(src, ("parent",), flat=True)}
    for how in (Serializer.device_to_svd_content, Serializer.device_to_svd_str):
        out = observe.call(lambda: how(src))
        st.execs += 1
        x = diff(before, observe.parsed(src))
        if x:
            raise Violation("serializing changed the parsed device", difference=x, xml=xml)
        if {id(x): p for p, x in objects(src, ("parent",), flat=True)} != idents:
            raise Violation("serializing replaced parts of the parsed device", xml=xml)
    del out
    one = observe.call(lambda: Process(src, None))
    st.execs += 1
    x = diff(before, observe.parsed(src))
    if x:
        raise Violation("processing changed the parsed device", difference=x, xml=xml, accepted=not one.failed)
    if {id(x): p for p, x in objects(src, ("parent",), flat=True)} != idents:
        raise Violation("processing replaced parts of the parsed device", xml=xml)
    if one.failed:
        two = observe.call(lambda: Process(src, None))
        st.execs += 1
        if not two.failed or type(two.exc) is not type(one.exc):
            raise Violation("processing a rejected device again ends differently", xml=xml,
                            outcomes=[repr(one.exc), repr(two.exc)])
        return "rejected"
    dev = one.obj.get_processed_device()
    tree = observe.parsed(dev, SKIP)
    mine = distinct(dev, "the processed device", xml)
    for i, p in mine.items():
        if i in idents:
            raise Violation("the processed device shares an object with the parsed one", xml=xml, places=[p, idents[i]])
    for p in dev.peripherals:
        want = {id(x) for _, x in objects(p.registers_clusters) if hasattr(x, "fields")}
        if {id(x) for x in p.registers} != want or len(p.registers) != len(want):
            raise Violation("the flattened registers are not those of the tree", xml=xml, peripheral=p.name)
    origin(dev, xml, idents)
    conv = one.obj.convert_processed_device_to_svd_device()
    other = one.obj.convert_processed_device_to_svd_device()
    ids = distinct(conv, "the converted device", xml)
    for i, p in distinct(other, "the converted device", xml).items():
        if i in ids:
            raise Violation("two conversions share an object", xml=xml, place=p)
    if set(ids) & (set(mine) | set(idents)):
        raise Violation("the converted device shares an object with the processed or parsed one", xml=xml,
                        places=[ids[i] for i in ids if i in mine or i in idents])
    two = observe.call(lambda: Process(src, None))
    st.execs += 1
    if two.failed:
        raise Violation("processing the same parsed device again was rejected", xml=xml, error=repr(two.exc))
    for p, x in objects(two.obj.get_processed_device()):
        if id(x) in mine:
            raise Violation("two results share an object", xml=xml, place=p)
    x = diff(tree, observe.parsed(two.obj.get_processed_device(), SKIP))
    if x:
        raise Violation("processing the same parsed device again gives something else", difference=x, xml=xml)
    mp = PeripheralRegisterMap(dev)
    st.execs += 1
    if diff(tree, observe.parsed(dev, SKIP)):
        raise Violation("building a register map changed the device", xml=xml)
    scramble(dev)
    scramble(conv)
    del mp
    x = diff(before, observe.parsed(src))
    if x:
        raise Violation("editing the processed device changes the parsed one", difference=x, xml=xml)
    x = diff(tree, observe.parsed(two.obj.get_processed_device(), SKIP))
    if x:
        raise Violation("editing one result changes another", difference=x, xml=xml)
    x = diff(observe.parsed(other, SKIP), observe.parsed(two.obj.convert_processed_device_to_svd_device(), SKIP))
    if x:
        raise Violation("editing one conversion changes another", difference=x, xml=xml)
    three = observe.call(lambda: Process(src, None).get_processed_device())
    st.execs += 1
    x = repr(three.exc) if three.failed else diff(tree, observe.parsed(three.obj, SKIP))
    if x:
        raise Violation("editing a result changes later ones", difference=x, xml=xml)
    scramble(src)
    x = diff(tree, observe.parsed(three.obj, SKIP))
    if x:
        raise Violation("editing the parsed device changes an earlier result", difference=x, xml=xml)
    st.outcome(repr(tree))
    return "ok"


def full(ch):
    """everything that could be shared, behind every kind of link"""
    wc = ch.pick([("range", 1, 5), ("asread", True), ("enum", False), None])
    fwc = ch.pick([None, ("range", 0, 3)])
    ev = EV([("a", "0"), {"name": "b", "isDefault": True}], name="V", headerEnumName="H")
    dim = ch.flag()
    dims = dict(dim=2, dimIncrement=8) if dim else {}
    s = "%s" if dim else ""
    r = E("register", None, [F("f", 0, 1, [ev], writeConstraint=fwc), E("field", None, (), name="g%s", lsb=4, msb=4, dim=2, dimIncrement=1)],
          name="A" + s, addressOffset=0, writeConstraint=wc, **dims)
    c = C("C", [r, R("Y", off=0x18)], off=0x40)
    p = P("P", [c, R("B", [F("h", 0, 3, [EV([("z", "1")], name="W")])], off=0x20)], interrupt=[("I", "d", 1), ("J", None, 2)],
          blocks=[(0, 0x100, "registers", None), (0x100, 4, "buffer", "s")])
    if ch.flag():   # nothing is declared in the order of addresses, positions, numbers
        for e in (c.ch, r.ch, p.ch, p.a["interrupt"], p.a["addressBlock"], ev.ch):
            e.reverse()
    k = ch.n(6)
    q = P("Q", [], base=0x10000, blocks=[(0, 0x100, "registers", None)])
    if k == 0:
        q = P("Q", [], df="P", base=0x10000)
    elif k == 1:
        q.ch = [R("X", df=f"P.C.A{s}", off=0)]
    elif k == 2:
        q.ch = [C("X", df="P.C", off=0)]
    elif k == 3:
        q.ch = [R("X", [F("i", lo=8, hi=9, df=f"P.C.A{s}.f"), F("j", lo=10, hi=11, ch=[EV(df=f"P.C.A{s}.f.V")])], off=0)]
    elif k == 4:
        q = P("Q[%s]", [R("X", df=f"P.C.A{s}", off=0x80)], df="P", base=0x10000, dim=2, dimIncrement=0x1000)
    else:
        q.ch = [C("Y", [C("X", df="P.C", off=0)], off=0, )]
    return device([p, q] if ch.flag() else [q, p])


def notations(ch):
    """numbers, booleans, bit ranges and values in every notation the format has"""
    num = ch.pick([("0X1F", "0x1f"), ("#1", "#01"), ("+4", "4"), (" 4 ", "0x4"), ("4K", "1m")])
    val = ch.pick(["0XA", "0Xa", "0B11", "0b1", "#1X", "#x1", "0bXX", " 2 ", "+3", "0x03"])
    a = R("A", [F("f", None, None, [EV([("a", X(val)), {"name": "b", "isDefault": ch.flag()}], name="V")],
                  bitRange=X(ch.pick(["[03:0]", " [3:0] ", "[0:3]"]))),
                F("g", None, None, [], bitOffset=X(num[1] if num[1][0] == "#" else "0X8"), bitWidth=X("+1")) if ch.flag() else
                F("g", X("0X8"), X("0x08"))],
          resetValue=X(num[0]), resetMask=X(num[1]))
    b = R("B", df="A", off=X(ch.pick(["0X40", "+64", "#1000000"])), description=ch.pick([None, "a  b\n c", "a\\nb"]))
    q = P("Q", [], df="P", base=X("0X10000"))
    return device([P("P", [b, a] if ch.flag() else [a, b]), q])


def cpu(ch):
    from ..pgen import RICH
    from .. import pm
    d = RICH.copy()
    d.v["peripherals"] = []
    d.v["size"] = 32
    x = pm.to_xml(d)
    return x.replace("<peripherals></peripherals>", "<peripherals>" + re.search(
        "<peripheral>.*</peripheral>", to_xml(full(ch)), re.S).group(0) + "</peripherals>")


def spaces(tier):
    run = lambda d, st: judge(to_xml(d), st)   # noqa: E731
    return [
        Space("full", full, run, key=to_xml, describe=to_xml, bound="everything that could be shared x six links"),
        Space("notations", notations, run, key=to_xml, describe=to_xml, bound="every notation of numbers, values, ranges"),
        Space("cpu", cpu, judge, bound="with device, cpu and security information"),
    ] + borrow.spaces(tier, judge, {"c11": ["interrupts"], "c05": ["nested"], "c07": ["inside"], "c12": ["width"], "c13": ["copies"],
                                    "c16": ["inherited"], "c08": ["fields"], "c04": ["missing"]}
                      if tier == "quick" else {**borrow.ALL, "c04": None, "c06": None})
