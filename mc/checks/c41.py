"""Where a parsed device comes from makes no difference to what is made of it."""
import copy
import dataclasses
import enum
import pickle

from .. import borrow, observe, pm
from ..core import Space, Violation
from ..doc import to_xml
from ..oracle import diff
from ..pgen import combos, counts, plus
from . import c32
from .c28 import full, notations

ASSUME = ["documents of the spaces of other checks; devices made of objects are made by the constructors, with every argument given or "
          "with only those that are not the default, with and without the links to containers, with equal parts in common or not"]


def rebuild(o, given=True, shared=None, links=False, owner=None):
    """the same out of constructors: all arguments or only the needed ones, equal parts once or every time, links or none"""
    if isinstance(o, list):
        return [rebuild(x, given, shared, links, owner) for x in o]
    if isinstance(o, tuple):
        return tuple(rebuild(x, given, shared, links, owner) for x in o)
    if not dataclasses.is_dataclass(o) or isinstance(o, enum.Enum):
        return o
    a = {}
    for f in dataclasses.fields(o):
        if f.name == "parent" or not f.init:
            continue
        v = getattr(o, f.name)
        default = f.default if f.default is not dataclasses.MISSING else (
            f.default_factory() if f.default_factory is not dataclasses.MISSING else dataclasses.MISSING)
        if not given and default is not dataclasses.MISSING and v == default:
            continue
        a[f.name] = rebuild(v, given, shared, links, None)
    new = type(o)(**a)
    if shared is not None:
        k = repr(observe.parsed(new))
        new = shared.setdefault(k, new)
    if links:
        for v in a.values():
            for c in v if isinstance(v, list) else [v]:
                if hasattr(c, "parent"):
                    c.parent = new
    return new


def again(o, pretty):
    from svdsuite import Parser, Serializer
    return Parser.from_xml_content(Serializer.device_to_svd_content(o, pretty_print=pretty)).get_parsed_device()


def as_text(o):
    from svdsuite import Parser, Serializer
    return Parser.from_xml_str(Serializer.device_to_svd_str(o)).get_parsed_device()


WAYS = [("copied", copy.deepcopy), ("pickled", lambda o: pickle.loads(pickle.dumps(o))), ("written and read", lambda o: again(o, True)),
        ("written as text and read", as_text),
        ("made of objects", rebuild), ("made of objects, defaults left out", lambda o: rebuild(o, False)),
        ("made of objects with links", lambda o: rebuild(o, False, None, True)),
        ("made of objects which are used several times", lambda o: rebuild(o, True, {})),
        ("made of objects with links which are used several times", lambda o: rebuild(o, True, {}, True))]


def twins(device, own):
    """every peripheral and every register or cluster at its top once more under another name, with the same parts or with copies"""
    d = copy.deepcopy(device)
    part = copy.deepcopy if own else lambda x: x

    def twin(o, **a):
        return dataclasses.replace(o, name="Tw" + o.name, **a, **{f.name: part(getattr(o, f.name)) for f in dataclasses.fields(o)
                                                                  if f.name not in a and f.name not in ("name", "parent")})
    for p in d.peripherals:
        p.registers_clusters = p.registers_clusters + [twin(r, address_offset=r.address_offset + 0x10000) for r in p.registers_clusters]
    d.peripherals = d.peripherals + [twin(p, base_address=(p.base_address or 0) + 0x10000000) for p in d.peripherals]
    return d


def outcome(o, parts):
    from svdsuite import PeripheralRegisterMap, Process, Serializer
    p = observe.call(lambda: Process(o, None))
    out = {"warnings": p.warns}
    if p.failed:
        out["error"] = [type(p.exc).__name__, str(p.exc)]
        return out
    dev = p.obj.get_processed_device()
    out["processed"] = observe.parsed(dev, ("parent", "parsed"))
    if parts:
        for what, fn in (("converted", lambda: observe.parsed(p.obj.convert_processed_device_to_svd_device())),
                         ("mapped", lambda: [[x.name if hasattr(x, "name") else repr(x) for x in vars(m).values()] and repr(m) and
                                             type(m).__name__ for m in [PeripheralRegisterMap(dev)]]),
                         ("serialized", lambda: Serializer.device_to_svd_content(o))):
            r = observe.call(fn)
            out[what] = [repr(r.exc)] if r.failed else r.obj
    return out


def judge(xml, st, ways=WAYS, parts=False):
    from svdsuite import Parser
    src = observe.call(lambda: Parser.from_xml_content(xml.encode() if isinstance(xml, str) else xml).get_parsed_device())
    if src.failed:
        return "rejected by the parser"
    a = outcome(src.obj, parts)
    st.execs += 1
    for what, way in ways:
        o = observe.call(lambda: way(src.obj))
        if o.failed:
            raise Violation(f"a parsed device cannot be {what}", error=f"{type(o.exc).__name__}: {o.exc}", xml=xml)
        if observe.parsed(o.obj) != observe.parsed(src.obj) and "written" in what:
            continue   # texts that XML does not keep: the subject of C21
        b = outcome(o.obj, parts)
        st.execs += 1
        x = diff(a, b) or (diff(b, a) if set(a) != set(b) else None)
        if x:
            raise Violation(f"a device that was {what} gives another result than the parsed one it equals", difference=x, xml=xml)
    a, b = [outcome(twins(src.obj, own), parts) for own in (True, False)]
    st.execs += 2
    if a != b:
        raise Violation("parts that stand in two places of a device give something else than equal parts", difference=diff(a, b), xml=xml)
    st.outcome(repr(a))
    return "rejected" if "error" in a else "ok"


QUICK = {"c02": ["ranges"], "c03": ["groups", "depth"], "c05": ["nested"], "c12": ["width"], "c39": ["two"],
         "c13": ["inherited", "refs"], "c14": None, "c16": ["inherited"], "c18": ["names", "alignment", "everything"], "c04": ["chains"]}


def spaces(tier):
    th = tier != "quick"

    def sp(name, gen, bound, key=to_xml, **kw):
        return Space(name, gen, lambda d, st: judge(key(d), st, WAYS, True), key=key, describe=key, bound=bound, **kw)
    out = [
        sp("full", full, "everything that could be shared x six links"),
        sp("plus", plus, "minimal document with one or two more attributes", pm.to_xml),
        sp("device", c32.device, "minimal document, any attribute (thorough: two) of device and processor set differently", pm.to_xml,
           budget=2 if th else 1),
        sp("combos", combos, "what can be said in several ways, said in every subset of them", pm.to_xml),
        sp("counts", lambda ch: counts(ch, 3), "numbers of blocks, interrupts, fields, enumerations", pm.to_xml),
    ]
    if th:
        out.append(sp("notations", notations, "every notation of numbers, values, ranges"))
    return out + borrow.spaces("quick", judge, QUICK if not th else {**borrow.ALL, "c04": None, "c06": None})
