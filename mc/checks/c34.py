"""Model objects are values: equal content compares equal, different content does not; copies are complete and apart."""
import copy
import dataclasses
import pickle

from .. import borrow, observe, pm
from ..core import Skip, Space, Violation
from ..oracle import diff
from ..pgen import *
from .c38 import BASE

ASSUME = ["parsed devices derived from a full and a minimal document by up to two changes; processed and converted devices "
          "of the documents of other checks"]
WAYS = (("copy.deepcopy", copy.deepcopy), ("pickle", lambda o: pickle.loads(pickle.dumps(o))))


def view(o):
    return observe.parsed(o, ("parent", "parsed"))


def alike(a, b, want, what, xml):
    """a == b answers, and answers want"""
    for x, y in ((a, b), (b, a)):
        r = observe.call(lambda: (x == y, x != y))
        if r.failed:
            raise Violation(f"{what} cannot be compared", error=type(r.exc).__name__, xml=xml)
        if r.obj != (want, not want):
            raise Violation(f"{what} compare {'un' if want else ''}equal", xml=xml)


def kids(o):
    for f in dataclasses.fields(o):
        v = getattr(o, f.name)
        if f.name in ("parent", "parsed"):
            continue
        for c in v if isinstance(v, list) else [v]:
            if dataclasses.is_dataclass(c):
                yield c


def elements(o):
    yield o
    for c in kids(o):
        yield from elements(c)


def value(a, b, what, xml, st):
    """a and b stem from the same document"""
    alike(a, b, True, f"two {what}s of one document", xml)
    st.execs += 1
    for way, fn in WAYS:
        r = observe.call(lambda: fn(a))
        if r.failed:
            raise Violation(f"a {what} cannot be copied ({way})", error=f"{type(r.exc).__name__}: {r.exc}", xml=xml)
        alike(a, r.obj, True, f"a {what} and its copy ({way})", xml)
        x = diff(view(a), view(r.obj))
        if x:
            raise Violation(f"a copy of a {what} differs from it ({way})", difference=x, xml=xml)
        ids = {id(e) for e in elements(a)}
        if any(id(e) in ids for e in elements(r.obj)):
            raise Violation(f"a copy of a {what} shares an element with it ({way})", xml=xml)
        if hasattr(a, "schema_version"):
            parents(r.obj)
    r = observe.call(lambda: [repr(a), repr(b)])
    if r.failed or not all(isinstance(t, str) and t for t in r.obj):
        raise Violation(f"a {what} has no representation", error=repr(r.exc), xml=xml)
    for x, y in zip(elements(a), elements(b)):
        alike(x, y, True, f"corresponding elements of two {what}s", xml)


def run_parsed(d, st):
    xml = pm.to_xml(d)
    a, b = parse(xml), parse(xml)
    value(a, b, "parsed device", xml, st)
    for ref in (RICH, SMALL):
        o = parse(pm.to_xml(ref))
        alike(a, o, not diff(view(a), view(o)), "devices of two documents", xml)
    st.outcome(repr(view(a)))
    return "ok"


_made = {}


def two(kind):
    """two devices of a kind made independently; who changes one changes it back"""
    if kind not in _made:
        _made[kind] = made(kind), made(kind)
    return _made[kind]


def made(kind):
    """a fresh device of a kind"""
    from svdsuite import Process
    if kind in ("small", "rich"):
        return parse(pm.to_xml(SMALL if kind == "small" else RICH))
    if kind == "parsed":
        return parse(BASE)
    r = observe.call(lambda: Process.from_xml_content(BASE.encode()))
    if r.failed:
        raise Violation("the document is rejected", error=repr(r.exc), xml=BASE)
    return r.obj.get_processed_device() if kind == "processed" else r.obj.convert_processed_device_to_svd_device()


def edit(kinds):
    """one attribute of one element, changed in a copy: the copy and everything that contains the element differ now"""
    def gen(ch):
        kind = ch.pick(kinds)
        r = observe.call(lambda: len(list(elements(two(kind)[0]))))
        if r.failed:
            raise Skip
        return kind, ch.n(r.obj)
    return gen


def run_edit(case, st):
    kind, k = case
    a, b = two(kind)
    if len(list(elements(a))) <= k:
        raise Violation("a document gives different devices", kind=kind)
    mine = list(elements(a))[k]
    for f in dataclasses.fields(mine):
        e = list(elements(b))[k]
        v = getattr(e, f.name)
        if f.name == "parsed":
            continue
        if f.name == "parent":
            e.parent = None
            alike(a, b, True, "devices that differ in a link to the container only", kind)
            e.parent = v
            continue
        setattr(e, f.name, {str: "something else", int: 77777, bool: not v, list: v[1:] if isinstance(v, list) else v}.get(
            type(v), None if v is not None else "something else"))
        st.execs += 1
        if not (isinstance(v, list) and not v):
            alike(a, b, False, f"{kind} devices that differ in {type(e).__name__}.{f.name}", repr(v)[:200])
            alike(mine, e, False, f"{kind} elements that differ in {type(e).__name__}.{f.name}", repr(v)[:200])
        setattr(e, f.name, v)
    return "ok"


def judge(xml, st):
    from svdsuite import Process
    r = observe.call(lambda: [Process.from_xml_content(xml.encode()) for _ in range(2)])
    st.execs += 2
    if r.failed:
        return "rejected"
    p, q = r.obj
    a, b = p.get_processed_device(), q.get_processed_device()
    value(a, b, "processed device", xml, st)
    value(p.convert_processed_device_to_svd_device(), q.convert_processed_device_to_svd_device(), "converted device", xml,
          st)
    st.outcome(repr(view(a)))
    return "ok"


def spaces(tier):
    th = tier != "quick"

    def sp(name, gen, bound):
        return Space(name, gen, run_parsed, key=pm.to_xml, bound=bound, describe=pm.to_xml)
    return [
        sp("without", lambda ch: without(ch, pairs=th), "full document without one (thorough: two) optional attributes"),
        sp("plus", plus, "minimal document with one or two more attributes"),
        sp("lists", lambda ch: lists(ch, short=not th), "lists of the full document emptied, cut, reversed, doubled"),
        sp("mixture", lambda ch: mixture(ch, 4 if th else 3), "sequences of registers and clusters"),
        sp("counts", lambda ch: counts(ch, 4 if th else 3), "numbers of blocks, interrupts, fields, enumerations"),
        Space("edit", edit(["small", "rich"]), run_edit, key=repr, bound="every attribute of every element changed"),
        Space("edit processed", edit(["parsed", "processed", "converted"]), run_edit, key=repr,
              bound="every attribute of every element of a parsed, processed and converted device changed"),
    ] + borrow.spaces("quick", judge, {
        "c28": ["full", "cpu"], "c05": ["nested"], "c13": ["copies"], "c12": ["width"],
        **({"c05": ["nested", "single"], "c07": ["fields"], "c11": ["mixed"], "c02": None, "c10": None} if th else {})})
