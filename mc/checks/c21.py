"""Serializing a device and parsing the result gives the same device back, whatever the options."""
import os
import tempfile

from .. import observe, pm
from ..core import Space, Violation
from ..oracle import diff
from ..pgen import *

ASSUME = ["devices of at least one peripheral, as the format demands", "texts that XML can express, without leading or trailing blanks where the parser strips them, not empty",
          "devices parsed from documents, and devices made of objects, derived from a full and a minimal one by up to "
          "two changes"]
_tmp = []


def scratch():
    if not _tmp or _tmp[0][0] != os.getpid():
        _tmp[:] = [(os.getpid(), tempfile.mkdtemp(prefix="mc21."))]
        import atexit
        import shutil
        import multiprocessing.util as mu
        d = _tmp[0][1]
        mu.Finalize(None, lambda: shutil.rmtree(d, ignore_errors=True), exitpriority=1)
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _tmp[0][1]


def parse_any(data, how, st):
    r = observe.call(lambda: parse(data, how))
    st.execs += 1
    return r


def roundtrip(obj, want, st, src, files=True, combos=((False, False), (False, True), (True, False), (True, True))):
    from svdsuite import Serializer
    before = observe.parsed(obj)
    x = diff(want, before)
    if x:
        raise Violation("the device to serialize is not the one described", difference=x, source=src)
    outs = {}
    for pretty in (False, True):
        for decl in [x for p, x in combos if p == pretty]:
            r = observe.call(lambda: Serializer.device_to_svd_content(obj, pretty_print=pretty, xml_declaration=decl))
            st.execs += 1
            if r.failed:
                raise Violation("a device could not be serialized", error=f"{type(r.exc).__name__}: {r.exc}",
                                pretty=pretty, declaration=decl, source=src)
            outs[pretty, decl] = r.obj
            b = parse_any(r.obj, "content", st)
            if b.failed:
                raise Violation("a serialized device was rejected by the parser", output=r.obj, source=src,
                                error=f"{type(b.exc).__name__}: {b.exc}")
            x = diff(want, observe.parsed(b.obj))
            if x:
                raise Violation("a device changed on its way through a file", difference=x, output=r.obj, source=src,
                                pretty=pretty, declaration=decl)
            if [w for w in b.warns if w[0] == "ParserWarning"]:
                raise Violation("parsing a serialized device raises warnings", warnings=b.warns, output=r.obj)
            again = Serializer.device_to_svd_content(b.obj, pretty_print=pretty, xml_declaration=decl)
            if again != r.obj:
                raise Violation("serializing the same device twice gives different bytes", first=r.obj, second=again)
        r = observe.call(lambda: Serializer.device_to_svd_str(obj, pretty_print=pretty))
        st.execs += 1
        if r.failed or not isinstance(r.obj, str):
            raise Violation("a device could not be serialized to text", error=repr(r.exc), source=src)
        b = parse_any(r.obj, "str", st)
        x = "rejected: " + repr(b.exc) if b.failed else diff(want, observe.parsed(b.obj))
        if x:
            raise Violation("a device changed on its way through a text", difference=x, output=r.obj, source=src)
    if files:
        for (pretty, decl), content in outs.items():
            path = os.path.join(scratch(), "d.svd")
            with open(path, "wb") as f:
                f.write(b"old " * len(content) if pretty else b"")
            r = observe.call(lambda: Serializer.device_to_svd_file(path, obj, pretty, decl))
            st.execs += 1
            if r.failed:
                raise Violation("a device could not be written", error=repr(r.exc), source=src)
            with open(path, "rb") as f:
                data = f.read()
            if data != content:
                raise Violation("a file differs from the content serialized with the same options", source=src,
                                file=data, content=content)
    if observe.parsed(obj) != before:
        raise Violation("serializing changed the device", before=before, after=observe.parsed(obj), source=src)
    parents(obj)


def run_some(d, st):
    """two of the four combinations of options"""
    return run_parsed(d, st, False, combos=((False, False), (True, True)))


def run_parsed(d, st, files=True, **kw):
    xml = pm.to_xml(d)
    r = observe.call(lambda: parse(xml))
    if r.failed:
        raise Violation("a well-formed document was rejected", error=repr(r.exc), xml=xml)
    roundtrip(r.obj, pm.expect(d), st, xml, files, **kw)
    return "ok"


def run_built(d, st):
    roundtrip(pm.build(d), pm.expect(d), st, pm.to_xml(d), False)
    return "ok"


def sources(ch, how, *a):
    return how(ch, *a)


def empty(ch):
    """a device without peripherals, elements without children"""
    d = SMALL.copy()
    ps = d.v["peripherals"]
    if ch.flag():
        d.v["cpu"] = None
    p = ps[0]
    r = p.v["registers_clusters"][0]
    f = r.v["fields"][0]
    k = ch.n(6)
    if k == 1:
        p.v["registers_clusters"] = []
    if k == 2:
        r.v["fields"] = []
    if k == 3:
        f.v["enumerated_value_containers"] = []
    if k == 4:
        f.v["enumerated_value_containers"][0].v["enumerated_values"] = []
    if k == 5:
        p.v["registers_clusters"][1].v["registers_clusters"] = []
    if ch.flag():
        p.v["address_blocks"] = []
    if ch.flag():
        p.v["interrupts"] = []
    if ch.flag():
        d.v["cpu"] = SMALL.v["cpu"].copy()
        d.v["cpu"].v["sau_regions_config"] = N("sauRegionsConfig", regions=[])
    return d


def edited(ch):
    """a parsed device whose objects are edited afterwards"""
    base = RICH if ch.flag() else SMALL
    i = ch.n(len(OPTIONAL) if base is RICH else len(ADDABLE))
    return ("rich" if base is RICH else "small", i)


def run_edited(case, st):
    which, i = case
    base = RICH if which == "rich" else SMALL
    obj = parse(pm.to_xml(base))
    d = base.copy()
    if which == "rich":
        k, py = OPTIONAL[i][0], OPTIONAL[i][2]
        node(d, k).v.pop(py)
        setattr(locate(obj, k), py, None)
    else:
        k, py, v = ADDABLE[i]
        node(d, k).v[py] = v
        t = locate(obj, k)
        full = d.copy()
        src = locate(pm.build(full), k)
        setattr(t, py, getattr(src, py))
        x = getattr(t, py)
        if hasattr(x, "parent"):
            x.parent = t
    roundtrip(obj, pm.expect(d), st, f"{which} {py}", False)
    return "ok"


def order(n):
    """the nodes of a document in the order N.walk visits them, as attribute paths"""
    yield ()
    for a, x in n.v.items():
        for i, c in (enumerate(x) if isinstance(x, list) else [(None, x)] if isinstance(x, N) else []):
            for p in order(c):
                yield ((a, i),) + p


_paths = {}


def locate(obj, k):
    key = "small" if len(obj.peripherals) == 1 else "rich"
    if key not in _paths:
        _paths[key] = list(order(SMALL if key == "small" else RICH))
    for a, i in _paths[key][k]:
        obj = getattr(obj, a) if i is None else getattr(obj, a)[i]
    return obj


def spaces(tier):
    th = tier != "quick"

    def sp(name, gen, run, bound):
        return Space(name, gen, run, key=pm.to_xml, bound=bound, describe=pm.to_xml)
    return [
        sp("without", lambda ch: without(ch, pairs=th), run_parsed, "full document without one (thorough: two) optional "
           "attributes"),
        sp("plus", plus, run_parsed if th else run_some, "minimal document with one or two more attributes"),
        sp("values", values, run_parsed, "every attribute x special values"),
        sp("mixture", lambda ch: mixture(ch, 4 if th else 3), run_parsed, "sequences of registers and clusters"),
        sp("lists", lambda ch: lists(ch, short=not th), run_parsed, "lists of the full document emptied, cut, reversed, doubled, with "
           "an attribute removed"),
        sp("counts", lambda ch: counts(ch, 4 if th else 3), run_parsed, "numbers of blocks, interrupts, fields, "
           "enumerations"),
        sp("combos", combos, run_parsed, "what can be said in several ways, said in every subset of them"),
        sp("built combos", combos, run_built, "the same, objects made without the parser"),
        sp("empty", empty, run_parsed, "elements without children"),
        sp("built values", values, run_built, "objects made without the parser x special values"),
        sp("built without", lambda ch: without(ch, pairs=False), run_built, "objects made without the parser"),
        Space("edited", edited, run_edited, bound="a parsed device of which one attribute is set or removed"),
    ]
