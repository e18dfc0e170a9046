"""A serialized device satisfies every schema version its document satisfied."""
from .. import observe, pm
from ..core import Space, Violation
from ..pgen import *
from ..xsd import VERSIONS, doc, failing

ASSUME = ["the schemas are the copies of the published ones in mc/schema, judged by libxml2",
          "documents derived from a full and a minimal one by up to two changes"]


def judge(obj, ok, st, src):
    from svdsuite import Serializer
    for pretty in (False, True):
        r = observe.call(lambda: Serializer.device_to_svd_content(obj, pretty_print=pretty))
        st.execs += 1
        if r.failed:
            raise Violation("a device could not be serialized", error=repr(r.exc), source=src)
        t = doc(r.obj)
        for v in ok:
            e = failing(t, v)
            if e:
                raise Violation(f"the serialized device is not valid under schema {v} although its document is",
                                error=e, source=src, output=r.obj)


def run(d, st):
    xml = pm.to_xml(d)
    t = doc(xml.encode())
    ok = [v for v in VERSIONS if not failing(t, v)]
    if not ok:
        return "valid under no schema"
    r = observe.call(lambda: parse(xml))
    st.execs += 1
    if r.failed:
        raise Violation("a schema-valid document was rejected by the parser", error=repr(r.exc), xml=xml)
    judge(r.obj, ok, st, xml)
    if all(not isinstance(x, T) for n in d.walk() for x in n.v.values()):
        judge(pm.build(d), ok, st, xml)
    st.outcome(repr(ok))
    return f"valid under {len(ok)} schemas, least {ok[0]}"


def old(ch):
    """documents for the schemas before 1.3: elements that later ones renamed or added removed, old attributes"""
    d = SMALL.copy()
    v, d.v["xs_no_namespace_schema_location"] = ch.pick(["1.0", "1.1", "1.2", "1.3"]), "CMSIS-SVD_Schema_1_1.xsd"
    d.v["schema_version"] = v
    d.attrs = (f'xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation='
               f'"CMSIS-SVD_Schema_1_1.xsd" schemaVersion="{v}"')
    p = d.v["peripherals"][0]
    r, c = p.v["registers_clusters"]
    if ch.flag():
        d.v["cpu"] = None
    if ch.flag():
        p.v["registers_clusters"] = [r]
    for n in (d, p, r):
        if ch.flag():
            n.v["size"], n.v["access"] = 32, "read-write"
        if ch.flag():
            n.v["reset_value"], n.v["reset_mask"] = 0, 255
    if ch.flag():
        r.v["description"] = p.v["description"] = "text"
    f = r.v["fields"][0]
    f.v["description"] = "text"
    k = ch.n(3)
    if k:
        del f.v["lsb"], f.v["msb"]
        f.v.update({"bit_range": "[1:0]"} if k == 1 else {"bit_offset": 0, "bit_width": 2})
    return d


def spaces(tier):
    th = tier != "quick"

    def sp(name, gen, bound):
        return Space(name, gen, run, key=pm.to_xml, bound=bound, describe=pm.to_xml)
    return [
        sp("without", lambda ch: without(ch, pairs=th), "full document without one (thorough: two) optional attributes"),
        sp("plus", plus, "minimal document with one or two more attributes"),
        sp("values", values, "every attribute x special values"),
        sp("mixture", lambda ch: mixture(ch, 4 if th else 3), "sequences of registers and clusters"),
        sp("lists", lambda ch: lists(ch, short=not th), "lists of the full document emptied, cut, reversed, doubled, with "
           "an attribute removed"),
        sp("counts", lambda ch: counts(ch, 4 if th else 3), "numbers of blocks, interrupts, fields, enumerations"),
        sp("old", old, "documents for old schemas"),
    ]
