"""A processed device, converted back and written, processes to the same device again."""
import re

from .. import borrow, observe
from ..core import Space, Violation
from ..doc import to_xml
from ..gen import attributes
from ..oracle import diff
from ..pgen import parents, parse
from ..xsd import VERSIONS, doc, failing

ASSUME = ["the documents of the spaces of other checks; documents that are rejected, or of which "
          "no peripheral remains, say nothing here"]


def dump(o):
    return observe.parsed(o, ("parent", "parsed"))


def sizeless(d):
    """without the sizes of containers: one that was ignored for want of content still took part in the adjustment"""
    if isinstance(d, dict):
        return {k: sizeless(v) for k, v in d.items() if not (k == "size" and d["__"] in ("Peripheral", "Cluster"))}
    return [sizeless(x) for x in d] if isinstance(d, list) else d


NAME = re.compile(r"[_A-Za-z][_A-Za-z0-9]*")


def named(d):
    """all names below are identifiers: a dim index in front of a name may have made one begin with a digit"""
    if isinstance(d, dict):
        return all(NAME.fullmatch(v) if k == "name" and isinstance(v, str) else named(v) for k, v in d.items())
    return all(named(x) for x in d) if isinstance(d, list) else True


def judge(xml, st):
    from svdsuite import Process, Serializer
    r = observe.call(lambda: Process.from_xml_content(xml.encode()))
    st.execs += 1
    if r.failed:
        return "rejected"
    proc = r.obj
    one = dump(proc.get_processed_device())
    same = sizeless if any(w[0] == "ProcessWarning" for w in r.warns) else lambda t: t
    if not proc.get_processed_device().peripherals:
        return "nothing is left of the device"
    c = observe.call(proc.convert_processed_device_to_svd_device)
    if c.failed:
        raise Violation("a processed device could not be converted", error=repr(c.exc), xml=xml)
    conv = c.obj
    as_is = dump(conv)
    parents(conv)
    s = observe.call(lambda: Serializer.device_to_svd_content(conv))
    st.execs += 2
    if s.failed:
        raise Violation("a converted device could not be serialized", error=repr(s.exc), xml=xml)
    b = observe.call(lambda: parse(s.obj))
    if b.failed:
        raise Violation("a converted and serialized device was rejected by the parser", error=repr(b.exc), xml=xml,
                        output=s.obj)
    x = diff(as_is, dump(b.obj))
    if x:
        raise Violation("a converted device changed on its way through a file", difference=x, xml=xml, output=s.obj)
    e = failing(doc(s.obj), VERSIONS[-1])
    if e and named(one) and not failing(doc(xml.encode()), VERSIONS[-1]):
        raise Violation(f"a converted device is not valid under schema {VERSIONS[-1]} although its document is", error=e,
                        xml=xml, output=s.obj)
    for how, fn in (("converted", lambda: Process(conv, None)),
                    ("converted and written", lambda: Process.from_xml_content(s.obj))):
        t = observe.call(fn)
        st.execs += 1
        if t.failed:
            raise Violation(f"a {how} device was rejected", error=f"{type(t.exc).__name__}: {t.exc}", xml=xml,
                            output=s.obj)
        x = diff(same(one), same(dump(t.obj.get_processed_device())))
        if x:
            raise Violation(f"a {how} device processes to something else", difference=x, xml=xml, output=s.obj)
    if dump(proc.get_processed_device()) != one:
        raise Violation("converting changed the processed device", xml=xml)
    st.outcome(repr(one))
    return "ok"


def spaces(tier):
    th = tier != "quick"
    own = [Space("attributes", lambda ch: to_xml(attributes(ch, th)), judge, key=lambda x: x,
                 bound="one attribute (thorough: two) of every kind and value on every element of every tree shape")]
    return (own + borrow.spaces(tier, judge, borrow.LIGHT if tier == "quick" else borrow.ALL)
            + borrow.spaces("quick", judge, {"c32": ["device", "full"], "c28": ["full", "cpu"]}))
