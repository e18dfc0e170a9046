"""The parsed device says what the document says, nothing else and nothing less."""
import re

from .. import observe, pm
from ..core import Space, Violation
from ..oracle import diff
from ..pgen import *

ASSUME = ["documents derived from a full and a minimal one by up to two changes; sequences of registers and clusters up "
          "to the stated length"]
XS = 'xmlns:{p}="http://www.w3.org/2001/XMLSchema-instance" {p}:noNamespaceSchemaLocation="{l}" schemaVersion="{v}"'


class Case:
    def __init__(self, doc, bad=False, warn=None, xml=None):
        self.doc, self.bad, self.warn = doc, bad, warn
        self.xml = xml or pm.to_xml(doc)


def run_ways(c, st):
    """through bytes, text and a file"""
    for how in ("content", "str", "file"):
        if how == "str" and re.match(r"<\?xml[^>]*encoding", c.xml):
            continue   # text with an encoding declaration
        label = run(c, st, how)
    return label


def run(c, st, how="content"):
    r = observe.call(lambda: parse(c.xml, how))
    st.execs += 1
    if c.bad:
        if not r.failed:
            raise Violation("a document without a mandatory element was accepted", xml=c.xml)
        return "rejected"
    if r.failed:
        raise Violation("a well-formed document was rejected", error=f"{type(r.exc).__name__}: {r.exc}", xml=c.xml)
    got = observe.parsed(r.obj)
    st.outcome(repr(got))
    x = diff(pm.expect(c.doc), got)
    if x:
        raise Violation("the parsed device differs from the document", difference=x, xml=c.xml)
    parents(r.obj)
    ws = [w for w in r.warns if w[0] == "ParserWarning"]
    if c.warn is True and not ws:
        raise Violation("a deviation from the format was not reported", xml=c.xml)
    if c.warn is False and ws:
        raise Violation("a warning was issued although nothing is wrong", warnings=ws, xml=c.xml)
    return "ok with warning" if c.warn else "ok"


def texts(ch):
    d = values(ch)
    return Case(d)


def markup(ch):
    """comments, processing instructions, CDATA and character references inside a text"""
    sts = by_kind([s for s in sites(RICH) if s[4] in ("s", "r")])
    s = ch.pick(sts)
    d = RICH.copy()
    x, v = ch.pick([("a<!-- c -->b", "ab"), ("<!-- c -->ab", "ab"), ("ab<?pi x?>", "ab"), ("<![CDATA[a<b]]>", "a<b"),
                    ("a<![CDATA[ & ]]>b", "a & b"), ("&#65;&#x42;", "AB"), ("a&lt;b&amp;c", "a<b&c"),
                    ("<!-- 1 --><?p?><!-- 2 -->x<!-- 3 -->", "x"), ("a<?pi x?>b", "ab"),
                    ("a<!-- 1 -->b<?p q?>c<![CDATA[<]]>&gt;d", "abc<>d")])
    node(d, s[0]).v[s[2]] = T(x, v, raw=True)
    return Case(d, warn=False)


def repeated(ch):
    """an element that is given more than once: the last one counts, and it is reported"""
    sts = by_kind([s for s in sites(RICH) if s[4][0] != "@" and s[4] != "range"])
    s = ch.pick(sts)
    d = RICH.copy()
    n = node(d, s[0])
    typ = s[4]
    other = {"i": "99", "b": "true", "s": "other", "r": "other", "access": "bogus"}.get(typ) or "bogus"
    n.pre[s[2]] = f"<{s[3]}>{other}</{s[3]}>" * (1 + ch.n(2))
    if typ in ("s", "r") and ch.flag():
        n.pre[s[2]] = f"<{s[3]}/>"
    if (s[1], s[2]) not in (("device", "description"), ("interrupt", "value"), ("addressBlock", "offset")) and ch.flag():
        # the last one is empty: none
        n.pre[s[2]] += ch.pick([f"<{s[3]}/>", f"<{s[3]}><!-- no --></{s[3]}>"])
        n.v.pop(s[2])
        mandatory = any(x[:3] == s[:3] for x in sites(RICH, mandatory=True))
        return Case(d, warn=None if mandatory else True, bad=mandatory)
    return Case(d, warn=True)


def missing(ch):
    """a mandatory element is missing (or empty)"""
    sts = by_kind([s for s in sites(RICH, mandatory=True) if s[4] != "@*"])
    s = ch.pick(sts)
    d = RICH.copy()
    n = node(d, s[0])
    v = n.v.pop(s[2])
    if ch.flag():
        n.pre[s[2]] = f"<{s[3]}></{s[3]}>"
    key = (s[1], s[2])
    if key == ("device", "description"):
        n.v[s[2]] = T("", "", raw=True)
        xml = pm.to_xml(d)
        if not n.pre:
            xml = xml.replace("<description></description>", "", 1)
        return Case(d, warn=True, xml=xml if n.pre == {} else xml.replace("<description></description>", "", 1))
    if key == ("interrupt", "value"):
        e = d.copy()
        node(e, s[0]).v["value"] = 0
        return Case(e, warn=True, xml=pm.to_xml(d))
    if key == ("addressBlock", "offset"):
        e = d.copy()
        node(e, s[0]).v["offset"] = 0
        return Case(e, xml=pm.to_xml(d))
    n.v.pop(s[2], None)
    return Case(d, bad=True)


def splits(ch, k):
    """registers in several <registers>, fields in several <fields>, with foreign elements and comments in between"""
    d = SMALL.copy()
    p = d.v["peripherals"][0]
    r = p.v["registers_clusters"][0]
    noise = ["", "<!-- c -->", "<?pi?>", "<foreign><register><name>no</name></register></foreign>"]
    regs = [N("register", name=f"r{i}", address_offset=4 * i) if ch.flag() else
            N("cluster", name=f"c{i}", address_offset=4 * i, description="d",
              registers_clusters=[N("register", name="q", address_offset=0)]) for i in range(ch.n(k + 1))]
    fields = [N("field", name=f"f{i}", lsb=i, msb=i) for i in range(ch.n(k))]
    r.v["fields"] = fields
    p.v["registers_clusters"] = [r] + regs

    def parts(items, tag, render):
        if not items:
            return ""
        out = f"<{tag}>" + render(items[0])
        for x in items[1:]:
            out += (f"</{tag}>{nz}<{tag}>" if ch.flag() else nz) + render(x)
        return out + f"</{tag}>"
    nz = ch.pick(noise)
    fx = parts(fields, "fields", pm.to_xml)
    blank = r.copy()
    blank.v["fields"] = []
    rx = pm.to_xml(blank).replace("</register>", fx + "</register>")
    px = parts([r] + regs, "registers", lambda n: rx if n is r else pm.to_xml(n))
    e = d.copy()
    e.v["peripherals"][0].v["registers_clusters"] = []
    e.v["peripherals"][0].pre["registers_clusters"] = "@@@"
    return Case(d, warn=False, xml=pm.to_xml(e).replace("@@@", px + nz))


def root(ch):
    """attributes of the device element, prolog"""
    d = SMALL.copy()
    loc = ch.pick(["CMSIS-SVD.xsd", "x y", None])
    ver = ch.pick(["1.3", "1.1", "2.0", None])
    pre = ch.pick(["xs", "xsi"])
    d.attrs = XS.format(p=pre, l=loc, v=ver)
    if loc is None:
        d.attrs = f'schemaVersion="{ver}"'
    if ver is None:
        d.attrs = d.attrs.replace(' schemaVersion="None"', "").replace('schemaVersion="None"', "id='x'")
    d.v["xs_no_namespace_schema_location"] = loc or ""
    d.v["schema_version"] = ver
    prolog = ch.pick(["", "<?xml version='1.0'?>", '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n\n',
                      "<?xml version='1.0' encoding='utf-8'?><!-- license --><?pi x?>\n"])
    c = Case(d, bad=ver is None, warn=loc is None)
    c.xml = prolog + c.xml + ch.pick(["", "\n\n", "<!-- end -->"])
    return c


def spaces(tier):
    th = tier != "quick"

    def sp(name, gen, bound, run=run):
        return Space(name, gen, run, key=lambda c: c.xml, bound=bound, describe=lambda c: c.xml)
    return [
        sp("without", lambda ch: Case(without(ch, pairs=th), warn=False), "full document without one (thorough: two) "
           "optional attributes"),
        sp("plus", lambda ch: Case(plus(ch), warn=False), "minimal document with one or two more attributes"),
        sp("texts", texts, "every attribute x special values"),
        sp("markup", markup, "every text element x markup inside x bytes, text, file", run_ways),
        sp("repeated", repeated, "every element given more than once"),
        sp("missing", missing, "every mandatory element missing or empty"),
        sp("mixture", lambda ch: Case(mixture(ch, 4 if th else 3), warn=False), "sequences of registers and clusters"),
        sp("counts", lambda ch: Case(counts(ch, 4 if th else 3), warn=False), "numbers of blocks, interrupts, fields, "
           "enumerations"),
        sp("lists", lambda ch: Case(lists(ch, th), warn=False), "every list of the full document emptied, cut, reversed, "
           "doubled, with an attribute (thorough: two) removed"),
        sp("splits", lambda ch: splits(ch, 4 if th else 3), "several containers, foreign elements between"),
        sp("root", root, "root attributes and prolog x bytes, text, file", run_ways),
        sp("combos", lambda ch: Case(combos(ch)), "what can be said in several ways, said in every subset of them", run_ways),
    ]
