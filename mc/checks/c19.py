"""Numbers, booleans and keywords of a document are read as what they say, or the document is rejected."""
import re

from .. import observe, pm
from ..core import Skip, Space, Violation
from ..oracle import diff
from ..pgen import *

ASSUME = ["numbers: decimal, hexadecimal and binary literals of the format; sign, scale suffixes and forms only Python "
          "knows (underscores, 0o) are outside the space"]
INTS = [("0", 0), ("1", 1), ("10", 10), ("010", 10), ("007", 7), ("0009", 9), ("0x1F", 31), ("0X1f", 31), ("0x010", 16),
        ("0xFFFFFFFF", 0xFFFFFFFF), ("0xdeadBEEF", 0xDEADBEEF), ("#101", 5), ("#0", 0), ("#00000011", 3), ("0b11", 3),
        ("4294967295", 0xFFFFFFFF), ("18446744073709551615", (1 << 64) - 1), ("0xFFFFFFFFFFFFFFFF", (1 << 64) - 1),
        (" 12 ", 12), ("\n0x12\t", 18), ("abc", BAD), ("0x", BAD), ("0xZ", BAD), ("#2", BAD), ("#", BAD), ("1.5", BAD),
        ("1 2", BAD), ("0b", BAD), ("0b2", BAD), ("12a", BAD), ("1e3", BAD), ("true", BAD)]
CHARS = [chr(c) for c in range(32, 127) if chr(c) not in "_-oO"] + list("\té\u03b1\u2212\uff21")
BOOLS = [("true", True), ("false", False), ("1", True), ("0", False), ("True", True), ("FALSE", False), (" true ", True),
         ("yes", BAD), ("2", BAD), ("tru", BAD), ("10", BAD), ("on", BAD), ("truefalse", BAD)]
OFF = 3


def judge(d, st, bad=False):
    xml = pm.to_xml(d)
    r = observe.call(lambda: parse(xml))
    st.execs += 1
    if bad:
        if not r.failed:
            raise Violation("a malformed value was accepted", xml=xml)
        return "rejected"
    if r.failed:
        raise Violation("a well-formed value was rejected", error=f"{type(r.exc).__name__}: {r.exc}", xml=xml)
    for t in unknown(d):
        if not any(t.strip() in m for _, m in r.warns):
            raise Violation("an unknown access is dropped without a warning", text=t, xml=xml)
    got = observe.parsed(r.obj)
    st.outcome(repr(got))
    x = diff(pm.expect(d), got)
    if x:
        raise Violation("a value was not read as what it says", difference=x, xml=xml)
    return "ok"


def _sites(types):
    return by_kind(sites(RICH, types))


def integers(ch):
    s = ch.pick(_sites(("i",)))
    t, v = ch.pick(INTS)
    d = RICH.copy()
    n = node(d, s[0])
    n.v[s[2]] = T(t, v)
    return d


def ranges(ch):
    d = RICH.copy()
    for n in d.walk():
        if n.kind == "writeConstraint" and "range_" in n.v:
            a, b = T(*ch.pick(INTS)), T(*ch.pick(INTS[:8] + INTS[-3:]))
            n.v["range_"] = (a, b)
            return d
    raise AssertionError


def booleans(ch):
    s = ch.pick(_sites(("b", "@b")))
    d = RICH.copy()
    t = ch.pick(BOOLS)
    node(d, s[0]).v[s[2]] = T(*t)
    return d


def keywords(ch):
    s = ch.pick(by_kind([x for x in sites(RICH) if x[4].lstrip("@") in ENUMS]))
    typ = s[4].lstrip("@")
    forms = [(v, v) for v in ENUMS[typ]] + [(f" {ENUMS[typ][0]} ", ENUMS[typ][0]), (ENUMS[typ][-1] + "x", BAD),
                                            ("bogus", BAD), ("-", BAD)]
    if typ == "access":
        forms = [(v, v) for v in ENUMS[typ]] + [(v.upper(), v) for v in ENUMS[typ]] + [
            (v.lower(), v) for v in ENUMS[typ]] + [("read", "read-only"), ("write", "write-only"), ("Write", "write-only"),
                                                   ("bogus", None), ("readonly", None), ("read_only", None)]
    if typ == "cpuname":
        forms = [(t, v) for t, v in forms if t != "bogus"] + [("CM99", BAD), ("Cortex-M4", BAD)]
    d = RICH.copy()
    node(d, s[0]).v[s[2]] = T(*ch.pick(forms))
    return d


def reference(t):
    t = t.strip()
    sign = "+" if t[:1] == "+" else ""
    b = t[len(sign):]
    if re.fullmatch(r"0[xX][0-9a-fA-F]+", b):
        return int(b[2:], 16)
    if re.fullmatch(r"[0-9]+", b):
        return int(b, 10)
    if re.fullmatch(r"#[01]+", b):
        return int(b[1:], 2)
    if re.fullmatch(r"0[bB][01]+", b):
        return int(b[2:], 2)
    if "#" in b[1:]:
        return None
    return BAD


def strings(alphabet, n, py="base_address"):
    def gen(ch):
        s = "".join(ch.pick(alphabet) for _ in range(1 + ch.n(n)))
        v = reference(s)
        d = SMALL.copy()
        p = d.v["peripherals"][0]
        if v is not None and s.strip():
            p.v[py] = T(s, v)
        return d
    return gen


def characters(ch):
    """a literal with one character put in, in place of another or taken out, anywhere"""
    t = ch.pick(["0x1F", "17", "#101", "0b11", "0"])
    k = ch.n(len(t) + 1)
    how = ch.n(2)
    c = ch.pick(CHARS)
    s = t[:k] + c + t[k + how:]
    if not s:
        raise Skip
    d = SMALL.copy()
    v = reference(s)
    if v is None or not s.strip():
        raise Skip
    py, ps = ch.pick([("base_address", False), ("address_offset", True)])
    n = d.v["peripherals"][0]
    n = n.v["registers_clusters"][0] if ps else n
    n.v[py] = T(s, v)
    return d


def unknown(d):
    return [v.text for n in d.walk() for v in n.v.values() if isinstance(v, T) and v.value is None]


def bad(d):
    for n in d.walk():
        for v in n.v.values():
            for x in (v if isinstance(v, tuple) else [v]):
                if isinstance(x, T) and x.value is BAD:
                    return True
    return False


def run(d, st):
    return judge(d, st, bad(d))


def spaces(tier):
    th = tier != "quick"

    def sp(name, gen, bound):
        return Space(name, gen, run, key=pm.to_xml, bound=bound, describe=pm.to_xml)
    return [
        sp("integers", integers, "every integer element of the format x literals"),
        sp("ranges", ranges, "pairs of range limits"),
        sp("booleans", booleans, "every boolean element and attribute x literals"),
        sp("keywords", keywords, "every keyword of every element"),
        sp("strings", strings("019fxX#b+", 6 if th else 4), "every string over 0 1 9 f x X # b + up to length "
           + ("6" if th else "4")),
        sp("characters", characters, "five literals with any character of ASCII and some others put in anywhere"),
        sp("digits", strings("0aA9", 6 if th else 5, "size"), "every string over 0 a A 9"),
    ]
