"""What is not well-formed is never taken for a document in silence, and what is, is never repaired."""
import os
import re
import tempfile
import xml.parsers.expat as X

from .. import observe, pm
from ..core import Space, Violation
from ..pgen import *

ASSUME = ["torn and corrupted copies of a minimal (thorough: also a full) document: every truncation point, every "
          "single-byte change to a byte that matters in XML, every deletion, duplication and exchange of neighbours",
          "well-formedness is judged by expat"]


def _expat(data, encoding=None):
    p = X.ParserCreate(encoding, namespace_separator=" ")
    try:
        p.Parse(data, True)
        return True
    except (X.ExpatError, ValueError, LookupError):
        return False


def well_formed(data):
    """True, False, or None where it depends on an encoding expat does not know"""
    if _expat(data):
        return True
    m = re.match(rb"<\?xml[^>]*encoding\s*=\s*[\"']([^\"'>]*)", data)
    if m and m.group(1).lower() not in (b"utf-8", b"utf-16", b"iso-8859-1", b"us-ascii"):
        return None if _expat(data, "utf-8") or _expat(data, "iso-8859-1") else False
    return False


BASES = None


def bases():
    global BASES
    if BASES is None:
        s = SMALL.copy()
        s.v["description"] = pm.T('é <![CDATA[ & ]]>&#65;<!-- c -->', 'é  & A', raw=True)
        BASES = [("<?xml version='1.0' encoding='utf-8'?>\n" + pm.to_xml(s)).encode(),
                 pm.to_xml(SMALL).replace("><", ">\n<").encode(),
                 pm.to_xml(RICH).encode(),
                 b"\xff\xfe" + ("<?xml version='1.0' encoding='utf-16'?>" + pm.to_xml(SMALL)).encode("utf-16-le")]
    return BASES


def entry(data, how):
    from svdsuite import Parser, PeripheralRegisterMap, Process, Validator
    if how == "content":
        return observe.call(lambda: Parser.from_xml_content(data).get_parsed_device())
    if how == "process":
        return observe.call(lambda: Process.from_xml_content(data).get_processed_device())
    if how == "map":
        return observe.call(lambda: PeripheralRegisterMap.from_xml_content(data))
    if how == "validate":
        return observe.call(lambda: Validator.validate_xml_content(data, get_exception=False) or None)
    if how == "str":
        t = data.decode()
        return observe.call(lambda: Parser.from_xml_str(t).get_parsed_device())
    fd, path = tempfile.mkstemp(suffix=".svd")
    try:
        os.write(fd, data)
        os.close(fd)
        if how == "validate file":
            return observe.call(lambda: Validator.validate_xml_file(path, get_exception=False) or None)
        if how == "process file":
            return observe.call(lambda: Process.from_svd_file(path).get_processed_device())
        return observe.call(lambda: Parser.from_svd_file(path).get_parsed_device())
    finally:
        os.unlink(path)


HOW = ["content", "file", "validate", "process", "validate file", "map", "str", "process file"]


def judge(c, st):
    data, how = c
    if how == "str":
        try:
            ok = well_formed(data.decode().encode())
        except UnicodeDecodeError:
            return "no text"
    else:
        ok = well_formed(data)
    r = entry(data, how)
    st.execs += 1
    reported = any(c == "ParserWarning" for c, _ in r.warns)
    if isinstance(r.exc, (RecursionError, MemoryError, SystemError)):
        raise Violation("a damaged document exhausts a resource", entry=how, document=data, error=repr(r.exc))
    st.outcome(repr((ok, type(r.exc).__name__, reported, observe.parsed(r.obj) if how == "content" and r.obj else 0)))
    if ok is False and r.obj is not None and not reported:
        raise Violation("a document that is not well-formed was accepted in silence", entry=how, document=data,
                        got=repr(r.obj)[:2000])
    if ok is None:
        return "unknown encoding"
    return ("well-formed, " if ok else "damaged, ") + ("accepted" if r.obj is not None else "refused") + (
        " with report" if reported and r.obj is not None else "")


def describe(c):
    return f"{c[1]}: {c[0]!r}"


def truncated(which, hows):
    def gen(ch):
        b = bases()[which]
        return b[:ch.n(len(b))], ch.pick(hows)
    return gen


def changed(which, hows, to, every=1):
    def gen(ch):
        b = bases()[which]
        i = ch.n(len(b))
        return b[:i] + bytes([ch.pick(to)]) + b[i + 1:], ch.pick(hows)
    return gen


def edited(which, hows):
    def gen(ch):
        b = bases()[which]
        i = ch.n(len(b))
        k = ch.n(5)
        if k == 0:
            d = b[:i] + b[i + 1:]
        elif k == 1:
            d = b[:i] + b[i:i + 1] + b[i:]
        elif k == 2:
            d = b[:i] + b[i + 1:i + 2] + b[i:i + 1] + b[i + 2:]
        elif k == 3:
            d = b[:i] + b"<" + b[i:]
        else:
            d = b[i:]
        return d, ch.pick(hows)
    return gen


def torn(hows, block):
    """a write of a new document over an old one that stopped at a block boundary, over longer and shorter old content"""
    def gen(ch):
        new, old = bases()[1], ch.pick([bases()[0], bases()[2], b"\0" * 5000, b"", bases()[1][:300]])
        cut = ch.n(len(new) // block + 1) * block
        return new[:cut] + old[cut:], ch.pick(hows)
    return gen


def joined(ch):
    """two documents in a row, rubbish before and after"""
    a = ch.pick(bases()[:2])
    pre = ch.pick([b"", b"x", b"\0", b"<a/>", b" ", b"\n", b"\xef\xbb\xbf", b"\xff\xfe", b"<?xml version='1.0'?>"])
    post = ch.pick([b"", b"x", b"\0", b"<a/>", b"\n", b"&", a, b"</device>", b"<!-- ", b"<!-- c -->"])
    return pre + a + post, ch.pick(HOW)


def spaces(tier):
    th = tier != "quick"
    bases()
    h2 = HOW[:4]
    to = list(b"<>&\"'/ ax0;#!?=]-") + [0, 1, 0x80, 0xC3, 0xFF]

    def sp(name, gen, bound):
        return Space(name, gen, judge, key=describe, bound=bound, describe=describe)
    out = [
        sp("truncated", truncated(0, HOW), "every prefix of the minimal document x 8 entry points"),
        sp("truncated lines", truncated(1, h2), "every prefix, with line breaks"),
        sp("truncated wide", truncated(3, h2), "every prefix in UTF-16"),
        sp("changed", changed(0, HOW if th else ["content"], to if th else to[:17] + to[-3:]), "every byte x bytes that matter"),
        sp("edited", edited(0, HOW if th else h2), "deletions, duplications, exchanges, suffixes"),
        sp("torn", torn(HOW if th else h2, 1 if th else 16), "torn overwrites"),
        sp("joined", joined, "rubbish before and after"),
    ]
    if th:
        out += [sp("truncated rich", truncated(2, ["content"]), "every prefix of the full document"),
                sp("all bytes", changed(1, ["content"], list(range(256))), "every byte x every byte"),
                sp("edited wide", edited(3, ["content"]), "UTF-16")]
    return out
