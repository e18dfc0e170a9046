"""It makes no difference through which entry point, in which encoding a document comes in."""
import os
import tempfile

from .. import observe, pm
from ..core import Space, Violation
from ..oracle import diff
from ..pgen import *

ASSUME = ["declared encodings: UTF-8, UTF-16, ISO-8859-1, Windows-1252, ASCII; undeclared: Windows-1252 and bytes it "
          "does not define", "characters: every printable one up to U+00FF and samples of every UTF-8 length"]
CHARS = [chr(c) for c in range(0xA0, 0x100)] + ["€", "Š", "—", "Ā", "߿", "ࠀ", "漢", "퟿", "�", "😀", "𐀀", "\u2028",
                                                "\u0301"]
# (python codec, declared name, byte order mark)
ENC = [("utf-8", "UTF-8", b""), ("utf-8", None, b""), ("utf-8", "utf-8", b"\xef\xbb\xbf"), ("utf-8", None, b"\xef\xbb\xbf"),
       ("utf-16-le", "UTF-16", b"\xff\xfe"), ("utf-16-be", "UTF-16", b"\xfe\xff"), ("utf-16-le", None, b"\xff\xfe"),
       ("iso-8859-1", "ISO-8859-1", b""), ("cp1252", "windows-1252", b""), ("ascii", "US-ASCII", b""), ("ascii", None, b"")]


def prolog(name, standalone=False):
    return "" if name is None else f'<?xml version="1.0" encoding="{name}"?>\n'


def encode(text, codec):
    return text.encode(codec, "xmlcharrefreplace" if codec in ("ascii", "iso-8859-1", "cp1252") else "strict")


def through(data, text, cls, st):
    """the outcomes through the entry points of a class: bytes, file, and text"""
    from svdsuite import Parser, PeripheralRegisterMap, Process
    view = {"Parser": (Parser, lambda o: observe.parsed(o.get_parsed_device())),
            "Process": (Process, lambda o: observe.parsed(o.get_processed_device(), ("parent", "parsed"))),
            "Map": (PeripheralRegisterMap, lambda o: observe.parsed(o.peripheral_map, ("parent", "parsed")))}
    k, show = view[cls]
    out = {}
    if data is not None:
        out["content"] = observe.call(lambda: show(k.from_xml_content(data)))
        fd, path = tempfile.mkstemp(suffix=".svd")
        try:
            os.write(fd, data)
            os.close(fd)
            out["file"] = observe.call(lambda: show(k.from_svd_file(path)))
        finally:
            os.unlink(path)
    if text is not None:
        out["text"] = observe.call(lambda: show(k.from_xml_str(text)))
    st.execs += len(out)
    return out


def agree(outs, want, info, warned=None):
    for how, r in outs.items():
        if r.failed:
            raise Violation(f"a document was rejected ({how})", error=f"{type(r.exc).__name__}: {r.exc}", **info)
        x = diff(want, r.obj)
        if x:
            raise Violation(f"a document was misread ({how})", difference=x, **info)
        n = sorted(c for c, _ in r.warns)
        if warned is not None and ("ParserWarning" in n) != warned:
            raise Violation(f"warning expected: {warned} ({how})", warnings=r.warns, **info)
    if len({tuple(sorted(c for c, _ in r.warns)) for r in outs.values()}) > 1:
        raise Violation("the entry points differ in their warnings", warnings={h: r.warns for h, r in outs.items()}, **info)


def case(doc, cls, codec, name, bom, text_prolog=None):
    return doc, cls, codec, name, bom, text_prolog


def reference(doc, cls, st):
    if cls == "Parser":
        return pm.expect(doc)
    key = (cls, pm.to_xml(doc))
    if key not in _refs:
        if len(_refs) > 400:
            _refs.clear()
        # plain ASCII with character references, as bytes: the form the other properties are checked in
        r = through(encode(pm.to_xml(doc), "ascii"), None, cls, st)["content"]
        if r.failed:
            raise Violation("a document was rejected", error=repr(r.exc), xml=pm.to_xml(doc))
        _refs[key] = r.obj
    return _refs[key]


_refs = {}


def run(c, st):
    doc, cls, codec, name, bom, tp = c[:6]
    body = pm.to_xml(doc)
    if len(c) > 6:
        body = c[6] + body.replace("><", ">" + c[8] + "<") + c[7]
    text = prolog(name) + body
    data = bom + encode(text, codec)
    want = reference(doc, cls, st)
    outs = through(data, prolog(tp) + body if tp != "-" else text, cls, st)
    st.outcome(repr((cls, want)))
    agree(outs, want, dict(document=data, entry=cls), False)
    return "ok"


def key(c):
    return repr((pm.to_xml(c[0]),) + c[1:])


def with_text(s, where):
    d = SMALL.copy()
    p = d.v["peripherals"][0]
    if where == 0:
        d.v["description"] = s
    elif where == 1:
        p.v["registers_clusters"][0].v["description"] = s
    else:
        p.v["registers_clusters"][0].v["fields"][0].v["enumerated_value_containers"][0].v["enumerated_values"][0].v[
            "description"] = s
    return d


def chars(ch):
    s = ch.pick([f"a{c}b" for c in CHARS])
    return case(with_text(s, ch.n(3) if True else 0), ch.pick(["Parser", "Process", "Map"]), *ch.pick(ENC), "-")


def positions(ch):
    """a multi-byte character at every distance from the start (the parser looks at the first bytes)"""
    s = " " * ch.n(9) + "x" * ch.n(5) + ch.pick(["é", "€", "😀"])
    d = with_text("x" + s, 0)
    return case(d, "Parser", *ch.pick(ENC), "-")


def around(ch):
    """white space, comments and instructions before, after and between the elements"""
    e = ch.pick(ENC)
    lead = ch.pick(["", "\n", "<!--\u00e9-->", "<?p x?>\n"])
    if e[1] is None and lead:
        lead = lead.lstrip()
    return case(with_text(ch.pick(["\u00e9", "plain"]), 0), ch.pick(["Parser", "Process"]), *e, "-") + (
        lead, ch.pick(["", "\n", "\r\n", " ", "\t\n\n", "<!--\u00e9-->", "\n<?p?>\n"]), ch.pick(["", "\n", "\r\n", "<!--x-->"]))


def declared(ch):
    """text whose declaration names some other encoding"""
    s = ch.pick(["plain", "é", "€ß", "漢字", "😀"])
    tp = ch.pick([None, "UTF-8", "utf-8", "UTF-16", "utf-16le", "UTF-16BE", "ISO-8859-1", "iso-8859-15", "windows-1252",
                  "us-ascii", "UTF-7", "Shift_JIS", "GB2312", "EUC-JP", "UCS-4", "x-unknown"])
    return case(with_text(s, ch.n(3)), ch.pick(["Parser", "Process", "Map"]), "utf-8", "UTF-8", b"", tp)


def documents(ch):
    d = ch.pick([without, plus])(ch) if ch.flag() else values(ch)
    i = ch.n(3)
    return case(d, "Parser", *[ENC[0], ENC[4], ENC[8]][i], "-")


# ---- undeclared encodings --------------------------------------------------------------------------------------------

def guess(raw):
    """what a text of these bytes reads as, and whether that has to be reported"""
    for codec in ("utf-8", "cp1252", "iso-8859-1"):
        try:
            return raw.decode(codec), codec != "utf-8"
        except UnicodeDecodeError:
            continue
    raise AssertionError


def undeclared(ch):
    raw = bytes([ch.pick(list(range(0x80, 0x100)))]) + ch.pick([b"", b"x", b"\xa4", b"\xe9"])
    return raw, ch.n(3), ch.pick([None, "UTF-8"]), ch.pick(["Parser", "Process", "Map"])


def misdeclared(ch):
    """an encoding is declared that the bytes are not in, or that nobody knows"""
    raw = ch.pick([bytes([b]) for b in range(0x80, 0x100)] + [c.encode() for c in CHARS] + [b"plain", b"\xe4\xc3\xa4", b"\x81\xc3"])
    return raw + ch.pick([b"", b"\xa4"]), ch.n(3), ch.pick(["US-ASCII", "ascii", "x-unknown"]), ch.pick(["Parser", "Process", "Map"])


def run_undeclared(c, st):
    raw, where, name, cls = c
    text, warned = guess(raw)
    warned = warned or name == "x-unknown" or name in ("US-ASCII", "ascii") and max(raw) > 0x7f
    d = with_text("@@@", where)
    data = (prolog(name) + pm.to_xml(d)).encode().replace(b"@@@", raw)
    want = reference(with_text(text, where), cls, st)
    outs = through(data, None, cls, st)
    agree(outs, want, dict(document=data, entry=cls), warned)
    return "fallback" if warned else "utf-8"


# ---- damaged ones ----------------------------------------------------------------------------------------------------

def damaged(which, step):
    """torn at a byte, or with a byte that is damaged, lost or doubled"""
    def gen(ch):
        from .c27 import bases
        b = bases()[which]
        i = ch.n((len(b) + step - 1) // step) * step
        k = ch.n(7)
        return [b[:i], b[i:], b[:i] + b[i + 1:], b[:i] + b[i:i + 1] + b[i:], b[:i] + b"<" + b[i + 1:], b[:i] + b"\xff" + b[i + 1:],
                b[:i] + b"\0" + b[i + 1:]][k], ch.pick(["Parser", "Process"]) if step > 1 or which == 0 else "Parser"
    return gen


def run_damaged(c, st):
    """rejected by both or by none, read the same, with the same report"""
    data, cls = c
    outs = through(data, None, cls, st)
    a, b = outs["content"], outs["file"]
    if (a.exc is None) != (b.exc is None):
        raise Violation("file and bytes differ in whether a damaged document is accepted", content=repr(a.exc or "accepted"),
                        file=repr(b.exc or "accepted"), document=data, entry=cls)
    if a.exc is not None:
        return "rejected"
    if diff(a.obj, b.obj):
        raise Violation("a damaged document is read differently from file and bytes", difference=diff(a.obj, b.obj), document=data,
                        entry=cls)
    agree_on = [sorted(n for n, _ in r.warns) for r in (a, b)]
    if agree_on[0] != agree_on[1]:
        raise Violation("file and bytes of a damaged document differ in their warnings", content=a.warns, file=b.warns, document=data)
    st.outcome(repr((cls, a.obj)))
    return "accepted" + (" with report" if a.warns else "")


NAMES = ["d.svd", "d", "a b.svd", "a%20b.svd", "a%41.svd", "100%.svd", "%s.svd", "a#b.svd", "a?b.svd", "a:b.svd", "ä漢.svd", "e\u0301.svd",
         "-x.svd", "http:x.svd", "file:x.svd", "a\\b.svd", "a\nb.svd", "a&b.svd", "~.svd", "$HOME.svd", "a;b.svd", "*.svd", "[a].svd",
         "<a>.svd", "D.SVD", "d.xml", "d.svd.bak", ".svd", "sub/d.svd", "sub/../d.svd", "./d.svd", "a%2Fb.svd", "x" * 200 + ".svd"]
OTHER = {"a%20b.svd": "a b.svd", "a%41.svd": "aA.svd", "a#b.svd": "a", "a?b.svd": "a", "file:x.svd": "x.svd", "D.SVD": "d.svd",
         "sub/d.svd": "d.svd", "*.svd": "d.svd", "[a].svd": "a.svd", "a\\b.svd": "ab.svd", "e\u0301.svd": "\u00e9.svd", "d": "d.svd"}


def paths(ch):
    """a file of any name, next to one of a similar name, given by its absolute or relative path or a path object"""
    return ch.pick(NAMES), ch.pick(["Parser", "Process", "Map", "Validator", "Serializer"]), ch.pick(["absolute", "relative"]), ch.flag()


def run_paths(c, st):
    import shutil
    from svdsuite import Parser, PeripheralRegisterMap, Process, Serializer, SVDSchemaVersion, Validator
    name, cls, how, other = c
    doc, decoy = with_text("the one", 0), with_text("another", 0)
    doc.v["name"], decoy.v["name"] = "One", "Two"
    xml = pm.to_xml(doc).encode()
    home, top = os.getcwd(), tempfile.mkdtemp(prefix="mc26.")
    try:
        os.chdir(top)
        os.mkdir("sub")
        if other and name in OTHER:
            with open(OTHER[name], "wb") as f:
                f.write(pm.to_xml(decoy).encode())
        path = name if how == "relative" else os.path.join(top, name)
        if cls == "Serializer":
            obj = Parser.from_xml_content(xml).get_parsed_device()
            before = sorted(os.listdir(".") + os.listdir("sub"))
            r = observe.call(lambda: Serializer.device_to_svd_file(path, obj))
            fresh = sorted(os.listdir(".") + os.listdir("sub"))
            want = Serializer.device_to_svd_content(obj)
            got = r.failed or (open(path, "rb").read() if os.path.exists(path) else None)
            if len(fresh) != len(before) + 1:
                raise Violation("serializing to a file left other than one file", before=before, after=fresh, path=path)
        else:
            with open(name, "wb") as f:
                f.write(xml)
            k = {"Parser": (Parser, lambda o: observe.parsed(o.get_parsed_device())),
                 "Process": (Process, lambda o: observe.parsed(o.get_processed_device(), ("parent", "parsed"))),
                 "Map": (PeripheralRegisterMap, lambda o: observe.parsed(o.peripheral_map, ("parent", "parsed")))}.get(cls)
            if k is None:
                v = SVDSchemaVersion.get_latest()
                r = observe.call(lambda: Validator.validate_xml_file(path, get_exception=False, schema_version=v))
                want = Validator.validate_xml_content(xml, get_exception=False, schema_version=v)
            else:
                r = observe.call(lambda: k[1](k[0].from_svd_file(path)))
                want = k[1](k[0].from_xml_content(xml))
            got = r.failed or r.obj
    finally:
        os.chdir(home)
        shutil.rmtree(top, ignore_errors=True)
    st.execs += 2
    if r.failed:
        raise Violation("a file could not be used because of its name", path=path, error=f"{type(r.exc).__name__}: {r.exc}", by=cls)
    if got != want:
        raise Violation("a file with this name is not read or written as what it is", path=path, by=cls)
    return cls


def spaces(tier):
    th = tier != "quick"

    def sp(name, gen, bound):
        return Space(name, gen, run, key=key, bound=bound, describe=key)
    out = [
        sp("chars", chars if th else lambda ch: chars_quick(ch), "characters x encodings x entry points x classes"),
        sp("positions", positions, "distance of a character from the start"),
        sp("around", around, "what surrounds the elements x encodings"),
        sp("declared", declared, "text documents with any declaration"),
        Space("undeclared", undeclared, run_undeclared, key=repr, describe=repr,
              bound="every byte above 0x7f, four followers, three places, three classes"),
        Space("paths", paths, run_paths, key=repr, describe=repr, bound="names of files x entry points x absolute and relative "
              "x a file of a similar name beside it"),
        Space("misdeclared", misdeclared, run_undeclared, key=repr, describe=repr,
              bound="every byte above 0x7f and characters of every UTF-8 length under a wrong or unknown declaration"),
    ]
    out += [Space("damaged " + n, damaged(i, 1 if th else k), run_damaged, key=repr, describe=repr,
                  bound="torn and damaged documents, from file and from bytes") for n, i, k in
            (("short", 0, 1), ("wide", 3, 6), ("full", 2, 61))]
    if th:
        out.append(sp("documents", documents, "documents of C21 in three encodings"))
    return out


def chars_quick(ch):
    s = ch.pick([f"a{c}b" for c in CHARS])
    cls = ch.pick(["Parser", "Process"])
    return case(with_text(s, 0 if cls == "Parser" else 1), cls, *ch.pick(ENC), "-")
