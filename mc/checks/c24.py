"""The validator accepts exactly the documents the chosen version of the schema accepts."""
import copy
import os
import re
import tempfile

import lxml.etree as E

from .. import observe, pm
from ..core import Skip, Space, Violation
from ..pgen import *
from ..xsd import VERSIONS, doc, failing

ASSUME = ["the schemas are the copies of the published ones in mc/schema, judged by libxml2",
          "well-formed documents: full and minimal ones for each version with one change in one place of each kind"]


def downgrade(v):
    """the full document without what version v does not know"""
    d = RICH.copy()
    sv = v if v < "1.3" else "1.3"
    d.attrs = (f'xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd" '
               f'schemaVersion="{sv}"')
    for n in d.walk():
        if v < "1.3" and n.kind in ("register", "field", "enumeratedValue"):
            n.v.setdefault("description", "d")
        if v < "1.3.10" and n.kind == "cpu":
            n.v["name"] = "CM4"
    root = doc(pm.to_xml(d).encode())
    for _ in range(60):
        e = failing(root, v, True)
        if e is None:
            return root
        bad = root.getroottree().xpath(e.path)[0]
        m = re.search(r"Element '\w+', attribute '(\w+)'", e.message)
        tag, parent = bad.tag, bad.getparent().tag
        for x in list(root.iter(tag)):
            if x.getparent().tag == parent:
                if m:
                    x.attrib.pop(m.group(1), None)
                else:
                    x.getparent().remove(x)
    return None


def bases(versions):
    out = {}
    for v in versions:
        d = downgrade(v)
        out[v] = [d]
        s = SMALL.copy()
        if v < "1.3":
            sv = v
            s.attrs = ('xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation='
                       f'"CMSIS-SVD.xsd" schemaVersion="{sv}"')
            s.v["peripherals"][0].v["registers_clusters"].pop()
            s.v["cpu"] = None
            s.v["peripherals"][0].v["registers_clusters"][0].v["description"] = "x"
            s.v["peripherals"][0].v["registers_clusters"][0].v["fields"][0].v["description"] = "x"
        out[v].append(doc(pm.to_xml(s).encode()))
        if d is None or failing(d, v):
            raise RuntimeError(f"no valid document for {v}")
    return out


def places(root, every):
    """element numbers: one per path of tags, or all"""
    seen, out = set(), []
    for i, e in enumerate(root.iter()):
        k = (e.tag, e.getparent().tag if e.getparent() is not None else None,
             e.getparent().getparent().tag if e.getparent() is not None and e.getparent().getparent() is not None else "")
        if every or k not in seen:
            seen.add(k)
            out.append(i)
    return out


WORDS = ["", "x y", "0x1G", "-1", "4294967296", "true", "1", "n", "CM52", "CM85", "SMC1", "CM55", "ARMV81MML", "CM35P",
         "CM0PLUS", "other", "read-only", "%s", "A[%s]", "[3:1]", "0-3", "r1p2", "0bx", "any", "uint8_t *", "modify"]


def mutate(root, ch, every, words):
    root = copy.deepcopy(root)
    ps = places(root, every)
    el = list(root.iter())[ps[ch.n(len(ps))]]
    parent = el.getparent()
    if len(el) == 0 and words and ch.flag():
        el.text = ch.pick(words)
        return root
    k = ch.n(9)
    if k == 0:
        return root
    if k == 1 and parent is not None:
        parent.remove(el)
    elif k == 2 and parent is not None:
        el.addnext(copy.deepcopy(el))
    elif k == 3 and el.getnext() is not None:
        el.getnext().addnext(el)
    elif k == 4:
        el.tag = el.tag + "X"
    elif k == 5:
        el.set("bogus", "1")
    elif k == 6:
        el.append(E.Element("bogus"))
    elif k == 7:
        el.text = (el.text or "") + "?"
    elif k == 8:
        for a in list(el.attrib):
            del el.attrib[a]
    return root


def foreign(ch, base):
    """attributes and elements of other namespaces, declarations that are not used, comments and instructions"""
    v = ch.pick(VERSIONS)
    root = copy.deepcopy(base[v][ch.n(len(base[v]))])
    tags = [None, "peripherals", "peripheral", "register", "field", "cpu", "name"]
    tag = ch.pick(tags)
    el = root if tag is None else root.find(".//" + tag)
    if el is None:
        raise Skip
    xsi = "{http://www.w3.org/2001/XMLSchema-instance}"
    k = ch.n(12)
    if k < 7:
        a, x = [("{urn:q}z", "1"), ("{http://www.w3.org/XML/1998/namespace}lang", "en"),
                ("{http://www.w3.org/XML/1998/namespace}space", "preserve"), (xsi + "nil", "true"), (xsi + "type", "x"),
                (xsi + "schemaLocation", "a b"), (xsi + "noNamespaceSchemaLocation", "other.xsd")][k]
        el.set(a, x)
    elif k == 7:
        el.append(E.Element("{urn:q}z"))
    elif k == 8:
        el.tag = "{urn:q}" + el.tag
    elif k == 9:
        el.insert(0, E.Comment("c"))
        el.insert(0, E.ProcessingInstruction("pi", "x"))
    elif k == 10:   # a declaration that is not used
        root = E.fromstring(re.sub(rf"<{el.tag}(?=[ />])", f'<{el.tag} xmlns:unused="urn:q"', E.tostring(root).decode(), count=1))
    else:           # everything in another namespace
        root = E.fromstring(E.tostring(root).replace(b"<device", b'<device xmlns="urn:q"', 1))
    return root, v, ch.pick(["content", "str", "file"]), False


def judge(case, st):
    from svdsuite import SVDSchemaVersion, Validator
    root, v, how, latest = case
    e = failing(root, v)
    data = E.tostring(root, encoding="utf-8", xml_declaration=how != "str")
    kw = {} if latest else {"schema_version": SVDSchemaVersion(v)}
    path = None
    if how == "content":
        fn = lambda x: Validator.validate_xml_content(data, get_exception=x, **kw)   # noqa: E731
    elif how == "str":
        fn = lambda x: Validator.validate_xml_str(data.decode(), get_exception=x, **kw)   # noqa: E731
    else:
        fd, path = tempfile.mkstemp(suffix=".svd")
        os.write(fd, data)
        os.close(fd)
        fn = lambda x: Validator.validate_xml_file(path, get_exception=x, **kw)   # noqa: E731
    try:
        r = observe.call(lambda: fn(False))
        q = observe.call(lambda: fn(True))
    finally:
        if path:
            os.unlink(path)
    st.execs += 2
    info = dict(schema=v, entry=how, reference=e or "valid", document=data)
    if r.failed:
        raise Violation("the validator failed although no exception was asked for", error=repr(r.exc), **info)
    if e is None and (r.obj is not True or q.failed or q.obj is not True):
        raise Violation("a valid document was not accepted", answers=[repr(r.obj), repr(q.obj or q.exc)], **info)
    if e is not None and (r.obj is not False or not q.failed):
        raise Violation("an invalid document was accepted", answers=[repr(r.obj), repr(q.obj or q.exc)], **info)
    st.outcome(repr((v, e)))
    return "valid" if e is None else "invalid"


def versions(_st=None):
    from svdsuite import SVDSchemaVersion
    return {m.value for m in SVDSchemaVersion}


def run_versions(case, st):
    st.execs += 1
    if case not in versions():
        raise Violation(f"version {case} of the schema is not available")
    return "ok"


def spaces(tier):
    th = tier != "quick"
    base = bases(VERSIONS)

    def describe(c):
        return f"{c[1]} {c[2]} " + E.tostring(c[0]).decode()

    def structure(ch):
        v = ch.pick(VERSIONS)
        root = base[v][ch.n(len(base[v]))]
        how = ch.pick(["content", "str", "file"]) if th else ["content", "str", "file"][len(ch.trace) % 3]
        return mutate(root, ch, False, WORDS), v, how, False

    def everywhere(ch):
        v = VERSIONS[-1]
        return mutate(base[v][0], ch, True, None), v, "content", ch.flag()

    def cross(ch):
        """each version's document against each version, each entry point"""
        v, w = ch.pick(VERSIONS), ch.pick(VERSIONS)
        root = base[v][ch.n(len(base[v]))]
        return root, w, ch.pick(["content", "str", "file"]), w == VERSIONS[-1] and ch.flag()

    def newest(ch):
        d = ch.pick([without, plus])(ch)
        v = ch.pick(VERSIONS[-9:])
        return doc(pm.to_xml(d).encode()), v, "content", False
    out = [
        Space("versions", lambda ch: ch.pick(VERSIONS), run_versions, bound="all versions"),
        Space("structure", structure, judge, key=describe, describe=describe,
              bound="14 versions x their documents x one place of each kind x 8 structural changes or 26 words"),
        Space("foreign", lambda ch: foreign(ch, base), judge, key=describe, describe=describe,
              bound="attributes and elements of other namespaces in seven kinds of elements x version x entry point"),
        Space("cross", cross, judge, key=lambda c: describe(c) + str(c[3]), describe=describe,
              bound="every document for a version x every version x entry points x default"),
    ]
    if th:
        out.append(Space("everywhere", everywhere, judge, key=lambda c: describe(c) + str(c[3]), describe=describe,
              bound="latest version: every element x structural change"))
        out.append(Space("attributes", newest, judge, key=describe, describe=describe, bound="families of C21"))
    return out
