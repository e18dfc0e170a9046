"""A document stands for itself: nothing is read but it, whatever it refers to."""
import ctypes
import os
import shutil
import socket
import struct
import tempfile
import time

from lxml import etree

from svdsuite import Parser, PeripheralRegisterMap, Process, Serializer, Validator

from .. import observe
from ..core import Space, Violation
from .c38 import BASE

ASSUME = ["reading is observed by the kernel (inotify) on every file a document names and by a listening socket on the loopback "
          "network; documents of up to three constructs that refer to something else"]
SECRET = "SECRETTEXT"
IN_OPEN, IN_ACCESS = 0x20, 0x1
NODES = [e for e in etree.fromstring(BASE).iter()]
LEAVES = [i for i, e in enumerate(NODES) if not len(e)]
_W = {}


class World:
    """files and a port that a document may name; what happens to them is recorded"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="c40-")
        self.out = os.path.join(self.dir, "outside")
        self.docs = os.path.join(self.dir, "docs")
        os.mkdir(self.out)
        os.mkdir(self.docs)
        for n, t in (("text", SECRET), ("elem", f"<name>{SECRET}</name>"),
                     ("dtd", f'<!ENTITY e "{SECRET}"><!ATTLIST device schemaVersion CDATA "{SECRET}"><!ENTITY % q "x">'),
                     ("xsd", '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="device"/></xs:schema>'),
                     ("xsl", '<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform"/>')):
            with open(os.path.join(self.out, n), "w", encoding="utf-8") as f:
                f.write(t)
        shutil.copytree(self.out, os.path.join(self.docs, "near"))
        libc = ctypes.CDLL(None, use_errno=True)
        self.fd = libc.inotify_init1(os.O_NONBLOCK)
        for d in (self.out, os.path.join(self.docs, "near")):
            if libc.inotify_add_watch(self.fd, d.encode(), IN_OPEN | IN_ACCESS) < 0:
                raise OSError(ctypes.get_errno(), "inotify")
        self.srv = socket.socket()
        self.srv.bind(("127.0.0.1", 0))
        self.srv.listen(8)
        self.srv.setblocking(False)
        self.port = self.srv.getsockname()[1]
        # the observer observes
        with open(os.path.join(self.out, "text"), encoding="utf-8") as f:
            f.read()
        assert self.seen(), "reading is not observed"
        socket.create_connection(("127.0.0.1", self.port)).close()
        assert self.seen(), "connecting is not observed"

    def seen(self):
        ev = []
        try:
            b = os.read(self.fd, 1 << 16)
            while b:
                n = struct.unpack_from("iIII", b)[3]
                ev.append("read " + b[16:16 + n].rstrip(b"\0").decode())
                b = b[16 + n:]
        except BlockingIOError:
            pass
        try:
            while True:
                self.srv.accept()[0].close()
                ev.append("connected")
        except BlockingIOError:
            pass
        return ev

    def close(self):
        os.close(self.fd)
        self.srv.close()
        shutil.rmtree(self.dir, True)


def world():
    pid = os.getpid()
    if pid not in _W:
        _W[pid] = w = World()
        import atexit
        import multiprocessing.util as mu
        mu.Finalize(None, w.close, exitpriority=1)
        atexit.register(shutil.rmtree, w.dir, True)
    return _W[pid]


# where something is: OUT, PORT and DOCS are replaced by what is there in this process
PLACES = ["file://OUT/{}", "OUT/{}", "near/{}", "http://127.0.0.1:PORT/{}", "ftp://127.0.0.1:PORT/{}", "//127.0.0.1:PORT/{}"]


def entity(ch):
    """an entity of each kind, in the text of every leaf or in an attribute"""
    where = ch.pick(PLACES)
    kind = ch.n(6)
    url = where.format({0: "text", 1: "elem", 2: "dtd", 3: "dtd", 4: "dtd", 5: "text"}[kind])
    dt = ['<!DOCTYPE device [<!ENTITY e SYSTEM "{u}">]>', '<!DOCTYPE device [<!ENTITY e SYSTEM "{u}">]>',
          '<!DOCTYPE device SYSTEM "{u}">', '<!DOCTYPE device PUBLIC "-//X//Y" "{u}">',
          '<!DOCTYPE device [<!ENTITY % p SYSTEM "{u}"> %p;]>',
          '<!DOCTYPE device [<!ENTITY f SYSTEM "{u}"><!ENTITY e "x&f;y">]>'][kind].format(u=url)
    root = etree.fromstring(BASE)
    els = list(root.iter())
    k = ch.n(len(LEAVES) + 2)
    if k < len(LEAVES):
        e = els[LEAVES[k]]
        e.text = (e.text or "") + "@@" if k % 2 else "@@"
    elif k == len(LEAVES):
        root.append(etree.Element("name"))
        root[-1].text = "@@"
    else:
        del root.attrib["schemaVersion"]
    return dt + etree.tostring(root, encoding="unicode").replace("@@", "&e;")


def include(ch):
    """other ways to name another document, in every container"""
    url = ch.pick(PLACES)
    k = ch.n(7)
    root = etree.fromstring(BASE)
    if k > 4:
        # declared once, at the top; within a container or in the text of an element
        root = etree.fromstring(BASE.replace("<device ", '<device xmlns:xi="http://www.w3.org/2001/XInclude" ', 1))
    e = ch.pick([e for e in root.iter() if len(e) or k > 4])
    head = ""
    if k == 0:
        e.insert(0, etree.fromstring(f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{url.format("elem")}"/>'))
    elif k == 1:
        e.insert(0, etree.fromstring(f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" parse="text" href="{url.format("text")}"/>'))
    elif k == 2:
        e.set("{http://www.w3.org/2001/XMLSchema-instance}noNamespaceSchemaLocation", url.format("xsd"))
    elif k > 4:
        e.insert(0, etree.SubElement(e, "{http://www.w3.org/2001/XInclude}include", href=url.format(["elem", "text"][k - 5]),
                                     parse=["xml", "text"][k - 5]))
    elif k == 3:
        e.set("{http://www.w3.org/XML/1998/namespace}base", url.format(""))
        head = f'<?xml-stylesheet type="text/xsl" href="{url.format("xsl")}"?>'
    else:
        e.set("{http://www.w3.org/2001/XMLSchema-instance}schemaLocation", "urn:x " + url.format("xsd"))
        head = f'<?xml-model href="{url.format("xsd")}"?>'
    return head + etree.tostring(root, encoding="unicode")


def bombs(ch):
    """entities that multiply"""
    n, m = 2 + ch.n(12), ch.pick([2, 10, 100])
    chain = "".join(f'<!ENTITY a{i} "{f"&a{i - 1};" * m}">' for i in range(1, n))
    loop = ch.n(3)
    first = "x" * 10 if loop != 1 else f"&a{n - 1};"
    place = ch.pick(["<description>d</description>", "<name>D</name>", "<vendor>V</vendor>"])
    tag = place[1:place.index(">")]
    return (f'<!DOCTYPE device [<!ENTITY a0 "{first}">{chain}]>'
            + BASE.replace(place, f"<{tag}>{f'&a{n - 1};' * (1 if loop != 2 else 3)}</{tag}>", 1))


def outcome(o):
    return observe.parsed(o)


def broken(gen):
    """the same in documents which are not well-formed or not in their encoding, for which other ways of reading are tried"""
    def g(ch):
        form, x = ch.n(3), gen(ch)
        i = x.rindex("<peripheral")
        if form == 0:
            return x[:i] + "\udce4" + x[i:]
        if form == 1:
            return x[:-len("</peripherals></device>")]
        return x[:i] + "<zz>&</zz>" + x[i:]
    return g


def some(ch):
    """the first few of the entities"""
    class Few:
        def n(self, k):
            return ch.n(min(k, 6))

        def pick(self, o):
            return o[ch.n(len(o))]
    return entity(Few())


WAYS = ["str", "content", "file", "process", "map", "validate str", "validate file"]


def use(way, xml, w):
    path = os.path.join(w.docs, "d.svd")
    if "file" in way:
        with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(xml)
    if way == "str":
        d = Parser.from_xml_str(xml).get_parsed_device()
        return outcome(d), Serializer.device_to_svd_content(d)
    if way == "content":
        return outcome(Parser.from_xml_content(xml.encode("utf-8", "surrogateescape")).get_parsed_device())
    if way == "file":
        return outcome(Parser.from_svd_file(path).get_parsed_device())
    if way == "process":
        return repr(Process.from_xml_str(xml).get_processed_device())
    if way == "map":
        return repr(PeripheralRegisterMap.from_xml_str(xml).peripheral_map)
    if way == "validate str":
        return Validator.validate_xml_str(xml, False)
    return Validator.validate_xml_file(path, False)


def run(case, st):
    w = world()
    here = os.getcwd()
    xml = case.replace("OUT", w.out).replace("PORT", str(w.port))
    out = "refused"
    os.chdir(w.docs)
    try:
        for way in WAYS if "\udce4" not in xml else ["content", "file", "validate file"]:
            t = time.process_time()
            r = observe.call(lambda: use(way, xml, w))
            t = time.process_time() - t
            st.execs += 1
            ev = w.seen()
            if ev:
                raise Violation("something else was read than the document", events=ev, way=way, xml=case[:3000])
            if not r.failed:
                out = "accepted"
                if SECRET in repr(r.obj):
                    raise Violation("something from elsewhere is in the result", way=way, xml=case[:3000])
            if r.failed and isinstance(r.exc, (RecursionError, MemoryError)):
                raise Violation("a document was refused by exhausting a resource", error=repr(r.exc), way=way, xml=case[:3000])
            if t > 20 or not r.failed and len(repr(r.obj)) > 100_000_000:
                raise Violation("entities were expanded without bound", seconds=t, way=way, xml=case[:3000])
    finally:
        os.chdir(here)
    st.outcome(case)
    return out


def spaces(tier):
    return [Space("entities", entity, run, bound="external entities and document types of six kinds in six places, referred to from the "
                  "text of each element of a document with everything in it"),
            Space("broken", broken(some), run, bound="some of these in documents with an invalid byte, cut off or ill-formed"),
            Space("includes", include, run, bound="inclusions, schema locations, base addresses, style sheets and models in every container"),
            Space("bombs", bombs, run, bound="up to 13 levels of entities, each 2, 10 or 100 of the one before, cyclic or not")]
