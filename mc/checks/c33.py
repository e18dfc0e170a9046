"""What cannot be written raises, and destroys nothing."""
import os
import resource
import shutil
import signal
import tempfile
import xml.parsers.expat

from .. import observe, pm
from ..core import Space, Violation
from ..oracle import diff
from ..pgen import *

ASSUME = ["file system faults: a file size limit at every byte, no free descriptor, a full device, a missing directory, "
          "a directory in place of the file",
          "texts: every control character, both kinds of surrogates, the two noncharacters; in every place that takes a text"]
BAD_TEXTS = ["\x00", "\x01", "a\x08b", "\x0b", "\x1f", "\ud800", "x\udfff", "\ufffe", "\uffff"]
ALL_BAD = [chr(c) for c in range(32) if c not in (9, 10, 13)] + BAD_TEXTS[5:]
GOOD = ["\x7f", "\x85", "\ufffd", "\U0010ffff", "\u2028"]
OLD = b"<precious/>" * 700
OPTS = [(p, d) for p in (False, True) for d in (True, False)]


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c33-")
        return self.d

    def __exit__(self, *_):
        shutil.rmtree(self.d)


def read(path):
    if not os.path.lexists(path):
        return None
    with open(path, "rb") as f:
        return f.read()


def well_formed(data):
    try:
        p = xml.parsers.expat.ParserCreate()
        p.Parse(data, True)
        return True
    except xml.parsers.expat.ExpatError:
        return False


def texts():
    return [s for s in sites(RICH) if s[4] in ("s", "r", "@s", "@r")] + \
        [("dev", 0, a, None, "s", True) for a in ("schema_version", "xs_no_namespace_schema_location")]


TS = texts()


def poison(i, t):
    d = RICH.copy()
    s = TS[i]
    if s[0] == "dev":
        d.v[s[2]] = t
    else:
        node(d, s[0]).v[s[2]] = pm.T(t, t)
    return pm.build(d)


def both(obj, opt, old, st, must_fail):
    """the file says what content says, or neither says anything"""
    from svdsuite import Serializer
    pretty, decl = opt
    with scratch() as d:
        path = os.path.join(d, "out.svd")
        if old is not None:
            with open(path, "wb") as f:
                f.write(old)
        c = observe.call(lambda: Serializer.device_to_svd_content(obj, pretty, decl))
        s = observe.call(lambda: Serializer.device_to_svd_str(obj, pretty))
        r = observe.call(lambda: Serializer.device_to_svd_file(path, obj, pretty, decl))
        st.execs += 3
        if not (c.failed == s.failed == r.failed):
            raise Violation("the ways to serialize disagree on whether the device can be written",
                            content=repr(c.exc), str=repr(s.exc), file=repr(r.exc))
        got = read(path)
        others = [x for x in os.listdir(d) if x != "out.svd"]
        if others:
            raise Violation("serialization left other files behind", files=others)
        if r.failed:
            if got != old:
                raise Violation("a failed serialization changed the target file" if old is not None else
                                "a failed serialization left a file behind", content=got, error=repr(r.exc))
            return c
        if got != c.obj:
            raise Violation("the file does not contain what serialization gives", content=c.obj, file=got)
        if not well_formed(c.obj):
            raise Violation("serialization gives ill-formed XML without an exception", content=c.obj)
        if must_fail:
            raise Violation("a text which XML cannot express was written without an exception", content=c.obj)
        return c


def text_case(bad, full):
    ids = range(len(TS)) if full else [TS.index(s) for s in by_kind(TS)]

    def gen(ch):
        i = ch.pick(ids)
        t = ch.pick(bad)
        return i, t, ch.pick(OPTS if full else OPTS[:1] + OPTS[3:]), ch.pick([None, OLD])
    return gen


def run_text(case, st):
    i, t, opt, old = case
    both(poison(i, t), opt, old, st, t not in GOOD)
    st.outcome(repr((TS[i][1:3], t)))
    return "written" if t in GOOD else "refused"


WRONG = [None, 5, "zz", object(), []]


OBJS = {}


def wrong_case(full):
    def gen(ch):
        """any attribute of any object (one of each class) with a value of the wrong type"""
        if full not in OBJS:
            OBJS[full], seen = [], set()
            for k, o in enumerate(walk(pm.build(RICH))):
                if full or type(o) not in seen:
                    seen.add(type(o))
                    OBJS[full].append((k, sorted(a for a in vars(o) if a != "parent")))
        k, names = ch.pick(OBJS[full])
        return k, ch.pick(names), ch.n(len(WRONG)), ch.pick(OPTS[:1] + OPTS[3:] if full else OPTS[:1]), \
            ch.pick([None, OLD])
    return gen


def walk(o):
    yield o
    for a, v in sorted(vars(o).items()):
        if a == "parent":
            continue
        for x in v if isinstance(v, list) else [v]:
            if hasattr(x, "parent"):
                yield from walk(x)


def run_wrong(case, st):
    k, a, w, opt, old = case
    dev = pm.build(RICH)
    o = list(walk(dev))[k]
    setattr(o, a, WRONG[w])
    c = both(dev, opt, old, st, False)
    st.outcome(repr((type(o).__name__, a, w, c.failed)))
    return "refused" if c.failed else "written"


DOCS = [SMALL, RICH]


def limits(docs, steps):
    lens = []

    def gen(ch):
        from svdsuite import Serializer
        i = ch.pick(docs)
        opt = ch.pick(OPTS[:1] + OPTS[3:])
        key = (i, opt)
        if key not in dict(lens):
            lens.append((key, len(Serializer.device_to_svd_content(pm.build(DOCS[i]), *opt))))
        n = dict(lens)[key]
        marks = sorted(set(range(0, n, steps[i])) | {n - 1, n, n + 1})
        return i, opt, marks[ch.n(len(marks))], n, ch.pick([None, OLD])
    return gen


def run_limit(case, st):
    """the file system takes no more than so many bytes"""
    from svdsuite import Serializer
    i, (pretty, decl), lim, n, old = case
    dev = pm.build(DOCS[i])
    want = Serializer.device_to_svd_content(dev, pretty, decl)
    with scratch() as d:
        path = os.path.join(d, "out.svd")
        if old is not None:
            with open(path, "wb") as f:
                f.write(old)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        h = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
        try:
            r = observe.call(lambda: Serializer.device_to_svd_file(path, dev, pretty, decl))
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            signal.signal(signal.SIGXFSZ, h)
        st.execs += 1
        got = read(path)
    if r.failed:
        if lim > n:
            raise Violation("writing failed although there was room", error=repr(r.exc))
        if not isinstance(r.exc, OSError):
            raise Violation("the failure of the file system came out as something else", error=repr(r.exc))
        return "refused"
    if got != want:
        raise Violation("the file was cut off without an exception", limit=lim, length=n, written=len(got or b""))
    return "written"


PLACES = ["missing directory", "directory", "full", "no descriptor", "dangling link", "link", "read-only link to full", "ok"]


def place_case(ch):
    return ch.n(len(DOCS)), ch.pick(PLACES), ch.pick(OPTS), ch.pick([None, OLD])


def run_place(case, st):
    from svdsuite import Serializer
    i, place, (pretty, decl), old = case
    dev = pm.build(DOCS[i])
    want = Serializer.device_to_svd_content(dev, pretty, decl)
    with scratch() as d:
        real = path = os.path.join(d, "out.svd")
        if place == "missing directory":
            path = os.path.join(d, "nowhere", "out.svd")
        elif place == "directory":
            path = os.path.join(d, "sub")
            os.mkdir(path)
        elif place == "full":
            path = "/dev/full"
        elif place == "dangling link":
            path = os.path.join(d, "link.svd")
            os.symlink(os.path.join(d, "nowhere", "x"), path)
        elif place == "link":
            path = os.path.join(d, "link.svd")
            os.symlink(real, path)
        elif place == "read-only link to full":
            path = os.path.join(d, "link.svd")
            os.symlink("/dev/full", path)
        if old is not None:
            with open(real, "wb") as f:
                f.write(old)
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        if place == "no descriptor":
            resource.setrlimit(resource.RLIMIT_NOFILE, (0, hard))
        try:
            r = observe.call(lambda: Serializer.device_to_svd_file(path, dev, pretty, decl))
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        st.execs += 1
        got = read(real)
        if place in ("ok", "link"):
            if r.failed:
                raise Violation("a device could not be written to a good place", error=repr(r.exc))
            if got != want:
                raise Violation("the file does not contain what serialization gives", content=want, file=got)
            return "written"
        if not r.failed:
            raise Violation(f"no exception although nothing can be written there ({place})")
        if not isinstance(r.exc, OSError):
            raise Violation("the failure of the file system came out as something else", error=repr(r.exc))
        if got != old:
            raise Violation("a file nobody asked to write was changed", place=place)
    st.outcome(place)
    return f"refused: {place}"


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("texts", text_case(ALL_BAD + GOOD if t else BAD_TEXTS[::2] + GOOD, t), run_text,
              key=repr, bound="every place that takes a text x inexpressible or unusual texts x options x old target"),
        Space("types", wrong_case(t), run_wrong, key=repr, bound="every attribute of every object x five values of other types"),
        Space("limits", limits([0, 1], (1, 1) if t else (1, 101)), run_limit, key=repr,
              bound="file size limit at every byte" + ("" if t else " of a small document, every 101st of a large one")),
        Space("places", place_case, run_place, key=repr, bound="eight places x options x old target"),
    ]
