"""A result depends on the document only: not on what was done before, not on the hash seed, not on memory."""
import os
import subprocess
import sys

from .. import borrow, ops
from ..core import Skip, Space, Violation
from ..doc import EV, F, P, R, device, to_xml
from ..oracle import diff
from . import c31

ASSUME = ["histories of up to three operations over 13 documents x 9 operations; histories of all operations of one kind",
          "each history runs in a process of its own, each result is compared with the one in a process that did nothing else"]
ALL = [(o, d) for d in sorted(ops.DOCS) for o in ops.OPS]
SOME = [(o, d) for d in ("plain", "same", "derived", "unresolvable", "overlap", "torn")
        for o in ("process", "convert", "validate", "serialize")][::2] + [("twice", "derived"), ("map", "same")]


def compare(hist, results, st):
    for k, ((o, d), got) in enumerate(zip(hist, results)):
        want = ops.alone(o, d)
        st.execs += 1
        if got != want:
            raise Violation(f"the result of {o} on document '{d}' depends on what was done before",
                            before=hist[:k], difference=diff(want, got) or (want, got), document=ops.DOCS[d])
    st.outcome(ops.digest(results))


def pairs(full):
    def gen(ch):
        first = ch.pick(ALL)
        return [first, ch.pick(ALL if full else SOME)]
    return gen


def triples(full):
    def gen(ch):
        s = SOME if full else SOME[::2] + SOME[-1:]
        return [ch.pick(s) for _ in range(3)]
    return gen


def rounds(full):
    def gen(ch):
        """all operations in a row, several times over, from each starting point"""
        k = ch.n(len(ALL))
        h = ALL[k:] + ALL[:k]
        if ch.flag():
            h = h[::-1]
        return h * (2 if full else 1)
    return gen


def run(hist, st):
    compare(hist, ops.forked(lambda: [ops.result(o, d) for o, d in hist], 200), st)
    return f"{min(len(hist), 4)} operations"


# ---- kept objects -------------------------------------------------------------------------------------------------
def kept_case(full):
    def gen(ch):
        names = ["plain", "same", "derived", "overlap", "ignored", "latin"]
        a, b = ch.pick(names), ch.pick(names)
        acts = [ch.n(4) for _ in range(4 if full else 3)]
        return a, b, acts
    return gen


def run_kept(case, st):
    """two objects in use at the same time, asked in every order"""
    a, b, acts = case

    def go():
        from svdsuite import Process, Serializer
        from .. import observe
        import warnings
        out = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            objs = [Process.from_xml_content(ops.DOCS[a]), Process.from_xml_content(ops.DOCS[b])]
            for x in acts:
                p = objs[x % 2]
                out.append(observe.device(p.get_processed_device()) if x < 2 else
                           Serializer.device_to_svd_content(p.convert_processed_device_to_svd_device()))
        return out
    for x, got in zip(acts, ops.forked(go)):
        d = (a, b)[x % 2]
        want = ops.alone("process" if x < 2 else "convert", d)[0]
        st.execs += 1
        if got != (want if x < 2 else want[0]):
            raise Violation("an object gives another answer after other objects were used", objects=(a, b), order=acts,
                            difference=diff(want if x < 2 else want[0], got))
    return "same answers"


# ---- everything that is reported is reported again ------------------------------------------------------------------
def run_again(xml, st):
    """the same document three times in one process, each time through another entry point"""
    x = xml.encode() if isinstance(xml, str) else xml
    got = ops.forked(lambda: [ops.result(o, x) for o in ("process", "parse", "process", "parse")])
    st.execs += 4
    for a, b in ((0, 2), (1, 3)):
        if got[a] != got[b]:
            raise Violation("the same document gives another result the second time", document=xml,
                            difference=diff(got[a], got[b]))
    st.outcome(ops.digest(got))
    return "rejected" if got[0][1] else "with warnings" if got[0][2] else "ok"


AGAIN = {"c18": ["empty", "sizes", "alignment"], "c19": ["keywords", "booleans"], "c20": ["repeated", "missing", "root"],
         "c14": ["mixed"], "c05": ["ignored"], "c12": ["width", "literal"], "c17": ["groups"], "c06": ["menu"]}

# ---- documents that are nearly the same --------------------------------------------------------------------------------
def long(n=40):
    """a document of several kilobytes whose parts are all alike"""
    return to_xml(device([P(f"P{k}", [R(f"R{i}", [F("f", 0, 3, [EV([("a", "0"), ("b", "1")])])], off=4 * i, size=32, description="text")
                                      for i in range(n // 2)], base=0x1000 * k) for k in range(2)]))


def edits(x):
    """the document with one thing changed, near its beginning, in its middle, near its end: valid or not, same length or not"""
    out = [x]
    for a, b in (("<size>32<", "<size>16<"), ("<size>32</size>", ""), ("<description>text<", "<description>texT<"),
                 ("<addressOffset>", "<addressOffsez>"), ("<lsb>0<", "<lsb>1<"), ("<name>R", "<name>R R"), ("<name>f<", "<name>g<"),
                 ("<name>b<", "<name>a<"), ("<value>1<", "<value>2<"), ("<value>1<", "<value>x<")):
        at = [i for i in range(len(x)) if x.startswith(a, i)]
        for i in (at[0], at[len(at) // 2], at[-1]):
            y = x[:i] + b + x[i + len(a):]
            if a.startswith("<address"):
                y = y.replace("</addressOffset>", "</addressOffsez>") if y.count("</addressOffset>") == 1 else \
                    y[:i] + y[i:].replace("</addressOffset>", "</addressOffsez>", 1)
            out.append(y)
    for a, b in (("<name>DEV<", "<name>DEW<"), ("<version>1.0</version>", ""), ("<version>1.0<", "<version>1.1<"),
                 ("<width>32<", "<width>64<"), ("<peripherals>", "<peripherals >"), ("<peripherals>", "<!-- c --><peripherals>")):
        out.append(x.replace(a, b, 1))
    return list(dict.fromkeys(out))


_NEAR = []


def near_case(full):
    def gen(ch):
        if not _NEAR:
            _NEAR.extend(edits(long()))
        op = ch.pick(["validate", "process", "parse", "serialize", "map", "convert"] if full else ["validate", "process"])
        a = ch.n(len(_NEAR))
        return op, a, ch.flag()
    return gen


_ONE = {}


def one(op, i):
    if (op, i) not in _ONE:
        _ONE[op, i] = ops.digest(ops.forked(lambda: ops.result(op, _NEAR[i].encode()), 60))
    return _ONE[op, i]


def run_near(case, st):
    """one document, then all its neighbours, or the other way round"""
    op, a, first = case
    for b in range(0, len(_NEAR)):
        one(op, b)
    order = [a] + [b for b in range(len(_NEAR)) if b != a]
    order = order if first else order[:0:-1] + [a]
    got = ops.forked(lambda: [ops.digest(ops.result(op, _NEAR[i].encode())) for i in order], 300)
    st.execs += len(order)
    for k, (i, g) in enumerate(zip(order, got)):
        if g != one(op, i):
            raise Violation(f"the result of {op} depends on documents that are nearly the same", document=_NEAR[i],
                            before=order[:k], edits=len(_NEAR))
    st.outcome(ops.digest(got))
    return op


# ---- many documents in a row ---------------------------------------------------------------------------------------
ROW = {"c06": ["menu"], "c14": None, "c12": ["literal", "default", "width"], "c16": ["labels", "groups"], "c05": ["nested"],
       "c13": ["refs"], "c03": ["odd", "enums"], "c09": None, "c17": ["groups"], "c02": ["ranges"], "c19": ["keywords", "numbers"],
       "c20": ["missing"]}
CHUNKS = 40
_DOCS = {}


def row_docs(names, i, n, k):
    """the documents of chunk k of space i: k-th of n stretches of neighbours"""
    if (i, n) not in _DOCS:
        _DOCS.clear()
        from ..core import Ch, successor
        xml = []
        s = borrow.spaces("quick", lambda x, st: xml.append(x), {names[i][0]: [names[i][1]]})[0]
        p = []
        while p is not None and len(xml) < 30000:
            ch = Ch(p, s.budget) if s.budget is not None else Ch(p)
            try:
                case = s.gen(ch)
            except Skip:
                case = None
            p = successor(list(ch.trace), list(ch.width))
            if case is not None:
                s.run(case, None)
        _DOCS[i, n] = list(dict.fromkeys(x.encode() if isinstance(x, str) else x for x in xml))
    d = _DOCS[i, n]
    size = min(CHUNKS, max(1, len(d) // n))
    a = k * len(d) // n
    return d[a:a + size]


def row_case(n):
    names = [(p, s.name.split(" ", 1)[1]) for p, w in ROW.items() for s in borrow.spaces("quick", None, {p: w})]

    def gen(ch):
        return names, ch.n(len(names)), n, ch.n(n)
    return gen


def row_results(docs):
    return [ops.digest(ops.result("process", x)) for x in docs]


def run_row(case, st):
    """neighbouring documents, which differ in little, one after the other in both directions, against each alone"""
    docs = row_docs(*case)
    forth = ops.forked(lambda: row_results(docs), 300)
    back = ops.forked(lambda: row_results(docs[::-1]), 300)[::-1]
    st.execs += 2 * len(docs)
    for k, x in enumerate(docs):
        if forth[k] != back[k] or k % 8 == 0:
            st.execs += 1
            want = ops.forked(lambda: ops.result("process", x))
            if ops.digest(want) not in (forth[k], back[k]) or forth[k] != back[k]:
                raise Violation("the result depends on what was processed before", document=x, alone=want,
                                others=len(docs), where=case[0][case[1]])
    st.outcome(ops.digest(forth))
    return f"{len(docs)} documents" if len(docs) in (CHUNKS, 1) else "some documents"


# ---- hash seeds ---------------------------------------------------------------------------------------------------
def corpus(full):
    """documents whose processing involves sets and graphs"""
    from ..core import Ch, successor
    out = []
    for g in [c31.graph(3, False), c31.dims] + ([c31.odd] if full else []):
        cur = []
        while cur is not None:
            ch = Ch(cur)
            out.append(g(ch))
            cur = successor(ch.trace, ch.width)
    return [x.encode() for x in out]


CHUNK = 155


def digests(chunk, full, layout):
    """one digest per document; layout shifts what memory looks like"""
    junk = [bytearray(i * 37 % 500) for i in range(layout * 1000)]
    docs = corpus(full)[chunk * CHUNK:(chunk + 1) * CHUNK]
    out = []
    for i, x in enumerate(docs):
        if layout and i % 3 == 0:
            junk[i % len(junk)] = None
        out.append(ops.digest([ops.result(o, x) for o in ("process", "convert")]))
    for d in sorted(ops.DOCS):
        out.append(ops.digest([ops.result(o, d) for o in ops.OPS]))
    return out


def seed_case(n, full):
    size = []

    def gen(ch):
        if not size:
            size.append(-(-len(corpus(full)) // CHUNK))
        return ch.n(size[0]), 1 + ch.n(n), full
    return gen


_REF = {}


def run_seed(case, st):
    chunk, seed, full = case
    if (chunk, full) not in _REF:
        _REF[chunk, full] = ops.forked(lambda: digests(chunk, full, 0), 300)
    want = _REF[chunk, full]
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, "-m", "mc.seedrun", str(chunk), str(int(full)), str(seed % 4)], cwd=here, env=env,
                       capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise Violation("the library fails under another hash seed", seed=seed, error=p.stderr[-2000:])
    got = p.stdout.split()
    st.execs += len(got)
    if got != want:
        k = [i for i, (x, y) in enumerate(zip(got, want)) if x != y][0]
        docs = corpus(full)[chunk * CHUNK:(chunk + 1) * CHUNK]
        raise Violation("the result depends on the hash seed or on memory addresses", seed=seed,
                        document=docs[k] if k < len(docs) else sorted(ops.DOCS)[k - len(docs)])
    return "same digests"


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("pairs", pairs(t), run, key=repr, bound="every operation on every document, then " +
              ("every" if t else "one of 14")),
        Space("triples", triples(t), run, key=repr, bound="three operations of " + str(len(SOME) if t else len(SOME[::2]) + 1)),
        Space("rounds", rounds(t), run, key=lambda h: repr((h[:2], len(h))), bound="all operations in a row, from every start, both directions",
              describe=lambda h: h[:3]),
        Space("kept", kept_case(t), run_kept, key=repr, bound="two objects of six documents, asked in every order"),
        Space("row", row_case(60 if t else 8), run_row, key=lambda c: repr((c[0][c[1]], c[2:])), split=8,
              bound="stretches of neighbouring documents of other spaces, in both directions, and each alone",
              describe=lambda c: repr((c[0][c[1]], c[2:]))),
        Space("near", near_case(t), run_near, key=repr, split=4, bound="a document of 40 registers and its neighbours by one edit, one "
              "after the other, starting or ending with each"),
        Space("seeds", seed_case(24 if t else 8, t), run_seed, key=repr,
              bound="hash seeds x documents with derivation graphs"),
    ] + [Space("again " + s.name, s.gen, s.run, key=s.key, budget=s.budget, bound=s.bound + ", each twice in one process",
               describe=s.describe, split=s.split) for s in borrow.spaces("quick", run_again, AGAIN)]
