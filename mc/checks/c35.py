"""Number, depth, length and magnitude do not matter: the rules hold far from the small cases, and an answer comes in time."""
from ..gen import *
from ..oracle import tree_space
from .c17 import none_spurious

ASSUME = ["one large dimension per document, or two moderate ones; up to 70 (thorough: 300) siblings, links or levels (20, "
          "thorough: 40), dim up to 300 (thorough: 1030), addresses and values at the powers of two up to 2^64"]
COUNTS = [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 26, 27, 31, 32, 33, 63, 64, 65, 70]
MORE = [100, 101, 127, 128, 129, 200, 255, 256, 257, 300]


def shuffle(ch, els):
    """document orders: as generated, reversed, odd ones first, second half first"""
    k = ch.n(4)
    h = len(els) // 2
    return [els, els[::-1], els[1::2] + els[::2], els[h:] + els[:h]][k]


def name(i, style):
    return [f"N{i}", f"n{i:04}", "L" * (i + 1), f"{'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[i % 26]}{'_' * (i // 26)}"][style]


def siblings(ch, counts):
    """n siblings on a level, in order of position, or all in one place"""
    level = ch.pick("PCRFEV")
    n = ch.pick([c for c in counts if level not in "FEV" or c <= 64])
    style = ch.n(4)
    if level in "EV":
        els = [dict(name=name(i, style), value=str(i)) for i in range(n)]
        els = shuffle(ch, els)
        if level == "V":   # the same, spread over several containers
            els = [{**v, "name": v["name"]} for v in els]
            return device([P("P", [R("R", [F(f"f{k}", 7 * k, 7 * k + 6, [EV(els[k::9], name=f"c{k}")]) for k in range(9)
                                           if els[k::9]], size=64)])])
        return device([P("P", [R("R", [F("f", 0, 6, [EV(els)])])])])
    els = []
    for i in range(n):
        nm = name(i, style)
        els.append(P(nm, [R("r", off=4 * (i % 3))], base=0x1000 * i) if level == "P" else
                   C(nm, [R("r")], off=8 * i) if level == "C" else R(nm, off=4 * i) if level == "R" else F(nm, i))
    els = shuffle(ch, els)
    if level == "F":
        return device([P("P", [R("RR", els, size=64)])])
    if level in "CR":
        return device([P("PP", els, base=0x1000, blocks=[(0, 0x10000, "registers", None)])])
    return device(els)


def chains(ch, counts):
    """a derivation chain of length n, its declarations spread over it; the whole in several orders; or n elements
    derived from one"""
    level = ch.pick("PCRF")
    n = ch.pick([c for c in counts if level != "F" or c <= 32])
    star = ch.flag()
    path = ch.flag()
    els = []
    for i in range(n):
        df = None if i == 0 else f"N{0 if star else i - 1}"
        if df and path and level != "P":
            df = {"C": "PP.", "R": "PP.", "F": "PP.RR."}[level] + df
        a = {"access": "read-only"} if i == 0 else {"description": "half"} if i == n // 2 else {}
        a.update({"size": 16} if i == 0 and level != "F" else {})
        if level == "F":
            els.append(F(f"N{i}", 2 * i, 2 * i + 1, [EV([("x", "1")], name="E")] if i == 0 else [], df=df, **a))
        elif level == "R":
            els.append(R(f"N{i}", [F(f"f{i}", min(i, 2))] if i in (0, 1, n - 1) else [], df=df, off=4 * i, **a))
        elif level == "C":
            els.append(C(f"N{i}", [R(f"r{i}", off=4 * i)] if i in (0, 1, n - 1) else [], df=df, off=0x800 * i, **a))
        else:
            els.append(P(f"N{i}", [R(f"r{i}", off=4 * i)] if i in (0, 1, n - 1) else [], df=df, base=0x1000 * i, **a))
    els = shuffle(ch, els)
    if level == "F":
        return device([P("PP", [R("RR", els, size=64)])])
    if level in "CR":
        return device([P("PP", els, base=0x1000, blocks=[(0, 0x100000, "registers", None)])])
    return device(els)


def nesting(ch, depths):
    """n levels of clusters: addresses add up, properties come down, paths lead in, siblings on every level"""
    n = ch.pick(depths)
    at = ch.n(min(n, 4))
    prop = ch.pick([None, ("size", 16), ("access", "write-only"), ("resetValue", 5)])
    where = ch.pick([0, n // 2, n - 1])
    sib = ch.flag()
    e = R("r", [F("f", 3, 5)], off=4)
    for i in range(n - 1, -1, -1):
        kids = [e] + ([R(f"s{i}", off=0)] if sib else [])
        e = C(f"C{i}", kids, off=8, **(dict([prop]) if prop and i == where else {}))
    path = "P." + "".join(f"C{i}." for i in range(n))
    x = [None, R("x", df=path + "r", off=0x4000), C("x", df=path[:-1], off=0x4000), R("x", [F("g", df=path + "r.f", lo=7, hi=9)],
         off=0x4000)][at]
    els = [e] + ([x] if x else [])
    return device([P("P", els if ch.flag() else els[::-1], base=0x1000, blocks=[(0, 0x10000, "registers", None)])])


def deriving(ch, depths):
    """every level of a nest is derived from the one above it, or refers to the innermost element of another nest"""
    n = ch.pick(depths)
    k = ch.n(3)
    if k == 0:      # N0 < N1 < ... on different levels of nesting of other clusters
        els, path = [C("N0", [R("r", [F("f", 0)])], off=0)], "P.N0"
        for i in range(1, n):
            e, p = C(f"N{i}", [R(f"r{i}", off=4 * i)] if i == n - 1 else [], df=path, off=4), f"N{i}"
            for j in range(i % 5):
                e, p = C(f"w{i}_{j}", [e], off=8), f"w{i}_{j}.{p}"
            e.a["addressOffset"] = 0x400 * i
            els.append(e)
            path = "P." + p
        return device([P("P", els if ch.flag() else els[::-1], blocks=[(0, 0x10000, "registers", None)])])
    # every peripheral derives from the one before and adds a register derived from the one before's last
    ps = [P("N0", [R("r0", [F("f", 0)], size=16, access="read-only")], base=0)]
    for i in range(1, n):
        ps.append(P(f"N{i}", [R(f"r{i}", df=f"N{i - 1}.r{i - 1}" if k == 1 else f"r{i - 1}", off=4 * i)],
                    df=f"N{i - 1}" if k == 1 or i == 1 else f"N{i - 1}", base=0x1000 * i))
    return device(shuffle(ch, ps))


def rounds(ch, counts):
    """a chain of arrays or lists, each derived from an instance of the one before, which has to be made first"""
    level = ch.pick("PCRF")
    n = ch.pick([c for c in counts if c <= (15 if level == "F" else 20 if level == "P" else 33)])
    k = ch.n(3)    # derived from: an instance by name, by path, an instance of an inherited list
    own = ch.flag()
    nm, w = {"P": ("N%d_[%%s]", 0x100), "C": ("N%d_%%s", 0x10), "R": ("N%d_[%%s]", 4), "F": ("N%d_%%s", 1)}[level]
    els = []
    for i in range(n):
        df = None if i == 0 else f"N{i - 1}_{i % 2}"
        if df and k == 1 and level != "P":
            df = {"C": "PP.", "R": "PP.", "F": "PP.RR."}[level] + df
        a = dict(dim=2, dimIncrement=w) if i == 0 or own or k < 2 else dict(dim=2)
        if k == 2 and i % 3 == 2:
            a = {}
        name = nm % i if a else f"N{i}_{(i + 1) % 2}"
        if level == "P":
            e = P(name, [R("r")] if i == 0 else [], df=df, base=0x1000 * i, blocks=[(0, 0x80, "registers", None)], **a)
        elif level == "C":
            e = C(name, [R("r", [F("f", 0)])] if i == 0 else [], df=df, off=0x40 * i, **a)
        elif level == "R":
            e = R(name, [F("f", 0)] if i == 0 else [], df=df, off=0x10 * i, **a)
        else:
            e = F(name, 4 * i, 4 * i, df=df, **a)
        els.append(e)
    els = shuffle(ch, els)
    if level == "F":
        return device([P("PP", [R("RR", els, size=64)])])
    if level in "CR":
        return device([P("PP", els, base=0x1000, blocks=[(0, 0x10000, "registers", None)])])
    return device(els)


DIMS = [1, 2, 9, 10, 11, 16, 17, 26, 27, 32, 64, 65, 99, 100, 101, 256, 300]


def dims(ch, counts):
    """large arrays: indices, order, addresses; a reference to the last instance; names with text on both sides"""
    level = ch.pick("PCRF")
    n = ch.pick([c for c in counts if level != "F" or c <= 64])
    k = ch.n(4)
    w = {"P": 0x100, "C": 8, "R": 4, "F": 1}[level]
    nm, idx, last = [("A%s", None, f"A{n - 1}"), ("A[%s]", None, f"A{n - 1}"), ("A%sz", f"0-{n - 1}", f"A{n - 1}z"),
                     ("A%s", f"5-{n + 4}", f"A{n + 4}")][k]
    if level == "F" and "[" in nm or level == "P" and "[" not in nm:
        nm, idx, last = ("B%s", f"1-{n}", f"B{n}") if level == "F" else ("B[%s]", None, f"B{n - 1}")
    a = dict(dim=n, dimIncrement=w, dimIndex=idx)
    ref = ch.flag()
    if level == "P":
        els = [P(nm, [R("r", [F("f", 0)])], base=0x10000, blocks=[(0, 0x80, "registers", None)], **a)]
        els += [P("Z", [R("own", off=8)], df=last, base=0)] if ref else []
        return device(els[::-1])
    if level == "F":
        return device([P("P", [R("R", [F(nm, 0, 0, **a)], size=64),
                               R("S", [F("z", df="P.R." + last, lo=63, hi=63)] if ref else [], size=64, off=8)])])
    els = [C(nm, [R("r", [F("f", 0)])], off=0x100, **a) if level == "C" else R(nm, [F("f", 0)], off=0x100, **a)]
    if ref:
        els.append(C("Z", df=last, off=0) if level == "C" else R("Z", df=last, off=0))
    return device([P("P", els[::-1], blocks=[(0, 0x10000, "registers", None)])])


def products(ch, full):
    """arrays in arrays in arrays"""
    v = [1, 2, 3, 11] if full else [1, 2, 11]
    a, b, c, d = ch.pick(v[:3]), ch.pick(v), ch.pick(v), ch.pick([1, 2, 3])

    def dim(n, inc):
        return dict(dim=n, dimIncrement=inc) if n > 1 or full else {}

    def nm(s, n, arr=True):
        return s + ("[%s]" if arr else "%s") if n > 1 or full else s
    f = F(nm("f", d, False), 0, 0, **dim(d, 1))
    r = R(nm("r", c), [f], off=0, **dim(c, 4))
    q = C(nm("q", b), [r, R("t", off=0x40)], off=0x10, **dim(b, 0x80))
    p = P(nm("P", a), [q], base=0x10000, **dim(a, 0x1000))
    return device([p])


POW = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xE000E000, 0xFFFFFFF0, 0xFFFFFFFF,
       0x100000000, 0x123456789ABCDEF0, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFF000]


def addresses(ch, full):
    """base addresses and offsets of any magnitude, three levels"""
    b = ch.pick(POW)
    c = ch.pick(POW[:17:2] if not full else POW[:18])
    o = ch.pick(POW[1:16:3] if not full else POW[:17])
    dim = ch.pick([None, 2])
    p = P("P", [C("c" if dim is None else "c%s", [R("r", off=o), R("s", off=0)], off=c, dim=dim,
                  dimIncrement=None if dim is None else 2 * o + 0x100)], base=b, blocks=[(0, 0x100, "registers", None)])
    return device([p, P("Q", df="P", base=0x40)] if ch.flag() else [p])


def magnitudes(ch, full):
    """reset values, sizes, positions of fields, enumerated values at the powers of two"""
    size = ch.pick([8, 16, 32, 64])
    v = ch.pick([0, 1] + [x for k in (7, 8, 15, 16, 31, 32, 63, 64) if k <= size for x in ((1 << k) - 1, 1 << k) if x < 1 << size])
    m = ch.pick([None, 0, v, (1 << size) - 1])
    lo = ch.pick(sorted({0, size // 2 - 1, size // 2, size - 1}))
    hi = ch.pick(sorted({lo, size - 1}))
    w = hi - lo + 1
    val = ch.pick(sorted({0, 1, (1 << w) - 1, (1 << w) // 2, 1 << w, (1 << w) + 1}))   # the last two have to be rejected
    form = ch.pick([str, hex, lambda x: "0b" + format(x, "b")])
    return device([P("P", [R("r", [F("f", lo, hi, [EV([("a", form(val))])])], size=size, resetValue=v, resetMask=m)])])


def patterns(ch, full):
    """don't-care patterns with many digits open"""
    w = ch.pick([1, 2, 4, 6, 8] + ([10] if full else []))
    k = ch.n(4)
    pat = ["x" * w, "1" + "x" * (w - 1), "x" * (w - 1) + "0", ("1x" * w)[:w]][k]
    return device([P("P", [R("r", [F("f", 0, w - 1, [EV([("a", "#" + pat)])])])])])


def lists(ch, counts):
    """many interrupts, blocks, alternates, enumerated containers"""
    n = ch.pick(counts)
    k = ch.n(3)
    if k == 0:
        ir = shuffle(ch, [(f"I{i}", "d", i) for i in range(n)])
        return device([P("P", [R("r")], interrupt=ir), P("Q", df="P", base=0x10000)])
    if k == 1:
        bl = shuffle(ch, [(0x10 * i, 0x10 if ch.trace and i % 2 else 8, "registers", None) for i in range(n)])
        return device([P("P", [R("r")], blocks=bl), P("Q", df="P", base=0x10000)])
    els = shuffle(ch, [R(f"r{i}", off=0, alternateGroup=f"g{i}" if i else None) for i in range(n)])
    return device([P("P", els)])


def crowded(ch, counts):
    """many elements in one place, linked as alternates in a row; one wide element over many small ones behind it"""
    level = ch.pick("PCR")
    n = ch.pick([c for c in counts if c > 1])
    k = ch.n(4)
    key = {"P": "alternatePeripheral", "C": "alternateCluster", "R": "alternateRegister"}[level]
    els = []

    def one(nm, at, wide=None, **a):
        if level == "P":
            return P(nm, [R("r")], base=at, blocks=[(0, wide or 0x40, "registers", None)], **a)
        if level == "C":
            return C(nm, [R("r")] + ([R("w", off=wide)] if wide else []), off=at, **a)
        return R(nm, off=at, size=64 if wide else 32, **a)
    if k < 3:   # each the alternate of the one before, of the first, of the next; the last one a stranger
        for i in range(n):
            to = [i - 1, 0, i + 1][k]
            els.append(one(f"N{i}", 0, **({key: f"N{to}"} if to >= 0 and to != i and to < n else {})))
        if ch.flag():
            els.append(one("X", 0))
    else:
        step = 0x100 if level == "P" else 4
        els = [one("N0", 0, 0x4000 if level != "P" else 0x100 * n)]
        els += [one(f"N{i}", step * i, **({key: "N0"} if i == n - 2 else {})) for i in range(1, n)]
    els = shuffle(ch, els)
    return device(els if level == "P" else [P("PP", els, base=0x1000, blocks=[(0, 0x10000, "registers", None)])])


def names(ch, full):
    """long names, names that begin with one another, names that only differ in the last place"""
    n = ch.pick([1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257] + ([1000, 5000] if full else []))
    level = ch.pick("PCRF")
    c = ch.pick("aZ_")
    k = ch.n(3)
    a, b = [(c * n, c * n + "1"), (c * n + "A", c * n + "B"), (c * n, c * (n + 1))][k]
    els = [elem(level, 0, a), elem(level, 1, b, df=ch.pick([None, a])), elem(level, 2, b + "x", df=ch.pick([None, a, b]))]
    return wrap(level, shuffle(ch, els))


def spaces(tier):
    th = tier != "quick"
    big = COUNTS + (MORE if th else [])
    few = COUNTS if th else COUNTS[::2] + [70]
    deep = [1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 17, 20] + ([25, 32, 33, 40] if th else [])
    kw = dict(split=256)

    def sp(name, gen, arg, bound, **more):
        return tree_space(name, lambda ch: gen(ch, arg), bound, **kw, **more)
    return [
        sp("siblings", siblings, big, "n siblings, four styles of names, four orders"),
        sp("chains", chains, big if th else few, "n derivations in a row, or of one element"),
        sp("rounds", rounds, big, "n arrays, each derived from an instance of the one before"),
        sp("nesting", nesting, deep, "n levels of clusters"),
        sp("deriving", deriving, deep, "n derivations across levels"),
        sp("dims", dims, DIMS + ([127, 128, 512, 1000, 1030] if th else []), "large arrays"),
        sp("products", products, th, "arrays in arrays"),
        sp("addresses", addresses, th, "addresses of any magnitude", quiet=False),
        sp("magnitudes", magnitudes, th, "values of any magnitude"),
        sp("patterns", patterns, th, "patterns with up to 2^8 (thorough: 2^10) values"),
        sp("lists", lists, big, "many interrupts, address blocks, alternate registers", quiet=False),
        sp("crowded", crowded, big if th else few, "n elements in one place or below a wide one", quiet=False,
           extra=none_spurious),
        sp("names", names, th, "long and similar names"),
    ]
