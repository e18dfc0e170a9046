"""Nothing of a document is lost in silence."""
from ..gen import *
from ..oracle import tree_space

ASSUME = ["documents of up to six elements; what may be ignored: elements without usable content, the name "
          "'reserved', sizes that are no number of bytes"]
NAMES = ["N", "reserved", "Reserved", "RESERVED", "reserved0", "reserve"]


def names(ch):
    """the name 'reserved' in every spelling on every level, plain, dim or derived"""
    level = ch.pick("PCRF")
    nm = ch.pick(NAMES + ["reserve%s", "res%sed"])
    a = {}
    if "%s" in nm:
        if level == "P":
            nm = nm.replace("%s", "[%s]")
            a = dict(dim=2, dimIncrement=0x1000)
        else:
            a = dict(dim=2, dimIncrement={"C": 0x20, "R": 4, "F": 1}[level], dimIndex=ch.pick([None, "d,x", "erv,x"]))
    df = ch.pick([None, "T"])
    e = elem(level, 3, nm, df=df, ch=[R("k")] if level in "PC" and df is None else None, **a)
    return wrap(level, [elem(level, 0, "T"), e] if ch.flag() else [e, elem(level, 0, "T")])


def empty(ch, full):
    """nested clusters that are empty, contain only ignored registers, or not; what is left of what contains them"""
    def leaf(tag):
        k = ch.n(4)
        return [[], [R(f"r{tag}")], [R("reserved")], [R(f"r{tag}", size=12)]][k]
    d = C("D", leaf(1), off=0x20)
    c = C("C", [d] + leaf(2), off=0x40)
    e = C("E", leaf(3) if full else [], off=0x80, df=ch.pick([None, "C", "P.C.D"]))
    p = P("P", [c, e] + leaf(4) if full or ch.flag() else [c, e])
    q = P("Q", [R("keep")] if ch.flag() else [], df=ch.pick([None, "P"]), base=0x10000)
    if q.df is None:
        q.a["addressBlock"] = [(0, 0x1000, "registers", None)]
    return device([p, q])


def sizes(ch, full):
    """sizes on every level, valid, supported or not, and the effect on everything around"""
    S = [None, 8, 1, 12, 24, 0] + ([32, 64, 256, 7] if full else [256])
    pr = ch.pick(S)
    cl = ch.pick(S)
    rg = ch.pick(S)
    top = ch.pick([None, 8, 12])
    c = C("C", [R("r", [F("f", 0)], size=rg)] + ([R("k", off=8, size=8)] if ch.flag() else []), off=0x20, size=cl)
    return device([P("P", [c] + ([R("s")] if ch.flag() else []), size=pr), P("Z", [R("z", size=8)], base=0x10000)],
                  size=top)


def alignment(ch):
    """unaligned offsets and addresses are kept and reported"""
    base = ch.pick([0, 1, 2, 4])
    co, ro = ch.pick([0, 1, 2, 4, 6]), ch.pick([0, 1, 2, 3, 4, 6])
    size = ch.pick([8, 16, 32, 64, 128])
    d = ch.pick([None, 2])
    r = R("r%s" if d else "r", off=ro, size=size, dim=d, dimIncrement=ch.pick([16, 18]) if d else None)
    return device([P("P", [C("C", [r], off=co)], base=base)])


def values(ch):
    """enumerated values: several from one pattern, of which some do not fit, are reserved or repeated; each is reported"""
    V = ["0", "3", "5", "#xx", "#1x", "0b1x0", "#x1"]
    es = [(ch.pick(["a", "b"]), ch.pick(V)), (ch.pick(["b", "reserved", "a_1"]), ch.pick(V))]
    if ch.flag():
        es.append(("c", ch.pick(V)))
    lo = ch.pick([0, 4])
    return device([P("P", [R("R", [F("F", lo, lo + ch.n(3), [EV(es)]), F("G", 10, 11)])])])


def everything(ch):
    """an element of each kind carrying every attribute: one attribute changed, the others arrive"""
    level = ch.pick("PCRF")
    a = {}
    for k in PROPS[level]:
        if k == "alternateRegister":
            continue
        a[k] = VALS[k][0] if k != "size" else 32
    for _ in range(2):
        k = ch.pick([None] + [k for k in a])
        if k is not None:
            if ch.flag():
                a.pop(k)
            else:
                a[k] = VALS[k][1] if k != "size" else 64
    e = elem(level, 2, "E", ch=[R("k")] if level in "PC" else [F("f", 0)] if level == "R" else [EV([("x", "1")])], **a)
    d = elem(level, 5, "G", df="E")
    return wrap(level, [e, d])


def repeated(ch):
    """entries of one list that are alike or agree in some of what they say: none of them is lost"""
    what = ch.pick(["interrupt", "blocks", "values", "containers"])
    n = 1 + ch.n(3)
    if what == "interrupt":
        return device([P("P", [R("r")], interrupt=[(ch.pick("AB"), ch.pick([None, "d"]), ch.pick([1, 2])) for _ in range(n)])])
    if what == "blocks":
        return device([P("P", [R("r")], blocks=[(ch.pick([0, 0x100]), ch.pick([0x100, 0x80]), ch.pick(["registers", "buffer"]), None)
                                                for _ in range(n)])])
    if what == "values":
        return device([P("P", [R("r", [F("f", 0, 1, [EV([(ch.pick("ab"), ch.pick(["0", "1", "0x1", "#0x"])) for _ in range(n)])])])])])
    return device([P("P", [R("r", [F("f", 0, 1, [EV([(ch.pick("ab"), "1")], name=ch.pick([None, "E"]), usage=ch.pick([None, "read", "write"]))
                                                 for _ in range(n)])])])])


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("names", names, "the name 'reserved'"),
        tree_space("empty", lambda ch: empty(ch, th), "empty and ignored content at any depth"),
        tree_space("sizes", lambda ch: sizes(ch, th), "usable and unusable sizes"),
        tree_space("alignment", alignment, "unaligned positions"),
        tree_space("repeated", repeated, "up to three interrupts, blocks, values, containers, alike or nearly so"),
        tree_space("values", values, "two or three enumerated values of seven patterns in fields of one to three bits"),
        tree_space("keywords", keywords, "every keyword of every element, on it, on its base, inherited, on instances"),
        tree_space("everything", everything, "all attributes"),
    ]
