"""Size: inherited downwards, adjusted upwards to the widest register inside."""
from ..gen import *
from ..oracle import tree_space

ASSUME = ["sizes from {8, 16, 32, 64, 128} plus sizes that are not a number of bytes; nesting up to three clusters"]


def nest(ch, full):
    """every assignment of sizes to a peripheral, two nested clusters and a register on each level"""
    small = [None, 8, 64] if not full else [None, 8, 16, 64]
    dev = ch.pick([None, 8, 64])
    ps, cs, ds = ch.pick(small), ch.pick(small), ch.pick(small)
    pr, cr, dr = ch.pick(["-", None, 8, 64]), ch.pick(["-", None, 16]), ch.pick([None, 8, 32, 128])
    d = C("D", [R("a", size=dr)], off=0x40, size=ds)
    c = C("C", [d] + ([] if cr == "-" else [R("b", off=0x20, size=cr)]), off=0x80, size=cs)
    p = P("P", [c] + ([] if pr == "-" else [R("c", off=0, size=pr)]), size=ps)
    return device([p], size=dev)


def widest(ch, full):
    """siblings of different sizes in every order; empty, ignored and odd-sized ones among them"""
    S = [None, 8, 16, 64] + ([12, 128] if full else [12])
    n = 3
    sizes = [ch.pick(S) for _ in range(n)]
    names = ["r0", ch.pick(["r1", "reserved"]), "r2"]
    regs = [R(names[i], off=0x10 * i, size=sizes[i]) for i in range(n)]
    ctx = ch.pick([None, 8, 32])
    where = ch.n(3)
    if where == 0:
        return device([P("P", regs, size=ctx)])
    if where == 1:
        return device([P("P", [C("C", regs, off=0x20, size=ctx), R("z", size=8)])], size=8)
    return device([P("P", [C("C", regs[:2], off=0x100, size=ctx), C("D", regs[2:], off=0x200, size=ctx)])], size=16)


def derived(ch):
    """derivation across contexts of different sizes: the size of what is inherited follows the deriving element"""
    S = [None, 8, 16, 64]
    bs, ds, bctx, dctx = ch.pick(S), ch.pick(S), ch.pick(S), ch.pick(S)
    rs, xs = ch.pick([None, 8, 32]), ch.pick(["-", None, 8, 64])
    dev = ch.pick([None, 16])
    more = [] if xs == "-" else [R("x", off=0x20, size=xs)]
    if ch.flag():
        return device([P("A", [R("r", size=rs)], size=bs), P("B", more, df="A", base=0x10000, size=ds)], size=dev)
    return device([P("A", [C("M", [R("r", size=rs)], size=bs)], size=bctx),
                   P("B", [C("N", more, df="A.M", size=ds)], base=0x10000, size=dctx)], size=dev)


def dims(ch):
    """sizes below dim elements and derived dim elements"""
    S = [None, 8, 64]
    a, b, c, d = (ch.pick(S) for _ in range(4))
    cl = C("C%s", [R("r[%s]", size=a, dim=2, dimIncrement=8), R("s", off=0x20, size=b)], size=c, dim=2,
           dimIncrement=0x40)
    e = C("E", [R("t", off=0x30, size=d)] if ch.flag() else [], df=ch.pick(["C%s", "C1"]), off=0x200, size=ch.pick(S))
    return device([P("P", [cl, e], size=ch.pick(S)), P("Q[%s]", df="P", dim=2, dimIncrement=0x1000, base=0x10000,
                                                       size=ch.pick(S))])


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("nest", lambda ch: nest(ch, th), "sizes on five nested levels, a register on each"),
        tree_space("widest", lambda ch: widest(ch, th), "siblings of different sizes"),
        tree_space("derived", derived, "derivation across contexts"),
        tree_space("dims", dims, "below dim elements"),
    ]
