"""Expansion of dim elements: names, order, addresses, content."""
from ..gen import *
from ..oracle import tree_space

ASSUME = ["dim up to 6 (thorough: 12 and single large values), increments from a small alphabet",
          "peripherals, fields: arrays / lists as the implementation documents them (peripheral arrays only, field "
          "lists only)"]
IDX = [None, "0-%d", "3-%d", "09-%d", "A-%c", "D-%c", "list", "LIST, ", "one"]


def index(kind, dim):
    """a dimIndex text of the given format with dim entries"""
    if kind is None:
        return None
    if kind == "0-%d":
        return f"0-{dim - 1}"
    if kind == "3-%d":
        return f"3-{dim + 2}"
    if kind == "09-%d":
        return f"09-{9 + dim - 1}"
    if kind == "A-%c":
        return f"A-{chr(64 + dim)}"
    if kind == "D-%c":
        return f"D-{chr(67 + dim)}"
    pool = ["a", "B", "7", "x_1", "00", "Z9", "q", "r", "s", "t", "u", "v"]
    if kind == "list":
        return ",".join(pool[:dim])
    if kind == "LIST, ":
        return ",  ".join(reversed(pool[:dim]))
    return "only"


PAT = {"P": ["N[%s]", "N%s", "%s"], "C": ["N[%s]", "N%s", "%sN", "N%sM", "[%s]N", "%s_%s"],
       "R": ["N[%s]", "N%s", "%sN", "N%sM", "%s", "N%s_%s"], "F": ["N%s", "%sN", "N%sM", "N[%s]", "%s%s"]}
DISP = [None, "d%s", "d[%s]", "plain", "%s", "%s of d%s"]
ODD = ["%s%s%s", "[%s]", "N[%s][%s]", "[%s]N[%s]", "N[%s]_%s", "%s[%s]", "N%s[%s]", "%%s", "%d%s", "N\\%s", "%s.", "{0}%s", "N%S%s",
       "[%s]]", "[[%s]", "$%s^", "%s s%s", "N[%s]%s[%s]"]


def single(ch, dims):
    level = ch.pick("PCRF")
    name = ch.pick(PAT[level])
    dim = ch.pick(dims)
    fmt = ch.pick(IDX)
    inc = ch.pick({"P": [0x1000, 0x2000], "C": [0x20, 0x14], "R": [4, 8, 1], "F": [1, 2, 5]}[level])
    a = {"dim": dim, "dimIncrement": inc, "dimIndex": index(fmt, dim)}
    if level == "R":
        a["displayName"] = ch.pick(DISP)
        a["size"] = 8 if inc < 4 else 32
    if level == "F":
        a.update(lsb=1, msb=1 + min(inc, 2) - 1)
    e = elem(level, 1, name, ch=[R("R0", [F("b", 3)])] if level in "PC" else [F("b", 3)] if level == "R" else
             [EV([("x", "1")])], **a)
    tail = elem(level, 0x40, "T") if level != "F" else F("T", 31)
    return wrap(level, [tail, e])


def odd(ch):
    """names and display names that name the index more than once or look like a pattern"""
    level = ch.pick("PCRF")
    a = dict(dim=ch.pick([1, 2, 3]), dimIncrement={"P": 0x1000, "C": 0x20, "R": 4, "F": 2}[level])
    a["dimIndex"] = index(ch.pick([None, "list", "D-%c"]), a["dim"])
    name = ch.pick(ODD + ["N%s", "N[%s]"])
    if level == "R":
        a["displayName"] = ch.pick([None, "d", "%d", *ODD])
    elif level == "F":
        a.update(lsb=1, msb=1)
    return wrap(level, [elem(level, 1, name, **a)])


def nested(ch, dims, full):
    """dim on several levels at once"""
    dp, dc, dd, dr, df = (ch.pick([None] + dims) for _ in range(5))

    def on(dim, name, inc, arr, idx=None):
        if dim is None:
            return name, {}
        return (name + ("[%s]" if arr else "_%s"), {"dim": dim, "dimIncrement": inc, "dimIndex": idx})
    nf, af = on(df, "F", 3, False, ch.pick([None, "list"]) and index("list", df or 1))
    nr, ar = on(dr, "R", 8, ch.flag())
    nd, ad = on(dd, "D", 0x40, ch.flag() if full else True, None)
    nc, ac = on(dc, "C", 0x200, ch.flag() if full else False)
    np, ap = on(dp, "P", 0x1000, True)
    f = F(nf, 2, 3, [EV([("x", "1")])], **af)
    r = R(nr, [f], off=4, resetValue=5, **ar)
    d = C(nd, [r, R("Z", off=0)], off=8, **ad)
    c = C(nc, [d, R("Y", off=0)], off=0x100, access="read-only", **ac)
    return device([P(np, [c, R("X", off=0)], base=0x10000, blocks=[(0, 0x1000, "registers", None)], **ap)])


def siblings(ch):
    """two dim elements side by side, interleaved addresses, names that interleave when sorted"""
    level = ch.pick("PCRF")
    arr = level == "P" or (level != "F" and ch.flag())
    w = {"P": 0x1000, "C": 0x10, "R": 4, "F": 1}[level]
    els = []
    for i, nm in enumerate(["A", "B"]):
        dim = ch.pick([1, 2, 3, 11])
        inc = w * ch.pick([1, 2, 3])
        name = nm + ("[%s]" if arr else "%s")
        a = dict(dim=dim, dimIncrement=inc)
        start = w * ch.pick([0, 1, 32])
        if level == "P":
            els.append(P(name, [R("r")], base=start, **a))
        elif level == "C":
            els.append(C(name, [R("r")], off=start, **a))
        elif level == "R":
            els.append(R(name, off=start, **a))
        else:
            els.append(F(name, start // w if start < 32 else 40, start // w if start < 32 else 40,
                         access=[None, "read-only", "write-only"][ch.n(3)], **a))
    return wrap(level, els if ch.flag() else els[::-1])


def ignored(ch):
    """dim without a place for the index in the name; and with names that only look like one"""
    level = ch.pick("PCRF")
    name = ch.pick(["N", "N%", "N[s]", "Ns", "N%d", "N%%", "N[%s]x" if level in "CR" else "N", "N%s"])
    dim = ch.pick([None, 1, 2, 3])
    inc = ch.pick([None, 4])
    a = dict(dim=dim, dimIncrement=inc, dimIndex=ch.pick([None, "0-1"]))
    if level == "R":
        a["displayName"] = ch.pick([None, "D", "D%s"])
    return wrap(level, [elem(level, 0, name, **a), elem(level, 3, "T")])


def large(ch, sizes):
    level = ch.pick("PCRF")
    n = ch.pick(sizes)
    if level == "F":
        n = min(n, 128)
        f = F("F%s", 0, 0, dim=n, dimIncrement=1)
        return device([P("PP", [R("RR", [f], size=128)])])
    nm = "N[%s]" if level == "P" or ch.flag() else "N%s"
    return wrap(level, [elem(level, 0, nm, dim=n, dimIncrement={"P": 0x1000, "C": 4, "R": 4}[level],
                             dimIndex=ch.pick([None, f"0-{n - 1}"]) if nm == "N%s" else None)])


def ranges(ch, top):
    """every range of numbers with a low end up to top, every range of letters, with and without leading zeros"""
    if ch.flag():
        a = ch.n(top)
        dim = 1 + ch.n(5)
        z = ch.n(3)
        x = f"{a:0{z}d}-{a + dim - 1}"
    else:
        a = ch.n(26)
        dim = 2 + ch.n(25 - a) if a < 25 else 26
        x = f"{chr(65 + a)}-{chr(65 + a + dim - 1)}" if a < 25 else "A-Z"
    return wrap("R", [R("N%s", dim=dim, dimIncrement=4, dimIndex=x)])


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("single", lambda ch: single(ch, [1, 2, 3, 4, 5, 6] + ([9, 12] if th else [])), "one dim element: "
                   "level x name pattern x dim x dimIndex format x increment x displayName"),
        tree_space("odd", odd, "names with the place of the index twice, or that look like a pattern, for name and displayName"),
        tree_space("nested", lambda ch: nested(ch, [1, 2] if not th else [1, 2, 3], th), "dim on every subset of five "
                   "levels"),
        tree_space("siblings", siblings, "two interleaving dim elements"),
        tree_space("ignored", ignored, "dim without %s, %s without dim"),
        tree_space("large", lambda ch: large(ch, [27, 100] + ([300, 1000] if th else [])), "many instances"),
        tree_space("ranges", lambda ch: ranges(ch, 1002 if th else 112), "every range of numbers and letters"),
    ]
