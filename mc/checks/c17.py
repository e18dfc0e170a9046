"""Address overlaps are reported exactly where the document does not declare them as alternates."""
from ..core import Violation
from ..doc import to_xml
from ..gen import *
from ..oracle import expected, tree_space

ASSUME = ["two or three elements per level on a small address grid; alternates among two names (longer chains of "
          "alternates only in one direction)"]


def none_spurious(dev, r, st):
    """as many reports as overlapping pairs that are not declared alternates"""
    warns = [w for w in expected(dev)[2]]
    if all(k == "overlap" for k, _ in warns):
        got = [t for c, t in r.warns if c == "ProcessWarning"]
        if len(got) != len(warns):
            raise Violation("number of reported overlaps differs from the reference model", expected=warns, got=got,
                            xml=to_xml(dev))


def regs(ch, full):
    """registers and clusters: every relation of extents x every alternate declaration"""
    def alt(names):
        return ch.pick([None] + names)
    k1, k2 = ch.pick(["R", "C"]), ch.pick(["R", "C"])
    o2 = ch.pick([0, 1, 2, 3, 4, 7, 8, 12])
    s1, s2 = ch.pick([8, 32, 64]), ch.pick([8, 32])

    def mk(kind, name, other, off, size):
        alts = alt([other, "nope"])
        if kind == "R":
            return R(name, off=off, size=size, alternateRegister=alts)
        return C(name, [R("k", size=size)], off=off, alternateCluster=alts)
    a, b = mk(k1, "A", "B", 4, s1), mk(k2, "B", "A", o2, s2)
    return device([P("P", [a, b] if ch.flag() else [b, a])])


def groups(ch):
    """alternate groups suspend the check for the registers in them"""
    els = []
    for i, nm in enumerate("ABD"):
        g = ch.pick([None, "g"])
        els.append(R(nm, off=ch.pick([0, 2, 4]), alternateGroup=g,
                     alternateRegister=ch.pick([None, "ABD"[(i + 1) % 3]]) if g is None else None))
    return device([P("P", els)])


def nested(ch):
    """a cluster overlaps through what it contains; overlaps inside a cluster; dims; derived"""
    d = ch.pick([None, 2, 3])
    c = C("C%s" if d else "C", [R("x", off=0), R("y", off=ch.pick([0, 2, 4]))], off=ch.pick([0, 0x10]), dim=d,
          dimIncrement=ch.pick([4, 8, 16]) if d else None)
    r = R("r%s" if ch.flag() else "r", off=ch.pick([4, 8, 0x20]), size=ch.pick([32, 64]))
    if "%s" in r.name:
        r.a.update(dim=2, dimIncrement=ch.pick([2, 4, 8]))
    e = C("E", [R("z", off=ch.pick([0, 0x40]))] if ch.flag() else [R("z", off=0x30)],
          df=ch.pick([None, c.name]), off=ch.pick([0x20, 0x100]),
          alternateCluster=ch.pick([None, "C" if not d else "C0"]))
    return device([P("P", [c, r, e])])


def pers(ch, full):
    """peripherals: extents by address blocks and by registers, alternates in either direction, chains, derivation"""
    o2 = ch.pick([0, 4, 0xFFC, 0x1000, 0x1004])
    far = ch.pick([0, 0x1100])
    n1 = ch.pick([0x1000, 0x10])
    a1, a2 = ch.pick([None, "B", "D"]), ch.pick([None, "A", "D"])
    a = P("A", [R("r", off=far)], base=0x10000, blocks=[(0, n1, "registers", None)], alternatePeripheral=a1)
    b = P("B", [R("s")], base=0x10000 + o2, blocks=[(0, 0x1000, "registers", None)], alternatePeripheral=a2)
    if ch.flag():
        b = P("B", [], df="A", base=0x10000 + o2, alternatePeripheral=a2)
    d = P("D", [R("t")], base=ch.pick([0x10000, 0x20000]), blocks=[(0, 0x20, "registers", None)],
          alternatePeripheral=ch.pick([None, "A"]) if full or a2 != "A" else None)
    return device(ch.perm([a, b, d]) if full else [d, b, a])


def borders(ch, full):
    """extents that touch, overlap by one byte or miss by one: blocks and registers, peripherals and elements"""
    base = 0x10000
    end = ch.pick([0xFF, 0x100, 0x101, 0x104] + ([1, 0x103] if full else []))
    step = ch.pick([0x100, 0x104])
    reg = ch.pick([None, step - 4, step - 1, step, step + 4])
    size = ch.pick([8, 32]) if reg is not None else 32
    bl = [(0, end, "registers", None)]
    k = ch.n(3)
    if k == 1:
        bl = [(0x40, end - 0x40, "registers", None)] if end > 0x40 else bl
    elif k == 2:
        bl = [(end - 1, 1, "buffer", None), (0, 0x10, "registers", None)]
    a = P("A", [R("r")] + ([R("s", off=reg, size=size)] if reg is not None else []), base=base, blocks=bl)
    b = P("B", [R("t")], base=base + step, blocks=ch.pick([[(0, 1, "registers", None)], [(4, 4, "registers", None)]]),
          alternatePeripheral=ch.pick([None, "A"]) if full else None)
    return device([a, b] if ch.flag() else [b, a])


def arrays(ch):
    """instances of dim peripherals and registers"""
    lv = ch.pick("PCR")
    w = {"P": 0x1000, "C": 8, "R": 4}[lv]
    inc = w // ch.pick([1, 2, 4]) if ch.flag() else w * 2
    alt = {"P": "alternatePeripheral", "C": "alternateCluster", "R": "alternateRegister"}[lv]
    kid = [R("k"), R("l", off=4)] if lv == "C" else [R("k")] if lv == "P" else None
    a = elem(lv, 1, "A[%s]", ch=kid, dim=ch.pick([2, 3]), dimIncrement=inc, **{alt: ch.pick([None, "A0", "A1", "B"])})
    b = elem(lv, 1, "B", ch=kid, **{alt: ch.pick([None, "A0", "A1", "A[%s]"])})
    if ch.flag():
        b.a["addressOffset" if lv != "P" else "baseAddress"] += ch.pick([w, 2 * w, 8 * w])
    return wrap(lv, [a, b])


def web(ch, full):
    """four elements of a level, two or three of which share a place; every way in which they may name alternates"""
    lv = ch.pick("RCP")
    names = "ABDE"
    key = {"P": "alternatePeripheral", "C": "alternateCluster", "R": "alternateRegister"}[lv]
    kid = [R("k")] if lv in "PC" else None
    two = ch.flag() if full else False
    place = ch.pick([(1, 1, 2, 3), (1, 2, 1, 3), (1, 2, 3, 1), (2, 1, 1, 3), (2, 1, 3, 1), (2, 3, 1, 1), (1, 1, 1, 2), (1, 1, 2, 2)]
                    if full else [(1, 1, 2, 3), (1, 2, 3, 1), (2, 1, 1, 3), (1, 1, 2, 2)])
    els = []
    for i, nm in enumerate(names):
        alt = ch.pick([None] + [x for x in names if x != nm])
        els.append(elem(lv, place[i], nm, ch=kid and [k.copy() for k in kid], **{key: alt}))
    return wrap(lv, els[::-1] if two else els)


def spaces(tier):
    th = tier != "quick"
    kw = dict(extra=none_spurious)
    return [
        tree_space("regs", lambda ch: regs(ch, th), "two registers/clusters: extents x alternates", **kw),
        tree_space("groups", groups, "alternate groups", **kw),
        tree_space("nested", nested, "clusters, dims, derived clusters", **kw),
        tree_space("pers", lambda ch: pers(ch, th), "peripherals", **kw),
        tree_space("borders", lambda ch: borders(ch, th), "peripherals that touch or overlap by a byte", **kw),
        tree_space("web", lambda ch: web(ch, th), "four elements, their places and all alternates among them", **kw),
        tree_space("arrays", arrays, "dim instances", **kw),
    ]
