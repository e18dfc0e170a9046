"""The register map lists every register of the device once, at its absolute address."""
from .. import borrow, observe
from ..core import Space, Violation
from ..doc import to_xml
from ..gen import *

ASSUME = ["documents of the spaces of other checks plus peripherals with several address blocks; documents that are "
          "rejected have to be rejected by the map as well"]


def leaves(el, base):
    for c in el.registers_clusters:
        if hasattr(c, "fields"):
            yield base + c.address_offset, c
        else:
            yield from leaves(c, base + c.address_offset)


def plain(r):
    return (r.size, r.access.value, r.protection.value, r.reset_value, r.reset_mask, r.name, r.display_name,
            r.description, [observe.field(f) for f in r.fields])


def judge(xml, st, how=0):
    from svdsuite import PeripheralRegisterMap, Process
    p = observe.call(lambda: Process.from_xml_content(xml.encode()).get_processed_device())
    if how == 0:
        m = observe.call(lambda: PeripheralRegisterMap.from_xml_content(xml.encode()))
    elif how == 1:
        m = observe.call(lambda: PeripheralRegisterMap.from_xml_str(xml))
    else:
        m = observe.call(lambda: PeripheralRegisterMap(Process.from_xml_str(xml).get_processed_device()))
    st.execs += 2
    if p.failed != m.failed:
        raise Violation("the map and the processed device disagree on whether the document is acceptable",
                        processed=repr(p.exc), map=repr(m.exc), xml=xml)
    if p.failed:
        return "rejected"
    ms, ps = m.obj.peripheral_map, p.obj.peripherals
    if [x.address for x in ms] != sorted(x.address for x in ms):
        raise Violation("the peripherals of the map are not in the order of their addresses", xml=xml,
                        got=[(x.name, x.address) for x in ms])
    if sorted(x.name for x in ms) != sorted(x.name for x in ps):
        raise Violation("the map does not list each peripheral once", xml=xml, got=[x.name for x in ms])
    by = {x.name: x for x in ps}
    for x in ms:
        q = by[x.name]
        lo = min(b.offset for b in q.address_blocks)
        hi = max(b.offset + b.size for b in q.address_blocks)
        want = (q.base_address, q.description, (q.base_address + lo, q.base_address + hi - 1))
        got = (x.address, x.description, tuple(x.allocated_range))
        if want != got:
            raise Violation("address, description or allocated range of a peripheral", xml=xml, expected=want, got=got)
        want = sorted(((a, *plain(r)) for a, r in leaves(q, q.base_address)), key=repr)
        got = sorted(((r.address, *plain(r)) for r in x.registers), key=repr)
        if want != got:
            raise Violation("the registers of a peripheral in the map differ from those of the device", xml=xml,
                            expected=want, got=got)
        for r in x.registers:
            if r.processed.name != r.name or r.processed.fields != r.fields or \
                    r.processed.base_address != r.address:
                raise Violation("a register of the map does not refer to its processed register", xml=xml, got=repr(r))
        if x.processed.name != x.name:
            raise Violation("a peripheral of the map does not refer to its processed peripheral", xml=xml)
    st.outcome(repr([(x.name, x.address, x.allocated_range, [(r.address, r.name) for r in x.registers]) for x in ms]))
    return "ok"


def blocks(ch):
    """allocated range: up to three blocks in every order, gaps, nesting; peripherals in any order; derived ones"""
    bs = ch.perm(ch.pick([[(0, 4)], [(0, 0x10), (0x20, 8)], [(0x10, 4), (0x14, 4)], [(0, 4), (0x10, 4), (0x100, 0x1000)],
                          [(4, 0x40), (0x48, 4), (0x44, 4)]]))
    use = ch.pick([["registers"], ["buffer", "reserved"], ["reserved", "registers"]])
    P_ = [P("P", [R("A", off=4), C("C", [R("B")], off=0x10)], base=ch.pick([0, 0x40000, 0xFFFF0000]),
            blocks=[(o, s, use[i % len(use)], None) for i, (o, s) in enumerate(bs)], description=ch.pick([None, "text"])),
          P("Q", [R("A", off=8)], base=ch.pick([0x20000, 0x80000, 2]))]
    if ch.flag():
        P_.append(P("S", [R("E", off=0x80)] if ch.flag() else [], df=ch.pick(["P", "Q"]), base=0x60000))
        if ch.flag():
            P_[-1].a["addressBlock"] = [(0x200, 4, "registers", None)]
    return device(ch.perm(P_)), ch.n(3)


def deep(ch):
    """nesting with dims on every level"""
    def dim(name):
        d = ch.pick([None, 2, 3])
        return {"name": f"{name}%s", "dim": d, "dimIncrement": 0x10 * ch.pick([1, 2])} if d else {"name": name}
    r = E("register", None, [F("f", 0, 1)], addressOffset=ch.pick([0, 4]), **dim("R"))
    a = E("cluster", None, [r], addressOffset=ch.pick([0, 0x100]), **{**dim("A")})
    b = E("cluster", None, [a, R("T", off=0x400)], addressOffset=0x1000, **{**dim("B")})
    for e, k in ((a, 0x80), (b, 0x800)):
        if e.a.get("dim"):
            e.a["dimIncrement"] = k
    return device([P("P", [b, R("Z", off=0x8000)], base=0x40000000)]), ch.n(3)


def outside(ch):
    """fields that reach beyond their register, are as wide as it or lie on its last bit; registers of every size"""
    size = ch.pick([8, 16, 32, 64])
    lo, w = ch.pick([0, size - 2, size - 1, size, size + 7]), ch.pick([1, 2, 3, size])
    f = [F("a", lo, lo + w - 1, [EV([("v", "0")])] if ch.flag() else []), F("b", size + 80, size + 81), F("c", 90 + size, 90 + size)]
    f = f[:1 + ch.n(3)]
    if ch.flag():
        f = f[::-1]
    r = R("R", f, size=size, access=ch.pick(["read-write", "write-only"]), off=0)
    els = [r, R("S", df="R", off=0x20)] if ch.flag() else [r]
    return device([P("P", [C("K", els, off=8)] if ch.flag() else els, base=0x400)]), ch.n(3)


def spaces(tier):
    th = tier != "quick"
    key = lambda c: f"{c[1]}" + to_xml(c[0])   # noqa: E731

    def run(c, st):
        return judge(to_xml(c[0]), st, c[1])
    out = [Space("outside", outside, run, key=key, describe=key, bound="fields within and beyond registers of four sizes"),
           Space("blocks", blocks, run, key=key, describe=key, bound="address blocks x order x derivation"),
           Space("deep", deep, run, key=key, describe=key, bound="dims on three levels")]
    src = {"c10": ["nest", "dimmed"], "c11": ["siblings", "flattened"], "c05": ["nested"], "c08": ["levels"],
           "c18": None, "c17": ["groups", "nested"]}
    if th:
        src = borrow.ALL
    return out + borrow.spaces(tier, judge, src)
