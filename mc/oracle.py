"""Comparison of a real execution with the reference model."""
from . import model, observe
from .core import Violation
from .doc import to_xml


def diff(a, b, path=""):
    """first difference between expected a and actual b, or None"""
    if a == b and not path:
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k == "end":
                continue
            if k not in b:
                return f"{path}.{k}: missing"
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            nm = x.get("name", i) if isinstance(x, dict) else i
            d = diff(x, y, f"{path}[{nm}]")
            if d:
                return d
        if len(a) != len(b):
            def nms(l):
                return [x.get("name", "?") if isinstance(x, dict) else x for x in l]
            return f"{path}: expected {len(a)} entries {nms(a)}, got {len(b)} {nms(b)}"
        return None
    if isinstance(a, dict) or isinstance(b, dict) or a != b or type(a) is not type(b) and not (
            isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path}: expected {a!r}, got {b!r}"
    return None


def expected(dev):
    """('ok', tree, warns) or ('err', reason, None)"""
    try:
        t, w = model.expand(dev)
        return "ok", t, w
    except model.Err as e:
        return "err", str(e), None


def quoted(name, text):
    """text mentions the element name as a word (in whatever case)"""
    name, text = name.lower(), text.lower()
    i = text.find(name)
    while i >= 0:
        j = i + len(name)
        if (i == 0 or not (text[i - 1].isalnum() or text[i - 1] == "_")) and \
                (j == len(text) or not (text[j].isalnum() or text[j] == "_")):
            return True
        i = text.find(name, i + 1)
    return False


ALL = ("dim-ignored", "bitrange-swap", "ignored", "unaligned", "blocks-overlap", "field-exceeds", "overlap",
       "enum-ignored", "enum-default-value", "msb<lsb")


READS = ("read-only", "read-write", "writeOnce", "read-writeOnce")


def laws(tree):
    """what has to be true of every processed device, whatever the document: yields violations. Independent of the model."""
    ps = tree["peripherals"]
    if len({p["name"] for p in ps}) != len(ps):
        yield "two peripherals of one name"
    if [(p["base_address"], p["name"]) for p in ps] != sorted((p["base_address"], p["name"]) for p in ps):
        yield "peripherals out of order"
    for p in ps:
        regs = []
        if not p["children"]:
            yield f"{p['name']} is empty"
        yield from level(p, p["base_address"], regs)
        end = max([c["base_address"] + extent(c) for c in p["children"]], default=0) - 1
        if p["end_address_effective"] != end or p["peripheral_size_effective"] != end - p["base_address"] + 1:
            yield f"extent of {p['name']}"
        if sorted(p["registers"]) != p["registers"] or sorted(regs) != p["registers"]:
            yield f"registers of {p['name']}"
        b = [x[0] for x in p["blocks"]]
        if b != sorted(b) or not b or p["end_address"] != p["base_address"] + max(x[0] + x[1] for x in p["blocks"]) - 1:
            yield f"address blocks of {p['name']}"
        v = [x[2] for x in p["interrupts"]]
        if v != sorted(v):
            yield f"interrupts of {p['name']}"


def extent(c):
    return c["size"] // 8 if c["kind"] == "register" else c["cluster_size"]


def level(e, base, regs):
    kids = e["children"]
    names = [(c["name"], c.get("alternate_group") or None) for c in kids]
    if len(set(names)) != len(names):
        yield f"two siblings of one name in {e['name']}"
    order = [(c["base_address"], c.get("alternate_group") is not None, c.get("alternate_group") or "", c["name"]) for c in kids]
    if order != sorted(order):
        yield f"children of {e['name']} out of order"
    for c in kids:
        n = c["name"]
        if c["base_address"] != base + c["address_offset"]:
            yield f"address of {n}"
        if c["size"] % 8:
            yield f"size of {n}"
        if None in (c["access"], c["protection"], c["reset_value"], c["reset_mask"]):
            yield f"{n} lacks a property"
        if c["kind"] == "cluster":
            yield from level(c, c["base_address"], regs)
            end = max([x["base_address"] + extent(x) for x in c["children"]], default=0) - 1
            if c["end_address"] != end or c["cluster_size"] != end - c["base_address"] + 1:
                yield f"extent of {n}"
            continue
        regs.append((c["base_address"], n))
        if n.lower() == "reserved":
            yield "a register called reserved"
        if c["alternate_group"] is not None and c["alternate_register"] is not None:
            yield f"{n} is alternate twice"
        fs = c["fields"]
        if [f["lsb"] for f in fs] != sorted(f["lsb"] for f in fs):
            yield f"fields of {n} out of order"
        if len({f["name"] for f in fs}) != len(fs):
            yield f"two fields of one name in {n}"
        for i, f in enumerate(fs):
            lo, hi = f["lsb"], f["msb"]
            if f["name"].lower() == "reserved":
                yield "a field called reserved"
            if (f["bit_offset"], f["bit_width"], f["bit_range"]) != (lo, hi - lo + 1, [hi, lo]) or f["access"] is None:
                yield f"position of field {f['name']}"
            for g in fs[:i]:
                if lo <= g["msb"] and g["lsb"] <= hi and lo <= hi and g["lsb"] <= g["msb"] and (
                        f["access"] in READS and g["access"] in READS or f["access"] != "read-only" and g["access"] != "read-only"):
                    yield f"{f['name']} and {g['name']} share a bit and an access"
            us = [k["usage"] for k in f["enums"]]
            if len(us) > 1 and sorted(us) != ["read", "write"]:
                yield f"usages of {f['name']}"
            for k in f["enums"]:
                vs = [v["value"] for v in k["values"]]
                if vs != sorted(set(vs)) or vs and not 0 <= vs[0] <= vs[-1] < 1 << max(hi - lo + 1, 0):
                    yield f"values of {f['name']}: {vs}"
                ns = [v["name"] for v in k["values"]]
                if len(set(ns)) != len(ns):
                    yield f"two values of one name in {f['name']}: {ns}"
                if any(x.lower() == "reserved" for x in ns):
                    yield "a value called reserved"


def lawful(r, xml):
    if r.tree is not None:
        for what in laws(r.tree):
            raise Violation("a processed device breaks a law of the format", law=what, xml=xml, got=r.tree)


def check_tree(dev, st, kinds=ALL, xml=None, quiet=True):
    """processes dev for real and demands the model's outcome.

    kinds: model warnings that have to be issued; quiet: without any model warning there has to be no ProcessWarning."""
    xml = xml if xml is not None else to_xml(dev)
    try:
        exp, tree, warns = expected(dev)
    except model.Undef:
        r = observe.process(xml)   # still has to terminate, and to give what a device may be
        st.execs += 1
        lawful(r, xml)
        return "undefined by the model", None, None
    r = observe.process(xml)
    st.execs += 1
    if exp == "err":
        if not r.failed:
            st.outcome(repr(r.tree))
            raise Violation("a document that has to be rejected was accepted", reason=tree, xml=xml, got=r.tree)
        if isinstance(r.exc, (RecursionError, MemoryError)):
            raise Violation("a document was rejected by exhausting a resource", error=repr(r.exc), xml=xml)
        st.outcome("rejected")
        return "rejected", r, None
    if r.failed:
        raise Violation("a valid document was rejected", error=f"{type(r.exc).__name__}: {r.exc}", xml=xml,
                        expected=tree)
    lawful(r, xml)
    d = diff(tree, r.tree)
    st.outcome(repr(r.tree))
    if d:
        raise Violation("processed device differs from the reference model", difference=d, xml=xml, expected=tree,
                        got=r.tree)
    for kind, names in warns:
        if kind in kinds:
            if not any(c == "ProcessWarning" and all(quoted(n, t) for n in names) for c, t in r.warns):
                raise Violation(f"no warning issued ({kind}) naming {names}", xml=xml, warnings=r.warns)
    if quiet and not warns and any(c == "ProcessWarning" for c, _ in r.warns):
        raise Violation("a warning was issued although nothing is wrong", xml=xml, warnings=r.warns)
    return ("ok with warnings" if warns else "ok"), r, warns


def tree_space(name, gen, bound, budget=None, kinds=ALL, quiet=True, extra=None, split=64):
    """a space of documents, each judged against the reference model"""
    from .core import Space

    def run(dev, st):
        label, r, warns = check_tree(dev, st, kinds, None, quiet)
        if extra is not None and r is not None and r.tree is not None:
            extra(dev, r, st)
        return label

    return Space(name, gen, run, key=to_xml, budget=budget, bound=bound, describe=to_xml, split=split)
