"""Which enumerated-value containers a field ends up with."""
from ..core import Violation
from ..doc import to_xml
from ..gen import *
from ..oracle import tree_space

ASSUME = ["up to three containers per field; derivation of containers, of their fields and of registers, dims"]
U = [None, "read", "write", "read-write"]


def usages(ch):
    """every combination of up to three containers and usages, in one field and its derived copy"""
    n = ch.n(4)
    cs = [EV([(f"v{i}", str(i))], name=f"V{i}", usage=ch.pick(U)) for i in range(n)]
    f = F("f", 0, 2, cs, access=ch.pick([None, "read-only"]))
    g = F("g", 4, 6, [EV([("w", "3")], name="W", usage=ch.pick(U))] if ch.flag() else [], df="f")
    if ch.flag():
        return device([P("P", [R("r", [f, g] if ch.flag() else [g, f])])])
    return device([P("P", [R("r", [f])])])


def copies(ch, full):
    """derived containers: same field, other field, other register, other peripheral, chains, through dims"""
    va = EV([("x", "1"), ("y", "2")], name="VA", headerEnumName=ch.pick([None, "HA"]), usage=ch.pick(U[:3]))
    a = F("a%s" if ch.flag() else "a", 0, 1, [va], dim=2, dimIncrement=2)
    if "%s" not in a.name:
        a.a.pop("dim")
        a.a.pop("dimIncrement")
    an = ch.pick(["a%s", "a1", "a0"]) if "%s" in a.name else "a"
    vb = EV(df=ch.pick([f"{an}.VA", f"r.{an}.VA", f"P.r.{an}.VA"]), name=ch.pick([None, "VB"]),
            usage=ch.pick([None, "write"]))
    vb.df = f"P.r.{an}.VA" if not full else vb.df
    b = F("b", 8, 9, [vb])
    vc = EV(df="P.r.b.VB" if vb.name else f"P.r.{an}.VA", name="VC", headerEnumName=ch.pick([None, "HC"]))
    c = F("c", 12, 14, [vc])
    two = ch.pick([None, "P.q.c.VC"])
    q = R("q", [c, F("e", 16, 17, [EV(df=two, name="VE")] if two else [EV([("k", "0")], name="VE")])], off=4)
    r = R("r", [a, b])
    s = R("s", df=ch.pick(["q", "r"]), off=8)
    k = ch.n(3)
    return device([P("P", [[r, q, s], [s, q, r], [q, s, r]][k])])


def inherited(ch):
    """fields, registers, clusters and peripherals that inherit fields with containers"""
    v = EV([("x", "1")], name="V", usage=ch.pick(U))
    w = EV([("z", "0")], name="W", usage=ch.pick(U))
    f = F("f", 0, 1, [v])
    g = F("g", 4, 5, ch.pick([[], [w]]), df=ch.pick([None, "f"]))
    r = R("R", [f, g])
    s = R("S", [F("h", 8, 9, df=ch.pick(["P.R.f", "P.R.g", "f", "g"]))], df=ch.pick([None, "R"]), off=8)
    q = P("Q", [R("T", [F("i", 12, 13, [EV(df=ch.pick(["P.R.f.V", "R.f.V"]))])], off=0x10)], df="P", base=0x1000)
    q.ch[0].ch[0].ch[0].df = "P.R.f.V"
    return device([P("P", [r, s]), q] if ch.flag() else [q, P("P", [s, r])])


def refs(ch):
    """how a derived container names its base: name only, partial and full paths, ambiguous and missing names"""
    path = ch.pick(["V", "f.V", "r.f.V", "P.r.f.V", "Q.r.f.V", "W", "r.V", "P.f.V", "g.U", "P.s.h.V", "P.c.k.f.V",
                    "P.r.g.U"])
    u = EV(df=path, name="U")
    f = F("f", 0, 1, [EV([("x", "1")], name="V")])
    h = F("h", 0, 1, [EV([("y", "2")], name="V")])
    g = F("g", 4, 5, [u] + ([EV([("z", "3")], name=ch.pick(["V", "W"]), usage="write")] if ch.flag() else []))
    k = C("c", [R("k", [F("f", 0, 1, [EV([("q", "0")], name="V")])])], off=0x20)
    q = P("Q", [R("r", [F("f", 0, 1, [EV([("p", "3")], name="V")])])], base=0x1000)
    if len(g.ch) > 1:
        u.a["usage"] = "read"
    r = R("r", [f, g] if ch.flag() else [g, f])
    return device([P("P", [r, R("s", [h], off=8), k]), q])


def fits(ch, full):
    """a container serves fields of different widths: its values, patterns and default unfold for each field anew"""
    vals = [[("a", "0")], [("a", "1"), ("b", "2")], [("a", "5")], [("a", "1")], [("x", "#x1")], [("a", "#01"), ("b", "#1x")]]
    vs = ch.pick(vals)
    if ch.flag():
        vs = vs + [{"name": "rest", "isDefault": True}]
    w1, w2, w3 = (ch.pick([1, 2, 3]) for _ in range(3))
    a = F("A", 0, w1 - 1, [EV(vs, name="E")])
    b = F("B", 8, 8 + w2 - 1, [EV(df="P.R.A.E", name=ch.pick([None, "G"]))])
    k = ch.n(4 if full else 3)
    c = [F("C", 16, 16 + w3 - 1, df="A"), F("C", 16, 16 + w3 - 1, [EV(df="P.R.A.E")]),
         F("C", 16, 16 + w3 - 1, df="B"), F("C", 16, 16 + w3 - 1, [EV(df="P.R.B.G")])][k]
    return device([P("P", [R("R", ch.pick([[a, b, c], [c, b, a]]))])])


def own(dev, r, st):
    """every field has containers, lists and values of its own"""
    seen = {}

    def take(o, where):
        if id(o) in seen:
            raise Violation("two fields share a container, a list of values or a value", places=[seen[id(o)], where],
                            xml=to_xml(dev))
        seen[id(o)] = where
    for p in r.obj.peripherals:
        for reg in p.registers:
            for f in reg.fields:
                w = f"{p.name}.{reg.name}.{f.name}"
                take(f, w)
                take(f.enumerated_value_containers, w)
                for c in f.enumerated_value_containers:
                    take(c, w + "." + str(c.name))
                    take(c.enumerated_values, w + "." + str(c.name))
                    for v in c.enumerated_values:
                        take(v, w + "." + str(c.name) + "." + v.name)


def spaces(tier):
    th = tier != "quick"
    return [
        tree_space("usages", usages, "containers and usages of one field"),
        tree_space("copies", lambda ch: copies(ch, th), "derived containers", extra=own),
        tree_space("inherited", inherited, "containers that come with inherited fields", extra=own),
        tree_space("fits", lambda ch: fits(ch, th), "one container in fields of three widths each", extra=own),
        tree_space("refs", refs, "references to a container", extra=own),
    ]
