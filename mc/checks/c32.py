"""What a processed device says about device, processor and security attribution, with the defaults of the format."""
from .. import observe, pm
from ..core import Space, Violation
from ..oracle import diff
from ..pgen import *

ASSUME = ["any three (thorough: four) attributes set differently at once"]
B3 = [None, True, False]


def text(n):
    return [None, n, n + " 2"]


def device(ch):
    """any attributes of device and cpu"""
    d = SMALL.copy()
    d.v["peripherals"][0].v["registers_clusters"][0].v["description"] = "x"
    for py, tag, typ, m in KINDS["device"][1]:
        if typ in ("s", "r"):
            v = ch.dev([d.v.get(py)] + text(py)[0 if not m else 1:])
            if v is not None:
                d.v[py] = v
    for py, vs in (("size", [None, 32, 64, 128]), ("access", [None] + ENUMS["access"]),
                   ("protection", [None] + ENUMS["protection"]), ("reset_value", [None, 0, 1, 0xFFFFFFFF]),
                   ("reset_mask", [None, 0, 0xFF]), ("address_unit_bits", [8, 16, 0]), ("width", [32, 64, 8, 0])):
        v = ch.dev(vs)
        if v is not None:
            d.v[py] = v
    cpu(ch, d)
    return d


def cpu(ch, d):
    c = d.v["cpu"]
    c.v["name"] = ch.dev(ENUMS["cpuname"][4:] + ENUMS["cpuname"][:4])
    c.v["revision"] = ch.dev(["r0p1", "r2p0"])
    c.v["endian"] = ch.dev(ENUMS["endian"])
    c.v["nvic_prio_bits"] = ch.dev([3, 2, 8, 0])
    c.v["vendor_systick_config"] = ch.dev([False, True])
    for py, tag, typ, m in KINDS["cpu"][1]:
        if typ == "b" and not m:
            v = ch.dev(B3)
            if v is not None:
                c.v[py] = v
    for py in ("device_num_interrupts", "sau_num_regions"):
        v = ch.dev([None, 0, 240])
        if v is not None:
            c.v[py] = v
    if ch.dev([True, False]):
        sau(ch, c)
    if not ch.dev([True, False]):
        d.v["cpu"] = None


def sau(ch, c):
    s = N("sauRegionsConfig", regions=[])
    for py, vs in (("enabled", B3), ("protection_when_disabled", [None, "s", "n", "p", "any"])):
        v = ch.dev(vs)
        if v is not None:
            s.v[py] = v
    for i in range(ch.dev([2, 0, 1, 3])):
        r = N("region", base=ch.dev([0x1000 * i, 0x9000 - i]), limit=0x1000 * i + ch.dev([0xFFF, 0]),
              access=ch.dev(["c", "n"]))
        for py, vs in (("enabled", B3), ("name", [None, f"r{i}", "same"])):
            v = ch.dev(vs)
            if v is not None:
                r.v[py] = v
        s.v["regions"].append(r)
    c.v["sau_regions_config"] = s


def want(d):
    g = d.v.get
    out = {py: g(py) for py, tag, typ, m in KINDS["device"][1] if typ in ("s", "r")}
    out.update(size=32 if g("size") is None else g("size"), access=g("access") or "read-write",
               protection=g("protection") or "any", reset_value=g("reset_value") or 0,
               reset_mask=0xFFFFFFFF if g("reset_mask") is None else g("reset_mask"),
               address_unit_bits=g("address_unit_bits"), width=g("width"), cpu=None)
    c = g("cpu")
    if c is not None:
        o = {py: c.v.get(py) for py, tag, typ, m in KINDS["cpu"][1] if typ != "@@"}
        for py, tag, typ, m in KINDS["cpu"][1]:
            if typ == "b" and o[py] is None:
                o[py] = py == "vtor_present"
        if o["name"] == "CM0+":
            o["name"] = "CM0PLUS"
        s = c.v.get("sau_regions_config")
        o["sau_regions_config"] = None if s is None else {
            "enabled": s.v.get("enabled", True), "protection_when_disabled": s.v.get("protection_when_disabled", "s"),
            "regions": [{"enabled": r.v.get("enabled", True), "name": r.v.get("name"), "base": r.v["base"],
                         "limit": r.v["limit"], "access": r.v["access"]} for r in s.v["regions"]]}
        out["cpu"] = o
    return out


def strip(x):
    return {k: strip(v) for k, v in x.items() if k != "__"} if isinstance(x, dict) else (
        [strip(v) for v in x] if isinstance(x, list) else x)


def run(d, st):
    from svdsuite import Process
    xml = pm.to_xml(d)
    r = observe.call(lambda: Process.from_xml_content(xml.encode()))
    st.execs += 1
    if r.failed:
        raise Violation("a valid document was rejected", error=f"{type(r.exc).__name__}: {r.exc}", xml=xml)
    got = strip(observe.parsed(r.obj.get_processed_device(), ("parent", "parsed", "peripherals")))
    st.outcome(repr(got))
    x = diff(want(d), got)
    if x:
        raise Violation("device information differs", difference=x, xml=xml)
    conv = strip(observe.parsed(r.obj.convert_processed_device_to_svd_device(), ("parent", "peripherals")))
    for k in ("schema_version", "xs_no_namespace_schema_location"):
        conv.pop(k)
    conv["protection"] = conv["protection"] or "any"   # which is what it means, but cannot be written
    x = diff(want(d), conv)
    if x:
        raise Violation("device information differs after conversion", difference=x, xml=xml)
    return "ok"


def full(ch):
    d = RICH.copy()
    for n in list(d.walk()):
        if n.kind == "device":
            n.v["peripherals"] = SMALL.copy().v["peripherals"]
            n.v["size"] = 32
    k = [s for s in sites(d) if s[1] in ("device", "cpu", "sauRegionsConfig", "region") and not s[5]
         and s[4] not in ("@*", "@@")]
    s = k[ch.n(len(k))]
    node(d, s[0]).v.pop(s[2])
    j = ch.n(len(k))
    if k[j][0] >= 0:
        node(d, k[j][0]).v.pop(k[j][2], None)
    d.v.setdefault("size", 32)
    return d


def spaces(tier):
    b = 3 if tier != "quick" else 2
    return [Space("device", device, run, key=pm.to_xml, describe=pm.to_xml, budget=b,
                  bound=f"minimal document, any {b} attributes set differently"),
            Space("full", full, run, key=pm.to_xml, describe=pm.to_xml, bound="full document without any two attributes")]
