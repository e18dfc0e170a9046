"""Declarative description of the SVD format as a parsed document: element kinds, their attributes and lexical types.

From one node tree it derives both the XML text and the plain data a parsed document has to be.  Independent of the
code under test.
"""
import itertools
from xml.sax.saxutils import escape, quoteattr

ACCESS = ["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"]
PROT = ["s", "n", "p", "any"]
ENUMS = {
    "access": ACCESS, "protection": PROT,
    "cpuname": ["CM0", "CM0PLUS", "CM0+", "CM1", "CM3", "CM4", "CM7", "CM23", "CM33", "CM35P", "CM52", "CM55", "CM85",
                "SC000", "SC300", "ARMV8MML", "ARMV8MBL", "ARMV81MML", "CA5", "CA7", "CA8", "CA9", "CA15", "CA17",
                "CA53", "CA57", "CA72", "SMC1", "other"],
    "endian": ["little", "big", "selectable", "other"], "sau": ["c", "n"],
    "token": ["registers", "buffer", "reserved"],
    "dataType": [u + t + p for p in ("", " *") for u in ("uint", "int") for t in ("8_t", "16_t", "32_t", "64_t")],
    "mwv": ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set",
            "modify"],
    "readAction": ["clear", "set", "modify", "modifyExternal"], "usage": ["read", "write", "read-write"],
}
# kind: (class name, [(attribute, tag, type, mandatory)], [(attribute, [child kinds], wrapper tag, many)])
# types: s stripped text, r raw text, i integer, b boolean, @x attribute, any key of ENUMS
_DIM = [("dim", "dim", "i", False), ("dim_increment", "dimIncrement", "i", False), ("dim_index", "dimIndex", "s", False),
        ("dim_name", "dimName", "s", False), ("dim_array_index", "dimArrayIndex", "@@", False)]
_REG = [("size", "size", "i", False), ("access", "access", "access", False),
        ("protection", "protection", "protection", False), ("reset_value", "resetValue", "i", False),
        ("reset_mask", "resetMask", "i", False)]
_DF = [("derived_from", "derivedFrom", "@s", False)]


def _s(*names, t="s", m=False):
    out = []
    for n in names:
        py = "".join("_" + c.lower() if c.isupper() else c for c in n)
        out.append((py, n, t, m))
    return out


KINDS = {
    "device": ("SVDDevice", [("vendor", "vendor", "s", False), ("vendor_id", "vendorID", "s", False),
                             ("name", "name", "s", True), ("series", "series", "s", False),
                             ("version", "version", "s", True), ("description", "description", "r", True),
                             ("license_text", "licenseText", "r", False), ("cpu", "cpu", "@@", False)]
               + _s("headerSystemFilename", "headerDefinitionsPrefix") + _s("addressUnitBits", "width", t="i", m=True)
               + _REG + [("peripherals", "peripherals", "@*", True)]),
    "cpu": ("SVDCPU", [("name", "name", "cpuname", True), ("revision", "revision", "s", True),
                       ("endian", "endian", "endian", True), ("mpu_present", "mpuPresent", "b", False),
                       ("fpu_present", "fpuPresent", "b", False), ("fpu_dp", "fpuDP", "b", False),
                       ("dsp_present", "dspPresent", "b", False), ("icache_present", "icachePresent", "b", False),
                       ("dcache_present", "dcachePresent", "b", False), ("itcm_present", "itcmPresent", "b", False),
                       ("dtcm_present", "dtcmPresent", "b", False), ("vtor_present", "vtorPresent", "b", False),
                       ("nvic_prio_bits", "nvicPrioBits", "i", True),
                       ("vendor_systick_config", "vendorSystickConfig", "b", True),
                       ("device_num_interrupts", "deviceNumInterrupts", "i", False),
                       ("sau_num_regions", "sauNumRegions", "i", False),
                       ("sau_regions_config", "sauRegionsConfig", "@@", False)]),
    "sauRegionsConfig": ("SVDSauRegionsConfig", [("enabled", "enabled", "@b", False),
                                                 ("protection_when_disabled", "protectionWhenDisabled", "@protection",
                                                  False), ("regions", "", "@*", False)]),
    "region": ("SVDSauRegion", [("enabled", "enabled", "@b", False), ("name", "name", "@s", False),
                                ("base", "base", "i", True), ("limit", "limit", "i", True),
                                ("access", "access", "sau", True)]),
    "peripheral": ("SVDPeripheral", _DF + _DIM + [("name", "name", "s", True), ("version", "version", "s", False),
                                                  ("description", "description", "r", False)]
                   + _s("alternatePeripheral", "groupName", "prependToName", "appendToName", "headerStructName")
                   + [("disable_condition", "disableCondition", "r", False),
                      ("base_address", "baseAddress", "i", True)] + _REG
                   + [("address_blocks", "", "@*", False), ("interrupts", "", "@*", False),
                      ("registers_clusters", "registers", "@*", False)]),
    "addressBlock": ("SVDAddressBlock", [("offset", "offset", "i", True), ("size", "size", "i", True),
                                         ("usage", "usage", "token", True),
                                         ("protection", "protection", "protection", False)]),
    "interrupt": ("SVDInterrupt", [("name", "name", "s", True), ("description", "description", "r", False),
                                   ("value", "value", "i", True)]),
    "cluster": ("SVDCluster", _DF + _DIM + [("name", "name", "s", True), ("description", "description", "r", False)]
                + _s("alternateCluster", "headerStructName") + [("address_offset", "addressOffset", "i", True)] + _REG
                + [("registers_clusters", "", "@*", False)]),
    "register": ("SVDRegister", _DF + _DIM + [("name", "name", "s", True), ("display_name", "displayName", "s", False),
                                              ("description", "description", "r", False)]
                 + _s("alternateGroup", "alternateRegister") + [("address_offset", "addressOffset", "i", True)] + _REG
                 + [("data_type", "dataType", "dataType", False),
                    ("modified_write_values", "modifiedWriteValues", "mwv", False),
                    ("write_constraint", "writeConstraint", "@@", False),
                    ("read_action", "readAction", "readAction", False), ("fields", "fields", "@*", False)]),
    "field": ("SVDField", _DF + _DIM + [("name", "name", "s", True), ("description", "description", "r", False),
                                        ("bit_offset", "bitOffset", "i", False), ("bit_width", "bitWidth", "i", False),
                                        ("lsb", "lsb", "i", False), ("msb", "msb", "i", False),
                                        ("bit_range", "bitRange", "s", False), ("access", "access", "access", False),
                                        ("modified_write_values", "modifiedWriteValues", "mwv", False),
                                        ("write_constraint", "writeConstraint", "@@", False),
                                        ("read_action", "readAction", "readAction", False),
                                        ("enumerated_value_containers", "", "@*", False)]),
    "enumeratedValues": ("SVDEnumeratedValueContainer", _DF + _s("name", "headerEnumName")
                         + [("usage", "usage", "usage", False), ("enumerated_values", "", "@*", False)]),
    "enumeratedValue": ("SVDEnumeratedValue", [("name", "name", "s", True), ("description", "description", "r", False),
                                               ("value", "value", "s", False), ("is_default", "isDefault", "b", False)]),
    "dimArrayIndex": ("SVDDimArrayIndex", _s("headerEnumName") + [("enumerated_values", "", "@*", False)]),
    "writeConstraint": ("SVDWriteConstraint", [("write_as_read", "writeAsRead", "b", False),
                                               ("use_enumerated_values", "useEnumeratedValues", "b", False),
                                               ("range_", "range", "range", False)]),
}


class T:
    """a lexical form and the value it stands for (BAD: has to be rejected)"""
    __slots__ = ("text", "value", "raw")

    def __init__(self, text, value, raw=False):
        self.text, self.value, self.raw = text, value, raw

    def xml(self):
        return self.text if self.raw else escape(self.text)


BAD = object()


class N:
    """kind, values: attribute -> python value | T | N | list of N"""

    def __init__(self, kind, **v):
        self.kind = kind
        self.v = v
        self.pre = {}      # attribute -> XML text put in front of its element (repeated elements, comments ...)
        self.attrs = ""

    def copy(self):
        n = N(self.kind)
        n.v = {k: ([c.copy() for c in x] if isinstance(x, list) else x.copy() if isinstance(x, N) else x)
               for k, x in self.v.items()}
        n.pre = dict(self.pre)
        n.attrs = self.attrs
        return n

    def walk(self):
        yield self
        for x in self.v.values():
            for c in (x if isinstance(x, list) else [x] if isinstance(x, N) else []):
                yield from c.walk()


def lex(v):
    if isinstance(v, T):
        return v.xml()
    if isinstance(v, bool):
        return "true" if v else "false"
    return escape(str(v))


def val(v):
    return v.value if isinstance(v, T) else v


def to_xml(n, out=None, top=True):
    out = [] if out is None else out
    cls, attrs = KINDS[n.kind]
    head = [n.kind]
    for py, tag, typ, _ in attrs:
        if typ[0] == "@" and typ not in ("@@", "@*") and n.v.get(py) is not None:
            v = n.v[py]
            if isinstance(v, T) and v.raw:
                head.append(f'{tag}="{v.text}"')
            else:
                head.append(f"{tag}={quoteattr(v.text if isinstance(v, T) else ('true' if v is True else 'false' if v is False else str(v)))}")
    if n.kind == "device":
        head.append(n.attrs or 'xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" '
                    'xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd" schemaVersion="1.3"')
    out.append("<" + " ".join(head) + ">")
    for py, tag, typ, _ in attrs:
        out.append(n.pre.get(py, ""))
        v = n.v.get(py)
        if v is None or (typ[0] == "@" and typ not in ("@@", "@*")):
            continue
        if typ == "@@":
            to_xml(v, out, False)
        elif typ == "@*":
            if tag and (v or n.kind == "device"):
                out.append(f"<{tag}>")
            for c in v:
                to_xml(c, out, False)
            if tag and (v or n.kind == "device"):
                out.append(f"</{tag}>")
        elif typ == "range":
            out.append(f"<range><minimum>{lex(v[0])}</minimum><maximum>{lex(v[1])}</maximum></range>")
        else:
            out.append(f"<{tag}>{lex(v)}</{tag}>")
    out.append(n.pre.get("", ""))
    out.append(f"</{n.kind}>")
    return "".join(out) if top else None


def expect(n):
    """plain data of the parsed document"""
    cls, attrs = KINDS[n.kind]
    d = {"__": cls}
    if n.kind == "device":
        d["xs_no_namespace_schema_location"] = n.v.get("xs_no_namespace_schema_location", "CMSIS-SVD.xsd")
        d["schema_version"] = n.v.get("schema_version", "1.3")
    for py, tag, typ, _ in attrs:
        v = n.v.get(py)
        if typ == "@*":
            d[py] = [expect(c) for c in v or []]
        elif v is None:
            d[py] = None
        elif typ == "@@":
            d[py] = expect(v)
        elif typ == "range":
            d[py] = [val(v[0]), val(v[1])]
        else:
            d[py] = val(v)
    return d


def build(n):
    """the document as objects, made without the parser"""
    from svdsuite.model import parse as P
    from svdsuite.model import types as E
    enums = {"access": E.AccessType, "protection": E.ProtectionStringType, "cpuname": E.CPUNameType,
             "endian": E.EndianType, "sau": E.SauAccessType, "token": E.EnumeratedTokenType,
             "dataType": E.DataTypeType, "mwv": E.ModifiedWriteValuesType, "readAction": E.ReadActionType,
             "usage": E.EnumUsageType}
    cls, attrs = KINDS[n.kind]
    kw, kids = {}, []
    if n.kind == "device":
        kw = {"xs_no_namespace_schema_location": n.v.get("xs_no_namespace_schema_location", "CMSIS-SVD.xsd"),
              "schema_version": n.v.get("schema_version", "1.3")}
    for py, tag, typ, _ in attrs:
        v = n.v.get(py)
        if typ == "@*":
            kw[py] = [build(c) for c in v or []]
            kids += kw[py]
        elif v is None:
            continue
        elif typ == "@@":
            kw[py] = build(v)
            kids.append(kw[py])
        elif typ == "range":
            kw[py] = (val(v[0]), val(v[1]))
        elif typ.lstrip("@") in enums:
            kw[py] = enums[typ.lstrip("@")](val(v))
        else:
            kw[py] = val(v)
    o = getattr(P, cls)(**kw)
    for k in kids:
        k.parent = o
    return o


def ev(i, **k):
    return N("enumeratedValue", name=f"e{i}", description=f"ed{i}", value=str(i), **k)


def rich():
    """a document in which every kind occurs, with every attribute set to a value that occurs nowhere else"""
    c = itertools.count(3)

    def full(kind, tag, schema=True):
        n = N(kind)
        for py, t, typ, m in KINDS[kind][1]:
            if typ in ("s", "r", "@s"):
                n.v[py] = f"{tag}_{t}"
            elif typ == "i":
                n.v[py] = next(c)
            elif typ in ("b", "@b"):
                n.v[py] = next(c) % 2 == 0
            elif typ.lstrip("@") in ENUMS:
                vs = ENUMS[typ.lstrip("@")]
                vs = vs[:3] if typ.lstrip("@") == "protection" else vs
                n.v[py] = vs[next(c) % len(vs)]
        return n

    def dai(tag):
        return N("dimArrayIndex", header_enum_name=f"{tag}_hdr", enumerated_values=[ev(next(c)), ev(next(c))])

    def fld(tag, pos):
        f = full("field", tag)
        for k in ("bit_offset", "bit_width", "lsb", "msb", "bit_range"):
            if k not in pos:
                del f.v[k]
        if "bit_range" in pos:
            f.v["bit_range"] = "[7:3]"
        f.v["dim_index"] = "0-3"
        f.v["dim_array_index"] = dai(tag)
        f.v["write_constraint"] = N("writeConstraint", range_=(next(c), next(c)))
        cs = []
        for i in range(2):
            e = full("enumeratedValues", f"{tag}_ev{i}")
            e.v["enumerated_values"] = [ev(next(c)), N("enumeratedValue", name=f"dv{i}", is_default=True)]
            cs.append(e)
        f.v["enumerated_value_containers"] = cs
        return f

    def reg(tag, alt, wc):
        r = full("register", tag)
        del r.v["alternate_group" if alt == "r" else "alternate_register"]
        r.v["dim_index"] = "A-C"
        r.v["dim_array_index"] = dai(tag)
        r.v["write_constraint"] = N("writeConstraint", **wc)
        r.v["fields"] = [fld(f"{tag}_f0", ("lsb", "msb")), fld(f"{tag}_f1", ("bit_offset", "bit_width")),
                         fld(f"{tag}_f2", ("bit_range",))]
        return r

    def clu(tag, kids):
        k = full("cluster", tag)
        k.v["dim_index"] = "x,y"
        k.v["dim_array_index"] = dai(tag)
        k.v["registers_clusters"] = kids
        return k

    d = full("device", "dev")
    cpu = full("cpu", "cpu")
    cpu.v["revision"] = "r1p2"
    cfg = full("sauRegionsConfig", "sau")
    cfg.v["regions"] = [full("region", "reg0"), full("region", "reg1")]
    cpu.v["sau_regions_config"] = cfg
    d.v["cpu"] = cpu
    ps = []
    for i in range(2):
        p = full("peripheral", f"p{i}")
        p.v["dim_index"] = "0-1"
        p.v["dim_array_index"] = dai(f"p{i}")
        p.v["address_blocks"] = [full("addressBlock", f"p{i}_ab{j}") for j in range(2)]
        p.v["interrupts"] = [full("interrupt", f"p{i}_i{j}") for j in range(2)]
        kids = [reg(f"p{i}_r0", "r", {"write_as_read": True}),
                clu(f"p{i}_c", [reg(f"p{i}_cr", "g", {"use_enumerated_values": False}),
                                clu(f"p{i}_cc", [reg(f"p{i}_ccr", "r", {"range_": (next(c), next(c))})])]),
                reg(f"p{i}_r1", "g", {"write_as_read": False})]
        p.v["registers_clusters"] = kids if i == 0 else kids[1:]
        ps.append(p)
    d.v["peripherals"] = ps
    return d


def small():
    """one of each kind with what is mandatory"""
    f = N("field", name="f", lsb=0, msb=1, enumerated_value_containers=[N("enumeratedValues", enumerated_values=[ev(1)])])
    r = N("register", name="r", address_offset=4, fields=[f])
    c = N("cluster", name="c", description="cd", address_offset=8, registers_clusters=[N("register", name="q", address_offset=0)])
    p = N("peripheral", name="P", base_address=0x1000, registers_clusters=[r, c],
          address_blocks=[N("addressBlock", offset=0, size=16, usage="registers")],
          interrupts=[N("interrupt", name="I", value=7)])
    cpu = N("cpu", name="CM4", revision="r0p1", endian="little", nvic_prio_bits=3, vendor_systick_config=False)
    return N("device", name="D", version="1", description="dd", address_unit_bits=8, width=32, cpu=cpu, peripherals=[p])
