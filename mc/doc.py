"""Abstract SVD documents and an XML writer that is independent of the code under test.

A document is a tree of ``E`` nodes.  Attribute keys are the XML tag names of the SVD format, values are
Python ints / strings / bools; ``X(text)`` puts literal text in the document.  Nothing in here imports svdsuite.
"""
from xml.sax.saxutils import escape, quoteattr

DIM = ["dim", "dimIncrement", "dimIndex", "dimName"]
PROPS = ["size", "access", "protection", "resetValue", "resetMask"]

ORDER = {
    "device": ["vendor", "vendorID", "name", "series", "version", "description", "licenseText", "cpu",
               "headerSystemFilename", "headerDefinitionsPrefix", "addressUnitBits", "width"] + PROPS,
    "peripheral": DIM + ["name", "version", "description", "alternatePeripheral", "groupName", "prependToName",
                         "appendToName", "headerStructName", "disableCondition", "baseAddress"] + PROPS
                  + ["addressBlock", "interrupt"],
    "cluster": DIM + ["name", "description", "alternateCluster", "headerStructName", "addressOffset"] + PROPS,
    "register": DIM + ["name", "displayName", "description", "alternateGroup", "alternateRegister",
                       "addressOffset"] + PROPS + ["dataType", "modifiedWriteValues", "writeConstraint",
                                                   "readAction"],
    "field": DIM + ["name", "description", "bitOffset", "bitWidth", "lsb", "msb", "bitRange", "access",
                    "modifiedWriteValues", "writeConstraint", "readAction"],
    "enumeratedValues": ["name", "headerEnumName", "usage"],
    "enumeratedValue": ["name", "description", "value", "isDefault"],
}
HEX = {"baseAddress", "addressOffset", "resetValue", "resetMask"}


class X(str):
    """literal text, written as it is (after XML escaping)"""


class E:
    __slots__ = ("kind", "df", "a", "ch", "uid")

    def __init__(self, kind, df=None, ch=(), **a):
        self.kind = kind
        self.df = df
        self.a = {k: v for k, v in a.items() if v is not None}
        self.ch = list(ch)
        self.uid = None

    @property
    def name(self):
        return self.a.get("name")

    def copy(self):
        e = E(self.kind, self.df, [c.copy() for c in self.ch])
        e.a = dict(self.a)
        return e

    def walk(self):
        yield self
        for c in self.ch:
            yield from c.walk()


def device(ch=(), **a):
    base = {"name": "DEV", "version": "1.0", "description": "d", "addressUnitBits": 8, "width": 32}
    base.update(a)
    return E("device", None, ch, **base)


def P(name, ch=(), df=None, base=0, blocks="default", **a):
    if blocks == "default":
        blocks = None if df else [(0, 0x1000, "registers", None)]
    return E("peripheral", df, ch, name=name, baseAddress=base, addressBlock=blocks, **a)


def C(name, ch=(), df=None, off=0, **a):
    return E("cluster", df, ch, name=name, addressOffset=off, **a)


def R(name, ch=(), df=None, off=0, **a):
    return E("register", df, ch, name=name, addressOffset=off, **a)


def F(name, lo=None, hi=None, ch=(), df=None, **a):
    if lo is not None:
        a["lsb"] = lo
        a["msb"] = hi if hi is not None else lo
    return E("field", df, ch, name=name, **a)


def EV(vals=(), df=None, **a):
    return E("enumeratedValues", df, [E("enumeratedValue", None, (), **v) if isinstance(v, dict)
                                      else E("enumeratedValue", None, (), name=v[0], value=v[1]) for v in vals], **a)


def txt(key, v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return hex(v) if key in HEX else str(v)
    return escape(v)


def _wc(v):
    if v[0] == "asread":
        return f"<writeAsRead>{txt('', v[1])}</writeAsRead>"
    if v[0] == "enum":
        return f"<useEnumeratedValues>{txt('', v[1])}</useEnumeratedValues>"
    return f"<range><minimum>{v[1]}</minimum><maximum>{v[2]}</maximum></range>"


def _attr(out, k, v):
    if k == "addressBlock":
        for off, size, usage, prot in v:
            out.append("<addressBlock>")
            if off is not None:
                out.append(f"<offset>{hex(off)}</offset>")
            out.append(f"<size>{hex(size)}</size><usage>{usage}</usage>")
            if prot is not None:
                out.append(f"<protection>{prot}</protection>")
            out.append("</addressBlock>")
    elif k == "interrupt":
        for name, desc, value in v:
            out.append(f"<interrupt><name>{escape(name)}</name>")
            if desc is not None:
                out.append(f"<description>{escape(desc)}</description>")
            if value is not None:
                out.append(f"<value>{value}</value>")
            out.append("</interrupt>")
    elif k == "writeConstraint":
        out.append(f"<writeConstraint>{_wc(v)}</writeConstraint>")
    elif k == "cpu":
        out.append("<cpu>")
        for ck, cv in v:
            if ck == "sauRegionsConfig":
                attrs, regions = cv
                out.append("<sauRegionsConfig" + "".join(f" {n}={quoteattr(txt('', x))}" for n, x in attrs) + ">")
                for rattrs, rb, rl, ra in regions:
                    out.append("<region" + "".join(f" {n}={quoteattr(txt('', x))}" for n, x in rattrs) + ">")
                    out.append(f"<base>{rb}</base><limit>{rl}</limit><access>{ra}</access></region>")
                out.append("</sauRegionsConfig>")
            else:
                out.append(f"<{ck}>{txt(ck, cv)}</{ck}>")
        out.append("</cpu>")
    else:
        out.append(f"<{k}>{txt(k, v)}</{k}>")


def _emit(e, out):
    k = e.kind
    if k == "device":
        out.append('<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" '
                   'xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd" schemaVersion="1.3">')
    elif e.df is not None:
        out.append(f"<{k} derivedFrom={quoteattr(e.df)}>")
    else:
        out.append(f"<{k}>")
    a = e.a
    for key in ORDER[k]:
        if key in a:
            _attr(out, key, a[key])
    if e.ch or k == "device":
        if k == "device":
            out.append("<peripherals>")
        elif k == "peripheral":
            out.append("<registers>")
        elif k == "register":
            out.append("<fields>")
        for c in e.ch:
            _emit(c, out)
        if k == "device":
            out.append("</peripherals>")
        elif k == "peripheral":
            out.append("</registers>")
        elif k == "register":
            out.append("</fields>")
    out.append(f"</{k}>")


def to_xml(dev, decl=True):
    out = ["<?xml version='1.0' encoding='utf-8'?>\n"] if decl else []
    _emit(dev, out)
    return "".join(out)
