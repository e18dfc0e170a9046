"""What is refused is refused on purpose: no document, however malformed, ends in an internal error of the library."""
import copy

from lxml import etree

from svdsuite.map import PeripheralRegisterMap
from svdsuite.parse import Parser
from svdsuite.process import Process
from svdsuite.serialize import Serializer
from svdsuite.validate import Validator, SVDSchemaVersion

from .. import borrow, observe
from ..core import Skip, Space, Violation

ASSUME = ["a refusal on purpose is any exception but the interpreter's own for programming errors (attribute, index, key, type, "
          "value, name, arithmetic, assertion, recursion, iteration, memory); plain malformed text is C27's subject"]
INTERNAL = (AttributeError, LookupError, TypeError, AssertionError, RecursionError, NameError, ArithmeticError, StopIteration,
            MemoryError, SystemError, BufferError, ValueError)

BASE = """<device schemaVersion="1.3" xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd">
<vendor>V</vendor><vendorID>I</vendorID><name>D</name><series>S</series><version>1</version><description>d</description>
<licenseText>l</licenseText><cpu><name>CM33</name><revision>r0p0</revision><endian>little</endian><mpuPresent>1</mpuPresent>
<fpuPresent>1</fpuPresent><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>0</vendorSystickConfig><deviceNumInterrupts>9</deviceNumInterrupts>
<sauNumRegions>2</sauNumRegions><sauRegionsConfig enabled="true" protectionWhenDisabled="s"><region enabled="true" name="R">
<base>0x0</base><limit>0x1F</limit><access>n</access></region></sauRegionsConfig></cpu><headerSystemFilename>h</headerSystemFilename>
<headerDefinitionsPrefix>p</headerDefinitionsPrefix><addressUnitBits>8</addressUnitBits><width>32</width><size>32</size>
<access>read-write</access><protection>n</protection><resetValue>0x0</resetValue><resetMask>0xFF</resetMask><peripherals>
<peripheral><dim>2</dim><dimIncrement>0x1000</dimIncrement><name>P[%s]</name><version>1</version><description>d</description>
<groupName>g</groupName><baseAddress>0x40000000</baseAddress>
<size>32</size><addressBlock><offset>0x0</offset><size>0x100</size><usage>registers</usage><protection>s</protection></addressBlock>
<addressBlock><offset>0x200</offset><size>0x10</size><usage>buffer</usage></addressBlock>
<interrupt><name>I</name><description>d</description><value>3</value></interrupt><registers>
<register><name>A</name><displayName>a</displayName><description>d</description><alternateGroup>g</alternateGroup><addressOffset>0x0</addressOffset><size>16</size>
<access>read-write</access><protection>p</protection><resetValue>0x1</resetValue><resetMask>0x3</resetMask><dataType>uint16_t</dataType>
<modifiedWriteValues>oneToClear</modifiedWriteValues><writeConstraint><range><minimum>0</minimum><maximum>7</maximum></range></writeConstraint>
<readAction>clear</readAction><fields>
<field><name>F</name><description>d</description><bitOffset>0</bitOffset><bitWidth>2</bitWidth><access>read-only</access>
<enumeratedValues><name>E</name><headerEnumName>H</headerEnumName><usage>read</usage><enumeratedValue><name>v0</name><description>d</description>
<value>#0x</value></enumeratedValue><enumeratedValue><name>w</name><isDefault>true</isDefault></enumeratedValue></enumeratedValues></field>
<field><dim>2</dim><dimIncrement>2</dimIncrement><dimIndex>A,B</dimIndex><name>G%s</name><lsb>4</lsb><msb>5</msb>
<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint></field>
<field derivedFrom="F"><name>J</name><bitRange>[12:11]</bitRange></field><field><name>H</name><bitRange>[10:9]</bitRange><enumeratedValues derivedFrom="P0.A.F.E"></enumeratedValues></field></fields></register>
<register derivedFrom="A"><dim>3</dim><dimIncrement>4</dimIncrement><dimIndex>2-4</dimIndex><name>B%s</name><addressOffset>0x10</addressOffset></register>
<cluster><dim>2</dim><dimIncrement>0x20</dimIncrement><name>C[%s]</name><headerStructName>h</headerStructName><addressOffset>0x40</addressOffset>
<register><name>X</name><addressOffset>0x0</addressOffset></register><cluster><name>K</name><addressOffset>0x8</addressOffset>
<register><name>Y</name><alternateRegister>Z</alternateRegister><addressOffset>0x0</addressOffset></register>
<register derivedFrom="P0.B2"><name>Z</name><addressOffset>0x4</addressOffset></register></cluster></cluster>
<cluster derivedFrom="C1"><name>L</name><alternateCluster>M</alternateCluster><addressOffset>0x80</addressOffset></cluster></registers></peripheral>
<peripheral derivedFrom="P1"><name>Q</name><alternatePeripheral>N</alternatePeripheral><prependToName>a</prependToName><appendToName>z</appendToName>
<headerStructName>h</headerStructName><disableCondition>c</disableCondition><baseAddress>0x50000000</baseAddress><registers>
<register derivedFrom="P0.C1.K.Y"><name>A</name><addressOffset>0xC0</addressOffset></register></registers></peripheral></peripherals></device>""".replace("\n", "")
NODES = list(etree.fromstring(BASE).iter())
N = len(NODES)
TEXTS = ["", " ", "0", "-1", "1", "7", "%s", "[%s]", "%s%s", "A", ".", "A.", "..A", "A.B", "P0.A", "0-0", "1-0", "[0:9]", "[7]",
         "#xx", "0x", "#", "None", "reserved", "\u0663", "\u00b2"]
HUGE = ["9" * 30, "0x" + "F" * 30, "-" + "9" * 30]   # not where it stands for a number of things: those would all be made
COUNTS = ("dim", "bitWidth", "lsb", "msb", "dimIncrement")


FORMS = {   # nearly what the format asks for
    "bitRange": ["[:3]", "[3:]", "[:]", "[-1:0]", "[0x1:0]", "[ 3 : 1 ]", "[3:1", "3:1]", "[3,1]", "[3:1]x", "[3:1:0]", "[a:b]", "[1.5:0]"],
    "dimIndex": ["0-", "-3", "A-", "A-C-E", "a-Z", "Z-A", "A-AA", ",", "0,", ",1", "0 1", "3-1", "[0-1]", "0-1,4", "0--1", "x%s,y"],
    "value": ["0b", "#x", "0xx", "0b2", "1x", "-0", "0x-1", "1.0", "1e3", "x", "+", "0bx", "#+1", "\u0661", "1_0"],
    "revision": ["r", "rp", "r0", "r0p", "0p0"],
    "name": ["%s_%s", "%", "%d", "%s%", "[", "]", "A[%s", "[%s]A", "A[%s]B", "A[1]"],
    "dim": ["00", "0x0", "-0", "1_0", "2.0", "#10"],
    "dimIncrement": ["0x", "-4", "1_0", "4.0", "#100"],
    "size": ["24", "33", "128", "1_6", "0x10", "-8"], "addressOffset": ["1_0", "-4", "0x1_0", "4.0"],
    "resetValue": ["1_0", "-4", "0xG", "0b2", "#x"], "minimum": ["1_0", "9"], "isDefault": ["TRUE", "2", "yes"],
}


def apply(root, ops):
    """the operations on a copy of the base, nodes by their number in the base"""
    els = list(root.iter())
    for i, op, *x in ops:
        e, p = els[i], els[i].getparent()
        if op == "remove":
            if p is None:
                return None
            p.remove(e)
        elif op == "double":
            if p is None:
                return None
            p.insert(p.index(e), copy.deepcopy(e))
        elif op == "rename":
            e.tag = "zz"
        elif op == "namespace":
            e.tag = "{urn:x}" + e.tag
        elif op == "empty":
            for c in list(e):
                e.remove(c)
            e.text = None
        elif op == "fill":
            c = etree.SubElement(e, "zz")
            c.text = "t"
        elif op == "comment":
            e.insert(0, etree.Comment("c"))
        elif op == "text":
            e.text = x[0]
        elif op == "attribute":
            if x[1] is None:
                e.attrib.pop(x[0], None)
            else:
                e.set(x[0], x[1])
        elif op == "move":
            if els[x[0]] is e or e in els[x[0]].iterancestors() or p is None:
                return None
            els[x[0]].append(e)
        elif op == "swap":
            if p is None or e.getnext() is None:
                return None
            e.getnext().addnext(e)
    return etree.tostring(root, encoding="unicode")


def attempt(what, f, xml, st):
    r = observe.call(f)
    st.execs += 1
    if r.failed and isinstance(r.exc, INTERNAL) and not (what == "mapping" and type(r.exc) is ValueError):
        raise Violation(f"{what} ends in an internal error", error=f"{type(r.exc).__name__}: {r.exc}", xml=xml)
    return None if r.failed else r.obj


def judge(xml, st, validate=False):
    if isinstance(xml, bytes):
        return "bytes"
    if validate:
        attempt("validating", lambda: Validator.validate_xml_str(xml, False), xml, st)
        attempt("validating", lambda: Validator.validate_xml_str(xml, True, SVDSchemaVersion.V1_0), xml, st)
    d = attempt("parsing", lambda: Parser.from_xml_str(xml).get_parsed_device(), xml, st)
    if d is None:
        return "refused by the parser"
    if validate:
        attempt("serializing", lambda: Serializer.device_to_svd_content(d), xml, st)
    p = attempt("processing", lambda: Process(d, None), xml, st)
    if p is None:
        return "refused by the processor"
    o = attempt("converting", p.convert_processed_device_to_svd_device, xml, st)
    if validate:
        attempt("serializing what was processed", lambda: Serializer.device_to_svd_content(o), xml, st)
    attempt("mapping", lambda: PeripheralRegisterMap(p.get_processed_device()), xml, st)
    return "accepted"


def run(case, st):
    return judge(case, st, True)


def single(ch):
    i = ch.n(N)
    e = NODES[i]
    ops = [("remove",), ("double",), ("rename",), ("namespace",), ("empty",), ("fill",), ("comment",), ("swap",)]
    if not len(e):
        ops += [("text", t) for t in TEXTS + (HUGE if e.tag not in COUNTS else []) + FORMS.get(e.tag, [])]
    for a in list(e.attrib) + (["derivedFrom"] if "derivedFrom" not in e.attrib else []):
        ops += [("attribute", a, t) for t in TEXTS + [None]]
    return [(i, *ch.pick(ops))]


def moved(ch):
    """an element within another one, where it does not belong"""
    return [(ch.n(N), "move", ch.pick([i for i, e in enumerate(NODES) if len(e)]))]


def pairs(nodes, ops):
    """two elements changed at once"""
    def gen(ch):
        i = ch.n(len(nodes) - 1)
        j = i + 1 + ch.n(len(nodes) - 1 - i)
        return [(nodes[i], *ch.pick(ops)), (nodes[j], *ch.pick(ops))]
    return gen


def render(gen):
    def g(ch):
        x = apply(etree.fromstring(BASE), gen(ch))
        if x is None:
            raise Skip
        return x
    return g


ROOTS = ["<a/>", "<device/>", "<device schemaVersion='1'/>", "<peripherals/>", "<device xmlns='urn:x'/>", "<x:device xmlns:x='urn:x'/>",
         "<device><name/></device>", "<svd><device/></svd>", "<device xmlns:xs='urn:x'/>", "<device xmlns:xsi='urn:x'/>", "<!--c--><device/>",
         "<?p?><device/>", "<!DOCTYPE device><device/>", "<!DOCTYPE device [<!ENTITY e 'x'>]><device><name>&e;</name></device>",
         "", " ", "x", "<", "<device", "\x00", "\ufeff", "\ufeff<device/>", "<device>&undefined;</device>", "<?xml version='1.0' encoding='zz'?><a/>",
         "<?xml version='1.1'?><a/>"]


def root(ch):
    x = ch.pick(ROOTS)
    return BASE.replace("<device ", ch.pick(["<device xmlns='urn:x' ", "<zz:device xmlns:zz='urn:x' "])).replace(
        "</device>", "</device>") if x == "" and ch.flag() else x


def spaces(tier):
    deep = tier == "thorough"

    def sp(name, gen, bound):
        return Space(name, render(gen), run, bound=bound)
    leaves = [i for i, e in enumerate(NODES) if not len(e)]
    inner = [i for i, e in enumerate(NODES) if len(e) or e.attrib]
    out = [sp("single", single, "every element of a document with everything in it removed, doubled, renamed, emptied, filled, moved on, "
              "its text and attributes replaced by every one of a list"),
           sp("moved", moved, "every element moved into every other one"),
           sp("pairs", pairs(list(range(1, N)), [("remove",), ("text", "")] if deep else [("remove",)]),
              "every two elements removed" + (" or without text" if deep else "")),
           sp("structure", pairs(inner, [("remove",), ("empty",), ("double",), ("rename",), ("attribute", "derivedFrom", "A"),
                                         ("attribute", "derivedFrom", None)]),
              "every two elements with contents or attributes removed, emptied, doubled, renamed or derived otherwise"),
           Space("roots", root, run, bound="documents of another kind")]
    if deep:
        out.append(sp("texts", pairs(leaves, [("text", t) for t in ("", "0", "-1", "%s", "A", "0-1")]), "every two texts replaced"))
    out += borrow.spaces(tier, judge, {"c02": None, "c03": None, "c04": None, "c06": None, "c13": None, "c15": None, "c16": None,
                                       "c18": None, "c19": None} if not deep else
                         {**borrow.ALL, "c04": None, "c06": None, "c19": None})
    return out
