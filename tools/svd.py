"""Helpers of the demonstrations."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import svdsuite  # noqa: E402
assert os.path.realpath(svdsuite.__file__).startswith(os.path.realpath(os.getcwd()))
from svdsuite.parse import Parser  # noqa: E402
from svdsuite.process import Process  # noqa: E402
from svdsuite.serialize import Serializer  # noqa: E402
from svdsuite.map import PeripheralRegisterMap  # noqa: E402
from svdsuite.validate import Validator, SVDSchemaVersion  # noqa: E402


def tag(name, content="", **attrs):
    a = "".join(f' {k}="{v}"' for k, v in attrs.items())
    return f"<{name}{a}>{content}</{name}>"


def props(**kw):
    return "".join(tag(k, v) for k, v in kw.items())


def device(peripherals, extra="", cpu="", schema="1.3"):
    return (f'<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" schemaVersion="{schema}" '
            'xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd"><name>D</name><version>1</version>'
            f"<description>d</description>{cpu}<addressUnitBits>8</addressUnitBits><width>32</width>{extra}"
            f"<peripherals>{peripherals}</peripherals></device>")


def per(name, content="", base="0x40000000", block="0x1000", pre="", post="", derived=None):
    b = f"<addressBlock><offset>0</offset><size>{block}</size><usage>registers</usage></addressBlock>" if block else ""
    a = f' derivedFrom="{derived}"' if derived else ""
    r = f"<registers>{content}</registers>" if content else ""
    return f"<peripheral{a}>{pre}<name>{name}</name><baseAddress>{base}</baseAddress>{post}{b}{r}</peripheral>"


def reg(name, offset="0x0", fields="", pre="", mid="", post="", derived=None):
    a = f' derivedFrom="{derived}"' if derived else ""
    f = f"<fields>{fields}</fields>" if fields else ""
    return f"<register{a}>{pre}<name>{name}</name>{mid}<addressOffset>{offset}</addressOffset>{post}{f}</register>"


def clu(name, offset="0x0", content="", pre="", mid="", post="", derived=None):
    a = f' derivedFrom="{derived}"' if derived else ""
    return f"<cluster{a}>{pre}<name>{name}</name>{mid}<addressOffset>{offset}</addressOffset>{post}{content}</cluster>"


def fld(name, lsb=0, width=1, post="", pre="", pos=None, derived=None):
    a = f' derivedFrom="{derived}"' if derived else ""
    p = f"<bitOffset>{lsb}</bitOffset><bitWidth>{width}</bitWidth>" if pos is None else pos
    return f"<field{a}>{pre}<name>{name}</name>{p}{post}</field>"


def enum(*values, name=None, usage=None, derived=None):
    a = f' derivedFrom="{derived}"' if derived else ""
    n = tag("name", name) if name else ""
    u = tag("usage", usage) if usage else ""
    v = "".join(tag("enumeratedValue", tag("name", k) + (tag("isDefault", "true") if x is None else tag("value", x)))
                for k, x in values)
    return f"<enumeratedValues{a}>{n}{u}{v}</enumeratedValues>"


def process(xml, log=None):
    """device or exception, and the warnings"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = Process.from_xml_str(xml, log).get_processed_device()
        except Exception as e:  # noqa: BLE001
            r = e
    return r, [str(x.message) for x in w]


def parse(xml):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Parser.from_xml_str(xml).get_parsed_device()


def ok(condition, text=""):
    if not condition:
        print("FAILED:", text)
        sys.exit(1)


def device_of(xml):
    r, _ = process(xml)
    ok(not isinstance(r, Exception), f"rejected: {r!r}")
    return r


def rejected(xml):
    return isinstance(process(xml)[0], Exception)
