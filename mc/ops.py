"""Operations of the public interface on a fixed set of documents, and their results as plain data."""
import hashlib
import os
import pickle
import select
import signal
import tempfile
import time
import warnings

from . import observe, pm
from .doc import *
from .pgen import RICH, SMALL

P1 = P("A", [R("R", [F("F", 0, 3, [EV([("a", "0"), ("b", "0b1x")])])]),
             C("K", [R("R", off=4), R("S%s", off=8, dim=2, dimIncrement=4)], off=0x10)], base=0x1000)


def documents():
    d = {}
    d["plain"] = to_xml(device([P1, P("B", [R("R", off=8)], base=0x2000)]))
    d["same"] = to_xml(device([P("A", [R("R", [F("F", 4, 7)], size=8, access="read-only"), C("K", [R("R", off=8)],
                                                                                         off=0x20)],
                                 base=0x3000, description="other"), P("B", [R("Q", size=64)], base=0x100)], size=16))
    d["derived"] = to_xml(device([P("B", df="A", base=0x2000), P("A", [
        R("R", [F("F", 0, 1, [EV([("v", "1")], name="E")]), F("G", 2, 3, [EV([], df="A.R.F.E")])]),
        R("S", df="R", off=4), C("K%s", [R("T", df="A.R"), R("U", df="T", off=4)], off=0x10, dim=2, dimIncrement=16),
        C("L", df="K1", off=0x80)], base=0x1000)]))
    d["unresolvable"] = to_xml(device([P("A", [R("R", df="nowhere"), R("S", off=4)])]))
    d["cyclic"] = to_xml(device([P("A", [R("R", df="S"), R("S", df="R", off=4)])]))
    d["duplicate"] = to_xml(device([P("A", [R("R"), R("R", off=4)])]))
    d["overlap"] = to_xml(device([P("A", [R("R"), R("S", off=2), R("T", off=0, alternateRegister="R")]),
                                  P("B", [R("R")], base=0)]))
    d["ignored"] = to_xml(device([P("A", [R("reserved"), R("X", size=12, off=4), R("R", [F("F", 30, 40)], off=8),
                                          C("K", [R("reserved")], off=0x10)])]))
    d["torn"] = d["plain"][:len(d["plain"]) // 2]
    d["empty"] = to_xml(device([]))
    d["rich"] = pm.to_xml(RICH)
    d["small"] = pm.to_xml(SMALL)
    out = {k: v.encode() for k, v in d.items()}
    out["latin"] = d["plain"].replace("encoding='utf-8'", "").replace("<description>d<", "<description>d\xe4<") \
        .encode("cp1252")
    return out


DOCS = documents()


def parsed(o):
    return observe.parsed(o)


def op_parse(x):
    from svdsuite import Parser
    return parsed(Parser.from_xml_content(x).get_parsed_device())


def op_parse_file(x):
    from svdsuite import Parser
    with tempfile.NamedTemporaryFile(prefix="ops-") as f:
        f.write(x)
        f.flush()
        return parsed(Parser.from_svd_file(f.name).get_parsed_device())


def op_process(x):
    from svdsuite import Process
    return observe.device(Process.from_xml_content(x).get_processed_device())


def op_twice(x):
    """one parsed device, processed twice"""
    from svdsuite import Parser, Process
    p = Parser.from_xml_content(x).get_parsed_device()
    a = Process(p, None)
    b = Process(p, None)
    r = [observe.device(a.get_processed_device()), observe.device(b.get_processed_device()),
         observe.device(a.get_processed_device())]
    return [r[0], r[1] == r[0], r[2] == r[0]]


def op_convert(x):
    from svdsuite import Process, Serializer
    p = Process.from_xml_content(x)
    a = Serializer.device_to_svd_content(p.convert_processed_device_to_svd_device())
    b = Serializer.device_to_svd_content(p.convert_processed_device_to_svd_device())
    return [a, a == b]


def op_serialize(x):
    from svdsuite import Parser, Serializer
    p = Parser.from_xml_content(x).get_parsed_device()
    a = Serializer.device_to_svd_content(p, pretty_print=True)
    return [a, Serializer.device_to_svd_content(p, pretty_print=True) == a, Serializer.device_to_svd_str(p)]


def op_map(x):
    from svdsuite import PeripheralRegisterMap
    return [[m.name, m.address, list(m.allocated_range), [[r.name, r.address, r.size] for r in m.registers]]
            for m in PeripheralRegisterMap.from_xml_content(x).peripheral_map]


def op_validate(x):
    from svdsuite import Validator
    from svdsuite.validate import SVDSchemaVersion
    return [Validator.validate_xml_content(x, get_exception=False, schema_version=v)
            for v in (SVDSchemaVersion("1.1"), SVDSchemaVersion("1.3.3"), SVDSchemaVersion("1.3.11"))] + \
        [Validator.validate_xml_content(x, get_exception=False)]


def op_reject(x):
    from svdsuite import Validator
    return Validator.validate_xml_content(x)


OPS = {"parse": op_parse, "parse_file": op_parse_file, "process": op_process, "twice": op_twice, "convert": op_convert,
       "serialize": op_serialize, "map": op_map, "validate": op_validate, "reject": op_reject}


def result(op, doc):
    """plain data: value, exception, warnings"""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        v, e = raw(op, doc)
    return [v, e, [(w.category.__name__, str(w.message)) for w in ws]]


def raw(op, doc):
    try:
        return OPS[op](DOCS[doc] if isinstance(doc, str) else doc), None
    except Exception as e:  # noqa: BLE001
        t = str(e)
        return None, [type(e).__name__, t if "0x7" not in t and "/tmp" not in t else ""]


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=16).hexdigest()


class Hung(Exception):
    pass


def forked(fn, limit=60):
    """fn() in a child of this process, which has not used the library yet"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:  # noqa: BLE001
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf, end = [], time.time() + limit
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise Hung()
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    return pickle.loads(b"".join(buf))


_BASE = {}


def alone(op, doc):
    """the result of an operation in a process that has done nothing else"""
    k = (op, doc)
    if k not in _BASE:
        _BASE[k] = forked(lambda: result(op, doc))
    return _BASE[k]
