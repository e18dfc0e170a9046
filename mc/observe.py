"""Runs the implementation and renders what it produced as plain data."""
import dataclasses
import enum as enum_
import warnings


def val(x):
    return None if x is None else x.value


def wc(w):
    if w is None:
        return None
    return {"write_as_read": w.write_as_read, "use_enumerated_values": w.use_enumerated_values,
            "range": None if w.range_ is None else list(w.range_)}


def props(e):
    return {"size": e.size, "access": val(e.access), "protection": val(e.protection),
            "reset_value": e.reset_value, "reset_mask": e.reset_mask}


def enum(c):
    return {"name": c.name, "header_enum_name": c.header_enum_name, "usage": val(c.usage),
            "values": [{"name": v.name, "description": v.description, "value": v.value}
                       for v in c.enumerated_values]}


def field(f):
    return {"name": f.name, "description": f.description, "lsb": f.lsb, "msb": f.msb, "bit_offset": f.bit_offset,
            "bit_width": f.bit_width, "bit_range": list(f.bit_range), "access": val(f.access),
            "modified_write_values": val(f.modified_write_values), "write_constraint": wc(f.write_constraint),
            "read_action": val(f.read_action), "enums": [enum(c) for c in f.enumerated_value_containers]}


def rc(e):
    if hasattr(e, "fields"):
        return {"kind": "register", "name": e.name, "display_name": e.display_name, "description": e.description,
                "alternate_group": e.alternate_group, "alternate_register": e.alternate_register,
                "address_offset": e.address_offset, "base_address": e.base_address, **props(e),
                "data_type": val(e.data_type), "modified_write_values": val(e.modified_write_values),
                "write_constraint": wc(e.write_constraint), "read_action": val(e.read_action),
                "fields": [field(f) for f in e.fields]}
    return {"kind": "cluster", "name": e.name, "description": e.description,
            "alternate_cluster": e.alternate_cluster, "header_struct_name": e.header_struct_name,
            "address_offset": e.address_offset, "base_address": e.base_address, "end_address": e.end_address,
            "cluster_size": e.cluster_size, **props(e), "children": [rc(x) for x in e.registers_clusters]}


def peripheral(p):
    return {"name": p.name, "version": p.version, "description": p.description,
            "alternate_peripheral": p.alternate_peripheral, "group_name": p.group_name,
            "prepend_to_name": p.prepend_to_name, "append_to_name": p.append_to_name,
            "header_struct_name": p.header_struct_name, "disable_condition": p.disable_condition,
            "base_address": p.base_address,
            "blocks": [[b.offset, b.size, val(b.usage), val(b.protection)] for b in p.address_blocks],
            "interrupts": [[i.name, i.description, i.value] for i in p.interrupts], **props(p),
            "end_address": p.end_address, "end_address_effective": p.end_address_effective,
            "peripheral_size": p.peripheral_size, "peripheral_size_effective": p.peripheral_size_effective,
            "children": [rc(x) for x in p.registers_clusters],
            "registers": [(r.base_address, r.name) for r in p.registers]}


def device(d):
    return {"props": {"size": d.size, "access": val(d.access), "protection": val(d.protection),
                      "resetValue": d.reset_value, "resetMask": d.reset_mask},
            "peripherals": [peripheral(p) for p in d.peripherals]}


class Run:
    """outcome of one real execution"""
    __slots__ = ("exc", "tree", "warns", "obj")

    def __init__(self):
        self.exc = self.tree = self.obj = None
        self.warns = []

    @property
    def failed(self):
        return self.exc is not None


def call(fn):
    r = Run()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r.obj = fn()
        except Exception as e:  # noqa: BLE001  every exception is an outcome here
            r.exc = e
    r.warns = [(w.category.__name__, str(w.message)) for w in ws]
    return r


def process(xml):
    """xml: bytes or str -> Run whose tree is the processed device"""
    from svdsuite import Process
    if isinstance(xml, str):
        xml = xml.encode()
    r = call(lambda: Process.from_xml_content(xml).get_processed_device())
    if r.obj is not None:
        r.tree = device(r.obj)
    return r


_fields = {}
_PLAIN = (str, int, bool, type(None))


def parsed(o, _skip=("parent",)):
    """SVD* dataclass tree -> plain data"""
    t = type(o)
    if t in _PLAIN:
        return o
    if t is list or t is tuple:
        return [parsed(x, _skip) for x in o]
    if (t, _skip) not in _fields:
        _fields[t, _skip] = ([f.name for f in dataclasses.fields(t) if f.name not in _skip]
                             if dataclasses.is_dataclass(t) else None)
    names = _fields[t, _skip]
    if names is not None:
        d = {"__": t.__name__}
        for n in names:
            d[n] = parsed(getattr(o, n), _skip)
        return d
    if isinstance(o, (list, tuple)):
        return [parsed(x, _skip) for x in o]
    if isinstance(o, enum_.Enum):
        return o.value
    return o
