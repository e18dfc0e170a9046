"""Reference judgements by schema, from private copies of the published schemas."""
import os

import lxml.etree as E

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema")
VERSIONS = sorted((f[:-4] for f in os.listdir(DIR)), key=lambda v: [int(x) for x in v.split(".")])
_cache = {}


def doc(data):
    return E.fromstring(data, E.XMLParser(remove_comments=True, remove_pis=True))


def failing(root, version, entry=False):
    """None if valid, else the first error"""
    s = _cache.get(version)
    if s is None:
        s = _cache[version] = E.XMLSchema(file=os.path.join(DIR, version + ".xsd"))
    return None if s.validate(root) else s.error_log[0] if entry else str(s.error_log[0])
