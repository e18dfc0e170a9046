"""The document spaces of other checks, judged by something else."""
import importlib

from .core import Space

LIGHT = {"c08": ["levels", "fields"], "c10": ["nest", "blocks"], "c11": ["siblings", "mixed"],
         "c12": ["literal", "binary", "default", "subsets", "width"], "c13": None, "c14": None, "c16": None, "c18": None,
         "c05": ["single", "nested", "ignored"], "c07": ["inside", "fields"], "c09": ["widest"], "c15": ["access"],
         "c17": ["groups"], "c02": ["values", "ranges", "keywords"], "c03": ["groups", "depth"]}
ALL = {f"c{i:02d}": None for i in (2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18)}


def spaces(tier, judge, which):
    """judge(xml, stats) on every document of the named spaces"""
    out = []
    for p, names in which.items():
        for s in importlib.import_module(f"mc.checks.{p}").spaces(tier):
            if names is None or s.name in names:
                out.append(Space(f"{p} {s.name}", s.gen, (lambda k: lambda c, st: judge(k(c), st))(s.key), key=s.key,
                                 budget=s.budget, bound="documents of " + p.upper() + ": " + s.bound,
                                 describe=s.describe, split=s.split))
    return out


def trees(tier, judge, which):
    """judge(dev, stats) on every abstract document (a tree of E) of the named spaces"""
    from .doc import E
    out = []
    for p, names in which.items():
        for s in importlib.import_module(f"mc.checks.{p}").spaces(tier):
            if names is None or s.name in names:
                def run(c, st):
                    return judge(c, st) if isinstance(c, E) else "not a single tree"
                out.append(Space(f"{p} {s.name}", s.gen, run, key=s.key, budget=s.budget, bound="documents of " + p.upper()
                                 + ": " + s.bound, describe=s.describe, split=s.split))
    return out
