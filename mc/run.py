"""Entry point: python -m mc.run <property> [quick|thorough] | --replay FILE | --setup"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(os.environ.get("SVD_REPO", "/repo"), "src")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"   # neither read nor write bytecode beside the sources
sys.path[:0] = [SRC]


def bind():
    """the code under test has to come from the working tree, never from an installed package or stale bytecode"""
    import svdsuite
    got = os.path.realpath(svdsuite.__file__)
    if not got.startswith(os.path.realpath(SRC) + os.sep):
        raise SystemExit(f"svdsuite was imported from {got}, not from {SRC}")


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for line in f:
                if line.startswith(f"finding: property={prop} "):
                    out.append(line.split(" ", 2)[2].strip())
    return out


def module(prop):
    return importlib.import_module(f"mc.checks.{prop.lower()}")


def main(argv):
    bind()
    from . import core
    if argv[:1] == ["--setup"]:
        import lxml.etree  # noqa: F401
        import rustworkx  # noqa: F401
        print("ready")
        return 0
    if argv[:1] == ["--replay"]:
        with open(argv[1], encoding="utf-8") as f:
            r = json.load(f)
        spaces = module(r["property"]).spaces(r["tier"])
        space = next(s for s in spaces if s.name == r["space"])
        _, case, _ = core.build(space, r["choices"])
        import signal
        signal.signal(signal.SIGPROF, core._alarm)
        try:
            print("outcome:", core.run_case(space, case, core.Stats()))
            return 0
        except core.Violation as v:
            print(v.what)
            for k, x in v.details.items():
                print(f"  {k}: {core.trim(x, 4000)}")
            return 1
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    mod = module(prop)
    return core.main(prop, "model_checking", mod.spaces, mod.ASSUME, known(prop), tier,
                     int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
