"""Mechanical mutants, to find what the checks do not see: python tools/mutate.py gen|tests|checks DIR [files...]

gen writes DIR/mutants.json; tests keeps those that pass the repository's tests (DIR/alive.json); checks runs the checks
for the file, cheapest first, until one raises the alarm (DIR/result.json). Used during development only.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
SRC = REPO + "/src/svdsuite"
PY = "/opt/venv/bin/python"
PROC = "C14 C13 C16 C15 C18 C12 C06 C04 C05 C10 C09 C11 C17 C03 C08 C02 C01 C07 C32".split()
ORDER = {
    "process.py": PROC + ["C23", "C28", "C25", "C29"],
    "resolve": ["C04", "C13", "C16", "C06", "C05", "C03", "C01", "C07", "C18", "C02", "C11", "C31", "C28", "C29"],
    "parse.py": ["C19", "C20", "C32", "C18", "C43", "C27", "C26"],
    "serialize.py": ["C22", "C34", "C21"],
    "model/parse.py": ["C20", "C32", "C34"],
    "model/process.py": PROC + ["C23"],
    "model/types.py": ["C19", "C20", "C32", "C22", "C15", "C34"],
    "map.py": ["C25", "C26"],
    "validate.py": ["C27", "C24"],
    "util/xml_parse.py": ["C27", "C26", "C42"],
    "util/process_parse_model_convert.py": ["C32", "C23"],
    "resolve/logger.py": ["C31"], "util/html_generator.py": ["C31"],
}
for f in ("dim.py", "process_util.py"):
    ORDER.setdefault("util/" + f, PROC)


def order(f, line=0):
    """cheap checks of what is in that place"""
    if f == "process.py" and line and os.environ.get("MUT_CHEAP"):
        for end, cs in ((190, "C32"), (440, "C14 C13 C02 C06 C16 C15 C18 C05 C03"), (640, "C14 C18 C15 C05 C10"), (765, "C17 C10 C18 C25"),
                        (1000, "C17 C18 C10 C05 C15 C11"), (1110, "C18 C12 C15 C16 C11"), (1200, "C06 C16 C18 C03"), (9999, "C12 C13 C14 C18")):
            if line <= end:
                return cs.split()
    if f in ORDER:
        return ORDER[f]
    if f.startswith("resolve/"):
        return ORDER["resolve"]
    return PROC


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = [0]
        for line in src.encode().splitlines(True):
            self.lines.append(self.lines[-1] + len(line))
        self.out = []

    def span(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def sub(self, n, new, what):
        a, b = self.span(n)
        self.out.append((a, b, new, f"{n.lineno}: {what}: {self.text(n)[:60]!r} -> {new[:60]!r}"))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            alt = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
                   ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}[type(n.ops[0])]
            for o in alt:
                self.sub(n, f"({l} {o} {r})", "compare")
            if isinstance(n.ops[0], ast.IsNot) and r == "None":
                self.sub(n, f"bool({l})", "truth")
            if isinstance(n.ops[0], ast.Is) and r == "None":
                self.sub(n, f"(not {l})", "truth")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        vs = [self.text(v) for v in n.values]
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.sub(n, "(" + o.join(f"({v})" for v in vs) + ")", "and/or")
        for i in range(len(vs)):
            rest = vs[:i] + vs[i + 1:]
            self.sub(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({v})" for v in rest) + ")", "operand dropped")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        l, r = self.text(n.left), self.text(n.right)
        if isinstance(n.left, ast.JoinedStr) or isinstance(n.right, ast.JoinedStr):
            return
        alt = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["//"], ast.FloorDiv: ["*"], ast.Mod: ["*"], ast.BitAnd: ["|"], ast.BitOr: [],
               ast.LShift: [">>"], ast.RShift: ["<<"]}.get(type(n.op), [])
        for o in alt:
            self.sub(n, f"({l} {o} {r})", "arithmetic")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.sub(n, self.text(n.operand), "not dropped")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.sub(n, str(not n.value), "constant")
        elif isinstance(n.value, int):
            self.sub(n, str(n.value + 1), "constant")
            if n.value > 0:
                self.sub(n, str(n.value - 1), "constant")
        elif isinstance(n.value, str) and 0 < len(n.value) < 25 and n.value.isidentifier():
            self.sub(n, repr(n.value + "X"), "string")

    def visit_JoinedStr(self, n):
        pass

    def visit_IfExp(self, n):
        self.sub(n, "(" + self.text(n.body) + ")", "first branch")
        self.sub(n, "(" + self.text(n.orelse) + ")", "second branch")
        self.generic_visit(n)

    def visit_If(self, n):
        self.sub(n.test, f"(True or {self.text(n.test)})", "always")
        self.sub(n.test, f"(False and {self.text(n.test)})", "never")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.text(n.func)
        if f in ("copy.copy", "copy.deepcopy", "sorted", "list", "reversed", "set", "tuple") and len(n.args) == 1:
            self.sub(n, f"list({self.text(n.args[0])})" if f in ("sorted", "reversed") else self.text(n.args[0]), "call dropped")
            if f == "copy.deepcopy":
                self.sub(n, f"copy.copy({self.text(n.args[0])})", "shallow")
        if f == "max":
            self.sub(n.func, "min", "max")
        if f == "min":
            self.sub(n.func, "max", "min")
        if f == "any":
            self.sub(n.func, "all", "any")
        if f == "all":
            self.sub(n.func, "any", "all")
        if f.endswith((".lower", ".strip", ".upper")) and not n.args:
            self.sub(n, self.text(n.func.value), "call dropped")
        for k in n.keywords:
            if k.arg and not isinstance(k.value, (ast.Constant,)) and f[:1].isupper():
                self.sub(k.value, "None", f"argument {k.arg} lost")
        if "warn" in f:
            return
        self.generic_visit(n)

    def visit_Lambda(self, n):
        if isinstance(n.body, ast.Tuple):
            for i in range(len(n.body.elts)):
                rest = [self.text(e) for j, e in enumerate(n.body.elts) if j != i]
                self.sub(n.body, "(" + ", ".join(rest) + ",)", "key part dropped")
        self.generic_visit(n)

    def stmt(self, n, new="pass"):
        self.sub(n, new, "statement")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.stmt(n)
            self.generic_visit(n)

    def visit_Assign(self, n):
        if not all(isinstance(t, ast.Name) for t in n.targets):
            self.stmt(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.stmt(n)

    def visit_Continue(self, n):
        self.stmt(n)
        self.stmt(n, "break")

    def visit_Break(self, n):
        self.stmt(n)
        self.stmt(n, "continue")

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_FunctionDef(self, n):
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            self.sub(n.value, "None", "return")
        self.generic_visit(n)


def gen(d, files):
    out = []
    for root, _, fs in os.walk(SRC):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if not f.endswith(".py") or f == "__init__.py" or (files and rel not in files):
                continue
            src = open(os.path.join(root, f), encoding="utf-8").read()
            v = Find(src)
            v.visit(ast.parse(src))
            seen = set()
            for a, b, new, what in v.out:
                if (a, b, new) in seen:
                    continue
                seen.add((a, b, new))
                m = src.encode()[:a] + new.encode() + src.encode()[b:]
                try:
                    compile(m, rel, "exec")
                except SyntaxError:
                    continue
                out.append({"id": len(out), "file": rel, "at": [a, b], "new": new, "what": what})
    json.dump(out, open(os.path.join(d, "mutants.json"), "w"), indent=0)
    print(len(out), "mutants")


def tree(m):
    t = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    shutil.copytree(REPO, t, dirs_exist_ok=True, ignore=shutil.ignore_patterns(".git", "__pycache__"), symlinks=True)
    p = os.path.join(t, "src/svdsuite", m["file"])
    s = open(p, "rb").read()
    open(p, "wb").write(s[:m["at"][0]] + m["new"].encode() + s[m["at"][1]:])
    return t


def run(cmd, timeout, **env):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True,
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env), cwd=env.get("CWD"))
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


def tests(m):
    t = tree(m)
    ts = ["tests/test_dim.py", "tests/test_parsing.py", "tests/test_process", "tests/test_serialize.py", "tests/test_to_xml.py",
          "tests/test_validate.py"]
    first = {"parse.py": 1, "serialize.py": 4, "validate.py": 5, "model/parse.py": 4}.get(m["file"], 2)
    ts.insert(0, ts.pop(first))
    try:
        rc, _ = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", *ts], 120, PYTHONPATH=t + "/src", CWD=t)
        return rc == 0
    finally:
        shutil.rmtree(t, ignore_errors=True)


def checks(m):
    t = tree(m)
    try:
        for c in order(m["file"], int(m["what"].split(":")[0])):
            rc, o = run([os.path.join(VERIF, "check"), c, "quick"], 600, SVD_REPO=t, MC_WORKERS=WORKERS, MC_REPLAYS=t + "/replays", VERIF_EVIDENCE=t + "/evidence")
            if rc == 1:
                return c
            if rc != 0:
                return f"{c}: exit {rc} {o[-300:]}"
        return None
    finally:
        shutil.rmtree(t, ignore_errors=True)


WORKERS = os.environ.get("MUT_WORKERS", "2")


def main(what, d, *args):
    if what == "gen":
        return gen(d, args)
    if what == "tests":
        ms = json.load(open(os.path.join(d, "mutants.json")))
        done = {}
        f = os.path.join(d, "tested.json")
        if os.path.exists(f):
            done = json.load(open(f))
        todo = [m for m in ms if str(m["id"]) not in done]
        with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
            for m, ok in zip(todo, ex.map(tests, todo)):
                done[str(m["id"])] = ok
                if len(done) % 20 == 0 or m is todo[-1]:
                    json.dump(done, open(f, "w"))
        alive = [m for m in ms if done[str(m["id"])]]
        json.dump(alive, open(os.path.join(d, "alive.json"), "w"), indent=0)
        print(len(alive), "of", len(ms), "pass the tests")
        return None
    ms = json.load(open(os.path.join(d, "alive.json")))
    f = os.path.join(d, "result.json")
    res = json.load(open(f)) if os.path.exists(f) else {}
    ms = [m for m in ms if (str(m["id"]) not in res if not args else str(m["id"]) in args or args == ("missed",) and res.get(str(m["id"]), 0) is None)]
    random.Random(1).shuffle(ms)
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "4"))) as ex:
        todo = {ex.submit(checks, m): m for m in ms}
        for t in cf.as_completed(todo):
            m, r = todo[t], t.result()
            res[str(m["id"])] = r
            json.dump(res, open(f, "w"), indent=0)
            print(m["id"], m["file"], m["what"], "->", r, flush=True)
    return None


if __name__ == "__main__":
    main(*sys.argv[1:])
