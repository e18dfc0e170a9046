"""Exhaustive bounded exploration: choice trees, sharding over worker processes, replay, evidence.

A *space* is a function ``gen(ch)`` that builds one case from the answers of ``ch``.  Every answer is a branch point of
a finite tree; the explorer walks the whole tree depth first (within the deviation budget, if the space has one), so
every case of the bounded space is built and run exactly once per distinct key.  Nothing is sampled.
"""
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

WORKERS = int(os.environ.get("MC_WORKERS", "8"))
CASE_CPU_S = 60
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("MC_REPLAYS", os.path.join(HERE, "replays"))


class Violation(Exception):
    def __init__(self, what, **details):
        super().__init__(what)
        self.what = what
        self.details = details


class Skip(Exception):
    """the generated case lies outside the space (counted, not run)"""


class CaseTimeout(BaseException):
    pass


class _Cut(Exception):
    pass


class Ch:
    """answers the choices of one case: the recorded prefix first, then 0 for ever"""
    __slots__ = ("prefix", "trace", "width", "cost", "budget", "used", "cut")

    def __init__(self, prefix, budget=None, cut=None):
        self.prefix = prefix
        self.trace = []   # choice taken
        self.width = []   # number of alternatives there
        self.cost = []    # 1 if taking a non-zero answer here spends budget
        self.budget = budget
        self.used = 0
        self.cut = cut

    def _take(self, n, cost):
        i = len(self.trace)
        if self.cut is not None and i >= self.cut:
            raise _Cut()
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError(f"replay diverged: choice {c} of {n} at {i}")
        if cost and c:
            self.used += 1
        self.trace.append(c)
        self.width.append(n)
        self.cost.append(cost)
        return c

    def n(self, n):
        """a number in range(n), every one explored"""
        if n <= 1:
            return 0
        return self._take(n, 0)

    def pick(self, options):
        return options[self.n(len(options))]

    def flag(self):
        return bool(self.n(2))

    def dev(self, options):
        """options[0] is the default; any other answer costs one unit of the deviation budget"""
        if len(options) <= 1 or (self.budget is not None and self.used >= self.budget):
            return options[0]
        return options[self._take(len(options), 1)]

    def perm(self, seq):
        """every permutation"""
        rest, out = list(seq), []
        while rest:
            out.append(rest.pop(self.n(len(rest))))
        return out

    def subset(self, seq):
        return [x for x in seq if self.flag()]


def successor(trace, width):
    """next leaf in depth-first order, or None"""
    i = len(trace) - 1
    while i >= 0:
        if trace[i] + 1 < width[i]:
            return trace[:i] + [trace[i] + 1]
        i -= 1
    return None


class Space:
    """name, gen(ch) -> case, key(case) -> str, run(case, stats) -> outcome label (raises Violation)"""

    def __init__(self, name, gen, run, key=None, budget=None, bound="", describe=None, split=64):
        self.name = name
        self.gen = gen
        self.run = run
        self.key = key or (lambda c: c)
        self.budget = budget
        self.bound = bound
        self.describe = describe or (lambda c: c)
        self.split = split


def _h(s):
    if not isinstance(s, (bytes, str)):
        s = repr(s)
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(s, digest_size=8).digest()


def build(space, prefix, cut=None):
    ch = Ch(prefix, space.budget, cut)
    try:
        case = space.gen(ch)
        return ch, case, None
    except Skip as s:
        return ch, None, s


def shards(space):
    """prefixes whose subtrees partition the tree"""
    depth = 1
    while True:
        out, cur, full = [], [], True
        while cur is not None:
            ch = Ch(cur, space.budget, depth)
            try:
                space.gen(ch)
                out.append((list(ch.trace), True))
            except Skip:
                out.append((list(ch.trace), True))
            except _Cut:
                out.append((list(ch.trace), False))
                full = False
            cur = successor(ch.trace, ch.width)
        if full or len(out) >= space.split or depth > 24:
            return out
        depth += 1


def _alarm(*_):
    raise CaseTimeout()


class Stats:
    def __init__(self):
        self.cases = 0
        self.skipped = 0
        self.edges = 0
        self.execs = 0
        self.outcomes = {}
        self.keys = set()
        self.samples = []
        self.outs = set()

    def outcome(self, o):
        self.outs.add(_h(o))


def run_case(space, case, st):
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        return space.run(case, st)
    except CaseTimeout:
        raise Violation(f"no answer after {CASE_CPU_S} s of CPU time (does not terminate)") from None
    except RecursionError as e:
        raise Violation(f"recursion without bound: {e}") from None
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001  an outcome the check cannot even read is not the promised one
        raise Violation(f"the result could not be interpreted: {type(e).__name__}: {e}",
                        traceback=traceback.format_exc(), case=space.describe(case)) from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _explore(space, prefix, st, stop, deadline):
    cur = list(prefix)
    base = len(prefix)
    prev = []
    while cur is not None:
        if stop.value:
            return None, True
        if deadline is not None and time.time() > deadline:
            return None, False
        ch, case, skip = build(space, cur)
        # edges of the tree that no earlier leaf of this shard walked
        common = 0
        for x, y in zip(prev, ch.trace):
            if x != y:
                break
            common += 1
        st.edges += len(ch.trace) - max(common, base if prev else 0)
        prev = ch.trace
        if skip is not None:
            st.skipped += 1
        else:
            k = _h(space.key(case))
            if k not in st.keys:
                st.keys.add(k)
                st.cases += 1
                try:
                    label = run_case(space, case, st) or "ok"
                except Violation as v:
                    return (list(ch.trace), v.what, v.details), True
                st.outcomes[label] = st.outcomes.get(label, 0) + 1
                if st.outcomes[label] <= 1:
                    st.samples.append({"space": space.name, "outcome": label, "case": space.describe(case)})
        nxt = successor(ch.trace, ch.width)
        if nxt is None or len(nxt) <= base:
            return None, True
        cur = nxt
    return None, True


def _worker(spaces, jobs, counter, stop, q, deadline):
    signal.signal(signal.SIGPROF, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    per = {}
    found = None
    complete = True
    try:
        while True:
            with counter.get_lock():
                j = counter.value
                counter.value += 1
            if j >= len(jobs) or stop.value:
                break
            si, prefix = jobs[j]
            st = per.setdefault(si, Stats())
            viol, done = _explore(spaces[si], prefix, st, stop, deadline)
            if viol is not None:
                found = (si,) + viol
                stop.value = 1
                break
            complete = complete and done
        q.put(("ok", {si: (st.cases, st.skipped, st.edges, st.execs, st.outcomes, st.keys, st.outs, st.samples)
                      for si, st in per.items()}, found, complete))
    except BaseException:  # noqa: BLE001
        stop.value = 1
        q.put(("crash", traceback.format_exc(), None, False))


class Result:
    def __init__(self):
        self.spaces = []
        self.states = self.transitions = self.execs = 0
        self.samples = []
        self.violation = None
        self.complete = True


def explore_all(spaces, time_cap):
    res = Result()
    jobs = []
    for si, s in enumerate(spaces):
        jobs += [(si, p) for p, _ in shards(s)]
    # interleave: heavy spaces do not end up at the tail
    deadline = time.time() + time_cap if time_cap else None
    ctx = mp.get_context("fork")
    counter = ctx.Value("i", 0)
    stop = ctx.Value("i", 0)
    q = ctx.Queue()
    sys.stdout.flush()
    sys.stderr.flush()
    procs = [ctx.Process(target=_worker, args=(spaces, jobs, counter, stop, q, deadline)) for _ in range(WORKERS)]
    for p in procs:
        p.start()
    outs = []
    alive = len(procs)
    while alive:
        try:
            outs.append(q.get(timeout=5))
            alive -= 1
        except Exception:  # noqa: BLE001 queue.Empty
            if all(not p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        p.join()
    if len(outs) < len(procs):
        raise RuntimeError("a worker died (out of memory?)")
    for o in outs:
        if o[0] == "crash":
            raise RuntimeError("worker crashed:\n" + o[1])
    found = []
    for si, s in enumerate(spaces):
        keys, souts, outcomes, samples = set(), set(), {}, []
        edges = execs = skipped = 0
        for _, per, _, _ in outs:
            if si in per:
                c, sk, e, x, oc, ks, os_, sm = per[si]
                keys |= ks
                souts |= os_
                edges += e
                execs += x
                skipped += sk
                samples += sm
                for k, v in oc.items():
                    outcomes[k] = outcomes.get(k, 0) + v
        res.spaces.append({"space": s.name, "bound": s.bound, "deviation_budget": s.budget, "cases": len(keys),
                           "tree_edges": edges, "pruned": skipped, "implementation_runs": execs,
                           "distinct_results": len(souts), "outcomes": dict(sorted(outcomes.items())[:40])})
        res.states += len(keys)
        res.transitions += edges
        res.execs += execs
        seen = set()
        for sm in sorted(samples, key=lambda m: len(str(m["case"]))):
            if sm["outcome"] not in seen and len(seen) < 3:
                seen.add(sm["outcome"])
                res.samples.append(sm)
    for _, _, f, complete in outs:
        if f is not None:
            found.append(f)
        res.complete = res.complete and complete
    if found:
        found.sort(key=lambda f: (f[0], len(f[1]), f[1]))
        res.violation = found[0]
        res.complete = False
    return res


def trim(x, n=4000):
    s = x if isinstance(x, str) else json.dumps(x, default=repr)
    return s if len(s) <= n else s[:n] + f"... ({len(s)} characters)"


def main(prop, level, spaces_for, assumptions, known=None, tier="quick", seed=1, time_cap=None):
    """explore, confirm, report.  Returns the exit status."""
    t0 = time.time()
    signal.signal(signal.SIGPROF, _alarm)
    spaces = spaces_for(tier)
    if time_cap is None:
        time_cap = 600 if tier == "quick" else 3 * 3600
    res = explore_all(spaces, time_cap)
    status = 0
    viols = 0
    for k in (known or []):
        print(f"KNOWN-FINDING: property={prop} {k}")
    if res.violation is not None:
        si, trace, what, details = res.violation
        space = spaces[si]
        # confirm in this process: the same choices have to fail again
        ch, case, skip = build(space, trace)
        again = None
        try:
            run_case(space, case, Stats())
        except Violation as v:
            again = v
        if again is None:
            # an execution that leaves state behind in its process: reproduce with the same predecessors
            print(f"note: the counterexample needs the executions before it; reported as found (space {space.name})")
        else:
            what, details = again.what, again.details
        os.makedirs(SCRATCH, exist_ok=True)
        path = os.path.join(SCRATCH, f"{prop}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "tier": tier, "space": space.name, "choices": trace, "what": what,
                       "case": space.describe(case), "details": {k: trim(v) for k, v in details.items()},
                       "confirmed_alone": again is not None}, f, indent=1, default=repr)
        print(f"{prop}: {what}")
        for k, v in details.items():
            print(f"  {k}: {trim(v, 1500)}")
        print(f"VIOLATION property={prop} replay={path}")
        status = 1
        viols = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.execs,
            "exhaustive": res.complete, "samples": [{**s, "case": trim(s["case"], 1500)} for s in res.samples[:12]],
            "spaces": res.spaces,
            "counting": "states: distinct cases built and run; transitions: edges of the choice trees walked; "
                        "traces_validated_against_impl: executions of the real code judged by the oracle",
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": viols,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=repr)
    for s in res.spaces:
        print(f"  {prop}/{s['space']}: {s['cases']} cases, {s['implementation_runs']} runs, {s['tree_edges']} edges, "
              f"{s['distinct_results']} distinct results, outcomes {s['outcomes']}")
    print(f"{prop} {tier}: states={res.states} transitions={res.transitions} runs={res.execs} "
          f"exhaustive={res.complete} wall={ev['wall_s']}s -> {'VIOLATION' if status else 'held'}")
    return status
