"""development aid: python -m mc.why PROP SPACE [tier]  histogram of the model's reasons for rejection"""
import sys
from collections import Counter
from . import run
run.bind()
from . import core, model
space = next(s for s in run.module(sys.argv[1]).spaces(sys.argv[3] if len(sys.argv) > 3 else "quick") if s.name == sys.argv[2])
c, cur, n = Counter(), [], 0
while cur is not None and n < 20000:
    n += 1
    ch, case, skip = core.build(space, cur)
    if case is not None:
        d = case[0] if isinstance(case, tuple) else case
        try:
            _, w = model.expand(d)
            c["ok " + ",".join(sorted({k for k, _ in w}))] += 1
        except model.Err as e:
            c["ERR " + str(e)] += 1
        except model.Undef as e:
            c["undef " + str(e)] += 1
    cur = core.successor(ch.trace, ch.width)
print(n, c.most_common())
