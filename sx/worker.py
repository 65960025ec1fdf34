"""explores one part of one case symbolically: worker.py PROP CASE PART TIER OUT BUDGET SEED"""
import importlib
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import env


def main(prop, case_name, part, tier, out, budget, seed):
    t0 = time.time()
    env.setup(True)
    import z3  # noqa: F401
    z3.set_param('smt.random_seed', 0)
    sys.setrecursionlimit(4000)
    from sx import instr, core, ctx as C
    instr.install()
    from sx import dates, stubs
    dates.install()
    stubs.install()
    m = importlib.import_module(env.mod_name(prop))
    case = [c for c in m.CASES if c.name == case_name][0]
    params = case.parts(tier)[int(part)]

    def make(run):
        c = C.SymCtx(run, params)
        if case.fs:
            from sx import modelfs
            modelfs.attach(c, run)
        return c
    lim = dict(case.limits)
    ex = core.Explorer(case.fn, make, deadline=t0 + float(budget), seed=int(seed), **lim)
    trace = None
    if os.environ.get('SX_TRACE'):
        def trace(run, outcome, viol):
            print('PATH', dict(run.values), outcome, viol, run.aborted, 'pruned' if run.pruned else '', flush=True)
            if os.environ['SX_TRACE'] == '2':
                for e, t, k, s in run.path:
                    print('   ', k, t, s, str(e)[:150])
    ex.explore(trace=trace)
    json.dump(dict(stats=ex.stats, incomplete=ex.incomplete, violations=ex.violations, samples=ex.samples,
                   labels=ex.labels, funcs=sorted(ex.funcs), left=ex.left, wall=time.time() - t0,
                   params=params), open(out, 'w'))


if __name__ == '__main__':
    main(*sys.argv[1:])
