"""concrete replay on the uninstrumented code: replay.py FILE OUT

FILE: {"property":..., "case":..., "params":..., "items":[{"inputs":...}]}; every item is run in this process,
unless it has to be timed out, in which case the caller passes a single item."""
import importlib
import json
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import env


def of_the_code(e):
    """the exception passed through code under test, and is not one that says that the harness is too small"""
    files = []
    t = e.__traceback__
    while t:
        files.append(t.tb_frame.f_code.co_filename)
        t = t.tb_next
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    if files[-1].startswith(here) and isinstance(e, (NotImplementedError, AssertionError)):
        return False
    top = os.path.realpath(os.path.join(env.REPO, 'augpathlib')) + os.sep
    if any(os.path.realpath(f).startswith(top) for f in files):
        return True
    # raised by the harness itself: a missing value is an answer, a missing name or parameter is not
    return 'NoneType' in str(e) or not isinstance(e, (AttributeError, TypeError, ImportError, NameError))


def run_one(case, params, inputs):
    from sx import ctx as C
    from sx.core import Violation, Prune
    c = C.ConcCtx(inputs, params)
    fs = None
    if case.fs:
        from sx import modelfs
        fs = modelfs.attach(c, None)
    try:
        return dict(outcome=c.execute(case.fn), labels=sorted(c.labels))
    except Violation as e:
        return dict(violation=str(e))
    except Prune:
        return dict(pruned=True)
    except BaseException as e:
        what = 'unexpected %s: %s' % (type(e).__name__, e)
        tb = ''.join(traceback.format_exception(e))[-1500:]
        kind = 'violation' if of_the_code(e) else 'error'
        return {kind: what, 'tb': tb}
    finally:
        if fs is not None:
            fs.uninstall()


def main(fn, out=None):
    env.setup(True)
    job = json.load(open(fn))
    from sx import stubs
    stubs.install_concrete()
    m = importlib.import_module(env.mod_name(job['property']))
    case = [c for c in m.CASES if c.name == job['case']][0]
    res = []
    for it in job['items']:
        res.append(run_one(case, job['params'], it['inputs']))
    if out:
        json.dump(res, open(out, 'w'))
    else:
        for r in res:
            print(json.dumps(r, indent=1))
        if any('violation' in r for r in res):
            sys.exit(1)


if __name__ == '__main__':
    main(*sys.argv[1:])
