#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough]: decide one property by symbolic execution of /repo's current code."""
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sx import env

PY = '/opt/venv/bin/python'


def sub(args, timeout, cwd=None):
    e = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONBREAKPOINT='0',
             PYTHONPATH='', LANG='C.UTF-8')
    p = subprocess.Popen([PY, '-W', 'ignore'] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd or HERE, start_new_session=True)
    try:
        o, err = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), err.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, '', 'timeout'


def main():
    prop = sys.argv[1]
    if prop == '--selftest':
        rc, o, err = sub(['-c', 'import sys; sys.path.insert(0, %r); from sx import env; env.setup(True); import z3; '
                          'x = z3.Int("x"); s = z3.Solver(); s.add(x > 2, x < 4); print(s.check(), s.model()[x])' % HERE], 60)
        print(o, err)
        sys.exit(0 if o.split() == ['sat', '3'] else 2)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--case') + 1] if '--case' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = float(os.environ.get('SX_BUDGET', 540 if tier == 'quick' else 3000))
    jobs = int(os.environ.get('SX_JOBS', '8'))
    env.setup(False)
    # the case table is read in a plain process: no instrumentation here
    m = importlib.import_module(env.mod_name(prop))
    cases = [c for c in m.CASES if (tier == 'thorough' or not c.thorough_only) and (only is None or c.name == only)]
    tmp = tempfile.mkdtemp(prefix='sx-%s-' % prop)
    errors, viols, incomplete, warnings = [], [], [], []
    agg = dict(paths=0, pruned=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, branches=0, checks=0,
               concretised=0, aborted=0)
    labels, funcs, samples, percase = {}, set(), [], []
    validated = replayed = 0
    try:
        tasks = []
        for c in cases:
            for i in range(len(c.parts(tier))):
                tasks.append((c, i))

        def one(task):
            c, i = task
            out = os.path.join(tmp, '%s-%d.json' % (c.name, i))
            left = budget - (time.time() - t0)
            rc, o, err = sub([os.path.join(HERE, 'sx/worker.py'), prop, c.name, str(i), tier, out,
                              str(max(left, 5)), str(seed)], max(left, 5) + 120)
            if os.environ.get('SX_TRACE'):
                print(o)
            if rc != 0:
                return c, i, None, 'worker %s/%d: rc=%s %s' % (c.name, i, rc, err[-1500:]), None
            r = json.load(open(out))
            # replay on the real code
            items = r['samples'] + r['violations']
            job = os.path.join(tmp, '%s-%d.job' % (c.name, i))
            rout = job + '.out'
            hang = [v for v in r['violations'] if v.get('hang')]
            batch = [it for it in items if not it.get('hang')]
            json.dump(dict(property=prop, case=c.name, params=r['params'], items=batch), open(job, 'w'))
            rc, o, err = sub([os.path.join(HERE, 'sx/replay.py'), job, rout], 200)
            if rc != 0:
                return c, i, r, 'replay %s/%d: rc=%s %s' % (c.name, i, rc, err[-1500:]), None
            rep = json.load(open(rout))
            pairs = list(zip(batch, rep))
            for it in hang:
                json.dump(dict(property=prop, case=c.name, params=r['params'], items=[it]), open(job, 'w'))
                rc, o, err = sub([os.path.join(HERE, 'sx/replay.py'), job, rout], 30)
                pairs.append((it, dict(violation='no result within 30 s') if rc is None else
                              json.load(open(rout))[0] if rc == 0 else dict(violation='replay died: ' + err[-300:])))
            return c, i, r, None, pairs
        with cf.ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, tasks))
        clabels = {}
        for c, i, r, err, pairs in results:
            if err:
                errors.append(err)
            if r is None:
                continue
            for k in agg:
                agg[k] += r['stats'][k]
            for l, n in r['labels'].items():
                labels['%s:%s' % (c.name, l)] = labels.get('%s:%s' % (c.name, l), 0) + n
                clabels.setdefault(c.name, set()).add(l)
            funcs |= set(r['funcs'])
            for w in r['incomplete']:
                incomplete.append('%s[%d]: %s' % (c.name, i, w))
            percase.append(dict(case=c.name, part=i, params=r['params'], paths=r['stats']['paths'],
                                queries=r['stats']['queries'], wall_s=round(r['wall'], 1), unexplored=r['left']))
            for it, rp in pairs or []:
                replayed += 1
                if 'error' in rp:
                    errors.append('harness: %s %r\n%s' % (rp['error'], it['inputs'], rp.get('tb', '')))
                    continue
                if 'what' in it:   # claimed counterexample
                    if 'violation' in rp:
                        viols.append((c, r['params'], it, rp))
                    else:
                        warnings.append('counterexample of %s does not reproduce on the real code: %r %r -> %r' % (
                            c.name, it['what'], it['inputs'], rp))
                else:
                    if 'violation' in rp:
                        viols.append((c, r['params'], it, rp))
                    elif rp.get('outcome') == it['outcome']:
                        validated += 1
                        if len(samples) < 6 and len(it['inputs']) > 0:
                            samples.append(dict(case=c.name, inputs=it['inputs'], outcome=it['outcome']))
                    else:
                        warnings.append('translator mismatch in %s: inputs %r symbolic %r real %r' % (
                            c.name, it['inputs'], it['outcome'], rp))
        if not viols:
            for c in cases:
                for l in c.expect:
                    if l not in clabels.get(c.name, ()):
                        errors.append('vacuous: label %r of case %s never reached' % (l, c.name))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = load_known(prop)
    out_v = []
    for c, params, it, rp in viols:
        k = match_known(known, c.name, it, rp)
        if k is not None:
            k['hit'] = True
            continue
        out_v.append((c, params, it, rp))
    for k in known:
        if k.get('hit'):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=agg['paths'], transitions=agg['branches'],
                            traces_validated_against_impl=validated, replayed_on_real_code=replayed,
                            samples=samples or [dict(note='no sample')],
                            solver_queries=agg['queries'], sat=agg['sat'], unsat=agg['unsat'],
                            unknown=agg['unknown'], solver_s=round(agg['solver_s'], 2),
                            assertions_checked=agg['checks'], pruned=agg['pruned'],
                            functions_encoded=sorted(funcs), labels=labels, cases=percase,
                            bounds={c.name: c.bounds for c in cases},
                            incomplete=incomplete, errors=errors, warnings=warnings,
                            exhaustive=not incomplete and not errors and not warnings,
                            explanation='states = complete execution paths of the real code, each covering all '
                                        'inputs satisfying its path condition; transitions = recorded symbolic '
                                        'branches; a path set is exhaustive when the solver refuted every '
                                        'unexplored side within the bounds'),
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(out_v))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: paths=%d pruned=%d branches=%d queries=%d (unsat %d, unknown %d) solver=%.1fs validated=%d wall=%.1fs%s' % (
        prop, tier, agg['paths'], agg['pruned'], agg['branches'], agg['queries'], agg['unsat'], agg['unknown'],
        agg['solver_s'], validated, time.time() - t0, ' INCOMPLETE' if incomplete else ''))
    for w in incomplete[:20]:
        print('  incomplete:', w)
    if '-v' in sys.argv:
        for p in percase:
            print('  ', p)
        print('  labels', labels)
    if out_v:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for n, (c, params, it, rp) in enumerate(out_v):
            f = os.path.join(rd, '%s-%s-%d.json' % (prop, c.name, n))
            json.dump(dict(property=prop, case=c.name, params=params, items=[dict(inputs=it['inputs'])],
                           what=rp['violation'], tb=rp.get('tb')), open(f, 'w'), indent=1)
            if n < 5:
                print('VIOLATION property=%s replay=%s' % (prop, f))
                print('   ', rp['violation'][:600], it['inputs'])
        sys.exit(1)
    # a symbolic result the real code does not confirm is a defect of the translator, never an alarm
    for e in warnings[:10]:
        print('WARNING', e[:1500])
    if warnings and os.environ.get('SX_STRICT'):
        sys.exit(2)
    if errors:
        for e in errors[:10]:
            print('ERROR', e[:1500])
        sys.exit(2)
    sys.exit(0)


def load_known(prop):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [dict(k) for k in json.load(open(f))['known'] if k['property'] == prop]


def match_known(known, case, it, rp):
    for k in known:
        if k['case'] == case and k['match'] in rp['violation'] and all(
                it['inputs'].get(n) == v for n, v in k.get('inputs', {}).items()):
            return k
    return None


if __name__ == '__main__':
    main()
