#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from the META tables of the property modules and NA below"""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sx import env
env.setup(False)
from props import na, design

TECH = 'path-complete symbolic execution of the real Python code with z3 (bounded inputs)'


def main():
    props, checks = [], []
    for f in sorted(glob.glob(os.path.join(HERE, 'props/c[0-9]*.py'))):
        pid = os.path.basename(f)[:-3].upper()
        m = importlib.import_module(env.mod_name(pid))
        M = m.META
        assert len(M['title']) <= 80, (pid, len(M['title']))
        props.append(dict(id=pid, **M))
        checks.append(dict(
            property=pid,
            quick_cmd='/opt/venv/bin/python run.py %s --tier quick' % pid,
            thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % pid,
            technique=TECH, level='model_checking',
            level_note=note(m)))
    for p in na.PROPS:
        props.append(p)
    man = dict(version=1, setup_cmd='/opt/venv/bin/python run.py --selftest', checks=checks,
               not_applicable=[dict(property=i, reason=r) for i, r in na.REASONS.items()])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    try:
        sys.path.append(env.VT)
        import jsonschema
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in props:
            jsonschema.validate(p, sch)
    except ImportError:
        print('no jsonschema')
    write_design()
    print(len(props), 'properties', len(checks), 'checks')


def write_design():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'props/c[0-9]*.py'))):
        pid = os.path.basename(f)[:-3].upper()
        m = importlib.import_module(env.mod_name(pid))
        out.append('**%s. %s.** Decided by: %s.' % (pid, m.META['title'], design.ORACLE[pid]))
        for c in m.CASES:
            out.append('* `%s`: %s%s; parameters %s quick, %s thorough.' % (
                c.name, c.bounds, ' (model file system)' if c.fs else '', c.parts('quick'), c.parts('thorough')))
        out.append('* Anchors: %s. Assumed: %s.' % (
            ', '.join('`%s`' % x['where'] for x in m.META['anchors']['mechanism']),
            '; '.join(getattr(m, 'ASSUMPTIONS', [])) or 'nothing beyond section 1'))
        out.append('* Beyond the tests: %s.' % m.META['why_tests_cant'].rstrip('.'))
        out.append('')
    cf = os.path.join(HERE, 'catches.json')
    rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
    catches = json.load(open(cf)) if os.path.exists(cf) else {}
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        i = os.path.basename(os.path.dirname(d))
        j = json.load(open(d))
        rows.append('| %s | %s | %s | %s | %s |' % (i, j['property'], j['needs'], j['what_it_breaks'],
                                                   catches.get(i, 'not run')))
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    t = open(os.path.join(HERE, 'DESIGN.src.md')).read()
    t = t.replace('PROPSECTION', '\n'.join(out)).replace('CATCHSECTION', '\n'.join(rows))
    t = t.replace('FIXSECTION', '\n'.join('* ' + x[len('fixed: property='):] for x in known['fixed']))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)


def note(m):
    b = '; '.join('%s: %s' % (c.name, c.bounds) for c in m.CASES)
    a = '; '.join(getattr(m, 'ASSUMPTIONS', []))
    return 'Every path within the bounds is explored and every unexplored side refuted by z3. Bounds: ' + b + \
        ('. Assumptions: ' + a if a else '')


if __name__ == '__main__':
    main()
