"""C04: metadata records behave as values."""
import copy
import pickle
from augpathlib.meta import PathMeta
from sx.case import Case
from props.util import FIELDS, same

META = dict(
    title='Metadata records behave as values',
    statement='Two metadata records are equal exactly when every field is equal, whichever fields were read before '
              'and in whatever form the timestamps were given. A record is true exactly when some field holds a '
              'value. Copying, deep copying and pickling a record give an equal one, indexing by a field name gives '
              'that field, and an unknown key is a KeyError.',
    quantifier=dict(over=['inputs', 'histories'], text='all pairs of records, all values of every field, all orders of access'),
    why_tests_cant='the tests compare a few freshly built records; equality depends on the form and history of the '
                   'timestamp fields',
    anchors=dict(files=['augpathlib/meta.py'],
                 mechanism=[dict(name='record class', where='augpathlib/meta.py:PathMeta')],
                 observe_at=['PathMeta.__eq__', 'PathMeta.__bool__', 'PathMeta.__reduce__', 'PathMeta.__getitem__',
                             'PathMeta.items']),
)
ASSUMPTIONS = ['pickling is an identity box in symbolic runs']

STR = ('id', 'name', 'old_id', 'parent_id', 'mode', 'checksum_cypher')
INT = ('size', 'file_id', 'chunksize', 'multi', 'gid', 'user_id')


def value(ctx, f, tag):
    if ctx.choice(tag + '.absent', 2):
        return None
    if f in STR:
        return ctx.str(tag, ctx.bound('n'))
    if f in INT:
        return ctx.int(tag, 0 if f != 'file_id' else 1, 10 ** 12)
    if f == 'checksum':
        return ctx.bytes(tag, ctx.bound('n'))
    if f == 'etag':
        return ctx.bytes(tag, ctx.bound('n')), ctx.int(tag + '.c', 0, 10000)
    if f == 'errors':
        return tuple([ctx.str(tag + str(i), 1, minlen=1) for i in range(ctx.choice(tag + '.k', 3))])
    return ctx.datetime(tag, tz='utc')


REST = dict(id='N:1', name='n', size=3, created='2001-02-03T04:05:06,000007Z', gid=4, errors=('x',))


def equality(ctx):
    f = ctx.bound('field')
    a, b = value(ctx, f, 'a'), value(ctx, f, 'b')
    ka, kb = dict(REST), dict(REST)
    ka[f], kb[f] = a, b
    ma, mb = PathMeta(**ka), PathMeta(**kb)
    if f == 'errors':
        a, b = a or (), b or ()
    want = same(f, a, b)
    ctx.label('equal' if want else 'different')
    ctx.check(bool(ma == mb) == want, '%s: %r and %r: == gives %r' % (f, a, b, ma == mb))
    ctx.check(bool(mb == ma) == want, '%s: %r and %r: reversed == gives %r' % (f, a, b, mb == ma))
    ctx.check(bool(ma != mb) == (not want), '%s: %r and %r: != gives %r' % (f, a, b, ma != mb))
    return want


DATES = ('2001-02-03T04:05:06,000007Z', '2001-02-03T04:05:06,000008Z', '2001-02-03T05:05:06,000007+01:00', None)


def forms(ctx):
    """timestamps given as text or as datetime, read before comparing or not"""
    import dateutil.parser as dp
    ms, vals = [], []
    for t in 'ab':
        kw = dict(id='x')
        for f in ('created', 'updated'):
            if f not in ctx.bound('fields'):
                vals.append((f, None))
                continue
            s = ctx.pick(t + f, DATES)
            v = None if s is None else dp.parse(s)
            vals.append((f, v))
            kw[f] = v if s is not None and ctx.flag(t + f + '.parsed') else s
        m = PathMeta(**kw)
        for f in ('created', 'updated'):
            if f in ctx.bound('fields') and ctx.flag(t + f + '.read'):
                getattr(m, f)
        ms.append(m)
    want = vals[0][1] == vals[2][1] and vals[1][1] == vals[3][1]
    ctx.label('equal' if want else 'different')
    ctx.check(bool(ms[0] == ms[1]) == want, '%r == %r gives %r' % (ms[0], ms[1], ms[0] == ms[1]))
    ctx.check(bool(ms[1] == ms[0]) == want, '%r == %r gives %r' % (ms[1], ms[0], ms[1] == ms[0]))
    return want


def copies(ctx):
    f = ctx.bound('field')
    v = value(ctx, f, 'v')
    kw = dict(REST) if ctx.flag('rest') else {}
    kw[f] = v
    m = PathMeta(**kw)
    outs = [copy.copy(m), copy.deepcopy(m), pickle.loads(pickle.dumps(m))]
    for how, c in zip(('copy', 'deepcopy', 'pickle'), outs):
        ctx.check(type(c) is PathMeta, '%s gives %r' % (how, type(c)))
        for g in FIELDS:
            ctx.check(same(g, getattr(m, g), getattr(c, g)), '%s changes %s: %r to %r' % (
                how, g, getattr(m, g), getattr(c, g)))
        ctx.check(bool(m == c), '%s is not equal' % how)
    return [getattr(outs[0], g) for g in FIELDS]


ALL = dict(name='a.b', size=0, created='2001-02-03T04:05:06,000007Z', updated='2002-02-03T04:05:06Z',
           checksum=b'\x00.\xff', checksum_cypher='sha256', etag=(b'/|', 3), chunksize=4096, multi=2,
           parent_id='N:c:1/.2', id='N:id:1', file_id=0, old_id='x/y', gid=0, user_id='u.v/w', mode='0o644',
           errors=('e1', 'e.2'))


def truth(ctx):
    kw = {}
    for f in ctx.bound('fields'):
        if ctx.flag(f):
            kw[f] = ALL[f]
    m = PathMeta(**kw)
    if ctx.flag('read'):
        m.created, m.updated
    ctx.check(bool(m) == bool(kw), 'record of %r is %r' % (kw, bool(m)))
    it = dict(m.items())
    for f in FIELDS:
        ctx.check(f in it and same(f, getattr(m, f), it[f]), 'items() misses or changes %s' % f)
        ctx.check(same(f, getattr(m, f), m[f]), 'm[%r] is %r not %r' % (f, m[f], getattr(m, f)))
    ks = list(m.keys())
    ctx.check(all([k in FIELDS for k in ks]), 'keys() gives %r' % (ks,))
    ctx.label('true' if kw else 'false')
    return bool(m)


def keys(ctx):
    m = PathMeta(**REST)
    k = ctx.str('k', ctx.bound('n'), minlen=1, alphabet=((97, 122),))
    ctx.assume(k not in dir(m))
    try:
        r = m[k]
    except KeyError:
        ctx.label('refused')
        return 'refused'
    ctx.check(False, 'm[%r] gave %r' % (k, r))


def others(ctx):
    m = PathMeta(**REST)
    o = ctx.pick('o', (None, 1, 'x', b'x', {}, ()))
    ctx.check(not (m == o) and not (o == m) and m != o, 'equal to %r' % (o,))
    ctx.label('different')
    return True


CASES = [
    Case('equality', equality, dict(n=2), dict(n=4), expect=('equal', 'different'),
         split=[dict(field=f) for f in STR + INT + ('checksum', 'etag', 'errors', 'created', 'updated')],
         bounds='pairs of records that differ in at most one field, any values (text and digests up to n long)'),
    Case('forms', forms, expect=('equal', 'different'), split=[dict(fields=['created']), dict(fields=['updated'])],
         split_thorough=[dict(fields=['created', 'updated'])],
         bounds='timestamps absent or one of three, as text or datetime, read or not before comparing'),
    Case('copies', copies, dict(n=2), dict(n=4), expect=(),
         split=[dict(field=f) for f in STR + INT + ('checksum', 'etag', 'errors', 'created', 'updated')],
         bounds='one field of any value, alone or with others'),
    Case('truth', truth, expect=('true', 'false'), split=[dict(fields=list(ALL)[i:i + 6]) for i in (0, 5, 11)],
         split_thorough=[dict(fields=list(ALL)[i:i + 9]) for i in (0, 4, 8)], bounds='subsets of present fields'),
    Case('keys', keys, dict(n=3), dict(n=6), expect=('refused',), bounds='unknown keys of 1..n letters'),
    Case('others', others, bounds='comparison with values of other types'),
]
