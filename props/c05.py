"""C05: merging metadata records."""
from augpathlib import PrimaryCache
from augpathlib.meta import PathMeta
from sx.case import Case
from props.util import FIELDS, same

META = dict(
    title='Merging metadata keeps what is known and drops what changed content outdated',
    statement='Merging new metadata into an old record gives, in every field, the new value if there is one and the '
              'old value otherwise. The content counts as different exactly when created, updated, size, checksum or '
              'file id are present on both sides and differ; then nothing survives that only the old record has, '
              'except its id history. If the id changes the old one is kept as old_id. Merging with an empty record '
              'gives the other one, merging a record with itself changes nothing, and neither argument is altered.',
    quantifier=dict(over=['inputs'], text='all pairs of records, field presence and values symbolic'),
    why_tests_cant='one test merges one pair; which of 17 fields survives depends on the presence and equality of '
                   'all of them on both sides',
    anchors=dict(files=['augpathlib/caches.py'],
                 mechanism=[dict(name='merge', where='augpathlib/caches.py:PrimaryCache._update_meta')],
                 observe_at=['PrimaryCache._update_meta']),
)
ASSUMPTIONS = []

DIFF = ('created', 'updated', 'size', 'checksum', 'file_id')
OLD = dict(name='n', size=1, checksum=b'a', checksum_cypher='sha256', etag=(b'e', 1), chunksize=1, multi=1,
           parent_id='p', file_id=1, old_id='oo', gid=1, user_id=1, mode='m', errors=('e',))


def value(ctx, t, f):
    if f in ('size', 'chunksize', 'multi', 'gid', 'user_id'):
        return ctx.int(t + f, 0, 2 ** 40)
    if f == 'file_id':
        return ctx.int(t + f, 0, 2 ** 40)
    if f in ('created', 'updated'):
        return ctx.datetime(t + f, tz=ctx.pick(t + f + 'tz', ('utc', 'naive')))
    if f == 'checksum':
        return ctx.bytes(t + f, 2)
    if f == 'etag':
        return ctx.bytes(t + f, 1, 1), ctx.int(t + f + 'n', 0, 9)
    if f == 'errors':
        return tuple(ctx.str('%s%s%d' % (t, f, i), 1, 1) for i in range(ctx.choice(t + f + 'n', 3)))
    return ctx.str(t + f, 2)


def empty(v):
    return v is None or (isinstance(v, (str, bytes, tuple)) and len(v) == 0)


def record(ctx, t, fields, rest):
    kw = dict(rest)
    for f in fields:
        if f == 'id':
            kw[f] = ctx.str(t + f, 1, 1)
        elif ctx.flag('%s has %s' % (t, f)):
            kw[f] = value(ctx, t, f)
        else:
            kw.pop(f, None)
    kw.setdefault('id', 'x')
    return PathMeta(**kw)


def merge(ctx):
    fields = ctx.bound('fields')
    old = record(ctx, 'o', fields, OLD if ctx.flag('full') else {})
    new = record(ctx, 'n', fields, {k: OLD[k] for k in ('size', 'old_id', 'mode')} if ctx.flag('nfull') else {})
    before = [{f: getattr(m, f) for f in FIELDS} for m in (old, new)]
    different, got = PrimaryCache._update_meta(old, new)
    for m, b in zip((old, new), before):
        for f in FIELDS:
            ctx.check(same(f, getattr(m, f), b[f]), 'argument altered in %s' % f)
    o, n = before
    changed = False
    for f in DIFF:
        if not empty(o[f]) and not empty(n[f]) and not (f == 'size' and int(o[f]) == int(n[f])) and o[f] != n[f]:
            changed = True
    # a value that is there on the old side may itself be empty text
    if not changed:
        for f in DIFF:
            if o[f] is not None and not empty(n[f]) and o[f] != n[f]:
                changed = True
    ctx.check(bool(different) == changed, 'different is %r: %r merged with %r' % (different, old, new))
    for f in FIELDS:
        want = n[f] if not empty(n[f]) else o[f]
        if changed and f != 'old_id' and empty(n[f]):
            want = None
        if f == 'old_id' and empty(n[f]) and o['id'] != n['id']:
            want = o['id']
        g = getattr(got, f)
        ctx.check(empty(g) and empty(want) or same(f, g, want),
                  '%s is %r, expected %r: %r merged with %r' % (f, g, want, old, new))
    ctx.label('changed' if changed else 'kept')
    return [bool(different), [f for f in FIELDS if not empty(getattr(got, f))]]


def corners(ctx):
    fields = ctx.bound('fields')
    m = record(ctx, 'o', fields, OLD if ctx.flag('full') else {})
    none = ctx.pick('empty', (None, PathMeta()))
    how = ctx.choice('how', 3)
    d, got = PrimaryCache._update_meta(*((m, m), (none, m), (m, none))[how])
    ctx.check(not d, 'different')
    for f in FIELDS:
        ctx.check(same(f, getattr(got, f), getattr(m, f)), '%s is %r not %r' % (f, getattr(got, f), getattr(m, f)))
    ctx.label('done')
    return how


G = [('size', 'id'), ('created', 'updated'), ('checksum', 'file_id'), ('checksum', 'checksum_cypher'), ('etag', 'size'),
     ('id', 'old_id'), ('parent_id', 'multi'), ('user_id', 'updated'), ('mode', 'checksum'), ('name', 'created'),
     ('errors', 'size'), ('gid', 'file_id'), ('chunksize', 'updated')]
CASES = [
    Case('merge', merge, expect=('changed', 'kept'), split=[dict(fields=g) for g in G],
         split_thorough=[dict(fields=g + (f,)) for g in G for f in ('size', 'id') if f not in g],
         bounds='two records, two (thorough: three) fields at a time symbolic in presence and value, '
                'the others as in a full or an empty record'),
    Case('corners', corners, expect=('done',), split=[dict(fields=g) for g in G],
         bounds='one record against itself, none and the empty record'),
]
