"""C02: metadata stored as extended attributes or as a metastore blob reads back equal; prefixes do not mix."""
from augpathlib.meta import PathMeta
from sx.case import Case
from props.util import FIELDS, same, int_literal

META = dict(
    title='Metadata stored as attributes or in a metastore reads back equal',
    statement='For every metadata record and every prefix, writing the record as extended attributes (or as a '
              'metastore blob) and reading it back under the same prefix yields the same value in every field, or '
              'the write is refused with an error. Attributes stored under another prefix never appear in the result, '
              'and a record with no values yields an empty record. (Empty text counts as absent; a user id spelled '
              'as a whole number reads back as that number.)',
    quantifier=dict(over=['inputs'], text='all metadata records, all prefixes, all other attributes present'),
    why_tests_cant='the tests store a handful of fixed records under one prefix; the encoding must be injective on '
                   'every value of every field',
    anchors=dict(files=['augpathlib/meta.py'],
                 mechanism=[dict(name='attribute encoder/decoder', where='augpathlib/meta.py:_PathMetaAsXattrs')],
                 observe_at=['PathMeta.as_xattrs', 'PathMeta.from_xattrs', 'PathMeta.as_metastore',
                             'PathMeta.from_metastore']),
)
ASSUMPTIONS = ['text values are not empty', 'error strings are not empty', 'pickling is an identity box in symbolic '
               'runs', 'years 1000-9999']
PREFIXES = (None, 'test', 'a.b')


def roundtrip(ctx, meta, prefix=None, extra=None):
    try:
        xs = meta.as_xattrs(prefix)
        if ctx.bound('blob', 0):
            blob = meta.as_metastore(prefix)
    except (ValueError, TypeError) as e:
        ctx.label('refused')
        return 'refused'
    if extra:
        both = dict(extra)
        both.update(xs)
        xs = both
    out = []
    backs = [PathMeta.from_xattrs(xs, prefix)]
    if ctx.bound('blob', 0):
        backs.append(PathMeta.from_metastore(blob, prefix))
    for back in backs:
        for f in FIELDS:
            a, b = getattr(meta, f), getattr(back, f)
            ctx.check(same(f, a, b), 'field %s: wrote %r read %r (prefix %r)' % (f, a, b, prefix))
            out.append(b)
    ctx.label('read back')
    return out


def one_string(ctx):
    f = ctx.bound('field')
    v = ctx.str('v', ctx.bound('n'), minlen=1)
    if f == 'user_id':
        ctx.assume(not int_literal(v))
    return roundtrip(ctx, PathMeta(**{f: v}), ctx.pick('prefix', PREFIXES))


def integers(ctx):
    f = ctx.bound('field')
    v = ctx.int('v', 0, ctx.bound('hi'))
    return roundtrip(ctx, PathMeta(id='x', **{f: v}), 'test')


def dates(ctx):
    kw = dict(id='x')
    kw['created'] = ctx.datetime('created', tz='any', ymin=1000, ymax=9999)
    if ctx.bound('both'):
        kw['updated'] = ctx.datetime('updated', tz='any', ymin=1000, ymax=9999)
    return roundtrip(ctx, PathMeta(**kw), 'test')


def digests(ctx):
    kw, n = {}, ctx.bound('n')
    if ctx.flag('checksum?'):
        kw['checksum'] = ctx.bytes('checksum', n, minlen=1)
    if ctx.flag('etag?'):
        kw['etag'] = ctx.bytes('etag', n), ctx.int('count', 0, 10000)
    return roundtrip(ctx, PathMeta(**kw), 'test')


def errors(ctx):
    k = ctx.choice('k', ctx.bound('k') + 1)
    return roundtrip(ctx, PathMeta(id='x', errors=[ctx.str('e%d' % i, ctx.bound('n'), minlen=1) for i in range(k)]))


ALL = dict(name='a.b', size=0, created='2001-02-03T04:05:06,000007Z', updated='2002-02-03T04:05:06Z',
           checksum=b'\x00.\xff', checksum_cypher='sha256', etag=(b'/|', 3), chunksize=4096, multi=2,
           parent_id='N:c:1/.2', id='N:id:1', file_id=0, old_id='x/y', gid=0, user_id='u.v/w', mode='0o644',
           errors=('e1', 'e.2'))
OTHER = dict((k, v) for k, v in ALL.items())
OTHER.update(name='other', size=99, file_id=98, gid=97, user_id=96, errors=('other',), checksum=b'zz', mode='o',
             id='other', old_id='other', parent_id='other', multi=95, chunksize=94, etag=(b'q', 1),
             checksum_cypher='other', created='1999-01-01T00:00:00Z', updated='1998-01-01T00:00:00Z')
PAIRS = (('test', 'other'), ('a', 'a.b'), ('a.b', 'a'), ('bf', 'bf2'), ('bf2', 'bf'), ('test', None), ('s', 'size'))


def presence(ctx):
    """every subset of fields under one prefix, all fields of another record under another prefix"""
    kw = {}
    for f in ctx.bound('fields'):
        if ctx.flag(f):
            kw[f] = ALL[f]
    mine, theirs = ctx.pick('prefixes', PAIRS)
    extra = PathMeta(**OTHER).as_xattrs(theirs)
    meta = PathMeta(**kw)
    r = roundtrip(ctx, meta, mine, extra)
    if not kw and (mine, theirs) != ('a', 'a.b'):   # a.b.x is an unknown attribute b.x of prefix a
        ctx.check(not PathMeta.from_xattrs(extra, mine), 'record made of foreign attributes')
    return r


STR = ('id', 'name', 'old_id', 'parent_id', 'mode', 'user_id', 'checksum_cypher')
CASES = [
    Case('string', one_string, dict(n=3), dict(n=5), expect=('read back',), split=[dict(field=f) for f in STR],
         bounds='one text field of 1..n characters over ASCII (1-127), hiragana, CJK, emoji; 3 prefixes'),
    Case('ints', integers, dict(hi=10 ** 12, blob=1), dict(hi=10 ** 30), expect=('read back',),
         split=[dict(field=f) for f in ('size', 'file_id', 'chunksize', 'multi', 'gid', 'user_id')],
         bounds='one integer field 0..hi, attributes and metastore blob'),
    Case('dates', dates, dict(both=0, blob=1), dict(both=1), expect=('read back',),
         bounds='timestamps of years 1000-9999, microseconds, naive, UTC or offset up to 14 h'),
    Case('digests', digests, dict(n=3, blob=1), dict(n=8), expect=('read back',),
         bounds='checksum/etag digests of up to n bytes, etag counts up to 10000'),
    Case('errors', errors, dict(n=2, k=2, blob=1), dict(n=3, k=2), expect=('read back',),
         bounds='up to k error strings of 1..n characters'),
    Case('presence', presence, dict(blob=1), expect=('read back',),
         split=[dict(fields=list(ALL)[i:i + 5]) for i in range(0, 13, 4)],
         split_thorough=[dict(fields=list(ALL)[i:i + 7]) for i in range(0, 12, 3)],
         bounds='every subset of present fields out of overlapping groups next to a full record under another prefix'),
]
