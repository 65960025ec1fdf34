"""C01: metadata written as a symlink reads back equal, or the write is refused."""
from augpathlib import AugmentedPath
from augpathlib.meta import PathMeta
from sx.case import Case
from props.util import FIELDS, same, int_literal

META = dict(
    title='Metadata stored in a symlink reads back equal or is refused',
    statement='For every metadata record, storing it as the target of a symlink and reading that symlink back yields '
              'a record with the same value in every field, or storing it is refused with an error; no value is ever '
              'silently altered, dropped or moved to another field. (A user id spelled as a whole number reads back '
              'as that number.)',
    quantifier=dict(over=['inputs'], text='all metadata records: every text field over all characters including the '
                    'format separators, all integers, all timestamps and offsets, all checksums, all error lists'),
    why_tests_cant='the tests round-trip a handful of fixed records; the separators and escapes interact with the '
                   'content of every field, which only a search over all strings reaches',
    anchors=dict(files=['augpathlib/meta.py'],
                 mechanism=[dict(name='symlink encoder/decoder', where='augpathlib/meta.py:_PathMetaAsSymlink')],
                 observe_at=['PathMeta.as_symlink', 'PathMeta.from_symlink']),
)
ASSUMPTIONS = ['the file system is sx.modelfs', 'dateutil.parser.parse is replaced on symbolic text by an ISO-8601 '
               'contract stub (validated against dateutil by the concrete replays)',
               'error strings are not empty; ids are not empty; years 1000-9999']


def roundtrip(ctx, meta):
    p = AugmentedPath('/tmp/d/f.ext')
    ctx.fs.mkd('/tmp/d')
    try:
        link = meta.as_symlink(local_name=p.name)
        p.symlink_to(link)
    except (ValueError, TypeError, OSError) as e:
        ctx.label('refused')
        return 'refused'
    back = PathMeta.from_symlink(p)
    ctx.label('read back')
    out = []
    for f in FIELDS:
        a, b = getattr(meta, f), getattr(back, f)
        ctx.check(same(f, a, b), 'field %s: wrote %r read %r' % (f, a, b))
        out.append(b)
    return out


BASE = dict(id='N:id:1', name='f.ext', size=5)


def one_string(ctx):
    f = ctx.bound('field')
    v = ctx.str('v', ctx.bound('n'), minlen=1 if f in ('id', 'name') else 0)
    if f == 'user_id':
        ctx.assume(not int_literal(v))
    kw = dict(BASE)
    kw[f] = v
    return roundtrip(ctx, PathMeta(**kw))


def two_strings(ctx):
    a, b = ctx.bound('fields')
    kw = dict(BASE)
    kw[a] = ctx.str('a', ctx.bound('n'), minlen=1)
    kw[b] = ctx.str('b', ctx.bound('n'), minlen=1)
    return roundtrip(ctx, PathMeta(**kw))


def integers(ctx):
    hi = ctx.bound('hi')
    f = ctx.bound('field')
    kw = dict(BASE)
    kw[f] = ctx.int('v', 1 if f == 'file_id' else 0, hi)
    return roundtrip(ctx, PathMeta(**kw))


def dates(ctx):
    kw = dict(BASE)
    kw['created'] = ctx.datetime('created', tz='any', ymin=1000, ymax=9999)
    if ctx.bound('both'):
        kw['updated'] = ctx.datetime('updated', tz='any', ymin=1000, ymax=9999)
    return roundtrip(ctx, PathMeta(**kw))


def checksums(ctx):
    kw = dict(BASE)
    n = ctx.bound('n')
    if ctx.flag('checksum?'):
        kw['checksum'] = ctx.bytes('checksum', n)
        kw['checksum_cypher'] = 'sha256'
    if ctx.flag('etag?'):
        kw['etag'] = ctx.bytes('etag', n), ctx.int('count', 0, 10000)
        kw['chunksize'] = 64
    return roundtrip(ctx, PathMeta(**kw))


def errors(ctx):
    kw = dict(BASE)
    k = ctx.choice('k', ctx.bound('k') + 1)
    kw['errors'] = [ctx.str('e%d' % i, ctx.bound('n'), minlen=1) for i in range(k)]
    kw['mode'] = 'rw'
    return roundtrip(ctx, PathMeta(**kw))


ALL = dict(name='a.b', size=1, created='2001-02-03T04:05:06,000007Z', updated='2002-02-03T04:05:06Z',
           checksum=b'\x00.\xff', checksum_cypher='sha256', etag=(b'/|', 3), chunksize=4096, multi=2,
           parent_id='N:c:1/.2', file_id=7, old_id='x/y', gid=8, user_id='u.v/w', mode='0o644',
           errors=('e1', 'e.2'))


def presence(ctx):
    kw = dict(id='N:id:1/.x')
    for f, v in ALL.items():
        if (f in ctx.bound('fields') and ctx.flag(f)) or (f not in ctx.bound('fields') and ctx.bound('rest')):
            kw[f] = v
    return roundtrip(ctx, PathMeta(**kw))


STR = ('id', 'name', 'old_id', 'parent_id', 'mode', 'user_id', 'checksum_cypher')
CASES = [
    Case('string', one_string, dict(n=4), dict(n=5), fs='model', expect=('read back', 'refused'),
         split=[dict(field=f) for f in STR],
         bounds='one text field of up to n characters over ASCII (1-127), hiragana, CJK, emoji'),
    Case('pairs', two_strings, dict(n=1), dict(n=2), fs='model', expect=('read back',),
         split=[dict(fields=(a, b)) for a, b in (('id', 'name'), ('old_id', 'parent_id'), ('mode', 'name'),
                                                 ('parent_id', 'id'), ('checksum_cypher', 'mode'))],
         bounds='two text fields of up to n characters'),
    Case('ints', integers, dict(hi=10 ** 12), dict(hi=10 ** 30), fs='model', expect=('read back',),
         split=[dict(field=f) for f in ('size', 'file_id', 'chunksize', 'multi', 'gid', 'user_id')],
         bounds='one integer field up to hi'),
    Case('dates', dates, dict(both=0), dict(both=1), fs='model', expect=('read back',),
         bounds='timestamps of years 1000-9999, microseconds, naive, UTC or offset up to 14 h'),
    Case('checksums', checksums, dict(n=3), dict(n=8), fs='model', expect=('read back',),
         bounds='checksum/etag digests of up to n bytes, etag counts up to 10000'),
    Case('errors', errors, dict(n=2, k=2), dict(n=3, k=2), fs='model', expect=('read back', 'refused'),
         bounds='up to k error strings of 1..n characters'),
    Case('presence', presence, dict(rest=0), fs='model', expect=('read back',),
         split=[dict(fields=list(ALL)[i:i + 6]) for i in (0, 5, 10)],
         split_thorough=[dict(fields=list(ALL)[i:i + 9], rest=r) for i in (0, 4, 7) for r in (0, 1)],
         bounds='every subset of present fields out of overlapping groups (fixed values)'),
]
