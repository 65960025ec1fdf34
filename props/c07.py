"""C07: rendered tables show every field."""
from augpathlib.meta import PathMeta
from sx.case import Case
from datetime import datetime, timezone

META = dict(
    title='Rendered metadata tables show every field of every record',
    statement='The table of a record has exactly one row per present field, with that field\'s value. The difference '
              'table of two records shows every field present in either, each once, with the values of both sides on '
              'the same row and nothing but blanks where a side has none.',
    quantifier=dict(over=['inputs'], text='all records and pairs of records, all combinations of present fields'),
    why_tests_cant='the tests only call the renderer on a couple of records and look at no row; aligning two records '
                   'depends on which fields each has',
    anchors=dict(files=['augpathlib/meta.py'],
                 mechanism=[dict(name='row builder', where='augpathlib/meta.py:_PathMetaAsPretty.rows'),
                            dict(name='row alignment', where='augpathlib/meta.py:_PathMetaAsPrettyDiff')],
                 observe_at=['PathMeta.as_pretty', 'PathMeta.as_pretty_diff']),
)
ASSUMPTIONS = ['field values are fixed texts without table delimiters; the table layout (columns between bars) is that '
               'of terminaltables3, which runs unmodified']

A = dict(name='n-a', size=1536, created='2001-02-03T04:05:06,000007Z', updated='2002-02-03T04:05:06Z',
         checksum=b'\x00.\xff', checksum_cypher='sha256', etag=(b'/x', 3), chunksize=4096, multi=2,
         parent_id='N:c:1', id='N:id:1', file_id=7, old_id='x-y', gid=8, user_id=9, mode='rw', errors=('e1', 'e2'))
B = dict(name='n-b', size=2048, created='2003-02-03T04:05:06Z', updated='2004-02-03T04:05:06Z',
         checksum=b'\x01', checksum_cypher='md5', etag=(b'\x02', 4), chunksize=8192, multi=3,
         parent_id='N:c:2', id='N:id:2', file_id=17, old_id='z', gid=18, user_id=19, mode='r', errors=('e3',))

# the least values a field can have
ZERO = dict(A, size=0, created=datetime(1, 1, 1, tzinfo=timezone.utc), updated='1970-01-01T00:00:00Z', chunksize=0,
            multi=0, file_id=0, gid=0, user_id=0, etag=(b'', 0), checksum_cypher='0', name='0', mode='0')


def show(f, v, human):
    if f == 'size':
        return {0: '0', 1536: '2K', 2048: '2K'}[v] if human else str(v)
    if isinstance(v, datetime):
        return '0001-01-01T00:00:00Z'
    if f == 'checksum':
        return v.hex()
    if f == 'etag':
        return v[0].hex() + '-' + str(v[1])
    if f == 'errors':
        return repr(list(v))
    return str(v)


def rows(table):
    out = []
    for line in table.split('\n'):
        if line.startswith('|'):
            out.append([c.strip() for c in line.strip('|').split('|')])
    return out[1:], out[0]


def choose(ctx, t, src):
    kw = {}
    for f in src:
        if f in ctx.bound('fields'):
            if ctx.flag(t + f):
                kw[f] = src[f]
        elif ctx.bound(t + 'rest'):
            kw[f] = src[f]
    return kw


def single(ctx):
    kw = choose(ctx, 'a', ZERO if ctx.flag('zero') else A)
    human = ctx.flag('human')
    title = 'the title' if ctx.flag('title') else None
    rs, head = rows(PathMeta(**kw).as_pretty(title=title, human=human))
    ctx.check(sorted(r[0] for r in rs) == sorted(kw), 'rows %r for fields %r' % (rs, sorted(kw)))
    for k, v in rs:
        ctx.check(v == show(k, kw[k], human), '%s shown as %r' % (k, v))
    ctx.label('shown')
    return len(rs)


def diff(ctx):
    ka, kb = choose(ctx, 'a', A), choose(ctx, 'b', ZERO if ctx.flag('zero') else B)
    human = ctx.flag('human')
    rs, head = rows(PathMeta(**ka).as_pretty_diff(PathMeta(**kb), title='t', human=human))
    seen = []
    for r in rs:
        ctx.check(len(r) == 4, 'row %r' % (r,))
        k = r[0] or r[2]
        ctx.check(k in ka or k in kb, 'row of nothing: %r' % (r,))
        seen.append(k)
        want = [k, show(k, ka[k], human)] if k in ka else ['', '']
        want += [k, show(k, kb[k], human)] if k in kb else ['', '']
        ctx.check(r == want, 'row %r, expected %r' % (r, want))
    ctx.check(sorted(seen) == sorted(set(ka) | set(kb)), 'rows for %r, fields %r' % (
        sorted(seen), sorted(set(ka) | set(kb))))
    ctx.label('shown')
    return len(rs)


F = ('size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'parent_id', 'id', 'file_id',
     'gid', 'user_id', 'mode', 'name', 'old_id', 'multi', 'errors')
CASES = [
    Case('single', single, dict(arest=0), expect=('shown',), split=[dict(fields=F[i:i + 6]) for i in (0, 6, 11)],
         split_thorough=[dict(fields=F[i:i + 10], arest=r) for i in (0, 7) for r in (0, 1)],
         bounds='subsets of fields (fixed values)'),
    Case('diff', diff, dict(arest=0, brest=0), expect=('shown',),
         split=[dict(fields=F[i:i + 4], arest=r, brest=r) for i in (0, 4, 8, 13) for r in (0, 1)],
         split_thorough=[dict(fields=F[i:i + 6], arest=r, brest=q) for i in (0, 5, 11) for r in (0, 1) for q in (0, 1)],
         bounds='subsets of fields on both sides (fixed values), the other fields all present or all absent'),
]
