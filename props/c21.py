"""C21: metadata on existing files and folders."""
from augpathlib.meta import PathMeta
from props.cachekit import Item, Kit
from props.util import FIELDS, same
from sx.case import Case

META = dict(
    title='The cache of an existing path holds exactly the record last written',
    statement='After metadata is written for a file or folder that exists, reading it through any path object for '
              'the same place yields the value written in every field, and no value from an earlier record in the '
              'fields the new one lacks. The content of the file, the extended attributes that are not its metadata '
              'and other paths do not change. The record follows the file when it is renamed.',
    quantifier=dict(over=['inputs', 'histories'], text='all pairs of records written one after the other'),
    why_tests_cant='the tests write one record and read it back; leftovers show only for particular pairs of records',
    anchors=dict(files=['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/meta.py'],
                 mechanism=[dict(name='writer', where='augpathlib/caches.py:EatCache._meta_setter'),
                            dict(name='store', where='augpathlib/core.py:XattrHelper')],
                 observe_at=['PrimaryCache._meta_setter', 'EatCache.meta', 'LocalPath.cache_init']),
)
ASSUMPTIONS = ['text values are not empty']
VALUES = dict(name=('n', 'a'), size=(0, 7), created=('2001-02-03T04:05:06Z', '2002-02-03T04:05:06Z'),
              updated=('2001-02-03T04:05:06Z', '2003-02-03T04:05:06Z'), checksum=(b'\x00', b'b'),
              checksum_cypher=('sha256', 'md5'), etag=((b'e', 1), (b'f', 2)), chunksize=(1, 2), multi=(1, 2),
              parent_id=('p', 'q'), file_id=(1, 2), old_id=('o', 'p'), gid=(1, 0), user_id=(1, 'u'),
              mode=('m', 'l'), errors=(('e',), ('f', 'g')))


def value(ctx, n, v):
    if isinstance(v[0], int):
        return ctx.int(n, 0, 9)
    if isinstance(v[0], bytes):
        return ctx.bytes(n, 1, 1)
    if len(v[0]) == 1 and isinstance(v[0], str):
        return ctx.str(n, 1, 1, alphabet=((33, 126),))
    return ctx.pick(n, v)


def record(ctx, t, fields):
    rest = ctx.flag(t + ' full')
    kw = dict(id='y' if rest and t == 'second' else 'x')
    for f, v in VALUES.items():
        if f in fields:
            if ctx.flag('%s has %s' % (t, f)):
                kw[f] = value(ctx, t + ' ' + f, v)
        elif rest:
            kw[f] = v[t == 'second']
    return PathMeta(**kw)


FOREIGN = {'user.other': b'1', 'user.tt.size': b'7', 'user.size': b'8', 'user.t.unrelated': b'9'}


def write(ctx):
    k = Kit(ctx, [Item('x', 'a', 'root')])
    fields = ctx.bound('fields')
    folder = ctx.flag('folder')
    p = '/tmp/d/proj/a'
    data = b'd'
    ctx.fs.mkd(p) if folder else ctx.fs.put(p, data)
    k.inv['x'].dir = folder
    ctx.fs.put('/tmp/d/proj/b', b'')
    node = ctx.fs.node(p)
    foreign = {a: v for a, v in FOREIGN.items() if a != 'user.t.unrelated'}
    node.xattrs.update(foreign)
    first = record(ctx, 'first', fields)
    c = k.local('a').cache_init(first)
    check(ctx, k, 'a', first)
    second = record(ctx, 'second', fields)
    if ctx.flag('fresh'):
        c = k.local('a').cache
    ctx.check(c.id == 'x', 'id')
    c._meta_setter(second)
    check(ctx, k, 'a', second)
    ctx.check(c.id == second.id, 'id seen by the writer')
    for f in FIELDS:
        ctx.check(same(f, getattr(c.meta, f), getattr(second, f)), '%s seen by the writer' % f)
    node = ctx.fs.node(p)
    ctx.check(folder or node.data == data, 'content changed')
    for a, v in foreign.items():
        ctx.check(node.xattrs.get(a) == v, '%s changed' % a)
    ctx.check(not ctx.fs.node('/tmp/d/proj/b').xattrs, 'other path changed')
    k.local('a').rename(k.local('c'))
    check(ctx, k, 'c', second)
    ctx.label('done')
    return [folder]


def check(ctx, k, name, want):
    got = k.local(name).cache.meta
    for f in FIELDS:
        ctx.check(same(f, getattr(got, f), getattr(want, f)),
                  '%s is %r, written %r' % (f, getattr(got, f), getattr(want, f)))


G = [('size', 'updated'), ('checksum', 'checksum_cypher'), ('etag', 'chunksize'), ('errors', 'old_id'),
     ('name', 'mode'), ('file_id', 'parent_id'), ('gid', 'multi'), ('created', 'user_id')]
CASES = [
    Case('write', write, fs='model', expect=('done',), split=[dict(fields=g) for g in G],
         split_thorough=[dict(fields=g + h[:1]) for g, h in zip(G, G[1:] + G[:1])],
         bounds='two records written to a file or a folder, two (thorough: three) fields at a time with '
                'symbolic presence and value, the others all absent or all present'),
]
