"""C09: reads deliver exactly the bytes of the file."""
import hashlib
from augpathlib import LocalPath
from augpathlib.utils import default_cypher
from sx.case import Case

META = dict(
    title='Reads deliver exactly the requested bytes and checksums digest the content',
    statement='The chunks of a local file\'s data, joined, are its content; the chunks of a ranged read are the '
              'bytes of those ranges, in order, cut at the end of the file, for every chunk size and no chunk larger '
              'than it. The checksum of a file is the digest of its content under the chosen cypher (the one asked '
              'for if that is not the default, else the one of its cache class, else the default), extra cyphers included.',
    quantifier=dict(over=['inputs'], text='all contents, ranges and chunk sizes; all cyphers'),
    why_tests_cant='the tests never read a range; whether a chunk boundary, the end of a range and the end of the '
                   'file are handled depends on how the three sizes relate',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='chunk generators', where='augpathlib/core.py:LocalPath._data'),
                            dict(name='digests', where='augpathlib/core.py:AugmentedPath.checksum')],
                 observe_at=['LocalPath.data', 'LocalPath._data', 'AugmentedPath.checksum']),
)
ASSUMPTIONS = ['files are read through an in-memory model of the file system (a read returns the full amount unless '
               'the file ends)',
               'ranges are 0 <= start <= end, 0 <= start with no end, or the last -start bytes of a file at least '
               'that long', 'hash functions are injective (symbolic runs spell out their input)']


def join(chunks):
    out = b''
    for c in chunks:
        out = out + c
    return out


def ranged(ctx):
    data = ctx.bytes('data', ctx.bound('n'))
    ctx.fs.put('/tmp/d/f', data)
    cs = ctx.choice('chunksize', ctx.bound('c')) + 1
    how = ctx.choice('how', 2)

    class P(LocalPath):
        chunksize = cs if how else 4096
    p = P('/tmp/d/f')
    ranges, want = [], b''
    for i in range(ctx.choice('ranges', ctx.bound('k') + 1)):
        shape = ctx.choice('shape%d' % i, 3)
        if shape == 0:
            a, b = ctx.int('a%d' % i, 0, ctx.bound('n') + 2), ctx.int('b%d' % i, 0, ctx.bound('n') + 2)
            ctx.assume(a <= b)
        elif shape == 1:
            a, b = ctx.int('a%d' % i, 0, ctx.bound('n') + 2), None
        else:
            a, b = ctx.int('a%d' % i, -ctx.bound('n'), -1), None
            ctx.assume(-a <= len(data))
        ranges.append((a, b))
        want = want + data[a:b]
        ctx.label('shape%d' % shape)
    chunks = list(p._data(ranges) if how else p._data(tuple(ranges), chunksize=cs))
    if not ranges:
        want = data
    ctx.check(join(chunks) == want, 'ranges %r in chunks of %d of %r read %r' % (ranges, cs, data, chunks))
    for c in chunks:
        ctx.check(len(c) <= cs, 'chunk of %d bytes' % len(c))
    ctx.check(ctx.fs.open_files == 0, 'file left open')
    return len(chunks)


def whole(ctx):
    data = ctx.bytes('data', ctx.bound('n'))
    ctx.fs.put('/tmp/d/f', data)

    class C:
        cypher = ctx.pick('cache', (None, hashlib.sha256, hashlib.md5))

    class P(LocalPath):
        chunksize = ctx.choice('chunksize', ctx.bound('c')) + 1
        _cache_class = C if C.cypher is not None else None
    p = P('/tmp/d/f')
    chunks = list(p.data)
    ctx.check(join(chunks) == data, 'data %r of %r' % (chunks, data))
    for c in chunks:
        ctx.check(0 < len(c) <= P.chunksize, 'chunk of %d bytes' % len(c))
    ctx.check(join(p.data) == data, 'second read differs')
    given = ctx.pick('cypher', (None, hashlib.md5, hashlib.sha1, hashlib.sha512))
    extra = ctx.pick('extra', ((), (hashlib.sha512,), (hashlib.sha256, hashlib.md5)))
    kw = {} if given is None else dict(cypher=given)
    if extra:
        kw['extra_cyphers'] = extra
    got = p.checksum(**kw)
    first = given or C.cypher or default_cypher
    want = tuple(c(data).digest() for c in (first,) + extra)
    ctx.check((got if extra else (got,)) == want, 'checksum with %r: %r' % (kw, got))
    ctx.check(P('/tmp/d').checksum() is None, 'checksum of a folder')
    ctx.check(ctx.fs.open_files == 0, 'file left open')
    ctx.label('done')
    return len(chunks)


CASES = [
    Case('ranges', ranged, dict(c=3, k=1, n=4), dict(c=3, k=2, n=3), fs='model',
         split=[dict(), dict(c=2, k=2, n=2)], split_thorough=[dict()], expect=('shape0', 'shape1', 'shape2'),
         bounds='files of up to n bytes, up to k ranges with bounds up to n+2, chunk sizes 1..c'),
    Case('whole', whole, dict(c=3, n=4), dict(c=5, n=10), fs='model', expect=('done',),
         bounds='files of up to n bytes, chunk sizes 1..c, five cyphers'),
]
