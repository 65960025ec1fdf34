"""C08: multi-part etags."""
import hashlib
from augpathlib import LocalPath
from augpathlib.utils import etag
from sx.case import Case

META = dict(
    title='An etag depends only on the data and the chunk size',
    statement='The etag of data is the digest of the digests of its consecutive chunks of the given size, together '
              'with their number, however the data is split into updates and whenever digests were asked for in '
              'between. The etag of a file equals the etag of its content whatever size it is read in.',
    quantifier=dict(over=['inputs', 'histories'], text='all data, all chunk sizes, all sequences of update and digest'),
    why_tests_cant='the tests try a few split points of one text; off-by-one errors appear only for particular '
                   'combinations of chunk size, split and early digest',
    anchors=dict(files=['augpathlib/utils.py', 'augpathlib/core.py'],
                 mechanism=[dict(name='etag accumulator', where='augpathlib/utils.py:etag')],
                 observe_at=['etag.update', 'etag.digest', 'etag.hexdigest', 'LocalPath.etag']),
)
ASSUMPTIONS = ['hash functions are injective (symbolic runs spell out their input)']


def reference(data, n):
    out, count = b'', 0
    for i in range(0, len(data), n):
        out = out + hashlib.md5(data[i:i + n]).digest()
        count += 1
    return hashlib.md5(out).digest(), count


def history(ctx):
    n = ctx.choice('chunksize', ctx.bound('c')) + 1
    e = etag(n)
    data = b''
    for i in range(ctx.choice('updates', ctx.bound('k') + 1)):
        part = ctx.bytes('part%d' % i, ctx.bound('n'))
        data = data + part
        e.update(part)
        if ctx.flag('digest%d' % i):
            ctx.check(e.digest() == reference(data, n), 'early digest after %d updates, chunk size %d: %r' % (i + 1, n, data))
            ctx.label('early')
    got = e.digest()
    want = reference(data, n)
    ctx.check(got == want, 'chunk size %d, data %r: %r not %r' % (n, data, got, want))
    ctx.check(e.digest() == want, 'a second digest differs')
    ctx.check(e.hexdigest() == want[0].hex() + '-' + str(want[1]), 'hexdigest %r' % (e.hexdigest(),))
    ctx.label('done')
    return got[1]


def of_file(ctx):
    n = ctx.choice('chunksize', ctx.bound('c')) + 1
    data = ctx.bytes('data', ctx.bound('n'))
    ctx.fs.put('/tmp/d/f', data)

    class P(LocalPath):
        chunksize = ctx.choice('read', ctx.bound('c')) + 1
    p = P('/tmp/d/f')
    got = p.etag(n)
    want = reference(data, n)
    ctx.check(got == want, 'chunk size %d, read size %d, data %r: %r not %r' % (n, P.chunksize, data, got, want))
    m = p._meta_maker(chunksize=n)
    ctx.check(m.etag == want and m.chunksize == n, 'meta etag %r chunksize %r' % (m.etag, m.chunksize))
    ctx.check(P('/tmp/d').etag(n) is None, 'etag of a folder')
    ctx.label('done')
    return got[1]


CASES = [
    Case('history', history, dict(c=3, k=3, n=4), dict(c=4, k=3, n=6), expect=('early', 'done'),
         bounds='chunk sizes 1..c, up to k updates of up to n bytes each, a digest after any of them'),
    Case('file', of_file, dict(c=4, n=9), dict(c=6, n=16), fs='model', expect=('done',),
         bounds='files of up to n bytes, chunk and read sizes 1..c'),
]
