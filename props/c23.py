"""C23: fetching the data of a file."""
import errno
import hashlib
from augpathlib.meta import PathMeta
from augpathlib.utils import default_cypher
from props.cachekit import Item, Kit
from props.util import FIELDS, same
from sx.case import Case

META = dict(
    title='Fetching yields the content of the remote or an error, and keeps the record',
    statement='After fetching a file without error its content is what the remote delivered, it has the recorded '
              'size, and if there is a recorded checksum that the content does not have then this is noted in the '
              'errors of the record. A size that does not match is an error. A file over the size limit, or of '
              'unknown size when there is a limit, is not fetched and nothing changes. Whether fetching succeeds or '
              'fails at any point the metadata of the path can still be read and has not changed otherwise.',
    quantifier=dict(over=['inputs', 'fault_sequences'], text='all contents, recorded sizes, checksums, limits, and '
                    'each write operation or the remote failing'),
    why_tests_cant='there is no test of fetch without a network; faults in between are not sampled at all',
    anchors=dict(files=['augpathlib/caches.py', 'augpathlib/core.py'],
                 mechanism=[dict(name='fetch', where='augpathlib/caches.py:PrimaryCache.fetch'),
                            dict(name='data setter', where='augpathlib/core.py:LocalPath.data')],
                 observe_at=['PrimaryCache.fetch', 'PrimaryCache.meta']),
)
ASSUMPTIONS = ['hash functions are injective', 'the record has a file id (otherwise fetching is left to refresh, '
               'which a remote implements)']
A = '/tmp/d/proj/a'
P = 'a.bin'
NOTE = 'checksum-mismatch'


class Broken(Exception):
    pass


class Interrupted(BaseException):
    pass


def setup(ctx):
    data = ctx.bytes('data', ctx.bound('n'))
    k = Kit(ctx, [Item('x', 'a', 'root', data=data)])
    kw = dict(id='x', file_id=3, old_id='w')
    size = ctx.choice('size', 3)
    if size == 1:
        kw['size'] = len(data)
    elif size == 2:
        kw['size'] = ctx.pick('base', (0, 2 * 2 ** 20 - 2)) + ctx.int('other size', 0, 4)
    checksum = ctx.choice('checksum', 3)
    if checksum == 1:
        kw['checksum'] = default_cypher(data).digest()
    elif checksum == 2:
        kw['checksum'] = default_cypher(ctx.bytes('other data', 1)).digest()
    errors = ctx.pick('errors', ((), (NOTE,), ('e',), ('e', NOTE))[:ctx.bound('errors')])
    if errors:
        kw['errors'] = errors
    meta = PathMeta(**kw)
    local = ctx.choice('local', 2)
    if local == 0:
        ctx.fs.link(A, str(meta.as_symlink(local_name='a')))
    else:
        ctx.fs.put(A, ctx.bytes('old', ctx.bound('n')))
        for key, v in meta.as_xattrs('t').items():
            ctx.fs.node(A).xattrs['user.' + key.decode()] = v
    return k, data, kw, local


def fetch(ctx):
    k, data, kw, local = setup(ctx)
    c = k.local('a').cache
    limit = ctx.pick('limit', (None, 2))
    before = ctx.fs.tree('/tmp/d')
    err = None
    try:
        c.fetch(size_limit_mb=limit)
    except ValueError as e:
        err = e
    got = k.local('a').cache.meta
    size = kw.get('size')
    skip = limit is not None and (size is None or size >= 2 * 2 ** 20)
    errors = kw.get('errors', ())
    if skip:
        ctx.check(err is None, 'error %r' % err)
        ctx.check(ctx.fs.tree('/tmp/d') == before, 'something changed')
        ctx.label('over the limit')
    elif size is None and err is not None:
        ctx.label('wrong size')
    elif size is not None and size != len(data):
        ctx.check(err is not None, 'no error for size %r of %r' % (size, data))
        ctx.label('wrong size')
    else:
        ctx.check(err is None, 'error %r' % err)
        ctx.check(ctx.fs.kind(A) == 'file' and ctx.fs.node(A).data == data, 'content is not that of the remote')
        bad = 'checksum' in kw and kw['checksum'] != default_cypher(data).digest()
        if bad and NOTE not in errors:
            errors += (NOTE,)
            ctx.label('noted')
        ctx.label('fetched')
    want = PathMeta(**dict(kw, errors=errors))
    for f in FIELDS:
        ctx.check(same(f, getattr(got, f), getattr(want, f)),
                  'field %s is %r, was %r' % (f, getattr(got, f), getattr(want, f)))
    return [err is None, skip]


def faults(ctx):
    ctx.params['n'] = 1
    k, data, kw, local = setup(ctx)
    c = k.local('a').cache
    fail = ctx.choice('fail', ctx.bound('steps'))
    seen = []
    if fail == 0:
        def chunks(d):
            if ctx.flag('first chunk'):
                yield d
            if ctx.flag('interrupted'):
                raise Interrupted()
            raise Broken()
        k.chunks = chunks

    def broken(op, paths, n):
        if op in ('rename', 'symlink', 'unlink', 'open', 'write', 'setxattr', 'mkdir', 'utime', 'removexattr'):
            seen.append(op)
            if len(seen) == fail:
                return errno.ENOSPC
    ctx.fs.fail = broken
    err = None
    try:
        c.fetch(size_limit_mb=None)
    except (ValueError, OSError, Broken, Interrupted) as e:
        err = e
    ctx.fs.fail = None
    got = k.local('a').cache
    ctx.check(got is not None and got.meta is not None, 'the record is lost: %s %r' % (seen, err))
    ctx.check(got.meta.errors in (kw.get('errors', ()), kw.get('errors', ()) + (NOTE,)), 'errors %r' % (got.meta.errors,))
    for f in FIELDS[:-1]:
        ctx.check(same(f, getattr(got.meta, f), getattr(PathMeta(**kw), f)), 'field %s changed: %s %r' % (f, seen, err))
    if err is None:
        ctx.check(fail > 0 and ctx.fs.kind(A) == 'file' and ctx.fs.node(A).data == data, 'no error but other content')
        ctx.label('fetched')
    else:
        ctx.label('failed')
    return [type(err).__name__, fail]


CASES = [
    Case('fetch', fetch, dict(n=1, errors=3), dict(n=2, errors=4), fs='model', expect=('over the limit', 'wrong size', 'noted', 'fetched'),
         split=[{'=local': i, '=size': j} for i in range(2) for j in range(3)],
         bounds='contents and old contents of up to n bytes, recorded sizes 0 to 4 and around the limit, no limit or 2 MiB'),
    Case('faults', faults, dict(steps=12, errors=2), fs='model', expect=('fetched', 'failed'),
         split=[{'=local': i, '=size': 1} for i in range(2)],
         bounds='the remote fails, or the user interrupts it, before or after its first chunk, or one of the first 11 write operations fails'),
]
