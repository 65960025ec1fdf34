"""C24: updating the record of a file that is there."""
import errno
from augpathlib import exceptions as exc
from augpathlib.utils import default_cypher
from augpathlib.meta import PathMeta
from props.cachekit import Item, Kit
from props.util import FIELDS, same
from sx.case import Case

META = dict(
    title='Updating a file from the remote never destroys local data',
    statement='When newer metadata says that the content of an existing file changed: if the file has local changes '
              'that are not the new content either, a LocalChangesError is raised and nothing changes. Otherwise the '
              'old file goes to the trash, with its metadata, and the new content with the merged metadata takes its '
              'place. If that fails at any point the error is raised and the old file is back in place, content and '
              'metadata, or at least in the trash. If the content did not change, or fetching is not wanted, the '
              'data of the file is not touched.',
    quantifier=dict(over=['inputs', 'fault_sequences'], text='all local, recorded and remote contents and each '
                    'operation failing'),
    why_tests_cant='there is no test of updating a file from a remote, let alone of failures in between',
    anchors=dict(files=['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/remotes.py'],
                 mechanism=[dict(name='updater', where='augpathlib/caches.py:PrimaryCache._meta_updater'),
                            dict(name='trash', where='augpathlib/caches.py:_CachePath.crumple'),
                            dict(name='local changes', where='augpathlib/core.py:LocalPath.content_different')],
                 observe_at=['PrimaryCache._meta_updater', 'RemotePath.update_cache']),
)
ASSUMPTIONS = ['hash functions are injective', 'the records have checksums']
A = '/tmp/d/proj/a'
TRASH = '/tmp/d/proj/.operations/trash/'


class Broken(Exception):
    pass


class Interrupted(BaseException):
    pass


def rec(data, **kw):
    return PathMeta(id='x', size=len(data), checksum=default_cypher(data).digest(), **kw)


def setup(ctx, id='x'):
    """local content, content the record is of, content of the remote"""
    data = ctx.bytes('local', 1, 1)
    was = data if ctx.flag('unchanged') else ctx.bytes('recorded', 1, 1)
    new = ctx.bytes('remote', 1, 1)
    k = Kit(ctx, [Item(id, 'a', 'root', data=new)])
    old = PathMeta(id=id, size=1, checksum=default_cypher(was).digest(), file_id=1, mode='m',
                   updated='2001-02-03T04:05:06Z')
    newmeta = PathMeta(id=id, size=1, checksum=default_cypher(new).digest(), file_id=2, old_id='w',
                       updated=ctx.pick('updated', ('2002-02-03T04:05:06Z', None)))
    ctx.fs.put(A, data)
    for key, v in old.as_xattrs('t').items():
        ctx.fs.node(A).xattrs['user.' + key.decode()] = v
    return k, data, was, new, old, newmeta


def has(ctx, k, path, data, meta, msg):
    n = ctx.fs.node(path)
    ctx.check(n is not None and n.kind == 'file', msg + ': no file')
    ctx.check(n.data == data, msg + ': content is %r not %r' % (n.data, data))
    got = PathMeta.from_xattrs({a.removeprefix('user.').encode(): v for a, v in n.xattrs.items()}, 't')
    for f in FIELDS:
        ctx.check(same(f, getattr(got, f), getattr(meta, f)),
                  '%s: field %s is %r not %r' % (msg, f, getattr(got, f), getattr(meta, f)))


def merged(old, new):
    return PathMeta(id=old.id, size=1, checksum=new.checksum, file_id=2, old_id='w', updated=new.updated)


def update(ctx):
    k, data, was, new, old, newmeta = setup(ctx)
    fetch = ctx.flag('fetch')
    c = k.local('a').cache
    err = None
    try:
        c._meta_updater(newmeta, fetch=fetch)
    except exc.LocalChangesError as e:
        err = e
    if not fetch:
        has(ctx, k, A, data, merged(old, newmeta), 'without fetch')
        ctx.label('not fetched')
    elif data != was and data != new:
        ctx.check(err is not None, 'local changes %r of %r overwritten by %r' % (data, was, new))
        has(ctx, k, A, data, old, 'local changes')
        ctx.check(ctx.fs.node(TRASH + 'x') is None, 'something in the trash')
        ctx.label('local changes')
    else:
        ctx.check(err is None, 'error %r' % err)
        has(ctx, k, A, new, merged(old, newmeta), 'updated')
        has(ctx, k, TRASH + 'x', data, old, 'trash')
        ctx.label('updated')
    return [err is None, fetch]


def faults(ctx):
    id = ctx.pick('id', ('x', 'x' * 300))
    k, data, was, new, old, newmeta = setup(ctx, id)
    ctx.assume(data == was)
    c = k.local('a').cache
    fail = ctx.choice('fail', ctx.bound('steps'))
    seen = []
    if fail == 0:
        def chunks(d):
            if ctx.flag('first chunk'):
                yield d
            if ctx.flag('interrupted'):
                raise Interrupted()
            raise Broken()
        k.chunks = chunks

    def broken(op, paths, n):
        if op in ('rename', 'symlink', 'unlink', 'open', 'write', 'setxattr', 'mkdir', 'create', 'removexattr', 'truncate'):
            seen.append(op)
            if len(seen) == fail:
                return errno.ENOSPC
    ctx.fs.fail = broken
    err = None
    try:
        c._meta_updater(newmeta)
    except (OSError, Broken, Interrupted) as e:
        err = e
    ctx.fs.fail = None
    if err is None:
        has(ctx, k, A, new, merged(old, newmeta), 'updated')
        ctx.label('updated')
    else:
        has(ctx, k, A, data, old, 'after %r in %s' % (err, seen))
        ctx.label('restored')
    return [type(err).__name__, fail]


CASES = [
    Case('update', update, fs='model', expect=('not fetched', 'local changes', 'updated'),
         bounds='one symbolic byte of local, recorded and remote content each'),
    Case('faults', faults, dict(steps=16), fs='model', expect=('updated', 'restored'),
         split=[{'=id': 0, '=unchanged': 1}, {'=id': 1, '=unchanged': 1}],
         bounds='the remote fails, or the user interrupts it, before or after its first chunk, or one of the first 15 operations fails; an id '
                'that fits in a file name or does not'),
]
