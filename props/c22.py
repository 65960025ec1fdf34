"""C22: moving a cached path."""
import errno
from augpathlib import exceptions as exc
from augpathlib.meta import PathMeta
from props.cachekit import Item, Kit
from props.c24 import has
from sx.case import Case

META = dict(
    title='Moving a cached path never overwrites another one and loses nothing',
    statement='When the remote moved or renamed a file the local file or symlink moves to the new place with its '
              'content and its metadata, missing folders on the way are created with theirs, and nothing is left '
              'in the old place. A target that is there already and has another id makes the move fail with an error, '
              'both stay as they were. If an operation fails then the content and the metadata are still there, '
              'in the old or in the new place.',
    quantifier=dict(over=['inputs', 'fault_sequences'], text='all combinations of source and target and each '
                    'operation failing'),
    why_tests_cant='the tests move folders and symlinks to free places; what is overwritten depends on what is at the '
                   'target and what fails',
    anchors=dict(files=['augpathlib/caches.py', 'augpathlib/remotes.py', 'augpathlib/core.py'],
                 mechanism=[dict(name='move', where='augpathlib/caches.py:PrimaryCache.move'),
                            dict(name='parents', where='augpathlib/core.py:LocalPath.mkdir_cache'),
                            dict(name='trigger', where='augpathlib/remotes.py:RemotePath.update_cache')],
                 observe_at=['PrimaryCache.move', 'RemotePath.update_cache']),
)
ASSUMPTIONS = []
TOP = '/tmp/d/proj/'


def place(ctx, path, kind, meta, data):
    fs = ctx.fs
    if kind == 'symlink':
        fs.link(path, str(meta.as_symlink(local_name=path.rsplit('/', 1)[1])))
        return
    if kind == 'file':
        fs.put(path, data)
    else:
        fs.mkd(path)
    for key, v in meta.as_xattrs('t').items():
        fs.node(path).xattrs['user.' + key.decode()] = v


def state(ctx, path):
    """what is there: None or kind, content, record"""
    n = ctx.fs.node(path)
    if n is None:
        return None
    if n.kind == 'symlink':
        return 'symlink', PathMeta.from_symlink(ctx.kit.local(path.removeprefix(TOP)), match_name=not path.startswith(TOP + '.operations'))
    m = PathMeta.from_xattrs({a.removeprefix('user.').encode(): v for a, v in n.xattrs.items()}, 't')
    return (n.kind, n.data, m) if n.kind == 'file' else (n.kind, m)


def setup(ctx, n=1):
    data = ctx.bytes('data', 1)
    kind = ctx.pick('kind', ('file', 'symlink'))
    to, parent = ctx.pick('to', (('b', 'root'), ('s/a', 's'), ('s/t/b', 't')))
    k = ctx.kit = Kit(ctx, [Item('s', 's', 'root', True), Item('t', 't', 's', True), Item('y', 'zz', 'root')])
    meta = dict(size=ctx.int('size', 0, 2), updated='2001-02-03T04:05:06Z', mode='m')
    k.inv['x'] = Item('x', to.rsplit('/', 1)[-1], parent, data=data, **meta)
    src = PathMeta(id='x', **meta)
    place(ctx, TOP + 'a', kind, src, data)
    if '/' in to and ctx.flag('parent there'):
        place(ctx, TOP + 's', 'dir', PathMeta(id='s'), None)
        if to.count('/') == 2:
            place(ctx, TOP + 's/t', 'dir', PathMeta(id='t'), None)
    if to == 'b' or ctx.fs.node(TOP + to.rsplit('/', 1)[0]) is not None:
        target = ctx.pick('target', (None, 'file', 'symlink'))
    else:
        target = None
    other = None
    if target:
        same = n == 0 or ctx.flag('target same id')
        other = PathMeta(id='x' if same else 'y', size=ctx.int('target size', 0, 2), old_id='o')
        place(ctx, TOP + to, target, other, ctx.bytes('target data', 1))
    return k, kind, to, target, other, src, data


def move(ctx):
    k, kind, to, target, other, src, data = setup(ctx)
    c = k.local('a').cache
    r = c.remote
    before = state(ctx, TOP + 'a')
    was = state(ctx, TOP + to)
    tree = ctx.fs.tree('/tmp/d')
    err = None
    try:
        if ctx.flag('via remote'):
            r.update_cache()
        else:
            c.move(remote=r)
    except (exc.AugPathlibError, OSError) as e:
        err = e
    new = state(ctx, TOP + to)
    old = state(ctx, TOP + 'a')
    if target and other.id != src.id:
        ctx.check(err is not None, 'no error moving over %r' % (was,))
        ctx.check(old == before, 'source changed to %r' % (old,))
        ctx.check(new == was, 'target changed to %r' % (new,))
        ctx.label('refused')
    elif target is None:
        ctx.check(err is None, 'error %r' % err)
        ctx.check(old is None, 'source still there')
        ctx.check(new == before, 'moved %r, got %r' % (before, new))
        for p, id in (('s', 's'), ('s/t', 't')):
            if to.startswith(p + '/'):
                n = state(ctx, TOP + p)
                ctx.check(n is not None and n[0] == 'dir' and n[1].id == id, 'folder %s has %r' % (p, n))
        ctx.label('moved')
    else:
        if err is None:
            ctx.check(old is None, 'source still there')
            ctx.check(new[-1].id == src.id and new[-1].size == src.size and (kind == 'symlink' or new[1] == data), 'moved %r, got %r' % (before, new))
        else:
            ctx.check(old == before and new == was, 'error, and changed to %r %r' % (old, new))
        ctx.label('same id')
    return [repr(type(err)), old is None, new is None]


def faults(ctx):
    fail = 1 + ctx.choice('fail', ctx.bound('steps'))
    k, kind, to, target, other, src, data = setup(ctx, 0)
    c = k.local('a').cache
    r = c.remote
    before = state(ctx, TOP + 'a')
    seen = []

    def broken(op, paths, n):
        if op in ('rename', 'symlink', 'unlink', 'open', 'write', 'setxattr', 'mkdir', 'removexattr'):
            seen.append(op)
            if len(seen) == fail:
                return ctx.pick('errno', (errno.EIO, errno.EXDEV)) if op == 'rename' else errno.EIO
    ctx.fs.fail = broken
    err = None
    try:
        c.move(remote=r)
    except (exc.AugPathlibError, OSError) as e:
        err = e
    ctx.fs.fail = None
    places = [state(ctx, p) for p in (TOP + 'a', TOP + to) if ctx.fs.node(p) is not None]
    ok = any(s[-1] is not None and s[-1].id == src.id and s[0] == kind and (kind == 'symlink' or s[1] == data) and
             all(getattr(s[-1], f) == getattr(src, f) for f in ('size', 'updated', 'mode')) for s in places)
    ctx.check(ok, 'lost: %r %r %r, now %r' % (seen, err, before, places))
    ctx.label('failed' if len(seen) >= fail else 'moved')
    return [repr(type(err)), seen]


CASES = [
    Case('move', move, fs='model', expect=('refused', 'moved', 'same id'),
         split=[{'=kind': i, '=to': j} for i in range(2) for j in range(3)],
         bounds='a file or symlink with content of up to 1 byte; renamed, or moved one or two folders down that exist '
                'or not; at the target nothing, a file or a symlink with the same or another id and another record'),
    Case('faults', faults, dict(steps=8), dict(steps=14), fs='model', expect=('failed', 'moved'),
         split=[{'=kind': i, '=to': j} for i in range(2) for j in range(3)],
         bounds='the same, when it is free or has the same id, and one of the first n changing operations fails (a rename with EIO or EXDEV)'),
]
