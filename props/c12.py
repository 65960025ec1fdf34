"""C12: what rmtree and rmdirtree remove."""
import errno
from augpathlib import LocalPath, AugmentedPath
from sx.case import Case

META = dict(
    title='rmtree removes exactly the tree it is given and follows no symlinks',
    statement='rmtree of a folder or file removes it with everything below it and nothing else: nothing outside the '
              'tree is removed or altered, in particular not through symlinks, and a symlink to a folder is refused. '
              'If an entry cannot be removed or listed, the error is raised, or handed with the failing path to '
              'onerror exactly for the entries that failed, or ignored as asked, and then everything removable is '
              'removed.',
    quantifier=dict(over=['inputs', 'fault_sequences'], text='all trees up to the bound, any one entry failing'),
    why_tests_cant='the tests remove a tree of plain folders without any failure; damage through links or after '
                   'failures would only show in trees nobody puts in a test',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='recursive removal', where='augpathlib/core.py:AugmentedPath.rmtree')],
                 observe_at=['AugmentedPath.rmtree']),
)
ASSUMPTIONS = ['removal runs against an in-memory model of the file system; only the process itself changes the tree']

KINDS = ('none', 'file', 'dir', 'link dir', 'link file', 'dangling', 'loop', 'link up')


def grow(ctx, fs, p, tag, depth):
    """a tree below folder p; returns the paths, children before parents"""
    out = []
    for name in ('p', 'q')[:ctx.bound('width')]:
        t = tag + name
        kind = ctx.pick('k' + t, KINDS[:ctx.params.get('kinds')])
        c = p + '/' + name
        if kind == 'none':
            continue
        if kind == 'file':
            fs.put(c, b'x')
        elif kind == 'dir':
            fs.mkd(c)
            if depth > 1:
                out += grow(ctx, fs, c, t, depth - 1)
        else:
            fs.link(c, {'link dir': '/tmp/out/d', 'link file': '../../out/f', 'dangling': 'nowhere', 'loop': name,
                        'link up': '..'}[kind])
        out.append(c)
    return out


def setup(ctx):
    fs = ctx.fs
    fs.put('/tmp/out/d/f', b'1')
    fs.put('/tmp/out/f', b'2')
    fs.mkd('/tmp/w/next')
    return fs


def remove(ctx):
    fs = setup(ctx)
    kind = ctx.pick('root', ('dir', 'file', 'link dir', 'link file', 'dangling', 'missing'))
    root = '/tmp/w/r'
    entries = []
    if kind == 'dir':
        fs.mkd(root)
        entries = grow(ctx, fs, root, '', ctx.bound('depth'))
    elif kind == 'file':
        fs.put(root, b'x')
    elif kind != 'missing':
        fs.link(root, {'link dir': '../out/d', 'link file': '../out/f', 'dangling': 'nowhere'}[kind])
    before = fs.tree('/')
    others = {p: v for p, v in before.items() if p != root and not p.startswith(root + '/')}
    kw = {}
    danger = ctx.flag('danger')
    if danger:
        kw['DANGERZONE'] = True
    p = (AugmentedPath if ctx.flag('plain') else LocalPath)(root)
    try:
        p.rmtree(**kw)
        err = None
    except OSError as e:
        err = e
    after = fs.tree('/')
    if kind == 'link dir' or kind == 'missing':
        ctx.check(err is not None, 'rmtree of %s succeeded' % kind)
        ctx.check(after == before, 'rmtree of %s removed %r' % (kind, sorted(set(before) - set(after))))
        ctx.label('refused')
    else:
        ctx.check(err is None, 'rmtree failed: %r' % (err,))
        ctx.check(after == others, 'left %r, lost %r' % (sorted(set(after) - set(others)),
                                                        sorted(set(others) - set(after))))
        ctx.label('removed')
    return [kind, len(entries)]


def faults(ctx):
    fs = setup(ctx)
    root = '/tmp/w/r'
    fs.mkd(root)
    entries = grow(ctx, fs, root, '', ctx.bound('depth')) + [root]
    bad = entries[ctx.choice('bad', len(entries))]
    listing = ctx.flag('listing') if fs.kind(bad) == 'dir' else False
    no = ctx.pick('errno', (errno.EACCES, errno.EPERM, errno.EIO, errno.EROFS, errno.ENOENT))
    if listing:
        fs.fail_read = lambda op, *paths: no if op == 'scandir' and paths[0] == bad else None
    else:
        fs.fail = lambda op, paths, n: no if op in ('unlink', 'rmdir') and paths[0] == bad else None
    before = fs.tree('/')
    others = {p: v for p, v in before.items() if p != root and not p.startswith(root + '/')}
    mode = ctx.pick('mode', ('raise', 'onerror', 'ignore'))
    got = []
    p = LocalPath(root)
    try:
        if mode == 'raise':
            p.rmtree()
        elif mode == 'ignore':
            p.rmtree(ignore_errors=True)
        else:
            p.rmtree(onerror=lambda f, path, info: got.append((f, str(path), info)))
        err = None
    except OSError as e:
        err = e
    fs.fail = fs.fail_read = None
    after = fs.tree('/')
    ctx.check({k: v for k, v in after.items() if k in others} == others, 'touched things outside')
    up = [root] + [bad[:i] for i in range(len(root) + 1, len(bad)) if bad[i] == '/']
    stuck = set(up) | {bad} | ({e for e in entries if e.startswith(bad + '/')} if listing else set())
    left = set(after) - set(others)
    ctx.check({bad} <= left, 'failing entry disappeared')
    if mode == 'raise':
        ctx.check(err is not None and err.errno == no, 'error %r instead of errno %r' % (err, no))
        ctx.label('raised')
    else:
        ctx.check(err is None, '%s but raised %r' % (mode, err))
        ctx.check(left == stuck, '%s: left %r, expected %r' % (mode, sorted(left), sorted(stuck)))
        ctx.label(mode)
    if mode == 'onerror':
        ctx.check({g[1] for g in got} == {bad} | set(up), 'onerror got %r, failing entry %s' % ([g[1] for g in got], bad))
        first = got[0]
        ctx.check(first[1] == bad and first[2][1].errno == no, 'onerror got %r first' % (first[1:],))
        for f, path, info in got:
            want = 'rmdir' if before[path][0] == 'dir' else 'unlink'
            ctx.check(f.__name__ == want and str(f.__self__) == path, 'onerror for %s got %s' % (path, f.__name__))
    return [mode, len(entries)]


CASES = [
    Case('remove', remove, dict(width=2, depth=1), dict(depth=2, width=1), fs='model', expect=('removed', 'refused'),
         split_thorough=[dict(width=2, depth=1), dict(width=1, depth=3), dict(width=2, depth=2)],
         bounds='trees with up to width entries per folder and depth levels, of eight kinds (links out, up, '
                'dangling, looping)'),
    Case('faults', faults, dict(width=2, depth=1), fs='model', expect=('raised', 'onerror', 'ignore'),
         split=[dict(width=2, depth=1), dict(width=1, depth=2)],
         split_thorough=[dict(width=2, depth=1), dict(width=1, depth=3)],
         bounds='the same; one entry that cannot be removed or listed, with five error codes'),
]
