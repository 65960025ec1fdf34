"""C14: swapping two paths."""
import errno
from augpathlib import LocalPath, AugmentedPath
from sx.case import Case

META = dict(
    title='Swapping two paths exchanges them or changes nothing',
    statement='A swap that returns has exchanged exactly the two entries, whether they are files or folders, named '
              'absolutely or relative to the working directory. A swap that raises has changed nothing: this holds '
              'for the atomic swap and for swap_carefree, also if the atomic operation is not available and any one '
              'of the renames it falls back to fails, and no temporary entries remain. The exchange through '
              'swap is one single atomic operation.',
    quantifier=dict(over=['inputs', 'fault_sequences'], text='all kinds of entries, spellings of paths, and any failing step'),
    why_tests_cant='the tests swap two absolute paths on a kernel where every step succeeds',
    anchors=dict(files=['augpathlib/core.py', 'augpathlib/swap.py'],
                 mechanism=[dict(name='renameat2 call', where='augpathlib/swap.py:swap_linux'),
                            dict(name='fallback and rollback', where='augpathlib/core.py:AugmentedPath.swap_carefree')],
                 observe_at=['AugmentedPath.swap', 'AugmentedPath.swap_carefree']),
)
ASSUMPTIONS = ['renameat2, rename, mkdir and rmdir are those of an in-memory model of the file system',
               'at most one rename fails, and what failed once can be undone; x86-64 system call number']

KINDS = ('file', 'dir', 'link', 'missing', 'dangling')


def make(ctx, fs, p, tag):
    kind = ctx.pick(tag, KINDS)
    if kind == 'file':
        fs.put(p, ctx.bytes(tag + 'data', ctx.bound('n')))
    elif kind == 'dir':
        fs.put(p + '/sub/f', b'd' + tag.encode())
    elif kind == 'link':
        fs.link(p, '/tmp/o/f')
    elif kind == 'dangling':
        fs.link(p, 'nowhere')
    else:
        fs.mkd(p.rsplit('/', 1)[0])
    return kind


def exchanged(tree, a, b):
    out = {}
    for p, v in tree.items():
        for x, y in ((a, b), (b, a)):
            if p == x or p.startswith(x + '/'):
                p = y + p[len(x):]
                break
        out[p] = v
    return out


PLACES = (('/tmp/x/a', '/tmp/x/b'), ('/tmp/x/a', '/tmp/y/b'), ('/tmp/x/a', '/tmp/x/a/sub/f'))


def setup(ctx):
    fs = ctx.fs
    fs.put('/tmp/o/f', b'other')
    a, b = ctx.pick('places', PLACES)
    if ctx.flag('turn'):
        a, b = b, a
    ka = make(ctx, fs, a, 'self')
    kb = make(ctx, fs, b, 'target') if '/sub/' not in a + b else None
    fs.chdir('/tmp/x')
    rel = lambda p: p.replace('/tmp/x/', '') if p.startswith('/tmp/x/') else p.replace('/tmp/', '../')
    ra, rb = ctx.flag('relative self'), ctx.flag('relative target')
    cls = AugmentedPath if ctx.flag('plain') else LocalPath
    return fs, a, b, ka, kb, cls(rel(a) if ra else a), cls(rel(b) if rb else b)


def both(fs, a, b):
    return fs.node(a) is not None and fs.node(b) is not None


def atomic(ctx):
    fs, a, b, ka, kb, p, q = setup(ctx)
    before, inos = fs.tree('/'), fs.inodes('/')
    other_device = ctx.flag('device') and kb is not None and both(fs, a, b)
    if other_device:
        for _, n in fs.walk_nodes(b):
            n.dev = 2
    fail = ctx.pick('errno', (0, errno.ENOSYS, errno.EINVAL, errno.EACCES))
    if fail:
        fs.fail = lambda op, paths, n: fail if op == 'exchange' else None
    fs.log.clear()
    try:
        p.swap(q)
        err = None
    except (OSError, ValueError) as e:
        err = e
    after = fs.tree('/')
    if err is None:
        ctx.check(after == exchanged(before, a, b) and fs.inodes('/') == {i: exchanged({x: 0}, a, b).popitem()[0]
                                                                         for i, x in inos.items()},
                  'swap of %s and %s turned %r into %r' % (a, b, before, after))
        ctx.check([l[0] for l in fs.log] == ['exchange'], 'not atomic: %r' % (fs.log,))
        ctx.label('swapped')
    else:
        ctx.check(after == before and fs.inodes('/') == inos, 'failed swap (%r) turned %r into %r' % (err, before, after))
        fine = kb is not None and not fail and not other_device and ka in KINDS[:3] and kb in KINDS[:3]
        ctx.check(not fine, 'swap of %s and %s raised %r' % (ka, kb, err))
        if fail and kb is not None and ka in KINDS[:3] and kb in KINDS[:3] and not other_device:
            ctx.check(err.errno == fail, 'failed with %r not %d' % (err, fail))
        ctx.label('refused')
    return [ka, kb, type(err).__name__]


def carefree(ctx):
    fs, a, b, ka, kb, p, q = setup(ctx)
    if ctx.flag('other device'):  # than the default of temporary files
        for x in ('/tmp/x', '/tmp/y'):
            for _, n in fs.walk_nodes(x) if fs.node(x) is not None else ():
                n.dev = 2
    before, inos = fs.tree('/'), fs.inodes('/')
    noatomic = ctx.pick('atomic', (0, errno.ENOSYS, errno.EINVAL))
    # where one step fails by itself no other one does
    bad = ctx.int('fail', 0, 4) if kb is not None and both(fs, a, b) else 0
    seen = [0]

    def fault(op, paths, n):
        if op == 'exchange':
            return noatomic
        if op == 'rename':
            seen[0] += 1
            if bad == seen[0]:
                return errno.EIO
    fs.fail = fault
    try:
        p.swap_carefree(q)
        err = None
    except OSError as e:
        err = e
    after = fs.tree('/')
    if err is None:
        ctx.check(after == exchanged(before, a, b) and fs.inodes('/') == {i: exchanged({x: 0}, a, b).popitem()[0]
                                                                         for i, x in inos.items()},
                  'swap of %s and %s turned %r into %r' % (a, b, before, after))
        ctx.label('swapped')
    else:
        ctx.check(after == before and fs.inodes('/') == inos,
                  'failed swap (%r) turned %r into %r' % (err, sorted(before), sorted(after)))
        ctx.check(bad <= seen[0] and bad > 0 or kb is None or 'missing' in (ka, kb), 'swap raised %r' % (err,))
        ctx.label('refused')
    return [ka, kb, type(err).__name__]


CASES = [
    Case('atomic', atomic, dict(n=0), dict(n=1), fs='model', split=[{'=places': i} for i in range(3)], expect=('swapped', 'refused'),
         bounds='files of up to n bytes, folders, symlinks, missing entries, in one folder, two, or one inside the '
                'other; absolute and relative; another device; three failures'),
    Case('carefree', carefree, dict(n=0), dict(n=1), fs='model', split=[{'=places': i} for i in range(3)], expect=('swapped', 'refused'),
         bounds='the same without atomic swap and with any one rename failing'),
]
