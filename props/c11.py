"""C11: what rmtree refuses."""
from augpathlib import LocalPath, AugmentedPath
from augpathlib import exceptions as exc
from sx.case import Case

META = dict(
    title='rmtree never removes protected folders unless told so explicitly',
    statement='Without DANGERZONE=True (exactly True) rmtree of any path, however it is spelled (relative, through '
              '".." or symlinks) and whatever its error options, leaves the root, everything directly below it, '
              'every home folder and the current working directory in place; a top level path, a home folder, the '
              'current directory and any relative path are refused with WillNotRemovePathError before anything is '
              'removed.',
    quantifier=dict(over=['inputs'], text='all spellings of a path up to the bound, all working directories, all '
                                          'option values'),
    why_tests_cant='a test cannot afford to try dangerous paths, and can only try a few spellings of them',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='refusal guard', where='augpathlib/core.py:AugmentedPath.rmtree')],
                 observe_at=['AugmentedPath.rmtree']),
)
ASSUMPTIONS = ['one fixed folder tree with homes, files and symlinks leading up, to protected folders and out of the '
               'tree, in an in-memory model of the file system', 'home folders are the entries of /home']

def build(fs):
    fs.put('/home/u/d/f', b'1')
    fs.put('/d/u/x/f', b'2')
    fs.put('/d/u/f', b'3')
    fs.put('/f', b'4')
    fs.mkd('/home/d')
    for p in ('/d', '/home/u/d', '/d/u', '/home/u'):
        fs.link(p + '/up', '..')
        fs.link(p + '/toh', '/home')
    fs.link('/toh', 'home')
    fs.link('/up', '/d/u')


def comp(ctx, i):
    c = ctx.str('c%d' % i, ctx.bound('n'), 1, NAMES)
    ctx.assume(c != '.')  # pathlib drops these
    return c


CWDS = ('/', '/d/u', '/d/u/x', '/home/u/d')
NAMES = ((32, 46), (48, 126))
DANGER = (False, None, 1, 'True')


def guard(ctx):
    fs = ctx.fs
    build(fs)
    comps = [comp(ctx, i) for i in range(ctx.bound('depth'))]
    absolute = ctx.flag('absolute') if ctx.bound('relative') else True
    cwd = ctx.pick('cwd', CWDS)
    fs.chdir(cwd)
    text = '/' if absolute else ''
    for i, c in enumerate(comps):
        text = text + ('/' if i else '') + c
    before, inos = fs.tree('/'), fs.inodes('/')
    protected = {'/', '/home', '/d', '/f', '/tmp', '/toh', '/up', '/home/u', '/home/d', cwd}
    kw = {}
    opt = ctx.choice('options', 3)
    if opt:
        kw['DANGERZONE'] = DANGER[ctx.choice('danger', len(DANGER))] if ctx.bound('options') else 1
        if opt == 2:
            kw['ignore_errors'] = True
    # where the path leads: the entry that would be removed
    try:
        par, name, node, rp = fs.walk_to(text or '.', False)
    except OSError:
        node = None
    if node is not None:
        real = [p for p, n in fs.walk_nodes('/') if n is node][0]
    p = AugmentedPath(text) if ctx.flag('plain') else LocalPath(text)
    try:
        p.rmtree(**kw)
        res = 'done'
    except exc.WillNotRemovePathError:
        res = 'refused'
    except OSError:
        res = 'error'
    after = fs.inodes('/')
    gone = sorted(p for i, p in inos.items() if after.get(i) != p)
    for g in gone:
        ctx.check(g not in protected, 'rmtree of %r from %s (%s) removed %s' % (text, cwd, res, g))
    direct = node is not None and (real in protected or not absolute)
    if direct or not absolute:
        ctx.check(res == 'refused', 'rmtree of %r from %s was not refused but %s' % (text, cwd, res))
        ctx.check(fs.tree('/') == before, 'rmtree of %r refused but removed %r' % (text, gone))
        ctx.label('refused')
    elif node is not None:
        ctx.check(all(g == real or g.startswith(real + '/') for g in gone), 'rmtree of %r removed %r' % (text, gone))
        if res == 'done' and node.kind != 'symlink' and not kw.get('ignore_errors'):
            ctx.check(real in gone, 'rmtree of %r left it' % text)
            ctx.label('removed')
    else:
        ctx.check(not gone, 'rmtree of missing %r removed %r' % (text, gone))
    return [res, gone]


CASES = [
    Case('guard', guard, dict(n=4, relative=1, options=0),
         split=[dict(depth=i) for i in (0, 1, 2)] + [{'depth': 3, '=cwd': i} for i in range(4)],
         split_thorough=([dict(depth=i) for i in (0, 1, 2, 3)] +
                         [{'depth': 4, '=cwd': i, '=plain': j} for i in range(4) for j in (0, 1)]),
         fs='model', expect=('refused', 'removed'),
         bounds='paths of depth components of up to n arbitrary printable characters (so .., links up, links to '
                '/home, folders, files and anything missing), absolute or relative, four working directories'),
    Case('options', guard, dict(n=4, relative=1, options=1, depth=1), dict(depth=2), fs='model', expect=('refused',),
         bounds='the same with every value of DANGERZONE that is not True, ignoring errors or not'),
]
