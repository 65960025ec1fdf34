"""C13: rmdirtree."""
from augpathlib import LocalPath, AugmentedPath
from sx.case import Case
from props.c12 import grow, setup

META = dict(
    title='rmdirtree removes exactly the folders that hold no files',
    statement='rmdirtree removes every folder in the tree, the root included, below which there is nothing but '
              'folders, and nothing else: no file, no symlink and no folder holding one anywhere below it. It does '
              'not follow symlinks and refuses to start at one.',
    quantifier=dict(over=['inputs'], text='all trees up to the bound'),
    why_tests_cant='the tests try one small tree; which folders become empty depends on the shape of all their '
                   'descendants',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='bottom-up pruning', where='augpathlib/core.py:AugmentedPath.rmdirtree')],
                 observe_at=['AugmentedPath.rmdirtree']),
)
ASSUMPTIONS = ['removal runs against an in-memory model of the file system; only the process itself changes the tree']


def prune(ctx):
    fs = setup(ctx)
    root = '/tmp/w/r'
    if ctx.flag('linked'):
        fs.mkd('/tmp/out/e/e')
        fs.link(root, ctx.pick('to', ('../out/e', '../out/f', 'nowhere')))
        entries = []
    else:
        fs.mkd(root)
        entries = grow(ctx, fs, root, '', ctx.bound('depth'))
    before = fs.tree('/')
    linked = before[root][0] == 'symlink'
    p = (AugmentedPath if ctx.flag('plain') else LocalPath)(root)
    try:
        p.rmdirtree()
        ctx.check(not linked, 'started at a symlink')
    except NotADirectoryError:
        ctx.check(linked, 'refused a folder')
        ctx.check(fs.tree('/') == before, 'removed %r' % (set(before) - set(fs.tree('/')),))
        ctx.label('refused')
        return 'refused'
    solid = [e for e in entries if before[e][0] != 'dir']
    want = {}
    for q, v in before.items():
        inside = q == root or q.startswith(root + '/')
        if not inside or v[0] != 'dir' or any(s.startswith(q + '/') for s in solid):
            want[q] = v
    after = fs.tree('/')
    ctx.check(after == want, 'left %r, lost %r' % (sorted(set(after) - set(want)), sorted(set(want) - set(after))))
    ctx.label('kept' if root in after else 'gone')
    return len(after)


CASES = [
    Case('prune', prune, dict(width=2, depth=1), fs='model', expect=('refused', 'kept', 'gone'),
         split=[dict(width=2, depth=1), dict(width=1, depth=3), dict(width=2, depth=2, kinds=3)],
         split_thorough=[dict(width=2, depth=2), dict(width=1, depth=4), dict(width=3, depth=2, kinds=3)],
         bounds='trees with up to width entries per folder and depth levels, of eight kinds'),
]
