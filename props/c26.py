"""C26: sparse folders."""
from augpathlib import LocalPath, PrimaryCache, SymlinkCache, EatCache
from augpathlib.caches import CachePath
from augpathlib.meta import PathMeta
from props.cachekit import Item, Kit
from props.c22 import place
from sx.case import Case

META = dict(
    title='A path is sparse exactly when it or a folder above it is marked',
    statement='After any sequence of marking and unmarking, is_sparse is true for a path exactly when the path '
              'itself or some folder above it carries the mark, whether it is asked of the local path or of its cache '
              'and whether the path is a folder, a file or a symlink for a file that was not fetched. Marking and '
              'unmarking change neither content, nor metadata, nor the mark of other paths.',
    quantifier=dict(over=['histories', 'inputs'], text='all sequences of operations on a chain of folders'),
    why_tests_cant='nothing tests is_sparse, which depends on every folder above',
    anchors=dict(files=['augpathlib/core.py', 'augpathlib/caches.py'],
                 mechanism=[dict(name='inheritance', where='augpathlib/core.py:EatPath._sparse_root'),
                            dict(name='default', where='augpathlib/caches.py:_CachePath._sparse_root')],
                 observe_at=['EatPath.is_sparse', '_CachePath.is_sparse']),
)
ASSUMPTIONS = []
TOP = '/tmp/d/proj/'
DIRS = ('', 's', 's/t')


def history(ctx):
    kind = ctx.pick('leaf', ('file', 'symlink', 'dir'))
    k = Kit(ctx, [Item('s', 's', 'root', True), Item('t', 't', 's', True), Item('x', 'a', 't', kind == 'dir')])
    k.inv['u'] = Item('u', 'u', 's', True)
    place(ctx, TOP + 's', 'dir', PathMeta(id='s'), None)
    place(ctx, TOP + 's/t', 'dir', PathMeta(id='t'), None)
    place(ctx, TOP + 's/u', 'dir', PathMeta(id='u'), None)
    place(ctx, TOP + 's/t/a', kind, PathMeta(id='x', size=2), b'ab')
    every = DIRS + ('s/u', 's/t/a')
    cls = ctx.pick('mark through', ('local', 'cache'))
    was = ctx.fs.tree('/tmp/d')
    marked = set()
    for i in range(ctx.bound('steps')):
        p = ctx.pick('path %d' % i, DIRS if kind == 'symlink' else DIRS + ('s/t/a',))
        x = k.local(p)
        if cls == 'cache':
            x = x.cache
        if p in marked:
            x._clear_sparse()
            marked.remove(p)
        else:
            x._mark_sparse()
            marked.add(p)
    for p in every:
        want = any(p == m or m == '' or p.startswith(m + '/') for m in marked)
        x = k.local(p)
        ctx.check(x.is_sparse() == want, 'local %s %r' % (p, marked))
        ctx.check(x.cache.is_sparse() == want, 'cache %s %r' % (p, marked))
        ctx.check(x.cache.id == dict(zip(every, ('root', 's', 't', 'u', 'x')))[p], 'metadata')
        ctx.label('sparse' if want else 'not')
    ctx.check(ctx.fs.tree('/tmp/d') == was, 'tree')
    return sorted(marked)


def default(ctx):
    """the implementation for caches without extended attributes"""
    k = Kit(ctx, [Item('s', 's', 'root', True), Item('t', 't', 's', True)])
    C = k.C
    for n in ('_sparse_root', 'is_sparse', '_mark_sparse', '_clear_sparse', '_sparse_marker'):
        setattr(C, n, CachePath.__dict__.get(n) or getattr(CachePath, n))
    place(ctx, TOP + 's', 'dir', PathMeta(id='s'), None)
    place(ctx, TOP + 's/t', 'dir', PathMeta(id='t'), None)
    place(ctx, TOP + 's/a', 'symlink', PathMeta(id='x', size=2), b'ab')
    k.inv['x'] = Item('x', 'a', 's')
    was = ctx.fs.tree('/tmp/d')
    marked = set()
    for i in range(ctx.bound('steps')):
        p = ctx.pick('path %d' % i, DIRS)
        x = k.local(p).cache
        if p in marked:
            x._clear_sparse()
            marked.remove(p)
        else:
            x._mark_sparse()
            marked.add(p)
    for p in DIRS + ('s/a',):
        want = any(p == m or m == '' or p.startswith(m + '/') for m in marked)
        ctx.check(k.local(p).cache.is_sparse() == want, 'cache %s %r' % (p, marked))
        ctx.label('sparse' if want else 'not')
    return sorted(marked)


CASES = [
    Case('history', history, dict(steps=2), dict(steps=4), fs='model', expect=('sparse', 'not'),
         bounds='two (thorough: four) toggles of the mark on three nested folders and a leaf in the innermost'),
    Case('default', default, dict(steps=2), dict(steps=4), fs='model', expect=('sparse', 'not'),
         bounds='two (thorough: four) toggles of the mark on three nested folders, the default of CachePath'),
]
