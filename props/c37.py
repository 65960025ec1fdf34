"""C37: the trash."""
import errno
from augpathlib.meta import PathMeta
from props.cachekit import Item, Kit
from props.c22 import place, state
from sx.case import Case

META = dict(
    title='Everything that was put in the trash is still there',
    statement='crumple moves a path with its record and content (or all that is in it) to the trash of its cache and returns where it is; it never '
              'replaces anything that is in the trash already, whether the ids are equal or only have the same '
              'safe form, or the ids are too long for a name. If it is an error then the path is where it was. refresh of a path '
              'that the remote does not have any more does this, and nothing else; of another it does not touch the trash, and asks for new content only if there is a file with content.',
    quantifier=dict(over=['histories', 'inputs', 'fault_sequences'], text='all short sequences of paths, kinds and ids'),
    why_tests_cant='there are no tests of the trash; collisions depend on pairs of ids',
    anchors=dict(files=['augpathlib/caches.py', 'augpathlib/utils.py'],
                 mechanism=[dict(name='trash', where='augpathlib/caches.py:_CachePath.crumple'),
                            dict(name='names', where='augpathlib/utils.py:fs_safe_id'),
                            dict(name='refresh', where='augpathlib/caches.py:_CachePath.refresh')],
                 observe_at=['_CachePath.crumple', '_CachePath.refresh']),
)
ASSUMPTIONS = ['trash and objects are on the file system of the folder']
TOP = '/tmp/d/proj/'
TRASH = '/tmp/d/proj/.operations/trash'
IDS = 'N:p:1', 'N:p-1', 'N/p', 'N p', 'N', 'x' * 300, 'y' * 300


def trash(ctx):
    fs = ctx.fs
    n = ctx.bound('paths')
    k = Kit(ctx)
    what = []
    for i in range(n):
        id = ctx.pick('id %d' % i, IDS if ctx.bound('wide') else IDS[:2] + IDS[-2:-1])
        kind = ctx.pick('kind %d' % i, ('file', 'symlink', 'dir'))
        p = TOP + ('n' if not ctx.bound('wide') or ctx.flag('name %d' % i) else 's/n')
        refresh = ctx.flag('by refresh %d' % i)
        here = refresh and ctx.flag('remote has it %d' % i)
        what.append((p, kind, id, b'content %d' % i, refresh, here))
    ctx.kit = k
    asked = []
    orig = k.R.refresh

    def refresh_(self, **kw):
        asked.append(kw.get('update_data_on_cache'))
        return orig(self, **kw)
    k.R.refresh = refresh_
    k.inv['root'] = Item('root', 'proj', None, True)
    fail = ctx.choice('fail', ctx.bound('fail') + 1)
    placed = {}
    there = []
    for i, (p, kind, id, data, refresh, here) in enumerate(what):
        meta = PathMeta(id=id, size=i)
        place(ctx, p, kind, meta, data)
        if kind == 'dir':
            fs.put(p + '/f', data)
        was = state(ctx, p)
        c = k.L(p).cache
        ops = []

        def broken(op, paths, n):
            if op in ('rename', 'mkdir'):
                ops.append(op)
                if len(ops) == fail:
                    return errno.EACCES
        if here:
            k.inv[id] = Item(id, 'n', 'root', kind == 'dir', **({} if kind == 'dir' else dict(size=i)))
            k.R.update_cache = lambda self, fetch=False: None
        else:
            k.inv.pop(id, None)
        asked.clear()
        fs.fail = broken if fail else None
        try:
            if refresh:
                c.refresh()
                at = None
            else:
                at = str(c.crumple())
        except OSError as e:
            fs.fail = None
            ctx.check(fail > 0 and e.errno == errno.EACCES, 'error %r' % e)
            ctx.check(state(ctx, p) == was, 'failed but changed')
            ctx.label('failed')
            return 'failed'
        finally:
            fs.fail = None
        now = sorted(TRASH + '/' + x for x in fs.node(TRASH).children)
        if here:
            ctx.check(now == there and state(ctx, p) == was, 'refresh of what the remote has')
            ctx.check(asked == [kind == 'file'], 'asked for content %r of a %s' % (asked, kind))
            ctx.label('kept')
            fs.node(p.rpartition('/')[0]).children.pop('n')
            continue
        ctx.check(fs.node(p) is None, 'still there')
        new = [x for x in now if x not in there]
        ctx.check(len(new) == 1 and len(now) == len(there) + 1, 'trash has %s after %s' % (now, there))
        ctx.check(at is None or at == new[0], 'returned %s but %s' % (at, new))
        ctx.check(state(ctx, new[0])[1:] == was[1:] and state(ctx, new[0])[0] == was[0], 'not what it was: %r %r' % (state(ctx, new[0]), was))
        if kind == 'dir':
            ctx.check(fs.tree(new[0]) == {new[0]: ('dir', None), new[0] + '/f': ('file', data)}, 'content of the folder')
        placed[new[0]] = state(ctx, new[0])
        there = now
        for q, s in placed.items():
            ctx.check(state(ctx, q) == s, 'replaced %s' % q)
        ctx.label(kind)
    return len(there)


CASES = [
    Case('trash', trash, dict(paths=2, fail=0, wide=1), dict(paths=3, fail=0, wide=0), fs='model', expect=('file', 'symlink', 'dir', 'kept'),
         split=[{'=kind 0': i, '=kind 1': k} for i in range(3) for k in range(3)], bounds='2 paths of 7 ids in two folders (thorough: 3 of 3 ids in one)'),
    Case('faults', trash, dict(paths=1, fail=2, wide=1), dict(paths=2, fail=3, wide=0), fs='model', expect=('failed', 'file'), split=[{'=kind 0': i} for i in range(3)], bounds='1 (thorough: 2) paths, one error'),
]
