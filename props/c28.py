"""C28: two local paths for one remote id."""
from augpathlib.meta import PathMeta
from props.cachekit import Item, Kit
from props.c22 import place
from sx.case import Case

META = dict(
    title='Deduplication picks the newer of two paths with one id and loses nothing',
    statement='Of two cached paths with the same id dedupe returns the one whose record was updated later, a record '
              'with a time over one without; if that does not decide then the one that has local data over one that '
              'does not, then the one whose local data changed later, then the one that knows the size. If any of '
              'these decides then the result is the same in whichever order the paths are given. It works for all '
              'records, with and without timestamps and sizes, changes nothing on disk, and paths with different '
              'ids are refused with an error.',
    quantifier=dict(over=['inputs'], text='all pairs of records and local states'),
    why_tests_cant='dedupe has no test; it decides on four pairs of optional values',
    anchors=dict(files=['augpathlib/caches.py'],
                 mechanism=[dict(name='dedupe', where='augpathlib/caches.py:_CachePath.dedupe')],
                 observe_at=['_CachePath.dedupe']),
)
ASSUMPTIONS = ['timestamps differ in the hour or not at all']
TOP = '/tmp/d/proj/'


def one(ctx, name):
    kw = dict(id='x')
    if ctx.flag(name + ' has updated'):
        kw['updated'] = ctx.datetime(name + ' updated', tz='utc', only=('hour',))
    if ctx.flag(name + ' has size'):
        kw['size'] = ctx.int(name + ' size', 0, 9)
    kind = ctx.pick(name + ' kind', ('file', 'symlink'))
    if ctx.bound('other') and name == 'b' and ctx.flag('other id'):
        kw['id'] = 'y'
    place(ctx, TOP + name, kind, PathMeta(**kw), b'c')
    time = None
    if kind == 'file':
        time = ctx.fs.node(TOP + name).ctime = ctx.pick(name + ' ctime', (1000, 2000))
    return kw, time


def compare(x, y):
    """1 if x is the later, -1 if y is, 0 if it is undecided; None is the least"""
    if x is None or y is None:
        return (y is None) - (x is None)
    return 1 if x > y else -1 if y > x else 0


def dedupe(ctx):
    k = Kit(ctx, [Item('x', 'a', 'root'), Item('y', 'b', 'root')])
    a, at = one(ctx, 'a')
    b, bt = one(ctx, 'b')
    was = ctx.fs.tree('/tmp/d')
    ca, cb = k.local('a').cache, k.local('b').cache
    if a['id'] != b['id']:
        try:
            ca.dedupe(cb)
            ctx.check(False, 'not refused')
        except ValueError:
            ctx.label('refused')
        return
    got = ca.dedupe(cb).name
    back = cb.dedupe(ca).name
    want = compare(a.get('updated'), b.get('updated')) or compare(at, bt)
    if want == 0 and at is not None:
        want = ('size' in a) - ('size' in b)
    if want:
        name = 'a' if want > 0 else 'b'
        ctx.check(got == name, 'a, b gives %s' % got)
        ctx.check(back == name, 'b, a gives %s' % back)
        ctx.label('decided')
    else:
        ctx.check(got in ('a', 'b') and back in ('a', 'b'), 'result')
        ctx.label('same')
    ctx.check(ctx.fs.tree('/tmp/d') == was, 'something changed')
    return [got, back]


CASES = [
    Case('dedupe', dedupe, dict(other=1), fs='model', expect=('refused', 'decided', 'same'),
         split=[{'=a kind': i, '=b kind': j} for i in range(2) for j in range(2)],
         bounds='optional timestamps of any hour of a day, optional sizes, files changed at one of two times or symlinks'),
]
