"""C27: the relative path of a remote."""
from props.cachekit import Item, Kit
from props.c22 import place
from augpathlib.meta import PathMeta
from sx.case import Case

META = dict(
    title='The path of a remote is made of the names on the way from the anchor',
    statement='parts and as_path of a remote are the names of the folders from the anchor (exclusive) down to the '
              'remote, whatever the names are, whether parts of the tree are cached locally or not, and whether the '
              'remote was reached through its cache or by its id. The place that the anchor cache gives a remote is '
              'that path below the local anchor. The anchor itself has no parts.',
    quantifier=dict(over=['inputs', 'configurations'], text='all chains of folders, names, and cached prefixes'),
    why_tests_cant='the tests use distinct names; shortcuts through cached parents depend on which names coincide and '
                   'what is cached',
    anchors=dict(files=['augpathlib/remotes.py', 'augpathlib/caches.py'],
                 mechanism=[dict(name='parts', where='augpathlib/remotes.py:RemotePath._parts_relative_to'),
                            dict(name='place', where='augpathlib/caches.py:_CachePath.__truediv__')],
                 observe_at=['RemotePath.parts', 'RemotePath.as_path', '_CachePath.__truediv__']),
)
ASSUMPTIONS = []
TOP = '/tmp/d/proj/'
NAMES = 'proj', 's', 'a.b'


def parts(ctx):
    depth = 1 + ctx.choice('depth', ctx.bound('depth'))
    names = [ctx.pick('name %d' % i, NAMES) for i in range(depth)]
    file = ctx.flag('file')
    items = [Item('i%d' % i, n, 'i%d' % (i - 1) if i else 'root', i < depth - 1 or not file)
             for i, n in enumerate(names)]
    k = Kit(ctx, items)
    cached = ctx.choice('cached', depth + 1)
    for i in range(cached):
        place(ctx, TOP + '/'.join(names[:i + 1]), 'dir' if items[i].dir else ctx.pick('kind', ('file', 'symlink')),
              PathMeta(id='i%d' % i, size=3), b'abc')
    at = ctx.choice('at', depth)
    through = ctx.pick('through', ('id', 'cache'))
    if through == 'cache':
        if at >= cached:
            return
        r = k.local('/'.join(names[:at + 1])).cache.remote
    else:
        r = k.remote('i%d' % at)
    want = tuple(names[:at + 1])
    ctx.check(tuple(r.parts) == want, '%r instead of %r' % (r.parts, want))
    ctx.check(r.as_path().parts == want, 'as_path %r' % (r.as_path(),))
    place_ = k.anchor.__truediv__(k.remote('i%d' % at), update_meta=False)
    ctx.check(str(place_) == TOP + '/'.join(want), 'place %s' % place_)
    ctx.check(tuple(k.remote('root').parts) == (), 'anchor')
    ctx.label(through)
    return list(want)


def moved(ctx):
    """the remote has moved a file since it was cached"""
    names = [ctx.pick('name ' + i, ('d', 'e')) for i in 'stuv']
    items = [Item('s', names[0], 'root', True), Item('t', names[1] + '2', 'root', True),
             Item('u', names[2], 's', True), Item('v', names[3], 't', True)]
    paths = dict(root='', s=names[0], t=names[1] + '2')
    paths['u'], paths['v'] = paths['s'] + '/' + names[2], paths['t'] + '/' + names[3]
    now, then = ctx.pick('now', list(paths)), ctx.pick('then', list(paths))
    k = Kit(ctx, items + [Item('x', ctx.pick('name now', ('d.x', 'a')), now)])
    for i in 'stuv':
        if ctx.flag('cached ' + i) or then in (i, dict(s='u', t='v').get(i)):
            if ctx.fs.node(TOP + paths[i].rpartition('/')[0]) is not None:
                place(ctx, TOP + paths[i], 'dir', PathMeta(id=i), None)
    at = (paths[then] + '/a').lstrip('/')
    place(ctx, TOP + at, ctx.pick('kind', ('file', 'symlink')), PathMeta(id='x', size=3), b'abc')
    r = k.local(at).cache.remote
    want = (paths[now] + '/' + k.inv['x'].name).lstrip('/')
    ctx.check(str(r.as_path()) == want, '%s instead of %s' % (r.as_path(), want))
    ctx.check('/'.join(r.parts) == want, 'parts %r' % (r.parts,))
    ctx.label('moved' if now != then else 'renamed' if at != want else 'same')
    return want


CASES = [
    Case('parts', parts, dict(depth=3), dict(depth=4), fs='model', expect=('id', 'cache'),
         split=[{'=depth': i, '=name 0': j} for i in range(3) for j in range(3)],
         bounds='chains of up to 3 (thorough: 4) with names that may equal each other and that of the anchor, '
                'with every prefix cached'),
    Case('moved', moved, fs='model', expect=('moved', 'renamed', 'same'), split=[{'=name s': i, '=name u': j}
                                                                             for i in range(2) for j in range(2)],
         bounds='a file cached in any of five folders that the remote has since moved to any of them, possibly with '
                'another name; the folders, which may share names, are cached or not'),
]
