"""C34: what is below a path and what belongs to the cache."""
import hashlib
from augpathlib import exceptions as exc
from augpathlib.meta import PathMeta
from augpathlib.utils import default_cypher
from props.cachekit import Item, Kit
from props.c22 import place
from sx.case import Case

META = dict(
    title='Listings have everything below a path once and nothing that is ignored',
    statement='children of a local path are the entries of the folder and rchildren everything below it, each exactly once and '
              'without going through symlinks, except that in the folder of the anchor the names to ignore (.operations, .sparse '
              'and .git, exactly) are left out with what is in them. children and rchildren of a cache are those of its remote, at the '
              'place where they belong and with their records. find_cache_root is the topmost folder at or above a path that has '
              'a record. mkdir_remote makes the missing folders, each with the record of its new remote, and nothing else. '
              'validate_file finds every file that is not what its record says and changes nothing else.',
    quantifier=dict(over=['inputs', 'configurations'], text='all small trees, names and records'),
    why_tests_cant='the tests list one folder without a cache; what is listed depends on names, links and places',
    anchors=dict(files=['augpathlib/core.py', 'augpathlib/caches.py'],
                 mechanism=[dict(name='children', where='augpathlib/core.py:LocalPath.children'),
                            dict(name='rchildren', where='augpathlib/core.py:LocalPath.rchildren'),
                            dict(name='cache children', where='augpathlib/caches.py:PrimaryCache.rchildren'),
                            dict(name='root', where='augpathlib/core.py:LocalPath.find_cache_root'),
                            dict(name='mkdir', where='augpathlib/core.py:LocalPath.mkdir_remote'),
                            dict(name='validation', where='augpathlib/caches.py:_CachePath.validate_file')],
                 observe_at=['LocalPath.children', 'LocalPath.rchildren', 'PrimaryCache.children', 'PrimaryCache.rchildren',
                             'LocalPath.find_cache_root', 'LocalPath.mkdir_remote', '_CachePath.validate_file']),
)
ASSUMPTIONS = ['nothing else changes the tree while it is listed']
TOP = '/tmp/d/proj'
IGNORED = '.operations', '.sparse', '.git'
NAMES = 'a', '.git', '.git.d', '.operations', 'a.sparse'


def listing(ctx):
    fs = ctx.fs
    k = Kit(ctx)
    names = [n for n in NAMES[:ctx.bound('names')] if ctx.flag('has ' + n)] if ctx.bound('names') else ['a', '.git', '.git.d']
    kinds = {}
    for n in names:
        if n == '.operations':
            continue   # is there already
        kinds[n] = kind = ctx.pick('kind ' + n, ('file', 'dir', 'full', 'to dir', 'broken') if ctx.bound('names') else ('dir', 'to dir', 'to top', 'full'))
        p = TOP + '/' + n
        if kind == 'file':
            fs.put(p, b'x')
        elif kind in ('dir', 'full'):
            fs.mkd(p)
            if kind == 'full':
                fs.mkd(p + '/.git')
                fs.put(p + '/.git/f', b'')
                fs.link(p + '/l', '.git')
                place(ctx, p + '/s', 'symlink', PathMeta(id='s'), None)
        else:
            fs.link(p, {'to dir': '/tmp/d/other', 'to top': '.', 'broken': 'nowhere'}[kind])
    fs.mkd('/tmp/d/other')
    fs.put('/tmp/d/other/o', b'')
    at = ctx.pick('at', ('', '/a', '/..', '/none'))
    recorded = ctx.flag('folder has a record') if kinds.get('a') in ('dir', 'full') else False
    if recorded:
        for key, v in PathMeta(id='a').as_xattrs('t').items():
            fs.node(TOP + '/a').xattrs['user.' + key.decode()] = v
    p = k.L(TOP + at) if at != '/..' else k.L('/tmp/d')

    def below(path, top, deep):
        out = []
        node = fs.node(path)
        if node is None or node.kind != 'dir':
            return out
        for n, child in node.children.items():
            if top and n in IGNORED:
                continue
            out.append(path + '/' + n)
            if deep and child.kind == 'dir':
                out.extend(below(path + '/' + n, False, deep))
        return out
    if at == '/a' and kinds.get('a') in ('to dir', 'to top'):
        ctx.label('through a symlink')
        return None   # listing a symlink itself
    base = str(p)
    got = sorted(str(c) for c in p.children)
    want = sorted(below(base, at == '', False))
    ctx.check(got == want, 'children %s instead of %s' % (got, want))
    rgot = sorted(str(c) for c in p.rchildren)
    rwant = sorted(below(base, at == '', True))
    ctx.check(rgot == rwant, 'rchildren %s instead of %s' % (rgot, rwant))
    ctx.label('anchor' if not at else 'other')
    return [len(got), len(rgot)]


def cached(ctx):
    """children of the cache are those of the remote"""
    items, dirs, paths = [], ['root'], dict(root=TOP)
    for i in range(ctx.bound('items')):
        parent = ctx.pick('parent %d' % i, dirs)
        d = ctx.flag('folder %d' % i)
        it = Item('i%d' % i, ctx.pick('name %d' % i, ('n', 'm')) + str(i), parent, d, b'',
                  **({} if d else dict(size=ctx.pick('size %d' % i, (0, 7)))))
        items.append(it)
        paths[it.id] = paths[parent] + '/' + it.name
        if d:
            dirs.append(it.id)
    k = Kit(ctx, items)
    for it in items:
        if it.dir:
            place(ctx, paths[it.id], 'dir', PathMeta(id=it.id), None)
        elif ctx.flag('there ' + it.id):
            place(ctx, paths[it.id], ctx.pick('kind ' + it.id, ('file', 'symlink')), PathMeta(id=it.id, **it.meta), b'x')
    at = ctx.pick('at', dirs)
    c = k.L(paths[at]).cache
    mine = [i for i in items if i.parent == at]
    got = list(c.children)
    ctx.check(sorted(map(str, got)) == sorted(paths[i.id] for i in mine), 'children %s' % got)

    def under(i):
        while i is not None and i.id != at:
            i = k.inv.get(i.parent)
        return i is not None
    all_ = [i for i in items if under(i) and i.id != at]
    got = list(c.rchildren)
    ctx.check(sorted(map(str, got)) == sorted(paths[i.id] for i in all_), 'rchildren %s' % got)
    by = {paths[i.id]: i for i in items}
    for g in got:
        i = by[str(g)]
        ctx.check(g.id == i.id and (i.dir or g.meta.size == i.meta['size']), 'record of %s' % g)
    ctx.label('deep' if at != 'root' else 'root')
    return len(got)


def root(ctx):
    """find_cache_root"""
    fs = ctx.fs
    k = Kit(ctx, anchor=ctx.flag('anchored'))
    path = '/tmp/d'
    levels = []
    for n in ('proj', 'a', 'b'):
        path += '/' + n
        if fs.node(path) is None:
            fs.mkd(path)
        has = ctx.flag('record ' + n)
        x = fs.node(path).xattrs
        x.clear()
        if has:
            for key, v in PathMeta(id=n).as_xattrs('t').items():
                x['user.' + key.decode()] = v
        levels.append((path, has))
    at = ctx.pick('at', ('', '/f', '/symlink', '/../../a/b', '/gone'))
    n = ctx.choice('level', 3)
    p = levels[n][0]
    if at == '/f':
        fs.put(p + at, b'')
    elif at == '/symlink':
        place(ctx, p + at, 'symlink', PathMeta(id='s'), None)
    elif at == '/../../a/b' and n != 2:
        return None
    target = p + at
    if ctx.flag('relative'):
        fs.chdir('/tmp')
        target = target[5:]
    try:
        got = k.L(target).find_cache_root()
        got = got and str(got.absolute())
    finally:
        fs.chdir('/')
    want = next((q for q, has in levels[:n + 1] if has), None)
    if at == '/symlink' and want is None:
        return None   # only the symlink
    if want is None:
        ctx.check(got is None, 'found %s' % got)
        ctx.label('none')
    else:
        ctx.check(got == want, '%s instead of %s' % (got, want))
        ctx.label('found')
    return want


def mkdir(ctx):
    """mkdir_remote"""
    fs = ctx.fs
    k = Kit(ctx, [Item('i0', 'a', 'root', True)])
    made = []

    def _mkdir_child(self, name):
        for i in k.inv.values():
            if i.parent == self.id and i.name == name:
                raise exc.RemotePathExistsError(name)
        new = Item('new-' + str(len(made)), name, self.id, True)
        made.append((self.id, name))
        k.inv[new.id] = new
        return self.__class__(new.id)
    k.R._mkdir_child = _mkdir_child
    has_a = ctx.flag('a is there')
    if has_a:
        place(ctx, TOP + '/a', 'dir', PathMeta(id='i0'), None)
    rel = ctx.pick('path', ('a', 'b', 'a/c', 'a/c/d', 'b/c/d', '../out'))
    parents = ctx.flag('parents')
    there = ctx.choice('folders there', 4)
    parts = rel.split('/')
    for i in range(1, min(there, len(parts)) + 1):
        q = TOP + '/' + '/'.join(parts[:i])
        if rel != '../out' and fs.node(q) is None:
            fs.mkd(q)
    top = TOP + '/' + rel if rel != '../out' else '/tmp/d/out'
    before = {i: fs.node(TOP + '/' + i) is not None for i in ('a', 'b', 'a/c', 'a/c/d', 'b/c', 'b/c/d')}
    known = ['a'] if has_a else []
    try:
        r = k.L(top).mkdir_remote(parents=parents)
    except exc.RemotePathExistsError:
        ctx.check(parts[0] == 'a' and (rel == 'a' or not has_a), 'exists')
        ctx.check(not made, 'nothing is made')
        ctx.label('exists')
        return 'exists'
    except FileNotFoundError:
        ctx.check(rel == '../out' or not parents and ('/' in rel and not (rel == 'a/c' and has_a)), 'parent is missing')
        ctx.check(not made and all(before[i] == (fs.node(TOP + '/' + i) is not None) for i in before), 'nothing is made')
        ctx.label('missing')
        return 'missing'
    ctx.check(rel != '../out', 'outside')
    start = 1 if has_a and parts[0] == 'a' else 0
    ctx.check(parents or len(parts) == start + 1, 'parents')
    ids = ['i0'] * start + ['new-%d' % i for i in range(len(parts) - start)]
    ctx.check([n for p, n in made] == parts[start:], 'made %s' % made)
    ctx.check([p for p, n in made] == (['root'] + ids)[start:-1], 'made in %s' % made)
    ctx.check(r is not None and r.id == ids[-1], 'remote')
    ctx.check(r.cache is not None and str(r.cache) == top, 'cache of the remote')
    for i, id in enumerate(ids):
        q = TOP + '/' + '/'.join(parts[:i + 1])
        ctx.check(fs.node(q) is not None and fs.node(q).kind == 'dir', 'folder')
        c = k.L(q).cache
        ctx.check(c is not None and c.id == id, 'record of %s' % q)
    ctx.label('made')
    return len(made)


def validate(ctx):
    fs = ctx.fs
    k = Kit(ctx, [Item('i0', 'f', 'root')])
    data = ctx.bytes('data', ctx.bound('size'))
    was = ctx.bytes('was', ctx.bound('size'))
    has = ctx.flag('checksum')
    size = ctx.flag('size')
    sized = ctx.int('recorded size', 0, 4) if size and not has else len(was)
    errors = ctx.pick('errors', ((), ('e',), ('checksum-mismatch',)))
    m = default_cypher()
    m.update(was)
    meta = PathMeta(id='i0', size=sized if size else None, checksum=m.digest() if has else None, errors=errors)
    place(ctx, TOP + '/f', 'file', meta, data)
    c = k.L(TOP + '/f').cache
    same = data == was
    try:
        c.validate_file()
    except exc.SizeError:
        ctx.check(not has and size and len(data) != sized, 'size')
        ctx.label('size')
        return 'size'
    ctx.check(has or not size or len(data) == sized, 'sizes differ')
    after = k.L(TOP + '/f').cache.meta
    want = errors
    if has and not same and 'checksum-mismatch' not in errors:
        want = errors + ('checksum-mismatch',)
    ctx.check(tuple(after.errors) == want, 'errors %s' % (after.errors,))
    ctx.check(after.id == 'i0' and after.size == meta.size and (not has or after.checksum == meta.checksum), 'record')
    ctx.check(fs.node(TOP + '/f').data == data, 'content')
    ctx.label('mismatch' if want != errors else 'kept')
    return bool(same)


CASES = [
    Case('listing', listing, dict(names=4), dict(names=5), fs='model', expect=('anchor', 'other'),
         split=[{'=has a': i, '=at': k} for i in range(2) for k in range(4)], bounds='4 (thorough: 5) names in the folder of the anchor, 3 levels'),
    Case('loops', listing, dict(names=0), dict(names=0), fs='model', expect=('anchor', 'other'), bounds='3 names'),
    Case('cached', cached, dict(items=2), dict(items=3), fs='model', expect=('root', 'deep'),
         split=[{'=folder 0': i, '=folder 1': k} for i in range(2) for k in range(2)], bounds='2 (thorough: 3) remotes'),
    Case('root', root, dict(), fs='model', expect=('none', 'found'), bounds='3 levels'),
    Case('mkdir', mkdir, dict(), fs='model', expect=('exists', 'missing', 'made'), bounds='3 levels'),
    Case('validate', validate, dict(size=2), dict(size=4), fs='model', expect=('size', 'mismatch', 'kept'), bounds='2 (thorough: 4) bytes'),
]
