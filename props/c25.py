"""C25: bootstrapping a local tree from a remote."""
from augpathlib import exceptions as exc
from augpathlib.meta import PathMeta
from props.cachekit import Item, Kit
from props.c22 import place, state
from sx.case import Case

META = dict(
    title='Bootstrapping mirrors the remote tree locally and keeps local data',
    statement='After a recursive bootstrap each remote folder is a local folder with its record and each remote file is '
              'a local symlink with its record under the same relative path, unless it was there already, as a file '
              'with content or as a symlink with the same id; then there is still exactly one path for it, and its '
              'content is what it was. Nothing else appears, a folder that the remote does not have any more goes to the trash with what is in it, and bootstrapping again changes nothing. '
              'A path whose id is to be skipped, or is not among the only ones, is left alone. In a sparse bootstrap '
              'only the files that the remote includes are added.',
    quantifier=dict(over=['inputs', 'configurations'], text='all small remote trees, local states and filters'),
    why_tests_cant='the tests that bootstrap mirror one fixed tree into an empty folder, the rest needs a network',
    anchors=dict(files=['augpathlib/caches.py', 'augpathlib/remotes.py', 'augpathlib/core.py'],
                 mechanism=[dict(name='bootstrap', where='augpathlib/caches.py:_CachePath._bootstrap'),
                            dict(name='recursion', where='augpathlib/caches.py:_CachePath._bootstrap_recursive'),
                            dict(name='children', where='augpathlib/remotes.py:RemotePath.cache_init')],
                 observe_at=['_CachePath.bootstrap', 'RemotePath.bootstrap']),
)
ASSUMPTIONS = ['the remote does not list anything twice']
TOP = '/tmp/d/proj/'


def tree(ctx):
    """a symbolic remote tree"""
    items = []
    dirs = ['root']
    for i in range(ctx.bound('items')):
        parent = ctx.pick('parent %d' % i, dirs)
        id = 'i%d' % i
        d = ctx.flag('folder %d' % i)
        meta = {} if d else dict(size=ctx.int('size %d' % i, 0, 9))
        items.append(Item(id, 'n%d' % i, parent, d, b'', **meta))
        if d:
            dirs.append(id)
    return items


def rel(items, item):
    by = {i.id: i for i in items}
    out = item.name
    while item.parent != 'root':
        item = by[item.parent]
        out = item.name + '/' + out
    return out


def record(item):
    return PathMeta(id=item.id, **item.meta)


def bootstrap(ctx):
    items = tree(ctx)
    k = ctx.kit = Kit(ctx, items)
    local = {}
    for i in items:
        p = TOP + rel(items, i)
        if ctx.fs.node(p.rsplit('/', 1)[0]) is None:
            continue
        there = ctx.pick('local ' + i.name, (None, 'dir', 'moved') if i.dir else (None, 'file', 'symlink', 'moved'))
        if there:
            if there == 'moved':
                p, there = p + '.old', 'dir' if i.dir else 'symlink'
            stale = there == 'symlink' and p[-4:] != '.old' and ctx.flag('stale ' + i.name)
            place(ctx, p, there, PathMeta(id=i.id, size=10, old_id='o') if stale else record(i), b'c')
            local[i.id] = p, stale
    if ctx.flag('gone'):
        place(ctx, TOP + 'gone', 'dir', PathMeta(id='g'), None)
        place(ctx, TOP + 'gone/f', 'file', PathMeta(id='h'), b'h')
        local['g'] = TOP + 'gone', False
    if ctx.flag('unknown'):
        ctx.fs.mkd(TOP + 'unknown')
        local['u'] = TOP + 'unknown', False
    before = {id: state(ctx, p) for id, (p, stale) in local.items()}
    return k, items, local, before


def mirror(ctx):
    k, items, local, before = bootstrap(ctx)
    out = k.anchor.bootstrap(k.R('root').meta, recursive=True)
    expected = {TOP.rstrip('/')}
    for i in items:
        p = TOP + rel(items, i)
        if i.id in local:
            if not i.dir:  # a folder goes where the remote has it
                p = local[i.id][0]
            stale = local[i.id][1]
            s = state(ctx, p)
            if stale:
                ctx.check(s[0] == 'symlink' and s[1].id == i.id and s[1].size == i.meta['size'], '%s is %r' % (p, s))
                ctx.label('updated')
            else:
                ctx.check(s == before[i.id], '%s was %r and is %r' % (p, before[i.id], s))
                ctx.label('kept')
        else:
            s = state(ctx, p)
            ctx.check(s is not None and s[0] == ('dir' if i.dir else 'symlink'), '%s is %r' % (p, s))
            ctx.check(s[-1] is not None and s[-1].id == i.id and (i.dir or s[-1].size == i.meta['size']),
                      '%s has %r' % (p, s))
            ctx.label('made')
        expected.add(p)
    if 'g' in local:
        trash = [v for p, v in ctx.fs.tree(TOP + '.operations/trash').items() if p.endswith('/f')]
        ctx.check(trash == [('file', b'h')], 'the folder that is gone from the remote is not in the trash: %r' % trash)
        ctx.label('trashed')
    if 'u' in local:
        expected.add(TOP + 'unknown')
        ctx.check(ctx.fs.node(TOP + 'unknown') is not None, 'a local folder without a record is gone')
        ctx.label('unknown')
    for p in ctx.fs.tree(TOP.rstrip('/')):
        ctx.check('/.operations' in p or p in expected, 'unexpected ' + p)
    once = ctx.fs.tree('/tmp/d')
    k.local('').cache.bootstrap(k.R('root').meta, recursive=True)
    ctx.check(ctx.fs.tree('/tmp/d') == once, 'bootstrapping again changed something')
    return len(out)


def filters(ctx):
    """one folder with a file and a folder with another"""
    items = [Item('ds', 'ds', 'root', True), Item('f', 'f', 'ds', size=1), Item('s', 's', 'ds', True),
             Item('e', 'e', 's', size=2)]
    k = ctx.kit = Kit(ctx, items)
    k.included = [i for i in 'fe' if ctx.flag('include ' + i)]
    top = ctx.flag('root')
    place(ctx, TOP + 'ds', 'dir', PathMeta(id='ds'), None)
    values = (), ('ds',), ('other',), ('other', 'ds')
    only, skip = ctx.pick('only', values), ctx.pick('skip', values)
    sparse = () if top else ctx.pick('sparse', values)
    c = k.local('' if top else 'ds').cache
    was = ctx.fs.tree('/tmp/d')
    out = c.bootstrap(c.remote.meta, recursive=True, only=only, skip=skip, sparse=sparse)
    left = not top and ('ds' in skip or only and 'ds' not in only)
    if left:
        ctx.check(not out and ctx.fs.tree('/tmp/d') == was, 'not left alone')
        ctx.label('left alone')
    else:
        sp = 'ds' in sparse
        for n, p in (('f', 'ds/f'), ('e', 'ds/s/e')):
            want = not sp or n in k.included
            ctx.check((ctx.fs.node(TOP + p) is not None) == want, '%s %s' % (p, 'missing' if want else 'not left out'))
        for n, p in (('f', 'ds/f'), ('e', 'ds/s/e'), ('s', 'ds/s')):
            ctx.check(k.local(p).cache.id == n if ctx.fs.node(TOP + p) is not None else True, 'record of ' + p)
        ctx.label('sparse' if sp else 'full')
    if not top:
        ctx.check(k.local('ds').is_sparse() == (not left and 'ds' in sparse), 'marked')
        ctx.check(k.local('ds').cache.is_sparse() == (not left and 'ds' in sparse), 'marked')
    return [len(out), left]


def single(ctx):
    """the path of one remote"""
    dir = ctx.flag('dir')
    items = [Item('s', 's', 'root', True), Item('t', 't', 's', True),
             Item('x', 'n', ctx.pick('parent', ('root', 's', 't')), dir, **({} if dir else dict(size=3)))]
    k = ctx.kit = Kit(ctx, items)
    above = rel(items, items[2]).split('/')[:-1]
    have = ctx.choice('folders there', len(above) + 1)
    for n in range(have):
        place(ctx, TOP + '/'.join(above[:n + 1]), 'dir', PathMeta(id='st'[n]), None)
    p = TOP + rel(items, items[2])
    there = ctx.pick('there', (None, 'dir') if dir else (None, 'file')) if have == len(above) else None
    recorded = there is not None and ctx.flag('recorded')
    if there == 'dir':
        ctx.fs.mkd(p)
    elif there:
        ctx.fs.put(p, b'abc')
    if recorded:
        for key, v in PathMeta(id='x').as_xattrs('t').items():
            ctx.fs.node(p).xattrs['user.' + key.decode()] = v
    before = ctx.fs.tree(TOP.rstrip('/'))
    parents = ctx.flag('parents')
    # a file makes the one folder it is in itself, without a record
    ctx.assume(parents or dir or len(above) - have != 1)
    try:
        out = k.R('x').cache_init(parents=parents)
    except FileNotFoundError:
        ctx.check(have < len(above) and not parents, 'refused')
        ctx.check(ctx.fs.tree(TOP.rstrip('/')) == before, 'refused but changed')
        ctx.label('refused')
        return 'refused'
    ctx.check(parents or have == len(above), 'folders were made')
    ctx.check(out is not None and str(out) == p and out.id == 'x', 'returned %r' % out)
    for n in range(len(above)):
        st = state(ctx, TOP + '/'.join(above[:n + 1]))
        ctx.check(st[0] == 'dir' and st[1].id == 'st'[n], 'folder %r' % (st,))
    st = state(ctx, p)
    ctx.check(st[0] == ('dir' if dir else there or 'symlink') and st[-1] is not None and st[-1].id == 'x', 'made %r' % (st,))
    ctx.check(there != 'file' or st[1] == b'abc', 'content')
    made = {*before, p, *[TOP + '/'.join(above[:n + 1]) for n in range(len(above))]}
    ctx.check(set(ctx.fs.tree(TOP.rstrip('/'))) == made, 'made more')
    ctx.label(there or 'new')
    return [st[0]]


def refuse(ctx):
    """bootstrap that is not recursive, of what has a record, or without an id"""
    k = ctx.kit = Kit(ctx, [Item('x', 'n', 'root', True)])
    there = ctx.pick('there', (None, 'dir', 'recorded'))
    if there == 'dir':
        ctx.fs.mkd(TOP + 'n')
    elif there:
        place(ctx, TOP + 'n', 'dir', PathMeta(id='x', size=1), None)
    kw = ctx.pick('options', ({}, dict(recursive=True), dict(only=('x',)), dict(skip=('y',)), dict(sparse=('x',))))
    meta = ctx.pick('meta', (None, PathMeta(size=2), PathMeta(id='x', size=2)))
    has = meta is not None and meta.id is not None
    if has:
        ctx.assume(there == 'recorded' and not kw.get('recursive'))
    before = ctx.fs.tree(TOP.rstrip('/')), state(ctx, TOP + 'n')
    c = k.L(TOP + 'n').cache if there == 'recorded' else k.anchor
    try:
        c.bootstrap(meta, **kw)
        ctx.check(False, 'bootstrap with %r of what is %s' % (meta, there))
    except exc.BootstrappingError:
        pass
    if 'sparse' not in kw:
        ctx.check((ctx.fs.tree(TOP.rstrip('/')), state(ctx, TOP + 'n')) == before, 'refused but changed')
    ctx.label('id' if has else 'no id')
    return there


CASES = [
    Case('mirror', mirror, dict(items=2), dict(items=3), fs='model', expect=('kept', 'made', 'updated', 'trashed', 'unknown'),
         split=[{'=folder 0': i, '=folder 1': j} for i in range(2) for j in range(2)],
         bounds='trees of 2 (thorough: 3) items in any arrangement; each file locally absent, a file, a symlink with '
                'the current or an old record, or a symlink under another name; each folder there or not'),
    Case('filters', filters, fs='model', expect=('left alone', 'sparse', 'full'),
         bounds='a folder with a file and a folder with a file; only, skip, sparse are empty or name it, another or both'),
    Case('single', single, fs='model', expect=('refused', 'new', 'file', 'dir'), bounds='a path below up to 2 folders'),
    Case('refuse', refuse, fs='model', expect=('id', 'no id'), bounds='one folder'),
]
