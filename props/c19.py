"""C19: metadata of local files."""
import datetime
import hashlib
from augpathlib import LocalPath
from augpathlib.utils import default_cypher, etag
from sx.case import Case

META = dict(
    title='The metadata of a local path describes what is there now',
    statement='The metadata of an existing local path has its current name, size, times (created is the data '
              'modification time, updated the change time), owner, group, mode, inode, id, parent id and, when asked '
              'for, the checksum and etag of its current content; nothing older than the last change is ever '
              'returned however often and in whichever form metadata was read before. A path that does not exist has '
              'only id and name.',
    quantifier=dict(over=['histories', 'inputs'], text='all sequences of changes and metadata reads up to the bound, '
                                                      'all contents and ownerships'),
    why_tests_cant='the tests read metadata once; the cached record goes wrong only for particular sequences of '
                   'changes and differing requests',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='cached record and its invalidation',
                                 where='augpathlib/core.py:LocalPath._meta_maker')],
                 observe_at=['LocalPath.meta', 'LocalPath.meta_no_checksum', 'LocalPath.created', 'LocalPath.size']),
)
ASSUMPTIONS = ['every change of a file changes its change time or modification time (in-memory file system)']


def expect(ctx, fs, p, checksum, chunksize):
    n = fs.node(p)
    at = lambda t: datetime.datetime.fromtimestamp(t, tz=datetime.timezone.utc)
    kind = {'file': 0o100000, 'dir': 0o040000}[n.kind]
    data = n.data if n.kind == 'file' else None
    tag = None
    if chunksize and data is not None:
        e = etag(chunksize)
        e.update(data)
        tag = e.digest()
    return dict(name=p.rsplit('/', 1)[1], size=len(n.data) if data is not None else 4096, created=at(n.mtime),
                updated=at(n.ctime), checksum=default_cypher(data).digest() if checksum and data is not None else None,
                etag=tag, chunksize=chunksize, file_id=n.ino, user_id=n.uid, gid=n.gid, mode=kind + n.mode,
                id=LocalPath.sysid + ':' + p, parent_id=LocalPath.sysid + ':' + p.rsplit('/', 1)[0])


def compare(ctx, m, want, what):
    for k, v in want.items():
        got = getattr(m, k)
        if k == 'mode':
            ctx.check(got[:2] == '0o' and int(got[2:], 8) == v, '%s: mode %r not %o' % (what, got, v))
        else:
            ctx.check(got == v, '%s: %s is %r not %r' % (what, k, got, v))


def history(ctx):
    fs = ctx.fs
    path = '/tmp/t/f'
    n = fs.put(path, ctx.bytes('data', ctx.bound('n')))
    if ctx.bound('owners'):
        n.uid, n.gid = ctx.int('uid', 0, 70000), ctx.int('gid', 0, 70000)
    p = LocalPath(path)
    reads = 0
    for i in range(ctx.bound('k')):
        op = ctx.pick('op%d' % i, ('meta', 'no checksum', 'etag', 'write', 'chmod', 'replace', 'remove', 'folder'))
        there = fs.node(path) is not None
        if op in ('meta', 'no checksum', 'etag'):
            cs = ctx.choice('cs%d' % i, 2) + 1 if op == 'etag' else None
            m = p.meta if op == 'meta' else p.meta_no_checksum if op == 'no checksum' else p._meta_maker(chunksize=cs)
            if there:
                compare(ctx, m, expect(ctx, fs, path, op != 'no checksum', cs), op)
                ctx.check(p.size == fs.stat(path).st_size, 'size')
                if op == 'meta':
                    ctx.check(p.created == m.created and m.created is not None, 'created')
                reads += 1
                ctx.label('read again' if reads > 1 else 'read')
            else:
                ctx.check(m.id == LocalPath.sysid + ':' + path and m.name == 'f', 'id and name')
                for k in m.fields[1:] if hasattr(m, 'fields') else m:
                    ctx.check(getattr(m, k, None) is None or k in ('id', 'name', 'errors'), '%s of a missing file' % k)
                ctx.label('missing')
        elif op == 'write':
            p.data = iter((ctx.bytes('new%d' % i, ctx.bound('n')),)) if fs.kind(path) != 'dir' else ctx.assume(False)
        elif op == 'chmod' and there:
            p.chmod(ctx.int('mode%d' % i, 0, 0o777, 0o600))
        elif op == 'replace':
            ctx.assume(fs.kind(path) != 'dir')
            fs.put('/tmp/t/g', ctx.bytes('new%d' % i, ctx.bound('n')))
            fs.rename('/tmp/t/g', path)
        elif op == 'remove' and there:
            del fs.node('/tmp/t').children['f']
        elif op == 'folder':
            ctx.assume(not there)
            fs.mkd(path)
    return reads


CASES = [
    Case('history', history, dict(k=3, n=1, owners=1), dict(k=4, n=1), fs='model', expect=('read', 'read again', 'missing'),
         split=[{'=op0': i} for i in (0, 1, 2, 3, 6)], split_thorough=[{'=op0': i} for i in (0, 1, 2, 3, 4, 5, 6)],
         bounds='k reads and changes (write, chmod, replace, remove, recreate as folder), contents of up to n bytes, '
                'any ids and modes'),
]
