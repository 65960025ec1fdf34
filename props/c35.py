"""C35: paths inside of zip archives."""
import contextlib
import io
import os
import zipfile
from augpathlib import zip as module
from augpathlib.zip import ZipPath
from sx.case import Case

META = dict(
    title='A path into a zip archive answers for the entry with that name',
    statement='exists, is_dir, children, rchildren, open and data of a path into an archive, and of the internal path that stands for '
              'it, are those of the entry with that name, and of the folders that the names of the entries imply; for a name that '
              'is not in the archive exists and is_dir are false and open and data an error. A path that is not in an archive is as any '
              'other path, also if its name ends with .zip, and whether a path is relative makes no difference.',
    quantifier=dict(over=['inputs', 'configurations'], text='all small archives, contents, and paths'),
    why_tests_cant='the test opens one entry of one archive',
    anchors=dict(files=['augpathlib/zip.py'],
                 mechanism=[dict(name='entries', where='augpathlib/zip.py:ZipInternalPath._new'),
                            dict(name='archive', where='augpathlib/zip.py:ZipHelper.zip_path'),
                            dict(name='data', where='augpathlib/zip.py:ZipInternalPath.data')],
                 observe_at=['ZipPath.exists', 'ZipPath.rchildren', 'ZipPath.open', 'ZipInternalPath.exists', 'ZipInternalPath.is_dir',
                             'ZipInternalPath.children', 'ZipInternalPath.data']),
)
ASSUMPTIONS = ['archives do not change, no entry is there twice, no name is absolute or has ..']
ENTRIES = 'a', 'd/', 'd/b', 'd/e/c', 'dx', 'n.zip', 'f'


class Archive:
    """zipfile.ZipFile of what the harness put there"""

    def __init__(self, entries):
        self.entries = entries
        self.filelist = [zipfile.ZipInfo(n) for n, c in entries]

    def open(self, zi, mode='r'):
        return Stream(dict(self.entries)[zi.filename])


class Stream:
    def __init__(self, content):
        self.content, self.at, self.closed = content, 0, False

    def read(self, n=-1):
        if self.closed:
            raise ValueError('closed')
        at = self.at
        self.at = len(self.content) if n < 0 else min(len(self.content), at + n)
        return self.content[at:self.at]

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.close()


class Zipfile:
    """the module zipfile, on the file system model"""

    def __init__(self, ctx, archives):
        self.ctx, self.archives = ctx, archives

    def node(self, path):
        fs = self.ctx.fs
        return fs.node(os.path.join(fs.getcwd(), os.fspath(path)))

    def is_zipfile(self, path):
        n = self.node(path)
        return n is not None and n.kind == 'file' and n.ino in self.archives

    def ZipFile(self, path):
        n = self.node(path)
        if n is None:
            raise FileNotFoundError(2, 'No such file or directory', str(path))
        if n.kind == 'dir':
            raise IsADirectoryError(21, 'Is a directory', str(path))
        if n.ino not in self.archives:
            raise zipfile.BadZipFile('File is not a zip file')
        entries = self.archives[n.ino]
        if hasattr(self.ctx, 'run'):
            return Archive(entries)
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            for name, c in entries:
                z.writestr(name, c)
        return zipfile.ZipFile(b)


@contextlib.contextmanager
def attached(ctx, archives):
    saved = module.zipfile, module.ZipHelper._zfc_cache
    module.zipfile, module.ZipHelper._zfc_cache = Zipfile(ctx, archives), {}
    try:
        yield
    finally:
        module.zipfile, module.ZipHelper._zfc_cache = saved
        ctx.fs.chdir('/')


def archive(ctx):
    fs = ctx.fs
    entries = []
    for i, n in enumerate(ENTRIES[:ctx.bound('entries')]):
        if ctx.flag('has ' + n):
            entries.append((n, b'' if n.endswith('/') else ctx.bytes('content ' + n, ctx.bound('size')) if i in (0, 2) else b'c' * i))
    for d in ('/tmp/z', '/tmp/z/s'):
        fs.mkd(d)
    name = ctx.pick('archive', ('/tmp/z/s/x.zip', '/tmp/z/s/x.other'))
    fs.put(name, b'PK')
    fs.put('/tmp/z/s/plain.zip', b'xx')
    fs.mkd('/tmp/z/folder.zip')
    fs.put('/tmp/z/folder.zip/f', b'in a folder')
    archives = {fs.node(name).ino: entries}
    chunk = ctx.pick('chunksize', (1, 4096))
    inside = ctx.pick('path', ('', 'a', 'd', 'd/b', 'd/e', 'd/e/c', 'n.zip', 'none', 'd/none', 'a/none'))
    target = name + ('/' + inside if inside else '')
    with attached(ctx, archives):
        if ctx.flag('relative'):
            fs.chdir('/tmp/z')
            target = target[7:]
            if ctx.flag('other of the same name'):
                # another archive by the same relative path, before
                fs.mkd('/tmp/y')
                fs.mkd('/tmp/y/s')
                fs.put('/tmp/y' + name[6:], b'PK')
                archives[fs.node('/tmp/y' + name[6:]).ino] = [('none', b'of the other')]
                fs.chdir('/tmp/y')
                ctx.check(ZipPath(target.split('.')[0] + '.' + name.rpartition('.')[2] + '/none').exists(), 'other')
                fs.chdir('/tmp/z')
        p = ZipPath(target)
        # what there is
        folders, files = {''}, {}
        for n, c in entries:
            parts = n.rstrip('/').split('/')
            for i in range(1, len(parts)):
                folders.add('/'.join(parts[:i]))
            if n.endswith('/'):
                folders.add(n[:-1])
            else:
                files[n] = c
        all_ = (folders | set(files)) - {''}
        there = inside == '' or inside in all_
        ctx.check(p.exists() == there, 'exists')
        i = p.asInternal()
        ctx.check(i is not None and i.as_posix() == (inside or '.'), 'internal')
        ctx.check(i.exists() == there or inside == '' and not entries, 'internal exists')
        ctx.check(i.is_dir() == (inside in folders), 'is_dir')
        below = sorted(n for n in all_ if inside == '' or n.startswith(inside + '/'))
        ctx.check(sorted(c.as_posix() for c in i.rchildren) == below, 'rchildren of the internal path')
        ctx.check(sorted(str(c) for c in p.rchildren) == [target[:len(target) - len(inside)].rstrip('/') + '/' + n for n in below], 'rchildren')
        ctx.check(sorted(c.as_posix() for c in i.children) == [n for n in below if '/' not in n[len(inside) + 1 if inside else 0:]], 'children')
        i.__class__.chunksize = chunk

        def read():
            with p.open() as f:
                return f.read()

        def data():
            return b''.join(i.data)
        for what, get in (('open', read), ('data', data)):
            try:
                got = get()
            except IsADirectoryError:
                ctx.check(inside in folders, what + ': is a directory')
                ctx.label('folder')
            except FileNotFoundError:
                ctx.check(not there, what + ': not found')
                ctx.label('missing')
            else:
                ctx.check(inside in files and got == files[inside], what)
                ctx.label('file')
    return there


def outside(ctx):
    """not in an archive"""
    fs = ctx.fs
    for d in ('/tmp/z', '/tmp/z/s', '/tmp/z/folder.zip'):
        fs.mkd(d)
    fs.put('/tmp/z/s/x.zip', b'PK')
    fs.put('/tmp/z/s/plain.zip', b'xx')
    fs.put('/tmp/z/folder.zip/f', b'in a folder')
    fs.link('/tmp/z/l', 's/x.zip')
    with attached(ctx, {fs.node('/tmp/z/s/x.zip').ino: [('a', b'a')]}):
        rel = ctx.pick('path', ('s', 's/plain.zip', 's/plain.zip/a', 'folder.zip', 'folder.zip/f', 'folder.zip/none', 'none.zip',
                                'none.zip/a', 'none', '', 's/../folder.zip/f'))
        target = '/tmp/z' + (rel and '/' + rel)
        if ctx.flag('relative'):
            fs.chdir('/tmp/z')
            target = rel or '.'
        p = ZipPath(target)
        ctx.check(p.zip_path is None and p.asInternal() is None, 'not in an archive')
        there = rel in ('s', 's/plain.zip', 'folder.zip', 'folder.zip/f', '', 's/../folder.zip/f')
        ctx.check(p.exists() == there, 'exists')
        try:
            got = p.open('rb').read()
        except (FileNotFoundError, NotADirectoryError):
            ctx.check(not there, 'not found')
            ctx.label('missing')
        except IsADirectoryError:
            ctx.check(rel in ('s', 'folder.zip', ''), 'directory')
        else:
            ctx.check(got == (b'xx' if rel == 's/plain.zip' else b'in a folder'), 'content')
            ctx.label('file')
    return there


CASES = [
    Case('archive', archive, dict(size=2, entries=5), dict(size=6, entries=7), fs='model', expect=('folder', 'missing', 'file'), split=[{'=path': i} for i in range(10)],
         bounds='5 (thorough: 7) entries, contents of 2 (thorough: 4) bytes'),
    Case('outside', outside, dict(), fs='model', expect=('missing', 'file'), bounds='11 paths'),
]
