"""In-memory POSIX file system used in place of the operating system, both in symbolic runs and in concrete
replays.  Names and tree shape are concrete on each path (chosen by solver-enumerated inputs); file contents, link
targets, attribute values, modes and owners may be symbolic.  Every os/xattr/open entry point that can touch a real
file is replaced while a run is active; entry points that are not modelled refuse to run, so the code under test can
never reach the real file system through them."""
import builtins
import errno
import io
import os
import posix
import stat as _stat
import sys
from . import core

_real = {}
S_IFDIR, S_IFREG, S_IFLNK, S_IFIFO = 0o040000, 0o100000, 0o120000, 0o010000


def plain(x):
    """a concrete str path from anything (recorded concretisation)"""
    if hasattr(x, '__fspath__'):
        x = x.__fspath__()
    if core.CUR is not None:
        from .values import deep_conc
        x = deep_conc(x)
    if isinstance(x, bytes):
        x = x.decode('utf-8', 'surrogateescape')
    return x


def fsp(x):
    """like plain, but symbolic text stays symbolic"""
    if hasattr(x, '__fspath__'):
        x = x.__fspath__()
    if isinstance(x, bytes):
        x = x.decode('utf-8', 'surrogateescape')
    return x if isinstance(x, str) else plain(x)


def blen(s):
    """length in bytes (symbolic text is short)"""
    return len(s) if core.CUR is not None and type(s) is not str else len(s.encode('utf-8', 'surrogateescape'))


def entry(node, c):
    """(name, child) of the entry named c; forks on symbolic names"""
    if type(c) is not str:
        for k, n in node.children.items():
            if c == k:
                return k, n
        return c, None
    return c, node.children.get(c)


def sl(data, a, b):
    """data[a:b] with possibly symbolic bounds"""
    if core.CUR is not None:
        from . import rt
        return rt.getitem(data, slice(a, b))
    return data[a:b]


def conc(x):
    if core.CUR is not None:
        from .values import conc_int
        return conc_int(x)
    return x


class Node:
    _n = 0

    def __init__(self, fs, kind, mode=None):
        fs.ino += 1
        self.ino = fs.ino
        self.kind = kind
        self.mode = {'dir': 0o755, 'file': 0o644, 'symlink': 0o777, 'fifo': 0o644}[kind] if mode is None else mode
        self.uid = self.gid = 1000
        self.data = b''
        self.target = None
        self.children = {}
        self.xattrs = {}
        self.dev = 1
        self.size = None
        self.atime = self.mtime = self.ctime = self.btime = fs.tick()

    @property
    def ifmt(self):
        return {'dir': S_IFDIR, 'file': S_IFREG, 'symlink': S_IFLNK, 'fifo': S_IFIFO}[self.kind]


class StatR:
    def __init__(self, n):
        self.st_mode = n.ifmt | n.mode if isinstance(n.mode, int) and type(n.mode) is int else n.mode + n.ifmt
        self.st_ino = n.ino
        self.st_dev = n.dev
        self.st_nlink = 1
        self.st_uid = n.uid
        self.st_gid = n.gid
        self.st_size = (n.size if n.size is not None else len(n.data) if n.kind == 'file' else
                        len(n.target) if n.kind == 'symlink' else 4096)
        self.st_atime, self.st_mtime, self.st_ctime = n.atime, n.mtime, n.ctime
        self.st_birthtime = n.btime
        self.st_atime_ns, self.st_mtime_ns, self.st_ctime_ns = (int(t * 10**9) for t in (n.atime, n.mtime, n.ctime))
        self.st_blksize = 4096
        self.st_blocks = 8
        self.st_rdev = 0

    def __getitem__(self, i):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink, self.st_uid, self.st_gid, self.st_size,
                int(self.st_atime), int(self.st_mtime), int(self.st_ctime))[i]


def err(e, *paths):
    e = conc_small(e)
    ps = [p for p in paths]
    if len(ps) == 2:
        return OSError(e, os.strerror(e), ps[0], None, ps[1])
    return OSError(e, os.strerror(e), *ps)


class File:
    """open file object"""

    def __init__(self, fs, node, path, mode, text=False, encoding=None, flags=0):
        self.fs, self.node, self.name, self.mode = fs, node, path, mode
        self.text, self.encoding = text, encoding or 'utf-8'
        self.r = 'r' in mode or '+' in mode
        self.w = any(c in mode for c in 'wax+')
        self.append = 'a' in mode
        self.pos = len(node.data) if self.append else 0
        self.closed = False
        self.fd = None
        fs.open_files += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.open_files -= 1
            if self.fd is not None:
                self.fs.fds.pop(self.fd, None)

    def fileno(self):
        if self.fd is None:
            self.fd = self.fs.newfd(self)
        return self.fd

    def readable(self): return self.r
    def writable(self): return self.w
    def seekable(self): return True
    def flush(self): pass
    def isatty(self): return False

    def _ck(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def read(self, n=-1):
        self._ck()
        if not self.r:
            raise io.UnsupportedOperation('not readable')
        self.fs.op('read', self.name)
        d = self.node.data
        if n is None or n < 0:
            out = d[self.pos:]
        else:
            out = sl(d, self.pos, self.pos + n)
        self.pos += len(out)
        return out.decode(self.encoding) if self.text else out

    read1 = read

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readline(self, n=-1):
        d = self.node.data[self.pos:]
        i = d.find(b'\n')
        return self.read(len(d) if i < 0 else i + 1)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def readlines(self):
        return list(self)

    def write(self, b):
        self._ck()
        if not self.w:
            raise io.UnsupportedOperation('not writable')
        if self.text:
            n = len(b)
            b = b.encode(self.encoding)
        else:
            if isinstance(b, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            n = len(b)
        self.fs.mutate('write', self.name)
        d = self.node.data
        if self.append:
            self.pos = len(d)
        if self.pos > len(d):
            d = d + b'\0' * (self.pos - len(d))
        if not isinstance(b, bytes):
            b = bytes(b)
        self.node.data = d[:self.pos] + b + d[self.pos + len(b):]
        self.pos += len(b)
        self.fs.touch_m(self.node)
        self.fs.after('write', self.name)
        return n

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def seek(self, off, whence=0):
        self._ck()
        if whence == 0:
            if off < 0:
                raise OSError(errno.EINVAL, 'Invalid argument') if not self.text else ValueError('negative seek')
            self.pos = conc_small(off)
        elif whence == 1:
            self.pos = max(0, conc_small(self.pos + off))
        else:
            p = len(self.node.data) + off
            if p < 0:
                raise OSError(errno.EINVAL, 'Invalid argument')
            self.pos = conc_small(p)
        return self.pos

    def tell(self): return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else conc_small(n)
        self.fs.mutate('truncate', self.name)
        d = self.node.data
        self.node.data = d[:n] if n <= len(d) else d + b'\0' * (n - len(d))
        self.fs.touch_m(self.node)
        self.fs.after('truncate', self.name)
        return n


def conc_small(x):
    if core.CUR is not None:
        from .values import SymInt
        from .rt import conc_branch
        if isinstance(x, SymInt):
            return conc_branch(x)
    return x


class DirEntry:
    def __init__(self, fs, dirpath, name, node):
        self._fs, self.name, self._node = fs, name, node
        self.path = (dirpath if dirpath.endswith('/') else dirpath + '/') + name if dirpath else name
        if dirpath == '.':
            self.path = './' + name

    def __fspath__(self): return self.path

    def is_symlink(self): return self._node.kind == 'symlink'

    def is_dir(self, *, follow_symlinks=True):
        if self._node.kind == 'symlink' and follow_symlinks:
            try:
                return _stat.S_ISDIR(conc(self.stat().st_mode))
            except FileNotFoundError:
                return False
        return self._node.kind == 'dir'

    def is_file(self, *, follow_symlinks=True):
        if self._node.kind == 'symlink' and follow_symlinks:
            try:
                return _stat.S_ISREG(conc(self.stat().st_mode))
            except FileNotFoundError:
                return False
        return self._node.kind == 'file'

    def is_junction(self): return False
    def inode(self): return self._node.ino

    def stat(self, *, follow_symlinks=True):
        return self._fs.stat(self.path, follow_symlinks=follow_symlinks)


class ScandirIter(list):
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop(0)

    def __iter__(self):
        while self:
            yield self.pop(0)


class ModelFS:
    NAME_MAX = 255

    def __init__(self):
        self.clock = 1_600_000_000
        self.ino = 1
        self.root = Node(self, 'dir')
        self.cwd_node = None
        self.cwd_path = '/'
        self.fds = {}
        self.open_files = 0
        self.log = []              # mutating operations
        self.ops = 0
        self.fail = None           # callable(op, path, n) -> errno or None (before the operation)
        self.fail_read = None
        self.on_mutation = None    # callable(op, path) after each mutation (crash points)
        self.freeze_clock = False
        self.mkd('/tmp')
        self.umask_ = 0o022

    # -------------------------------------------------------------- helpers
    def tick(self):
        if not getattr(self, 'freeze_clock', False):
            self.clock += 1
        return float(self.clock)

    def op(self, name, *paths):
        if self.fail_read is not None:
            e = self.fail_read(name, *paths)
            if e:
                raise err(e, *paths)

    def mutate(self, name, *paths):
        self.ops += 1
        if self.fail is not None:
            e = self.fail(name, paths, self.ops)
            if e:
                raise err(e, *paths)
        self.log.append((name,) + paths)

    def after(self, name, *paths):
        if self.on_mutation is not None:
            self.on_mutation(name, paths)

    def touch_m(self, n):
        n.mtime = n.ctime = self.tick()

    def newfd(self, x):
        fd = 1000
        while fd in self.fds:
            fd += 1
        self.fds[fd] = x
        return fd

    def walk_to(self, path, follow=True, parent=False, dir_fd=None):
        """-> (parent node, name, node or None, realpath).  raises OSError"""
        path0 = path
        p = fsp(path)
        if isinstance(p, int):
            h = self.fds.get(p)
            if h is None:
                raise err(errno.EBADF)
            n = h.node if isinstance(h, File) else h
            return None, None, n, '/fd'
        if not isinstance(p, str):
            raise TypeError('path should be string, bytes or os.PathLike, not ' + type(p).__name__)
        if '\0' in p:
            raise ValueError('embedded null byte')
        if p == '':
            raise err(errno.ENOENT, p)
        if blen(p) > 4095:
            raise err(errno.ENAMETOOLONG, p)
        self.nlinks = 0
        if p.startswith('/'):
            stack = [(self.root, '')]
        elif dir_fd is not None:
            h = self.fds.get(dir_fd)
            node = h if isinstance(h, Node) else (h.node if h else None)
            if node is None:
                raise err(errno.EBADF, p)
            if node.kind != 'dir':
                raise err(errno.ENOTDIR, p)
            stack = self._stack_of(node)
        else:
            stack = self._stack_of(self.cwd())
        return self._walk(stack, p, follow, path0 if isinstance(path0, str) else p)

    def cwd(self):
        return self.cwd_node or self.root

    def _stack_of(self, node):
        def rec(n, name, acc):
            acc.append((n, name))
            if n is node:
                return True
            for k, c in n.children.items():
                if c.kind == 'dir' and rec(c, k, acc):
                    return True
            acc.pop()
            return False
        acc = []
        if not rec(self.root, '', acc):
            raise err(errno.ENOENT)
        return acc

    def _walk(self, stack, p, follow, shown):
        comps = [c for c in p.split('/') if c != '']
        trailing = p.endswith('/')
        if p.startswith('/'):
            stack = [(self.root, '')]
        stack = list(stack)
        if not comps:
            n, nm = stack[-1]
            return None, nm, n, self._join(stack)
        for i, c in enumerate(comps):
            last = i == len(comps) - 1
            cur = stack[-1][0]
            if cur.kind != 'dir':
                raise err(errno.ENOTDIR, shown)
            if c == '.':
                if last:
                    return None, '.', cur, self._join(stack)
                continue
            if c == '..':
                if len(stack) > 1:
                    stack.pop()
                if last:
                    return None, '..', stack[-1][0], self._join(stack)
                continue
            if blen(c) > self.NAME_MAX:
                raise err(errno.ENAMETOOLONG, shown)
            c, n = entry(cur, c)
            if n is None:
                if last:
                    return cur, c, None, self._join(stack) + '/' + c
                raise err(errno.ENOENT, shown)
            if n.kind == 'symlink' and (not last or follow or trailing):
                self.nlinks += 1
                if self.nlinks > 40:
                    raise err(errno.ELOOP, shown)
                t = fsp(n.target)
                rest = '/'.join(comps[i + 1:])
                par, nm, node, rp = self._walk(stack, t, True, shown) if not last else self._walk(
                    stack, t, follow or trailing, shown)
                if last:
                    return par, nm, node, rp
                if node is None:
                    raise err(errno.ENOENT, shown)
                return self._walk(self._stack_of(node) if node.kind == 'dir' else [(node, '')], rest +
                                  ('/' if trailing else ''), follow, shown)
            if last:
                if trailing and n.kind != 'dir':
                    raise err(errno.ENOTDIR, shown)
                return cur, c, n, self._join(stack) + '/' + c
            stack.append((n, c))

    @staticmethod
    def _join(stack):
        return '/'.join(n for _, n in stack) or ('/' if len(stack) == 1 else '')

    def get(self, path, follow=True, dir_fd=None):
        par, name, n, rp = self.walk_to(path, follow, dir_fd=dir_fd)
        if n is None:
            raise err(errno.ENOENT, fsp(path))
        return n

    # -------------------------------------------------------------- harness api (no logging, no faults)
    def mkd(self, path, mode=None):
        cur = self.root
        for c in path.strip('/').split('/'):
            if not c:
                continue
            if c not in cur.children:
                cur.children[c] = Node(self, 'dir', mode)
            cur = cur.children[c]
        return cur

    def put(self, path, data=b'', mode=None):
        d, name = path.rsplit('/', 1)
        n = Node(self, 'file', mode)
        n.data = data
        self.mkd(d).children[name] = n
        return n

    def link(self, path, target):
        d, name = path.rsplit('/', 1)
        n = Node(self, 'symlink')
        n.target = target
        self.mkd(d).children[name] = n
        return n

    def node(self, path):
        """lexical lookup without following links; None if absent"""
        cur = self.root
        for c in path.strip('/').split('/'):
            if not c:
                continue
            if cur is None or cur.kind != 'dir':
                return None
            cur = cur.children.get(c)
        return cur

    def kind(self, path):
        n = self.node(path)
        return None if n is None else n.kind

    def tree(self, path='/', content=True):
        """{path: (kind, data or target)} below path"""
        out = {}

        def rec(n, p):
            out[p] = (n.kind, (n.data if n.kind == 'file' else n.target if n.kind == 'symlink' else None)
                      if content else None)
            for k in sorted(n.children):
                rec(n.children[k], (p if p != '/' else '') + '/' + k)
        n = self.node(path)
        if n is not None:
            rec(n, path)
        return out

    def inodes(self, path='/'):
        return {n.ino: p for p, n in self.walk_nodes(path)}

    def walk_nodes(self, path='/'):
        n = self.node(path)
        if n is None:
            return
        yield path, n
        for k in sorted(n.children):
            yield from self.walk_nodes((path if path != '/' else '') + '/' + k)

    # -------------------------------------------------------------- os api
    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        self.op('stat' if follow_symlinks else 'lstat', fsp(path))
        return StatR(self.get(path, follow_symlinks, dir_fd))

    def lstat(self, path, *, dir_fd=None):
        self.op('lstat', fsp(path))
        return StatR(self.get(path, False, dir_fd))

    def fstat(self, fd):
        return StatR(self.get(fd))

    def listdir(self, path='.'):
        self.op('scandir', fsp(path))
        n = self.get(path)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, fsp(path))
        return sorted(n.children)

    def scandir(self, path='.'):
        self.op('scandir', fsp(path))
        n = self.get(path)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, fsp(path))
        p = fsp(path)
        return ScandirIter(DirEntry(self, p, k, n.children[k]) for k in sorted(n.children))

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        par, name, n, rp = self.walk_to(path, False, dir_fd=dir_fd)
        if n is not None:
            raise err(errno.EEXIST, fsp(path))
        self.mutate('mkdir', rp)
        par.children[plain(name)] = n = Node(self, 'dir', conc(mode) & ~self.umask_)
        n.dev = par.dev
        self.touch_m(par)
        self.after('mkdir', rp)

    def makedirs(self, name, mode=0o777, exist_ok=False):
        p = fsp(name)
        head, tail = os.path.split(p)
        if not tail:
            head, tail = os.path.split(head)
        if head and tail and not self.exists(head):
            self.makedirs(head, exist_ok=exist_ok)
        try:
            self.mkdir(p, mode)
        except OSError:
            if not exist_ok or not self.isdir(p):
                raise

    def exists(self, p):
        try:
            self.get(p)
            return True
        except (OSError, ValueError):
            return False

    def isdir(self, p):
        try:
            return self.get(p).kind == 'dir'
        except (OSError, ValueError):
            return False

    def rmdir(self, path, *, dir_fd=None):
        par, name, n, rp = self.walk_to(path, False, dir_fd=dir_fd)
        if n is None:
            raise err(errno.ENOENT, fsp(path))
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, fsp(path))
        if par is None:
            raise err(errno.EINVAL if name == '.' else errno.ENOTEMPTY if name == '..' else errno.EBUSY, fsp(path))
        if n.children:
            raise err(errno.ENOTEMPTY, fsp(path))
        self.mutate('rmdir', rp)
        del par.children[name]
        self.touch_m(par)
        self.after('rmdir', rp)

    def unlink(self, path, *, dir_fd=None):
        par, name, n, rp = self.walk_to(path, False, dir_fd=dir_fd)
        if n is None:
            raise err(errno.ENOENT, fsp(path))
        if n.kind == 'dir':
            raise err(errno.EISDIR, fsp(path))
        self.mutate('unlink', rp)
        del par.children[name]
        self.touch_m(par)
        self.after('unlink', rp)

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        sp, sn, s, srp = self.walk_to(src, False, dir_fd=src_dir_fd)
        if s is None:
            raise err(errno.ENOENT, fsp(src), fsp(dst))
        dp, dn, d, drp = self.walk_to(dst, False, dir_fd=dst_dir_fd)
        if sp is None or dp is None:
            raise err(errno.EBUSY, fsp(src), fsp(dst))
        if fsp(dst).endswith('/') and s.kind != 'dir':
            raise err(errno.ENOTDIR, fsp(src), fsp(dst))
        if s is d:
            return
        if s.dev != dp.dev:
            raise err(errno.EXDEV, fsp(src), fsp(dst))
        if s.kind == 'dir':
            if self._inside(s, dp):
                raise err(errno.EINVAL, fsp(src), fsp(dst))
            if d is not None:
                if d.kind != 'dir':
                    raise err(errno.ENOTDIR, fsp(src), fsp(dst))
                if d.children:
                    raise err(errno.ENOTEMPTY, fsp(src), fsp(dst))
        elif d is not None and d.kind == 'dir':
            raise err(errno.EISDIR, fsp(src), fsp(dst))
        self.mutate('rename', srp, drp)
        del sp.children[sn]
        dp.children[plain(dn)] = s
        s.ctime = self.tick()
        self.touch_m(sp)
        self.touch_m(dp)
        self.after('rename', srp, drp)

    replace = rename

    def _inside(self, anc, n):
        if anc is n:
            return True
        return any(c.kind == 'dir' and self._inside(c, n) for c in anc.children.values())

    def exchange(self, src, dst, olddir=None, newdir=None):
        """renameat2(RENAME_EXCHANGE); returns 0 or -errno"""
        try:
            sp, sn, s, srp = self.walk_to(src, False, dir_fd=olddir)
            dp, dn, d, drp = self.walk_to(dst, False, dir_fd=newdir)
            if s is None or d is None:
                return -errno.ENOENT
            if sp is None or dp is None:
                return -errno.EBUSY
            if s.dev != d.dev or sp.dev != dp.dev:
                return -errno.EXDEV
            if (s.kind == 'dir' and self._inside(s, dp)) or (d.kind == 'dir' and self._inside(d, sp)):
                return -errno.EINVAL
            self.mutate('exchange', srp, drp)
        except OSError as e:
            return -e.errno
        sp.children[sn], dp.children[dn] = d, s
        self.after('exchange', srp, drp)
        return 0

    def symlink(self, target, path, target_is_directory=False, *, dir_fd=None):
        if hasattr(target, '__fspath__'):
            target = target.__fspath__()
        t = target
        if len(t) == 0:
            raise err(errno.ENOENT, '', fsp(path))
        if blen(t) > 4095:
            raise err(errno.ENAMETOOLONG, '', fsp(path))
        if isinstance(t, str) and core.CUR is None and '\0' in t:
            raise ValueError('embedded null byte')
        par, name, n, rp = self.walk_to(path, False, dir_fd=dir_fd)
        if n is not None:
            raise err(errno.EEXIST, '', fsp(path))
        self.mutate('symlink', rp)
        n = Node(self, 'symlink')
        n.target = t
        n.dev = par.dev
        par.children[plain(name)] = n
        self.touch_m(par)
        self.after('symlink', rp)

    def readlink(self, path, *, dir_fd=None):
        n = self.get(path, False, dir_fd)
        if n.kind != 'symlink':
            raise err(errno.EINVAL, fsp(path))
        self.op('readlink', fsp(path))
        return n.target

    def chmod(self, path, mode, *, dir_fd=None, follow_symlinks=True):
        n = self.get(path, follow_symlinks, dir_fd)
        self.mutate('chmod', fsp(path))
        n.mode = mode & 0o7777
        n.ctime = self.tick()

    def chown(self, path, uid, gid, *, dir_fd=None, follow_symlinks=True):
        n = self.get(path, follow_symlinks, dir_fd)
        if uid != -1:
            n.uid = uid
        if gid != -1:
            n.gid = gid
        n.ctime = self.tick()

    def utime(self, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        n = self.get(path, follow_symlinks, dir_fd)
        if ns is not None:
            n.atime, n.mtime = ns[0] / 10**9, ns[1] / 10**9
        elif times is not None:
            n.atime, n.mtime = map(float, times)
        else:
            n.atime = n.mtime = self.tick()
        n.ctime = self.tick()

    def access(self, path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        try:
            n = self.get(path, follow_symlinks, dir_fd)
        except OSError:
            return False
        mode = conc(mode)
        if mode == 0:
            return True
        perm = n.mode
        cls = 6 if n.uid == self.euid else 3 if n.gid in self.egids else 0
        return all(perm // (bit << cls) % 2 == 1 for bit in (1, 2, 4) if mode & bit)

    euid = 1000
    egids = (1000,)

    def getcwd(self):
        if self.cwd_node is not None:
            try:
                st = self._stack_of(self.cwd_node)
            except OSError:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
            return self._join(st)
        return '/'

    def getcwdb(self):
        return self.getcwd().encode()

    def chdir(self, path):
        self.op('chdir', fsp(path))
        n = self.get(path)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, fsp(path))
        self.cwd_node = n

    def fchdir(self, fd):
        self.chdir(fd)

    def umask(self, m):
        o, self.umask_ = self.umask_, m
        return o

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        self.op('open', fsp(path))
        nofollow = flags & os.O_NOFOLLOW
        par, name, n, rp = self.walk_to(path, not nofollow, dir_fd=dir_fd)
        if n is not None and flags & os.O_CREAT and flags & os.O_EXCL:
            raise err(errno.EEXIST, fsp(path))
        acc = flags & 3
        if n is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, fsp(path))
            if par is None:
                raise err(errno.ENOENT, fsp(path))
            self.mutate('create', rp)
            n = Node(self, 'file', mode & ~self.umask_)
            n.dev = par.dev
            par.children[plain(name)] = n
            self.touch_m(par)
            self.after('create', rp)
        if n.kind == 'symlink':
            if not flags & getattr(os, 'O_PATH', 0):
                raise err(errno.ELOOP, fsp(path))
        if n.kind == 'dir' and acc:
            raise err(errno.EISDIR, fsp(path))
        if n.kind != 'dir' and flags & os.O_DIRECTORY:
            raise err(errno.ENOTDIR, fsp(path))
        if flags & os.O_TRUNC and acc:
            self.mutate('truncate', rp)
            n.data = b''
            self.touch_m(n)
            self.after('truncate', rp)
        if n.kind == 'dir':
            return self.newfd(n)
        f = File(self, n, fsp(path), {0: 'rb', 1: 'wb', 2: 'r+b'}[acc])
        f.append = bool(flags & os.O_APPEND)
        return f.fileno()

    def os_close(self, fd):
        h = self.fds.get(fd)
        if h is None:
            if fd < 1000:
                return _real['os.close'](fd)
            raise err(errno.EBADF)
        if isinstance(h, File):
            h.close()
        self.fds.pop(fd, None)

    def os_read(self, fd, n):
        return self.fds[fd].read(n)

    def os_write(self, fd, b):
        if fd < 3:
            return len(b)
        return self.fds[fd].write(b)

    def os_fsync(self, fd): pass

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if opener is not None:
            raise NotImplementedError('opener')
        text = 'b' not in mode
        if isinstance(file, int):
            h = self.fds[file]
            h.text = text
            return h
        self.op('open', fsp(file))
        par, name, n, rp = self.walk_to(file, True)
        m = mode.replace('b', '').replace('t', '')
        if n is not None and 'x' in m:
            raise err(errno.EEXIST, fsp(file))
        if n is None:
            if m[0] == 'r':
                raise err(errno.ENOENT, fsp(file))
            if par is None:
                raise err(errno.ENOENT, fsp(file))
            self.mutate('create', rp)
            n = Node(self, 'file', 0o666 & ~self.umask_)
            n.dev = par.dev
            par.children[plain(name)] = n
            self.touch_m(par)
            self.after('create', rp)
        elif n.kind == 'dir':
            raise err(errno.EISDIR, fsp(file))
        elif m[0] == 'w':
            self.mutate('truncate', rp)
            n.data = b''
            self.touch_m(n)
            self.after('truncate', rp)
        return File(self, n, fsp(file), mode, text, encoding)

    # -------------------------------------------------------------- xattr (pyxattr api)
    @staticmethod
    def _xk(name, namespace):
        if hasattr(name, 'decode') and not isinstance(name, str):
            name = plain(name.decode())
        name = plain(name)
        ns = namespace.decode() if isinstance(namespace, bytes) else namespace
        return ns + '.' + name if ns else name

    def _xn(self, item, nofollow):
        n = self.get(item, not nofollow)
        return n

    def x_get(self, item, name, nofollow=False, namespace=None):
        n = self._xn(item, nofollow)
        k = self._xk(name, namespace)
        self.op('getxattr', fsp(item))
        if k not in n.xattrs:
            raise OSError(errno.ENODATA, os.strerror(errno.ENODATA), fsp(item))
        return n.xattrs[k]

    def x_get_all(self, item, nofollow=False, namespace=None):
        n = self._xn(item, nofollow)
        self.op('listxattr', fsp(item))
        ns = namespace.decode() if isinstance(namespace, bytes) else namespace
        out = []
        for k, v in n.xattrs.items():
            if ns is None:
                out.append((k.encode(), v))
            elif k.startswith(ns + '.'):
                out.append((k[len(ns) + 1:].encode(), v))
        return out

    def x_list(self, item, nofollow=False, namespace=None):
        return [k for k, v in self.x_get_all(item, nofollow, namespace)]

    def x_set(self, item, name, value, flags=0, nofollow=False, namespace=None):
        n = self._xn(item, nofollow)
        k = self._xk(name, namespace)
        if n.kind == 'symlink' and k.startswith('user.'):
            raise err(errno.EPERM, fsp(item))
        if isinstance(value, str):
            value = value.encode()
        if not isinstance(value, bytes):
            raise TypeError('a bytes-like object is required')
        if flags == 1 and k in n.xattrs:
            raise err(errno.EEXIST, fsp(item))
        if flags == 2 and k not in n.xattrs:
            raise OSError(errno.ENODATA, os.strerror(errno.ENODATA), fsp(item))
        self.mutate('setxattr', fsp(item), k)
        n.xattrs[k] = value
        n.ctime = self.tick()
        self.after('setxattr', fsp(item), k)

    def x_remove(self, item, name, nofollow=False, namespace=None):
        n = self._xn(item, nofollow)
        k = self._xk(name, namespace)
        if k not in n.xattrs:
            raise OSError(errno.ENODATA, os.strerror(errno.ENODATA), fsp(item))
        self.mutate('removexattr', fsp(item), k)
        del n.xattrs[k]
        n.ctime = self.tick()
        self.after('removexattr', fsp(item), k)

    # os.*xattr
    def o_getxattr(self, path, attribute, *, follow_symlinks=True):
        return self.x_get(path, attribute, not follow_symlinks)

    def o_setxattr(self, path, attribute, value, flags=0, *, follow_symlinks=True):
        return self.x_set(path, attribute, value, flags, not follow_symlinks)

    def o_listxattr(self, path=None, *, follow_symlinks=True):
        return [k.decode() for k in self.x_list(path, not follow_symlinks)]

    def o_removexattr(self, path, attribute, *, follow_symlinks=True):
        return self.x_remove(path, attribute, not follow_symlinks)

    def syscall(self, nr, *a):
        """libc.syscall stand-in: only renameat2"""
        import ctypes
        if nr != 316:
            raise RuntimeError('unexpected syscall %r' % (nr,))
        ofd, op, nfd, np, flags = a
        v = lambda x: getattr(x, 'value', x)
        ofd, op, nfd, np, flags = map(v, (ofd, op, nfd, np, flags))
        if flags != 2:
            raise RuntimeError('renameat2 flags %r' % flags)
        rel = lambda fd: None if fd == -100 else fd
        try:
            for fd, p in ((ofd, op), (nfd, np)):
                # a relative path is looked up below the directory the descriptor refers to
                if not os.fsdecode(p).startswith('/') and fd != -100:
                    h = self.fds.get(fd)
                    if h is None:
                        raise err(errno.EBADF)
        except OSError as e:
            ctypes.set_errno(e.errno)
            return -1
        r = self.exchange(op, np, rel(ofd), rel(nfd))
        if r:
            ctypes.set_errno(-r)
            return -1
        return 0

    # -------------------------------------------------------------- patching
    def install(self):
        self._saved = []

        def patch(mod, name, val):
            if hasattr(mod, name):
                self._saved.append((mod, name, getattr(mod, name)))
                setattr(mod, name, val)
        _real.setdefault('os.close', os.close)

        def refuse(name):
            def f(*a, **k):
                if core.CUR is not None:
                    core.CUR.abort('os.%s is not modelled' % name)
                raise NotImplementedError('os.%s is not modelled' % name)
            return f
        table = dict(stat=self.stat, lstat=self.lstat, fstat=self.fstat, listdir=self.listdir, scandir=self.scandir,
                     mkdir=self.mkdir, makedirs=self.makedirs, rmdir=self.rmdir, unlink=self.unlink,
                     remove=self.unlink, rename=self.rename, replace=self.replace, symlink=self.symlink,
                     readlink=self.readlink, chmod=self.chmod, chown=self.chown, utime=self.utime,
                     access=self.access, getcwd=self.getcwd, getcwdb=self.getcwdb, chdir=self.chdir,
                     fchdir=self.fchdir, umask=self.umask, open=self.os_open, close=self.os_close,
                     read=self.os_read, write=self.os_write, fsync=self.os_fsync,
                     getxattr=self.o_getxattr, setxattr=self.o_setxattr, listxattr=self.o_listxattr,
                     removexattr=self.o_removexattr)
        for n, f in table.items():
            patch(os, n, f)
        for n in ('link', 'mkfifo', 'mknod', 'truncate', 'ftruncate', 'sendfile', 'copy_file_range', 'removedirs',
                  'renames', 'chroot', 'lchown', 'fchown', 'fchmod', 'statvfs', 'pread', 'pwrite', 'lseek', 'system',
                  'execv', 'execve', 'fork', 'posix_spawn', 'kill', 'killpg', 'setuid', 'mount', 'popen'):
            patch(os, n, refuse(n))
        patch(io, 'open', self.open)
        patch(builtins, 'open', self.open)
        import shutil
        patch(shutil, '_USE_CP_SENDFILE', False)
        patch(shutil, '_use_fd_functions', False)
        patch(shutil, 'copyfile', self._copyfile)
        import subprocess
        patch(subprocess, 'Popen', refuse('subprocess.Popen'))
        if 'xattr' in sys.modules:
            xa = sys.modules['xattr']
            for n, f in (('get', self.x_get), ('get_all', self.x_get_all), ('set', self.x_set),
                         ('remove', self.x_remove), ('list', self.x_list)):
                patch(xa, n, f)
        # every C library handle or function pointer held by the code under test
        import ctypes
        for mn, mod in list(sys.modules.items()):
            if mn.split('.')[0] != 'augpathlib' or mod is None:
                continue
            for n, v in list(vars(mod).items()):
                if isinstance(v, ctypes.CDLL):
                    patch(mod, n, _LibC(self))
                elif isinstance(v, ctypes._CFuncPtr):
                    patch(mod, n, getattr(_LibC(self), v.__name__, None) or refuse('C function ' + v.__name__))
        patch(ctypes, 'CDLL', lambda *a, **k: _LibC(self))
        return self

    def _copyfile(self, src, dst, *, follow_symlinks=True):
        import shutil
        s = self.get(src, follow_symlinks)
        try:
            d = self.get(dst, True)
        except OSError:
            d = None
        if s is d:
            raise shutil.SameFileError('%r and %r are the same file' % (src, dst))
        if not follow_symlinks and s.kind == 'symlink':
            self.symlink(s.target, dst)
            return dst
        with self.open(src, 'rb') as f, self.open(dst, 'wb') as g:
            g.write(f.read())
        return dst

    def uninstall(self):
        for mod, name, val in reversed(self._saved):
            setattr(mod, name, val)
        self._saved = []


class _LibC:
    def __init__(self, fs):
        def syscall(*a):
            return fs.syscall(*a)

        def renameat2(ofd, op, nfd, np, flags):
            return fs.syscall(316, ofd, op, nfd, np, flags)
        self.syscall, self.renameat2 = syscall, renameat2


_ACTIVE = None


def attach(ctx, run):
    """give the context a fresh model file system for the duration of its execution"""
    global _ACTIVE
    fs = ModelFS()
    ctx.fs = fs
    if run is None:
        fs.install()
        return fs
    _redirect_stat()
    inner = ctx.execute

    def execute(fn):
        fs.install()
        try:
            return inner(fn)
        finally:
            fs.uninstall()
    ctx.execute = execute
    return fs


_done = False


def _redirect_stat():
    global _done
    if _done:
        return
    _done = True
    from . import rt
    for name, bits in (('S_ISDIR', S_IFDIR), ('S_ISREG', S_IFREG), ('S_ISLNK', S_IFLNK), ('S_ISFIFO', S_IFIFO),
                       ('S_ISSOCK', 0o140000), ('S_ISBLK', 0o060000), ('S_ISCHR', 0o020000)):
        def f(mode, bits=bits):
            return (mode & 0o170000) == bits
        rt.redirect(getattr(_stat, name), f)
    rt.redirect(_stat.S_IMODE, lambda m: m & 0o7777)
    rt.redirect(_stat.S_IFMT, lambda m: m & 0o170000)
    import shutil
    rt.allow(shutil.copy, shutil.copy2, shutil.copyfileobj, shutil.copyfile, shutil.move)
