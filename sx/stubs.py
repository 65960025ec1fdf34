"""Environment stubs shared by all harnesses."""
import logging
import pickle
from . import rt


class PickleBox(bytes):
    """model of a pickle blob: an opaque value that loads() turns back into an equal structure"""
    def __new__(cls, payload):
        o = bytes.__new__(cls, b'<pickle>')
        o.payload = payload
        return o


def _copy(x):
    t = type(x)
    if t in (list, tuple, set, frozenset):
        return t(_copy(y) for y in x)
    if t is dict:
        return {_copy(k): _copy(v) for k, v in x.items()}
    return x


def dumps(x, *a, **k):
    import copy
    if rt.has_sym(x):
        return PickleBox(_copy(x))
    if type(x).__module__ in rt.INSTRUMENTED:
        return PickleBox(copy.deepcopy(x))
    return pickle.dumps(x, *a, **k)


def loads(b, *a, **k):
    if isinstance(b, PickleBox):
        import copy
        return copy.deepcopy(b.payload) if type(b.payload).__module__ in rt.INSTRUMENTED else _copy(b.payload)
    return pickle.loads(b, *a, **k)


def _nop(*a, **k):
    return None


def norm_path(path):
    """pure python posix._path_normpath"""
    dot, dotdot, sep = '.', '..', '/'
    if len(path) == 0:
        return dot
    import posixpath
    _, root, rest = rt.call(posixpath.splitroot, path)
    new = []
    for comp in rest.split(sep):
        if comp == '' or comp == dot:
            continue
        if comp != dotdot or (not root and not new) or (new and new[-1] == dotdot):
            new.append(comp)
        elif new:
            new.pop()
    from .values import cat
    parts = [root]
    for i, c in enumerate(new):
        if i:
            parts.append(sep)
        parts.append(c)
    r = cat(parts)
    return r if len(r) else dot


def fsencode(p):
    p = rt.sx_fspath(p)
    return p.encode('utf-8', 'surrogateescape') if isinstance(p, str) else p


def fsdecode(p):
    p = rt.sx_fspath(p)
    return p.decode('utf-8', 'surrogateescape') if isinstance(p, bytes) else p


class MemIO:
    """io.BytesIO over possibly symbolic bytes"""
    __sx__ = True

    def __init__(self, initial_bytes=b''):
        self._b = initial_bytes
        self._p = 0
        self.closed = False

    def read(self, n=-1):
        if n is None or n < 0:
            out = self._b[self._p:]
        else:
            out = rt.getitem(self._b, slice(self._p, self._p + n))
        self._p += len(out)
        return out

    read1 = read

    def write(self, b):
        if self._p > len(self._b):
            self._b = self._b + b'\0' * (self._p - len(self._b))
        self._b = self._b[:self._p] + b + self._b[self._p + len(b):]
        self._p += len(b)
        return len(b)

    def getvalue(self): return self._b
    getbuffer = getvalue
    def tell(self): return self._p

    def seek(self, off, whence=0):
        from .modelfs import conc_small
        p = off if whence == 0 else self._p + off if whence == 1 else len(self._b) + off
        if p < 0:
            if whence == 0:
                raise ValueError('negative seek value')
            p = 0
        self._p = conc_small(p)
        return self._p

    def truncate(self, n=None):
        n = self._p if n is None else n
        self._b = self._b[:n]
        return n

    def readline(self):
        i = self._b.find(b'\n', self._p)
        return self.read(-1 if i < 0 else i + 1 - self._p)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def close(self): self.closed = True
    def flush(self): pass
    def readable(self): return True
    writable = seekable = readable
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class SymHash:
    """a hash function as an injective function of its input: the digest spells out algorithm, length and data"""
    __sx__ = True

    def __init__(self, real, data=b'', **k):
        h = real()
        self.name, self.digest_size, self.block_size = h.name, h.digest_size, h.block_size
        self._tag = self.name + repr(sorted(k.items())) if k.keys() - {'usedforsecurity'} else self.name
        self._d = []
        if len(data):
            self.update(data)

    def update(self, data):
        if isinstance(data, str):
            raise TypeError('Strings must be encoded before hashing')
        if not isinstance(data, bytes):
            data = bytes(data)
        self._d.append(data)

    def digest(self):
        data = b''
        for d in self._d:
            data = data + d
        return (self._tag + ':%d:' % len(data)).encode() + data

    def hexdigest(self): return self.digest().hex()

    def copy(self):
        h = SymHash.__new__(SymHash)
        h.__dict__.update(self.__dict__, _d=list(self._d))
        return h


def _hashes():
    import hashlib
    for n in hashlib.algorithms_guaranteed:
        if n.startswith('shake'):
            continue
        f = getattr(hashlib, n)

        def g(*a, _f=f, **k):
            return SymHash(_f, *[x for x in a], **k)
        g.__sx__ = True
        rt.redirect(f, g)

    def new(name, data=b'', **k):
        return SymHash(getattr(hashlib, name), data, **k)
    rt.redirect(hashlib.new, new)


def quote(s):
    """shlex.quote"""
    import shlex
    if not rt.has_sym(s):
        return shlex.quote(s)
    for c in s:
        if not ('a' <= c <= 'z' or 'A' <= c <= 'Z' or '+' <= c <= ':' or c == '_' or c == '@' or c == '%' or c == '='):
            return "'" + s.replace("'", "'\"'\"'") + "'"
    return s


def install():
    import io
    import shlex
    import posix
    import os
    rt.redirect(io.BytesIO, MemIO)
    _hashes()
    rt.redirect(pickle.dumps, dumps)
    rt.redirect(pickle.loads, loads)
    rt.redirect(posix._path_normpath, norm_path)
    rt.redirect(shlex.quote, quote)
    rt.redirect(os.fsencode, fsencode)
    rt.redirect(os.fsdecode, fsdecode)
    for n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log'):
        rt.redirect(getattr(logging.Logger, n), _nop)


def install_concrete():
    pass
