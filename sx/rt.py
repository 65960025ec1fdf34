"""Runtime of the instrumented code: every call, subscript, `in`, f-string and binary operator of the
code under test goes through here."""
import builtins
import types
import sys
from . import core
from .values import (SymInt, int_to_oct, SymReal, SymStr, SymBytes, _Seq, conc_int, deep_conc, has_sym, is_sym, cv, mk,
                     int_to_str, str_to_int, cat, to_str, str_mod, sym_subclass, br, brb, pick, shadow)

_FT = types.FunctionType
_BT = types.BuiltinFunctionType
_MT = types.MethodType

INSTRUMENTED = set()      # module names whose functions are instrumented
TABLE = {}                # id(callable) -> replacement (only consulted for builtins / classes / functions)
_keep = []
DIRECT_MODULES = ('sx.', 'props.', 'verif')   # machinery


def redirect(f, g):
    _keep.append(f)
    TABLE[id(f)] = g


def name_of(f):
    return getattr(f, '__module__', '?'), getattr(f, '__qualname__', repr(f))


# ------------------------------------------------------------------ entry points used by the transformer

def enter(name):
    r = core.CUR
    if r is not None:
        r.funcs.add(name)
        r.tick()


def tick():
    r = core.CUR
    if r is not None:
        r.tick()


def call(f, *a, **k):
    if core.CUR is None:
        return sx_intern(*a) if f is sys.intern else f(*a, **k)
    g = TABLE.get(id(f))
    if g is not None:
        return g(*a, **k)
    t = type(f)
    if t is _FT:
        if f.__module__ in INSTRUMENTED or _machinery(f):
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            return opaque(f, a, k)
        return f(*a, **k)
    if t is _MT:
        fn = f.__func__
        g = TABLE.get(id(fn))
        if g is not None:
            return g(f.__self__, *a, **k)
        if type(fn) is _FT and (fn.__module__ in INSTRUMENTED or _machinery(fn)):
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            return opaque(f, a, k)
        return f(*a, **k)
    if t is _BT:
        return call_builtin(f, a, k)
    if isinstance(f, type):
        return call_class(f, a, k)
    if t in (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType):
        # str.join('x', ...) and friends
        if a and isinstance(a[0], _Seq):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and has_sym(a[1:]) and isinstance(a[0], (str, bytes)) and f.__objclass__ in (str, bytes):
            cls = SymStr if isinstance(a[0], str) else SymBytes
            return getattr(cls.lift(a[0]), f.__name__)(*a[1:], **k)
        return f(*a, **k)
    if t is types.MethodWrapperType:
        if is_sym(f.__self__):
            return base_method(f, a, k)
        return f(*a, **k)
    return f(*a, **k)


def _machinery(f):
    m = f.__module__ or ''
    return m.startswith(DIRECT_MODULES) or getattr(f, '__sx__', False)


ALLOW = set()   # ids of uninstrumented functions that treat symbolic values generically


def allow(*fs):
    for f in fs:
        _keep.append(f)
        ALLOW.add(id(f))


def opaque(f, a, k):
    if id(f) in ALLOW:
        return f(*a, **k)
    return f(*[deep_conc(x) for x in a], **{n: deep_conc(v) for n, v in k.items()})


def base_method(f, a, k):
    """a C method of int/str/bytes reached through super() with a symbolic receiver"""
    s = f.__self__
    cls = SymInt if isinstance(s, SymInt) else SymReal if isinstance(s, SymReal) else \
        SymStr if isinstance(s, SymStr) else SymBytes
    if f.__name__ in ('__init__', '__init_subclass__', '__setattr__', '__getattribute__'):
        return f(*a, **k)
    return getattr(cls, f.__name__)(s, *a, **k)


_CONTAINERS = (list, dict, set, tuple, frozenset)


def call_builtin(f, a, k):
    s = f.__self__
    if s is None or isinstance(s, types.ModuleType):
        if id(f) in ALLOW:
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            return opaque(f, a, k)
        return f(*a, **k)
    ts = type(s)
    if isinstance(s, _Seq) or isinstance(s, (SymInt, SymReal)):
        return base_method(f, a, k)
    if isinstance(s, (str, bytes)):
        if has_sym(a, 2) or f.__name__ == 'join':
            cls = SymStr if isinstance(s, str) else SymBytes
            if f.__name__ == 'join':
                xs = list(a[0])
                if any(isinstance(x, _Seq) for x in xs):
                    return cls.lift(s).join(xs)
                return f(xs)
            if f.__name__ == 'format':
                return opaque(f, a, k)
            return getattr(cls.lift(s), f.__name__)(*a, **k)
        return f(*a, **k)
    if isinstance(s, dict):
        n = f.__name__
        if n in ('get', 'pop', 'setdefault', '__getitem__', '__contains__') and a and is_sym(a[0]):
            a = (find_key(s, a[0]),) + tuple(a[1:])
        return f(*a, **k)
    if isinstance(s, (set, frozenset)):
        return f(*a, **k)
    if isinstance(s, bytearray):
        if has_sym(a):
            return f(*deep_conc(a), **k)
        return f(*a, **k)
    if isinstance(s, type):
        # alternate constructors implemented in C / __new__
        if f.__name__ == '__new__':
            return call_new(f, a, k)
        if f.__name__ == 'fromhex' and s is bytes:
            return SymBytes.fromhex(*a)
        if f.__name__ == 'from_bytes' and s is int and a and isinstance(a[0], SymBytes) and not k and a[1:] == ('big',):
            n = 0
            for i in range(len(a[0])):
                n = n * 256 + a[0][i]
            return n
        if has_sym(a) or has_sym(k):
            return opaque(f, a, k)
        return f(*a, **k)
    if ts.__module__ in ('builtins', 'collections', 'itertools', '_collections', '_thread', 'types'):
        return f(*a, **k)
    if has_sym(a) or has_sym(k):
        return opaque(f, a, k)
    return f(*a, **k)


def call_new(f, a, k):
    base = f.__self__
    if base is int and len(a) >= 2 and isinstance(a[1], SymInt):
        cls = a[0]
        if cls is int:
            return a[1]
        return sym_subclass(cls)._make(cv(a[1]), a[1].e)
    if base in (int, str, bytes, float) and len(a) >= 2 and has_sym(a[1:]):
        if a[0] is base:
            return call(base, *a[1:], **k)
        return f(a[0], *deep_conc(a[1:]), **k)
    return f(*a, **k)


def call_class(f, a, k):
    if f.__module__ in INSTRUMENTED or f.__module__.startswith(DIRECT_MODULES):
        if a and issubclass(f, int) and isinstance(a[0], SymInt) and len(a) == 1:
            nw = f.__new__
            if nw is int.__new__:
                o = sym_subclass(f)._make(cv(a[0]), a[0].e)
                if f.__init__ is not int.__init__ and f.__init__ is not object.__init__:
                    o.__init__(*a, **k)
                return o
        if issubclass(f, (str, bytes)) and has_sym(a):
            return f(*deep_conc(a), **deep_conc(k))
        return f(*a, **k)
    if issubclass(f, BaseException) or f in _CONTAINERS_OK:
        return f(*a, **k)
    if has_sym(a) or has_sym(k):
        return opaque(f, a, k)
    return f(*a, **k)


_CONTAINERS_OK = {list, dict, tuple, set, frozenset, enumerate, zip, reversed, slice, object, property,
                  staticmethod, classmethod, super}
import collections
import functools
_CONTAINERS_OK |= {collections.deque, collections.defaultdict, collections.OrderedDict, collections.Counter,
                   types.SimpleNamespace, functools.partial}


def find_key(d, key):
    """the key of d equal to a symbolic key (forks per key), else the key itself"""
    if isinstance(key, (_Seq, SymInt)):
        for kk in list(d):
            if isinstance(kk, (str, bytes, int)) and not isinstance(kk, bool) and type(kk) in (
                    str, bytes, int, SymInt, SymStr, SymBytes):
                if isinstance(kk, str) != isinstance(key, str) or isinstance(kk, bytes) != isinstance(key, bytes):
                    continue
                if key == kk:
                    return kk
        return _MISSING_KEY if not any(is_sym(x) for x in d) else key
    return key


class _Missing:
    def __repr__(self): return '<symbolic key not present>'


_MISSING_KEY = _Missing()


def getitem(o, i):
    if core.CUR is None:
        return o[i]
    if is_sym(i):
        if isinstance(o, dict):
            kk = find_key(o, i)
            if kk is _MISSING_KEY:
                if hasattr(type(o), '__missing__'):
                    return o[deep_conc(i)]
                raise KeyError(i)
            return o[kk]
        if isinstance(o, (str, bytes, list, tuple)) and isinstance(i, SymInt):
            n = len(o)
            if not (-n <= i and i < n):
                raise IndexError('index out of range')
            return o[conc_branch(i)]
        return o[i] if type(o).__module__ in INSTRUMENTED else o[deep_conc(i)]
    if type(i) is slice and has_sym(i, 1):
        if isinstance(o, (str, bytes, list, tuple, _Seq)):
            n = len(o)
            i = slice(_clamp(i.start, n), _clamp(i.stop, n), conc_int(i.step))
        else:
            i = slice(conc_int(i.start), conc_int(i.stop), conc_int(i.step))
    return o[i]


def _clamp(x, n):
    """slice bound of a sequence of length n: at most 2n+2 different behaviours"""
    if not isinstance(x, SymInt):
        return x
    if x >= n:
        return n
    if x < 0:
        if x <= -n:
            return 0
        return conc_branch(x)
    return conc_branch(x)


def conc_branch(x):
    """a value from a small range: enumerated by branching, not counted as concretisation"""
    c = cv(x)
    pick(x.e == c)
    return c


def cidx(i):
    if isinstance(i, SymInt):
        return i
    return i


def contains(x, c):
    """x in c"""
    if core.CUR is None:
        return x in c
    if is_sym(x):
        if isinstance(c, (str, bytes)):
            cls = SymStr if isinstance(c, str) else SymBytes
            return cls.lift(c).__contains__(x)
        if isinstance(c, (dict, set, frozenset, type({}.keys()))):
            for kk in list(c):
                if isinstance(kk, (str, bytes, int)) and x == kk:
                    return True
            return False
        if isinstance(c, range):
            if c.step == 1:
                return x >= c.start and x < c.stop
    return x in c


def notcontains(x, c):
    return not contains(x, c)


def fstr(*parts):
    """parts: str | (value, conversion, spec)"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if core.CUR is None:
            if conv == 114: v = repr(v)
            elif conv == 115: v = str(v)
            elif conv == 97: v = ascii(v)
            out.append(format(v, spec))
            continue
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            v = ascii(deep_conc(v))
        if isinstance(v, SymStr):
            out.append(v if spec in ('', 's') else v.__format__(spec))
        elif isinstance(v, (SymInt, SymReal)):
            out.append(v.__format__(deep_conc(spec)))
        elif spec == '' and type(v).__format__ is object.__format__:
            out.append(sx_str(v))
        else:
            t = type(v)
            if t in (list, tuple, dict, set):
                out.append(sx_str(v))
            else:
                out.append(v.__format__(spec) if spec == '' and hasattr(t, '_sx_conc') else format(v, deep_conc(spec)))
    for p in out:
        if isinstance(p, SymStr):
            return cat(out)
    return ''.join(out)


def fmsg(*parts):
    """text that only reaches a log or an exception message: concrete, nothing is recorded"""
    r, core.CUR = core.CUR, None
    try:
        return fstr(*[p if isinstance(p, str) else (shadow(p[0]), p[1], shadow(p[2])) for p in parts])
    finally:
        core.CUR = r


def fmod(a, b):
    if core.CUR is not None and isinstance(a, (str, bytes)) and (has_sym(b) or isinstance(a, _Seq)):
        return str_mod(a, b)
    return a % b


def floatop(op, a, b):
    """binary operator with a plain float (or other C number) on the left"""
    if type(a) is float and isinstance(b, (SymInt, SymReal)):
        a = SymReal.of(a)
    return op(a, b)


# ------------------------------------------------------------------ builtins

def sx_repr(x, depth=5):
    t = type(x)
    if is_sym(x):
        return x.__repr__()
    if depth and t in (list, tuple, dict, set) and has_sym(x):
        if t is dict:
            ps = []
            for i, (k, v) in enumerate(x.items()):
                ps += [', '] * bool(i) + [sx_repr(k, depth - 1), ': ', sx_repr(v, depth - 1)]
            return cat(['{'] + ps + ['}'])
        ps = []
        for i, v in enumerate(x):
            ps += [', '] * bool(i) + [sx_repr(v, depth - 1)]
        o, c = {list: '[]', tuple: '()', set: '{}'}[t]
        if t is tuple and len(x) == 1:
            c = ',' + c
        return cat([o] + ps + [c])
    r = type(x).__repr__(x) if not isinstance(x, type) else repr(x)
    return r


def sx_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        if isinstance(x, (SymBytes,)):
            return x.decode(*a[1:], **k)
        return str(*deep_conc(a), **k)
    if isinstance(x, (SymStr,)):
        return x
    if is_sym(x):
        return x.__str__()
    if type(x) in (list, tuple, dict, set):
        return sx_repr(x)
    if isinstance(x, BaseException) and len(x.args) == 1 and type(x).__str__ in (
            BaseException.__str__, Exception.__str__) and is_sym(x.args[0]):
        return sx_str(x.args[0])
    return str(x)


def sx_int(*a, **k):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, _Seq):
            return str_to_int(x, *a[1:], **k)
        if isinstance(x, SymInt):
            return mk(x.e, cv(x))
        if isinstance(x, SymReal):
            return x.__int__()
        return int(*deep_conc(a), **k)
    if a and not isinstance(a[0], (int, str, bytes, float)) and hasattr(type(a[0]), '__int__'):
        return a[0].__int__()
    return int(*a, **k)


def sx_float(*a):
    if a and isinstance(a[0], (SymInt, SymReal)):
        return SymReal.of(a[0])
    return float(*deep_conc(a))


def sx_bool(*a):
    return bool(*a)


def sx_bytes(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, SymStr):
            return x.encode(*a[1:], **k)
        if isinstance(x, SymInt):
            return bytes(conc_branch(x))
        if hasattr(type(x), '__bytes__') and not isinstance(x, (bytes, bytearray)):
            return x.__bytes__()
        if isinstance(x, (list, tuple)) and has_sym(x):
            from .values import ex
            return SymBytes.build([y if type(y) is int else ex(y) for y in x], [cv(y) for y in x])
        if hasattr(x, '__iter__') and not isinstance(x, (bytes, bytearray, str, list, tuple)):
            return sx_bytes(list(x))
    return bytes(*a, **k)


def sx_len(x):
    f = getattr(type(x), '_sx_len', None)
    if f is not None:
        return f(x)
    return len(x)


def sx_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if isinstance(x, SymInt) or isinstance(x, _Seq):
            return t._base
        if t is SymReal:
            return float
        b = getattr(t, '_sx_type', None)
        return b or t
    return type(*a, **k)


class SymRange:
    """range() with symbolic bounds: each step forks on the bound"""

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        if self.s > 0:
            while i < self.b:
                tick()
                yield i
                i = i + self.s
        else:
            while i > self.b:
                tick()
                yield i
                i = i + self.s

    def __len__(self):
        return sum(1 for _ in self)

    def __contains__(self, x):
        return self.a <= x < self.b if self.s == 1 else any(x == y for y in self)

    def __getitem__(self, i):
        return list(self)[i]


def sx_range(*a):
    if has_sym(a):
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], conc_int(a[2]) if len(a) > 2 else 1)
    return range(*a)


def sx_ord(x):
    if isinstance(x, _Seq):
        if len(x.c) != 1:
            raise TypeError('ord() expected a character')
        return mk(x.c[0], x.k[0]) if not isinstance(x.c[0], int) else x.c[0]
    return ord(x)


def sx_chr(x):
    if isinstance(x, SymInt):
        if not (x >= 0 and x <= 0x10FFFF):
            raise ValueError('chr() arg not in range(0x110000)')
        return SymStr.build([x.e], [cv(x)])
    return chr(x)


def sx_hash(x):
    return hash(x)


def sx_divmod(a, b):
    return divmod(a, b)


def sx_format(v, spec=''):
    return fstr((v, -1, spec))


def sx_map(f, *its):
    for args in zip(*its):
        yield call(f, *args)


def sx_filter(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


def _wrapkey(k):
    f = k.get('key')
    if f is not None:
        k = dict(k)
        k['key'] = lambda x: call(f, x)
    return k


def sx_sorted(it, **k):
    return sorted(it, **_wrapkey(k))


def sx_min(*a, **k):
    return min(*a, **_wrapkey(k))


def sx_max(*a, **k):
    return max(*a, **_wrapkey(k))


def sx_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def sx_any(it):
    for x in it:
        if x:
            return True
    return False


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


def sx_hex(x):
    return hex(conc_int(x))


def sx_isinstance(x, c):
    return isinstance(x, c)


def sx_fspath(p):
    if isinstance(p, (str, bytes)):
        return p
    f = getattr(type(p), '__fspath__', None)
    if f is None:
        raise TypeError('expected str, bytes or os.PathLike object, not ' + type(p).__name__)
    return f(p)


def sx_intern(s):
    return s if isinstance(s, SymStr) else sys.intern(s)


def sx_print(*a, **k):
    pass


def sx_breakpoint(*a, **k):
    pass


def sx_getattr(o, n, *d):
    if isinstance(n, SymStr):
        if hasattr(type(o), '__getattr__') or type(type(o)).__module__ != 'builtins':
            return getattr(o, deep_conc(n), *d)
        for m in dir(o):
            if n == m:
                return getattr(o, m, *d)
        if d:
            return d[0]
        raise AttributeError('%r has no attribute' % type(o).__name__)
    return getattr(o, n, *d)


def sx_hasattr(o, n):
    if isinstance(n, SymStr):
        try:
            sx_getattr(o, n)
        except AttributeError:
            return False
        return True
    return hasattr(o, n)


def sx_struct_unpack(fmt, buf):
    import struct
    if isinstance(buf, SymBytes):
        n = struct.calcsize(fmt)
        if len(buf.c) != n:
            raise struct.error('unpack requires a buffer of %d bytes' % n)
        return struct.unpack(fmt, buf.conc())
    return struct.unpack(fmt, buf)


def sx_abs(x):
    return abs(x)


def sx_pow(*a):
    return pow(*a)


def sx_round(x, n=None):
    if isinstance(x, (SymInt, SymReal)):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def sx_next(*a):
    return next(*a)


def install():
    import os
    import struct
    for f, g in ((str, sx_str), (int, sx_int), (float, sx_float), (bytes, sx_bytes), (len, sx_len),
                 (type, sx_type), (range, sx_range), (ord, sx_ord), (chr, sx_chr), (repr, sx_repr),
                 (format, sx_format), (map, sx_map), (filter, sx_filter), (sorted, sx_sorted), (min, sx_min),
                 (max, sx_max), (sum, sx_sum), (any, sx_any), (all, sx_all), (hex, sx_hex), (oct, int_to_oct),
                 (os.fspath, sx_fspath), (sys.intern, sx_intern), (print, sx_print),
                 (breakpoint, sx_breakpoint), (struct.unpack, sx_struct_unpack), (round, sx_round),
                 (getattr, sx_getattr), (hasattr, sx_hasattr)):
        redirect(f, g)
    allow(isinstance, issubclass, setattr, next, iter, id, callable, abs, divmod, pow, hash,
          delattr)
    import functools, copy, operator, itertools, collections
    allow(functools.reduce, copy.copy, copy.deepcopy)
    for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'add', 'sub', 'mul', 'and_', 'or_', 'not_', 'truth', 'is_', 'is_not'):
        allow(getattr(operator, n))
