"""Symbolic values: Python objects carrying a concrete shadow and a z3 term.

Comparisons fork immediately (they record a branch and return a real bool)."""
import builtins
import sys
import z3
from . import core

I = z3.IntVal
_int, _str, _bytes = int, str, bytes


def site(depth=2):
    f = sys._getframe(depth)
    here = (__file__, _RT_FILE)
    while f is not None and (f.f_code.co_filename in here):
        f = f.f_back
    if f is None:
        return '?'
    return '%s:%d' % (f.f_code.co_filename.rsplit('/', 1)[-1], f.f_lineno)


_RT_FILE = __file__.replace('values.py', 'rt.py')


def br(e, conc, kind='branch'):
    r = core.CUR
    if r is None:
        return conc
    return r.branch(e, conc, kind, site(3))


def pick(e, kind='branch'):
    r = core.CUR
    if r is not None and e is not True:
        r.pick(e, kind, site(3))


# ---------------------------------------------------------------- integers

def ex(x):
    """z3 term of an int-like"""
    if isinstance(x, SymInt):
        return x.e
    return I(_int(x))


def cv(x):
    return _int.__int__(x) if isinstance(x, SymInt) else x


def mk(e, conc, cls=None):
    if isinstance(e, z3.IntNumRef):
        return e.as_long() if cls is None else cls._plain(e.as_long())
    e = z3.simplify(e) if False else e
    return (cls or SymInt)._make(conc, e)


class SymInt(int):
    _base = int

    @classmethod
    def _make(cls, conc, e):
        o = _int.__new__(cls, conc)
        o.e = e
        return o

    @classmethod
    def _plain(cls, v):
        return v

    __class__ = property(lambda self: self._base)

    def _bin(self, o, f, g, rev=False):
        if isinstance(o, SymReal):
            return NotImplemented
        if isinstance(o, float):
            return NotImplemented
        if not isinstance(o, _int):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        conc = g(cv(a) if not isinstance(a, bool) else _int(a), cv(b) if not isinstance(b, bool) else _int(b))
        return mk(f(ex(a), ex(b)), conc)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, _int.__add__)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, _int.__add__, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, _int.__sub__)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, _int.__sub__, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * conc_int(self)
        return self._bin(o, lambda a, b: a * b, _int.__mul__)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * conc_int(self)
        return self._bin(o, lambda a, b: a * b, _int.__mul__, True)

    def __neg__(self): return mk(-self.e, -cv(self))
    def __pos__(self): return self
    def __abs__(self): return -self if self < 0 else +self
    def __invert__(self): return mk(-self.e - 1, ~cv(self))

    def _divmod(self, o):
        if isinstance(o, SymInt):
            o = conc_int(o)
        if not isinstance(o, _int):
            return None
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        a, c = self.e, cv(self)
        if o < 0:
            a, c, m = -a, -c, -o
            q = mk(a / I(m), c // m)
            r = mk(-(a % I(m)), -(c % m))
            return q, r
        if o == 1:
            return self, 0
        return mk(a / I(o), c // o), mk(a % I(o), c % o)

    def __floordiv__(self, o):
        if isinstance(o, float) or not isinstance(o, _int):
            return NotImplemented
        return self._divmod(o)[0]

    def __mod__(self, o):
        if isinstance(o, float) or not isinstance(o, _int):
            return NotImplemented
        return self._divmod(o)[1]

    def __divmod__(self, o):
        if isinstance(o, float) or not isinstance(o, _int):
            return NotImplemented
        return self._divmod(o)

    def __rfloordiv__(self, o): return _int.__floordiv__(o, conc_int(self))
    def __rmod__(self, o): return _int.__mod__(o, conc_int(self))
    def __rdivmod__(self, o): return divmod(o, conc_int(self))

    def __truediv__(self, o):
        return SymReal.of(self) / o

    def __rtruediv__(self, o):
        return SymReal.of(o) / self if not isinstance(o, float) else o / SymReal.of(self)

    def __float__(self): return _int.__float__(_int(conc_int(self)))

    def __pow__(self, o, m=None):
        return pow(conc_int(self), conc_int(o) if isinstance(o, SymInt) else o, m)

    def __rpow__(self, o, m=None):
        return pow(o, conc_int(self), m)

    def __lshift__(self, o):
        o = conc_int(o)
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << conc_int(self)

    def __rshift__(self, o):
        o = conc_int(o)
        return self // (1 << o)

    def __rrshift__(self, o):
        return o >> conc_int(self)

    def __and__(self, o):
        if isinstance(o, SymInt):
            # single-bit masks that are themselves concrete per path
            o = conc_int(o)
        if not isinstance(o, _int):
            return NotImplemented
        o = _int(o)
        if o < 0:
            # x & ~m == x - (x & m)
            return self - (self & ~o)
        res, c, lo = None, 0, 0
        conc = cv(self)
        while o >> lo:
            if not (o >> lo) & 1:
                lo += 1
                continue
            hi = lo
            while (o >> hi) & 1:
                hi += 1
            t = self.e if lo == 0 else self.e / I(1 << lo)
            t = t % I(1 << (hi - lo))
            if lo:
                t = t * I(1 << lo)
            res = t if res is None else res + t
            lo = hi
        if res is None:
            return 0
        return mk(res, conc & o)

    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, _int):
            return NotImplemented
        if isinstance(o, SymInt):
            o = conc_int(o)
        return self + o - (self & o)

    __ror__ = __or__

    def __xor__(self, o):
        if not isinstance(o, _int):
            return NotImplemented
        if isinstance(o, SymInt):
            o = conc_int(o)
        return self + o - 2 * (self & o)

    __rxor__ = __xor__

    def _cmp(self, o, f, g):
        if isinstance(o, SymReal):
            return NotImplemented
        if isinstance(o, float):
            return getattr(SymReal.of(self), '__%s__' % g.__name__.strip('_'))(o)
        if not isinstance(o, _int):
            return NotImplemented
        return br(f(self.e, ex(o)), g(cv(self), cv(o)))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, _int.__eq__)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, _int.__lt__)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, _int.__le__)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, _int.__gt__)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, _int.__ge__)
    def __bool__(self): return br(self.e != 0, cv(self) != 0)
    def __hash__(self): return hash(conc_int(self))
    def __index__(self): return conc_int(self)
    def __int__(self): return mk(self.e, cv(self))
    def __trunc__(self): return mk(self.e, cv(self))
    def __floor__(self): return mk(self.e, cv(self))
    def __ceil__(self): return mk(self.e, cv(self))
    def __round__(self, n=None): return mk(self.e, cv(self)) if n is None else round(conc_int(self), n)
    def __str__(self): return int_to_str(self)
    def __repr__(self): return int_to_str(self)

    def __format__(self, spec):
        if spec in ('', 'd'):
            return int_to_str(self)
        if len(spec) == 3 and spec[0] == '0' and spec[1].isdigit() and spec[2] == 'd':
            return int_to_str(self).zfill(_int(spec[1]))
        return format(conc_int(self), spec)

    def bit_length(self): return conc_int(self).bit_length()
    def to_bytes(self, *a, **k): return conc_int(self).to_bytes(*a, **k)
    def __reduce_ex__(self, p): return (_ident, (self,))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __getnewargs__(self): return (conc_int(self),)


def _ident(x):
    return x


def conc_int(x):
    """Concretise: records that the run used this value."""
    if isinstance(x, SymInt):
        c = _int.__int__(x)
        pick(x.e == c, 'concretise')
        return c
    return x


def py_int(x):
    """shadow value, not recorded (reports only)"""
    return _int.__int__(x) if isinstance(x, SymInt) else x


def fork_int(x, lo, hi):
    """enumerate: one solver decided path per value"""
    if not isinstance(x, SymInt):
        return x
    c = cv(x)
    pick(x.e == c)
    return c


class SymFalseInt(Exception):
    pass


_subs = {}


def sym_subclass(cls):
    """SymInt with the methods of an int subclass of the code under test"""
    s = _subs.get(cls)
    if s is None:
        ns = {'_base': cls, '_plain': classmethod(lambda k, v, cls=cls: _int.__new__(cls, v))}
        for k in dir(cls):
            v = None
            for b in cls.__mro__:
                if b is _int:
                    break
                if k in b.__dict__:
                    v = b.__dict__[k]
                    break
            if v is not None and k not in ('__dict__', '__weakref__', '__module__', '__new__', '__class__', '__doc__'):
                ns[k] = v
        s = type('Sym' + cls.__name__, (SymInt, cls), ns)
        s.__new__ = _int.__new__
        _subs[cls] = s
    return s


# ---------------------------------------------------------------- reals

class SymReal(float):
    """A real number num/1 over z3 Real; used for a/1024**k style arithmetic.  Exact rational
    arithmetic; agrees with IEEE doubles as long as the values are dyadic and < 2**53."""
    __class__ = property(lambda self: float)

    @classmethod
    def _make(cls, conc, e):
        o = float.__new__(cls, conc)
        o.e = e
        return o

    @classmethod
    def of(cls, x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return cls._make(float(cv(x)), z3.ToReal(x.e))
        from fractions import Fraction
        fr = Fraction(x)
        return cls._make(float(x), z3.Q(fr.numerator, fr.denominator))

    @staticmethod
    def c(x):
        return float.__float__(x)

    def _b(self, o, f, g, rev=False):
        if not isinstance(o, (_int, float)):
            return NotImplemented
        o = SymReal.of(o)
        a, b = (o, self) if rev else (self, o)
        return SymReal._make(g(self.c(a), self.c(b)), f(a.e, b.e))

    def __add__(self, o): return self._b(o, lambda a, b: a + b, float.__add__)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, float.__add__, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b, float.__sub__)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, float.__sub__, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b, float.__mul__)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, float.__mul__, True)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b, float.__truediv__)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: a / b, float.__truediv__, True)
    def __neg__(self): return SymReal._make(-self.c(self), -self.e)
    def __abs__(self): return -self if self < 0 else self

    def _cmp(self, o, f, g):
        if not isinstance(o, (_int, float)):
            return NotImplemented
        o = SymReal.of(o)
        return br(f(self.e, o.e), g(self.c(self), self.c(o)))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, float.__eq__)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, float.__lt__)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, float.__le__)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, float.__gt__)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, float.__ge__)
    def __bool__(self): return br(self.e != 0, self.c(self) != 0)
    def __hash__(self): return hash(self.conc())

    def conc(self):
        c = self.c(self)
        from fractions import Fraction
        fr = Fraction(c)
        pick(self.e == z3.Q(fr.numerator, fr.denominator), 'concretise')
        return c

    def __float__(self): return self.conc()

    def __int__(self):
        # truncation toward zero
        if self < 0:
            return -mk(z3.ToInt(-self.e), _int(-self.c(self)))
        return mk(z3.ToInt(self.e), _int(self.c(self)))

    __trunc__ = __int__

    def __floor__(self):
        import math
        return mk(z3.ToInt(self.e), math.floor(self.c(self)))

    def __ceil__(self):
        return -((-self).__floor__())

    def __round__(self, n=None):
        if n:
            return round(self.conc(), n)
        # half to even
        r = round(self.c(self))
        fl = z3.ToInt(self.e)
        fr = self.e - z3.ToReal(fl)
        half = z3.Q(1, 2)
        e = z3.If(fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        return mk(e, r)

    def __str__(self): return str(self.conc())
    def __repr__(self): return repr(self.conc())

    def __format__(self, spec):
        if len(spec) >= 3 and spec[-1] == 'f' and spec[-2].isdigit() and spec[:-2] in ('.', '0.'):
            return self.fixed(_int(spec[-2]))
        return format(self.conc(), spec)

    def fixed(self, n):
        """%.nf"""
        if self < 0:
            return cat(['-', (-self).fixed(n)])
        i = (self * 10 ** n if n else self).__round__()
        if not n:
            return int_to_str(i)
        return cat([int_to_str(i // 10 ** n), '.', SymStr.lift(int_to_str(i % 10 ** n)).zfill(n)])

    def is_integer(self):
        return br(z3.IsInt(self.e), self.c(self) == _int(self.c(self)))


# ---------------------------------------------------------------- sequences

def el(ch):
    """element -> z3"""
    return ch if not isinstance(ch, _int) else I(ch)


def eqe(a, b):
    """z3 equality of elements, or a bool"""
    if isinstance(a, _int) and isinstance(b, _int):
        return a == b
    if a is b:
        return True
    return el(a) == el(b)


def conj(xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return z3.And(out) if len(out) > 1 else out[0]


def disj(xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return z3.Or(out) if len(out) > 1 else out[0]


def brb(e, conc, kind='branch'):
    if e is True or e is False:
        return e
    r = core.CUR
    if r is None:
        return conc
    return r.branch(e, conc, kind, site(3))


class _Seq:
    """mixin for SymStr / SymBytes; .c elements, ._k concrete elements"""

    # construction
    @classmethod
    def build(cls, elems, conc):
        """elems: list of int|z3; conc: list of ints.  Returns a plain object if concrete."""
        elems = list(elems)
        for x in elems:
            if not isinstance(x, _int):
                break
        else:
            return cls._plain(elems)
        o = cls._base.__new__(cls, cls._plain(conc))
        o.c = elems
        o.k = list(conc)
        return o

    __class__ = property(lambda self: self._base)

    @classmethod
    def els(cls, x):
        if isinstance(x, cls):
            return x.c, x.k
        if not isinstance(x, cls._lift):
            raise TypeError('expected %s, got %r' % (cls._base.__name__, type(x)))
        l = cls._elems(x)
        return l, l

    @classmethod
    def lift(cls, x):
        if isinstance(x, cls):
            return x
        o = cls._base.__new__(cls, x)
        o.c = o.k = cls._elems(x)
        return o

    def sub(self, i, j):
        return self.build(self.c[i:j], self.k[i:j])

    def conc(self):
        r = self._plain(self.k)
        pick(conj([eqe(a, b) for a, b in zip(self.c, self.k)]), 'concretise')
        return r

    def shadow(self):
        return self._plain(self.k)

    # basics
    def __len__(self): return len(self.c)
    def __bool__(self): return len(self.c) > 0
    def __hash__(self): return hash(self.conc())
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce_ex__(self, p): return (_ident, (self,))

    def _eq(self, o):
        c, k = self.els(o)
        if len(c) != len(self.c):
            return False
        return brb(conj([eqe(a, b) for a, b in zip(self.c, c)]), list(self.k) == list(k))

    def __eq__(self, o):
        if not isinstance(o, self._lift):
            return NotImplemented if not isinstance(o, (str, bytes, _int)) else False
        return self._eq(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _lt(self, o, strict):
        c, k = self.els(o)
        n = min(len(c), len(self.c))
        for i in range(n):
            if brb(eqe(self.c[i], c[i]), self.k[i] == k[i]):
                continue
            e = el(self.c[i]) < el(c[i])
            return brb(z3.simplify(e) if isinstance(self.c[i], _int) and isinstance(c[i], _int) else e,
                       self.k[i] < k[i]) if not (isinstance(self.c[i], _int) and isinstance(c[i], _int)) else self.k[i] < k[i]
        return len(self.c) < len(c) if strict else len(self.c) <= len(c)

    def __lt__(self, o):
        return NotImplemented if not isinstance(o, self._lift) else self._lt(o, True)

    def __le__(self, o):
        return NotImplemented if not isinstance(o, self._lift) else self._lt(o, False)

    def __gt__(self, o):
        return NotImplemented if not isinstance(o, self._lift) else not self._lt(o, False)

    def __ge__(self, o):
        return NotImplemented if not isinstance(o, self._lift) else not self._lt(o, True)

    def __add__(self, o):
        if not isinstance(o, self._lift):
            return NotImplemented
        c, k = self.els(o)
        return self.build(list(self.c) + list(c), list(self.k) + list(k))

    def __radd__(self, o):
        if not isinstance(o, self._lift):
            return NotImplemented
        c, k = self.els(o)
        return self.build(list(c) + list(self.c), list(k) + list(self.k))

    def __mul__(self, n):
        n = conc_int(n)
        return self.build(list(self.c) * n, list(self.k) * n)

    __rmul__ = __mul__

    def at(self, i):
        raise NotImplementedError

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(conc_int(i.start), conc_int(i.stop), conc_int(i.step))
            return self.build(self.c[i], self.k[i])
        i = conc_int(i)
        return self.at(i)

    def __iter__(self):
        for i in range(len(self.c)):
            yield self.at(i)

    def _match(self, i, c, k):
        """does the pattern match at i (fork)"""
        if i < 0 or i + len(c) > len(self.c):
            return False
        return brb(conj([eqe(self.c[i + j], c[j]) for j in range(len(c))]),
                   list(self.k[i:i + len(c)]) == list(k))

    def _pat(self, x):
        return self.els(x)

    def __contains__(self, x):
        c, k = self._pat(x)
        n = len(c)
        if n == 0:
            return True
        e = disj([conj([eqe(self.c[i + j], c[j]) for j in range(n)]) for i in range(len(self.c) - n + 1)])
        conc = any(list(self.k[i:i + n]) == list(k) for i in range(len(self.c) - n + 1))
        return brb(e, conc)

    def _range(self, start, end):
        s = slice(conc_int(start), conc_int(end)).indices(len(self.c))
        return s[0], s[1]

    def find(self, x, start=None, end=None):
        c, k = self._pat(x)
        a, b = self._range(start, end)
        for i in range(a, b - len(c) + 1):
            if self._match(i, c, k):
                return i
        return -1

    def rfind(self, x, start=None, end=None):
        c, k = self._pat(x)
        a, b = self._range(start, end)
        for i in range(b - len(c), a - 1, -1):
            if self._match(i, c, k):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, x, start=None, end=None):
        c, k = self._pat(x)
        a, b = self._range(start, end)
        n, i = 0, a
        if not c:
            return b - a + 1
        while i <= b - len(c):
            if self._match(i, c, k):
                n += 1
                i += len(c)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        a, b = self._range(start, end)
        for q in (p if isinstance(p, tuple) else (p,)):
            c, k = self.els(q)
            if a + len(c) <= b and self._match(a, c, k):
                return True
        return False

    def endswith(self, p, start=None, end=None):
        a, b = self._range(start, end)
        for q in (p if isinstance(p, tuple) else (p,)):
            c, k = self.els(q)
            if b - len(c) >= a and self._match(b - len(c), c, k):
                return True
        return False

    def removeprefix(self, p):
        return self.sub(len(p), None) if self.startswith(p) else self.sub(0, None)

    def removesuffix(self, p):
        return self.sub(0, len(self.c) - len(p)) if p and self.endswith(p) else self.sub(0, None)

    def _isspace_at(self, i):
        x = self.c[i]
        ws = self._ws
        if isinstance(x, _int):
            return x in ws
        return brb(z3.Or([x == w for w in ws]), self.k[i] in ws)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = conc_int(maxsplit)
        out = []
        if sep is None:
            i, n = 0, len(self.c)
            while True:
                while i < n and self._isspace_at(i):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and self._isspace_at(j - 1):
                        j -= 1
                    out.append(self.sub(i, j))
                    return out
                j = i
                while j < n and not self._isspace_at(j):
                    j += 1
                out.append(self.sub(i, j))
                i = j
        c, k = self.els(sep)
        if not c:
            raise ValueError('empty separator')
        i = last = 0
        while i <= len(self.c) - len(c) and (maxsplit < 0 or len(out) < maxsplit):
            if self._match(i, c, k):
                out.append(self.sub(last, i))
                i += len(c)
                last = i
            else:
                i += 1
        out.append(self.sub(last, None))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = conc_int(maxsplit)
        if sep is None:
            if maxsplit < 0:
                return self.split()
            rev = self.build(self.c[::-1], self.k[::-1])
            rev = rev if isinstance(rev, _Seq) else type(self).lift(rev)
            out = rev.split(None, maxsplit)
            return [x[::-1] for x in out][::-1]
        c, k = self.els(sep)
        if not c:
            raise ValueError('empty separator')
        out = []
        end = len(self.c)
        i = end - len(c)
        while i >= 0 and (maxsplit < 0 or len(out) < maxsplit):
            if self._match(i, c, k):
                out.append(self.sub(i + len(c), end))
                end = i
                i -= len(c)
            else:
                i -= 1
        out.append(self.sub(0, end))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self.sub(0, None), self._empty, self._empty
        return self.sub(0, i), sep, self.sub(i + len(sep), None)

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._empty, self._empty, self.sub(0, None)
        return self.sub(0, i), sep, self.sub(i + len(sep), None)

    def replace(self, a, b, count=-1):
        count = conc_int(count)
        ac, ak = self.els(a)
        bc, bk = self.els(b)
        if len(ac) == 1 and len(bc) == 1 and count < 0:
            # no fork: ite per element
            c, k = [], []
            for x, kx in zip(self.c, self.k):
                e = eqe(x, ac[0])
                if e is True:
                    c.append(bc[0])
                elif e is False:
                    c.append(x)
                else:
                    c.append(z3.If(e, el(bc[0]), el(x)))
                k.append(bk[0] if kx == ak[0] else kx)
            return self.build(c, k)
        if not ac:
            return type(self).lift(self._plain(self.conc() and self.k)).conc().replace(a, b, count)
        c, k, i, n = [], [], 0, 0
        while i < len(self.c):
            if (count < 0 or n < count) and self._match(i, ac, ak):
                c += bc
                k += bk
                i += len(ac)
                n += 1
            else:
                c.append(self.c[i])
                k.append(self.k[i])
                i += 1
        return self.build(c, k)

    def _strip(self, chars, left, right):
        if chars is None:
            cs = [(w, w) for w in self._ws]
        else:
            cs = list(zip(*self.els(chars)))

        def member(i):
            e = disj([eqe(self.c[i], c) for c, _ in cs])
            return brb(e, any(self.k[i] == k for _, k in cs))
        a, b = 0, len(self.c)
        if left:
            while a < b and member(a):
                a += 1
        if right:
            while b > a and member(b - 1):
                b -= 1
        return self.sub(a, b)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def join(self, xs):
        c, k = [], []
        for i, x in enumerate(xs):
            if i:
                c += self.c
                k += self.k
            xc, xk = self.els(x)
            c += xc
            k += xk
        return self.build(c, k)

    def _map(self, f):
        c, k = [], []
        for x, kx in zip(self.c, self.k):
            c.append(f(x))
            k.append(f(kx))
        return self.build(c, k)

    @staticmethod
    def _up(x):
        if isinstance(x, _int):
            return x - 32 if 97 <= x <= 122 else x
        return z3.If(z3.And(x >= 97, x <= 122), x - 32, x)

    @staticmethod
    def _lo(x):
        if isinstance(x, _int):
            return x + 32 if 65 <= x <= 90 else x
        return z3.If(z3.And(x >= 65, x <= 90), x + 32, x)

    # non-ascii symbolic characters are caseless by the domain of ctx.str
    def upper(self): return self._map(self._up)
    def lower(self): return self._map(self._lo)
    def casefold(self): return self._map(self._lo)

    def zfill(self, n):
        n = conc_int(n)
        pad = n - len(self.c)
        if pad <= 0:
            return self.sub(0, None)
        if self.c and brb(disj([eqe(self.c[0], 43), eqe(self.c[0], 45)]), self.k[0] in (43, 45)):
            return self.build(self.c[:1] + [48] * pad + self.c[1:], self.k[:1] + [48] * pad + self.k[1:])
        return self.build([48] * pad + list(self.c), [48] * pad + list(self.k))

    def _just(self, n, fill, left):
        n = conc_int(n)
        pad = n - len(self.c)
        f = self._elems(fill)
        if pad <= 0:
            return self.sub(0, None)
        return (self.build(list(self.c) + f * pad, list(self.k) + f * pad) if left else
                self.build(f * pad + list(self.c), f * pad + list(self.k)))

    def _all(self, pred_e, pred_c):
        if not self.c:
            return False
        return brb(conj([pred_c(x) if isinstance(x, _int) else pred_e(x) for x in self.c]),
                   all(pred_c(x) for x in self.k))

    def isdigit(self): return self._all(lambda x: z3.And(x >= 48, x <= 57), lambda x: 48 <= x <= 57)
    isdecimal = isnumeric = isdigit

    def isspace(self): return self._all(lambda x: z3.Or([x == w for w in self._ws]), lambda x: x in self._ws)

    def isascii(self):
        return brb(conj([x < 128 for x in self.c]), all(x < 128 for x in self.k))


_HEX = {}      # keyed per run through run.memo


def memo(kind):
    r = core.CUR
    if r is None:
        return {}
    return r.memo.setdefault(kind, {})


def keepid(x):
    r = core.CUR
    if r is not None:
        r.keep.append(x)
    return x.get_id() if not isinstance(x, _int) else ('k', x)


class SymStr(_Seq, str):
    _base = str
    _lift = str
    _empty = ''
    _ws = (32, 9, 10, 11, 12, 13, 28, 29, 30, 31, 0x85, 0xa0)

    @staticmethod
    def _plain(elems): return ''.join(map(chr, elems))

    @staticmethod
    def _elems(x): return [ord(c) for c in x]

    def at(self, i):
        return SymStr.build([self.c[i]], [self.k[i]])

    def ljust(self, n, fill=' '): return self._just(n, fill, True)
    def rjust(self, n, fill=' '): return self._just(n, fill, False)

    def __str__(self): return self

    def __repr__(self):
        return sym_repr(self)

    def __format__(self, spec):
        if spec in ('', 's'):
            return self
        return format(self.conc(), spec)

    def __mod__(self, args):
        return str_mod(self, args)

    def __rmod__(self, fmt):
        return str_mod(fmt, self)

    def isalpha(self): return self.conc().isalpha()

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        out, ko = [], []
        if enc in ('ascii', 'latin-1', 'iso-8859-1'):
            lim = 128 if enc == 'ascii' else 256
            if not brb(conj([x < lim for x in self.c]), all(x < lim for x in self.k)):
                return self.conc().encode(encoding, errors)
            return SymBytes.build(self.c, self.k)
        if enc not in ('utf-8', 'utf8'):
            return self.conc().encode(encoding, errors)
        m = memo('utf8')
        for x, kx in zip(self.c, self.k):
            kb = list(chr(kx).encode('utf-8', 'surrogatepass'))
            if isinstance(x, _int):
                out += list(chr(x).encode('utf-8', errors))
                ko += kb
                continue
            if brb(x < 0x80, kx < 0x80):
                bs = [x]
            elif brb(x < 0x800, kx < 0x800):
                bs = [0xC0 + x / 64, 0x80 + x % 64]
            elif brb(x < 0x10000, kx < 0x10000):
                bs = [0xE0 + x / 4096, 0x80 + (x / 64) % 64, 0x80 + x % 64]
            else:
                bs = [0xF0 + x / 262144, 0x80 + (x / 4096) % 64, 0x80 + (x / 64) % 64, 0x80 + x % 64]
            m[tuple(keepid(b) for b in bs)] = x
            out += bs
            ko += kb
        return SymBytes.build(out, ko)


class SymBytes(_Seq, bytes):
    _base = bytes
    _lift = (bytes, bytearray)
    _empty = b''
    _ws = (32, 9, 10, 11, 12, 13)

    @staticmethod
    def _plain(elems): return _bytes(elems)

    @staticmethod
    def _elems(x): return list(x)

    def at(self, i):
        x = self.c[i]
        return x if isinstance(x, _int) else mk(x, self.k[i])

    def _pat(self, x):
        if isinstance(x, _int):
            if isinstance(x, SymInt):
                return [x.e], [cv(x)]
            return [x], [x]
        return self.els(x)

    def ljust(self, n, fill=b' '): return self._just(n, fill, True)
    def rjust(self, n, fill=b' '): return self._just(n, fill, False)
    def __str__(self): return sym_repr(self)
    def __repr__(self): return sym_repr(self)
    def __bytes__(self): return self

    def hex(self, *sep):
        if sep:
            return self.conc().hex(*sep)
        if core.CUR is None:
            return self.shadow().hex()
        c, k = [], []
        m = memo('nib')
        cache = memo('hexof')
        for x, kx in zip(self.c, self.k):
            kk = [ord(ch) for ch in '%02x' % kx]
            k += kk
            if isinstance(x, _int):
                c += kk
                continue
            key = keepid(x)
            if key not in cache:
                r = core.CUR
                h, l = r.fresh('hx'), r.fresh('hx')
                r.define(z3.And(h >= 0, h < 16, l >= 0, l < 16, x == h * 16 + l))
                pair = []
                for n, which in ((h, 0), (l, 1)):
                    e = z3.If(n < 10, n + 48, n + 87)
                    m[keepid(e)] = (n, x, which)
                    pair.append(e)
                cache[key] = pair
            c += cache[key]
        return SymStr.build(c, k)

    @staticmethod
    def fromhex(s):
        s = SymStr.lift(s) if not isinstance(s, SymStr) else s
        out, ko = [], []
        m = memo('nib')
        i, n = 0, len(s.c)

        def nib(j):
            x, kx = s.c[j], s.k[j]
            if isinstance(x, _int):
                ch = chr(x)
                if ch not in '0123456789abcdefABCDEF':
                    raise ValueError('non-hexadecimal number found in fromhex() arg at position %d' % j)
                return _int(ch, 16), _int(ch, 16), None
            got = m.get(keepid(x))
            if got:
                n_, byte, which = got
                return n_, _int(chr(kx), 16), (byte, which)
            ok = z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 70), z3.And(x >= 97, x <= 102))
            if not brb(ok, chr(kx) in '0123456789abcdefABCDEF' and kx < 128):
                raise ValueError('non-hexadecimal number found in fromhex() arg at position %d' % j)
            e = z3.If(x <= 57, x - 48, z3.If(x <= 70, x - 55, x - 87))
            return e, _int(chr(kx), 16), None
        while i < n:
            if s._isspace_at(i):
                i += 1
                continue
            if i + 1 >= n:
                nib(i)
                raise ValueError('non-hexadecimal number found in fromhex() arg at position %d' % i)
            h, kh, mh = nib(i)
            l, kl, ml = nib(i + 1)
            if mh and ml and mh[0] is ml[0] and (mh[1], ml[1]) == (0, 1):
                out.append(mh[0])
            elif isinstance(h, _int) and isinstance(l, _int):
                out.append(h * 16 + l)
            else:
                out.append(el(h) * 16 + el(l))
            ko.append(kh * 16 + kl)
            i += 2
        return SymBytes.build(out, ko)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc == 'ascii':
            if not brb(conj([x < 128 for x in self.c]), all(x < 128 for x in self.k)):
                return self.conc().decode(encoding, errors)
            return SymStr.build(self.c, self.k)
        if enc in ('latin-1', 'iso-8859-1'):
            return SymStr.build(self.c, self.k)
        if enc not in ('utf-8', 'utf8'):
            return self.conc().decode(encoding, errors)
        m = memo('utf8')
        out, ko = [], []
        i, n = 0, len(self.c)
        cut = 0x80
        while i < n:
            x, kx = self.c[i], self.k[i]
            got = None
            for w in (1, 2, 3, 4):
                if i + w <= n and tuple(keepid(b) for b in self.c[i:i + w]) in m:
                    got = w
                    break
            if got:
                out.append(m[tuple(keepid(b) for b in self.c[i:i + got])])
                ko.append(ord(_bytes(self.k[i:i + got]).decode('utf-8', 'surrogatepass')))
                i += got
                continue
            if isinstance(x, _int) and x < 0x80 or not isinstance(x, _int) and brb(x < 0x80, kx < 0x80):
                out.append(x)
                ko.append(kx)
                i += 1
                continue
            # multi-byte sequence: lengths by lead byte
            lead = [(0xC2, 0xDF, 2), (0xE0, 0xEF, 3), (0xF0, 0xF4, 4)]
            w = 0
            for lo, hi, ww in lead:
                if brb(conj([el(x) >= lo, el(x) <= hi]) if not isinstance(x, _int) else lo <= x <= hi,
                       lo <= kx <= hi):
                    w = ww
                    break
            ok = w and i + w <= n
            if ok:
                tail = self.c[i + 1:i + w]
                kt = self.k[i + 1:i + w]
                ok = brb(conj([b_ok for b in tail for b_ok in
                               ([0x80 <= b <= 0xBF] if isinstance(b, _int) else [b >= 0x80, b <= 0xBF])]),
                         all(0x80 <= b <= 0xBF for b in kt))
            if ok:
                base = {2: 0xC0, 3: 0xE0, 4: 0xF0}[w]
                e, kc = el(x) - base, kx - base
                for b, kb in zip(tail, kt):
                    e, kc = e * 64 + (el(b) - 0x80), kc * 64 + kb - 0x80
                lo = {2: 0x80, 3: 0x800, 4: 0x10000}[w]
                ok = brb(z3.And(e >= lo, e <= 0x10FFFF, z3.Not(z3.And(e >= 0xD800, e <= 0xDFFF))),
                         lo <= kc <= 0x10FFFF and not 0xD800 <= kc <= 0xDFFF)
            if ok:
                out.append(z3.simplify(e) if all(isinstance(b, _int) for b in self.c[i:i + w]) else e)
                if isinstance(out[-1], z3.IntNumRef):
                    out[-1] = out[-1].as_long()
                ko.append(kc)
                i += w
                continue
            if errors == 'strict':
                raise UnicodeDecodeError('utf-8', _bytes(self.k), i, i + 1, 'invalid byte (symbolic)')
            if errors == 'surrogateescape':
                out.append(0xDC00 + el(x) if not isinstance(x, _int) else 0xDC00 + x)
                ko.append(0xDC00 + kx)
                i += 1
                continue
            return self.conc().decode(encoding, errors)
        return SymStr.build(out, ko)


def _install_fallbacks(cls, base):
    """every method of the base type that is not modelled concretises its receiver"""
    have = set()
    for b in cls.__mro__:
        if b is base:
            break
        have |= set(b.__dict__)
    for name in dir(base):
        if name in have or name in ('__new__', '__init__', '__class__', '__getattribute__', '__setattr__',
                                    '__delattr__', '__init_subclass__', '__subclasshook__', '__doc__',
                                    '__dir__', '__sizeof__', '__reduce__', '__getstate__', '__getnewargs__',
                                    'maketrans', '__buffer__'):
            continue
        f = getattr(base, name)
        if not callable(f):
            continue

        def w(self, *a, _n=name, **k):
            c = conc_int(self) if isinstance(self, _int) else self.conc()
            return getattr(c, _n)(*[deep_conc(x) for x in a], **{n: deep_conc(v) for n, v in k.items()})
        w.__name__ = name
        setattr(cls, name, w)


def deep_conc(x, depth=4):
    """replace every symbolic leaf of plain containers by its (recorded) concrete value"""
    if isinstance(x, SymInt):
        b = x._base
        c = conc_int(x)
        return c if b is _int else _int.__new__(b, c)
    if isinstance(x, SymReal):
        return x.conc()
    if isinstance(x, _Seq):
        return x.conc()
    f = getattr(type(x), '_sx_conc', None)
    if f is not None:
        return f(x)
    if depth:
        t = type(x)
        if t in (list, tuple, set, frozenset):
            if has_sym(x, depth):
                return t(deep_conc(y, depth - 1) for y in x)
        elif t is dict:
            if has_sym(x, depth):
                return {deep_conc(k, depth - 1): deep_conc(v, depth - 1) for k, v in x.items()}
    return x


def is_sym(x):
    return isinstance(x, (SymInt, SymReal, _Seq)) or hasattr(type(x), '_sx_conc')


def has_sym(x, depth=4):
    if isinstance(x, (SymInt, SymReal, _Seq)) or hasattr(type(x), '_sx_conc'):
        return True
    if depth:
        t = type(x)
        if t in (list, tuple, set, frozenset):
            return any(has_sym(y, depth - 1) for y in x)
        if t is dict:
            return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
        if t is slice:
            return has_sym(x.start, 0) or has_sym(x.stop, 0) or has_sym(x.step, 0)
    return False


def shadow(x, depth=6):
    """the concrete values, without recording anything (for reports and outcome signatures)"""
    if isinstance(x, SymInt):
        return _int.__int__(x)
    if isinstance(x, SymReal):
        return float.__float__(x)
    if isinstance(x, _Seq):
        return x.shadow()
    f = getattr(type(x), '_sx_shadow', None)
    if f is not None:
        return f(x)
    if depth:
        t = type(x)
        if t in (list, tuple, set, frozenset):
            return t(shadow(y, depth - 1) for y in x)
        if t is dict:
            return {shadow(k, depth - 1): shadow(v, depth - 1) for k, v in x.items()}
    return x


# ---------------------------------------------------------------- conversions

def int_to_str(x):
    if not isinstance(x, SymInt):
        return str(x)
    r = core.CUR
    if r is None:
        return str(cv(x))
    cache = memo('digits')
    key = keepid(x.e)
    conc = cv(x)
    if key in cache:
        return SymStr.build(cache[key], [ord(c) for c in str(conc)])
    e, k, pre = x.e, conc, []
    if brb(e < 0, conc < 0):
        e, k, pre = -e, -k, [45]
    n = len(str(k))
    lo = 0 if n == 1 else 10 ** (n - 1)
    pick(z3.And(e >= lo, e < 10 ** n))
    ds = [r.fresh('d') for _ in range(n)]
    tot = ds[0]
    for d in ds[1:]:
        tot = tot * 10 + d
    r.define(z3.And([z3.And(d >= 0, d <= 9) for d in ds] + [tot == e]))
    chars = [d + 48 for d in ds]
    cache[key] = pre + chars
    memo('undigits')[tuple(keepid(c) for c in pre + chars)] = x
    return SymStr.build(pre + chars, [ord(c) for c in str(conc)])


def int_to_oct(x):
    if not isinstance(x, SymInt):
        return oct(x)
    r = core.CUR
    if r is None:
        return oct(cv(x))
    e, k, pre = x.e, cv(x), [48, 111]
    text = oct(k)
    if brb(e < 0, k < 0):
        e, k, pre = -e, -k, [45, 48, 111]
    n = len(oct(k)) - 2
    pick(z3.And(e >= (0 if n == 1 else 8 ** (n - 1)), e < 8 ** n))
    ds = [r.fresh('o') for _ in range(n)]
    tot = ds[0]
    for d in ds[1:]:
        tot = tot * 8 + d
    r.define(z3.And([z3.And(d >= 0, d <= 7) for d in ds] + [tot == e]))
    return SymStr.build(pre + [d + 48 for d in ds], [ord(c) for c in text])


def str_to_int(s, base=10):
    if isinstance(s, SymBytes):
        s = SymStr.build(s.c, s.k)
        if not isinstance(s, SymStr):
            return _int(s, base)
    base = conc_int(base)
    if base not in (10, 16, 8):
        return _int(s.conc(), base)
    got = memo('undigits').get(tuple(keepid(c) for c in s.c)) if base == 10 else None
    if got is not None:
        return mk(got.e, cv(got))
    t = s.strip()
    if not isinstance(t, SymStr):
        return _int(t, base)
    got = memo('undigits').get(tuple(keepid(c) for c in t.c)) if base == 10 else None
    if got is not None:
        return mk(got.e, cv(got))
    bad = ValueError('invalid literal for int() with base %d (symbolic)' % base)
    c, k = list(t.c), list(t.k)
    neg = False
    if brb(eqe(c[0], 45), k[0] == 45):
        neg = True
        c, k = c[1:], k[1:]
    elif brb(eqe(c[0], 43), k[0] == 43):
        c, k = c[1:], k[1:]
    if not c:
        raise bad
    # underscores between digits are legal in int()
    if brb(disj([eqe(x, 95) for x in c]), 95 in k):
        cc, kk, prev = [], [], True
        for x, kx in zip(c, k):
            if brb(eqe(x, 95), kx == 95):
                if prev:
                    raise bad
                prev = True
            else:
                cc.append(x)
                kk.append(kx)
                prev = False
        if prev:
            raise bad
        c, k = cc, kk
    tot, ktot = None, 0
    for x, kx in zip(c, k):
        if base == 16:
            ok = z3.Or(z3.And(el(x) >= 48, el(x) <= 57), z3.And(el(x) >= 65, el(x) <= 70), z3.And(el(x) >= 97, el(x) <= 102))
            okc = 48 <= kx <= 57 or 65 <= kx <= 70 or 97 <= kx <= 102
        else:
            ok = z3.And(el(x) >= 48, el(x) <= 47 + base)
            okc = 48 <= kx <= 47 + base
        if not (okc if isinstance(x, _int) else brb(ok, okc)):
            raise bad
        if base == 16:
            d = (_int(chr(x), 16) if isinstance(x, _int) else
                 z3.If(x <= 57, x - 48, z3.If(x <= 70, x - 55, x - 87)))
        else:
            d = x - 48
        tot = el(d) if tot is None else tot * base + el(d)
        ktot = ktot * base + _int(chr(kx), base)
    if neg:
        tot, ktot = -tot, -ktot
    return mk(tot, ktot)


def sym_repr(x):
    """repr of a symbolic str/bytes: exact for printable ASCII without quotes and backslash,
    otherwise concretised."""
    b = isinstance(x, SymBytes)
    e = conj([c_ok for c in x.c for c_ok in
              ([32 <= c < 127 and c not in (39, 92)] if isinstance(c, _int) else
               [c >= 32, c < 127, c != 39, c != 92])])
    okc = all(32 <= c < 127 and c not in (39, 92) for c in x.k)
    if brb(e, okc):
        pre = [98, 39] if b else [39]
        return SymStr.build(pre + list(x.c) + [39], pre + list(x.k) + [39])
    # exact per character
    has_sq = brb(disj([eqe(c, 39) for c in x.c]), 39 in x.k)
    has_dq = brb(disj([eqe(c, 34) for c in x.c]), 34 in x.k)
    q = 34 if has_sq and not has_dq else 39
    c, k = [], []
    for a, ka in zip(x.c, x.k):
        if isinstance(a, _int):
            if a in (q, 92):
                t = [92, a]
            else:
                s = repr(_bytes([a]))[2:-1] if b else repr(chr(a))[1:-1]
                t = [ord(z) for z in s] if a not in (34, 39) else [a]
            c += t
            k += t
        elif brb(z3.Or(a == q, a == 92), ka in (q, 92)):
            c += [92, a]
            k += [92, ka]
        elif brb(z3.And(a >= 32, a < 127), 32 <= ka < 127):
            c.append(a)
            k.append(ka)
        elif not b and brb(a >= 0xA1, ka >= 0xA1):
            # the non-ascii domain of ctx.str is printable
            c.append(a)
            k.append(ka)
        else:
            pick(a == ka, 'concretise')
            s = repr(_bytes([ka]))[2:-1] if b else repr(chr(ka))[1:-1]
            t = [ord(z) for z in s]
            c += t
            k += t
    pre = [98, q] if b else [q]
    return SymStr.build(pre + c + [q], pre + k + [q])


def to_str(x):
    return x if isinstance(x, str) else str(x)


def cat(parts):
    """concatenate str pieces"""
    c, k = [], []
    for p in parts:
        pc, pk = SymStr.els(p)
        c += pc
        k += pk
    return SymStr.build(c, k)


def str_mod(fmt, args):
    """printf formatting with symbolic arguments"""
    if isinstance(fmt, SymStr):
        fmt = fmt.conc()
    if isinstance(fmt, (bytes, bytearray)):
        return fmt % deep_conc(args)
    import re
    if isinstance(args, dict):
        seq, mapping = None, args
    else:
        seq, mapping = list(args) if isinstance(args, tuple) else [args], None
    out, pos = [], 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, kind = m.groups()
        if kind == '%':
            out.append('%')
            continue
        a = mapping[name] if name is not None else seq.pop(0)
        if is_sym(a) and prec is None and not (flags or width):
            if kind == 's':
                out.append(to_str(a))
                continue
            if kind in 'di' and isinstance(a, SymInt):
                out.append(int_to_str(a))
                continue
            if kind == 'r':
                out.append(repr(a))
                continue
        if kind in 'di' and isinstance(a, SymInt) and flags == '0' and width:
            out.append(SymStr.lift(int_to_str(a)).zfill(_int(width)))
            continue
        if kind == 'f' and prec is not None and prec.isdigit() and _int(prec) < 7 and isinstance(
                a, (SymReal, SymInt)) and flags in ('', '0') and width in (None, '0'):
            out.append(SymReal.of(a).fixed(_int(prec)))
            continue
        out.append(('%' + flags + (width or '') + ('.' + prec if prec else '') + kind) % (deep_conc(a),))
    out.append(fmt[pos:])
    return cat(out)


_install_fallbacks(SymStr, str)
_install_fallbacks(SymBytes, bytes)
_install_fallbacks(SymInt, int)
