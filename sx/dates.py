"""datetime values with symbolic fields, and the ISO-8601 contract stub used in place of
dateutil.parser.parse for symbolic strings."""
import datetime as dt
import z3
from . import core
from .values import SymInt, SymStr, mk, ex, cv, br, brb, cat, conj, int_to_str, str_to_int, shadow, el, eqe

_real = dt.datetime
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


def days(y, m, d):
    """days from civil (y>=1), linear with constant divisors; ints or z3"""
    a = z3.If(m <= 2, 1, 0) if isinstance(m, z3.ExprRef) else (1 if m <= 2 else 0)
    yy = y - a
    dv = lambda p, q: p / z3.IntVal(q) if isinstance(p, z3.ExprRef) else p // q
    mm = m + 12 * a - 3 if isinstance(m, z3.ExprRef) else (m + 9 if m <= 2 else m - 3)
    return 365 * yy + dv(yy, 4) - dv(yy, 100) + dv(yy, 400) + dv(153 * mm + 2, 5) + d - 1


def dim(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(m == 2, z3.If(leap, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


class SymDatetime(_real):
    """shadow datetime + z3 terms of the fields; offset in minutes (or None)"""
    _sx_type = _real
    __class__ = property(lambda self: _real)

    @classmethod
    def make(cls, fields, off):
        """fields: 7 ints/SymInts (valid), off: None | int | SymInt minutes"""
        k = [cv(f) for f in fields]
        tz = None if off is None else dt.timezone(dt.timedelta(minutes=cv(off))) if cv(off) else dt.timezone.utc
        o = _real.__new__(cls, *k, tzinfo=tz)
        o.f = list(fields)
        o.off = off
        return o

    def _sx_shadow(self):
        f = [shadow(x) for x in self.f]
        return _real(*f, tzinfo=_real.tzinfo.__get__(self))

    def _sx_conc(self):
        from .values import conc_int
        for x in self.f + [self.off]:
            if isinstance(x, SymInt):
                conc_int(x)
        return self._sx_shadow()

    def instant(self):
        """z3 term of microseconds since 0001 (UTC), concrete value"""
        y, mo, d, h, mi, s, us = [ex(x) for x in self.f]
        t = ((days(y, mo, d) * 24 + h) * 60 + mi - (ex(self.off) if self.off is not None else 0)) * 60 + s
        e = t * 1000000 + us
        ky, kmo, kd, kh, kmi, ks, kus = [cv(x) for x in self.f]
        k = (((days(ky, kmo, kd) * 24 + kh) * 60 + kmi - (cv(self.off) if self.off is not None else 0)) * 60
             + ks) * 1000000 + kus
        return e, k

    @staticmethod
    def lift(o):
        if isinstance(o, SymDatetime):
            return o
        off = o.utcoffset()
        if off is not None:
            off = int(off.total_seconds() // 60)
        return SymDatetime.make([getattr(o, n) for n in FIELDS], off)

    def _cmp(self, o, f, g, eq=False):
        if not isinstance(o, _real):
            return NotImplemented
        o = SymDatetime.lift(o)
        if (self.off is None) != (o.off is None):
            if eq:
                return False
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        so, oo = self.off, o.off
        same = so is oo or (not isinstance(so, SymInt) and not isinstance(oo, SymInt) and so == oo) or (
            isinstance(so, SymInt) and isinstance(oo, SymInt) and so.e.eq(oo.e))
        ks, ko = self.instant()[1], o.instant()[1]
        if same and eq:
            return brb(conj([eqe(getattr(a, 'e', a), getattr(b, 'e', b)) for a, b in zip(self.f, o.f)]), ks == ko)
        if same:
            # lexicographic order of the fields
            lt, eqs = [], []
            for a, b in zip(self.f, o.f):
                lt.append(z3.And(eqs + [ex(a) < ex(b)]))
                eqs = eqs + [ex(a) == ex(b)]
            LT, EQ = z3.Or(lt), z3.And(eqs)
            e = {'lt': LT, 'le': z3.Or(LT, EQ), 'gt': z3.Not(z3.Or(LT, EQ)), 'ge': z3.Not(LT)}[f]
            return brb(e, g(ks, ko))
        a, b = self.instant()[0], o.instant()[0]
        e = {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b}[f]
        return brb(e, g(ks, ko))

    def __eq__(self, o): return self._cmp(o, 'eq', lambda a, b: a == b, True)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o): return self._cmp(o, 'lt', lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, 'le', lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, 'gt', lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, 'ge', lambda a, b: a >= b)
    def __hash__(self): return hash(self._sx_conc())
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce_ex__(self, p): return (lambda x: x, (self,))

    year = property(lambda self: self.f[0])
    month = property(lambda self: self.f[1])
    day = property(lambda self: self.f[2])
    hour = property(lambda self: self.f[3])
    minute = property(lambda self: self.f[4])
    second = property(lambda self: self.f[5])
    microsecond = property(lambda self: self.f[6])

    @property
    def tzinfo(self):
        if self.off is None:
            return None
        return SymTz(self.off)

    def utcoffset(self):
        return None if self.off is None else dt.timedelta(minutes=cv(self.off)) if not isinstance(
            self.off, SymInt) else self._sx_conc().utcoffset()

    def isoformat(self, sep='T', timespec='auto'):
        p = lambda x, n: SymStr.lift(int_to_str(x)).zfill(n) if isinstance(x, SymInt) else str(x).zfill(n)
        y, mo, d, h, mi, s, us = self.f
        out = [p(y, 4), '-', p(mo, 2), '-', p(d, 2), sep, p(h, 2), ':', p(mi, 2), ':', p(s, 2)]
        if timespec in ('auto', 'microseconds'):
            if timespec != 'auto' or us != 0:
                out += ['.', pad(us, 6)]
        elif timespec == 'milliseconds':
            out += ['.', pad(us // 1000, 3)]
        elif timespec == 'seconds':
            pass
        elif timespec == 'minutes':
            out = out[:-2]
        elif timespec == 'hours':
            out = out[:-4]
        else:
            raise ValueError('Unknown timespec value')
        if self.off is not None:
            o = self.off
            neg = o < 0
            a = -o if neg else o
            out += ['-' if neg else '+', p(a // 60, 2), ':', p(a % 60, 2)]
        return cat(out)

    def __str__(self): return self.isoformat(' ')
    def __repr__(self): return repr(self._sx_conc())
    def __format__(self, spec): return self.__str__() if not spec else format(self._sx_conc(), spec)

    def replace(self, **k):
        off = self.off
        if 'tzinfo' in k:
            tz = k.pop('tzinfo')
            off = None if tz is None else tz.off if isinstance(tz, SymTz) else int(
                tz.utcoffset(None).total_seconds() // 60)
        f = [k.pop(n, v) for n, v in zip(FIELDS, self.f)]
        if k:
            raise NotImplementedError(k)
        return SymDatetime.make(f, off)

    def astimezone(self, tz=None):
        return self._sx_conc().astimezone(tz)

    def timestamp(self):
        return self._sx_conc().timestamp()


class SymTz:
    def __init__(self, off):
        self.off = off

    def utcoffset(self, x):
        return dt.timedelta(minutes=cv(self.off))

    def __eq__(self, o):
        off = o.off if isinstance(o, SymTz) else (int(o.utcoffset(None).total_seconds() // 60) if o is not None else None)
        return off is not None and self.off == off

    def __hash__(self): return 0


for _n in ('date', 'time', 'strftime', 'ctime', 'timetuple', 'utctimetuple', 'weekday', 'isoweekday',
           'toordinal', 'isocalendar', 'timetz', '__add__', '__radd__', '__sub__', '__rsub__', 'dst', 'tzname'):
    def _w(self, *a, _n=_n, **k):
        from .values import deep_conc
        return getattr(self._sx_conc(), _n)(*[deep_conc(x) for x in a], **k)
    setattr(SymDatetime, _n, _w)


def pad(x, n):
    """fixed width digits of 0 <= x < 10**n without forking on the digit count"""
    if not isinstance(x, SymInt):
        return str(x).zfill(n)
    r = core.CUR
    if r is None:
        return str(cv(x)).zfill(n)
    cache = r.memo.setdefault('pad', {})
    key = (x.e.get_id(), n)
    r.keep.append(x.e)
    if key not in cache:
        ds = [r.fresh('p') for _ in range(n)]
        tot = ds[0]
        for d in ds[1:]:
            tot = tot * 10 + d
        r.define(z3.And([z3.And(d >= 0, d <= 9) for d in ds] + [tot == x.e]))
        chars = [d + 48 for d in ds]
        cache[key] = chars
        for c in chars:
            r.keep.append(c)
        r.memo.setdefault('unpad', {})[tuple(c.get_id() for c in chars)] = x
    return SymStr.build(cache[key], [ord(c) for c in str(cv(x)).zfill(n)])


def fix_pad():
    """isoformat uses pad for the two and four digit fields as well"""
    def iso(self, sep='T', timespec='auto'):
        y, mo, d, h, mi, s, us = self.f
        out = [pad(y, 4), '-', pad(mo, 2), '-', pad(d, 2), sep, pad(h, 2), ':', pad(mi, 2), ':', pad(s, 2)]
        if timespec in ('auto', 'microseconds'):
            if timespec != 'auto' or us != 0:
                out += ['.', pad(us, 6)]
        elif timespec == 'milliseconds':
            out += ['.', pad(us // 1000, 3)]
        elif timespec == 'minutes':
            out = out[:-2]
        elif timespec == 'hours':
            out = out[:-4]
        elif timespec != 'seconds':
            raise ValueError('Unknown timespec value')
        if self.off is not None:
            o = self.off
            neg = o < 0
            a = -o if neg else o
            out += ['-' if neg else '+', pad(a // 60, 2), ':', pad(a % 60, 2)]
        return cat(out)
    SymDatetime.isoformat = iso


fix_pad()


def _num(s, i, n):
    """n digits at i of the symbolic string (None if they are not digits)"""
    c, k = s.c[i:i + n], s.k[i:i + n]
    if len(c) != n:
        return None
    r = core.CUR
    if all(not isinstance(x, int) for x in c):
        got = r.memo.get('unpad', {}).get(tuple(x.get_id() for x in c))
        if got is not None:
            return got
    ok = conj([t for x in c for t in ([48 <= x <= 57] if isinstance(x, int) else [x >= 48, x <= 57])])
    if not brb(ok, all(48 <= x <= 57 for x in k)):
        return None
    if all(isinstance(x, int) for x in c):
        return int(''.join(map(chr, c)))
    tot, kt = None, 0
    for x, kx in zip(c, k):
        tot = el(x) - 48 if tot is None else tot * 10 + (el(x) - 48)
        kt = kt * 10 + kx - 48
    return mk(tot, kt)


def parse(s, *a, **kw):
    """YYYY-MM-DDTHH:MM:SS[(.|,)f{1,6}](Z|+HH:MM|-HH:MM)?  -> datetime; everything else is concretised and
    given to the real dateutil parser (installed by the runner)."""
    if not isinstance(s, SymStr):
        return _dateutil(s, *a, **kw)

    def at(i, ch):
        return i < len(s.c) and brb(eqe(s.c[i], ord(ch)), s.k[i] == ord(ch))

    def give_up():
        return _dateutil(s.conc(), *a, **kw)
    y = _num(s, 0, 4)
    if y is None or not at(4, '-'):
        return give_up()
    mo = _num(s, 5, 2)
    if mo is None or not at(7, '-'):
        return give_up()
    d = _num(s, 8, 2)
    if d is None or not (at(10, 'T') or at(10, ' ')):
        return give_up()
    h = _num(s, 11, 2)
    if h is None or not at(13, ':'):
        return give_up()
    mi = _num(s, 14, 2)
    if mi is None or not at(16, ':'):
        return give_up()
    sec = _num(s, 17, 2)
    if sec is None:
        return give_up()
    i, us = 19, 0
    if at(i, '.') or at(i, ','):
        j = i + 1
        while j < len(s.c) and j < i + 8 and _num(s, j, 1) is not None:
            j += 1
        n = j - i - 1
        if not 1 <= n <= 6:
            return give_up()
        us = _num(s, i + 1, n) * 10 ** (6 - n)
        i = j
    off = None
    if i == len(s.c):
        pass
    elif at(i, 'Z'):
        off, i = 0, i + 1
    elif at(i, '+') or at(i, '-'):
        neg = s.k[i] == 45
        hh = _num(s, i + 1, 2)
        if hh is None or not at(i + 3, ':'):
            return give_up()
        mm = _num(s, i + 4, 2)
        if mm is None:
            return give_up()
        off = hh * 60 + mm
        off = -off if neg else off
        i += 6
    if i != len(s.c):
        return give_up()
    # validity
    ey, em, ed = ex(y), ex(mo), ex(d)
    valid = z3.And(ey >= 1, em >= 1, em <= 12, ed >= 1, ed <= dim(ey, em), ex(h) <= 23, ex(mi) <= 59, ex(sec) <= 59)
    try:
        _real(cv(y), cv(mo), cv(d), cv(h), cv(mi), cv(sec))
        okc = True
    except ValueError:
        okc = False
    if not brb(z3.simplify(valid) if z3.is_true(z3.simplify(valid)) else valid, okc):
        return give_up()
    return SymDatetime.make([y, mo, d, h, mi, sec, us], off)


def _dateutil(*a, **kw):
    from dateutil import parser
    return parser.parse(*a, **kw)


def install():
    from . import rt
    from dateutil import parser
    real = parser.parse
    global _dateutil
    _dateutil = real
    rt.redirect(real, parse)
