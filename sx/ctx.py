"""Harness contexts.  A harness `fn(ctx)` is run symbolically (SymCtx) and, for replay, concretely on the
uninstrumented code (ConcCtx)."""
import datetime as dt
import z3
from . import core
from .core import Violation, Prune, Abort

# code points of symbolic characters: ASCII and caseless, printable, non-combining, non-decimal blocks
NONASCII = ((0x3041, 0x3094), (0x4E00, 0x9FA5), (0x1F300, 0x1F320))
ASCII = ((1, 127),)
PRINT = ((32, 126),)
FULL = ASCII + NONASCII
IDCH = ((45, 57), (58, 58), (65, 90), (95, 95), (97, 122))


class Base:
    params = {}
    fs = None

    def bound(self, name, default=None):
        v = self.params.get(name, default)
        if v is None:
            raise KeyError(name)
        return v

    def flag(self, name):
        return bool(self.choice(name, 2))

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def label(self, l):
        pass


class ConcCtx(Base):
    symbolic = False

    def __init__(self, inputs, params):
        self.i = inputs
        self.params = params
        self.labels = set()
        self.checked = 0

    def int(self, name, lo, hi, default=None):
        v = self.i.get(name, lo if default is None else default)
        return v

    def choice(self, name, n):
        if '=' + name in self.params:  # fixed for one part of a case
            return self.params['=' + name]
        return self.i.get(name, 0)

    def _seq(self, name, lo, hi, dflt):
        n = self.i.get(name + '.len', lo)
        return [self.i.get('%s[%d]' % (name, j), dflt) for j in range(n)]

    def str(self, name, maxlen, minlen=0, alphabet=FULL):
        return ''.join(map(chr, self._seq(name, minlen, maxlen, _dflt(alphabet))))

    def bytes(self, name, maxlen, minlen=0):
        return bytes(self._seq(name, minlen, maxlen, 0))

    def datetime(self, name, tz='utc', micro=True, ymin=1970, ymax=2099, only=None):
        f = [self.i.get(name + '.' + n, d) for n, d in _dtd(ymin)]
        off = _off(self, name, tz)
        t = None if off is None else dt.timezone.utc if off == 0 else dt.timezone(dt.timedelta(minutes=off))
        return dt.datetime(*f, tzinfo=t)

    def assume(self, cond):
        if not cond:
            raise Prune()

    def check(self, cond, msg):
        self.checked += 1
        if not cond:
            raise Violation(str(msg))

    def label(self, l):
        self.labels.add(l)

    def execute(self, fn):
        return norm(fn(self))


def _dtd(ymin):
    return (('year', max(ymin, 2001)), ('month', 2), ('day', 3), ('hour', 4), ('minute', 5), ('second', 6),
            ('microsecond', 0))


def _dflt(alphabet):
    for lo, hi in alphabet:
        if lo <= 97 <= hi:
            return 97
    return alphabet[0][0]


def _off(ctx, name, tz):
    if tz == 'utc':
        return 0
    if tz == 'naive':
        return None
    if tz == 'offset':
        return ctx.int(name + '.off', -14 * 60, 14 * 60, 0)
    if tz == 'any':
        k = ctx.choice(name + '.tz', 3)
        return 0 if k == 0 else None if k == 1 else ctx.int(name + '.off', -14 * 60, 14 * 60, 0)
    raise ValueError(tz)


def norm(x):
    """outcome signature: JSON-able"""
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return [[norm(k), norm(v)] for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))]
    if isinstance(x, (set, frozenset)):
        return sorted((norm(y) for y in x), key=repr)
    if isinstance(x, bytes):
        return 'bytes:' + x.hex()
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return int.__int__(x)
    if isinstance(x, float):
        return repr(float(x))
    if isinstance(x, dt.datetime):
        return x.isoformat()
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, BaseException):
        return type(x).__name__
    return '<%s>' % type(x).__name__


class SymCtx(Base):
    symbolic = True

    def __init__(self, run, params):
        self.run = run
        self.params = params

    def int(self, name, lo, hi, default=None):
        from .values import mk
        v = z3.Int(name)
        d = [] if lo is None else [v >= lo]
        d += [] if hi is None else [v <= hi]
        dflt = default if default is not None else (lo if lo is not None else 0)
        c = self.run.declare(name, v, dflt, z3.And(d) if d else None)
        return mk(v, c)

    def choice(self, name, n):
        if '=' + name in self.params:
            return self.params['=' + name]
        if n == 1:
            return 0
        v = z3.Int(name)
        c = self.run.declare(name, v, 0, z3.And(v >= 0, v < n))
        # binary decisions keep the number of queries linear
        self.run.pick(v == c, 'branch', 'choice ' + name)
        return c

    def _len(self, name, lo, hi):
        if lo == hi:
            return lo
        v = z3.Int(name + '.len')
        c = self.run.declare(name + '.len', v, lo, z3.And(v >= lo, v <= hi))
        self.run.pick(v == c, 'branch', 'length of ' + name)
        return c

    def str(self, name, maxlen, minlen=0, alphabet=FULL):
        from .values import SymStr
        n = self._len(name, minlen, maxlen)
        c, k = [], []
        for j in range(n):
            nm = '%s[%d]' % (name, j)
            v = z3.Int(nm)
            dom = z3.Or([z3.And(v >= a, v <= b) for a, b in alphabet])
            k.append(self.run.declare(nm, v, _dflt(alphabet), dom))
            c.append(v)
        return SymStr.build(c, k)

    def bytes(self, name, maxlen, minlen=0):
        from .values import SymBytes
        n = self._len(name, minlen, maxlen)
        c, k = [], []
        for j in range(n):
            nm = '%s[%d]' % (name, j)
            v = z3.Int(nm)
            k.append(self.run.declare(nm, v, 0, z3.And(v >= 0, v <= 255)))
            c.append(v)
        return SymBytes.build(c, k)

    def datetime(self, name, tz='utc', micro=True, ymin=1970, ymax=2099, only=None):
        from .dates import SymDatetime, dim
        from .values import mk
        vs, fs = {}, []
        hi = dict(year=ymax, month=12, day=31, hour=23, minute=59, second=59, microsecond=999999 if micro else 0)
        lo = dict(year=ymin, month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
        for n, d in _dtd(ymin):
            if only and n not in only:
                fs.append(d)
                continue
            v = vs[n] = z3.Int(name + '.' + n)
            dom = z3.And(v >= lo[n], v <= hi[n])
            if n == 'day' and not only:
                dom = z3.And(dom, v <= dim(vs['year'], vs['month']))
            c = self.run.declare(name + '.' + n, v, d, dom)
            fs.append(mk(v, c))
        return SymDatetime.make(fs, _off(self, name, tz))

    def assume(self, cond):
        """cond is a bool that has already been branched on"""
        if not cond:
            raise Prune()

    def check(self, cond, msg):
        self.run.checked += 1
        if not cond:
            if callable(msg):
                r, core.CUR = core.CUR, None
                try:
                    msg = str(msg())
                finally:
                    core.CUR = r
            self.run.violated = msg
            raise Violation(msg)

    def label(self, l):
        self.run.labels.add(l)

    def execute(self, fn):
        from .values import shadow
        r = fn(self)
        if self.run.aborted:
            raise Abort(self.run.aborted)
        core.CUR = None
        return norm(shadow(r))
