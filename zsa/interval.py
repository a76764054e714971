"""Interval domain over value-graph terms (open/closed end points)."""
import struct
import math
from .terms import Term

INF = math.inf


class Iv(object):
    """lo, hi with strictness flags (True: end point excluded)."""
    __slots__ = ('lo', 'hi', 'lo_o', 'hi_o')

    def __init__(self, lo, hi, lo_o=False, hi_o=False):
        self.lo, self.hi, self.lo_o, self.hi_o = lo, hi, lo_o, hi_o

    def __repr__(self):
        return '%s%s, %s%s' % ('(' if self.lo_o else '[', self.lo, self.hi,
                               ')' if self.hi_o else ']')


TOP = Iv(-INF, INF)


def has_zero(i):
    if i.lo > 0 or i.hi < 0:
        return False
    if i.lo == 0 and i.lo_o:
        return False
    if i.hi == 0 and i.hi_o:
        return False
    return True


def may_nonpos(i):
    return i.lo < 0 or (i.lo == 0 and not i.lo_o)


def _mul1(a, ao, b, bo):
    if a == 0:
        return 0.0, ao if b in (INF, -INF) or True else ao
    if b == 0:
        return 0.0, bo
    return a * b, ao or bo


def narrows(t):
    a = t.args[0]
    return isinstance(a, Term) and a.dtype is not None and \
        t.dtype is not None and a.dtype.kind == 'f' and \
        t.dtype.kind == 'f' and t.dtype.size < a.dtype.size


NORMAL = {'float16': 2.0 ** -14, 'float32': 2.0 ** -126}


def rounded(v, dtype):
    """The end point `v` in `dtype`; TensorFlow's kernels flush subnormal
    numbers to zero."""
    n = getattr(dtype, 'name', None)
    if v is None or v != v or v in (float('inf'), -float('inf')):
        return v
    if abs(v) < NORMAL.get(n, 0):
        return 0.0
    try:
        c = {'float16': '<e', 'float32': '<f'}.get(n)
        return struct.unpack(c, struct.pack(c, v))[0] if c else v
    except (OverflowError, struct.error):
        return v


SIZES = {'float16': 2, 'float32': 4, 'float64': 8}


def wider(t, dtype, depth=6):
    """Does t contain a machine constant of a wider float type?"""
    if not isinstance(t, Term) or dtype is None or depth == 0:
        return False
    if t.op == 'cst' and ':' in str(t.attrs[0]):
        return SIZES.get(str(t.attrs[0]).rsplit(':', 1)[1], 0) > dtype.size
    return any(wider(a, dtype, depth - 1) for a in t.args)


class Intervals(object):
    def __init__(self, params=()):
        self.memo = {}
        self.params = {p.sid for p in params}

    def of(self, t):
        if isinstance(t, bool):
            return Iv(int(t), int(t))
        if isinstance(t, (int, float)):
            return Iv(t, t)
        if not isinstance(t, Term):
            return TOP
        r = self.memo.get(t.sid)
        if r is None:
            r = self.memo[t.sid] = self._of(t)
        return r

    def _of(self, t):
        op = t.op
        A = lambda j: self.of(t.args[j])
        if op == 'const':
            v = t.attrs[0]
            try:
                return Iv(float(v), float(v))
            except (TypeError, ValueError):
                return TOP
        if op == 'cst':
            n = str(t.attrs[0])
            if n.startswith(('tiny', 'eps')):
                return Iv(0.0, 1e-3, True, False)
            if n.startswith('nextafter('):
                a, b = n[len('nextafter('):].split(')')[0].split(',')[:2]
                a, b = float(a), float(b)
                if a < b:
                    return Iv(a, a + 1e-3, True, False)
                return Iv(a - 1e-3, a, False, True)
            return TOP
        if op == 'runiform':
            lo, hi = self.of(t.args[1]), self.of(t.args[2])
            # an open end point given in a wider type rounds to the end
            return Iv(rounded(lo.lo, t.dtype), rounded(hi.hi, t.dtype),
                      lo.lo_o and not wider(t.args[1], t.dtype),
                      True)
        if op == 'cast' and narrows(t):
            a = A(0)
            return Iv(a.lo, a.hi)
        if op in ('id', 'chk', 'convert', 'sg', 'cast', 'reshape',
                  'transpose', 'expand', 'squeeze', 'tile', 'bto', 'slice',
                  'fill', 'reverse', 'preventgrad'):
            return A(0)
        if op == 'neg':
            a = A(0)
            return Iv(-a.hi, -a.lo, a.hi_o, a.lo_o)
        if op == 'add':
            a, b = A(0), A(1)
            return Iv(a.lo + b.lo, a.hi + b.hi, a.lo_o or b.lo_o,
                      a.hi_o or b.hi_o)
        if op == 'sub':
            a, b = A(0), A(1)
            return Iv(a.lo - b.hi, a.hi - b.lo, a.lo_o or b.hi_o,
                      a.hi_o or b.lo_o)
        if op == 'mul':
            if t.args[0] is t.args[1]:
                a = A(0)
                m = max(abs(a.lo), abs(a.hi))
                z = has_zero(a)
                return Iv(0.0, m * m, not z, False)
            a, b = A(0), A(1)
            c = []
            for x, xo in ((a.lo, a.lo_o), (a.hi, a.hi_o)):
                for y, yo in ((b.lo, b.lo_o), (b.hi, b.hi_o)):
                    if x == 0 or y == 0:
                        o = (x == 0 and xo) or (y == 0 and yo)
                        c.append((0.0, o))
                    else:
                        c.append((x * y, xo or yo))
            lo = min(v for v, _ in c)
            hi = max(v for v, _ in c)
            return Iv(lo, hi, all(o for v, o in c if v == lo),
                      all(o for v, o in c if v == hi))
        if op == 'abs':
            a = A(0)
            if a.lo >= 0:
                return a
            if a.hi <= 0:
                return Iv(-a.hi, -a.lo, a.hi_o, a.lo_o)
            if -a.lo > a.hi:
                return Iv(0.0, -a.lo, False, a.lo_o)
            if a.hi > -a.lo:
                return Iv(0.0, a.hi, False, a.hi_o)
            return Iv(0.0, a.hi, False, a.hi_o and a.lo_o)
        if op == 'log':
            a = A(0)
            if may_nonpos(a):
                lo, lo_o = -INF, False
            else:
                lo = math.log(a.lo) if a.lo > 0 else -INF
                lo_o = a.lo_o
            hi = math.log(a.hi) if 0 < a.hi < INF else \
                (INF if a.hi > 0 else -INF)
            return Iv(lo, hi, lo_o, a.hi_o)
        if op == 'log1p':
            a = A(0)
            lo = math.log1p(a.lo) if a.lo > -1 else -INF
            hi = math.log1p(a.hi) if -1 < a.hi < INF else INF
            return Iv(lo, hi, a.lo_o, a.hi_o)
        if op == 'exp':
            a = A(0)
            f = lambda v: 0.0 if v == -INF else (
                INF if v > 700 else math.exp(v))
            return Iv(f(a.lo), f(a.hi), True if a.lo == -INF else a.lo_o,
                      a.hi_o)
        if op == 'max':
            a, b = A(0), A(1)
            lo = max(a.lo, b.lo)
            lo_o = (a.lo_o if a.lo == lo else False) or \
                (b.lo_o if b.lo == lo else False) if a.lo == b.lo else \
                (a.lo_o if a.lo > b.lo else b.lo_o)
            hi = max(a.hi, b.hi)
            hi_o = (a.hi_o and b.hi_o) if a.hi == b.hi else \
                (a.hi_o if a.hi > b.hi else b.hi_o)
            return Iv(lo, hi, lo_o, hi_o)
        if op == 'min':
            a, b = A(0), A(1)
            hi = min(a.hi, b.hi)
            hi_o = (a.hi_o or b.hi_o) if a.hi == b.hi else \
                (a.hi_o if a.hi < b.hi else b.hi_o)
            lo = min(a.lo, b.lo)
            lo_o = (a.lo_o and b.lo_o) if a.lo == b.lo else \
                (a.lo_o if a.lo < b.lo else b.lo_o)
            return Iv(lo, hi, lo_o, hi_o)
        if op == 'sigmoid':
            return Iv(0.0, 1.0, True, True)
        if op == 'tanh':
            return Iv(-1.0, 1.0, True, True)
        if op == 'softplus':
            return Iv(0.0, INF, True, False)
        if op == 'square':
            a = A(0)
            m = max(abs(a.lo), abs(a.hi))
            z = has_zero(a)
            return Iv(0.0, m * m if m < INF else INF, not z, False)
        if op == 'sign':
            return Iv(-1.0, 1.0)
        if op == 'div':
            a, b = A(0), A(1)
            if a.lo == a.hi == 1.0 and b.lo >= 0:
                return Iv(0.0 if b.hi == INF else 1 / b.hi,
                          INF if b.lo == 0 else 1 / b.lo, b.hi_o, b.lo_o)
            return TOP
        return TOP
