"""Identity testing of normal forms at random points of the abstract domain.

Used only to *suppress* alarms: when two normal forms are syntactically
different, they are evaluated (as expressions - nothing of the analysed
program is run) at pseudo-random valuations of their atoms.  Agreement at all
valid points means the normaliser was merely too weak to see the identity;
a clear disagreement at one valid point refutes the equality.
"""
import hashlib
import itertools
import math
from . import nf

POSITIVE = set()
NONNEG = set()


def _h(*key):
    d = hashlib.md5(repr(key).encode()).digest()
    return int.from_bytes(d[:7], 'big') / float(1 << 56)


class Skip(Exception):
    pass


class TooBig(Exception):
    pass


MAXSTEPS = 60000


def _rnd(x):
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return repr(x)
        return '%.5e' % (x + 0.0 if abs(x) > 1e-9 else 0.0)
    return x


class Point(object):
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.steps = 0
        self.run = None         # wild points: the perturbation in use
        self.ops = 0

    def dim(self, name):
        return 2 + int(_h('dim', name, self.seed) * 2)

    def dsize(self, d):
        if isinstance(d, int):
            return d
        v = self.P(nf.dim_nf(d), {})
        return int(round(v))

    def idx(self, i, env):
        if i in env:
            return env[i]
        if isinstance(i, int):
            return i
        if isinstance(i, tuple) and i:
            if i[0] == 'grp':
                return ('grp',) + tuple(self.idx(x, env) for x in i[1:])
            if i[0] == 'part':
                v = self.idx(i[1], env)
                if isinstance(v, tuple) and v[:1] == ('grp',):
                    return v[1 + i[2]]
                return ('part', v, i[2], i[3])
            if i[0] == 'ixp':
                return int(round(self.P(nf.P_of_key(i[1]), env)))
            if i[0] == 'rev':
                v = self.idx(i[1], env)
                if isinstance(v, int):
                    return self.dsize(i[2]) - 1 - v
                return ('rev', v)
        return int(_h('idx', repr(i), self.seed) * 2)

    def base(self, name, ix, positive=False):
        u = _h('val', repr(name), ix, self.seed)
        v = 0.15 + 1.6 * u
        neg = .45
        if self.run is not None and self.seed % 4 == 3:
            # ordinary spread around one distant value
            v += (-1 if _h('osgn', repr(name), self.seed) < .5 and
                  not positive else 1) * 10. ** (
                      7 * _h('off', repr(name), self.seed))
            return v
        if self.run is not None:
            # magnitudes no test input would have
            if _h('wild', repr(name), ix, self.seed) < \
                    (.6, .25)[self.seed % 2]:
                v = 10. ** ((9 if u < .5 else 3) * (2 * _h(
                    'mag', repr(name), ix, self.seed) - 1))
            neg = (0., .45, .12)[self.seed % 3]
        if not positive and self.seed % 3 and \
                _h('sgn', repr(name), ix, self.seed) < neg:
            v = -v
        return v

    def mono(self, m, c, env):
        v = float(c)
        for a, e in m:
            x = self.atom(a, env)
            e = float(e) if e.denominator != 1 else int(e)
            if e == 1:
                v = v * x
            else:
                if x == 0 and e < 0:
                    raise Skip()
                if x < 0 and not isinstance(e, int):
                    raise Skip()
                try:
                    v = v * x ** e
                except OverflowError:
                    raise Skip()
            if v == 0:
                break
        return v

    # values far outside the range of a float: (sign, log of magnitude)
    def logmono(self, m, c, env):
        sg, lg = (1 if c > 0 else -1), math.log(abs(float(c)))
        for a, e in m:
            s1, l1 = self.logatom(a, env)
            if s1 == 0:
                raise Skip()
            if s1 < 0:
                if e.denominator != 1:
                    raise Skip()
                sg *= -1 if int(e) % 2 else 1
            lg += float(e) * l1
        return sg, lg

    def logatom(self, a, env):
        k = nf._ATOMS[a]
        if k[0] == 'exp':
            return 1, self.P(nf.P({k[1]: nf.F(1)}), env)
        if k[0] in ('poly', 'sg'):
            return self.logP(nf.P_of_key(k[1]), env)
        if k[0] == 'sum':
            body = nf.P({k[2]: nf.F(1)})
            ts = []
            for vals in itertools.product(
                    *[range(min(self.dsize(d), 6)) for _, d in k[1]]):
                e2 = dict(env)
                e2.update(zip([v for v, _ in k[1]], vals))
                ts.append(self.logP(body, e2))
            return self.logadd(ts)
        x = self.atom(a, env)
        if x == 0 or abs(x) == math.inf:
            raise Skip()
        return (1 if x > 0 else -1), math.log(abs(x))

    def logP(self, p, env):
        try:
            return self.logadd([self.logmono(m, c, env)
                                for m, c in p.t.items()])
        except Skip:
            pass
        # terms of a sum that cancel exactly (sum over all minus one of them)
        ts = self.logterms(p, env)
        run, self.run = self.run, 'exact'
        try:
            ex = self.logterms(p, env)
        finally:
            self.run = run
        left = list(range(len(ts)))
        for i in range(len(ts)):
            for j in left:
                if i in left and j > i and ex[i][0] == -ex[j][0] and \
                        abs(ex[i][1] - ex[j][1]) <= 1e-15 * abs(ex[i][1]):
                    left.remove(i)
                    left.remove(j)
                    break
        if len(left) == len(ts) or not left:
            raise Skip()
        return self.logadd([ts[i] for i in left])

    def logterms(self, p, env):
        out = []
        for m, c in p.t.items():
            for i, (a, e) in enumerate(m):
                k = nf._ATOMS[a]
                if k[0] == 'sum' and e == 1:
                    break
            else:
                out.append(self.logmono(m, c, env))
                continue
            s0, l0 = self.logmono(m[:i] + m[i + 1:], c, env)
            for vals in itertools.product(
                    *[range(min(self.dsize(d), 6)) for _, d in k[1]]):
                e2 = dict(env)
                e2.update(zip([v for v, _ in k[1]], vals))
                s1, l1 = self.logP(nf.P({k[2]: nf.F(1)}), e2)
                out.append((s0 * s1, l0 + l1))
        if len(out) > 200:
            raise Skip()
        return out

    def noise(self):
        if self.run == 'exact':
            return 0.
        return 1e-12 * (2 * _h('eps', self.run, self.ops) - 1)

    def logadd(self, ts):
        if not ts:
            return 0, 0.
        top = max(l for _, l in ts)
        tot = 0.
        mag = 0.
        for s, l in ts:
            self.ops += 1
            x = s * math.exp(max(l - top, -700.))
            tot += x * (1 + self.noise())
            mag += abs(x)
        err = 1e-6 + 1e-8 * max(abs(l) for _, l in ts)
        if abs(tot) <= min(err, .5) * mag:
            raise Skip()            # a logarithm would hide the cancellation
        return (1 if tot > 0 else -1), top + math.log(abs(tot))

    def P(self, p, env):
        tot = 0.0
        scale = 0.0
        for m, c in p.t.items():
            if self.run is None:
                v = self.mono(m, c, env)
            else:
                try:
                    v = self.mono(m, c, env)
                except (Skip, OverflowError):
                    sg, lg = self.logmono(m, c, env)
                    if lg > 500:
                        raise Skip()
                    v = sg * math.exp(lg) if lg > -700 else 0.
            if self.run is not None:
                self.ops += 1
                v *= 1 + self.noise()
            tot += v
            if abs(v) != math.inf:
                scale += abs(v)
        if tot != tot or self.run is not None and abs(tot) > 1e250:
            raise Skip()
        self.scale = scale
        return tot

    def B(self, b, env):
        t = b[0]
        if t == 'T':
            return True
        if t == 'F':
            return False
        if t == 'lt':
            v = self.P(nf.P_of_key(b[1]), env)
            if abs(v) < 1e-9 * (1. if self.run is None else self.scale):
                raise Skip()
            return v < 0
        if t == 'eq':
            return abs(self.P(nf.P_of_key(b[1]), env)) < 1e-12
        if t == 'fin':
            self.P(nf.P_of_key(b[1]), env)
            return True
        if t == 'not':
            return not self.B(b[1], env)
        if t == 'and':
            return all([self.B(x, env) for x in b[1]])
        if t == 'or':
            return any([self.B(x, env) for x in b[1]])
        if t == 'bsym':
            return _h('b', self.lam(b[1], env),
                      tuple(self.idx(i, env) for i in b[2]),
                      self.seed) < 0.5
        raise Skip()

    def lam(self, x, env):
        if isinstance(x, tuple) and x and x[0] in ('lam', 'blam'):
            out = []
            for vals in itertools.islice(
                    itertools.product((0, 1), repeat=len(x[1])), 16):
                e2 = dict(env)
                e2.update(zip(x[1], vals))
                if x[0] == 'lam':
                    out.append(_rnd(self.P(nf.P_of_key(x[2]), e2)))
                else:
                    out.append(self.B(x[2], e2))
            return (x[0], len(x[1]), tuple(out))
        if isinstance(x, tuple):
            return tuple(self.lam(y, env) for y in x)
        return repr(x)

    def atom(self, a, env):
        mk = (a, tuple((v, x) for v, x in env.items()
                       if nf.depends_atom(a, v)) if env else ())
        r = self.memo.get(mk)
        if r is None:
            self.steps += 1
            if self.steps > MAXSTEPS:
                raise TooBig()
            r = self.memo[mk] = self.atom_(a, env)
        return r

    def atom_(self, a, env):
        k = nf._ATOMS[a]
        t = k[0]
        Q = lambda key: self.P(nf.P_of_key(key), env)
        if t == 'sym':
            if k[1] == 'pi':
                return math.pi
            if k[1] == 'index':
                v = self.idx(k[2][0], env)
                return float(v) if isinstance(v, int) else self.base(v, ())
            return self.base(k[1], tuple(self.idx(i, env) for i in k[2]),
                             k[1] in POSITIVE or k[1] in nf.POSITIVE_SYMS)
        if t == 'rnd':
            ix = tuple(self.idx(i, env) for i in k[2])
            u = _h('rnd', repr(k[1]), ix, self.seed)
            if k[1][0] == 'uniform':
                return 0.02 + 0.96 * u
            return 4 * u - 2
        if t == 'e':
            return math.e
        if t == 'prime':
            return float(k[1])
        if t == 'const':
            return float(k[1])
        if t == 'dim':
            nm = k[1]
            return float(self.dim(nm))
        if t == 'exp':
            v = self.P(nf.P({k[1]: nf.F(1)}), env)
            if v > 300 or self.run is not None and v < -300:
                raise Skip()
            return math.exp(v)
        if t == 'log':
            if self.run is not None:
                sg, lg = self.logP(nf.P_of_key(k[1]), env)
                if sg < 0:
                    raise Skip()
                return lg
            v = Q(k[1])
            if v == 0 and self.run is None:
                return -math.inf
            if v <= 0:
                raise Skip()
            return math.log(v)
        if t in ('poly', 'sg'):
            return Q(k[1])
        if t == 'abs':
            return abs(Q(k[1]))
        if t == 'sign':
            v = Q(k[1])
            return float((v > 0) - (v < 0))
        if t == 'ind':
            return 1.0 if self.B(k[1], env) else 0.0
        if t == 'logind':
            return 0.0 if self.B(k[1], env) else -math.inf
        if t == 'sel':
            return Q(k[2]) if self.B(k[1], env) else Q(k[3])
        if t == 'min':
            return min(Q(k[1]), Q(k[2]))
        if t == 'max':
            return max(Q(k[1]), Q(k[2]))
        if t == 'delta':
            return 1.0 if self.idx(k[1], env) == self.idx(k[2], env) else 0.0
        if t == 'fn':
            xs = [Q(x) for x in k[2]]
            n = k[1]
            try:
                if n == 'lgamma':
                    return math.lgamma(xs[0])
                if n in ('floor', 'ceil'):
                    return float(getattr(math, n)(xs[0]))
                if n == 'trunc':
                    return float(int(xs[0]))
                if n == 'mod':
                    return xs[0] % xs[1]
                if n == 'truncatemod':
                    return math.fmod(xs[0], xs[1])
                if n == 'truncatediv':
                    return float(int(xs[0] / xs[1]))
                if n == 'floordiv':
                    return float(xs[0] // xs[1])
                if n in ('sin', 'cos', 'tan', 'atan', 'erf', 'erfc'):
                    return getattr(math, n)(xs[0])
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Skip()
            return 0.3 + _h('fn', n, tuple(map(_rnd, xs)))
        if t == 'sum':
            vs = k[1]
            tot = 0.0
            body = nf.P({k[2]: nf.F(1)})
            for vals in itertools.product(
                    *[range(min(self.dsize(d), 6)) for _, d in vs]):
                e2 = dict(env)
                e2.update(zip([v for v, _ in vs], vals))
                tot += self.P(body, e2)
            return tot
        if t == 'red':
            v, d = k[2]
            xs = []
            for i in range(min(self.dsize(d), 6)):
                e2 = dict(env)
                e2[v] = i
                xs.append(self.P(nf.P_of_key(k[3]), e2))
            if k[1] == 'max':
                return max(xs)
            if k[1] == 'min':
                return min(xs)
            r = 1.0
            for x in xs:
                r *= x
            return r
        if t == 'app':
            return self.base(('app', repr(k[1]), self.lam(k[2], env)),
                             tuple(self.idx(i, env) for i in k[3]),
                             k[1] in NONNEG)
        raise Skip()


def agree(a, b, n=48):
    """True / False / None (no valid point)."""
    good = 0
    for s in range(n):
        pt = Point(s)
        try:
            x = pt.P(a, {})
            sx = pt.scale
            y = pt.P(b, {})
            sy = pt.scale
        except TooBig:
            return None
        except (Skip, OverflowError, ValueError, ZeroDivisionError):
            continue
        if x in (math.inf, -math.inf) or y in (math.inf, -math.inf):
            if x != y:
                return False
            continue
        tol = 1e-7 * max(1.0, sx, sy)
        if abs(x - y) > tol:
            return False
        good += 1
    return True if good >= 4 else None


def wild(a, b, n=120):
    """Can two forms that agree at ordinary points be told apart where their
    symbols are very large or very small (clamps, floors, epsilons)?  Every
    operation is perturbed in the twelfth digit, several times over, and a
    difference counts only where it is far beyond what that moves."""
    for s in range(n):
        xs, ys = [], []
        try:
            for r in range(3):
                pt = Point(1000 + s)
                pt.run = r
                xs.append(pt.P(a, {}))
                ys.append(pt.P(b, {}))
                if r == 0 and abs(xs[0] - ys[0]) <= 1e-9 * max(
                        abs(xs[0]), abs(ys[0])):
                    break
            else:
                m = max(map(abs, xs + ys))
                sp = max(xs) - min(xs) + max(ys) - min(ys)
                d = abs(xs[0] - ys[0])
                if 1e-100 < d < 1e250 and d > 1e-6 * m + 1e4 * sp:
                    return s
        except TooBig:
            return None
        except (Skip, OverflowError, ValueError, ZeroDivisionError):
            continue
    return None


def sample(a, s):
    """Values of a form at one wild point, under three perturbations."""
    out = []
    try:
        for r in range(3):
            pt = Point(1000 + s)
            pt.run = r
            out.append(pt.P(a, {}))
    except (TooBig, Skip, OverflowError, ValueError, ZeroDivisionError,
            TypeError):
        return None
    return out
