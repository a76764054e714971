"""Obligations, scenarios and reporting shared by all property checks."""
import os
import signal
import time
import traceback
from . import nf, numid
from .nf import Undecidable
from .terms import (Term, Dim, Seg, Prod, DExpr, F16, F32, F64, I16, I32, I64,
                    BOOL, DTYPES, bcast, align, ShapeConflict)
from .interp import (Interp, PyRaise, Budget, AnalysisError, Unk, Choice,
                     ListV, DictV, TShape, Obj, FuncV, BoundV, Prim, ClassV,
                     IterV, MISSING, exc_name)

REPO = os.environ.get('ZSA_REPO', '/repo')


class AnchorMissing(Exception):
    """A public entry point the property is about no longer exists."""


class Undecided(Exception):
    pass


class OutOfTime(BaseException):
    """The whole check is over its time budget."""


class OutOfScenario(BaseException):
    """One scenario is over its time budget."""


_DL = {'end': None}
SCENARIO = 90


def _alarm(*_):
    end = _DL['end']
    if end is not None and time.time() >= end - 0.5:
        raise OutOfTime()
    raise OutOfScenario()


def set_deadline(sec):
    _DL['end'] = time.time() + sec if sec else None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sec)


def _arm(sec):
    if _DL['end'] is not None:
        signal.setitimer(signal.ITIMER_REAL, max(
            0.01, min(sec, _DL['end'] - time.time())))


class Ob(object):
    __slots__ = ('rule', 'construct', 'status', 'detail', 'site')

    def __init__(self, rule, construct, status, detail='', site=None):
        self.rule, self.construct, self.status = rule, construct, status
        self.detail, self.site = detail, site

    def key(self):
        return '%s @ %s' % (self.rule, self.construct)


class Report(object):
    def __init__(self):
        self.obs = []
        self.functions = set()
        self.callsites = 0
        self.scenarios = 0
        self.notes = []

    def ok(self, rule, construct, detail=''):
        self.obs.append(Ob(rule, construct, 'ok', detail))

    def bad(self, rule, construct, detail='', site=None):
        self.obs.append(Ob(rule, construct, 'violation', detail, site))

    def und(self, rule, construct, detail='', site=None):
        self.obs.append(Ob(rule, construct, 'undecided', detail, site))

    def decide(self, verdict, rule, construct, detail='', site=None):
        if verdict is None:
            self.und(rule, construct, detail, site)
        elif verdict:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, detail, site)

    def absorb(self, I):
        self.functions |= I.visited
        self.callsites += I.callsites
        self.scenarios += 1


def site_str(site):
    if not site:
        return '?'
    try:
        f, l = site[0], site[1]
        return '%s:%s' % (os.path.relpath(str(f), REPO), l)
    except Exception:
        return str(site)


class Scenario(object):
    """One abstract run: a fresh interpreter for one configuration."""

    def __init__(self, rep, known=(), all_known=False):
        self.rep = rep
        self.I = Interp(REPO, known=known)
        self.allk = all_known
        self.pkg = None

    def mod(self, name='zhusuan'):
        m = self.I.load(name)
        if m is None:
            raise AnchorMissing(name)
        return m

    def get(self, modname, attr):
        m = self.mod(modname)
        v = m.vars.get(attr)
        if v is None:
            raise AnchorMissing('%s.%s' % (modname, attr))
        return v

    def sym(self, name, shape=(), dtype=F32):
        return self.I.g.mk('sym', (), (name,), tuple(shape), dtype)

    def var(self, name, shape=(), dtype=F32):
        return self.I.g.mk('var', (), (name,), tuple(shape), dtype)

    def pyint(self, name):
        """A symbolic Python int (assumed >= 1)."""
        return self.I.tf.dimval(Dim(name))

    def pyfloat(self, name):
        return self.I.g.mk('sym', (), (name,), (), None, 'float')

    def call(self, f, *a, **k):
        return self.I.call(f, list(a), dict(k))

    def attr(self, o, n):
        return self.I.getattr(o, n)

    def m(self, o, n, *a, **k):
        return self.I.call(self.I.getattr(o, n), list(a), dict(k))

    def fn(self, name, f):
        """A Python callable given by the client (opaque to the library)."""
        return Prim(name, lambda I, a, k: f(*a, **k))

    def ev(self, t, idx):
        return self.I.E.ev(t, idx)

    def nftok(self, shape, pre='i'):
        """Index tokens: one free token per axis (0 for unit axes)."""
        return tuple(0 if d == 1 else '%s%d' % (pre, j)
                     for j, d in enumerate(shape))

    def done(self):
        self.rep.absorb(self.I)


def clean(I):
    """No modelling gap met so far?"""
    return not I.unknowns


def is_unk(v):
    return isinstance(v, (Unk, Choice)) or \
        (isinstance(v, Term) and v.op == 'unk')


def same(a, b):
    """Equality of two normal forms: True / False / None (undecided)."""
    if a is None or b is None:
        return None
    if nf.equal(a, b):
        return True
    if nf.has_unknown(a) or nf.has_unknown(b):
        return None
    r = numid.agree(a, b)
    if r is False and any(k[0] == 'app' and k[1] == 'loop'
                          for p in (a, b) for k in nf.atoms_in(p)):
        return None     # summarised loops have no canonical form
    if r is True and (not _on_equalities(a, b) or
                      not _on_large_dims(a, b) or
                      numid.wild(a, b) is not None):
        return False
    return r


def _on_equalities(a, b):
    """Random points never satisfy an equality test such as mod(t, n) == 0:
    compare the two forms again with each such test assumed to hold, where a
    scalar unknown that occurs nowhere else can make it hold."""
    eqs = {}

    def f(k):
        return None

    def fb(x):
        if x[0] == 'eq':
            eqs[x] = x
        return None
    f.b = fb
    nf.rewrite(a, f)
    nf.rewrite(b, f)
    for x in list(eqs)[:6]:
        g = lambda k: None
        g.b = lambda y, x=x: nf.BT if y == x else None
        a2, b2 = nf.rewrite(a, g), nf.rewrite(b, g)
        free = _solvable(nf.P_of_key(x[1]))
        if not free or nf.equal(a2, b2):
            continue
        inside = {k for p in (a2, b2) for k in nf.atoms_in(p)}
        if not free - inside:
            continue
        if numid.agree(a2, b2) is False:
            return False
    return True


def _on_large_dims(a, b):
    """Points have small dimensions: compare the two forms again with every
    test that depends on dimension sizes only decided as for large sizes."""
    found = []

    def val(p):
        v = 0
        for m, c in p.t.items():
            w = c
            for x, e in m:
                k = nf.akey(x)
                if k[0] != 'dim' or e.denominator != 1 or \
                        str(k[1]).startswith('rank'):
                    return None
                w *= (10 ** 6 + sum(map(ord, str(k[1])))) ** int(e) \
                    if e > 0 else 0
            v += w
        return v

    def fb(x):
        if x[0] not in ('lt', 'eq'):
            return None
        p = nf.P_of_key(x[1])
        if all(m == () for m in p.t):
            return None
        v = val(p)
        if v is None:
            return None
        found.append(x)
        return nf.BT if (v < 0 if x[0] == 'lt' else v == 0) else nf.BF

    def f(k):
        return None
    f.b = fb
    a2, b2 = nf.rewrite(a, f), nf.rewrite(b, f)
    return not found or nf.equal(a2, b2) or \
        numid.agree(a2, b2) is not False


def _solvable(p):
    """Scalar symbols through which p = 0 can be solved."""
    out = set()
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        k = nf.atom_key(m[0][0])
        if k[0] == 'fn' and k[1] == 'mod' and len(p.t) == 1:
            for m2, c2 in k[2][0]:
                if len(m2) == 1 and m2[0][1] == 1 and c2 in (1, -1):
                    k2 = nf.atom_key(m2[0][0])
                    if k2[0] == 'sym' and k2[2] == ():
                        out.add(k2)
        elif k[0] == 'sym' and k[2] == ():
            out.add(k)
    return out


def guarded(rep, rule, construct, fn, I=None):
    """Run an obligation; modelling gaps become 'undecided'."""
    try:
        _arm(SCENARIO)
        try:
            fn()
        finally:
            _arm(1e9)
    except OutOfScenario:
        rep.und(rule, construct, 'over %d s' % SCENARIO)
    except (Undecidable, Undecided, ShapeConflict, Budget, AnalysisError) \
            as e:
        rep.und(rule, construct, '%s: %s' % (type(e).__name__, e))
    except RecursionError:
        rep.und(rule, construct, 'recursion limit')
    except PyRaise as e:
        gap = I is not None and I.unknowns
        d = 'raises %s%s' % (exc_name(e.exc), exc_args(e.exc))
        if gap:
            rep.und(rule, construct, d + ' after modelling gap %s' %
                    (I.unknowns[:2],))
        else:
            rep.bad(rule, construct, d, e.site)
    except AnchorMissing:
        raise
    except Exception as e:       # an internal error of the analyser
        rep.und(rule, construct, 'internal %s: %s [%s]' % (
            type(e).__name__, e,
            traceback.format_exc().strip().split('\n')[-3].strip()))


def exc_args(exc):
    try:
        a = exc.attrs.get('args')
        return '(%s)' % (a[0] if a else '',)
    except Exception:
        return ''


def expect_raise(rep, S, rule, construct, fn, names):
    """fn() must definitely raise one of `names` (for this configuration)."""
    I = S.I
    n0 = len(I.raises)
    try:
        r = fn()
    except PyRaise as e:
        if any(_exc_sub(e.exc, n) for n in names):
            rep.ok(rule, construct)
        elif I.unknowns:
            rep.und(rule, construct, 'raises %s after modelling gap' %
                    exc_name(e.exc))
        else:
            rep.bad(rule, construct, 'raises %s%s instead of %s' %
                    (exc_name(e.exc), exc_args(e.exc), '/'.join(names)),
                    e.site)
        return
    except (Undecidable, Undecided, ShapeConflict, Budget, AnalysisError,
            RecursionError) as e:
        rep.und(rule, construct, str(e))
        return
    except AnchorMissing:
        raise
    except Exception as e:
        rep.und(rule, construct, 'internal %s: %s' % (type(e).__name__, e))
        return
    if I.unknowns or is_unk(r) or len(I.raises) > n0:
        rep.und(rule, construct, 'may raise (undecided): %s' %
                (I.unknowns[:2],))
    else:
        rep.bad(rule, construct, 'no %s is raised' % '/'.join(names))


def _exc_sub(exc, name):
    from .interp import mro_of
    try:
        return any(c.name == name for c in mro_of(exc.cls))
    except Exception:
        return exc_name(exc) == name


# ------------------------------------------------------------ graph queries

NONDIFF = {'floor', 'ceil', 'round', 'sign', 'lt', 'le', 'gt', 'ge', 'eq',
           'ne', 'and', 'or', 'not', 'xor', 'isfin', 'isnan', 'isinf', 'sg',
           'onehot', 'rcat', 'rpoisson', 'ivec', 'dim', 'rall', 'rany',
           'range', 'rother'}
# argument positions that carry no gradient
NONDIFF_ARG = {'sel': {0}, 'gamma': {0}, 'rnormal': {0}, 'runiform': {0},
               'rgamma': {0}, 'assign': {0}}


def diff_reaches(t, targets, seen=None):
    """Is one of `targets` reachable through differentiable edges?"""
    seen = set() if seen is None else seen
    stack = [t]
    ids = {x.sid for x in targets}
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x.sid in seen:
            continue
        seen.add(x.sid)
        if x.sid in ids:
            return True
        if x.op in NONDIFF:
            continue
        if x.dtype is not None and x.dtype.kind != 'f':
            continue
        skip = NONDIFF_ARG.get(x.op, ())
        for j, a in enumerate(x.args):
            if j not in skip:
                stack.append(a)
    return False


def reaches(t, targets, ctrl=True):
    """Ancestor relation along data (and control) edges."""
    ids = {x.sid for x in targets}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x.sid in seen:
            continue
        seen.add(x.sid)
        if x.sid in ids:
            return True
        stack.extend(x.args)
        if ctrl:
            stack.extend(x.ctrl)
    return False


def ancestors(ts, ctrl=True):
    seen = {}
    stack = list(ts)
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x.sid in seen:
            continue
        seen[x.sid] = x
        stack.extend(x.args)
        if ctrl:
            stack.extend(x.ctrl)
    return seen


# ------------------------------------------------- run-time assertions
def rank_of(t, env):
    if not isinstance(t, Term) or t.shape is None:
        return None
    n = 0
    for d in t.shape:
        if isinstance(d, Seg):
            k = env.get('rank' + d.name)
            if k is None:
                return None
            n += k
        else:
            n += 1
    return n


def int_of(t, env):
    """The integer a scalar term denotes under env (dimension and symbol
    names to integers), or None."""
    if isinstance(t, (int, float)):
        return t
    if not isinstance(t, Term):
        return None
    if t.op == 'const':
        return t.attrs[0] if isinstance(t.attrs[0], (int, float)) else None
    if t.op == 'dim':
        return env_dim(t.attrs[0], env)
    if t.op in ('sym', 'ph'):
        return env.get(t.attrs[0]) if t.attrs else None
    if t.op in ('id', 'convert', 'cast', 'sg', 'chk', 'expand', 'reshape',
                'squeeze', 'bto'):
        return int_of(t.args[0], env)
    if t.op in ('add', 'sub', 'mul', 'neg'):
        xs = [int_of(a, env) for a in t.args]
        if None in xs:
            return None
        return {'add': lambda: xs[0] + xs[1], 'sub': lambda: xs[0] - xs[1],
                'mul': lambda: xs[0] * xs[1], 'neg': lambda: -xs[0]}[t.op]()
    return None


def env_dim(d, env):
    if isinstance(d, int):
        return d
    if isinstance(d, Prod):
        v = 1
        for f in d.fs:
            x = env_dim(f, env)
            if x is None:
                return None
            v *= x
        return v
    if isinstance(d, DExpr):
        v = 0
        for m, c in d.p.t.items():
            x = c
            for a, e in m:
                k = nf.akey(a)
                y = env.get(k[1]) if k[0] in ('dim', 'sym') else None
                if y is None:
                    return None
                x = x * y ** e
            v += x
        return v
    return env.get(getattr(d, 'name', None))


def truth(a, env):
    """Does the asserted condition hold under env?  None: unknown."""
    k = a.attrs[0]
    if k in ('rank', 'rank_ge'):
        r, w = rank_of(a.args[0], env), int_of(a.args[1], env)
        if r is None or w is None:
            return None
        return r == w if k == 'rank' else r >= w
    if k == 'eq' and len(a.args) == 2 and all(
            isinstance(x, Term) and x.op == 'ivec' for x in a.args):
        xs, ys = [list(x.attrs) for x in a.args]
        if xs == ys:
            return True
        vs = [[None if isinstance(d, Seg) else env_dim(d, env) for d in v]
              for v in (xs, ys)]
        if None in vs[0] + vs[1]:
            return None
        return vs[0] == vs[1]
    xs = [int_of(x, env) for x in a.args]
    if None in xs or len(xs) != 2:
        return None
    x, y = xs
    return {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y,
            'le': x <= y, 'ne': x != y}.get(k)


def guards_of(r):
    return [t for t in ancestors([r]).values() if t.op == 'assertop']


def guarded_against(rep, rule, tag, r, bad, good, what):
    """The run-time assertions before r reject every env of `bad` and none
    of `good`."""
    gs = guards_of(r)
    for env in bad:
        ts = [truth(a, env) for a in gs]
        rep.decide(True if False in ts else None if None in ts else False,
                   rule, '%s %s' % (tag, _env(env)),
                   'no run-time check rejects %s' % what, r.site)
    for env in good:
        ts = [truth(a, env) for a in gs]
        rep.decide(False not in ts, rule, '%s %s accepted' % (tag, _env(env)),
                   'a run-time check rejects a valid %s' % what, r.site)


def _env(env):
    return ','.join('%s=%s' % x for x in sorted(env.items()))
