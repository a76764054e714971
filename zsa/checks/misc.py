"""Log-space helpers, annealed importance sampling, flow transforms."""
import itertools
from ..lib import *
from ..terms import *
from .. import nf, numid
from ..evalnf import Evaluator
from .framework import client, gapped, run, PRE, ALLK
from .variational import V, SHAPES, KN, same_grad
from ..distrun import build as build_dist, given_of, CFGS
from .. import distspec as ds

A_, B, C = Dim('A'), Dim('B'), Dim('S')

# ------------------------------------------------------------------- C09

HELP = PRE + '''
def mean_ref(x, axis, keep):
    return tf.log(tf.reduce_mean(tf.exp(x), axis=axis, keepdims=keep))

def sum_ref(x, axis, keep):
    return tf.log(tf.reduce_sum(tf.exp(x), axis=axis, keepdims=keep))
'''

HSHAPES = [
    ((), (None, ListV([]))),
    ((A_,), (None, 0, -1, ListV([0]), (0,))),
    ((A_, B), (None, 0, 1, -1, -2, ListV([0, 1]), (1,), ListV([-1]),
               (0, -1), ListV([1, 0]))),
    ((A_, B, C), (None, 0, 1, 2, -1, -2, -3, ListV([0, 2]), (1, 2),
                  ListV([0, 1, 2]), ListV([-1, 0]), (2, 0))),
    ((1, B), (0, 1, None)),
    ((A_, 3), (0, 1, (0, 1))),
]


def _axs(a):
    return str(list(a.items)) if isinstance(a, ListV) else str(a)


def c09(rep, tier):
    for (shape, axes), keep, (name, ref) in itertools.product(
            HSHAPES, (False, True, None),
            (('log_mean_exp', 'mean_ref'), ('log_sum_exp', 'sum_ref'))):
        for axis in axes:
            _helper(rep, shape, axis, keep, name, ref)
    for (sn, shape, axes), n, (cls, meth) in itertools.product(
            SHAPES, (1, 2) if tier == 'quick' else (1, 2, 3),
            (('ImportanceWeightedObjective', 'tensor'),
             ('ImportanceWeightedObjective', 'sgvb'),
             ('ImportanceWeightedObjective', 'vimco'),
             ('InclusiveKLObjective', 'importance'),
             ('InclusiveKLObjective', 'rws'),
             ('is_loglikelihood', None))):
        for axis in axes:
            if axis is None:
                continue
            _weights(rep, sn, shape, axis, n, cls, meth)
    for d in ds.DISTS:
        if 'logits' not in d.params:
            continue
        for variant, cfg in itertools.product(
                d.variants, CFGS if tier != 'quick' else CFGS[:4]):
            _logits(rep, d, variant, cfg, 'log_prob')


def _helper(rep, shape, axis, keep, name, ref):
    rule = 'log-average'
    tag = '%s [shape %s, axis=%s, keepdims=%s]' % (name, shape, _axs(axis),
                                                   keep)

    def fn(S):
        f = S.mod('zhusuan.utils').vars.get(name)
        if f is None:
            if name == 'log_sum_exp':
                return              # deprecated helper removed
            raise AnchorMissing('zhusuan.utils.' + name)
        x = S.sym('x', shape)
        kw = {} if axis is None and keep is None else {'axis': axis}
        if keep is not None:
            kw['keepdims'] = keep
        t = S.call(f, x, **kw)
        w = S.call(client(S, HELP)[ref], x, axis, bool(keep))
        if gapped(rep, S, rule, tag):
            return
        if t.shape is None:
            rep.und(rule, tag, 'shape unknown')
            return
        if tuple(t.shape) != tuple(w.shape):
            rep.bad(rule + ':shape', tag, 'has shape %s; expected %s' %
                    (t.shape, w.shape), t.site)
            return
        ix = S.nftok(t.shape)
        p, q = S.ev(t, ix), S.ev(w, ix)
        a, b = nf.strip_sg(p), nf.strip_sg(q)
        rep.decide(same(a, b), rule, tag, 'evaluates to %s; expected %s' %
                   (nf.show(a, 200), nf.show(b, 200)), t.site)
        rep.decide(same_grad(p, q), rule + ':gradient', tag,
                   'the gradient is not that of the log average', t.site)
        bounded(rep, S, tag, [t], lambda k: k[0] == 'sym' and k[1] == 'x')
    run(rep, rule, tag, fn, known=KN)


def _weights(rep, sn, shape, axis, n, cls, meth):
    tag = '%s.%s [%s, axis=%s, %d latents]' % (cls, meth, sn, axis, n)

    def fn(S):
        v = V(S, shape, n, 'fn')
        if cls == 'is_loglikelihood':
            t = S.I.call(S.get('zhusuan.evaluation', cls),
                         [v.model, DictV(dict(v.obs))],
                         dict(latent=v.latent, axis=axis))
        else:
            o = v.make(cls, axis=axis)
            t = S.attr(o, 'tensor') if meth == 'tensor' else S.m(o, meth)
        if gapped(rep, S, 'no-overflow', tag):
            return
        bounded(rep, S, tag, [t], lambda k: k[0] == 'app' and
                'logjoint' in str(k[1]))
    run(rep, 'no-overflow', tag, fn, known=KN)


def shifted(p, hit):
    """p with one common constant added to every log weight."""
    c = nf.sym('#shift')

    def f(k):
        return nf.A(k) + c if hit(k) else None
    return nf.rewrite(p, f)


def max_leaves(x):
    ks = [k for k in nf.atoms_in(x, deep=False) if k[0] == 'max']
    for k in ks:
        if nf.equal(x, nf.A(k)):
            return max_leaves(nf.lift(nf.P_of_key(k[1]))) + \
                max_leaves(nf.lift(nf.P_of_key(k[2])))
    return [x]


def max_bounded(p, toks):
    """Is p = body[k := j] - max_k body for some index j?"""
    for k in nf.atoms_in(p, deep=False):
        if k[0] == 'max':
            q = p + nf.A(k)
            for x in max_leaves(nf.A(k)):
                if nf.equal(x, q):
                    return True
                for r in nf.atoms_in(x, deep=False):
                    if r[0] == 'red' and r[1] == 'max' and \
                            nf.equal(x, nf.A(r)) and _matches(
                                nf.P_of_key(r[3]), r[2][0], q, toks):
                        return True
        if k[0] != 'red' or k[1] != 'max':
            continue
        q = p + nf.A(k)
        body = nf.P_of_key(k[3])
        if _matches(body, k[2][0], q, toks):
            return True
    return False


def _matches(body, v, q, toks, depth=0):
    for j in toks:
        b = nf.map_atoms(body, {v: j})
        if nf.equal(b, q):
            return True
        if depth < 4:
            ks = [k for k in nf.atoms_in(b, deep=False)
                  if k[0] == 'red' and k[1] == 'max']
            for k in ks:
                if nf.equal(b, nf.A(k)) and _matches(
                        nf.P_of_key(k[3]), k[2][0], q, toks, depth + 1):
                    return True
    return False


def bounded(rep, S, tag, roots, hit):
    """Every exp of log weights has an argument shifted by their maximum."""
    rule = 'no-overflow'
    n = 0
    for t in ancestors(roots, ctrl=False).values():
        if t.op not in ('exp', 'expm1', 'sinh', 'cosh'):
            continue
        a = t.args[0]
        if not isinstance(a, Term) or a.shape is None:
            rep.und(rule, tag, 'argument of exp has unknown shape', t.site)
            continue
        ixs = itertools.product(*[
            range(d) if isinstance(d, int) and d <= 4 else (0,) if d == 1
            else ('i%d' % j,) for j, d in enumerate(a.shape)])
        for ix in ixs:
            n += _bounded1(rep, S, rule, tag, t, a, ix, hit)
    for t in ancestors(roots, ctrl=False).values():
        if t.op in ('rsum', 'rmean'):
            e = t.args[0]
            while e.op in ('id', 'chk', 'sg') or (
                    e.op == 'convert' and e.args):
                e = e.args[0]
            if e.op == 'exp' and e.args[0].shape is not None and \
                    tuple(e.shape) == tuple(t.args[0].shape):
                _underflow(rep, S, tag, t, e.args[0], hit)
    if n == 0:
        rep.ok(rule + ':no-exp', tag)


def _underflow(rep, S, tag, t, a, hit):
    """The reduced exponentials must not all vanish at once."""
    rule = 'no-underflow'
    ix = tuple(0 if d == 1 else 'i%d' % j for j, d in enumerate(a.shape))
    p = nf.strip_sg(S.ev(a, ix))
    if not any(hit(k) for k in nf.atoms_in(p)):
        return
    axes = t.attrs[0]
    axes = range(len(a.shape)) if axes is None else axes
    big = nf.rewrite(p, lambda k: nf.A(k) * nf.num(10 ** 6)
                     if hit(k) else None)
    free = [i for j, i in enumerate(ix) if isinstance(i, str) and
            j not in axes]
    good = 0
    for s in range(16):
        pt = numid.Point(s)
        env = {i: (s >> j) & 1 for j, i in enumerate(free)}
        try:
            vals = []
            for c in itertools.product(*[
                    range(pt.dsize(a.shape[j])) if isinstance(ix[j], str)
                    else (0,) for j in axes]):
                e = dict(env)
                e.update({ix[j]: v for j, v in zip(axes, c)
                          if isinstance(ix[j], str)})
                vals.append(pt.P(big, e))
        except (numid.Skip, OverflowError, ValueError, ZeroDivisionError,
                TypeError):
            continue
        good += 1
        if max(vals) < -1000:
            rep.bad(rule, tag, 'every exponential under the sum can vanish '
                    'at once: the exponents are %s' % nf.show(p, 200),
                    t.site)
            return
    rep.decide(True if good else None, rule, tag, 'not evaluable')


def exceeds(p, ix, hit):
    """Is p unbounded above as the log weights grow?  (A witness is a
    valuation of the expression's atoms.)"""
    big = nf.rewrite(p, lambda k: nf.A(k) * nf.num(10 ** 6)
                     if hit(k) else None)
    for s in range(24):
        pt = numid.Point(s)
        env = {i: (s >> j) & 1 for j, i in enumerate(ix)
               if isinstance(i, str)}
        try:
            if pt.P(big, env) > 1000:
                return True
        except (numid.Skip, OverflowError, ValueError, ZeroDivisionError,
                TypeError):
            continue
    return False


def nonpos(p):
    """p is minus a sum of absolute values, even powers or exponentials."""
    for m, c in p.t.items():
        if not m:
            if c > 0:
                return False
            continue
        if c > 0:
            return False
        for a, e in m:
            k = nf.akey(a)
            if k[0] in ('abs', 'exp', 'sigmoid', 'softplus', 'dim'):
                continue
            if e.denominator == 1 and e.numerator % 2 == 0:
                continue
            return False
    return True


def _bounded1(rep, S, rule, tag, t, a, ix, hit):
    p = nf.strip_sg(S.ev(a, ix))
    if not any(hit(k) for k in nf.atoms_in(p)):
        return 0
    if max_bounded(p, list(ix)) or nonpos(p):
        rep.ok(rule, tag)
    elif nf.has_unknown(p):
        rep.und(rule, tag, 'unknown argument', t.site)
    elif exceeds(p, ix, hit):
        rep.bad(rule, tag, 'the exponent %s is not bounded above: it '
                'overflows for inputs of large magnitude' %
                nf.show(p, 200), t.site)
    else:
        rep.und(rule, tag, 'no bound found for the exponent %s' %
                nf.show(p, 200), t.site)
    return 1


def vanishes(p, ix, hit):
    """Does p reach 0 (in any floating-point type) as the inputs grow?"""
    for sc in (10 ** 6, -10 ** 6):
        big = nf.rewrite(p, lambda k: nf.A(k) * nf.num(sc)
                         if hit(k) else None)
        for s in range(24):
            pt = numid.Point(s)
            env = {i: (s >> j) & 1 for j, i in enumerate(ix)
                   if isinstance(i, str)}
            try:
                v = pt.P(big, env)
                if isinstance(v, (int, float)) and abs(v) < 1e-320:
                    return True
            except (numid.Skip, OverflowError, ValueError,
                    ZeroDivisionError, TypeError):
                continue
    return False


def at_least_one(p):
    """p = c + (sum of non-negative parts) with c >= 1."""
    c0 = 0
    for m, c in p.t.items():
        if not m:
            c0 = c
            continue
        if c < 0 or any(nf.akey(a)[0] not in ('exp', 'abs', 'sigmoid',
                                              'softplus')
                        for a, e in m):
            return False
    return c0 >= 1


def _logits(rep, d, variant, cfg, meth):
    rule = 'finite-logits'
    tag = '%s.%s [%s %s]' % (d.name, meth, variant[0], cfg.name)
    try:
        b = build_dist(rep, d, variant, cfg)
        S = b.S
        x = given_of(b)
        t = S.I.call(S.I.getattr(b.obj, meth), [x], {})
        if gapped(rep, S, rule, tag):
            return
        hit = lambda k: k[0] == 'sym' and k[1] == 'logits'
        ts = list(ancestors([t], ctrl=False).values())
        done = set()
        for n in ts:
            if n.op not in ('exp', 'expm1', 'sinh', 'cosh', 'log', 'log1p',
                            'recip', 'div', 'divide', 'truediv', 'rsqrt'):
                continue
            if meth == 'prob' and n is t:
                continue                  # exp of a log probability
            a = n.args[-1]
            if not isinstance(a, Term) or a.shape is None or \
                    any(isinstance(q, Seg) for q in a.shape):
                continue
            ix = tuple(0 if q == 1 else 'i%d' % j
                       for j, q in enumerate(a.shape))
            if n.op in ('exp', 'expm1', 'sinh', 'cosh'):
                if meth == 'log_prob':
                    _bounded1(rep, S, rule, tag, n, a, ix, hit)
                continue
            p = nf.strip_sg(S.ev(a, ix))
            if n.op == 'log1p':
                p = p + nf.num(1)
            if not any(hit(k) for k in nf.atoms_in(p)):
                continue
            if nf.has_unknown(p):
                rep.und(rule, tag, 'unknown argument', n.site)
            elif at_least_one(p):
                rep.ok(rule, tag)
            elif vanishes(p, ix, hit):
                rep.bad(rule, tag, 'the argument %s of %s underflows to 0 '
                        'for logits of large magnitude, although the result '
                        'is finite' % (nf.show(p, 200), n.op), n.site)
            else:
                rep.und(rule, tag, 'no lower bound for %s' %
                        nf.show(p, 200), n.site)
        rep.ok(rule + ':scanned', tag)
        rep.absorb(b.I)
    except (Budget, nf.Undecidable) as e:
        rep.und(rule, tag, repr(e))
    except PyRaise as e:
        rep.bad(rule, tag, 'raises %s' % (e.exc,), e.site)


# ------------------------------------------------------------------- C25

AISSRC = PRE + '''
class Net(object):
    def __init__(self, meta, obs):
        self._meta = meta
        self._obs = obs
    def log_joint(self):
        return self._meta._f(self._obs)
    def get(self, names):
        if isinstance(names, str):
            return self._meta._draw(names)
        return [self._meta._draw(n) for n in names]
    def __getitem__(self, name):
        return self._meta._draw(name)
    def query(self, names, outputs=False, local_log_prob=False):
        return [self._meta._draw(n) for n in names]
    def outputs(self, names):
        return self.get(names)

class Meta(object):
    def __init__(self, f, draw):
        self._f = f
        self._draw = draw
    def observe(self, **kwargs):
        return Net(self, kwargs)

class Info(object):
    pass

class HMC(object):
    def __init__(self, go, info):
        self._go = go
        self._info = info
    def sample(self, meta_bn, observed, latent):
        return self._go(meta_bn, observed, latent), self._info

class Sess(object):
    def __init__(self, go):
        self._go = go
    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        return self._go(fetches, feed_dict)

def build(cls, model, proposal, hmc, observed, latent, kw):
    return cls(model, proposal, hmc, observed, latent, **kw)

def estimate(lw):
    return tf.reduce_mean(tf.log(tf.reduce_mean(tf.exp(lw), 0)))
'''


def c25(rep, tier):
    temps = (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 8, 12)
    for T, ad, n, route, vb in itertools.product(
            temps, (0, 1, 3), (1, 2), ('fn', 'meta'), (False, True)):
        if vb and (T > 3 or n > 1):
            continue
        if tier == 'quick' and T > 3 and (n > 1 or route == 'meta' or
                                          ad != 1):
            continue
        for cs in ((C, B), (C,)):
            _ais(rep, T, ad, n, route, vb, cs)
    for T in (30, 100, 300) if tier == 'quick' else (30, 100, 300, 500):
        _ais(rep, T, 2, 1, 'fn', False, (C,))


def subst(S, t, mp, memo):
    if not isinstance(t, Term):
        return t
    if t.sid in mp:
        return mp[t.sid]
    r = memo.get(t.sid)
    if r is None:
        r = t
        if t.args:
            a = tuple(subst(S, x, mp, memo) for x in t.args)
            if any(x is not y for x, y in zip(a, t.args)):
                r = S.I.g.mk(t.op, a, t.attrs, t.shape, t.dtype, t.py) \
                    if getattr(t, 'py', None) else \
                    S.I.g.mk(t.op, a, t.attrs, t.shape, t.dtype)
        memo[t.sid] = r
    return r


class Race(Exception):
    pass


class Stub(object):
    """A recording session: fetches are evaluated symbolically against the
    abstract state (versions of the latents, temperature fed)."""

    def __init__(self, rep, S, rule, tag, n, route, shape, pre=''):
        self.rep, self.S, self.rule, self.tag = rep, S, rule, tag
        g = S.I.g
        self.shape = shape
        self.c = client(S, AISSRC)
        self.names = ['zyx'[i] for i in range(n)]
        self.pre = pre
        self.lat = {k: S.var(pre + k, shape + (Dim('R'),))
                    for k in self.names}
        self.obs = {'w': S.sym(pre + 'w_obs', (B,))}
        self.calls = []
        self.draws = {}

        def density(which):
            def f(o):
                self.calls.append((which, dict(o.d)))
                ks = sorted(o.d)
                return g.mk('opaque', tuple(S.I.tf.tensor(o.d[k])
                                            for k in ks),
                            (which,) + tuple(ks), shape, F32)
            return S.fn(which, f)

        def draw(name):
            t = g.mk('sym', (), ('draw_%s%s_%d' % (pre, name,
                                                   len(self.draws)),),
                     shape + (Dim('R'),), F32)
            self.draws[t.sid] = name
            return t
        J = density('joint')
        self.model = J if route == 'fn' else \
            S.call(self.c['Meta'], J, S.fn('draw', draw))
        self.prop = S.call(self.c['Meta'], density('prior'),
                           S.fn('draw', draw))
        self.info = S.call(self.c['Info'])
        self.special = {}
        for f, sh in (('samples', None), ('acceptance_rate', shape),
                      ('orig_log_prob', shape), ('log_prob', shape),
                      ('orig_hamiltonian', shape), ('hamiltonian', shape),
                      ('updated_step_size', ()), ('init_momentum', None)):
            if sh is None:
                v = DictV({k: S.sym('info_%s_%s' % (f, k),
                                    shape + (Dim('R'),))
                           for k in self.names})
            else:
                v = S.sym('info_' + f, sh)
                self.special[v.sid] = f
            self.info.attrs[f] = v
        self.op = g.mk('sym', (), ('sample_op',), (), None)
        self.hargs = []

        def go(fn, observed, latent):
            self.hargs.append((fn, observed, latent))
            o = dict(observed.d)
            o.update(latent.d)
            self.L = S.call(fn, DictV(o))
            return self.op
        self.hmc = S.call(self.c['HMC'], S.fn('go', go), self.info)
        # abstract run-time state
        self.z = None           # version of the latents
        self.kind = {}          # version -> 'prior' | ('mcmc', temp)
        self.nv = 0
        self.log = []
        self.sess = S.call(self.c['Sess'], S.fn('run', self.run))

    def density_at(self, ver, temp, L=None):
        mp = {self.lat[k].sid: self.S.sym('%s%s@%s' % (self.pre, k, ver),
                                          self.shape + (Dim('R'),))
              for k in self.names}
        if temp is not None:
            mp[self.temp.sid] = temp
        return subst(self.S, self.L if L is None else L, mp, {})

    def run(self, fetches, feed):
        S = self.S
        if feed is not None and not isinstance(feed, DictV):
            raise Undecided('feed_dict %r' % (feed,))
        fd = dict(feed.d) if feed is not None else {}
        flat = []

        def collect(x):
            if isinstance(x, (ListV,)):
                for y in x.items:
                    collect(y)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    collect(y)
            elif isinstance(x, DictV):
                for y in x.d.values():
                    collect(y)
            else:
                flat.append(x)
        collect(fetches)
        for k, v in self.feed.items():
            ok = any(isinstance(q, Term) and q.sid == k.sid and
                     isinstance(w, Term) and w.sid == v.sid
                     for q, w in fd.items())
            self.rep.decide(ok, self.rule + ':feed', self.tag, 'a session '
                            'run does not feed what the user fed')
        temp = None
        for q, w in fd.items():
            if isinstance(q, Term) and q.sid == self.temp.sid:
                temp = self.S.I.tf.tensor(w)
        writes_init = {}
        for f in flat:
            if isinstance(f, Term):
                for t in ancestors([f]).values():
                    if t.op == 'assign':
                        writes_init[t.args[0].sid] = t
        samples = any(isinstance(f, Term) and f.sid == self.op.sid
                      for f in flat)
        if samples and writes_init:
            raise Race('latents are re-initialised and sampled in one run')
        old = self.z
        if writes_init:
            ok = True
            for k in self.names:
                a = writes_init.get(self.lat[k].sid)
                d = a is not None and self.draws.get(a.args[1].sid)
                if d != k:
                    ok = False
            self.rep.decide(ok, self.rule + ':init', self.tag,
                            'initialisation does not give every latent its '
                            'own prior sample')
            self.nv += 1
            self.z = self.nv
            self.kind[self.z] = 'prior'
            self.log.append(('init',))
        elif samples:
            if temp is None:
                raise Race('the sampler is run without a temperature')
            self.nv += 1
            self.z = self.nv
            self.kind[self.z] = ('mcmc', temp)
            self.log.append(('sample', temp))

        def value(x):
            if isinstance(x, ListV):
                return ListV([value(y) for y in x.items])
            if isinstance(x, tuple):
                return tuple(value(y) for y in x)
            if isinstance(x, DictV):
                return DictV({k: value(y) for k, y in x.d.items()})
            if not isinstance(x, Term):
                raise Undecided('fetch %r' % (x,))
            if x.sid == self.op.sid:
                return None
            sp = self.special.get(x.sid)
            if sp is not None:
                if not samples:
                    raise Race('sampler statistics are fetched without a '
                               'sampling step')
                if sp == 'orig_log_prob':
                    return self.density_at(old, temp)
                if sp == 'log_prob':
                    return self.density_at(self.z, temp)
                return S.sym('%s#%d' % (sp, self.z), x.shape)
            if any(t.op == 'assign' for t in ancestors([x]).values()):
                return None
            anc = ancestors([x])
            if (samples or writes_init) and any(
                    v.sid in anc for v in self.lat.values()):
                raise Race('the latents are read and updated in one run '
                           'without ordering')
            if self.temp.sid in anc and temp is None:
                raise Race('a temperature-dependent value is fetched '
                           'without feeding the temperature')
            return self.density_at(self.z, temp, x)
        return value(fetches)


def constval(S, t):
    p = S.ev(t, ())
    return numid.Point(0).P(p, {})


def _ais(rep, T, ad, n, route, vb, shape):
    rule = 'ais'
    tag = 'AIS.run [%d temperatures, %d adaptation steps, %d latents, %s%s, '\
        'chains %s]' % (T, ad, n, route, ', verbose' if vb else '', shape)

    def fn(S):
        try:
            body(S)
        except Race as e:
            rep.bad(rule + ':state', tag, str(e))

    def body(S):
        st = Stub(rep, S, rule, tag, n, route, shape)
        cls = S.get('zhusuan.evaluation', 'AIS')
        kw = DictV({'n_temperatures': T, 'n_adapt': ad, 'verbose': vb})
        again = (T, ad) == (2, 1) or (T, ad, n) == (3, 3, 2)
        S.I.np_terms = True
        if again:       # another estimator has been built and run before
            s0 = Stub(rep, S, rule, tag, n, route, shape, 'w_')
            np0 = len(S.I.tf.placeholders)
            o0 = S.call(s0.c['build'], cls, s0.model, s0.prop, s0.hmc,
                        DictV(dict(s0.obs)), DictV(dict(s0.lat)),
                        DictV({'n_temperatures': T + 2, 'n_adapt': ad}))
            s0.temp, s0.feed = S.I.tf.placeholders[np0], {}
            S.m(o0, 'run', s0.sess, DictV({}))
        np_ = len(S.I.tf.placeholders)
        obs0, lat0 = DictV(dict(st.obs)), DictV(dict(st.lat))
        o = S.call(st.c['build'], cls, st.model, st.prop, st.hmc, obs0, lat0,
                   kw)
        if gapped(rep, S, rule, tag):
            return
        ph = S.I.tf.placeholders[np_:]
        if len(ph) != 1 or len(st.hargs) != 1:
            rep.und(rule, tag, '%d placeholders, %d sampler calls' %
                    (len(ph), len(st.hargs)))
            return
        st.temp = ph[0]
        fnv, ob, la = st.hargs[0]
        rep.decide(isinstance(ob, DictV) and isinstance(la, DictV) and
                   {k: v.sid for k, v in ob.d.items()} ==
                   {k: v.sid for k, v in st.obs.items()} and
                   {k: v.sid for k, v in la.d.items()} ==
                   {k: v.sid for k, v in st.lat.items()},
                   rule + ':sampler', tag, 'the sampler does not get the '
                   'observations and latents of the user')
        want = set(st.obs) | set(st.lat)
        for which, d in st.calls:
            ok = set(d) == want and all(
                isinstance(v, Term) and v.sid == dict(st.obs, **st.lat)[k].sid
                for k, v in d.items())
            rep.decide(ok, rule + ':densities', tag, 'the %s is evaluated '
                       'with %s' % (which, sorted(map(str, d))))
        # annealed target
        g = S.I.g
        full = dict(st.obs, **st.lat)
        ks = sorted(full)
        P, J = [g.mk('opaque', tuple(S.I.tf.tensor(full[k]) for k in ks),
                     (w,) + tuple(ks), shape, F32) for w in
                ('prior', 'joint')]
        ix = S.nftok(shape)
        tau = S.ev(st.temp, ())
        got = S.ev(st.L, ix)
        exp_ = S.ev(P, ix) * (nf.num(1) - tau) + S.ev(J, ix) * tau
        rep.decide(same(got, exp_), rule + ':target', tag, 'annealed target '
                   'is %s; expected %s' % (nf.show(got, 200),
                                           nf.show(exp_, 200)), st.L.site)
        st.feed = {S.sym('user_ph', (B,)): S.sym('user_val', (B,))}
        fd = DictV(dict(st.feed))
        if again:       # and this one too, with other data
            st.feed = {S.sym('user_ph', (B,)): S.sym('earlier_val', (B,))}
            S.m(o, 'run', st.sess, DictV(dict(st.feed)))
            st.feed = {S.sym('user_ph', (B,)): S.sym('user_val', (B,))}
            st.log[:] = []
        r = S.m(o, 'run', st.sess, fd)
        if gapped(rep, S, rule, tag):
            return
        rep.decide(len(fd.d) == 1, rule + ':feed', tag, 'the feed dictionary '
                   'of the user is modified')
        # history
        inits = [j for j, e in enumerate(st.log) if e[0] == 'init']
        if not inits:
            rep.bad(rule + ':init', tag, 'latents are never initialised '
                    'from the prior')
            return
        chain = [e for e in st.log[inits[-1] + 1:]]
        before = [e for e in st.log[:inits[-1]] if e[0] == 'sample']
        rep.decide(len(before) == ad, rule + ':adapt', tag, '%d sampler '
                   'steps before the chain is restarted from the prior; '
                   'expected %d' % (len(before), ad))
        if before:
            rep.decide(st.log[0][0] == 'init', rule + ':adapt', tag,
                       'adaptation does not start from prior samples')
        rep.decide(len(chain) == T, rule + ':schedule', tag, '%d annealing '
                   'steps; expected %d' % (len(chain), T))
        taus = [e[1] for e in chain]
        vals = [constval(S, t) for t in taus]
        av = [constval(S, e[1]) for e in before]
        inc = all(x < y for x, y in zip([0.0] + vals, vals))
        rep.decide(inc, rule + ':schedule', tag, 'temperatures %s do not '
                   'increase strictly from 0' % vals[:8])
        rep.decide(bool(vals) and abs(vals[-1] - 1) < 1e-9,
                   rule + ':schedule', tag, 'the last temperature is %s' %
                   vals[-1:])
        rep.decide(all(0 < x <= 1 for x in av), rule + ':schedule', tag,
                   'adaptation temperature %s' % av[:1])
        if len(chain) != T:
            return
        # weights
        v0 = st.nv - T
        lw = None
        prev = S.I.tf.tensor(0.0)
        for j, t in enumerate(taus):
            d = S.I.tf.ew('sub', st.density_at(v0 + j, t),
                          st.density_at(v0 + j, prev))
            lw = d if lw is None else S.I.tf.ew('add', lw, d)
            prev = t
        w = S.call(st.c['estimate'], lw)
        if not isinstance(r, Term) or r.shape is None:
            rep.und(rule, tag, 'estimate %r' % (r,))
            return
        rep.decide(tuple(r.shape) == (), rule + ':shape', tag,
                   'the estimate has shape %s' % (r.shape,))
        a, b = S.ev(r, ()), S.ev(w, ())
        rep.decide(same(a, b), rule, tag, 'estimate is %s; expected %s' %
                   (nf.show(a, 300), nf.show(b, 300)), r.site)
        if T <= 100:
            bounded(rep, S, tag, [r], lambda k: k[0] == 'app' and
                    ('joint' in str(k[1]) or 'prior' in str(k[1])))
    run(rep, rule, tag, fn, known=KN + (Dim('R'),))


# ------------------------------------------------------------------- C26

def c26(rep, tier):
    lead = [(A_,), (A_, B)]
    for sh, d, n in itertools.product(lead, (1, 2), (1, 2, 3)):
        if (d == 2 and n > (1 if tier == 'quick' else 2)) or \
                (n == 3 and len(sh) > 1):
            continue
        _planar(rep, sh, d, n)
    _planar(rep, (A_,), 3, 1, compose=False)
    for sh, d, n in itertools.product(lead, (1, 2, 3), (1, 2, 3, 4)):
        for up in ('normal', 'gru', None):
            _iaf(rep, sh, d, n, up)
    for sh, d in itertools.product(lead, (1, 2, 3, 4)):
        _ar(rep, sh, d)
    for sh, d, n in (((A_,), 2, 1), ((A_,), 2, 2), ((A_,), 3, 1)):
        _iaf_ar(rep, sh, d, n)
    _flow_errors(rep)


def det(m):
    if len(m) == 1:
        return m[0][0]
    r = nf.num(0)
    for j in range(len(m)):
        sub = [row[:j] + row[j + 1:] for row in m[1:]]
        x = m[0][j] * det(sub)
        r = r + x if j % 2 == 0 else r - x
    return r


def jacobian(outs, name, lead, d):
    """d outs / d (entries of symbol `name` at the same leading index)."""
    def dm(c):
        ix = tuple(lead) + ((c,) if d > 1 else ())

        def f(k):
            if k[0] == 'sym' and k[1] == name:
                return nf.num(1 if tuple(k[2]) == ix else 0)
            return None
        return f
    return [[nf.diff(o, dm(c)) for c in range(d)] for o in outs]


def lead_of(name, p, lead, d):
    """Every entry of `name` in p is at the given leading index."""
    return all(tuple(k[2][:-1] if d > 1 else k[2]) == tuple(lead) for k in nf.atoms_in(p)
               if k[0] == 'sym' and k[1] == name)


def logdet_ok(lp_out, lp_in, dj):
    """lp_out = lp_in - log|dj| ?"""
    corr = nf.exp(lp_in - lp_out)
    r = same(corr, dj)
    if r is True:
        return True
    q = same(corr, nf.num(0) - dj)
    if q is True:
        return True
    if r is None or q is None:
        return None
    return False


def _planar(rep, sh, d, n, compose=True):
    rule = 'flow-density'
    tag = 'planar_normalizing_flow [leading shape %s, dimension %d, %d '\
        'layers]' % (sh, d, n)

    def fn(S):
        x = S.sym('x', sh + (d,))
        lp = S.sym('lp', sh)
        f = S.get('zhusuan.transform', 'planar_normalizing_flow')
        if n == 1:      # another flow has been built before
            S.call(f, S.sym('w_x', sh + (d,)), S.sym('w_lp', sh), 2)
        r = S.call(f, x, lp, n)
        if gapped(rep, S, rule, tag):
            return
        z, l = S.I.iterate(r) if hasattr(S.I, 'iterate') else r
        if not _flow_shapes(rep, tag, z, l, sh, d):
            return
        lead = S.nftok(sh)
        outs = [S.ev(z, lead + (c,)) for c in range(d)]
        pl = S.ev(l, lead)
        for p in outs + [pl]:
            rep.decide(lead_of('x', p, lead, d), rule + ':per-sample', tag,
                       'a sample is transformed with entries of others',
                       z.site)
        J = jacobian(outs, 'x', lead, d)
        dj = det(J)
        rep.decide(logdet_ok(pl, S.ev(lp, lead), dj), rule, tag,
                   'the log density correction is not the log determinant '
                   'of the applied transformation', l.site)
        if n == 1:
            _invertible(rep, S, tag, dj, l)
            _finite_exps(rep, S, tag, [z, l])
    run(rep, rule, tag, fn, known=KN + (A_,))


def _flow_shapes(rep, tag, z, l, sh, d):
    ok = True
    for t, w, nm in ((z, sh + (d,), 'samples'), (l, sh, 'log densities')):
        if not isinstance(t, Term) or t.shape is None:
            rep.und('flow-shape', tag, '%s: shape unknown' % nm)
            return False
        good = tuple(t.shape) == tuple(w)
        rep.decide(good, 'flow-shape', tag, '%s have shape %s; expected %s' %
                   (nm, t.shape, w), t.site)
        ok = ok and good
    return ok


def _finite_exps(rep, S, tag, roots):
    """No exponential of an unbounded parameter or input, outside the
    branches a selection may discard."""
    rule = 'flow-finite'
    seen, st, n = {}, list(roots), 0
    while st:
        t = st.pop()
        if not isinstance(t, Term) or t.sid in seen:
            continue
        seen[t.sid] = t
        st.extend(t.args[:1] if t.op in ('where', 'cond', 'select')
                  else t.args)
    hit = lambda k: k[0] == 'sym' and k[1] not in ('pi', 'index')
    for t in seen.values():
        if t.op not in ('exp', 'expm1', 'sinh', 'cosh') or \
                not isinstance(t.args[0], Term) or t.args[0].shape is None:
            continue
        n += 1
        ix = tuple(0 if d == 1 else 'i%d' % j
                   for j, d in enumerate(t.args[0].shape))
        p = nf.strip_sg(S.ev(t.args[0], ix))
        rep.decide(not exceeds(p, ix, hit), rule, tag, 'the exponential of '
                   '%s overflows for finite parameters, which makes the '
                   'samples and their density undefined' % nf.show(p, 200),
                   t.site)
    if not n:
        rep.ok(rule, tag)


def _finite_logs(S, rep, tag, l):
    """No logarithm of a gate that underflows to zero."""
    rule = 'flow-finite'
    hit = lambda k: k[0] == 'sym' and str(k[1])[:1] == 's'
    for t in ancestors([l], ctrl=False).values():
        if t.op not in ('log', 'log1p') or t.args[0].shape is None:
            continue
        ix = tuple(0 if d == 1 else 'i%d' % j
                   for j, d in enumerate(t.args[0].shape))
        p = nf.strip_sg(S.ev(t.args[0], ix))
        if t.op == 'log1p':
            p = p + nf.num(1)
        rep.decide(at_least_one(p) or not vanishes(p, ix, hit), rule, tag,
                   'the argument %s of a logarithm underflows to 0 although '
                   'the log density is finite' % nf.show(p, 200), t.site)


def _invertible(rep, S, tag, dj, l):
    """The Jacobian determinant of a layer is positive for all parameters."""
    rule = 'flow-invertible'
    wit = None
    scaled = {}
    for s in range(120):
        for f in (1, 4, 16):
            pt = numid.Point(s)

            def sc(k):
                if k[0] == 'sym' and k[1] == 'x':
                    return nf.num(0) if s % 2 else None
                if k[0] == 'sym' and k[1] not in ('pi', 'index') and f > 1:
                    return nf.A(k) * nf.num(f)
                return None
            try:
                if (s % 2, f) not in scaled:
                    scaled[s % 2, f] = nf.rewrite(dj, sc)
                v = pt.P(scaled[s % 2, f], {})
            except (numid.Skip, OverflowError, ValueError,
                    ZeroDivisionError, TypeError):
                continue
            if v < -1e-3:
                wit = v
                break
        if wit is not None:
            break
    for s in range(60 if wit is None else 0):
        vs = numid.sample(dj, s)
        if vs and max(vs) < -1e-3 - 1e4 * (max(vs) - min(vs)):
            wit = vs[0]
            break
    rep.decide(wit is None, rule, tag, 'the Jacobian determinant of a layer '
               'can be %s: the layer is not invertible for some parameter '
               'values' % wit, l.site)


IAFSRC = PRE + '''
def ref(z, s, m, lp, gru):
    if gru:
        g = tf.sigmoid(s)
        return g * z + (1 - g) * m, lp - tf.reduce_sum(tf.log(g), axis=-1)
    return s * z + m, lp - tf.reduce_sum(tf.log(s), axis=-1)
'''


def _iaf(rep, sh, d, n, up):
    rule = 'flow-density'
    tag = 'inv_autoregressive_flow [leading shape %s, dimension %d, %d '\
        'layers, update=%s]' % (sh, d, n, up)

    def fn(S):
        x = S.sym('x', sh + (d,))
        lp = S.sym('lp', sh)
        hid = S.sym('hidden', sh + (Dim('R'),))
        calls = []

        def nn(name, i, z, hidden=None):
            k = len(calls)
            m, s = S.sym('m%d' % k, sh + (d,)), S.sym('s%d' % k, sh + (d,))
            calls.append((name, i, z, hidden, m, s))
            return (m, s)
        f = S.get('zhusuan.transform', 'inv_autoregressive_flow')
        kw = {} if up is None else {'update': up}
        r = S.call(f, x, hid, lp, S.fn('nn', nn), n, **kw)
        if gapped(rep, S, rule, tag):
            return
        z, l = S.I.iterate(r) if hasattr(S.I, 'iterate') else r
        if not _flow_shapes(rep, tag, z, l, sh, d):
            return
        rep.decide(len(calls) == n, rule + ':layers', tag, '%d layers; '
                   'expected %d' % (len(calls), n))
        ids = [(str(c[0]), str(c[1])) for c in calls]
        rep.decide(len(set(ids)) == len(ids), rule + ':layers', tag,
                   'layers share one network identity %s' % ids)
        rep.decide(all(isinstance(c[3], Term) and same_t(c[3], hid)
                       for c in calls), rule + ':hidden', tag, 'the context '
                   'is not passed to the network')
        lead = S.nftok(sh)
        if up == 'gru':
            _finite_logs(S, rep, tag, l)
        # each layer: affine in its own input, m and s held fixed
        total = nf.num(1)
        for j, c in enumerate(calls):
            zin = c[2]
            zout = calls[j + 1][2] if j + 1 < len(calls) else z
            e = S.I.E.view({zin.sid: 'zin'}) if zin.op != 'sym' else S.I.E
            nm = 'zin' if zin.op != 'sym' else 'x'
            outs = [e.ev(zout, lead + (q,)) for q in range(d)]
            for p in outs:
                bad = [k for k in nf.atoms_in(p) if k[0] == 'sym' and (
                    k[1] in ('x',) and nm != 'x' or
                    str(k[1])[:1] in 'ms' and
                    str(k[1]) not in ('m%d' % j, 's%d' % j))]
                rep.decide(not bad, rule + ':layer-input', tag, 'layer %d '
                           'transforms something else than the input of its '
                           'network' % j, zout.site)
                if bad:
                    return
            J = jacobian(outs, nm, lead, d)
            total = total * det(J)
            # every output coordinate may depend on z_c, m_c, s_c of one
            # coordinate only, else the Jacobian is not triangular
            for q, p in enumerate(outs):
                cs = {k[2][-1] if d > 1 else 0 for k in nf.atoms_in(p) if k[0] == 'sym' and
                      (k[1] == nm or k[1] in ('m%d' % j, 's%d' % j))}
                rep.decide(len(cs) == 1, rule + ':triangular', tag,
                           'coordinate %d of layer %d mixes coordinates %s'
                           % (q, j, sorted(map(str, cs))), zout.site)
        pl = S.ev(l, lead)
        rep.decide(logdet_ok(pl, S.ev(lp, lead), total), rule, tag,
                   'the log density correction is not the log determinant '
                   'of the applied transformation', l.site)
        # documented update rule of a layer
        c = client(S, IAFSRC)
        e = S.I.E
        zr, lr = S.call(c['ref'], x, calls[0][5], calls[0][4], lp,
                        up == 'gru')
        z1 = calls[1][2] if n > 1 else z
        for rev in (False, True):
            if all(same(e.ev(z1, lead + (q,)), e.ev(
                    zr, lead + (d - 1 - q if rev else q,)))
                    for q in range(d)):
                break
        else:
            rep.bad(rule + ':update', tag, 'a layer does not apply the '
                    'documented update', z1.site)
            return
        rep.ok(rule + ':update', tag)
    run(rep, rule, tag, fn, known=KN + (A_, Dim('R')))


def same_t(a, b):
    while a.op in ('id', 'chk', 'convert') and a.args and a.sid != b.sid:
        a = a.args[0]
    return a.sid == b.sid


def _ar(rep, sh, d):
    rule = 'autoregressive'
    tag = 'linear_ar [leading shape %s, dimension %d]' % (sh, d)

    def fn(S):
        f = S.get('zhusuan.transform', 'linear_ar')
        x = S.sym('x', sh + (d,))
        r = S.call(f, 'net', 0, x)
        if gapped(rep, S, rule, tag):
            return
        m, s = S.I.iterate(r) if hasattr(S.I, 'iterate') else r
        lead = S.nftok(sh)
        deps = {}
        for t in (m, s):
            if tuple(t.shape) != sh + (d,):
                rep.bad(rule + ':shape', tag, 'output has shape %s' %
                        (t.shape,), t.site)
                return
            for c in range(d):
                p = S.ev(t, lead + (c,))
                rep.decide(lead_of('x', p, lead, d), rule + ':per-sample', tag,
                           'mixes samples', t.site)
                on = {k[2][-1] if d > 1 else 0 for k in nf.atoms_in(p)
                      if k[0] == 'sym' and k[1] == 'x'}
                deps.setdefault(c, set()).update(on)
                if t is s:
                    _positive(rep, rule + ':scale', tag, p, t)
        for c in range(d):
            rep.decide(deps[c] == set(range(c)), rule, tag, 'outputs for '
                       'coordinate %d depend on coordinates %s; expected '
                       'exactly the preceding ones' % (c, sorted(deps[c])),
                       m.site)
    run(rep, rule, tag, fn, known=KN + (A_,))


def _positive(rep, rule, tag, p, t):
    if len(p.t) == 1 and all(
            c > 0 and all(nf.akey(a)[0] in ('exp', 'e', 'prime')
                          for a, e in m) for m, c in p.t.items()):
        rep.ok(rule, tag)
        return
    for s in range(60):
        try:
            if numid.Point(s).P(p, {}) <= 0:
                rep.bad(rule, tag, 'the scale can be non-positive: %s' %
                        nf.show(p, 200), t.site)
                return
        except (numid.Skip, OverflowError, ValueError, ZeroDivisionError,
                TypeError):
            continue
    rep.und(rule, tag, 'sign of %s' % nf.show(p, 200), t.site)


def _iaf_ar(rep, sh, d, n):
    rule = 'flow-density'
    tag = 'inv_autoregressive_flow [linear_ar, dimension %d, %d layers]' % (
        d, n)

    def fn(S):
        x = S.sym('x', sh + (d,))
        lp = S.sym('lp', sh)
        f = S.get('zhusuan.transform', 'inv_autoregressive_flow')
        r = S.call(f, x, None, lp, S.get('zhusuan.transform', 'linear_ar'), n)
        if gapped(rep, S, rule, tag):
            return
        z, l = S.I.iterate(r) if hasattr(S.I, 'iterate') else r
        lead = S.nftok(sh)
        outs = [S.ev(z, lead + (c,)) for c in range(d)]
        dj = det(jacobian(outs, 'x', lead, d))
        rep.decide(logdet_ok(S.ev(l, lead), S.ev(lp, lead), dj), rule, tag,
                   'the log density correction is not the log determinant '
                   'of the applied transformation', l.site)
    run(rep, rule, tag, fn, known=KN + (A_,))


AR_FN = PRE + '''
def nn(name, i, z, h):
    return 0.5 * tf.stop_gradient(z), tf.exp(tf.stop_gradient(z))
'''


def _flow_errors(rep):
    rule = 'flow-arguments'
    Q = Dim('Q')
    bad = [
        ('rank-1 samples', (3,), (), 2),
        ('log densities of the rank of the samples', (A_, 3), (A_, 3), 2),
        ('log densities of too high a rank', (5, 3), (5, 3, 1), 2),
        ('log densities of another length', (5, 3), (4,), 2),
        ('log densities of another leading shape', (5, 4, 3), (5, 3), 2),
        ('non-integer number of layers', (5, 3), (5,), 2.5),
        ('number of layers not a number', (5, 3), (5,), 'two'),
        ('unknown last dimension', (5, None), (5,), 1),
    ]
    for what, xs, ls, n in bad:
        for name in ('planar_normalizing_flow', 'inv_autoregressive_flow'):
            if what == 'unknown last dimension' and name[0] == 'i':
                continue
            tag = '%s [%s]' % (name, what)
            S = Scenario(rep, known=KN + (A_,))
            xs_ = tuple(Dim('L?', None) if d is None else d for d in xs) \
                if None not in xs else None
            if xs_ is None:
                p = S.I.tf.tf_placeholder(F32, ListV(list(xs)))
            else:
                p = S.sym('x', xs)
            lp = S.sym('lp', ls)
            f = S.get('zhusuan.transform', name)
            if name[0] == 'p':
                go = lambda: S.call(f, p, lp, n)
            else:
                go = lambda: S.call(f, p, None, lp, S.get(
                    'zhusuan.transform', 'linear_ar'), n)
            expect_raise(rep, S, rule, tag, go, ['ValueError'])
            S.done()
    # sizes that are only known when the graph runs
    P = Dim('P')
    for name, xs, ls, badenv, goodenv in (
            ('planar_normalizing_flow', (P, 3), (1,), [{'P': 5}],
             [{'P': 1}]),
            ('inv_autoregressive_flow', (P, 3), (1,), [{'P': 5}],
             [{'P': 1}]),
            ('inv_autoregressive_flow', (B, P, 3), (B, 1),
             [{'P': 2, 'B': 4}], [{'P': 1, 'B': 4}]),
            ('inv_autoregressive_flow', (Seg('Q'), 3), (Seg('Q'),),
             [{'rankQ': 0}], [{'rankQ': 1}, {'rankQ': 3}])):
        tag = '%s [%s samples, %s log densities]' % (name, xs, ls)
        S = Scenario(rep, known=())

        def go():
            f = S.get('zhusuan.transform', name)
            x, lp = S.sym('x', xs), S.sym('lp', ls)
            if name[0] == 'p':
                r = S.call(f, x, lp, 1)
            else:
                r = S.call(f, x, None, lp, client(S, AR_FN)['nn'], 1)
            if S.I.unknowns:
                rep.und(rule, tag, str(S.I.unknowns[:1]))
                return
            for what, t in zip(('samples', 'log densities'), r):
                guarded_against(rep, rule + ':runtime', tag + ' ' + what, t,
                                badenv, goodenv, 'shape')
        guarded(rep, rule + ':runtime', tag, go, S.I)
        rep.absorb(S.I)


# ------------------------------------------------------------------- C27

class Expand(Evaluator):
    """Reductions over axes of known size are written out."""

    def view(self, cut):
        e = Expand(self.var_value)
        e.reader, e.cut = self.reader, dict(cut)
        return e

    def _reduce(self, t, idx):
        a = t.args[0]
        axes, keep = t.attrs[0], t.attrs[1]
        if axes == 'last' or t.op == 'rlse' or a.shape is None or \
                not all(isinstance(a.shape[j], int) for j in axes):
            return Evaluator._reduce(self, t, idx)
        it, src, red = iter(idx), [], []
        for j, d in enumerate(a.shape):
            if j in axes:
                if keep:
                    next(it)
                red.append(range(d))
                src.append(None)
            else:
                src.append(next(it))
        ps = []
        for c in itertools.product(*red):
            c = iter(c)
            ps.append(self.ev(a, tuple(next(c) if s is None else s
                                       for s in src)))
        if not ps:
            raise Undecidable('reduction of nothing')
        if t.op in ('rsum', 'rmean'):
            s = sum(ps[1:], ps[0])
            return s / nf.num(len(ps)) if t.op == 'rmean' else s
        if t.op in ('rvar', 'rstd'):
            n = nf.num(len(ps))
            m = sum(ps[1:], ps[0]) / n
            q = [(p - m) * (p - m) for p in ps]
            r = sum(q[1:], q[0]) / n
            return nf.power(r, nf.F(1, 2)) if t.op == 'rstd' else r
        r = ps[0]
        for p in ps[1:]:
            r = {'rmax': nf.fmax, 'rmin': nf.fmin,
                 'rprod': lambda x, y: x * y}[t.op](r, p)
        return r


def _flat(v, ev):
    """Normal form of a joined Python value."""
    from ..interp import Choice
    if isinstance(v, Choice):
        return nf.sel(ev.evb(v.cond), _flat(v.a, ev), _flat(v.b, ev))
    if isinstance(v, (int, float)) or isinstance(v, Term):
        return ev.scalar(v)
    raise Undecidable('value %r' % (v,))


def _ess_ref(xs, first):
    """n / (1 + 2 * sum of the autocorrelations from lag `first` up to the
    first negative one), with the multi-chain estimator for one chain."""
    n = len(xs)
    N = nf.num(n)
    tot = lambda ps: sum(ps[1:], ps[0])
    mu = tot(xs) / N
    v = tot([(x - mu) * (x - mu) for x in xs]) / N
    w = v * N / nf.num(n - 1)

    def rest(t, s):
        if t == n:
            return N / (nf.num(1) + nf.num(2) * s)
        c = tot([(xs[i] - mu) * (xs[i + t] - mu) for i in range(n - t)]) / \
            nf.num(n - t)
        rho = nf.num(1) - (w - c) / v
        return nf.sel(nf.blt(rho, nf.num(0)),
                      N / (nf.num(1) + nf.num(2) * s), rest(t + 1, s + rho))
    return rest(first, nf.num(0))


def c27(rep, tier):
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        _ess1(rep, n, (n,))
    for n, d, b in ((3, 1, 0), (4, 1, 1), (3, 2, 0), (3, 2, 2), (3, 3, 1)) + \
            (() if tier == 'quick' else ((4, 2, 1), (3, 3, 3), (5, 1, 2))):
        _ess(rep, n, d, b)
    _ess(rep, 3, 1, 100, True)
    for n in (9, 13, 24, 61, 320) if tier == 'quick' else (
            9, 13, 24, 61, 150, 320, 1400):
        _ess_long(rep, n)


LAG0 = ('the sum of autocorrelations of effective_sample_size_1d starts at '
        'lag zero')


def _ess_decide(rep, S, tag, r, mk, x):
    ev = Expand()
    p = _flat(r, ev)
    g, h = mk(ev, 1), mk(ev, 0)
    one = same(p, g)
    if one is False and same(p, h) is True:
        rep.bad('lag-zero', 'effective_sample_size_1d', LAG0)
        rep.ok('ess', tag, 'agrees apart from the first lag')
        return
    rep.decide(one, 'ess', tag, 'evaluates to %s; expected %s' % (
        nf.show(p, 300), nf.show(g, 300)))


def _ess1(rep, n, shape):
    tag = 'effective_sample_size_1d [%d samples]' % n

    def fn(S):
        x = S.I.g.mk('sym', (), ('x',), shape, F64, 'np')
        r = S.call(S.get('zhusuan.diagnostics', 'effective_sample_size_1d'),
                   x)
        if gapped(rep, S, 'ess', tag):
            return
        _ess_decide(rep, S, tag, r, lambda ev, k: _ess_ref(
            [ev.ev(x, (i,)) for i in range(n)], k), x)
    run(rep, 'ess', tag, fn)


class AtChain(Expand):
    """Expand, at a point: the entries of one symbol are given rationals."""

    def __init__(self, vals, x, var_value=None):
        Expand.__init__(self, var_value)
        self.vals, self.x = vals, x

    def view(self, cut):
        e = AtChain(self.vals, self.x, self.var_value)
        e.reader, e.cut = self.reader, dict(cut)
        return e

    def ev(self, t, idx=()):
        if isinstance(t, Term) and t.sid == self.x.sid:
            i = idx[-1]
            if not isinstance(i, int):
                raise Undecidable('position %s of the chain' % (i,))
            return nf.num(self.vals[i])
        return Expand.ev(self, t, idx)


def _chains(n):
    """Chains whose autocorrelations first turn negative early, at about a
    third of the chain, after more than half of it; and ones where they stay
    close to zero."""
    yield 'trend', [i for i in range(n)]
    if n > 300:
        return
    yield 'alternating', [(-1) ** i * (1 + i % 3) for i in range(n)]
    yield 'bend', [i * i for i in range(n)]
    k = 17
    w = []
    for i in range(n):
        k = (k * 1103515245 + 12345) % (1 << 31)
        w.append((k >> 16) % 13 - 6)
    yield 'noise', w
    acc = 0
    walk = []
    for v in w:
        acc = acc + v
        walk.append(acc)
    yield 'walk', walk
    yield 'slow', [sum(w[max(0, i - 4):i + 1]) for i in range(n)]
    late = LATE.get(n)
    if late:
        yield 'late', late


LATE = {
    9: [-10, 4, 26, 9, 14, 19, 35, 18, 41],
    13: [-28, 21, -5, -14, 1, 8, 10, 15, 12, -2, 14, 23, 48]}


def _ess_long(rep, n):
    """The term computed for a chain of n unknown samples, compared with the
    formula at chains that stop the sum at different lags."""
    tag = 'effective_sample_size_1d [%d samples]' % n

    def fn(S):
        x = S.I.g.mk('sym', (), ('x',), (n,), F64, 'np')
        r = S.call(S.get('zhusuan.diagnostics', 'effective_sample_size_1d'),
                   x)
        if gapped(rep, S, 'ess', tag):
            return
        for name, c in _chains(n):
            vals = [nf.F(v) for v in c]
            ev = AtChain(vals, x)
            p = _flat(r, ev)
            one, zero = _ess_at(vals, 1), _ess_at(vals, 0)
            at = '%s, %s chain' % (tag, name)
            if p == nf.num(one):
                rep.ok('ess:long', at, 'equal')
            elif p == nf.num(zero):
                rep.bad('lag-zero', 'effective_sample_size_1d', LAG0)
                rep.ok('ess:long', at, 'agrees apart from the first lag')
            else:
                rep.decide(same(p, nf.num(one)), 'ess:long', at,
                           'the chain %s.. gives %s; expected %s' % (
                               c[:8], nf.show(p, 60), one))
    run(rep, 'ess:long', tag, fn)


def _ess_at(xs, first):
    n = len(xs)
    mu = sum(xs) / n
    c = [x - mu for x in xs]
    v = sum(a * a for a in c) / n
    s = nf.F(0)
    for t in range(first, n):
        rho = 1 - (v * n / (n - 1) -
                   sum(c[i] * c[i + t] for i in range(n - t)) / (n - t)) / v
        if rho < 0:
            break
        s += rho
    return n / (1 + 2 * s)


def _ess(rep, n, d, b, default=False):
    tag = 'effective_sample_size [%d samples of %d coordinates after %s]' % (
        n, d, 'the default burn-in' if default else '%d of burn-in' % b)

    def fn(S):
        x = S.I.g.mk('sym', (), ('x',), (n + b, d), F64, 'np')
        f = S.get('zhusuan.diagnostics', 'effective_sample_size')
        r = S.call(f, x) if default else S.call(f, x, burn_in=b)
        if gapped(rep, S, 'ess', tag):
            return

        def mk(ev, k):
            cur = None
            for j in range(d):
                e = _ess_ref([ev.ev(x, (b + i, j)) for i in range(n)], k)
                cur = e if cur is None else nf.fmin(cur, e)
            return cur
        _ess_decide(rep, S, tag, r, mk, x)
    run(rep, 'ess', tag, fn)
