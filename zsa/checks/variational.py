"""Variational objectives, gradient estimators, evaluation."""
import itertools
from ..lib import *
from ..terms import *
from .. import nf, distspec as ds
from .framework import client, gapped, run, zs, PRE, eqv, term, ALLK
from .mcmc import nf_at, noise_ids, races, assigned, _all, info_terms

S_, B = Dim('S'), Dim('B')
KN = ALLK + (S_, B, Dim('Q'))

# shape of the log densities and the reduction axes that make sense
SHAPES = [
    ('sample x batch', (S_, B), (0, 1, None)),
    ('samples', (S_,), (0, None)),
    ('batch x sample', (B, S_), (1, 0)),
    ('rank 3', (Dim('Q'), S_, B), (1, 0, 2)),
    ('scalar', (), (None,)),
]

ROUTES = PRE + '''
class Net(object):
    def __init__(self, f, obs):
        self._f = f
        self._obs = obs
        self.nodes = {}
    def log_joint(self):
        return self._f(self._obs)

class Meta(object):
    def __init__(self, f):
        self._f = f
    def observe(self, **kwargs):
        return Net(self._f, kwargs)
'''

SPEC = PRE + '''
def mean_(x, axis):
    return x if axis is None else tf.reduce_mean(x, axis)

def lme(x, axis, keep=False):
    return tf.log(tf.reduce_mean(tf.exp(x), axis, keepdims=keep))

def elbo(lp, lqs, axis):
    r = lp
    for q in lqs:
        r = r - q
    return mean_(r, axis)

def iw(lp, lqs, axis):
    r = lp
    for q in lqs:
        r = r - q
    return lme(r, axis)

def total(lqs):
    r = lqs[0]
    for q in lqs[1:]:
        r = r + q
    return r

def reinforce(lp, lqs, axis, centre):
    lq = total(lqs)
    return -mean_(lp + tf.stop_gradient(lp - lq - centre) * lq, axis)

def importance(lp, lqs, axis):
    lq = total(lqs)
    if axis is None:
        return -lq
    w = tf.exp(lp - lq)
    w = w / tf.reduce_sum(w, axis, keepdims=True)
    return -tf.reduce_sum(tf.stop_gradient(w) * lq, axis)
'''


def dists_latent(S, shape, n, pre='', dt=F32):
    """n latent variables with given samples and log densities."""
    out = {}
    for i in range(n):
        k = 'zyx'[i]
        out[k] = (S.sym(pre + 's_' + k, shape + (Dim('R'),), dt),
                  S.sym(pre + 'lq_' + k, shape, dt))
    return out


class V(object):
    def __init__(self, S, shape, n, route, shared=False, pre='', dt=F32):
        self.S = S
        self.calls = []
        self.shape, self.n, self.route, self.pre = shape, n, route, pre
        self.lat = dists_latent(S, shape, n, pre, dt)
        if shared:      # two latents with one joint log density tensor each
            lq = S.sym('lq', shape)
            self.lat = {k: (x[0], lq) for k, x in self.lat.items()}
        self.obs = {'x_obs': S.sym(pre + 'x', (B,), dt)}
        if n > 1:
            self.obs['w_obs'] = S.sym(pre + 'w', (B,))
        g = S.I.g

        def lj(o):
            self.calls.append(DictV(dict(o.d)))
            ks = sorted(o.d)
            return g.mk('opaque', tuple(S.I.tf.tensor(o.d[k]) for k in ks),
                        ('logjoint',) + tuple(ks), shape, dt)
        f = S.fn('log_joint', lj)
        self.r = client(S, ROUTES, 'route')
        self.model = f if route == 'fn' else S.call(self.r['Meta'], f)
        args = dict(self.obs)
        args.update({k: v[0] for k, v in self.lat.items()})
        self.lp = g.mk('opaque', tuple(S.I.tf.tensor(args[k])
                                       for k in sorted(args)),
                       ('logjoint',) + tuple(sorted(args)), shape, dt)
        self.lqs = ListV([v[1] for v in self.lat.values()])
        self.c = client(S, SPEC)
        self.latent = DictV({k: (v[0], v[1]) for k, v in self.lat.items()})

    def make(self, cls, **kw):
        if self.n == 2 and not self.pre:
            self.earlier(cls, kw)
        return self.construct(cls, **kw)

    def earlier(self, cls, kw):
        """Another objective of the class, for another model, was built and
        used before."""
        o = V(self.S, self.shape, self.n, self.route,
              pre='w_').construct(cls, **kw)
        if cls in ('klpq', 'InclusiveKLObjective'):
            ms = ('importance', 'rws')
        elif cls in ('elbo', 'EvidenceLowerBoundObjective'):
            ms = ('tensor', 'sgvb', 'reinforce')
        else:
            ms = ('tensor', 'sgvb', 'vimco')
        for m in ms:
            f = self.S.attr(o, m)
            if m != 'tensor':
                self.S.I.call(f, [], {'variance_reduction': False}
                              if m == 'reinforce' else {})

    def construct(self, cls, **kw):
        obs = DictV(dict(self.obs))
        o = self.S.I.call(self.S.get('zhusuan.variational', cls),
                          [self.model, obs],
                          dict(latent=self.latent, **kw))
        # the caller may reuse its dictionary: the objective is of the
        # values given when it was built
        for k in list(obs.d):
            obs.d[k] = self.S.sym('later_' + k, (B,))
        obs.d['later'] = self.S.sym('later', (B,))
        return o

    def spec(self, f, *a):
        return self.S.call(self.c[f], self.lp, self.lqs, *a)


def push_sg(p):
    """Canonical position of gradient barriers: at the leaves."""
    def leaf(k):
        if k[0] == 'sg':
            return rewr(nf.P_of_key(k[1]))
        if k[0] in ('sym', 'rnd') and not str(k[1]).startswith('sg:'):
            if k[0] == 'sym' and k[1] in ('pi', 'index'):
                return None
            return nf.A(('sym', 'sg:%s' % (k[1],), k[2]))
        if k[0] == 'app':
            return nf.A(('app', ('sg', k[1]), k[2], k[3]))
        return None

    def rewr(q):
        return nf.rewrite(q, leaf)

    def top(k):
        if k[0] == 'sg':
            return rewr(nf.P_of_key(k[1]))
        return None
    return nf.rewrite(p, top)


def live(p):
    """Atoms of p through which gradients flow."""
    return [k for k in nf.atoms_in(p) if
            (k[0] in ('sym', 'rnd') and not str(k[1]).startswith('sg:')
             and k[1] not in ('pi', 'index') and not (
                 isinstance(k[1], str) and k[1].startswith('#'))) or
            (k[0] == 'app' and not (isinstance(k[1], tuple) and
                                    k[1][0] == 'sg'))]


def same_grad(a, b):
    """Do two costs have the same gradient?  True/False/None."""
    a, b = push_sg(a), push_sg(b)
    d = nf.simplify(a - b) if hasattr(nf, 'simplify') else a - b
    if not live(d):
        return True
    return same(a, b)


def costs(S, t):
    if t.shape is None:
        raise Undecided('shape unknown')
    return S.ev(t, S.nftok(t.shape))


# ------------------------------------------------------------------ values

def c22(rep, tier):
    for (sn, shape, axes), n, route in itertools.product(
            SHAPES, (1, 2, 3), ('fn', 'meta')):
        for axis in axes:
            _value(rep, sn, shape, axis, n, route)
            if n == 2 and route == 'fn':
                _value(rep, sn, shape, axis, n, route, True)
    _bn_routes(rep, False)
    _double(rep, 'objective')
    _objective_tensor(rep)


def _value(rep, sn, shape, axis, n, route, shared=False):
    rule = 'objective'
    for cls, spec, alias in (('EvidenceLowerBoundObjective', 'elbo',
                              ('elbo',)),
                             ('ImportanceWeightedObjective', 'iw',
                              ('importance_weighted_objective',
                               'iw_objective'))):
        if spec == 'iw' and axis is None:
            continue
        for name in (cls,) + alias + (('is_loglikelihood',)
                                      if spec == 'iw' else ()):
            if name != cls and n != 2:
                continue
            tag = '%s [%s, axis=%s, %d latents, %s%s]' % (
                name, sn, axis, n, route, ', shared' if shared else '')

            def fn(S):
                v = V(S, shape, n, route, shared)
                if name == 'is_loglikelihood':
                    t = S.I.call(S.get('zhusuan.evaluation', name),
                                 [v.model, DictV(dict(v.obs))],
                                 dict(latent=v.latent, axis=axis))
                else:
                    t = S.attr(v.make(name, axis=axis), 'tensor')
                if gapped(rep, S, rule, tag):
                    return
                w = v.spec(spec, axis)
                _calls(rep, S, rule, tag, v)
                if not isinstance(t, Term) or t.shape is None:
                    rep.und(rule, tag, 'value %r' % (t,))
                    return
                if tuple(t.shape) != tuple(w.shape):
                    rep.bad(rule + ':shape', tag, 'has shape %s; expected '
                            '%s' % (t.shape, w.shape), t.site)
                    return
                g, x = nf.strip_sg(costs(S, t)), nf.strip_sg(costs(S, w))
                rep.decide(same(g, x), rule, tag, 'evaluates to %s; expected '
                           '%s' % (nf.show(g, 200), nf.show(x, 200)), t.site)
            run(rep, rule, tag, fn, known=KN)


def _calls(rep, S, rule, tag, v):
    want = dict(v.obs)
    want.update({k: x[0] for k, x in v.lat.items()})
    for c in v.calls:
        ok = set(c.d) == set(want) and all(
            isinstance(c.d[k], Term) and c.d[k].sid == want[k].sid
            for k in want)
        rep.decide(ok, rule + ':inputs', tag, 'the log joint is evaluated '
                   'with %s' % sorted(map(str, c.d)))


BNSRC = PRE + '''
@zs.meta_bayesian_net()
def model(n):
    bn = zs.BayesianNet()
    a = bn.normal("a", 0., std=2., n_samples=n)
    b = bn.normal("b", a, std=1.)
    bn.deterministic("c", a + b)
    bn.bernoulli("y", a * b)
    return bn

def q(m, s, n, rp):
    bn = zs.BayesianNet()
    a = bn.normal("a", m, std=s, n_samples=n, is_reparameterized=rp)
    b = bn.normal("b", a * m, std=1., is_reparameterized=rp)
    bn.deterministic("d", a * b)
    return bn

def q_disc(m, s, n, v):
    bn = zs.BayesianNet()
    a = bn.normal("a", m, std=s, n_samples=n)
    b = bn.bernoulli("b", a * m, dtype=tf.float32)
    bn.deterministic("d", a * b)
    return bn

def q_obs(m, s, n, v):
    bn = zs.BayesianNet(observed={"w": v})
    w = bn.normal("w", m, std=3.)
    a = bn.normal("a", m * w, std=s, n_samples=n)
    b = bn.normal("b", a * m, std=1.)
    return bn

def wanted(bn, y, mod):
    lq = bn["a"].cond_log_p + bn["b"].cond_log_p
    net = mod.observe(a=bn["a"], b=bn["b"], y=y)
    return net.log_joint(), lq
'''


def _bn_routes(rep, grads):
    """Passing a variational BayesianNet: its unobserved stochastic nodes
    are the latents, with their own conditional densities."""
    rule = 'variational-net'
    for obj, spec, axis in (('elbo', 'elbo', 0), ('elbo', 'elbo', None),
                            ('importance_weighted_objective', 'iw', 0)):
        for src in ('q', 'q_obs', 'q_disc'):
            for rp in (True, False):
                if src != 'q' and not rp:
                    continue
                for how in ('meta', 'fn'):
                    tag = '%s(variational=%s) [axis=%s, %s, reparam=%s]' % (
                        obj, src, axis, how, rp)

                    def fn(S):
                        c = client(S, BNSRC)
                        s = client(S, SPEC, 'spec')
                        m, sd = S.sym('m', (B,)), S.sym('s', (B,))
                        n = S.pyint('S')
                        y = S.sym('y', (S_, B), I32)
                        mod = S.call(c['model'], n)
                        if src == 'q':
                            q = S.call(c['q'], m, sd, n, rp)
                        else:
                            q = S.call(c[src], m, sd, n,
                                       S.sym('w', (B,)))
                        lp, lq = S.call(c['wanted'], q, y, mod)
                        mm = mod if how == 'meta' else S.fn(
                            'lj', lambda o: S.m(S.I.call(S.attr(
                                mod, 'observe'), [], dict(o.d)),
                                'log_joint'))
                        o = S.call(zsv(S, obj), mm, DictV({'y': y}),
                                   variational=q, axis=axis)
                        t = S.attr(o, 'tensor')
                        w = S.call(s[spec], lp, ListV([lq]), axis)
                        if gapped(rep, S, rule, tag):
                            return
                        if tuple(t.shape) != tuple(w.shape):
                            rep.bad(rule, tag, 'shape %s; expected %s' % (
                                t.shape, w.shape), t.site)
                            return
                        if not grads:
                            rep.decide(
                                same(costs(S, t), costs(S, w)), rule, tag,
                                'value differs from %s of the two '
                                'networks' % spec, t.site)
                            return
                        cost = S.m(o, 'sgvb')
                        rep.decide(same_grad(costs(S, cost),
                                             -costs(S, w)),
                                   rule + ':sgvb', tag, 'sgvb cost is not '
                                   'minus the objective', cost.site)
                        if spec == 'elbo':
                            r = S.I.call(S.attr(o, 'reinforce'), [],
                                         {'variance_reduction': False})
                            x = S.call(s['reinforce'], lp, ListV([lq]), axis,
                                       0.)
                            rep.decide(same_grad(costs(S, r), costs(S, x)),
                                       rule + ':reinforce', tag,
                                       'score function cost', r.site)
                    run(rep, rule, tag, fn, known=KN)


def zsv(S, name):
    return S.get('zhusuan.variational', name)


def _objective_tensor(rep):
    """An objective behaves as its tensor: conversion, arithmetic, one
    evaluation shared by every use."""
    rule = 'objective-tensor'
    src = PRE + '''
def ops(o):
    return (o + 1., 2. * o, -o, tf.exp(o), o.tensor, o.tensor,
            tf.convert_to_tensor(o))
'''
    for obj in ('elbo', 'importance_weighted_objective'):
        tag = '%s as tensor' % obj

        def fn(S):
            v = V(S, (S_, B), 2, 'fn')
            o = v.make(obj, axis=0)
            r = S.call(client(S, src, 'ops')['ops'], o)
            if gapped(rep, S, rule, tag):
                return
            t = r[4]
            g = costs(S, t)
            want = [g + nf.ONE, 2 * g, -g, nf.exp(g), g, g, g]
            for i, (x, w) in enumerate(zip(r, want)):
                rep.decide(same(costs(S, x), w), rule, '%s #%d' % (tag, i),
                           'use %d of the objective has another value' % i)
            rep.decide(r[4].sid == r[5].sid, rule, tag, 'each use builds '
                       'its own evaluation')
            rep.decide(len(v.calls) == 1, rule, tag, 'the log joint is '
                       'evaluated %d times' % len(v.calls))
            cv = [x for x in S.I.sess_conv if getattr(x[0], 'name', '') ==
                  'VariationalObjective']
            if cv:
                f = S.call(cv[-1][1], o)
                fl = f[0]
                fl = fl.items if isinstance(fl, ListV) else list(fl)
                rep.decide(len(fl) == 1 and isinstance(fl[0], Term) and
                           fl[0].sid == t.sid, rule + ':fetch', tag,
                           'session fetch is not the objective')
            else:
                rep.und(rule + ':fetch', tag, 'no session conversion found')
        run(rep, rule, tag, fn, known=KN)

    def fn(S):
        v = V(S, (S_, B), 2, 'fn')
        o = v.make('klpq', axis=0)
        expect_raise(rep, S, rule + ':klpq', 'klpq.tensor',
                     lambda: S.attr(o, 'tensor'), ['NotImplementedError'])
    run(rep, rule, 'klpq.tensor', fn, known=KN)


# --------------------------------------------------------------- gradients

def c23(rep, tier):
    for (sn, shape, axes), n, route in itertools.product(
            SHAPES, (1, 2), ('fn', 'meta')):
        for axis in axes:
            _sgvb(rep, sn, shape, axis, n, route)
            _reinforce(rep, sn, shape, axis, n, route)
            _importance(rep, sn, shape, axis, n, route)
            if axis is not None:
                _vimco(rep, sn, shape, axis, n, route)
    _bn_routes(rep, True)
    _double(rep, 'estimator')


def _double(rep, what):
    """Double-precision log densities: nothing is refused or rounded."""
    for obj, meths in (('elbo', ('tensor', 'sgvb', 'reinforce')),
                       ('importance_weighted_objective',
                        ('tensor', 'sgvb', 'vimco')),
                       ('klpq', ('importance',))):
        for meth in meths:
            if (meth == 'tensor') != (what == 'objective'):
                continue
            for sn, shape, axes in SHAPES:
                for axis in axes:
                    if axis is None and obj[0] == 'i':
                        continue
                    tag = '%s.%s [float64, %s, axis=%s]' % (obj, meth, sn,
                                                            axis)
                    _double_one(rep, what + ':double', tag, obj, meth, shape,
                                axis)


def _double_one(rep, rule, tag, obj, meth, shape, axis):
    def fn(S):
        v = V(S, shape, 1, 'fn', dt=F64)
        t = S.attr(v.make(obj, axis=axis), meth)
        if meth != 'tensor':
            t = S.I.call(t, [], {'variance_reduction': False}
                         if meth == 'reinforce' else {})
        if gapped(rep, S, rule, tag):
            return
        from .dist import rounded
        low = rounded(t, F64, False)
        rep.decide(t.dtype is F64 and not low, rule, tag, 'the value is '
                   'computed in a lower precision (%s)' % (
                       low or t.dtype.name), t.site)
    run(rep, rule, tag, fn, known=KN)


def _cost(rep, rule, tag, fn):
    def go(S):
        r = fn(S)
        if r is None or gapped(rep, S, rule, tag):
            return
        t, w = r[0], r[1]
        if t.shape is None:
            rep.und(rule, tag, 'shape unknown')
            return
        if tuple(t.shape) != tuple(w.shape):
            rep.bad(rule + ':shape', tag, 'cost has shape %s; expected %s' %
                    (t.shape, w.shape), t.site)
            return
        a, b = costs(S, t), costs(S, w)
        rep.decide(same_grad(a, b), rule, tag, 'cost is %s; its gradient '
                   'should be that of %s' % (nf.show(a, 250),
                                             nf.show(b, 250)), t.site)
    run(rep, rule, tag, go, known=KN)


def _sgvb(rep, sn, shape, axis, n, route):
    for obj, spec in (('elbo', 'elbo'),
                      ('importance_weighted_objective', 'iw')):
        if spec == 'iw' and axis is None:
            continue
        tag = '%s.sgvb [%s, axis=%s, %d latents, %s]' % (obj, sn, axis, n,
                                                         route)

        def fn(S):
            v = V(S, shape, n, route)
            o = v.make(obj, axis=axis)
            if n == 2:      # whatever was asked for before
                S.attr(o, 'tensor')
                S.m(o, 'sgvb')
            t = S.m(o, 'sgvb')
            w = S.I.tf.ew('neg', v.spec(spec, axis))
            return t, w
        _cost(rep, 'estimator:sgvb', tag, fn)


def _reinforce(rep, sn, shape, axis, n, route):
    rule = 'estimator:reinforce'
    for vr, bl in ((False, None), (True, None), (True, 'b'), (False, 'b')):
        tag = 'elbo.reinforce [%s, axis=%s, %d latents, %s, vr=%s, ' \
            'baseline=%s]' % (sn, axis, n, route, vr, bl)

        def fn(S):
            v = V(S, shape, n, route)
            o = v.make('elbo', axis=axis)
            kw = {'variance_reduction': vr}
            b = None
            if bl:
                b = S.sym('baseline', shape)
                kw['baseline'] = b
            decay = S.pyfloat('decay')
            kw['decay'] = decay
            if n == 2:
                S.attr(o, 'tensor')
                S.m(o, 'sgvb')
            r = S.I.call(S.attr(o, 'reinforce'), [], kw)
            if gapped(rep, S, rule, tag):
                return None
            centre = S.I.tf.const(0.0, F32)
            ew = S.I.tf.ew
            if vr:
                vs = [x for x, _ in S.I.tf.vars]
                if len(vs) != 1:
                    raise Undecided('moving mean variable not identified')
                mv = vs[0]
                for e in S.I.effects:
                    if e[0] == 'variable' and e[1][0] is mv:
                        rep.decide(e[1][2] is False, rule + ':mean', tag,
                                   'the moving mean is a trainable variable',
                                   e[4])
                centre = ew('add', mv, b) if bl else mv
                # the new mean averages the signal being centred
                ws = assigned(S, mv)
                if len(ws) != 1:
                    rep.decide(None if ws else False, rule + ':mean', tag,
                               'moving mean assigned %d times' % len(ws))
                else:
                    new = ws[0][0]
                    sig = v.spec('elbo', None)
                    if bl:
                        sig = ew('sub', sig, b)
                    bc = S.I.tf.call('tf.reduce_mean', [sig], {})
                    if new.op == 'opaque' and new.attrs[0] == \
                            'moving_average':
                        rep.decide(new.attrs[1] is True, rule + ':mean',
                                   tag, 'the moving mean is not corrected '
                                   'for its start at zero', new.site)
                        rep.decide(_all([eqv(S, new.args[1], bc),
                                         eqv(S, new.args[2], decay)]),
                                   rule + ':mean', tag, 'moving mean does '
                                   'not average the learning signal',
                                   new.site)
                    else:
                        rep.und(rule + ':mean', tag, 'unknown average')
                cost = r[0] if isinstance(r, tuple) else r
                rep.decide(all(reaches(cost, [w[2]]) for w in ws),
                           rule + ':mean', tag, 'evaluating the cost does '
                           'not update the moving mean')
                races(rep, S, rule + ':race', tag, info_terms(S, r))
            if bl and vr:
                if not (isinstance(r, tuple) and len(r) == 2):
                    rep.bad(rule + ':baseline', tag, 'no baseline cost is '
                            'returned')
                    return None
                cost, bcost = r
                d = ew('sub', S.I.tf.tf_stop_gradient(v.spec('elbo', None)),
                       b)
                want = S.call(v.c['mean_'], ew('mul', ew('mul', d, d),
                                               S.I.tf.const(0.5, F32)), axis)
                if tuple(bcost.shape or ()) != tuple(want.shape):
                    rep.bad(rule + ':baseline', tag, 'baseline cost has '
                            'shape %s' % (bcost.shape,), bcost.site)
                else:
                    rep.decide(same_grad(costs(S, bcost), costs(S, want)),
                               rule + ':baseline', tag, 'baseline cost is '
                               'not the squared error to the signal',
                               bcost.site)
            else:
                if isinstance(r, tuple):
                    rep.bad(rule + ':baseline', tag, 'returns a pair')
                    return None
                cost = r
            return cost, v.spec('reinforce', axis, centre)
        _cost(rep, rule, tag, fn)


def _importance(rep, sn, shape, axis, n, route):
    for meth in ('importance', 'rws'):
        if meth == 'rws' and n != 1:
            continue
        tag = 'klpq.%s [%s, axis=%s, %d latents, %s]' % (meth, sn, axis, n,
                                                         route)

        def fn(S):
            v = V(S, shape, n, route)
            o = v.make('klpq', axis=axis)
            if n == 2:
                S.m(o, meth)
            t = S.m(o, meth)
            return t, v.spec('importance', axis)
        _cost(rep, 'estimator:importance', tag, fn)


VIMCO = PRE + '''
def lme(x, axis, keep=False):
    return tf.log(tf.reduce_mean(tf.exp(x), axis, keepdims=keep))

def vimco(lw, lq, axis, size):
    """sum_k sg(L - L_{-k}) log q_k + L, L_{-k}: w_k replaced by the
    geometric mean of the others."""
    n = tf.cast(size, tf.float32)
    rest = (tf.reduce_sum(lw, axis, keepdims=True) - lw) / (n - 1.)
    ew = tf.exp(lw)
    tot = tf.reduce_sum(ew, axis, keepdims=True)
    others = 1. - tf.eye(size)
    for _ in range(len(lw.get_shape()) - axis - 1):
        others = tf.expand_dims(others, -1)
    loo = tf.log((tf.reduce_sum(tf.expand_dims(ew, axis) * others, axis + 1)
                  + tf.exp(rest)) / n)
    full = tf.log(tot / n)
    return -tf.reduce_sum(tf.stop_gradient(full - loo) * lq, axis) \\
        - lme(lw, axis)
'''


def _vimco(rep, sn, shape, axis, n, route):
    rule = 'estimator:vimco'
    tag = 'importance_weighted_objective.vimco [%s, axis=%s, %d latents, ' \
        '%s]' % (sn, axis, n, route)

    def fn(S):
        v = V(S, shape, n, route)
        o = v.make('importance_weighted_objective', axis=axis)
        if n == 2:
            S.attr(o, 'tensor')
            S.m(o, 'sgvb')
        t = S.m(o, 'vimco')
        c = client(S, VIMCO, 'vimco')
        lw = v.spec('elbo', None)
        lq = S.call(v.c['total'], v.lqs)
        w = S.call(c['vimco'], lw, lq, axis,
                   S.I.tf.dimval(shape[axis]))
        return t, w
    _cost(rep, rule, tag, fn)


# -------------------------------------------------------------- validation

OBJ = (('elbo', 'EvidenceLowerBoundObjective'),
       ('klpq', 'InclusiveKLObjective'),
       ('importance_weighted_objective', 'ImportanceWeightedObjective'))

VSRC = PRE + """
@zs.meta_bayesian_net()
def model():
    bn = zs.BayesianNet()
    a = bn.normal("a", 0., std=1., n_samples=3)
    b = bn.normal("b", a, std=1.)
    c = bn.bernoulli("c", b, dtype=tf.float32)
    bn.normal("y", a + b + c, std=1.)
    return bn

def q(names):
    bn = zs.BayesianNet()
    for n in names:
        if n == "c":
            bn.bernoulli(n, 0., n_samples=3, dtype=tf.float32)
        else:
            bn.normal(n, 0., std=1., n_samples=3)
    return bn

def plain():
    return zs.Normal(0., std=1.)
"""


def c24(rep, tier):
    rule = 'validation'
    for names in OBJ:
        for obj in names:
            def mk(S, **kw):
                c = client(S, VSRC)
                m = S.call(c['model'])
                kw.setdefault('axis', 0)
                return c, m, lambda **k: S.I.call(
                    zsv(S, obj), [m, DictV({'y': 0.5})], dict(kw, **k))

            def neither(S):
                c, m, f = mk(S)
                expect_raise(rep, S, rule, obj + ' [neither]', lambda: f(),
                             ['ValueError'])

            def both_(S):
                c, m, f = mk(S)
                q = S.call(c['q'], ListV(['a', 'b', 'c']))
                expect_raise(rep, S, rule, obj + ' [both]', lambda: f(
                    variational=q, latent=DictV({'a': (S.attr(S.call(
                        S.attr(q, '__getitem__'), 'a'), 'tensor'),
                        S.sym('l', (3,)))})), ['ValueError'])

            def wrong(S):
                c, m, f = mk(S)
                expect_raise(rep, S, rule, obj + ' [not a BayesianNet]',
                             lambda: f(variational=S.call(c['plain'])),
                             ['TypeError'])

            def wrong2(S):
                c, m, f = mk(S)
                expect_raise(rep, S, rule, obj + ' [dict as variational]',
                             lambda: f(variational=DictV(
                                 {'a': S.sym('t', (3,))})), ['TypeError'])

            def both0(S):
                c, m, f = mk(S)
                q = S.call(c['q'], ListV(['a', 'b', 'c']))
                expect_raise(rep, S, rule, obj + ' [both, no latents]',
                             lambda: f(variational=q, latent=DictV({})),
                             ['ValueError'])
            for fn in (neither, both_, both0, wrong, wrong2):
                run(rep, rule, obj, fn, known=KN)
        obj = names[0]
        # a model latent without posterior
        allv = ['a', 'b', 'c']
        for have in itertools.chain(*[itertools.combinations(allv, k)
                                      for k in range(1, 4)]):
            for via in ('variational', 'latent'):
                tag = '%s [posterior for %s via %s]' % (obj, have, via)

                def fn(S):
                    c = client(S, VSRC)
                    m = S.call(c['model'])
                    q = S.call(c['q'], ListV(list(have)))
                    kw = {'axis': 0}
                    if via == 'variational':
                        kw['variational'] = q
                    else:
                        kw['latent'] = DictV({n: (S.sym('s_' + n, (3,)),
                                                  S.sym('l_' + n, (3,)))
                                              for n in have})
                    use = (lambda o: S.m(o, 'importance')) if obj == 'klpq' \
                        else lambda o: S.attr(o, 'tensor')
                    call = lambda: use(S.I.call(zsv(S, obj), [
                        m, DictV({'y': 0.5})], kw))
                    if len(have) < 3:
                        expect_raise(rep, S, rule + ':missing', tag, call,
                                     ['ValueError'])
                    else:
                        r = call()
                        if gapped(rep, S, rule, tag):
                            return
                        rep.decide(isinstance(r, Term), rule + ':complete',
                                   tag, 'no value')
                run(rep, rule, tag, fn, known=KN)
    _iw_axis(rep)
    _vimco_size(rep)


def _iw_axis(rep):
    rule = 'validation:axis'
    for nm in ('importance_weighted_objective', 'iw_objective',
               'ImportanceWeightedObjective', 'is_loglikelihood'):
        tag = '%s [axis=None]' % nm

        def fn(S):
            v = V(S, (S_, B), 1, 'fn')
            f = S.get('zhusuan.evaluation' if nm[:2] == 'is' else
                      'zhusuan.variational', nm)
            expect_raise(rep, S, rule, tag, lambda: S.I.call(
                f, [v.model, DictV(dict(v.obs))], {'latent': v.latent}),
                ['ValueError'])
        run(rep, rule, tag, fn, known=KN)


def _vimco_size(rep):
    """vimco needs at least two samples: rejected when the size is known,
    checked at run time when it is not."""
    rule = 'validation:vimco'
    for sh, ax in (((1,), 0), ((1, B), 0), ((B, 1), 1), ((5, 1, 2), 1)):
        tag = 'vimco [%s, axis=%d]' % (sh, ax)

        def fn(S):
            v = V(S, sh, 1, 'fn')
            o = v.make('importance_weighted_objective', axis=ax)
            expect_raise(rep, S, rule, tag, lambda: S.m(o, 'vimco'),
                         ['ValueError'])
        run(rep, rule, tag, fn, known=KN)
    for sh, ax in (((2,), 0), ((3, B), 0), ((B, 2), 1), ((1, 4, 1), 1)):
        tag = 'vimco [%s, axis=%d]' % (sh, ax)

        def fn(S):
            v = V(S, sh, 1, 'fn')
            r = S.m(v.make('importance_weighted_objective', axis=ax),
                    'vimco')
            if gapped(rep, S, rule, tag):
                return
            rep.decide(isinstance(r, Term), rule + ':accepts', tag,
                       'no value')
        run(rep, rule + ':accepts', tag, fn, known=KN)
    D_ = Dim('dyn')
    for sh, ax in (((D_,), 0), ((D_, B), 0), ((B, D_), 1)):
        tag = 'vimco [%s, axis=%d, size unknown]' % (sh, ax)

        def fn(S):
            v = V(S, sh, 1, 'fn')
            r = S.m(v.make('importance_weighted_objective', axis=ax),
                    'vimco')
            if gapped(rep, S, rule, tag):
                return
            guarded_against(rep, rule + ':runtime', tag, r, [{'dyn': 1, 'B': 4}],
                            [{'dyn': n, 'B': 4} for n in (2, 3, 50)],
                            'number of samples')
        run(rep, rule + ':runtime', tag, fn, known=KN)
