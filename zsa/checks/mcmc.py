"""MCMC samplers: transition equations, ordering, inputs."""
import itertools
from ..lib import *
from ..terms import *
from .. import nf, distspec as ds
from .framework import client, gapped, run, zs, PRE, eqv, term, ALLK, NOISE

C, C2, D, E = Dim('C'), Dim('C2'), Dim('D'), Dim('E')
KN = ALLK + (C, C2, D, E)

# latent layouts: (chain shape, {latent: shape})
LAYOUTS = [
    ('1 chain, 1 latent', (), {'a': (D,)}),
    ('chains, scalar latent', (C,), {'a': (C,)}),
    ('chains, 2 latents', (C,), {'b': (C, D), 'a': (C,)}),
    ('chains, 3 latents', (C,), {'b': (C, D), 'c': (C,), 'a': (C, D, E)}),
    ('2-d chains', (C, C2), {'a': (C, C2, D), 'b': (C, C2)}),
    ('scalar', (), {'a': (), 'b': (D,)}),
]


MANY = ('chains, 5 latents', (C,),
        {'e': (C,), 'b': (C, D), 'c': (C,), 'a': (C, D), 'd': (C,)})


def log_joint(S, chain, calls, pre=''):
    """A client log-joint: an uninterpreted function of all its inputs."""
    def f(obs):
        calls.append(DictV(dict(obs.d)))
        names = sorted(obs.d)
        ts = [S.I.tf.tensor(obs.d[n]) for n in names]
        return S.I.g.mk('opaque', tuple(ts), (pre + 'logjoint',) + tuple(names),
                        tuple(chain), F32)
    return S.fn('log_joint', f)


ROUTE = '''
class Net(object):
    def __init__(self, f, obs):
        self._f = f
        self._obs = obs
    def log_joint(self):
        return self._f(self._obs)

class Meta(object):
    def __init__(self, f):
        self._f = f
    def observe(self, **kwargs):
        return Net(self._f, kwargs)
'''


def setup(S, lay, route='fn'):
    name, chain, lat = lay
    calls = []
    pre = 'w_' if name.startswith('earlier ') else ''
    vs = {k: S.var(pre + 'q_' + k, sh) for k, sh in lat.items()}
    obs = {'x': S.sym(pre + 'x', (D,)), 'y': S.sym(pre + 'y', (C, E))}
    if pre:
        obs['z'] = S.sym('w_z', (D,))
    lj = log_joint(S, chain, calls, pre)
    if route == 'meta':
        m = client(S, ROUTE, 'route')
        lj = S.call(m['Meta'], lj)
    return vs, obs, calls, lj


def assigned(S, v):
    """Values assigned to variable v: list of (term, guards)."""
    out = []
    for e in S.I.effects:
        if e[0] == 'assign' and e[1].args[0].sid == v.sid:
            out.append((e[1].args[1], e[2], e[1], e[4]))
    return out


def nf_at(S, t):
    if t.shape is None:
        raise Undecided('shape unknown')
    return S.ev(t, S.nftok(t.shape))


def noise_ids(*ps):
    ids = []
    for p in ps:
        for k in sorted(nf.atoms_in(p), key=repr):
            if k[0] == 'rnd' and k[1] not in ids:
                ids.append(k[1])
    return ids


def map_noise(p, mp):
    """rnd atom -> symbol; mp: id -> (name, sign)."""
    def f(k):
        if k[0] == 'rnd' and k[1] in mp:
            nm, sg = mp[k[1]]
            return sg * nf.A(('sym', nm, k[2]))
        return None
    return nf.rewrite(p, f)


def match_noise(pairs, names, kinds=('normal',), out=None):
    """Is there an assignment of the drawn noise to the specification's
    noise (up to sign) making every pair equal?  True/False/None."""
    ids = noise_ids(*[p for p, _ in pairs])
    ids = [i for i in ids if i[0] in kinds]
    if len(ids) != len(names):
        # still allow a superset/subset; decided by equality below
        pass
    verd = []
    n = max(len(ids), len(names))
    if n > 4:
        raise Undecided('too many noise sources')
    for perm in itertools.permutations(range(len(names)),
                                       min(len(ids), len(names))):
        for signs in itertools.product((1, -1), repeat=len(perm)):
            mp = {i: (names[j], s) for i, j, s in zip(ids, perm, signs)}
            rs = []
            for p, w in pairs:
                r = same(map_noise(p, mp), w)
                rs.append(r)
                if r is not True:
                    break
            if all(r is True for r in rs):
                if out is not None:
                    out.update({names[j]: i for i, j in zip(ids, perm)})
                return True
            verd.append(rs[-1])
    if not verd:
        rs = [same(p, w) for p, w in pairs]
        return all(rs) if None not in rs else None
    return None if all(v is None for v in verd) else False


def var_state(S, name_prefix=None):
    return list(S.I.tf.vars)


# ------------------------------------------------------ stochastic gradient

SPEC = PRE + '''
def grads(lj, names, qs, obs):
    d = dict(zip(names, qs))
    d.update(obs)
    return tf.gradients(lj(d), qs)

def resample(t, n, v, noise, lr):
    fresh = noise * tf.sqrt(lr)
    never = tf.equal(n, 0)
    due = tf.equal(tf.mod(t, n), 0)
    return tf.where(tf.logical_or(never, tf.logical_not(due))
                    & tf.ones_like(v, dtype=tf.bool), v, fresh)

def sgld(lj, names, qs, obs, lr, N):
    g = grads(lj, names, qs, obs)
    return [q + lr / 2. * gi + tf.sqrt(lr) * n
            for q, gi, n in zip(qs, g, N)]

def psgld(lj, names, qs, obs, lr, N, aux, decay, eps):
    g = grads(lj, names, qs, obs)
    nv = [decay * a + (1. - decay) * gi * gi for a, gi in zip(aux, g)]
    pre = [1. / (eps + tf.sqrt(v)) for v in nv]
    return [q + lr / 2. * p * gi + tf.sqrt(lr * p) * n
            for q, gi, n, p in zip(qs, g, N, pre)], nv

def sghmc(lj, names, qs, obs, lr, N, vs, fric, var, second):
    noise = [tf.sqrt(2. * (fric - var) * lr) * n for n in N]
    if not second:
        g = grads(lj, names, qs, obs)
        nv = [(1. - fric) * v + lr * gi + n
              for v, gi, n in zip(vs, g, noise)]
        return [q + v for q, v in zip(qs, nv)], nv
    mid = [q + v / 2. for q, v in zip(qs, vs)]
    g = grads(lj, names, mid, obs)
    dh = tf.exp(-fric / 2.)
    nv = [dh * (dh * v + lr * gi + n) for v, gi, n in zip(vs, g, noise)]
    return [m + v / 2. for m, v in zip(mid, nv)], nv

def sgnht(lj, names, qs, obs, lr, N, vs, al, a, rate, second, vec):
    red = (lambda x: x) if vec else tf.reduce_mean
    noise = [tf.sqrt(2. * a * lr) * n for n in N]
    if not second:
        g = grads(lj, names, qs, obs)
        nv = [(1. - ai) * v + lr * gi + n
              for v, gi, n, ai in zip(vs, g, noise, al)]
        nq = [q + v for q, v in zip(qs, nv)]
        na = [ai + rate * (red(v * v) - lr) for ai, v in zip(al, nv)]
        return nq, nv, na
    mid = [q + v / 2. for q, v in zip(qs, vs)]
    a1 = [ai + rate / 2. * (red(v * v) - lr) for ai, v in zip(al, vs)]
    dh = [tf.exp(-x / 2.) for x in a1]
    g = grads(lj, names, mid, obs)
    nv = [d * (d * v + lr * gi + n) for d, v, gi, n in zip(dh, vs, g, noise)]
    nq = [m + v / 2. for m, v in zip(mid, nv)]
    na = [x + rate / 2. * (red(v * v) - lr) for x, v in zip(a1, nv)]
    return nq, nv, na
'''


def used(lay):
    """The layout, in a process that has used other samplers before."""
    return ('used ' + lay[0],) + tuple(lay[1:])


def alike(lay):
    """As used(), with latents of the same shapes."""
    return ('used alike ' + lay[0],) + tuple(lay[1:])


def earlier(S, lay, make, same=None):
    """Another sampler of the kind (and, where given, this very one) has been
    asked to sample the latents of another model."""
    if not lay[0].startswith('used '):
        return
    n = len(S.I.effects)
    for smp in [make()] if same is None else [same]:
        other = LAYOUTS[4] if len(lay[1]) == 0 else LAYOUTS[0]
        if lay[0].startswith('used alike '):
            other = lay
        vs, obs, calls, lj = setup(S, ('earlier ' + other[0],) + other[1:])
        S.m(smp, 'sample', lj, DictV(dict(obs)), DictV(dict(vs)))
        if same is not None:
            m = client(S, ROUTE, 'route')
            S.m(smp, 'sample', S.call(m['Meta'], lj), DictV(dict(obs)),
                DictV(dict(vs)))
    # the updates of those operations are no part of the one analysed
    S.I.effects[n:] = [e for e in S.I.effects[n:] if e[0] != 'assign']


def sg_cases(tier):
    for lay in [used(LAYOUTS[0]), used(LAYOUTS[2]), alike(LAYOUTS[2])]:
        yield 'SGLD', lay, {}
        yield 'PSGLD', lay, {'hp': True}
        for so in (True, False):
            yield 'SGHMC', lay, {'second': so, 'n': 'n'}
            yield 'SGNHT', lay, {'second': so, 'n': 'n', 'vec': so}
    yield 'SGLD', MANY, {}
    yield 'PSGLD', MANY, {}
    for so in (True, False):
        yield 'SGHMC', MANY, {'second': so, 'n': None}
        yield 'SGNHT', MANY, {'second': so, 'n': None, 'vec': so}
    yield 'SGHMC', LAYOUTS[2], {'second': True, 'n': 20, 'default': True}
    yield 'SGNHT', LAYOUTS[2], {'second': True, 'n': None, 'vec': True,
                                'default': True}
    lays = LAYOUTS if tier == 'thorough' else LAYOUTS[:1] + LAYOUTS[2:4]
    for lay in lays:
        yield 'SGLD', lay, {}
        yield 'PSGLD', lay, {}
        yield 'PSGLD', lay, {'hp': True}
        for so in (True, False):
            for n in (None, 0, 'n', 7):
                if tier == 'quick' and n in (0, 7):
                    continue
                yield 'SGHMC', lay, {'second': so, 'n': n}
                for vec in (True, False):
                    yield 'SGNHT', lay, {'second': so, 'n': n, 'vec': vec}


def sg_build(S, kind, lay, o, route='fn'):
    vs, obs, calls, lj = setup(S, lay, route)
    lr = S.sym('lr', ())
    kw = {'learning_rate': lr}
    if kind == 'PSGLD' and o.get('hp'):
        nt = S.get('zhusuan.sgmcmc', 'PSGLD')
        rms = S.attr(nt, 'RMSPreconditioner')
        kw['preconditioner_hparams'] = S.call(
            S.attr(rms, 'HParams'), decay=S.sym('decay', ()),
            epsilon=S.sym('eps0', ()))
    if kind == 'SGHMC':
        kw.update(friction=S.sym('fric', ()), second_order=o['second'],
                  variance_estimate=S.sym('vest', ()))
    if kind == 'SGNHT':
        kw.update(variance_extra=S.sym('vext', ()),
                  tune_rate=S.sym('rate', ()), second_order=o['second'],
                  use_vector_alpha=o['vec'])
    if kind in ('SGHMC', 'SGNHT'):
        kw['n_iter_resample_v'] = S.sym('nre', (), I32) if o['n'] == 'n' \
            else o['n']
    if o.get('default'):
        kw = {'learning_rate': lr}
    earlier(S, lay, lambda: S.I.call(zs(S, kind), [], dict(kw)))
    n0 = len(S.I.tf.vars)
    smp = S.I.call(zs(S, kind), [], kw)
    before = {v.sid for v, _ in S.I.tf.vars}
    earlier(S, lay, None, smp)
    used_vars = {v.sid for v, _ in S.I.tf.vars} - before
    op, info = S.m(smp, 'sample', lj, DictV(dict(obs)), DictV(dict(vs)))
    aux = [(v, t) for v, t in S.I.tf.vars if v.sid not in before and
           v.sid not in used_vars]
    counters = [(v, t) for v, t in S.I.tf.vars[n0:] if v.sid in before]
    return vs, obs, lj, lr, smp, op, info, aux, counters, calls


def c14(rep, tier):
    for kind, lay, o in sg_cases(tier):
        _sg_one(rep, kind, lay, o)


def final_value(S, rep, rule, tag, v):
    ws = assigned(S, v)
    if len(ws) != 1:
        rep.decide(None if len(ws) > 1 else False, rule, tag,
                   'variable is assigned %d times' % len(ws))
        return None
    return ws[0][0]


def _sg_one(rep, kind, lay, o):
    rule = 'update-rule'
    tag = '%s.sample [%s %s]' % (kind, lay[0], sorted(o.items(), key=str))

    def fn(S):
        vs, obs, lj, lr, smp, op, info, aux, cnt, calls = sg_build(
            S, kind, lay, o)
        if gapped(rep, S, rule, tag):
            return
        names = list(vs)
        n = len(names)
        c = client(S, SPEC)
        L = lambda xs: ListV(list(xs))
        qs = [vs[k] for k in names]
        N = [S.sym('N%d' % i, q.shape) for i, q in enumerate(qs)]
        obsd = DictV(dict(obs))
        tvar = [v for v, t in cnt if v.dtype is I32]
        new_q = [final_value(S, rep, rule, '%s %s' % (tag, k), vs[k])
                 for k in names]
        if any(x is None for x in new_q):
            return
        base = [c, lj, L(names), L(qs), obsd, lr, L(N)]
        call = lambda f, *a: S.call(c[f], lj, L(names), L(qs), obsd, lr,
                                    L(N), *a)
        for v, _ in aux:
            ws = assigned(S, v)
            if len(ws) > 1 and not any(w[1] for w in ws):
                rep.bad(rule + ':state', tag, 'one state variable is updated '
                        'for %d latents' % len(ws), ws[0][3])
        if kind == 'SGLD':
            wq = call('sgld').items
            extra = []
        elif kind == 'PSGLD':
            av = group_aux(aux, qs, 1)
            if o.get('hp'):
                dc, ep = S.sym('decay', ()), S.sym('eps0', ())
            else:
                dc, ep = 0.9, 0.001
            wq, wv = call('psgld', L(av[0]), dc, ep)
            extra = list(zip(av[0], wv.items))
            wq = wq.items
            for v, t in aux:
                rep.decide(same(nf_at(S, t), nf.ZERO), rule + ':init', tag,
                           'the second-moment estimate does not start at '
                           'zero', t.site)
        else:
            k = 1 if kind == 'SGHMC' else 2
            av = group_aux(aux, qs, k)
            # initial velocity is N(0, lr)
            for v, t in aux:
                if v in av[0]:
                    r = match_noise([(nf_at(S, t), nf_at(
                        S, S.I.tf.ew("mul", S.sym(
                            'M', v.shape), S.I.tf.ew("sqrt", lr))))], ['M'])
                    rep.decide(r, rule + ':init', tag, 'initial momentum '
                               'is not N(0, learning_rate)', t.site)
            old = av[0]
            R_ = [S.sym('R%d' % i, q.shape) for i, q in enumerate(qs)]
            if o['n'] not in (None, 0):
                nre = S.sym('nre', (), I32) if o['n'] == 'n' else \
                    S.I.tf.const(o['n'], I32)
                old = [S.call(c['resample'], tvar[0], nre, v, r, lr)
                       for v, r in zip(av[0], R_)]
            par = lambda nm, v: S.I.tf.const(v, F32) if o.get('default') \
                else S.sym(nm, ())
            if kind == 'SGHMC':
                wq, wv = call('sghmc', L(old), par('fric', .25),
                              par('vest', 0.), o['second'])
                extra = list(zip(av[0], wv.items))
            else:
                wq, wv, wa = call('sgnht', L(old), L(av[1]),
                                  par('vext', 0.), par('rate', 1.),
                                  o['second'], o['vec'])
                extra = list(zip(av[0], wv.items)) + \
                    list(zip(av[1], wa.items))
                for v, t in aux:
                    if v in av[1]:
                        rep.decide(same(nf_at(S, t), nf_at(
                            S, par('vext', 0.))),
                            rule + ':init', tag, 'initial thermostat is '
                            'not variance_extra', t.site)
            wq = wq.items
        if S.I.unknowns:
            rep.und(rule, tag, 'specification: %s' % (S.I.unknowns[:1],))
            return
        maps = []
        for i, k in enumerate(names):
            pairs = [(nf_at(S, new_q[i]), nf_at(S, wq[i]))]
            # state variables of the same latent
            for v, w in extra[i::n]:
                nv = final_value(S, rep, rule, '%s %s state' % (tag, k), v)
                if nv is None:
                    return
                pairs.append((nf_at(S, nv), nf_at(S, w)))
            nm = ['N%d' % i]
            if kind in ('SGHMC', 'SGNHT') and o['n'] not in (None, 0):
                nm += ['R%d' % j for j in range(n)]
            mp = {}
            rr = match_noise(pairs, nm, out=mp)
            if rr:
                maps.append(mp)
            rep.decide(rr, rule, '%s %s' % (tag, k), 'the new state of '
                       'latent %s is %s; expected %s' % (
                           k, nf.show(pairs[0][0], 220),
                           nf.show(pairs[0][1], 220)), new_q[i].site)
        # one independent draw per role and latent
        owner = {}
        for mp in maps:
            for nm, i in mp.items():
                owner.setdefault(i, set()).add(nm)
        rep.decide(all(len(x) == 1 for x in owner.values()),
                   rule + ':independent', tag,
                   'one noise draw is used as %s' % [
                       sorted(x) for x in owner.values() if len(x) > 1])
        # reported samples are the new state
        r = S.attr(info, 'q')
        for i, k in enumerate(names):
            got = r.d[k] if hasattr(r, 'd') and k in r.d else None
            rep.decide(eqv(S, got, new_q[i]) if isinstance(got, Term) else
                       None, rule + ':info', '%s %s' % (tag, k),
                       'info.q does not report the new state')
        # reported statistics are those of the same step
        for nm, j in (('mean_k', 0), ('alpha', 1)):
            if kind not in ('SGHMC', 'SGNHT') or (j and kind == 'SGHMC'):
                continue
            r = S.attr(info, nm)
            for i, k in enumerate(names):
                got = r.d[k] if hasattr(r, 'd') and k in r.d else None
                w = assigned(S, av[j][i])
                if not isinstance(got, Term) or len(w) != 1:
                    rep.und(rule + ':info', tag, nm)
                    continue
                w = w[0][0]
                if nm == 'mean_k':
                    w = S.I.tf.ew('mul', w, w)
                    if not (kind == 'SGNHT' and o['vec']):
                        w = S.I.tf.call('tf.reduce_mean', [w], {})
                rep.decide(eqv(S, got, w), rule + ':info', '%s %s' % (tag, k),
                           'info.%s does not report the %s of this step' % (
                               nm, 'mean kinetic energy' if j == 0 else
                               'thermostat'), got.site)
        # the run of sample_op performs all assignments
        for v in qs + [v for v, _ in extra]:
            ws = assigned(S, v)
            rep.decide(all(reaches(op, [w[2]]) for w in ws), rule + ':op',
                       tag, 'sample_op does not perform the update of %s' %
                       v.attrs[0])
        for t in tvar:
            ws = [w for w in assigned(S, t) if reaches(op, [w[2]])]
            ok = len(ws) == 1
            rep.decide(ok, rule + ':counter', tag, 'the iteration counter '
                       'is not advanced by sample_op')
            if ok:
                rep.decide(same(nf_at(S, ws[0][0]), nf.ONE + nf_at(S, t)),
                           rule + ':counter', tag, 'the iteration counter '
                           'does not advance by one')
    run(rep, rule, tag, fn, known=KN)


def group_aux(aux, qs, k):
    """Auxiliary variables in creation order, k families of len(qs)."""
    vs = [v for v, _ in aux]
    if len(vs) != k * len(qs):
        raise Undecided('unexpected auxiliary variables (%d)' % len(vs))
    out = []
    for j in range(k):
        out.append(vs[j * len(qs):(j + 1) * len(qs)])
    return out


# ------------------------------------------------------- Hamiltonian MC

HSPEC = PRE + """
def lp(lj, names, q, obs):
    d = dict(zip(names, q))
    d.update(obs)
    return lj(d)

def energy(lj, names, q, p, mass, obs, nc):
    k = 0.
    for pi, mi in zip(p, mass):
        k = k + tf.reduce_sum(pi * pi / mi,
                              list(range(nc, len(pi.get_shape()))))
    return k / 2. - lp(lj, names, q, obs)

def leap(lj, names, q, p, eps, L, mass, obs):
    g = tf.gradients(lp(lj, names, q, obs), q)
    for i in range(L):
        p = [pi + eps / 2. * gi for pi, gi in zip(p, g)]
        q = [qi + eps * pi / mi for qi, pi, mi in zip(q, p, mass)]
        g = tf.gradients(lp(lj, names, q, obs), q)
        p = [pi + eps / 2. * gi for pi, gi in zip(p, g)]
    return q, p

def rate(hold, hnew):
    return tf.exp(tf.minimum(hold - hnew, 0.))

def choose(u, acc, new, old, nc):
    ok = tf.less(u, acc)
    out = []
    for n, o in zip(new, old):
        e = ok
        for i in range(len(o.get_shape()) - nc):
            e = tf.expand_dims(e, -1)
        out.append(tf.where(tf.logical_and(e, tf.ones_like(o, dtype=tf.bool)),
                            n, o))
    return out

def pick(u, acc, new, old):
    return tf.where(tf.less(u, acc), new, old)

def mass_of(t, iters, var, shape):
    return tf.where(tf.less(t, float(iters)) &
                    tf.ones_like(var, dtype=tf.bool),
                    tf.ones_like(var), 1. / var)

def ewmv(t, d, q, mean, var, nc):
    ax = list(range(nc))
    nt = t + 1.
    w = (1. - d) / (1. - tf.pow(d, nt))
    inc = w * (q - mean)
    nm = mean + tf.reduce_mean(inc, ax, keepdims=True)
    nv = (1. - w) * var + tf.reduce_mean(inc * (q - nm), ax, keepdims=True)
    return nt, nm, nv

def dual(step, hbar, lebar, f, acc, delta, gamma, t0, kappa, mu):
    ns = (1. - f) * step + 1.
    r = 1. / (ns + t0)
    nh = (1. - f) * (1. - r) * hbar + r * (delta - acc)
    le = mu - tf.sqrt(ns) / gamma * nh
    eta = tf.pow(ns, -kappa)
    nb = eta * le + (1. - f) * (1. - eta) * lebar
    return ns, nh, nb, tf.exp(le)
"""


class H(object):
    """One abstract HMC transition."""

    def __init__(self, S, lay, route='fn', **kw):
        self.S, self.lay = S, lay
        self.vs, self.obs, self.calls, self.lj = setup(S, lay, route)
        self.names = list(self.vs)
        self.qs = [self.vs[k] for k in self.names]
        self.nc = len(lay[1])
        earlier(S, lay, lambda: S.I.call(zs(S, 'HMC'), [], dict(kw)))
        n0 = len(S.I.tf.vars)
        self.smp = S.I.call(zs(S, 'HMC'), [], kw)
        self.pre = S.I.tf.vars[n0:]
        n1 = len(S.I.tf.vars)
        earlier(S, lay, None, self.smp)
        n2 = len(S.I.tf.vars)
        self.foreign = [v for v, _ in S.I.tf.vars[n1:n2] if v.shape != ()]
        self.op, self.info = S.m(self.smp, 'sample', self.lj,
                                 DictV(dict(self.obs)), DictV(dict(self.vs)))
        self.c = client(S, HSPEC)
        self.L = lambda xs: ListV(list(xs))
        self.allv = [v for v, _ in S.I.tf.vars[n0:n1] + S.I.tf.vars[n2:]]

    def f(self, name):
        return self.S.attr(self.info, name)

    def fd(self, name):
        d = self.f(name)
        return [d.d[k] for k in self.names]

    def named(self, stem, n=None):
        vs = [v for v in self.allv if str(v.attrs[0]).split('@')[0] == stem]
        if n is not None and len(vs) != n:
            raise Undecided('state variable %s not identified' % stem)
        return vs

    def call(self, f, *a):
        return self.S.call(self.c[f], *a)

    def std(self):
        return (self.lj, self.L(self.names))


def unif_ids(p):
    return [i for i in noise_ids(p) if i[0] == 'uniform']


def at(p, vals):
    """Evaluate a normal form at given values of scalar state variables."""
    def f(k):
        if k[0] == 'sym' and not k[2] and k[1] in vals:
            return nf.num(vals[k[1]])
        return None
    return nf.rewrite(nf.strip_sg(p), f)


def hmc_cases(tier):
    big = tier == 'thorough'
    lays = LAYOUTS if big else [LAYOUTS[0]] + LAYOUTS[2:5]
    yield MANY, 1, None, None
    for lay in (used(LAYOUTS[0]), used(LAYOUTS[2])):
        yield lay, 1, None, None
        yield lay, 1, True, True
    for lay in lays:
        for n in ((1, 2, 3, 4, 5) if big else (1, 2, 3)):
            if not big and n == 3 and len(lay[2]) > 1:
                continue
            yield lay, n, None, None
        yield lay, 1, True, None
        yield lay, 1, False, False
        yield lay, 2, False, False
        yield lay, 1, True, True


ITERS = 10
REGIMES = (('first', 0), ('collecting', 3), ('at mass_collect_iters', 9),
           ('after', 25))


def hmc_run(rep, rule, tag, fn, lay, n, ass, am, **kw):
    def go(S):
        k = dict(step_size=0.5, n_leapfrogs=n, **kw)
        if ass is not None:
            k['adapt_step_size'] = ass
        if am is not None:
            k['adapt_mass'] = am
            k['mass_collect_iters'] = ITERS
        h = H(S, lay, **k)
        if gapped(rep, S, rule, tag):
            return
        fn(S, h)
    run(rep, rule, tag, go, known=KN)


def tnames(h):
    """Names of the scalar state variables: iteration count."""
    return {v.attrs[0] for v in h.pre and [x for x, _ in h.pre]
            if v.shape == () and str(v.attrs[0]).split('@')[0] == 't'}


def regimes(h, ass):
    if ass is None:
        return [('any', {})]
    ts = tnames(h)
    if len(ts) != 1:
        raise Undecided('iteration counter not identified')
    nm = list(ts)[0]
    return [(r, {nm: v}) for r, v in REGIMES]


def c11(rep, tier):
    for lay, n, ass, am in leap_cases(tier):
        if n == 1 or tier == 'thorough':
            _leap(rep, lay, n, ass, am, energy_only=True)
    for lay, n, ass, am in hmc_cases(tier):
        _mh(rep, lay, n, ass, am)


def under(t):
    while t.op in ('id', 'chk', 'convert', 'sg'):
        t = t.args[0]
    return t


def opaques(t, stop=('grad', 'loopout')):
    """Log-joint applications a term reads directly."""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x.sid in seen or x.op in stop:
            continue
        seen.add(x.sid)
        if x.op == 'opaque':
            out.append(x)
            continue
        st.extend(x.args)
    return out


def base_cuts(S, h, keep=()):
    """Abstract everything the accept/reject step does not decide:
    gradients, loop results, adaptation state."""
    cut = {}
    lat = {q.sid for q in h.qs}
    for t in ancestors([h.op] + [x for x in [h.f('hamiltonian'),
                                              h.f('acceptance_rate')]]).values():
        if t.op in ('grad', 'loopout'):
            cut[t.sid] = 'cut%d' % t.sid
        elif t.op == 'assign' and t.args[0].sid not in lat:
            cut[t.sid] = 'cut%d' % t.sid
    return cut


def _mh(rep, lay, n, ass, am):
    rule = 'metropolis'
    tag = 'HMC.sample [%s, %d leapfrogs, adapt=%s/%s]' % (lay[0], n, ass, am)

    def fn(S, h):
        acc, hn, ho = h.f('acceptance_rate'), h.f('hamiltonian'), \
            h.f('orig_hamiltonian')
        for t, nm in ((acc, 'acceptance_rate'), (hn, 'hamiltonian'),
                      (ho, 'orig_hamiltonian')):
            rep.decide(tuple(t.shape) == tuple(lay[1]) if t.shape is not None
                       else None, rule + ':per-chain', tag,
                       '%s has shape %s, not one entry per chain' % (
                           nm, t.shape), t.site)
        if acc.shape is None or tuple(acc.shape) != tuple(lay[1]):
            return
        idx = S.nftok(acc.shape)
        lp1 = [x for x in opaques(hn)]
        lp0 = h.call('lp', *(h.std() + (h.L(h.qs), DictV(dict(h.obs)))))
        lp1 = [x for x in lp1 if x.sid != lp0.sid]
        cut = base_cuts(S, h)
        cut[lp0.sid] = 'LP0'
        if len(lp1) == 1:
            cut[lp1[0].sid] = 'LP1'
        c1 = dict(cut)
        c1[under(hn).sid] = 'H1'
        c1[under(ho).sid] = 'H0'
        evs = [S.I.E.view(c1)]
        if ass is None:
            evs.append(S.I.E)

        def attempt(fn_):
            """First definite True; otherwise the verdict of the fully
            expanded comparison."""
            r = r0 = None
            for e in evs:
                r = fn_(e)
                if r is True:
                    return True
                if e is evs[0]:
                    r0 = r
            if ass is None:
                return r
            # adaptive: trust the abstract verdict only where the compared
            # value is built from the reported quantities themselves
            return r0 if named_in else None

        fin = lambda k: None
        fin.b = lambda b: nf.BT if b[0] == 'fin' else None
        strip = nf.strip_sg
        named_in = {'H0', 'H1'} <= syms_in(evs[0].ev(acc, idx))
        rterm = h.call('rate', ho, hn)
        rep.decide(attempt(lambda e: same(
            nf.rewrite(strip(e.ev(acc, idx)), fin), strip(e.ev(rterm, idx)))),
            rule + ':rate', tag, 'acceptance probability is %s; expected '
            'exp(min(0, H_old - H_new))' % nf.show(
                nf.rewrite(strip(evs[0].ev(acc, idx)), fin), 300), acc.site)
        # non-finite proposal density: never accepted
        if len(lp1) == 1:
            rep.decide(_nonfinite(S.I.E.view(cut), h, acc, idx, 'LP1'),
                       rule + ':non-finite', tag, 'a proposal whose log '
                       'density is not finite may be accepted', acc.site)
        else:
            rep.und(rule + ':non-finite', tag, 'proposal density not found')
        # accept / reject step
        us, new = {}, []
        for k, q in zip(h.names, h.qs):
            ws = assigned(S, q)
            if len(ws) != 1:
                rep.decide(False if not ws else None, rule, tag,
                           'latent %s is assigned %d times' % (k, len(ws)))
                return
            new.append(ws[0][0])
            rep.decide(reaches(h.op, [ws[0][2]]), rule + ':op', tag,
                       'sample_op does not update latent %s' % k)
        c2 = dict(cut)
        c2[under(acc).sid] = 'ACC'
        evs = [S.I.E.view(c2)]
        if ass is None:
            evs.append(S.I.E)
        for k, q, t in zip(h.names, h.qs, new):
            if t.shape is None or tuple(t.shape) != tuple(q.shape):
                rep.decide(None if t.shape is None else False, rule, tag,
                           'new value of %s has shape %s' % (k, t.shape))
                continue
            ix = S.nftok(q.shape)
            ck = '%s %s' % (tag, k)
            res = None
            for e in evs:
                cd, ok, u, b = accepts(e, t, ix, acc, ix[:h.nc])
                res = (cd, ok, u, b, e)
                if ok:
                    break
            cd, ok, u, b, e = res
            if ok is False and ass is not None and \
                    'ACC' not in syms_b(cd):
                ok = None
            if cd is None:
                rep.decide(None if drawn(t) else False, rule, tag,
                           'the new state of latent %s does not depend on '
                           'any uniform draw' % k if not drawn(t) else
                           'no accept/reject form', t.site)
                continue
            rep.decide(ok, rule + ':test', ck,
                       'latent %s is replaced under %s; expected one uniform '
                       'draw per chain compared with acceptance_rate' % (
                           k, nf.show_b(cd)[:200]), t.site)
            if ok:
                rep.decide(same(b, e.ev(q, ix)), rule + ':reject', ck,
                           'a rejected chain of %s keeps %s, not its state'
                           % (k, nf.show(b, 200)), t.site)
                us[k] = u
        if us:
            rep.decide(len(set(us.values())) == 1, rule + ':joint', tag,
                       'latents do not share one accept/reject decision')
        named_in = False
        # reported values
        for k, t, g in zip(h.names, new, h.fd('samples')):
            rep.decide(True if t.sid == g.sid else
                       attempt(lambda e: same(e.ev(t, S.nftok(t.shape)),
                                              e.ev(g, S.nftok(g.shape)))
                               if t.shape == g.shape else False),
                       rule + ':info', '%s %s' % (tag, k),
                       'info.samples is not the new state')
        lpn, lpo = h.f('log_prob'), h.f('orig_log_prob')
        rep.decide(same(evs[0].ev(lpo, idx), evs[0].ev(lp0, idx)),
                   rule + ':info', tag, 'orig_log_prob is not the log joint '
                   'of the current state')
        for e in evs:
            cd, ok, u, b = accepts(e, lpn, idx, acc, idx)
            if ok:
                break
        if cd is None:
            rep.decide(None if drawn(lpn) else False, rule + ':info', tag,
                       'log_prob has no accept/reject form', lpn.site)
        else:
            if ok is False and ass is not None and \
                    'ACC' not in syms_b(cd):
                ok = None
            rep.decide(ok if not us or not ok else u in us.values(),
                       rule + ':info', tag,
                       'log_prob does not follow the accept decision',
                       lpn.site)
            if ok:
                rep.decide(same(b, e.ev(lpo, idx)), rule + ':info', tag,
                           'log_prob of a rejected chain is not that of its '
                           'state', lpn.site)
                p = nf.strip_sg(e.ev(lpn, idx))
                _, a, b2 = sel_parts(p)
                if e is evs[0] and len(lp1) == 1:
                    x = nf.A(('sym', 'LP1', tuple(i for i in idx if i != 0)))
                    rep.decide(nf.equal(a, x) or nf.equal(b2, x),
                               rule + ':info', tag, 'log_prob of an '
                               'accepted chain is not that of its proposal',
                               lpn.site)
    hmc_run(rep, rule, tag, fn, lay, n, ass, am)


def drawn(t):
    """Does the value depend on some draw other than a normal one?"""
    return any(
        x.op in ("runiform", "rother", "rcat", "rgamma", "rpoisson", "unk")
        for x in ancestors([t], False).values())


def accepts(e, t, ix, acc, ca):
    """Decompose t = where(u < acc, new, old): (cond, verdict, u, old)."""
    cd, a, b = sel_parts(nf.strip_sg(e.ev(t, ix)))
    if cd is None:
        return None, None, None, None
    pa = nf.strip_sg(e.ev(acc, ca))
    ok, u = accept_cond(cd, pa, ca)
    if ok:
        return cd, ok, u, b
    ok2, u2 = accept_cond(nf.bnot(cd), pa, ca)
    if ok2:
        return cd, ok2, u2, a
    return cd, ok, u, b


def sel_parts(p):
    """p = rest + c * where(cond, a, b) -> (cond, rest + c a, rest + c b)."""
    got, rest = None, nf.ZERO
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            k = nf.atom_key(m[0][0])
            if k[0] == 'sel' and has_uniform(k[1]):
                if got is not None:
                    return None, None, None
                got = (k[1], c * nf.P_of_key(k[2]), c * nf.P_of_key(k[3]))
                continue
            if k[0] == 'ind' and has_uniform(k[1]):
                return None, None, None
        rest = rest + nf.P({m: c})
    if got is None:
        return None, None, None
    return got[0], rest + got[1], rest + got[2]


def has_uniform(b):
    if b[0] in ('lt', 'eq', 'fin'):
        return bool(unif_ids(nf.P_of_key(b[1])))
    if b[0] == 'not':
        return has_uniform(b[1])
    if b[0] in ('and', 'or'):
        return any(has_uniform(x) for x in b[1])
    return False


def accept_cond(cd, pa, ca):
    """Is the condition (u < acc) for one uniform draw per chain?"""
    if cd[0] == 'not':
        if cd[1][0] != 'lt':
            return None, None
        d = -nf.P_of_key(cd[1][1])
    elif cd[0] == 'lt':
        d = nf.P_of_key(cd[1])
    else:
        return (False, None) if cd[0] in ('T', 'F') else (None, None)
    d = nf.strip_sg(d)
    want = tuple(i for i in ca if i != 0)
    us = [k for k in nf.atoms_in(d) if k[0] == 'rnd' and
          k[1][0] == 'uniform']
    if len(us) != 1:
        return (False if not us else None), None
    u = nf.A(us[0])
    r = None
    for uu in (u, nf.ONE - u):
        for sc in (1, -1):
            if same(d, sc * (uu - pa)):
                # u < acc; u <= acc would accept a rate of zero when u is 0
                r = sc == 1 and (cd[0] == 'lt' or uu is not u)
                break
        if r is not None:
            break
    if r is None:
        r = same(d, u - pa)
    if r and tuple(i for i in us[0][2] if i != 0) != want:
        return False, None
    return r, us[0][1]


def _nonfinite(e, h, acc, idx, name):
    pa = nf.strip_sg(e.ev(acc, idx))

    def lin(p):
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                k = nf.atom_key(m[0][0])
                if k[0] == 'sym' and k[1] == name:
                    return c
        return 0
    f = lambda k: None
    f.b = lambda x: nf.BF if x[0] == 'fin' and lin(nf.P_of_key(x[1])) \
        else None
    r = nf.rewrite(pa, f)
    if nf.equal(r, nf.ZERO):
        return True

    def risky(b):
        """A comparison that reads the density itself."""
        if b[0] in ('lt', 'eq'):
            return lin(nf.P_of_key(b[1])) != 0
        if b[0] == 'not':
            return risky(b[1])
        if b[0] in ('and', 'or'):
            return any(risky(x) for x in b[1])
        return False
    if any(risky(k[1]) for k in nf.atoms_in(r) if k[0] in ('sel', 'ind')):
        return None
    return False


def syms_in(p):
    return {k[1] for k in nf.atoms_in(p) if k[0] == 'sym'}


def syms_b(b):
    if b is None:
        return set()
    if b[0] in ('lt', 'eq', 'fin'):
        return syms_in(nf.P_of_key(b[1]))
    if b[0] == 'not':
        return syms_b(b[1])
    if b[0] in ('and', 'or'):
        return set().union(*[syms_b(x) for x in b[1]])
    return set()


# ------------------------------------------------- leapfrog and energies

def leap_cases(tier):
    big = tier == 'thorough'
    yield MANY, 1, None, None
    yield used(LAYOUTS[0]), 1, None, None
    yield used(LAYOUTS[2]), 1, None, None
    yield used(LAYOUTS[2]), 1, True, None
    yield alike(LAYOUTS[2]), 1, True, None
    yield alike(LAYOUTS[2]), 1, None, None
    lays = LAYOUTS if big else [LAYOUTS[0]] + LAYOUTS[2:5]
    for lay in lays:
        one = len(lay[2]) == 1
        for n in range(1, 6 if big and one else 4 if one else 3):
            yield lay, n, None, None
        for n in range(1, 4 if big and one else 3 if one else 2):
            yield lay, n, False, False
        yield lay, 1, True, None


def c12(rep, tier):
    for lay, n, ass, am in leap_cases(tier):
        _leap(rep, lay, n, ass, am)
    for n in (7, 25, 120) + ((500,) if tier == 'thorough' else ()):
        _long(rep, n)


def _long(rep, n):
    """Long trajectories, where they have a closed form: along a constant
    gradient g, q moves to q + n eps p + (n eps)^2 g / 2."""
    rule = 'leapfrog:length'
    for lay in LAYOUTS[:2]:
        tag = 'HMC.sample [%s, %d leapfrogs, constant gradient]' % (
            lay[0], n)

        def fn(S):
            S.I.unroll = n + 50
            h = H(S, lay, step_size=0.5, n_leapfrogs=n)
            if gapped(rep, S, rule, tag):
                return
            steps = h.named('step_size', 1)
            p0, new = h.fd('init_momentum')[0], h.fd('samples')[0]
            q = h.qs[0]
            cut = {t.sid: 'G' for t in ancestors([new]).values()
                   if t.op == 'grad'}
            cut[under(h.f('acceptance_rate')).sid] = 'ACC'
            if new.shape is None or not cut:
                raise Undecided('trajectory not found')
            ix = S.nftok(new.shape)
            E = S.I.E.view(cut)
            g = S.sym('G', q.shape)
            eps, p, g = (nf.strip_sg(x) for x in (
                E.ev(steps[0], ()), E.ev(p0, ix), E.ev(g, ix)))
            ne = n * eps
            want = E.ev(q, ix) + ne * p + nf.num(0.5) * ne * ne * g
            cd, a, b = sel_parts(nf.strip_sg(E.ev(new, ix)))
            if cd is None:
                raise Undecided('no accept/reject form')
            r = [same(a, want), same(b, want)]
            rep.decide(True if True in r else None if None in r else False,
                       rule, tag, 'the proposal is %s; expected %s' % (
                           nf.show(a, 200), nf.show(want, 200)), new.site)
        run(rep, rule, tag, fn, known=KN)


def split_noise(S, h):
    """The drawn normals, one per latent, from init_momentum."""
    return h.fd('init_momentum')


def _momentum(rep, S, h, e, rule, ctag, p0, mass):
    # momentum ~ N(0, mass)
    for j, (k, p) in enumerate(zip(h.names, p0)):
        if p.shape is None or tuple(p.shape) != tuple(
                h.qs[j].shape):
            rep.decide(None if p.shape is None else False,
                       rule + ':momentum', ctag, 'momentum of %s '
                       'has shape %s' % (k, p.shape), p.site)
            continue
        ix = S.nftok(p.shape)
        sp = S.I.tf.ew('mul', S.sym('Z', p.shape), S.I.tf.ew(
            'sqrt', mass[j]))
        r = match_noise([(nf.strip_sg(e.ev(p, ix)),
                          e.ev(sp, ix))], ['Z'])
        rep.decide(r, rule + ':momentum', ctag, 'momentum of %s is '
                   '%s, not N(0, mass)' % (k, nf.show(
                       e.ev(p, ix), 200)), p.site)
    ids = [set(noise_ids(e.ev(p, S.nftok(p.shape)))) for p in p0]
    for i, j in itertools.combinations(range(len(ids)), 2):
        rep.decide(not ids[i] & ids[j], rule + ':momentum', ctag,
                   'latents share momentum noise')


def _leap(rep, lay, n, ass, am, energy_only=False):
    """energy_only (C11): the energies compared are those of the two ends of
    the trajectory, whatever the trajectory is."""
    rule = 'metropolis' if energy_only else 'leapfrog'
    tag = 'HMC.sample [%s, %d leapfrogs, adapt=%s/%s]' % (lay[0], n, ass, am)

    def fn(S, h):
        p0 = h.fd('init_momentum')
        hn, ho = h.f('hamiltonian'), h.f('orig_hamiltonian')
        obs = DictV(dict(h.obs))
        lr = h.pre[0][0]
        steps = [v for v, _ in h.pre if v.shape == () and
                 str(v.attrs[0]).split('@')[0] == 'step_size']
        if len(steps) != 1:
            raise Undecided('step size variable not identified')
        eps = steps[0]
        mv = None
        if am is not None:
            mv = h.named('var', len(h.qs))
        for rn, vals in regimes(h, ass):
            if ass is not None and rn in ('first',) or (
                    am is not None and rn.startswith('at ')):
                continue
            cut = {v.sid: vals[v.attrs[0]] for v, _ in h.pre
                   if v.attrs[0] in vals}
            e = S.I.E.view(cut)
            ones = [S.call(h.c['tf_ones_like'], x) for x in p0] \
                if 'tf_ones_like' in h.c else None
            mass = []
            for j, q in enumerate(h.qs):
                if mv is not None and rn == 'after':
                    mass.append(S.I.tf.ew('div', S.I.tf.const(1.0, F32),
                                          mv[j]))
                else:
                    mass.append(S.I.tf.const(1.0, F32))
            M, P0, Q = h.L(mass), h.L(p0), h.L(h.qs)
            ctag = '%s %s' % (tag, rn)
            if not energy_only:
                _momentum(rep, S, h, e, rule, ctag, p0, mass)
            a = h.call('energy', h.lj, h.L(h.names), Q, P0, M, obs, h.nc)
            ix = S.nftok(lay[1])
            if tuple(ho.shape or ()) != tuple(lay[1]) or \
                    tuple(hn.shape or ()) != tuple(lay[1]):
                rep.decide(False, rule + ':energy', ctag, 'energies are not '
                           'per chain: %s %s' % (ho.shape, hn.shape))
                continue
            x, w = nf.strip_sg(e.ev(ho, ix)), nf.strip_sg(e.ev(a, ix))
            rep.decide(same(x, w), rule + ':energy', ctag,
                       'initial energy is %s; expected %s' % (
                           nf.show(x, 200), nf.show(w, 200)), ho.site)
            start_ok = same(x, w)
            r = h.call('leap', h.lj, h.L(h.names), Q, P0, eps, n, M, obs)
            nq, np_ = r[0], r[1]
            a = h.call('energy', h.lj, h.L(h.names), nq, np_, M, obs, h.nc)
            # the proposal: compare through the (abstracted) log density
            x, w = nf.strip_sg(e.ev(hn, ix)), nf.strip_sg(e.ev(a, ix))
            end_ok, w2 = same(x, w), w
            if not energy_only:
                rep.decide(end_ok, rule + ':energy', ctag + ' proposal',
                           'proposal energy is %s; expected %s' % (
                               nf.show(x, 300), nf.show(w, 300)), hn.site)
            pos = []
            for k, q, wq in zip(h.names, h.qs, nq.items):
                ws = assigned(S, q)
                if len(ws) != 1 or ws[0][0].shape is None:
                    continue
                qx = S.nftok(q.shape)
                cd, ya, yb = sel_parts(nf.strip_sg(e.ev(ws[0][0], qx)))
                if cd is None:
                    rep.und(rule + ':position', ctag, 'no accept form')
                    continue
                w = nf.strip_sg(e.ev(wq, qx))
                r1, r2 = same(ya, w), same(yb, w)
                v = True if r1 or r2 else None if None in (r1, r2) else False
                pos.append(v)
                if energy_only:
                    continue
                rep.decide(v, rule + ':position', '%s %s' % (ctag, k),
                           'proposed position is %s; expected %s' % (
                               nf.show(ya, 250), nf.show(w, 250)),
                           ws[0][0].site)
            if energy_only:
                # same trajectory in state and energy, or different ones
                v = True if end_ok and all(pos) else \
                    None if None in pos or end_ok is None or not start_ok \
                    else None if not end_ok and not all(pos) else False
                rep.decide(v, rule + ':energy', ctag + ' proposal',
                           'the energy of the proposal is %s; the energy of '
                           'the proposed state is %s' % (
                               nf.show(x, 300), nf.show(w2, 300)), hn.site)
    hmc_run(rep, rule, tag, fn, lay, n, ass, am)


# ------------------------------------------------------------ adaptation

def adapt_cases(tier):
    yield used(LAYOUTS[2]), True, True
    yield alike(LAYOUTS[2]), True, True
    yield alike(LAYOUTS[0]), 'a', 'm'
    yield MANY, True, True
    lays = LAYOUTS if tier == 'thorough' else LAYOUTS[:1] + LAYOUTS[2:5]
    for lay in lays:
        for ass, am in ((True, None), (False, None), ('a', None),
                        (True, True), (True, False), (False, False),
                        ('a', 'm'), (False, True)):
            if tier != 'thorough' and lay is not lays[1] and (ass, am) in (
                    ('a', None), (True, False), ('a', 'm'), (False, True)):
                continue
            yield lay, ass, am


HYP = dict(target_acceptance_rate=0.75, gamma=0.125, t0=50, kappa=0.75,
           mass_decay=0.9375)


def c13(rep, tier):
    for lay, ass, am in adapt_cases(tier):
        _adapt(rep, lay, ass, am)
    _adapt_errors(rep)
    _no_adapt(rep, tier)


def _no_adapt(rep, tier):
    """Without adaptation the transition kernel is fixed: the only state
    written besides the latents is the iteration counter."""
    for lay in LAYOUTS + [MANY]:
        tag = 'HMC.sample [%s, no adaptation]' % lay[0]

        def fn(S, h):
            lat = {q.sid for q in h.qs}
            reads = ancestors([h.op] + [x for x in h.fd('samples')])
            for e in S.I.effects:
                if e[0] != 'assign' or e[1].args[0].sid in lat:
                    continue
                v = e[1].args[0]
                # counters are fine while nothing that forms the new
                # state depends on them
                dep = any(reaches(x, [v, e[1]], ctrl=False)
                          for x in h.fd('samples'))
                rep.decide(not dep, 'fixed-kernel', tag, 'the transition '
                           'depends on %s, which every transition changes' %
                           v.attrs[0], e[4])
            u = h.f('updated_step_size')
            ok = u.op == 'var' or same(nf_at(S, u), nf_at(S, h.pre[0][0]))
            rep.decide(ok, 'fixed-kernel', tag, 'step size changes without '
                       'adaptation', u.site)
            for v, t in h.pre:
                if v.attrs[0].split('@')[0] == 'step_size':
                    rep.decide(same(nf_at(S, t), nf.num(0.5)),
                               'fixed-kernel', tag, 'initial step size')
        hmc_run(rep, 'fixed-kernel', tag, fn, lay, 1, None, None)


def _adapt_errors(rep):
    def fn(S):
        expect_raise(rep, S, 'adapt-config', 'HMC(adapt_mass only)',
                     lambda: S.I.call(zs(S, 'HMC'), [],
                                      {'adapt_mass': True}), ['ValueError'])
    run(rep, 'adapt-config', 'HMC', fn, known=KN)


def flag(S, x, nm):
    return S.sym(nm, (), BOOL) if isinstance(x, str) else x


def _adapt(rep, lay, ass, am):
    rule = 'adaptation'
    tag = 'HMC.sample [%s, adapt_step_size=%s, adapt_mass=%s]' % (
        lay[0], ass, am)

    def go(S):
        kw = dict(step_size=0.5, n_leapfrogs=1, adapt_step_size=flag(
            S, ass, 'ass'), **HYP)
        if am is not None:
            kw.update(adapt_mass=flag(S, am, 'am'), mass_collect_iters=ITERS)
        h = H(S, lay, **kw)
        for v in h.foreign:
            if reaches(h.op, [v]):
                rep.bad(rule + ':own', tag, 'the transition depends on %s, '
                        'the state of another sampling operation' %
                        str(v.attrs[0]).split('@')[0], v.site)
        if gapped(rep, S, rule, tag):
            return
        n = len(h.qs)
        acc = h.f('acceptance_rate')
        upd = h.f('updated_step_size')
        step, hbar, leb = (h.named(x, 1)[0] for x in
                           ('step', 'h_bar', 'log_epsilon_bar'))
        ss = h.named('step_size', 1)[0]
        cut = base_cuts(S, h)
        cut = {s_: c for s_, c in cut.items()
               if S.I.g.by_sid(s_).op in ('grad', 'loopout')} \
            if hasattr(S.I.g, 'by_sid') else {}
        cut[under(acc).sid] = 'ACC'
        c = h.c
        ck = lambda b: b if isinstance(b, bool) else None
        am_t = S.sym('am', (), BOOL)
        ass_t = S.sym('ass', (), BOOL)
        nm = list(tnames(h))
        if len(nm) != 1:
            raise Undecided('iteration counter not identified')
        tvar = [v for v, _ in h.pre if v.attrs[0] == nm[0]][0]
        if ass is not False or am not in (None, False):
            # every transition counts, however many there have been
            ws = assigned(S, tvar)
            r = False if not ws else None
            if len(ws) == 1:
                inc = S.I.tf.ew('add', tvar, S.I.tf.const(1.0, F32))
                r = reaches(h.op, [ws[0][2]]) and same(
                    nf_at(S, ws[0][0]), nf_at(S, inc))
            rep.decide(r, rule + ':count', tag, 'the count of transitions '
                       'is not advanced by one in each', tvar.site)
        for rn, tv in REGIMES:
            ctag = '%s %s' % (tag, rn)
            ct = dict(cut)
            for v, _ in h.pre:
                if v.attrs[0] == nm[0]:
                    ct[v.sid] = tv
            e = S.I.E.view(ct)
            first = tv + 1 == 1 or (am is not None and tv + 1 == ITERS)
            f = S.I.tf.const(1.0 if first else 0.0, F32)
            mean_acc = S.I.tf.call('tf.reduce_mean', [acc], {})
            # --- step size: dual averaging
            ok = None
            for mu in (5.0, None):
                mu_t = S.I.tf.const(mu, F32) if mu is not None else \
                    S.I.tf.ew('log', S.I.tf.const(5.0, F32))
                k = lambda x: S.I.tf.const(x, F32)
                r = h.call('dual', step, hbar, leb, f, mean_acc,
                           k(HYP['target_acceptance_rate']),
                           k(HYP['gamma']), k(HYP['t0']), k(HYP['kappa']),
                           mu_t)
                spec = [(step, r[0]), (hbar, r[1]), (leb, r[2])]
                vd = []
                for v, w in spec + [(ss, r[3])]:
                    ws = assigned(S, v)
                    if ass is False and v is not ss:
                        vd.append(not ws)
                        continue
                    if len(ws) != 1:
                        vd.append(False if not ws else None)
                        continue
                    got = nf.strip_sg(e.ev(ws[0][0], ()))
                    want = e.ev(w, ())
                    if v is ss and ass is not True:
                        # frozen: exp(log_epsilon_bar)
                        fz = e.ev(S.I.tf.ew('exp', leb), ())
                        if ass is False:
                            want = fz
                        else:
                            want = nf.sel(('bsym', 'ass', ()), want, fz)
                            got, want = both(got), both(want)
                            vd.append(_all(same(g, w) for g, w in
                                           zip(got, want)))
                            continue
                    if v is not ss and ass == 'a':
                        vd.append(guarded_by(ws[0][1], ass_t))
                    vd.append(same(got, want))
                x = _all(vd)
                if x is True:
                    ok = True
                    break
                if ok is None:
                    ok = x
                elif x is None:
                    ok = None
            rep.decide(ok, rule + ':step-size', ctag, 'the step size is not '
                       'adapted by dual averaging of the mean acceptance '
                       'rate', upd.site)
            if am is None:
                continue
            # --- mass: exponentially weighted moving variance
            mean, var = h.named('mean', n), h.named('var', n)
            ts = [v for v in h.named('t') if v.attrs[0] != nm[0]]
            if len(ts) != 1:
                raise Undecided('moving variance counter not identified')
            p0 = h.fd('init_momentum')
            for j, (kk, q) in enumerate(zip(h.names, h.qs)):
                r = h.call('ewmv', ts[0], k(HYP['mass_decay']), q, mean[j],
                           var[j], h.nc)
                vd = []
                for v, w in zip((ts[0], mean[j], var[j]), r):
                    ws = assigned(S, v)
                    if am is False:
                        vd.append(not ws)
                        continue
                    if len(ws) != 1:
                        vd.append(False if not ws else None)
                        continue
                    if am == 'm':
                        vd.append(guarded_by(ws[0][1], am_t))
                    if w.shape is None or ws[0][0].shape is None:
                        vd.append(None)
                        continue
                    if tuple(w.shape) != tuple(ws[0][0].shape):
                        vd.append(False)
                        continue
                    ix = S.nftok(w.shape)
                    vd.append(same(nf.strip_sg(e.ev(ws[0][0], ix)),
                                   e.ev(w, ix)))
                    vd.append(reaches(h.op, [ws[0][2]]))
                rep.decide(_all(vd), rule + ':mass-estimate', '%s %s' % (
                    ctag, kk), 'the moving variance of %s is not updated '
                    'correctly' % kk)
                # momentum scale: sqrt(mass)
                if am == 'm':
                    continue
                nv = r[2] if am else var[j]
                one = S.I.tf.const(1.0, F32)
                m = S.I.tf.ew('div', one, nv) if tv + 1 >= ITERS else one
                ix = S.nftok(q.shape)
                p = p0[j]
                if p.shape is None or tuple(p.shape) != tuple(q.shape):
                    continue
                sp = S.I.tf.ew('mul', S.sym('Z', p.shape),
                               S.I.tf.ew('sqrt', m))
                g, w = nf.strip_sg(e.ev(p, ix)), e.ev(sp, ix)
                # compare the scales squared
                sq = lambda x: nf.rewrite(x, lambda a: nf.ONE if
                                          a[0] == 'rnd' or (
                                              a[0] == 'sym' and
                                              a[1] == 'Z') else None)
                g, w = sq(g), sq(w)
                rep.decide(same(g * g, w * w), rule + ':mass', '%s %s' % (
                    ctag, kk), 'the mass of %s is not the inverse variance '
                    'estimate (or 1 while collecting)' % kk, p.site)
        rep.decide(reaches(h.op, [x[2] for x in assigned(S, ss)] or [ss]),
                   rule + ':op', tag, 'sample_op does not update the step '
                   'size')
        if ass is True:
            for v in (step, hbar, leb):
                ws = assigned(S, v)
                rep.decide(all(reaches(h.op, [x[2]]) for x in ws),
                           rule + ':op', tag, 'sample_op does not update '
                           'the tuner state')
    run(rep, rule, tag, go, known=KN)


def _all(vs):
    vs = list(vs)
    if any(v is False for v in vs):
        return False
    if any(v is None for v in vs):
        return None
    return True


def both(p):
    """(value when the flag holds, value when it does not)."""
    out = []
    for b in (nf.BT, nf.BF):
        f = lambda k: None
        f.b = (lambda bb: lambda x: bb if x[0] == 'bsym' and
               x[1] == 'ass' else None)(b)
        out.append(nf.rewrite(p, f))
    return out


def guarded_by(guards, t):
    for g in guards:
        gt = g[0] if isinstance(g, tuple) else g
        if isinstance(gt, Term) and gt.sid == t.sid and g[1] is True:
            return True
    return False


# ------------------------------------------------------------ race freedom

SHAPEOPS = ('ivec', 'dim', 'shapeof')


ALIAS = ('id', 'sg', 'reshape', 'expand', 'gamma')


def var_reads(S):
    """term -> variables whose buffer it reads when it executes: its
    variable operands (also through ops that forward the buffer) and, for a
    gradient, the variables read by the differentiated expression, whose
    values the backward pass uses again."""
    al, bw = {}, {}

    def alias(t):
        if t.op == 'var':
            return {t.sid}
        r = al.get(t.sid)
        if r is None:
            r = set()
            if t.op in ALIAS:
                for a in t.args:
                    if isinstance(a, Term):
                        r |= alias(a)
            al[t.sid] = r
        return r

    def behind(t):
        r = bw.get(t.sid)
        if r is None:
            bw[t.sid] = r = set()
            if t.op != 'assign' and t.op not in SHAPEOPS:
                for a in t.args:
                    if isinstance(a, Term):
                        r |= alias(a) | behind(a)
        return r

    def reads(x):
        r = set()
        for a in (x.args[1:] if x.op == 'assign' else x.args):
            if isinstance(a, Term):
                r |= alias(a)
        if x.op == 'grad':
            r |= behind(x.args[0])
        return r
    return reads


def races(rep, S, rule, tag, roots):
    """For every schedule allowed by the data and control edges of the
    graph, each read of a variable sees the same write."""
    reads = var_reads(S)
    anc = ancestors(roots)
    writes = [t for t in anc.values() if t.op == 'assign']
    memo = {}

    def up(t):
        r = memo.get(t.sid)
        if r is None:
            r = memo[t.sid] = set(ancestors([t]))
        return r
    n = 0
    tg = S.I.tguard
    rmemo = {}

    def rd(x):
        r = rmemo.get(x.sid)
        if r is None:
            r = rmemo[x.sid] = reads(x)
        return r

    def exclusive(x, w):
        gx = {c.sid: b for c, b in tg.get(x.sid, ())}
        return any(gx.get(c.sid, b) != b for c, b in tg.get(w.sid, ()))
    for w in writes:
        v = w.args[0]
        for x in anc.values():
            if x is w or x.op in SHAPEOPS or exclusive(x, w):
                continue
            if x.op == 'assign':
                if x.args[0].sid == v.sid and x.sid > w.sid:
                    n += 1
                    rep.decide(x.sid in up(w) or w.sid in up(x),
                               rule + ':write-write', tag,
                               'two unordered assignments to %s' %
                               v.attrs[0], x.site)
            if v.sid not in rd(x):
                continue
            n += 1
            rep.decide(x.sid in up(w) or w.sid in up(x), rule, tag,
                       'the read of %s by %s (%s) is not ordered with its '
                       'assignment: depending on the schedule it sees the '
                       'old or the new value' % (
                           v.attrs[0], x.op, site_str(x.site)), w.site)
    return n


def info_terms(S, v):
    out = []
    if isinstance(v, Term):
        return [v]
    if hasattr(v, 'd'):
        for x in v.d.values():
            out += info_terms(S, x)
    elif isinstance(v, (ListV,)):
        for x in v.items:
            out += info_terms(S, x)
    elif isinstance(v, tuple):
        for x in v:
            out += info_terms(S, x)
    elif hasattr(v, 'attrs') and isinstance(v.attrs, dict):
        for x in v.attrs.values():
            out += info_terms(S, x)
    return out


def c15(rep, tier):
    for kind, lay, o in sg_cases('thorough'):
        tag = '%s.sample [%s %s]' % (kind, lay[0], sorted(o.items(),
                                                          key=str))

        def fn(S):
            r = sg_build(S, kind, lay, o)
            if gapped(rep, S, 'race', tag):
                return
            op, info = r[5], r[6]
            races(rep, S, 'race', tag, [op] + info_terms(S, info))
            for v in r[0].values():
                ws = assigned(S, v)
                rep.decide(bool(ws) and all(reaches(op, [w[2]])
                                            for w in ws), 'race:complete',
                           tag, 'sample_op does not wait for the update of '
                           '%s' % v.attrs[0])
        run(rep, 'race', tag, fn, known=KN)
    for lay in LAYOUTS + [MANY]:
        for ass, am in ((None, None), (True, None), (False, None),
                        ('a', None), (True, True), (True, False),
                        (False, False), ('a', 'm')):
            tag = 'HMC.sample [%s adapt=%s/%s]' % (lay[0], ass, am)

            def fn(S):
                kw = dict(step_size=0.5, n_leapfrogs=2)
                if ass is not None:
                    kw['adapt_step_size'] = flag(S, ass, 'ass')
                if am is not None:
                    kw['adapt_mass'] = flag(S, am, 'am')
                h = H(S, lay, **kw)
                if gapped(rep, S, 'race', tag):
                    return
                races(rep, S, 'race', tag,
                      [h.op] + info_terms(S, h.info))
                for v in h.qs:
                    ws = assigned(S, v)
                    rep.decide(bool(ws) and all(reaches(h.op, [w[2]])
                                                for w in ws),
                               'race:complete', tag, 'sample_op does not '
                               'wait for the update of %s' % v.attrs[0])
            run(rep, 'race', tag, fn, known=KN)


# --------------------------------------------------------- sampler inputs

def samplers(tier):
    yield 'SGLD', {}
    yield 'PSGLD', {}
    for so in (True, False):
        yield 'SGHMC', {'second': so, 'n': None}
        yield 'SGNHT', {'second': so, 'n': None, 'vec': True}


def c16(rep, tier):
    for lay in LAYOUTS + [MANY, used(LAYOUTS[2]), alike(LAYOUTS[2])]:
        for route in ('fn', 'meta'):
            for kind, o in samplers(tier):
                _inputs_sg(rep, lay, route, kind, o)
            for ad in (None, True):
                _inputs_hmc(rep, lay, route, ad)
    _input_errors(rep)
    _routes(rep)


def _calls(rep, S, tag, calls, vs, obs):
    rule = 'inputs'
    rep.decide(bool(calls), rule, tag, 'the log joint is never evaluated')
    want = set(vs) | set(obs)
    for c in calls:
        got = {str(k) for k in c.d}
        if got != want:
            rep.bad(rule, tag, 'log joint evaluated with %s; expected %s' % (
                sorted(got), sorted(want)))
            return
        for k, v in obs.items():
            x = c.d[k]
            rep.decide(isinstance(x, Term) and under(x).sid == v.sid, rule,
                       tag, 'the observation of %s is not passed on' % k)
        for k, v in vs.items():
            x = c.d[k]
            sh = getattr(x, 'shape', None)
            rep.decide(None if sh is None else tuple(sh) == tuple(v.shape),
                       rule, tag, 'latent %s is given a value of shape %s' %
                       (k, sh))
            # the value is an update of this latent, not of another one
            an = ancestors([x]) if isinstance(x, Term) else {}
            rep.decide(v.sid in an, rule, tag, 'the value for latent %s does '
                       'not come from its variable' % k)


def _inputs_sg(rep, lay, route, kind, o):
    tag = '%s.sample [%s via %s %s]' % (kind, lay[0], route,
                                       sorted(o.items(), key=str))

    def fn(S):
        r = sg_build(S, kind, lay, o, route)
        if gapped(rep, S, 'inputs', tag):
            return
        _calls(rep, S, tag, r[9], r[0], r[1])
    run(rep, 'inputs', tag, fn, known=KN)


def _inputs_hmc(rep, lay, route, ad):
    tag = 'HMC.sample [%s via %s adapt=%s]' % (lay[0], route, ad)

    def fn(S):
        kw = dict(step_size=0.5, n_leapfrogs=2)
        if ad:
            kw.update(adapt_step_size=True, adapt_mass=True)
        h = H(S, lay, route=route, **kw)
        if gapped(rep, S, 'inputs', tag):
            return
        _calls(rep, S, tag, h.calls, h.vs, h.obs)
    run(rep, 'inputs', tag, fn, known=KN)


def _input_errors(rep):
    lay = LAYOUTS[2]
    bad = {
        'a tensor': lambda S: S.sym('z', (C,)),
        'an identity of a variable': lambda S: S.I.tf.call(
            'tf.identity', [S.var('z', (C,))], {}),
        'a python number': lambda S: 1.0,
    }
    for kind in ('HMC', 'SGLD', 'PSGLD', 'SGHMC', 'SGNHT'):
        for what, mk in bad.items():
            for pos in (0, 1):
                tag = '%s.sample [latent is %s, position %d]' % (kind, what,
                                                                 pos)

                def fn(S):
                    vs, obs, calls, lj = setup(S, lay)
                    vs = dict(vs)
                    k = list(vs)[pos]
                    vs[k] = mk(S)
                    smp = S.I.call(zs(S, kind), [], {} if kind == 'HMC' else
                                   {'learning_rate': 0.1})
                    expect_raise(rep, S, 'inputs:variable', tag,
                                 lambda: S.m(smp, 'sample', lj,
                                             DictV(dict(obs)), DictV(vs)),
                                 ['TypeError'])
                run(rep, 'inputs:variable', tag, fn, known=KN)

    def fn(S):
        vs, obs, calls, lj = setup(S, lay)
        f = S.fn('lj', lambda o: S.I.g.mk('opaque', (), ('lj',), None, F32))
        smp = S.I.call(zs(S, 'HMC'), [], {})
        expect_raise(rep, S, 'inputs:rank', 'HMC.sample [unknown chain rank]',
                     lambda: S.m(smp, 'sample', f, DictV(dict(obs)),
                                 DictV(dict(vs))), ['ValueError'])
    run(rep, 'inputs:rank', 'HMC.sample [unknown chain rank]', fn, known=KN)


MODEL = PRE + """
@zs.meta_bayesian_net()
def model(x, s):
    bn = zs.BayesianNet()
    a = bn.normal('a', 0., std=s, group_ndims=0)
    b = bn.normal('b', a, std=2., group_ndims=0)
    bn.normal('y', a * b, std=1., group_ndims=0)
    return bn

def make(x, s):
    return model(x, s)

def fnroute(m):
    return lambda obs: m.observe(**obs).log_joint()
"""


def _routes(rep):
    """A MetaBayesianNet and the function returning its log joint define
    the same sampler."""
    for kind in ('SGLD', 'PSGLD', 'SGHMC', 'SGNHT', 'HMC'):
        tag = '%s.sample [MetaBayesianNet vs callable]' % kind

        def fn(S):
            m = client(S, MODEL)
            res = []
            for r in range(2):
                net = S.call(m['make'], S.sym('x', ()), S.sym('s', ()))
                tgt = net if r == 0 else S.call(m['fnroute'], net)
                vs = {'b': S.var('q_b', (C,)), 'a': S.var('q_a', (C,))}
                kw = {'learning_rate': S.sym('lr', ())} if kind != 'HMC' \
                    else {'step_size': 0.5, 'n_leapfrogs': 1}
                n0 = len(S.I.effects)
                smp = S.I.call(zs(S, kind), [], kw)
                S.m(smp, 'sample', tgt, DictV({'y': S.sym('y', (C,))}),
                    DictV(dict(vs)))
                out = {}
                for k, v in vs.items():
                    ws = [e for e in S.I.effects[n0:] if e[0] == 'assign'
                          and e[1].args[0].sid == v.sid]
                    if len(ws) != 1:
                        raise Undecided('assignments')
                    out[k] = ws[0][1].args[1]
                res.append((out, [v for v, _ in S.I.tf.vars]))
            if gapped(rep, S, 'inputs:route', tag):
                return
            n = len(res[0][1])
            ren = {}
            for i, v in enumerate(res[1][1][n:]):
                ren[v.attrs[0]] = res[0][1][i].attrs[0] if i < n else None
            for k in ('a', 'b'):
                p = nf.strip_sg(nf_at(S, res[0][0][k]))
                q = nf.strip_sg(nf_at(S, res[1][0][k]))
                i1 = sorted(noise_ids(p), key=lambda x: x[1])
                i2 = sorted(noise_ids(q), key=lambda x: x[1])

                def f(key, mp=dict(zip(i2, i1))):
                    if key[0] == 'rnd' and key[1] in mp:
                        return nf.A(('rnd', mp[key[1]], key[2]))
                    if key[0] == 'sym' and key[1] in ren and ren[key[1]]:
                        return nf.A(('sym', ren[key[1]], key[2]))
                    return None
                rep.decide(same(p, nf.rewrite(q, f)), 'inputs:route',
                           '%s %s' % (tag, k), 'the two ways of passing the '
                           'model give different transitions: %s / %s' % (
                               nf.show(p, 200), nf.show(q, 200)))
        run(rep, 'inputs:route', tag, fn, known=KN)
