"""BayesianNet / StochasticTensor / MetaBayesianNet properties."""
import itertools
from ..lib import *
from ..terms import *
from .. import nf, distspec as ds
from .dist import good, B_, K, R

B = Dim('B')
ALLK = (Dim('A'), B, Dim('S'), K, R, Dim('N'), Dim('G'))


def client(S, src, name='client'):
    S.I.overlay[name] = src
    return S.I.load(name).vars


def gapped(rep, S, rule, tag):
    if S.I.unknowns:
        rep.und(rule, tag, 'modelling gap: %s at %s' % (
            S.I.unknowns[0][0], site_str(S.I.unknowns[0][1])))
        return True
    return False


def term(S, v):
    """The tensor a value stands for in TensorFlow."""
    if isinstance(v, Term):
        return v
    return S.I.tf.tensor(v)


def nfof(S, v):
    t = term(S, v)
    if t.shape is None:
        raise Undecided('shape unknown')
    return S.ev(t, S.nftok(t.shape)), t.shape


def eqv(S, a, b):
    """Do two tensor values agree (shape and every entry)?"""
    ta, tb = term(S, a), term(S, b)
    if ta is tb or ta.sid == tb.sid:
        return True
    if ta.shape is None or tb.shape is None:
        return None
    if tuple(ta.shape) != tuple(tb.shape):
        return False
    idx = S.nftok(ta.shape)
    x, y = S.ev(ta, idx), S.ev(tb, idx)
    return same(x, y)


def addends(t):
    if isinstance(t, Term) and t.op in ('id', 'convert') and t.args:
        return addends(t.args[0])
    if isinstance(t, Term) and t.op == 'add':
        return addends(t.args[0]) + addends(t.args[1])
    if isinstance(t, Term) and t.op == 'const' and t.attrs[0] == 0:
        return []
    return [t]


def sumeq(S, a, b):
    """eqv for sums: term by term when that decides."""
    ta, tb = term(S, a), term(S, b)
    if ta.shape is not None and tb.shape is not None and \
            tuple(ta.shape) == tuple(tb.shape) and \
            sorted(x.sid for x in addends(ta)) == \
            sorted(x.sid for x in addends(tb)):
        return True
    return eqv(S, a, b)


def run(rep, rule, tag, fn, known=ALLK):
    S = Scenario(rep, known=known)
    guarded(rep, rule, tag, lambda: fn(S), S.I)
    rep.absorb(S.I)


def zs(S, name):
    return S.get('zhusuan', name)


# ------------------------------------------------------------------- C17

PRE = '''
import tensorflow as tf
import zhusuan as zs
'''


def c17(rep, tier):
    n = 3 if tier == 'quick' else 4
    for mode in ('plain', 'meta', 'dict'):
        for k in range(1, n + 1):
            for h in itertools.product('sodjtc', repeat=k):
                if 's' not in h and 'o' not in h:
                    continue
                if h[0] in 'tc' or (mode != 'meta' and k == n and
                                    tier == 'quick' and h.count('j') == 0):
                    continue
                _history(rep, mode, ''.join(h))
    for h in ('sj', 'oj', 'sjs', 'sjo', 'osj', 'stjs', 'scjs', 'jsj'):
        _history(rep, 'legacy', h)
    _node(rep)
    _custom(rep)
    _lookup(rep)


def _history(rep, mode, h):
    rule = 'log-joint'
    tag = 'BayesianNet.log_joint [%s %s]' % (mode, h)

    def fn(S):
        obs = {}
        for i, op in enumerate(h):
            if op == 'o':
                obs['n%d' % i] = S.sym('obs%d' % i, (B,))
        st, dists = [], {}
        if mode == 'legacy':
            bnc = zs(S, 'BayesianNet')
            bn = S.call(bnc, DictV(dict(obs)))
            bn = S.m(bn, '__enter__')
            leg = S.get('zhusuan.legacy.framework.stochastic', 'Normal')
        elif mode == 'dict':
            bn = S.call(zs(S, 'BayesianNet'), DictV(dict(obs)))
        elif mode == 'meta':
            box = {}
            mk = S.call(zs(S, 'meta_bayesian_net'))
            c = client(S, PRE + '''
def f():
    return zs.BayesianNet()
''')
            mbn = S.call(S.call(mk, c['f']))
            bn = S.m(mbn, 'observe', **obs)
        else:
            if obs:
                return
            bn = S.call(zs(S, 'BayesianNet'))
        for i, op in enumerate(h):
            nm = 'n%d' % i
            if op in 'so':
                mean = S.sym('m%d' % i, (B,))
                std = S.sym('s%d' % i, ())
                if st:
                    prev = st[-1][1]
                    mean = S.I.tf.tf_add(mean, prev)
                if mode == 'legacy':
                    nd = S.call(leg, nm, mean, std=std)
                else:
                    nd = S.m(bn, 'normal', nm, mean, std=std)
                st.append((nm, nd, op))
            elif op == 'd':
                S.m(bn, 'deterministic', nm, S.sym('d%d' % i, (B,)))
            elif op == 'j':
                S.m(bn, 'log_joint')
            elif op == 't' and st:
                S.attr(st[-1][1], 'tensor')
            elif op == 'c' and st:
                S.attr(st[0][1], 'cond_log_p')
        lj = S.m(bn, 'log_joint')
        if mode == 'legacy':
            S.m(bn, '__exit__', None, None, None)
        if gapped(rep, S, rule, tag):
            return
        if not st:
            return
        want = None
        for nm, nd, op in st:
            t = S.attr(nd, 'tensor')
            if op == 'o':
                rep.decide(eqv(S, t, obs[nm]), 'observed-value', tag,
                           'value of observed node %s is not its '
                           'observation' % nm)
            d = S.attr(nd, 'dist')
            lp = S.m(d, 'log_prob', t)
            want = lp if want is None else S.I.tf.tf_add(want, lp)
        rep.decide(sumeq(S, lj, want), rule, tag,
                   'log_joint() is not the sum of the conditional '
                   'log-densities of all stochastic nodes', lj.site
                   if isinstance(lj, Term) else None)
        sameflow(rep, rule + ':gradient', tag, 'log_joint()', lj, want)
    run(rep, rule, tag, fn)


def sameflow(rep, rule, tag, what, got, want):
    """got has a gradient with respect to every symbol want has one for."""
    if not isinstance(got, Term) or not isinstance(want, Term):
        return
    for x in ancestors([want], ctrl=False).values():
        if x.op != 'sym' or x.dtype is None or x.dtype.kind != 'f':
            continue
        if diff_reaches(want, [x]):
            rep.decide(diff_reaches(got, [x]), rule, '%s %s' % (
                tag, x.attrs[0] if x.attrs else ''), 'no gradient flows '
                'from %s to %s' % (what, x.attrs[0] if x.attrs else 'a '
                                   'parameter'), got.site)


def _node(rep):
    for d in ds.DISTS:
        for v in d.variants:
            for obs in (False, True):
                for ns in (None, 'M'):
                    if d.name == 'UnnormalizedMultinomial' and not obs:
                        continue
                    if v[0] == 'none' and not obs:
                        continue
                    _node1(rep, d, v, obs, ns)


def mk_dist(S, d, v, pdt=F32, **opts):
    kw = {}
    for k, x in good(d, v, pdt).items():
        kw[k] = S.sym(k, x[1], x[2]) if isinstance(x, tuple) and x and \
            x[0] == 't' else x
    kw.update(opts)
    return S.I.call(S.get('zhusuan.distributions', d.name), [], kw), kw


def val_shape(d):
    return (B,) + ds.value_shape(d)


def _node1(rep, d, v, obs, ns):
    rule = 'node-value'
    tag = 'StochasticTensor[%s%s%s] [%s]' % (
        d.name, ' observed' if obs else '', ' n_samples' if ns else '', v[0])

    def fn(S):
        dist, _ = mk_dist(S, d, v, group_ndims=1)
        n = S.pyint('M') if ns else None
        dt = I32 if d.discrete else F32
        bnc = zs(S, 'BayesianNet')
        o = S.sym('obs', val_shape(d), dt)
        bn = S.call(bnc, DictV({"a": o} if obs else {}))
        nd = S.m(bn, 'stochastic', 'a', dist, n_samples=n)
        t1 = S.attr(nd, 'tensor')
        lp = S.attr(nd, 'cond_log_p')
        t2 = S.attr(nd, 'tensor')
        t3 = S.I.tf.tf_convert_to_tensor(nd)
        t4 = S.I.tf.tf_identity(nd)
        if gapped(rep, S, rule, tag):
            return
        rep.decide(t1.sid == t2.sid or eqv(S, t1, t2), rule + ':stable', tag,
                   'two accesses of .tensor give different values')
        for w, t in (('convert_to_tensor', t3), ('tf function', t4)):
            rep.decide(eqv(S, t1, t), rule + ':convert', tag + ' ' + w,
                       '%s(node) is not node.tensor' % w)
        rep.decide(S.m(nd, 'is_observed') is bool(obs), rule + ':observed',
                   tag, 'is_observed() is wrong')
        if obs:
            rep.decide(eqv(S, t1, o), rule, tag, 'value of an observed node '
                       'is not the observation')
        else:
            want = ((Dim('M'),) if ns else ()) + val_shape(d)
            rep.decide(tuple(t1.shape) == want, rule, tag,
                       'value has shape %s, expected %s' % (t1.shape, want))
            rep.decide(any(x.op in NOISE for x in ancestors([t1]).values()),
                       rule + ':random', tag, 'value is not a sample')
        want = S.m(dist, 'log_prob', t1)
        rep.decide(eqv(S, lp, want), rule + ':cond_log_p', tag,
                   'cond_log_p is not log_prob at the node value')
        sameflow(rep, rule + ':gradient', tag, 'cond_log_p', lp, want)
        if obs and not d.discrete:
            rep.decide(diff_reaches(t1, [o]), rule + ':gradient', tag,
                       'no gradient flows from the value of an observed '
                       'node to the observation')
        lj = S.m(bn, 'log_joint')
        rep.decide(sumeq(S, lj, want), 'log-joint', tag, 'log_joint() of a '
                   'single node is not its log density')
        n2 = S.m(bn, 'normal', 'b', S.sym('mu', ()), std=S.sym('sd', ()))
        lj = S.m(bn, 'log_joint')
        want = S.I.tf.tf_add(want, S.m(S.attr(n2, 'dist'), 'log_prob',
                                       S.attr(n2, 'tensor')))
        if gapped(rep, S, rule, tag):
            return
        rep.decide(sumeq(S, lj, want), 'log-joint', tag + ' + Normal',
                   'log_joint() is not the sum of the conditional '
                   'log-densities of both nodes')
        sameflow(rep, 'log-joint:gradient', tag, 'log_joint()', lj, want)
        # session integration
        for ty, fetch, feed, partial in S.I.sess_conv:
            if getattr(ty, 'name', '') != 'StochasticTensor':
                continue
            r = S.call(fetch, nd)
            ok = None
            if isinstance(r, tuple) and isinstance(r[0], ListV):
                ok = len(r[0].items) == 1 and eqv(S, r[0].items[0], t1)
            rep.decide(ok, rule + ':fetch', tag, 'fetching a node in a '
                       'session does not evaluate its value')
            if feed is not None:
                r = S.call(feed, nd, S.sym('fed', t1.shape, dt))
                ok = None
                if isinstance(r, ListV) and isinstance(r.items[0], tuple):
                    ok = eqv(S, r.items[0][0], t1)
                rep.decide(ok, rule + ':feed', tag, 'feeding a node in a '
                           'session does not feed its value')
    run(rep, rule, tag, fn)


NOISE = {'rnormal', 'runiform', 'rgamma', 'rcat', 'rpoisson', 'rother'}


def _custom(rep):
    rule = 'custom-log-joint'
    src = PRE + '''
@zs.meta_bayesian_net()
def model(mu):
    bn = zs.BayesianNet()
    bn.normal("a", mu, std=1., group_ndims=1)
    bn.normal("b", mu, std=2., group_ndims=1)
    return bn

def lj(bn):
    return bn.cond_log_prob("a") * 3.

def t(mu, obs, early):
    m = model(mu)
    m.log_joint = lj
    bn = m.observe(a=obs)
    if early:
        bn.get("b")
    return bn, bn.log_joint(), bn.cond_log_prob("a") * 3., bn.log_joint()

def bad(mu, obs):
    m = model(mu)
    m.log_joint = 3.
    return m.observe(a=obs).log_joint()

def two(mu, obs):
    m1 = model(mu)
    m2 = model(mu)
    m1.log_joint = lj
    b1 = m1.observe(a=obs)
    b2 = m2.observe(a=obs, b=mu)
    b3 = m1.observe(a=mu)
    return (b2.log_joint(), b2.cond_log_prob("a") + b2.cond_log_prob("b"),
            b1.log_joint(), lj(b1), b3.log_joint(), lj(b3))
'''
    for early in (False, True):
        tag = 'BayesianNet.log_joint [custom early=%s]' % early

        def fn(S):
            c = client(S, src)
            bn, a, b, a2 = S.call(c['t'], S.sym('mu', (B,)),
                                  S.sym('obs', (B,)), early)
            if gapped(rep, S, rule, tag):
                return
            rep.decide(eqv(S, a, b), rule, tag, 'log_joint() ignores the '
                       'user-defined log_joint')
            rep.decide(eqv(S, a2, b), rule, tag, 'second log_joint() call '
                       'differs')
        run(rep, rule, tag, fn)
    tag = 'BayesianNet.log_joint [non-callable]'

    def fn2(S):
        c = client(S, src)
        expect_raise(rep, S, rule, tag, lambda: S.call(
            c['bad'], S.sym('mu', (B,)), S.sym('obs', (B,))), ['TypeError'])
    run(rep, rule, tag, fn2)
    tag = 'BayesianNet.log_joint [two models]'

    def fn3(S):
        c = client(S, src)
        r = S.call(c['two'], S.sym('mu', (B,)), S.sym('obs', (B,)))
        if gapped(rep, S, rule, tag):
            return
        for j in (0, 2, 4):
            rep.decide(eqv(S, r[j], r[j + 1]), rule, tag, 'log-joint of one '
                       'model instance leaks into another')
    run(rep, rule, tag, fn3)


def _lookup(rep):
    rule = 'lookup'
    src = PRE + '''
def mk(mu):
    bn = zs.BayesianNet({"c": mu})
    a = bn.normal("a", mu, std=1.)
    b = bn.normal("b", mu, std=2., group_ndims=1)
    d = bn.deterministic("d", mu * 2.)
    c = bn.normal("c", mu, std=3.)
    return bn, a, b, c, d

def t(mu):
    bn, a, b, c, d = mk(mu)
    g = bn.get(["b", "a"])
    l = bn.cond_log_prob(["c", "a", "b"])
    lt = bn.local_log_prob(("b", "c"))
    o = bn.outputs(["b", "a"])
    q = bn.query(["b", "c"], outputs=True, local_log_prob=True)
    q1 = bn.query("b", outputs=True, local_log_prob=True)
    same = (bn["a"] is a and bn.get("b") is b and g[0] is b and g[1] is a
            and bn.nodes["c"] is c)
    pairs = [(l[0], c.dist.log_prob(c.tensor)),
             (l[1], a.dist.log_prob(a.tensor)),
             (l[2], b.dist.log_prob(b.tensor)),
             (bn.cond_log_prob("a"), l[1]),
             (lt[0], l[2]), (lt[1], l[0]),
             (o[0], b.tensor), (o[1], a.tensor),
             (q[0][0], b.tensor), (q[0][1], l[2]),
             (q[1][0], c.tensor), (q[1][1], l[0]),
             (q1[0], b.tensor), (q1[1], l[2]),
             (bn["d"], mu * 2.), (bn.get("d"), mu * 2.)]
    return same, pairs

def e1(mu):
    return mk(mu)[0].get("zz")
def e2(mu):
    return mk(mu)[0]["zz"]
def e3(mu):
    return mk(mu)[0].cond_log_prob("d")
def e4(mu):
    return mk(mu)[0].cond_log_prob(["a", "d"])
def e5(mu):
    return mk(mu)[0].cond_log_prob(["a", "zz"])
def e6(mu):
    return mk(mu)[0].get(3)
def e7(mu):
    return mk(mu)[0][3]
def e8(mu):
    mk(mu)[0]["a"] = mu
'''
    tag = 'BayesianNet.get/cond_log_prob [names]'

    def fn(S):
        c = client(S, src)
        sm, pairs = S.call(c['t'], S.sym('mu', (B,)))
        if gapped(rep, S, rule, tag):
            return
        rep.decide(sm if isinstance(sm, bool) else None, rule, tag,
                   'get()/[] does not return the named node')
        for j, p in enumerate(pairs.items):
            rep.decide(eqv(S, p[0], p[1]), rule, '%s %d' % (tag, j),
                       'lookup %d returns another node\'s value' % j)
    run(rep, rule, tag, fn)
    for f, ns in (('e1', ['ValueError']), ('e2', ['ValueError']),
                  ('e3', ['ValueError']), ('e4', ['ValueError']),
                  ('e5', ['ValueError']), ('e6', ['TypeError']),
                  ('e7', ['TypeError']), ('e8', ['TypeError'])):
        tg = 'BayesianNet.lookup-errors [%s]' % f

        def fn2(S):
            c = client(S, src)
            expect_raise(rep, S, rule, tg, lambda: S.call(
                c[f], S.sym('mu', (B,))), ns)
        run(rep, rule, tg, fn2)


# ------------------------------------------------------------------- C18

def c18(rep, tier):
    rule = 'unique-names'
    src = PRE + '''
from zhusuan.legacy.framework import stochastic as leg
def add(bn, kind, name, mu):
    if kind == "s":
        return bn.normal(name, mu, std=1.)
    if kind == "S":
        return bn.stochastic(name, zs.distributions.Uniform(mu, mu + 1.))
    if kind == "d":
        return bn.deterministic(name, mu)
    return leg.Normal(name, mu, std=1.)

def t(mu, kinds, names, obs):
    bn = zs.BayesianNet({"x": mu} if obs else {})
    for k, n in zip(kinds, names):
        add(bn, k, n, mu)
    return bn

def tl(mu, kinds, names, obs):
    with zs.BayesianNet({"x": mu} if obs else {}) as bn:
        for k, n in zip(kinds, names):
            add(bn, k, n, mu)
    return bn
'''
    L = (2, 3) if tier == 'quick' else (2, 3, 4)
    for n in L:
        for kinds in itertools.product('sSd', repeat=n):
            for obs in (False, True):
                # duplicate of the first name at the last position
                names = ['x'] + ['y%d' % i for i in range(n - 2)] + ['x']
                tag = 'BayesianNet nodes [%s%s]' % (''.join(kinds),
                                                    ' obs' if obs else '')

                def fn(S):
                    c = client(S, src)
                    expect_raise(rep, S, rule, tag, lambda: S.call(
                        c['t'], S.sym('mu', (B,)), ListV(list(kinds)),
                        ListV(names), obs), ['ValueError'])
                run(rep, rule, tag, fn)
                if n == 2 or obs:
                    continue
                tag2 = 'BayesianNet nodes [%s distinct]' % ''.join(kinds)

                def fn2(S):
                    c = client(S, src)
                    bn = S.call(c['t'], S.sym('mu', (B,)),
                                ListV(list(kinds)),
                                ListV(['u', 'v', 'w', 'z'][:n]), obs)
                    if gapped(rep, S, rule, tag2):
                        return
                    nd = S.attr(bn, 'nodes')
                    ok = len(nd.d) == n if hasattr(nd, 'd') else None
                    rep.decide(ok, rule, tag2,
                               'distinctly named nodes are lost')
                run(rep, rule, tag2, fn2)
    for kinds in ('ll', 'sl', 'ls', 'dl', 'ld'):
        tag = 'StochasticTensor legacy wrappers [%s]' % kinds

        def fn(S):
            c = client(S, src)
            expect_raise(rep, S, rule, tag, lambda: S.call(
                c['tl'], S.sym('mu', (B,)), ListV(list(kinds)),
                ListV(['x', 'x']), False), ['ValueError'])
        run(rep, rule, tag, fn)


# ------------------------------------------------------------------- C19

def c19(rep, tier):
    _obs_values(rep, tier)
    _obs_reject(rep)
    _contexts(rep)
    _sequences(rep, tier)
    _shared_dist(rep)
    _scopes(rep)
    _node_methods(rep)


def _obs_values(rep, tier):
    rule = 'observation'
    src = PRE + '''
@zs.meta_bayesian_net()
def model(mu, n):
    bn = zs.BayesianNet()
    a = bn.normal("a", mu, std=1., n_samples=n)
    b = bn.normal("b", a, std=2.)
    c = bn.bernoulli("c", b)
    return bn

def t(mu, n, obs):
    m = model(mu, n)
    bn = m.observe(**obs)
    return bn

def both(mu, n, o1, o2):
    @zs.meta_bayesian_net()
    def model2():
        bn = zs.BayesianNet(observed={"a": o1})
        bn.normal("a", mu, std=1.)
        return bn
    return model2().observe(a=o2), model2().observe(), model2().observe(b=o2)
'''
    for n in (None, 'M'):
        for sub in itertools.product((0, 1), repeat=3):
            tag = 'MetaBayesianNet.observe [%s n=%s]' % (
                ''.join(x for x, y in zip('abc', sub) if y), n)

            def fn(S):
                c = client(S, src)
                o = {'a': S.sym('oa', (B,)), 'b': S.sym('ob', (B,)),
                     'c': S.sym('oc', (B,), I32)}
                obs = [(x, o[x]) for x, y in zip('abc', sub) if y]
                bn = S.call(c['t'], S.sym('mu', (B,)),
                            S.pyint('M') if n else None, DictV(dict(obs)))
                if gapped(rep, S, rule, tag):
                    return
                for x, y in zip('abc', sub):
                    nd = S.m(bn, '__getitem__', x)
                    rep.decide(S.m(nd, 'is_observed') is bool(y), rule,
                               tag + ' ' + x, 'is_observed() of %s is '
                               'wrong' % x)
                    t = S.attr(nd, 'tensor')
                    if y:
                        rep.decide(eqv(S, t, o[x]), rule, tag + ' ' + x,
                                   'observed node %s does not take the '
                                   'observed value' % x)
                        if x != 'c':
                            rep.decide(diff_reaches(t, [o[x]]), rule,
                                       tag + ' ' + x, 'no gradient flows to '
                                       'the observed value of %s' % x)
                    else:
                        rep.decide(eqv(S, t, S.attr(nd, 'tensor')), rule,
                                   tag + ' ' + x, 'node %s is sampled '
                                   'again by its second user' % x)
                        own = [z for z in ancestors([t]).values()
                               if z.op in NOISE]
                        rep.decide(bool(own), rule, tag + ' ' + x,
                                   'unobserved node %s is not sampled' % x)
                    for p, q, at in (('a', 'b', 'mean'),
                                     ('b', 'c', 'logits')):
                        if x == q:
                            rep.decide(eqv(S, S.attr(S.attr(
                                nd, 'dist'), at), S.attr(S.m(
                                    bn, '__getitem__', p), 'tensor')), rule,
                                tag + ' ' + x, 'the child of %s does not '
                                'see the value of %s' % (p, p))
                    # no unrelated observation leaks in
                    for z, w in o.items():
                        if not (dict(obs).get(z) is w):
                            rep.decide(not reaches(t, [w]), rule,
                                       tag + ' ' + x, 'leak')
            run(rep, rule, tag, fn)
    tag = 'StochasticTensor observation precedence'

    def fn3(S):
        c = client(S, src)
        o1, o2 = S.sym('o1', (B,)), S.sym('o2', (B,))
        r = S.call(c['both'], S.sym('mu', (B,)), None, o1, o2)
        if gapped(rep, S, rule, tag):
            return
        for bn, w in zip(r, (o2, o1, o1)):
            t = S.attr(S.m(bn, '__getitem__', 'a'), 'tensor')
            rep.decide(eqv(S, t, w), rule, tag, 'observe() must override '
                       'the observed dictionary, which must apply otherwise')
    run(rep, rule, tag, fn3)
    # observations given as Python / numpy constants are converted to dtype
    tag = 'StochasticTensor observation conversion'

    def fn4(S):
        c = client(S, PRE + '''
def t(mu):
    bn = zs.BayesianNet(observed={"a": 0., "b": 0, "c": [1., 2.]})
    a = bn.normal("a", mu, std=1.)
    b = bn.bernoulli("b", mu)
    c = bn.normal("c", tf.zeros([2]), std=1.)
    return a, b, c
''')
        r = S.call(c['t'], S.sym('mu', (B,)))
        if gapped(rep, S, rule, tag):
            return
        for nd, dt, v in zip(r, (F32, I32, F32), (0, 0, None)):
            t = S.attr(nd, 'tensor')
            rep.decide(S.m(nd, 'is_observed') is True, rule, tag,
                       'an observation of value 0 is ignored')
            rep.decide(t.dtype is dt, rule, tag, 'observation has dtype %s' %
                       t.dtype)
            if v is not None:
                rep.decide(same(S.ev(t, S.nftok(t.shape)), nf.num(v)), rule,
                           tag, 'observation changed')
    run(rep, rule, tag, fn4)


def _obs_reject(rep):
    rule = 'observation-check'
    src = PRE + '''
def via_dict(mk, o):
    bn = zs.BayesianNet({"a": o})
    return bn.stochastic("a", mk())

def via_meta(mk, o):
    @zs.meta_bayesian_net()
    def model():
        bn = zs.BayesianNet()
        bn.stochastic("a", mk())
        return bn
    return model().observe(a=o)["a"]

def via_arg(mk, o):
    return zs.StochasticTensor(zs.BayesianNet(), "a", mk(), observation=o)

def normal():
    return zs.distributions.Normal(tf.zeros([4, 2]), std=1.)
def mvn():
    return zs.distributions.Dirichlet(tf.ones([4, 3]))
def bern():
    return zs.distributions.Bernoulli(tf.zeros([4, 2]))
'''
    cases = [('normal', (3,), F32, True), ('normal', (4, 3), F32, True),
             ('normal', (5, 4, 3), F32, True), ('normal', (4, 2), F32, False),
             ('normal', (5, 4, 2), F32, False), ('normal', (2,), F32, False),
             ('normal', (), F32, False), ('normal', (4, 1), F32, False),
             ('normal', (4, 2), I32, True), ('normal', (4, 2), F64, True),
             ('mvn', (4, 2), F32, True), ('mvn', (5, 3), F32, True),
             ('mvn', (4, 3), F32, False), ('mvn', (7, 4, 3), F32, False),
             ('bern', (4, 2), F32, True), ('bern', (4, 2), I64, True),
             ('bern', (4, 2), I32, False), ('bern', (2, 4), I32, True)]
    for route in ('via_dict', 'via_meta', 'via_arg'):
        for mk, sh, dt, bad in cases:
            tag = 'StochasticTensor observation [%s %s %s %s]' % (
                route, mk, sh, dt.name)

            def fn(S):
                c = client(S, src)
                o = S.sym('o', sh, dt)
                f = lambda: S.call(c[route], c[mk], o)
                if bad:
                    expect_raise(rep, S, rule, tag, f, ['ValueError',
                                                        'TypeError'])
                else:
                    nd = f()
                    if gapped(rep, S, rule, tag):
                        return
                    rep.decide(eqv(S, S.attr(nd, 'tensor'), o), rule, tag,
                               'a compatible observation is not used')
                    if dt.kind == 'f':
                        rep.decide(diff_reaches(S.attr(nd, 'tensor'), [o]),
                                   rule, tag, 'no gradient flows to the '
                                   'observed value')
            run(rep, rule, tag, fn)


def _contexts(rep):
    rule = 'context-isolation'
    src = PRE + '''
from zhusuan.framework.meta_bn import Local

@zs.meta_bayesian_net()
def inner(mu):
    bn = zs.BayesianNet()
    bn.normal("a", mu, std=1.)
    return bn

def nest(mu, oi, oo):
    box = []
    @zs.meta_bayesian_net()
    def outer():
        b0 = zs.BayesianNet()
        b0.normal("a", mu, std=1.)
        i1 = inner(mu).observe(b=oi)
        i2 = inner(mu).observe(a=oi)
        b1 = zs.BayesianNet()
        b1.normal("a", mu, std=1.)
        box.append((i1, i2, b0))
        return b1
    b1 = outer().observe(a=oo)
    b2 = zs.BayesianNet()
    b2.normal("a", mu, std=1.)
    i1, i2, b0 = box[0]
    return [(b0, 1), (i1, None), (i2, 0), (b1, 1), (b2, None)]

def err(mu, o, depth):
    @zs.meta_bayesian_net()
    def bad():
        zs.BayesianNet()
        if depth > 1:
            inner(mu).observe(a=o)
        raise KeyError("boom")
    try:
        bad().observe(a=o)
    except KeyError:
        pass
    b = zs.BayesianNet()
    b.normal("a", mu, std=1.)
    m = inner(mu).observe()
    return [(b, None), (m, None)]

def late(mu, o):
    @zs.meta_bayesian_net()
    def model():
        return zs.BayesianNet()
    bn = model().observe(a=o)
    other = model().observe()
    bn.normal("a", mu, std=1.)
    other.normal("a", mu, std=1.)
    return [(bn, 1), (other, None)]

def legacy(mu, o):
    from zhusuan.legacy.framework.stochastic import Normal
    with zs.BayesianNet({"a": o}) as b1:
        with zs.BayesianNet() as b2:
            Normal("a", mu, std=1.)
        n = Normal("a", mu, std=1.)
    try:
        with zs.BayesianNet({"a": o}) as b3:
            raise KeyError("boom")
    except KeyError:
        pass
    free = Normal("a", mu, std=1.)
    return [(b1, 1), (b2, None)], free
'''
    for f in ('nest', 'err', 'err2', 'late', 'legacy'):
        tag = 'MetaBayesianNet.observe [%s]' % f

        def fn(S):
            c = client(S, src)
            oi, oo = S.sym('oi', (B,)), S.sym('oo', (B,))
            mu = S.sym('mu', (B,))
            free = None
            if f == 'nest':
                r = S.call(c['nest'], mu, oi, oo)
            elif f == 'legacy':
                r, free = S.call(c['legacy'], mu, oo)
            elif f == 'late':
                r = S.call(c['late'], mu, oo)
            else:
                r = S.call(c['err'], mu, oo, 2 if f == 'err2' else 1)
            if gapped(rep, S, rule, tag):
                return
            for j, (bn, w) in enumerate(r.items):
                nd = S.m(bn, '__getitem__', 'a')
                t = S.attr(nd, 'tensor')
                if w is None:
                    rep.decide(S.m(nd, 'is_observed') is False and
                               not reaches(t, [oi, oo]), rule,
                               '%s %d' % (tag, j), 'an observation leaks '
                               'into a network it was not passed to')
                else:
                    rep.decide(eqv(S, t, (oi, oo)[w]), rule,
                               '%s %d' % (tag, j), 'an observation of the '
                               'innermost observe() call is lost or mixed '
                               'up')
            if free is not None:
                rep.decide(S.m(free, 'is_observed') is False, rule, tag,
                           'a wrapper outside any context is observed')
                rep.decide(S.attr(free, 'bn') is None, rule, tag,
                           'a wrapper outside any context is bound to a '
                           'network')
        run(rep, rule, tag, fn)


def _sequences(rep, tier):
    """Every sequence of observe() calls on one model object."""
    rule = 'context-isolation'
    src = PRE + '''
def body(mu):
    bn = zs.BayesianNet()
    a = bn.normal("a", mu, std=1.)
    bn.normal("b", a, std=1.)
    return bn

def mk(mu, style):
    if style == "plain":
        return zs.MetaBayesianNet(body, args=[mu])
    if style == "scope":
        return zs.MetaBayesianNet(body, args=[mu], scope="s")
    return zs.MetaBayesianNet(body, kwargs={"mu": mu}, scope="s",
                              reuse_variables=True)

def seq(mu, style, obs):
    m = mk(mu, style)
    other = mk(mu, "plain")
    nets = [m.observe(**o) for o in obs]
    nets.append(other.observe())
    for bn in nets:
        bn.normal("c", mu, std=1.)
    return nets

def direct(mu, obs):
    nets = [zs.BayesianNet(o) if o else zs.BayesianNet() for o in obs]
    nets.append(zs.BayesianNet({}))
    nets.append(zs.BayesianNet(observed=None))
    for bn in nets:
        a = bn.normal("a", mu, std=1.)
        bn.normal("b", a, std=1.)
        bn.normal("c", mu, std=1.)
    return nets
'''
    subs = [tuple(x for x, y in zip('abc', m) if y)
            for m in itertools.product((0, 1), repeat=3)]
    seqs = [(p, q) for p in subs for q in subs]
    if tier != 'quick':
        few = [(), ('a',), ('b',), ('a', 'b'), ('c',)]
        seqs += list(itertools.product(few, repeat=3))
    for style in ('plain', 'scope', 'reuse', 'direct'):
        for k, q in enumerate(seqs):
            if tier == 'quick' and style == 'scope' and k % 3:
                continue
            tag = '%s [%s: %s]' % (
                'BayesianNet' if style == 'direct' else
                'MetaBayesianNet.observe', style,
                ' then '.join(''.join(x) or '-' for x in q))

            def fn(S):
                c = client(S, src)
                mu = S.sym('mu', (B,))
                o = [{x: S.sym('o%d%s' % (i, x), (B,)) for x in s}
                     for i, s in enumerate(q)]
                obs = [DictV(dict(d)) for d in o]
                box = ListV(list(obs))
                r = S.call(c['direct'], mu, box) if style == 'direct' else \
                    S.call(c['seq'], mu, style, box)
                if gapped(rep, S, rule, tag):
                    return
                o += [{}] * (len(r.items) - len(o))
                for i, (bn, d) in enumerate(zip(r.items, o)):
                    foreign = [t for j, e in enumerate(o) if j != i
                               for t in e.values()]
                    for x in 'abc':
                        nd = S.m(bn, '__getitem__', x)
                        t = S.attr(nd, 'tensor')
                        rep.decide(
                            S.m(nd, 'is_observed') is (x in d), rule, tag,
                            'network %d: node %s is%s observed' % (
                                i + 1, x, ' not' if x in d else ''))
                        if x in d:
                            rep.decide(eqv(S, t, d[x]), rule, tag,
                                       'network %d: node %s has the value '
                                       'of another network' % (i + 1, x))
                        else:
                            rep.decide(not reaches(t, foreign), rule, tag,
                                       'network %d: node %s depends on an '
                                       'observation of another network' %
                                       (i + 1, x))
                for d, e in zip(obs, o):
                    rep.decide(d.d == e, rule, tag,
                               "the caller's dictionary is modified")
            run(rep, rule, tag, fn)


def _shared_dist(rep):
    """Nodes that follow one distribution object."""
    rule = 'own-sample'
    src = PRE + '''
def t(mu, o, how):
    d = zs.distributions.Normal(mu, std=1.)
    b1, b2 = zs.BayesianNet({"c": o}), zs.BayesianNet()
    d.sample()
    if how == "bn":
        ns = [b1.stochastic("a", d), b1.stochastic("b", d, n_samples=3),
              b1.stochastic("c", d), b2.stochastic("a", d)]
    else:
        ns = [zs.StochasticTensor(b1, "a", d),
              zs.StochasticTensor(b1, "b", d, n_samples=3),
              zs.StochasticTensor(b1, "c", d, observation=o),
              zs.StochasticTensor(b2, "a", d)]
    return ns, d.sample(5)
'''
    for how in ('bn', 'class'):
        tag = 'BayesianNet.stochastic [one distribution object, %s]' % how

        def fn(S):
            c = client(S, src)
            mu, o = S.sym('mu', (B,)), S.sym('o', (B,))
            r, s5 = S.call(c['t'], mu, o, how)
            ts = [S.attr(n, 'tensor') for n in r.items]
            if gapped(rep, S, rule, tag):
                return
            own = [{k for k, z in ancestors([t]).items() if z.op in NOISE}
                   for t in ts + [s5]]
            for i, j in itertools.combinations(range(5), 2):
                rep.decide(not own[i] & own[j], rule, tag, 'two nodes of one '
                           'distribution share their draws', ts[0].site)
            rep.decide(all(own[i] for i in (0, 1, 3)) and not own[2], rule,
                       tag, 'a node is not sampled, or an observed one is',
                       ts[0].site)
            for t, sh in zip(ts + [s5], ((B,), (3, B), (B,), (B,), (5, B))):
                rep.decide(tuple(t.shape) == sh, rule, tag, 'a node has '
                           'shape %s; expected %s' % (t.shape, sh), t.site)
            d = S.attr(r.items[0], 'dist')
            for n, t in zip(r.items, ts):
                rep.decide(eqv(S, S.attr(n, 'cond_log_p'),
                               S.m(d, 'log_prob', t)), rule, tag,
                           'the conditional log density is not that of the '
                           'value of the node', t.site)
        run(rep, rule, tag, fn)


def _scopes(rep):
    rule = 'variable-sharing'
    src = PRE + '''
def net(mu):
    bn = zs.BayesianNet()
    w = tf.get_variable("w", shape=[], initializer=tf.zeros_initializer())
    bn.normal("a", mu * w, std=1.)
    bn.deterministic("w", w)
    return bn

def shared(mu):
    m = zs.meta_bayesian_net(scope="s", reuse_variables=True)(net)(mu)
    a = m.observe()
    b = m.observe(a=mu)
    c = m.observe()
    return a["w"], b["w"], c["w"]

def two(mu):
    m1 = zs.meta_bayesian_net(scope="s", reuse_variables=True)(net)(mu)
    m2 = zs.meta_bayesian_net(scope="t", reuse_variables=True)(net)(mu)
    return m1.observe()["w"], m2.observe()["w"]

def fresh(mu):
    m = zs.meta_bayesian_net(scope="s")(net)(mu)
    m.observe()
    return m.observe()

def scoped(mu):
    m1 = zs.meta_bayesian_net(scope="s")(net)(mu)
    m2 = zs.meta_bayesian_net(scope="t")(net)(mu)
    return m1.observe()["w"], m2.observe()["w"]

def noscope(mu):
    return zs.meta_bayesian_net(reuse_variables=True)(net)(mu)

def rv(mu):
    f = zs.reuse_variables("q")(lambda x: x * tf.get_variable(
        "w", shape=[], initializer=tf.zeros_initializer()))
    return f(mu), f(mu)
'''
    def fn(name, tag, post=None, exc=None):
        def go(S):
            c = client(S, src)
            f = lambda: S.call(c[name], S.sym('mu', (B,)))
            if exc:
                expect_raise(rep, S, rule, tag, f, exc)
                return
            r = f()
            if gapped(rep, S, rule, tag):
                return
            post(S, r)
        run(rep, rule, tag, go)
    t = 'MetaBayesianNet [%s]'

    def all_same(S, r):
        rep.decide(all(eqv(S, r[0], x) for x in r[1:]), rule, t % 'reuse',
                   'variables are not shared between observe() calls')

    def distinct(S, r):
        rep.decide(eqv(S, r[0], r[1]) is not True, rule, t % 'two models',
                   'variables of two models are confused')
    fn('shared', t % 'reuse', all_same)
    fn('two', t % 'two models', distinct)
    fn('scoped', t % 'two scopes', distinct)
    fn('rv', t % 'reuse_variables', all_same)
    fn('noscope', t % 'reuse without scope', exc=['ValueError'])


# ------------------------------------------------------------------- C20

BN_METHODS = {
    'Normal': ['normal'], 'FoldNormal': ['fold_normal'],
    'Bernoulli': ['bernoulli'], 'Categorical': ['categorical', 'discrete'],
    'Uniform': ['uniform'], 'Gamma': ['gamma'], 'Beta': ['beta'],
    'Poisson': ['poisson'], 'Binomial': ['binomial'],
    'InverseGamma': ['inverse_gamma'], 'Laplace': ['laplace'],
    'BinConcrete': ['bin_concrete', 'bin_gumbel_softmax'],
    'MultivariateNormalCholesky': ['multivariate_normal_cholesky'],
    'Multinomial': ['multinomial'],
    'UnnormalizedMultinomial': ['unnormalized_multinomial',
                                'bag_of_categoricals'],
    'OnehotCategorical': ['onehot_categorical', 'onehot_discrete'],
    'Dirichlet': ['dirichlet'],
    'ExpConcrete': ['exp_concrete', 'exp_gumbel_softmax'],
    'Concrete': ['concrete', 'gumbel_softmax'],
    'MatrixVariateNormalCholesky': ['matrix_variate_normal_cholesky'],
}


def obj_equal(S, a, b, depth=0):
    """Structural equality of two abstract objects' state."""
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls:
            return False
        res = True
        for k in set(a.attrs) | set(b.attrs):
            if k not in a.attrs or k not in b.attrs:
                return None
            r = obj_equal(S, a.attrs[k], b.attrs[k], depth + 1)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if isinstance(a, Term) and isinstance(b, Term):
        if a.dtype is not b.dtype:
            return False
        return eqv(S, a, b)
    if isinstance(a, TShape) and isinstance(b, TShape):
        return repr(a) == repr(b)
    if is_unk(a) or is_unk(b):
        return None
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:
        return None


def c20(rep, tier):
    for d in ds.DISTS:
        for v in d.variants:
            optsets = [{}, {'group_ndims': 1}]
            if d.reparam:
                optsets += [{'is_reparameterized': False},
                            {'is_reparameterized': True}]
            if d.path:
                optsets += [{'use_path_derivative': True}]
            if d.check_numerics:
                optsets += [{'check_numerics': True}]
            if d.discrete:
                optsets += [{'dtype': F32}, {'dtype': I64}]
            if d.path and d.check_numerics:
                optsets += [{'use_path_derivative': True, 'group_ndims': 1,
                             'is_reparameterized': False,
                             'check_numerics': True}]
            for o in optsets:
                for ns in (None, 'M'):
                    if ns and d.name == 'UnnormalizedMultinomial':
                        continue
                    for m in BN_METHODS[d.name]:
                        for pos in (False, True):
                            _fwd(rep, d, v, o, ns, m, False, pos)
                    for m in [d.name] + list(d.aliases):
                        for pos in (False, True):
                            _fwd(rep, d, v, o, ns, m, True, pos)
    _legacy_special(rep)
    _node_methods(rep)


RECORD = PRE + '''
class Rec(object):
    dtype = tf.float32
    param_dtype = tf.float32
    is_continuous = True
    is_reparameterized = True
    def __init__(self):
        self.log = []
    def get_batch_shape(self):
        return tf.TensorShape([3])
    def get_value_shape(self):
        return tf.TensorShape([])
    def note(self, what, *v):
        r = tf.random_normal([3])
        self.log.append((what, v, r))
        return r
    def sample(self, n_samples=None):
        return self.note("sample", n_samples)
    def log_prob(self, given):
        return self.note("log_prob", given)
    def prob(self, given):
        return self.note("prob", given)

def t(how, one, x, o):
    d = Rec()
    bn = None if how == "alone" else zs.BayesianNet({"a": o}
                                        if how == "observed" else None)
    if how == "bn":
        nd = bn.stochastic("a", d, n_samples=7)
    else:
        nd = zs.StochasticTensor(bn, "a", d, n_samples=7)
    if one:
        d = Rec()
        nd = bn.stochastic("b", d) if how == "bn" else zs.StochasticTensor(
            bn, "a", d)
    first = nd.tensor
    r = []
    for n in (5, None, 0, 1):
        r.append(("sample", n, nd.sample(n)))
        r.append(("log_prob", x, nd.log_prob(x)))
        r.append(("prob", x, nd.prob(x)))
    return d, nd, r, first, [nd.tensor, nd.tensor], [nd.cond_log_p] * 2
'''


def _is(y, z):
    while isinstance(y, Term) and y.op in ('id', 'convert') and y is not z:
        y = y.args[0]
    return y is z


def _node_methods(rep):
    """The sampling and density methods of a node are those of its
    distribution at the arguments given; its value is drawn once."""
    rule = 'node-methods'
    for how, one in itertools.product(('bn', 'class', 'alone', 'observed'),
                                      (False, True)):
        tag = 'StochasticTensor [%s%s]' % (how, ', one sample' * one)

        def fn(S):
            c = client(S, RECORD)
            x, o = S.sym('x', (3,)), S.sym('o', (3,))
            d, nd, r, first, again, lps = S.call(c['t'], how, one, x, o)
            if gapped(rep, S, rule, tag):
                return
            log = list(S.attr(d, 'log').items)
            obs = how == 'observed'
            rep.decide(all(_is(t, first) for t in again.items) and _is(
                first, o if obs else log[0][2]),
                rule, tag, 'the value of the node is drawn again when asked '
                'for again')
            calls = log[0 if obs else 1:]
            own = [y for y in calls[:-1]]
            got = list(r.items)
            ok = len(own) == len(got)
            rep.decide(ok, rule, tag, 'methods of the node make %d calls '
                       'of the distribution for %d requests' % (
                           len(own), len(got)))
            for (w, a, y), (m, v, z) in zip(got, own) if ok else ():
                if (w, m) == ('prob', 'log_prob') and y.op == 'exp':
                    m, y = w, y.args[0]
                rep.decide(w == m and _is(y, z) and len(v) == 1 and (
                    _is(v[0], a) or not isinstance(a, Term) and v[0] == a and
                    type(v[0]) is type(a)), rule, '%s.%s' % (tag, w),
                    '%s(%s) of the node is %s%s of its distribution' % (
                        w, a, m, v), y.site)
            last = calls[-1]
            rep.decide(last[0] == 'log_prob' and _is(last[1][0], first)
                       and _is(lps.items[0], last[2]), rule, tag, 'the local log '
                       'density is not that of the value of the node')
        run(rep, rule, tag, fn)


def _fwd(rep, d, v, opts, ns, m, legacy, pos):
    rule = 'forwarding'
    who = ('legacy.%s' if legacy else 'BayesianNet.%s') % m
    tag = '%s [%s %s n=%s%s]' % (who, v[0], sorted(opts.items(), key=str),
                                 ns, ' positional' if pos else '')

    def fn(S):
        dist, kw = mk_dist(S, d, v, **opts)
        n = S.pyint('M') if ns else None
        args = ['node']
        kw2 = dict(kw)
        if pos:
            # required parameters by position, in documented order
            order = [p for p in v[1] if p not in ('std', 'logstd')]
            order += [k for k in ('n_experiments', 'normalize_logits')
                      if k in v[2]]
            for p in order:
                args.append(kw2.pop(p))
        if n is not None:
            kw2['n_samples'] = n
        if legacy:
            bn = S.call(zs(S, 'BayesianNet'))
            S.m(bn, '__enter__')
            cls = S.get('zhusuan.legacy.framework.stochastic', m)
            nd = S.I.call(cls, args, kw2)
            S.m(bn, '__exit__', None, None, None)
        else:
            bn = S.call(zs(S, 'BayesianNet'))
            nd = S.I.call(S.attr(bn, m), args, kw2)
        got = S.attr(nd, 'dist')
        if gapped(rep, S, rule, tag):
            return
        r = obj_equal(S, got, dist)
        why = ''
        if r is False and isinstance(got, Obj) and got.cls is dist.cls:
            why = ', '.join('%s: %r vs %r' % (k, got.attrs.get(k),
                                              dist.attrs.get(k))
                            for k in sorted(dist.attrs)
                            if obj_equal(S, got.attrs.get(k),
                                         dist.attrs[k]) is False)
        rep.decide(r, rule, tag, 'the node\'s distribution differs from '
                   '%s built with the same arguments (%s)' % (d.name, why))
        rep.decide(S.attr(nd, 'name') == 'node', rule, tag, 'name is lost')
        nds = S.attr(bn, 'nodes')
        rep.decide(S.m(bn, '__getitem__', 'node') is nd, rule, tag,
                   'the node is not registered under its name')
        if d.name == 'UnnormalizedMultinomial' or v[0] == 'none':
            return
        t = S.attr(nd, 'tensor')
        want = ((Dim('M'),) if ns else ()) + val_shape(d)
        rep.decide(tuple(t.shape) == want, rule, tag, 'n_samples is not '
                   'forwarded: value has shape %s instead of %s' %
                   (t.shape, want))
    run(rep, rule, tag, fn)


def _legacy_special(rep):
    rule = 'forwarding'
    src = PRE + '''
from zhusuan.legacy.framework import stochastic as leg
from zhusuan.legacy.distributions import special as sp
def emp(c):
    with zs.BayesianNet({"e": tf.zeros([3, 4, 2])}) as bn:
        e = leg.Empirical("e", tf.float32, [3, 4], value_shape=[2],
                          group_ndims=1, is_continuous=c)
    d = sp.Empirical(tf.float32, [3, 4], value_shape=[2], group_ndims=1,
                     is_continuous=c)
    return e, d
def imp(x):
    with zs.BayesianNet() as bn:
        e = leg.Implicit("e", x, value_shape=[2], group_ndims=1)
    d = sp.Implicit(x, value_shape=[2], group_ndims=1)
    return e, d
'''
    for nm, arg in (('emp', True), ('emp', False), ('emp', None),
                    ('imp', None)):
        tag = 'legacy.%s [%s]' % ('Empirical' if nm == 'emp' else 'Implicit',
                                  arg)

        def fn(S):
            c = client(S, src)
            a = arg if nm == 'emp' else S.sym('x', (3, 4, 2))
            nd, dist = S.call(c[nm], a)
            if gapped(rep, S, rule, tag):
                return
            got = S.attr(nd, 'dist')
            for at in ('dtype', 'is_continuous', 'group_ndims',
                       'is_reparameterized', 'param_dtype'):
                rep.decide(obj_equal(S, S.attr(got, at), S.attr(dist, at)),
                           rule, tag + ' ' + at, '%s is %r, but %r for the '
                           'distribution built with the same arguments' % (
                               at, S.attr(got, at), S.attr(dist, at)))
            if nm == 'emp':
                w = arg if arg is not None else True
                rep.decide(S.attr(got, 'is_continuous') is w, rule, tag,
                           'is_continuous is not forwarded')
            for at, w in (('group_ndims', 1), ('dtype', F32),
                          ('is_reparameterized', False)):
                rep.decide(obj_equal(S, S.attr(got, at), w), rule, tag + ' '
                           + at, '%s is %r instead of %r' % (
                               at, S.attr(got, at), w))
            for m, w in (('get_batch_shape', (3, 4)),
                         ('get_value_shape', (2,))):
                sh = S.m(got, m)
                sh = getattr(sh, 'dims', None)
                rep.decide(None if sh is None else tuple(sh) == w, rule,
                           tag + ' ' + m, '%s() is %s instead of %s' % (
                               m, sh, w))
            if nm == 'imp':
                t = S.attr(nd, 'tensor')
                rep.decide(eqv(S, t, a), rule, tag, 'the value of an '
                           'implicit node is not the given tensor')
                rep.decide(diff_reaches(t, [a]), rule, tag, 'no gradient '
                           'flows to the given tensor')
        run(rep, rule, tag, fn)
    for dt in (F16, F32, F64, I32, I64, BOOL):
        tag = 'legacy.Empirical [%s]' % dt.name

        def fn(S):
            d = S.I.call(S.get('zhusuan.legacy.distributions.special',
                               'Empirical'), [dt, ListV([3])],
                         {'value_shape': ListV([2])})
            if gapped(rep, S, rule, tag):
                return
            rep.decide(S.attr(d, 'dtype') is dt, rule, tag, 'wrong dtype')
            rep.decide(S.attr(d, 'is_continuous') is (dt.kind == 'f'), rule,
                       tag, 'is_continuous is wrong')
        run(rep, rule, tag, fn)


USER = PRE + '''
from zhusuan.distributions.base import Distribution

class Mine(Distribution):
    def __init__(self, mean, **kwargs):
        self.mean = tf.convert_to_tensor(mean)
        super(Mine, self).__init__(
            dtype=self.mean.dtype, param_dtype=self.mean.dtype,
            is_continuous=True, is_reparameterized=True, **kwargs)
    def _value_shape(self):
        return tf.constant([], tf.int32)
    def _get_value_shape(self):
        return tf.TensorShape([])
    def _batch_shape(self):
        return tf.shape(self.mean)
    def _get_batch_shape(self):
        return self.mean.get_shape()
    def _sample(self, n_samples):
        return self.mean + tf.random_normal(
            tf.concat([[n_samples], tf.shape(self.mean)], 0))
    def _log_prob(self, given):
        mean = self.path_param(self.mean)
        return -0.5 * tf.square(given - mean)
    def _prob(self, given):
        mean = self.path_param(self.mean)
        return tf.exp(-0.5 * tf.square(given - mean))

def t(mean, x, kw):
    d = Mine(mean, **kw)
    return d, d.log_prob(x), d.prob(x), d.sample(), d.sample(3)
'''


def _user(rep, rule, kws):
    """Distributions that users derive from the base class."""
    A, S_ = Dim('A'), Dim('S')
    for kw in kws:
        tag = 'Distribution [user class, %s]' % (
            ', '.join('%s=%s' % x for x in sorted(kw.items())) or 'defaults')

        def fn(S):
            c = client(S, USER)
            mean, x = S.sym('mean', (A, B)), S.sym('x', (S_, A, B))
            d, lp, p, s0, s3 = S.call(c['t'], mean, x, DictV(dict(kw)))
            if gapped(rep, S, rule, tag):
                return
            g = kw.get('group_ndims', 0)
            pd = kw.get('use_path_derivative', False)
            rep.decide(S.attr(d, 'group_ndims') == g and
                       S.attr(d, 'use_path_derivative') is pd, rule, tag,
                       'the options are not those asked for')
            rep.decide(tuple(s0.shape) == (A, B) and
                       tuple(s3.shape) == (3, A, B), rule, tag,
                       'sample shapes %s, %s' % (s0.shape, s3.shape))
            tf = S.I.tf
            m = tf.call('tf.stop_gradient', [mean], {}) if pd else mean
            r = tf.ew('mul', tf.const(-0.5, F32),
                      tf.call('tf.square', [tf.ew('sub', x, m)], {}))
            q = tf.call('tf.exp', [r], {})
            if g:
                ax = list(range(-g, 0))
                r = tf.call('tf.reduce_sum', [r, ListV(ax)], {})
                q = tf.call('tf.reduce_prod', [q, ListV(ax)], {})
            for nm, t, w in (('log_prob', lp, r), ('prob', p, q)):
                if tuple(t.shape) != tuple(w.shape):
                    rep.bad(rule, tag, '%s has shape %s; expected %s' % (
                        nm, t.shape, w.shape), t.site)
                    continue
                rep.decide(eqv(S, t, w), rule, tag, '%s is not that of the '
                           'class, summed over the group axes' % nm, t.site)
                for v, k in ((mean, 'mean'), (x, 'x')):
                    rep.decide(
                        diff_reaches(t, [v]) == (k == 'x' or not pd),
                        rule, tag, 'gradients of %s with respect to %s are '
                        '%s' % (nm, k, 'blocked' if k == 'x' or not pd
                                else 'not blocked'), t.site)
        run(rep, rule, tag, fn)


def c02_user(rep, tier):
    _user(rep, 'user-class', ({}, {'use_path_derivative': True},
                              {'use_path_derivative': False}))


def c06_legacy(rep, tier):
    _user(rep, 'user-class', ({}, {'group_ndims': 0}, {'group_ndims': 1},
                              {'group_ndims': 2}))
    """group_ndims of the legacy Implicit distribution."""
    rule = 'group-ndims'
    for g in (0, 1, 2):
        for meth in ('log_prob', 'prob'):
            for dt in (I32, F32):
                tag = 'Implicit.%s [g=%d, %s]' % (meth, g, dt.name)

                def fn(S):
                    cls = S.get('zhusuan.legacy.distributions.special',
                                'Implicit')
                    x = S.sym('x', (3, 4, 2), dt)
                    y = S.sym('y', (3, 4, 2), dt)
                    kw = {'value_shape': ListV([])}
                    one = S.I.call(cls, [x], dict(kw))
                    grp = S.I.call(cls, [x], dict(kw, group_ndims=g))
                    a = S.m(one, meth, y)
                    b = S.m(grp, meth, y)
                    red = 'tf.reduce_sum' if meth == 'log_prob' else \
                        'tf.reduce_prod'
                    if g:
                        a = S.I.tf.call(red, [a, ListV(list(
                            range(-g, 0)))], {})
                    if gapped(rep, S, rule, tag):
                        return
                    rep.decide(eqv(S, a, b), rule, tag, 'grouping by %d is '
                               'not the reduction over the last %d axes' % (
                                   g, g), b.site)
                run(rep, rule, tag, fn)


# ------------------------------------------------------------------- C21

BINOPS = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow',
          'lt', 'le', 'gt', 'ge']
PYOP = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/',
        'floordiv': '//', 'mod': '%', 'pow': '**', 'lt': '<', 'le': '<=',
        'gt': '>', 'ge': '>=', 'and': '&', 'or': '|', 'xor': '^'}
TFOP = {'add': 'tf.add', 'sub': 'tf.subtract', 'mul': 'tf.multiply',
        'truediv': 'tf.truediv', 'floordiv': 'tf.floordiv', 'mod': 'tf.mod',
        'pow': 'tf.pow', 'lt': 'tf.less', 'le': 'tf.less_equal',
        'gt': 'tf.greater', 'ge': 'tf.greater_equal',
        'and': 'tf.logical_and', 'or': 'tf.logical_or',
        'xor': 'tf.logical_xor'}


def c21(rep, tier):
    rule = 'operators'
    pre = PRE + '''
from zhusuan.utils import TensorArithmeticMixin
class BoolBox(TensorArithmeticMixin):
    def __init__(self, t):
        self.tensor = t
def _conv(value, dtype=None, name=None, as_ref=False):
    return value.tensor
tf.register_tensor_conversion_function(BoolBox, _conv)

def node(mu, obs, o):
    bn = zs.BayesianNet({"a": o} if obs else {})
    return bn.normal("a", mu, std=2.)

def inode(mu):
    bn = zs.BayesianNet()
    return bn.poisson("a", mu)
'''
    body = []
    for k, o in PYOP.items():
        body.append('def l_%s(x, y):\n    return x %s y\n' % (k, o))
        body.append('def w_%s(x, y):\n    return %s(x, y)\n' % (k, TFOP[k]))
    body.append('''
def u_neg(x):
    return -x
def v_neg(x):
    return tf.negative(x)
def u_abs(x):
    return abs(x)
def v_abs(x):
    return tf.abs(x)
def u_invert(x):
    return ~x
def v_invert(x):
    return tf.logical_not(x)
def i_0(x):
    return x[0]
def i_1(x):
    return x[..., 1]
def i_2(x):
    return x[:, 0:2]
def i_3(x):
    return x[-1, tf.newaxis]
def c_div(x, y):
    return x.__div__(y), x.__rdiv__(y)
def bool_(x):
    return bool(x)
def if_(x):
    if x:
        return 1
    return 2
def iter_(x):
    return [y for y in x]
def eq_(x, y, t):
    return x == x, x == y, x != y, x in [y], {x: 3}[x], hash(x) == hash(x), \
        hash(x) == hash(y), x == t, x != t, x == 0, x is x
''')
    src = pre + ''.join(body)
    shp = (B, Dim('S'))

    def setup(S, boolean, obs):
        c = client(S, src)
        if boolean:
            t = S.sym('p', shp, BOOL)
            nd = S.call(c['BoolBox'], t)
            return c, nd, t
        o = S.sym('o', shp)
        nd = S.call(c['node'], S.sym('mu', shp), obs, o)
        return c, nd, S.attr(nd, 'tensor')
    others = [('tensor', lambda S, b: S.sym('q', shp, BOOL if b else F32)),
              ('broadcast', lambda S, b: S.sym('q', (Dim('S'),),
                                               BOOL if b else F32))]
    for k in PYOP:
        boolean = k in ('and', 'or', 'xor')
        for obs in ((True, False) if not boolean else (False,)):
            oth = list(others)
            if boolean:
                oth.append(('True', lambda S, b: True))
                oth.append(('False', lambda S, b: False))
            else:
                oth.append(('scalar', lambda S, b: 3.0))
                oth.append(('negative', lambda S, b: -2.5))
                oth.append(('node', None))
            for on, mk in oth:
                for side in ('left', 'right'):
                    tag = 'TensorArithmeticMixin.__%s__ [%s %s %s]' % (
                        k, side, on, 'observed' if obs else '')

                    def fn(S):
                        c, nd, t = setup(S, boolean, obs)
                        if mk is None:
                            nd2 = S.call(c['node'], S.sym('mu2', shp),
                                         False, S.sym('o', shp))
                            y, y2 = nd2, S.attr(nd2, 'tensor')
                        else:
                            y = y2 = mk(S, boolean)
                        if side == 'left':
                            r = S.call(c['l_' + k], nd, y)
                            w = S.call(c['w_' + k], t, y2)
                        else:
                            r = S.call(c['l_' + k], y, nd)
                            w = S.call(c['w_' + k], y2, t)
                        if gapped(rep, S, rule, tag):
                            return
                        ok = isinstance(r, Term) and r.dtype is w.dtype
                        if not ok:
                            rep.decide(None if is_unk(r) else False, rule,
                                       tag, 'result is %r' % (r,))
                            return
                        rep.decide(eqt(S, r, w), rule, tag, 'the operator '
                                   'on a node differs from the operator on '
                                   'its value: %s vs %s' % (
                                       show_t(S, r), show_t(S, w)), r.site)
                    run(rep, rule, tag, fn)
    for k in PYOP:
        if k in ('and', 'or', 'xor'):
            continue
        for on, mk in (('int', lambda S: 3), ('negative int', lambda S: -2),
                       ('int tensor', lambda S: S.sym('q', shp, I32))):
            for side in ('left', 'right'):
                if k == 'pow' and on[0] == 'n':
                    continue
                tag = 'TensorArithmeticMixin.__%s__ [%s %s, integer node]' % (
                    k, side, on)

                def fn(S):
                    c = client(S, src)
                    nd = S.call(c['inode'], S.sym('mu', shp))
                    t, y = S.attr(nd, 'tensor'), mk(S)
                    xs = (nd, y), (t, y)
                    if side == 'right':
                        xs = (y, nd), (y, t)
                    r = S.call(c['l_' + k], *xs[0])
                    w = S.call(c['w_' + k], *xs[1])
                    if gapped(rep, S, rule, tag):
                        return
                    if not isinstance(r, Term) or r.dtype is not w.dtype:
                        rep.decide(None if is_unk(r) else False, rule,
                                   tag, 'result is %r' % (r,))
                        return
                    rep.decide(eqt(S, r, w), rule, tag, 'the operator '
                               'on an integer node differs from the operator '
                               'on its value', r.site)
                run(rep, rule, tag, fn)
    for u, b in (('neg', False), ('abs', False), ('invert', True)):
        tag = 'TensorArithmeticMixin.__%s__' % u

        def fn(S):
            c, nd, t = setup(S, b, False)
            r, w = S.call(c['u_' + u], nd), S.call(c['v_' + u], t)
            if gapped(rep, S, rule, tag):
                return
            rep.decide(eqt(S, r, w), rule, tag, 'unary operator on a node '
                       'differs from the operator on its value')
        run(rep, rule, tag, fn)
    for i in range(4):
        tag = 'TensorArithmeticMixin.__getitem__ [%d]' % i

        def fn(S):
            c = client(S, src)
            nd = S.call(c['node'], S.sym('mu', (5, 4)), False,
                        S.sym('o', (5, 4)))
            t = S.attr(nd, 'tensor')
            r, w = S.call(c['i_%d' % i], nd), S.call(c['i_%d' % i], t)
            if gapped(rep, S, rule, tag):
                return
            rep.decide(eqt(S, r, w), rule, tag, 'indexing a node differs '
                       'from indexing its value')
        run(rep, rule, tag, fn)
    for f in ('bool_', 'if_', 'iter_'):
        tag = 'TensorArithmeticMixin.%s' % f

        def fn(S):
            c, nd, t = setup(S, False, False)
            expect_raise(rep, S, rule, tag, lambda: S.call(c[f], nd),
                         ['TypeError'])
        run(rep, rule, tag, fn)
    tag = 'TensorArithmeticMixin.__eq__/__hash__'

    def fn(S):
        c, nd, t = setup(S, False, False)
        nd2 = S.call(c['node'], S.sym('mu', shp), False, S.sym('o', shp))
        r = S.call(c['eq_'], nd, nd2, S.attr(nd, 'tensor'))
        if gapped(rep, S, rule, tag):
            return
        rep.decide(None if any(is_unk(x) for x in r) else
                   tuple(r) == (True, False, True, False, 3, True, False, False,
                                True, False, True), rule,
                   tag, 'nodes must compare and hash by identity: %r' % (r,))
    run(rep, rule, tag, fn)

    _surface(rep)


def _surface(rep):
    rule = 'surface'
    for what in ('sampled', 'several samples', 'observed', 'observed wide',
                 'integer'):
        tag = 'StochasticTensor [%s]' % what

        def fn(S):
            bnc = zs(S, 'BayesianNet')
            mu, dt = S.sym('mu', (B, 3)), F32
            o = S.sym('o', (B, 3)) if what == 'observed' else \
                S.sym('o', (5, B, 3))
            bn = S.call(bnc, DictV({'a': o} if 'observed' in what else {}))
            if what == 'integer':
                nd, dt = S.m(bn, 'poisson', 'a', mu), I32
            else:
                kw = {'n_samples': 7} if what == 'several samples' else {}
                nd = S.m(bn, 'normal', 'a', mu, std=S.sym('sd', (B, 3)),
                         **kw)
            t = S.attr(nd, 'tensor')
            same_t = {
                'convert_to_tensor': S.I.tf.tf_convert_to_tensor(nd),
                'convert_to_tensor with its dtype':
                S.I.tf.tf_convert_to_tensor(nd, dtype=dt),
                'argument of a function': S.I.tf.tf_identity(nd),
            }
            shapes = {'.shape': S.attr(nd, 'shape'),
                      '.get_shape()': S.m(nd, 'get_shape')}
            ref = S.attr(t, 'shape')
            gdt = S.attr(nd, 'dtype')
            if gapped(rep, S, rule, tag):
                return
            for w, x in same_t.items():
                rep.decide(eqv(S, t, x), rule + ':convert', tag + ' ' + w,
                           '%s(node) is not node.tensor' % w)
            for w, x in shapes.items():
                rep.decide(str_shape(x) == str_shape(ref), rule + ':shape',
                           tag + ' ' + w, 'is %s; the value has shape %s' % (
                               str_shape(x), str_shape(ref)))
            rep.decide(gdt is dt and t.dtype is dt, rule + ':dtype', tag,
                       'dtype is %s' % gdt)
            n = 0
            for ty, fetch, feed, partial in S.I.sess_conv:
                if getattr(ty, 'name', '') != 'StochasticTensor':
                    continue
                n += 1
                r = S.call(fetch, nd)
                fl = S.I.iterate(r[0])
                rep.decide(len(fl) == 1 and eqv(S, fl[0], t), rule +
                           ':fetch', tag, 'fetching a node in a session '
                           'does not evaluate its value')
                val = S.sym('val', t.shape, dt)
                rep.decide(eqv(S, S.call(r[1], ListV([val])), val), rule +
                           ':fetch', tag, 'fetching a node does not return '
                           'its value')
                if feed is not None:
                    r = S.I.iterate(S.call(feed, nd, val))
                    rep.decide(len(r) == 1 and eqv(S, r[0][0], t) and
                               eqv(S, r[0][1], val), rule + ':feed', tag,
                               'feeding a node does not feed its value')
                if partial is not None:
                    r = S.I.iterate(S.call(partial, nd))
                    rep.decide(len(r) == 1 and eqv(S, r[0], t), rule +
                               ':feed', tag, 'the partial-run feed of a '
                               'node is not its value')
            rep.decide(True if n else None, rule + ':fetch', tag,
                       'no session conversion is registered')
            for other in (F64, I64, I32, F32):
                if other is dt:
                    continue
                expect_raise(rep, S, rule + ':convert', tag + ' as ' +
                             other.name, lambda: S.I.tf.
                             tf_convert_to_tensor(nd, dtype=other),
                             ['ValueError', 'TypeError'])
        run(rep, rule, tag, fn)


def str_shape(x):
    d = getattr(x, 'dims', None)
    return str(tuple(d)) if d is not None else str(x)


def comparison(t):
    while t.op in ('id', 'convert', 'bto'):
        t = t.args[0]
    if t.op in ('gt', 'ge'):
        return {'gt': 'lt', 'ge': 'le'}[t.op], t.args[1], t.args[0]
    if t.op in ('lt', 'le', 'eq', 'ne'):
        return t.op, t.args[0], t.args[1]
    return None


def eqt(S, a, b):
    if a.sid == b.sid:
        return True
    if tuple(a.shape or ()) != tuple(b.shape or ()):
        return False
    ca, cb = comparison(a), comparison(b)
    if ca and cb and ca[0] != cb[0]:
        return False        # < and <= differ on equal operands
    if a.dtype is BOOL:
        ta = S.I.tf.tf_cast(a, F32)
        tb = S.I.tf.tf_cast(b, F32)
        a, b = ta, tb
    return eqv(S, a, b)


def show_t(S, t):
    try:
        if t.dtype is BOOL:
            t = S.I.tf.tf_cast(t, F32)
        return nf.show(S.ev(t, S.nftok(t.shape)), 120)
    except Exception as e:
        return '?'


# ------------------------------------------------------------------- C28

GRAPH = '''
class Op(object):
    def __init__(self, name):
        self.name = name
        self.inputs = []
        self.control_inputs = []
        self.outputs = [Out(self), Out(self)]

class Out(object):
    def __init__(self, op):
        self.op = op

def graph(n, data, control):
    ops = [Op(j) for j in range(n)]
    for i, j, k in data:
        ops[j].inputs = ops[j].inputs + [ops[i].outputs[k]]
    for i, j in control:
        ops[j].control_inputs = ops[j].control_inputs + [ops[i]]
    return ops

def outs(ops, ts):
    return [ops[i].outputs[k] for i, k in ts]

def number(ops):
    return [o.name for o in ops]

def state(ops):
    return [[[t.op.name for t in o.inputs],
             [c.name for c in o.control_inputs]] for o in ops]
'''


def _graphs(tier):
    """(n, data edges, control edges, seeds, treated as inputs, form)"""
    import random
    kinds = (None, 0, 1, 'c')
    pairs = [(0, 1), (0, 2), (1, 2)]
    for g in itertools.product(kinds, repeat=3):
        e = [(i, j, k) for (i, j), k in zip(pairs, g) if k is not None]
        yield 3, e, [(2, 0)], [], 'tensor'
        if any(k == 0 for k in g):
            yield 3, e, [(2, 0)], [(0, 0)], 'list'
        yield 3, e[::-1], [(2, 0), (1, 1)], [(1, 0)], 'tuple'
    rnd = random.Random(1)
    for _ in range(1500 if tier == 'quick' else 12000):
        n = rnd.choice((4, 5, 6))
        e = []
        for j in range(n):
            for i in range(j):
                if rnd.random() < .45:
                    e.append((i, j, rnd.choice((0, 1, 'c'))))
                if rnd.random() < .1:
                    e.append((i, j, rnd.choice((0, 1, 'c'))))
        rnd.shuffle(e)
        ts = [(i, k) for i in range(n) for k in (0, 1)]
        seeds = rnd.sample(ts, rnd.choice((1, 1, 2, 3)))
        treat = rnd.sample(ts, rnd.choice((0, 0, 1, 2)))
        yield n, e, seeds, treat, rnd.choice(('list', 'tuple'))
    # larger: a chain, many inputs, many seeds, a ladder of diamonds
    for k in (0, 'c'):
        yield 90, [(i, i + 1, k) for i in range(89)], [(89, 0)], [], 'list'
        yield 90, [(i, 89, k) for i in range(89)], [(89, 1)], [], 'tensor'
        yield 90, [(0, i, k) for i in range(1, 90)], \
            [(i, 0) for i in range(89, -1, -1)], [], 'tuple'
    lad = [(2 * i + a, 2 * i + 2 + b, rnd.choice((0, 1, 'c')))
           for i in range(15) for a in (0, 1) for b in (0, 1)]
    yield 32, lad, [(31, 0)], [], 'list'
    yield 32, lad[::-1], [(30, 1), (31, 0)], [(0, 0), (5, 1)], 'list'
    # a loop of a control-flow construct: nothing is reported twice
    yield 3, [(0, 1, 0), (1, 2, 0), (2, 1, 1)], [(2, 0)], [], 'cycle'


def c28(rep, tier):
    from ..interp import ListV
    rule = 'backward'

    def mk(x):
        return ListV([mk(y) if isinstance(y, list) else y for y in x])

    for gi, (n, e, seeds, treat, form) in enumerate(_graphs(tier)):
        data = [x for x in e if x[2] != 'c']
        ctrl = [x[:2] for x in e if x[2] == 'c']
        tag = 'get_backward_ops [%d operations, edges %s, seeds %s as %s, ' \
            'inputs %s]' % (n, e if len(e) < 20 else '%s.. (%d)' % (
                str(e[:4])[:-1], len(e)), str(seeds)[:60], form, treat)

        def fn(S):
            cl = client(S, GRAPH)
            ops = S.call(cl['graph'], n, mk(data), mk(ctrl))
            before = repr(S.call(cl['state'], ops))
            ss = S.call(cl['outs'], ops, mk(seeds))
            tt = S.call(cl['outs'], ops, mk(treat))
            nt, ns = len(tt.items), len(ss.items)
            sv = ss
            if form == 'tensor':
                sv = ss.items[0]
            elif form == 'tuple':
                sv = tuple(ss.items)
            f = S.get('zhusuan.framework.utils', 'get_backward_ops')
            r = S.call(f, sv) if form == 'tensor' else \
                S.call(f, sv, treat_as_inputs=tt)
            if gapped(rep, S, rule, tag):
                return
            got = S.I.iterate(S.call(cl['number'], r))
            if got is None or not all(isinstance(x, int) for x in got):
                rep.und(rule, tag, 'result %r' % (r,))
                return
            got = list(got)
            want, todo = set(), [i for i, k in seeds if (i, k) not in treat]
            deps = {j: [i for i, b, k in data if b == j and
                        (i, k) not in treat] +
                    [i for i, b in ctrl if b == j] for j in range(n)}
            while todo:
                i = todo.pop()
                if i not in want:
                    want.add(i)
                    todo += deps[i]
            rep.decide(len(set(got)) == len(got), rule + ':once', tag,
                       'an operation is reported twice: %s' % got)
            rep.decide(set(got) == want, rule + ':complete', tag,
                       'reports %s; the seeds depend on %s' % (
                           got, sorted(want)))
            if form != 'cycle' and set(got) == want:
                bad = [(i, j) for j in got for i in deps[j]
                       if got.index(i) > got.index(j)]
                rep.decide(not bad, rule + ':order', tag, 'operation %s '
                           'comes after %s, which depends on it (%s)' % (
                               (bad or [(0, 0)])[0] + (got,)))
            rep.decide(repr(S.call(cl['state'], ops)) == before and
                       len(tt.items) == nt and len(ss.items) == ns,
                       rule + ':pure', tag,
                       'the graph or the arguments are modified')
        run(rep, rule, tag, fn)
