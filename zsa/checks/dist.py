"""Distribution properties decided on the value graph."""
from fractions import Fraction as F
import itertools
from ..lib import *
from ..distrun import *
from ..terms import *
from .. import nf, distspec as ds, interval
from ..evalnf import Evaluator

THOROUGH_DTYPES = [F32, F64, F16]


def cfgs(names):
    return [c for c in CFGS if c.name in names]


QUICK_SHAPES = ('same', 'scalar', 'bcast-param', 'bcast-both', 'bcast-given',
                'sampled', 'unit', 'cross', 'dyn', 'dyn-sampled', 'dyn-batch',
                'dyn-value', 'norank', 'norank-sampled', 'used', 'used-dyn',
                'deep', 'deeper', 'path', 'checked', 'options')


def can_sample(d, v):
    return not (d.name == 'UnnormalizedMultinomial' or
                (d.name == 'Multinomial' and v[0] == 'none'))


def con(d, what, v=None):
    """Construct name used in findings: the class and the operation."""
    return '%s.%s' % (d.name, what)


def case(d, v, cfg, *more):
    return ' '.join(x for x in ([v[0]] if v[0] else []) +
                    ([cfg.name] if cfg else []) +
                    [str(m) for m in more] if x)


def nsamp(S, kind):
    return {'none': None, 'int': S.pyint('M'),
            'tensor': S.sym('m', (), I32), '1': 1}[kind]


def gap(b, rep, rule, c, what=''):
    """Modelling gap -> undecided.  Returns True when a gap was met."""
    if b.I.unknowns:
        rep.und(rule, c, '%s modelling gap: %s at %s' % (
            what, b.I.unknowns[0][0], site_str(b.I.unknowns[0][1])))
        return True
    return False


def dsym(names):
    def f(k):
        if k[0] == 'sym' and k[1] in names:
            return nf.A(('sym', 'd_' + k[1], k[2]))
        if k[0] == 'sym':
            return nf.ZERO
        return None
    return f


def has_sg(p):
    return any(k[0] == 'sg' for k in nf.atoms_in(p))


# ------------------------------------------------------------------- C01

def c01(rep, tier):
    """Gradient flow through samples."""
    for d in ds.DISTS:
        for v in d.variants:
            if not can_sample(d, v):
                continue
            for cfg in cfgs(('same', 'bcast-param', 'dyn-sampled', 'used',
                             'norank') if tier == 'quick'
                            else QUICK_SHAPES):
                for rp in ((True, False) if d.reparam else (None,)):
                    for ns in ('int', 'none', 'tensor'):
                        _c01_one(rep, d, v, cfg, rp, ns)
                        for o in others(d, cfg, tier):
                            _c01_one(rep, d, v, cfg, rp, ns, o)


def others(d, cfg, tier, also=()):
    """Options that are not what the property is about."""
    if cfg.name == 'same':
        yield {'group_ndims': 1}
    if cfg.name == 'same' or tier != 'quick':
        if d.check_numerics:
            yield {'check_numerics': True}
        if d.path and 'reparam' not in also:
            yield {'use_path_derivative': True}
        if d.reparam and 'reparam' in also:
            yield {'is_reparameterized': False}


def optname(o):
    return ', '.join('%s=%s' % kv for kv in sorted(o.items()))


def _c01_one(rep, d, v, cfg, rp, ns, other={}):
    rule = 'grad-flow'
    c = con(d, 'sample')
    tag = '%s [%s]' % (c, case(d, v, cfg, 'reparam=%s' % rp, 'n=%s' % ns,
                               *([optname(other)] if other else [])))
    box = {}

    def go():
        opts = {} if rp is None else {'is_reparameterized': rp}
        b = box['b'] = build(rep, d, v, cfg, opts=dict(opts, **other))
        S = b.S
        x = S.m(b.obj, 'sample', nsamp(S, ns))
        flag = S.attr(b.obj, 'is_reparameterized')
        if gap(b, rep, rule, tag):
            return
        want = bool(rp)
        if flag is not want:
            rep.decide(None if is_unk(flag) else False, 'reparam-flag', tag,
                       'is_reparameterized reports %r, expected %r' %
                       (flag, want))
            return
        rep.ok('reparam-flag', tag)
        idx = S.nftok(x.shape)
        ps = list(b.params)
        if not want:
            tg = [b.params[p] for p in ps]
            if not diff_reaches(x, tg):
                rep.ok(rule, tag)
                return
            e = S.ev(x, idx)
            if x.dtype is not None and x.dtype.kind != 'f':
                rep.ok(rule, tag)
                return
            leak = [p for p in ps if nf.diff(e, dsym([p])).t]
            if nf.has_unknown(e):
                rep.und(rule, tag, 'unknown value')
            elif leak:
                rep.bad(rule, tag, 'not reparameterized, but gradients of '
                        'the samples reach parameter(s) %s' % leak, x.site)
            else:
                rep.ok(rule, tag)
            return
        e = S.ev(x, idx)
        if nf.has_unknown(e):
            rep.und(rule, tag, 'unknown value')
            return
        full = nf.strip_sg(e)
        for p in ps:
            dg = nf.diff(e, dsym([p]))
            df = nf.diff(full, dsym([p]))
            if not dg.t:
                rep.bad(rule, tag + ' ' + p, 'reparameterized, but no '
                        'gradient of the samples reaches %s' % p, x.site)
            elif not has_sg(e):
                rep.ok(rule, tag + ' ' + p)
            else:
                rep.decide(same(nf.strip_sg(dg), df), rule, tag + ' ' + p,
                           'gradient of the samples w.r.t. %s is partially '
                           'blocked' % p, x.site)
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


class _I(object):
    """Late-bound access to the interpreter of the scenario."""

    def __init__(self, box):
        self.box = box

    @property
    def unknowns(self):
        b = self.box.get('b')
        return b.I.unknowns if b is not None else []


def _fin(rep, box):
    b = box.get('b')
    if b is not None:
        rep.absorb(b.I)


# ------------------------------------------------------------------- C02

def c02(rep, tier):
    for d in ds.DISTS:
        if not d.path:
            continue
        for v in d.variants:
            for cfg in cfgs(('same', 'bcast-param', 'dyn-sampled', 'used',
                             'norank') if tier == 'quick' else QUICK_SHAPES):
                for pd in (True, False):
                    for meth in ('log_prob', 'prob'):
                        _c02_one(rep, d, v, cfg, pd, meth)
                        for o in others(d, cfg, tier, ('reparam',)):
                            if meth == 'prob' and 'group_ndims' in o:
                                continue    # a product: C06
                            _c02_one(rep, d, v, cfg, pd, meth, o)


def _c02_one(rep, d, v, cfg, pd, meth, other={}):
    rule = 'path-derivative'
    c = con(d, meth)
    tag = '%s [%s]' % (c, case(d, v, cfg, 'path=%s' % pd,
                               *([optname(other)] if other else [])))
    box = {}

    def go():
        b = box['b'] = build(rep, d, v, cfg,
                             opts=dict(other, use_path_derivative=pd))
        S = b.S
        x = given_of(b)
        lp = S.m(b.obj, meth, x)
        if S.attr(b.obj, 'use_path_derivative') is not pd:
            rep.bad('path-flag', tag, 'use_path_derivative option is lost')
        if gap(b, rep, rule, tag):
            return
        idx = S.nftok(lp.shape)
        e = S.ev(lp, idx)
        if nf.has_unknown(e):
            rep.und(rule, tag, 'unknown value')
            return
        full = nf.strip_sg(e)
        dx = nf.diff(e, dsym(['x']))
        fx = nf.diff(full, dsym(['x']))
        if not has_sg(e):
            okx = True
        else:
            okx = same(nf.strip_sg(dx), fx)
        rep.decide(okx, rule + ':value', tag, 'gradient of %s w.r.t. the '
                   'given value is blocked' % meth, lp.site)
        for p in b.params:
            dp = nf.diff(e, dsym([p]))
            if pd:
                rep.decide(not dp.t or (same(dp, nf.ZERO)), rule,
                           tag + ' ' + p, 'use_path_derivative is on but '
                           'the gradient of %s still reaches %s directly' %
                           (meth, p), lp.site)
            else:
                fp = nf.diff(full, dsym([p]))
                ok = True if not has_sg(e) else same(nf.strip_sg(dp), fp)
                rep.decide(ok, rule, tag + ' ' + p, 'use_path_derivative '
                           'is off but the gradient of %s w.r.t. %s is '
                           'blocked' % (meth, p), lp.site)
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


# ------------------------------------------------------------------- C03

def c03(rep, tier):
    for d in ds.DISTS:
        for v in d.variants:
            for cfg in cfgs(QUICK_SHAPES):
                dts = [F32] if tier == 'quick' else \
                    [F32, F64] + ([] if d.name == 'Categorical' else [F16])
                for dt in dts:
                    if dt is F16 and d.name in (
                            'MultivariateNormalCholesky',
                            'MatrixVariateNormalCholesky'):
                        continue
                    cn = [False, True] if d.check_numerics else [False]
                    if tier == 'quick' and cfg.name not in ('same',
                                                            'norank'):
                        cn = cn[:1]
                    for k in cn:
                        for meth in ('log_prob', 'prob'):
                            _c03_one(rep, d, v, cfg, dt, k, meth)
        _aliases(rep, d)
    _c03_edges(rep, tier)


def _aliases(rep, d):
    for a in d.aliases:
        S = Scenario(rep)
        try:
            ok = S.get('zhusuan.distributions', a) is \
                S.get('zhusuan.distributions', d.name)
            rep.decide(ok or None, 'alias', 'distributions.%s' % a,
                       'alias is a different class')
        except AnchorMissing:
            rep.bad('alias', 'distributions.%s' % a, 'alias is gone')


def _c03_one(rep, d, v, cfg, dt, cn, meth):
    rule = 'density'
    tag = '%s [%s]' % (con(d, meth), case(
        d, v, cfg, dt.name, 'check_numerics' if cn else ''))
    box = {}

    def go():
        b = box['b'] = build(rep, d, v, cfg, dtype=dt,
                             opts={'check_numerics': True} if cn else {})
        S = b.S
        x = given_of(b)
        lp = S.m(b.obj, meth, x)
        full, idx, ref = ref_logp(b)
        if lp.shape is not None and lp.shape != full:
            rep.decide(None if b.I.unknowns else False, rule, tag,
                       'result has shape %s instead of %s' %
                       (lp.shape, full), lp.site)
            return
        got = nf.strip_sg(S.ev(lp, idx))
        want = nf.exp(ref) if meth == 'prob' else ref
        r = same(got, want)
        if r is False and b.I.unknowns:
            r = None
        rep.decide(r, rule, tag, '%s is %s but the density of %s is %s' % (
            meth, nf.show(got, 300), d.name, nf.show(want, 300)), lp.site)
        for kind, msg, site, gs in b.I.events:
            rep.bad('shape-conflict', tag, '%s: %s' % (kind, msg), site)
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


class Pole(Exception):
    pass


class Edge(Evaluator):
    """Evaluation at an edge of the support, with IEEE poles detected on
    the operations as written (before any cancellation)."""

    def view(self, cut):
        e = Edge(self.var_value)
        e.reader, e.cut = self.reader, dict(cut)
        return e

    def _ev(self, t, idx):
        op = t.op
        al = lambda a: align(t.shape, idx, a.shape)
        if t.sid not in self.cut:
            if op in ('log', 'log1p', 'lgamma', 'digamma'):
                v = nf.num_val(self.ev(t.args[0], al(t.args[0])))
                if v is not None and (
                        v == 0 and op == 'log' or v == -1 and op == 'log1p'
                        or v <= 0 and v == int(v) and
                        op in ('lgamma', 'digamma')):
                    raise Pole('%s(%s)' % (op, v), t.site)
            elif op == 'div':
                v = nf.num_val(self.ev(t.args[1], al(t.args[1])))
                if v == 0:
                    raise Pole('division by zero', t.site)
            elif op == 'pow':
                v = nf.num_val(self.ev(t.args[0], al(t.args[0])))
                w = nf.num_val(self.ev(t.args[1], al(t.args[1])))
                if v == 0 and w is not None and w < 0:
                    raise Pole('0 ** %s' % w, t.site)
            elif op in ('sel', 'gamma'):
                c = self.evb(t.args[0], al(t.args[0]))
                if c in (nf.BT, nf.BF):
                    a = t.args[1 if c == nf.BT else 2]
                    return self.ev(a, al(a))
        return Evaluator._ev(self, t, idx)


def _c03_edge(rep, d, v, cfg, x0, dt, meth):
    rule = 'edge'
    tag = '%s [%s]' % (con(d, meth), case(
        d, v, cfg, dt.name, 'at the value %s' % x0))
    box = {}

    def go():
        b = box['b'] = build(rep, d, v, cfg, opts={'dtype': dt}
                             if d.discrete else {})
        S = b.S
        x = given_of(b, dtype=dt)
        lp = S.m(b.obj, meth, x)
        if b.I.unknowns or lp.shape is None:
            rep.und(rule, tag, 'modelling gap')
            return
        idx = S.nftok(lp.shape)
        y0 = nf.num(x0) if x0 != 'n' else b.ref['n_experiments']
        ev = Edge().view({x.sid: y0})
        try:
            got = nf.strip_sg(ev.ev(lp, idx))
        except Pole as e:
            rep.bad(rule, tag, '%s has a pole inside the support: %s' % (
                meth, e.args[0]), e.args[1])
            return
        full, ix, ref = ref_logp(b, idx)

        def f(k):
            return y0 if k[0] == 'sym' and k[1] == 'x' else None
        want = nf.rewrite(nf.exp(ref) if meth == 'prob' else ref, f)
        rep.decide(same(got, want), rule, tag, '%s is %s; expected %s' % (
            meth, nf.show(got, 200), nf.show(want, 200)), lp.site)
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


def _c03_edges(rep, tier):
    for d in ds.DISTS:
        if d.name == 'Categorical':
            continue        # the value is an index
        vals = (0, 1) if d.discrete else (0,)
        if d.name == 'Binomial':
            vals += ('n',)
        if not d.discrete and d.name not in (
                'Normal', 'FoldNormal', 'Laplace', 'ExpConcrete', 'Uniform',
                'MultivariateNormalCholesky', 'MatrixVariateNormalCholesky'):
            continue        # the density may be 0 or infinite at 0
        for v in d.variants:
            for cfg in cfgs(('same', 'scalar', 'options') if tier == 'quick' else
                            QUICK_SHAPES):
                for x0 in vals:
                    for dt in ([I32, F32] if d.discrete else [F32]):
                        for meth in ('log_prob', 'prob'):
                            _c03_edge(rep, d, v, cfg, x0, dt, meth)


# ------------------------------------------------------------------- C04

def canon_noise(p):
    """Rename noise ids to (kind, slot); returns list of candidate maps."""
    ids = []
    for k in sorted(nf.atoms_in(p), key=repr):
        if k[0] == 'rnd' and k[1] not in ids:
            ids.append(k[1])
        if k[0] == 'app' and k[1] in ('rgamma', 'rpoisson', 'rcat'):
            u = (k[1],) + tuple(y[1] for y in k[2]
                                if isinstance(y, tuple) and y[:1] == ('uid',))
            if u not in ids:
                ids.append(u)
    return ids


def rename_noise(p, mp):
    def fixlam(x):
        if isinstance(x, tuple) and x and x[0] == 'lam':
            return ('lam', x[1], rename_noise(nf.P_of_key(x[2]), mp).key)
        return x

    def f(k):
        if k[0] == 'rnd' and k[1] in mp:
            return nf.A(('rnd', mp[k[1]], tuple(fixidx(i) for i in k[2])))
        if k[0] == 'app' and k[1] in ('rgamma', 'rpoisson', 'rcat'):
            uid = None
            for y in k[2]:
                if isinstance(y, tuple) and y[:1] == ('uid',):
                    uid = y[1]
            key = (k[1], uid)
            if key in mp:
                args = tuple(('uid', mp[key][1])
                             if isinstance(y, tuple) and y[:1] == ('uid',)
                             else _rn_lam(y, mp) for y in k[2])
                return nf.A(('app', k[1], args,
                             tuple(fixidx(i) for i in k[3])))
        if k[0] == 'delta':
            return nf.delta(fixidx(k[1]), fixidx(k[2]))
        return None

    def fixidx(i):
        if isinstance(i, tuple) and i and i[0] == 'ixp':
            return nf.mk_ixp(rename_noise(nf.P_of_key(i[1]), mp))
        return i
    return nf.rewrite(p, f)


def _rn_lam(x, mp):
    if isinstance(x, tuple) and x and x[0] == 'lam':
        return ('lam', x[1], rename_noise(nf.P_of_key(x[2]), mp).key)
    if isinstance(x, tuple):
        return tuple(_rn_lam(y, mp) for y in x)
    return x


def drop_eps(p):
    """Open-interval end points: tiny -> 0, nextafter(a, b) -> a."""
    def f(k):
        if k[0] == 'sym' and isinstance(k[1], str):
            if k[1].startswith(('tiny', 'eps')):
                return nf.ZERO
            if k[1].startswith('nextafter('):
                a = k[1][len('nextafter('):].split(',')[0]
                try:
                    return nf.num(float(a))
                except ValueError:
                    return None
        return None
    return nf.rewrite(p, f)


def sample_refs(d, v, b, full, idx):
    """Candidate sampling laws: functions of canonical noise."""
    m = len(full) - len(b.outer) - len(b.vshape)
    lead, vi = idx[:m], idx[len(full) - len(b.vshape):]
    bi = idx[m:len(full) - len(b.vshape)]
    bshape = full[m:len(full) - len(b.vshape)]
    c = ds.Ctx(bshape, bi, b.shapes, b.vd)

    def ix(*ii):
        return tuple(i for i, dd in zip(ii, tuple(full[:m]) +
                                        tuple(bshape) + b.vshape)
                     if dd != 1)

    def U(*inner):
        return nf.A(('rnd', ('uniform', 's0'),
                     ix(*(lead + bi + tuple(inner)))))

    def Nz(*inner):
        return nf.A(('rnd', ('normal', 's0'),
                     ix(*(lead + bi + tuple(inner)))))

    def G(slot, par, *inner):
        return nf.A(('app', 'rgamma', (('uid', 's%d' % slot),
                                       ('lam', (), par.key)),
                     ix(*(lead + bi + tuple(inner)))))
    n = d.name
    if n in ('Normal', 'FoldNormal'):
        sd = c('std') if v[0] == 'std' else nf.exp(c('logstd'))
        z = c('mean') + sd * Nz()
        return [z if n == 'Normal' else nf.fabs(z)]
    if n == 'Bernoulli':
        l = c('logits')
        pr = nf.exp(l) / (1 + nf.exp(l))
        return [nf.ind(nf.blt(U(), pr))]
    if n == 'Uniform':
        return [c('minval') + U() * (c('maxval') - c('minval'))]
    if n == 'Gamma':
        return [G(0, c('alpha')) / c('beta')]
    if n == 'InverseGamma':
        return [c('beta') / G(0, c('alpha'))]
    if n == 'Beta':
        out = []
        for s, t in ((0, 1), (1, 0)):
            x, y = G(s, c('alpha')), G(t, c('beta'))
            out.append(x / (x + y))
        return out
    if n == 'Dirichlet':
        K_ = b.vshape[0]
        g = lambda k: G(0, c('alpha', k), k)
        return [g(vi[0]) / c.S(g, K_)]
    if n == 'Poisson':
        return [nf.A(('app', 'rpoisson', (('uid', 's0'),
                                          ('lam', (), c('rate').key)),
                      ix(*(lead + bi))))]
    if n == 'Laplace':
        u = 2 * U() - 1
        return [c('loc') - c('scale') * nf.sign(u) *
                nf.log(1 - nf.fabs(u))]
    if n == 'BinConcrete':
        lg = nf.log(U()) - nf.log(1 - U())
        y = (c('logits') + lg) / c('temperature')
        return [nf.exp(y) / (1 + nf.exp(y))]
    if n in ('ExpConcrete', 'Concrete'):
        def y(k):
            return (c('logits', k) - nf.log(-nf.log(U(k)))) / \
                c('temperature')
        K_ = b.vshape[0]
        ls = y(vi[0]) - nf.log(c.S(lambda k: nf.exp(y(k)), K_))
        return [ls if n == 'ExpConcrete' else nf.exp(ls)]
    if n == 'MultivariateNormalCholesky':
        K_ = b.vshape[0]
        return [c('mean', vi[0]) +
                c.S(lambda k: c('cov_tril', vi[0], k) * Nz(k), K_)]
    if n == 'MatrixVariateNormalCholesky':
        R_, K_ = b.vshape
        return [c('mean', vi[0], vi[1]) + c.S(lambda j: c.S(
            lambda i: c('u_tril', vi[0], i) * Nz(i, j) *
            c('v_tril', vi[1], j), R_), K_)]
    return None


def flips(p):
    """Equal-in-law variants of a noise expression: Z -> -Z, U -> 1-U."""
    def f(k):
        if k[0] == 'rnd' and k[1][0] == 'normal':
            return -nf.A(k)
        if k[0] == 'rnd' and k[1][0] == 'uniform':
            return 1 - nf.A(k)
        return None
    return [p, nf.rewrite(p, f)]


def c04(rep, tier):
    for d in ds.DISTS:
        for v in d.variants:
            if not can_sample(d, v):
                _c04_nosample(rep, d, v)
                continue
            for cfg in cfgs(QUICK_SHAPES):
                kinds = ('int', 'none', 'tensor') if tier == 'quick' else \
                    ('int', 'none', '1', 'tensor')
                if tier == 'quick' and cfg.name not in ('same', 'norank',
                                                        'bcast-both'):
                    kinds = ('int',)
                for ns in kinds:
                    for rp in ((True, False) if d.reparam else (None,)):
                        _c04_one(rep, d, v, cfg, ns, rp)


def _c04_nosample(rep, d, v):
    tag = '%s [%s]' % (con(d, 'sample'), case(d, v, None))
    box = {}

    def go():
        b = box['b'] = build(rep, d, v, CFGS[0])
        expect_raise(rep, b.S, 'no-sampling', tag,
                     lambda: b.S.m(b.obj, 'sample', 3),
                     ['ValueError', 'NotImplementedError'])
    guarded(rep, 'no-sampling', tag, go, _I(box))
    _fin(rep, box)


def _cat_law(rep, d, v, b, x, got, full, idx, rule, tag):
    """Categorical-type samplers: the law of the underlying draw and the way
    draws are laid out."""
    m = len(full) - len(b.outer) - len(b.vshape)
    lead, vi = idx[:m], idx[len(full) - len(b.vshape):]
    bi = idx[m:len(full) - len(b.vshape)]
    apps = [k for k in nf.atoms_in(got) if k[0] == 'app' and k[1] == 'rcat']
    if len(apps) != 1:
        raise Undecided('expected one categorical source, found %d' %
                        len(apps))
    k = apps[0]
    uid = [y for y in k[2] if isinstance(y, tuple) and y[:1] == ('uid',)]
    lam = [y for y in k[2] if not (isinstance(y, tuple) and
                                   y[:1] == ('uid',))]
    row, draw = k[3]
    # 1. unnormalised log-probabilities of the draw
    lams = lam[0]
    bshape = full[m:len(full) - len(b.vshape)]
    c = ds.Ctx(bshape, bi, b.shapes, b.vd)
    if d.name == 'Binomial':
        if len(lams) != 1:
            raise Undecided('binomial source is not two-valued')
        want = c('logits')
        ok = same(nf.P_of_key(lams[0][2]), want)
    else:
        if len(lams) != 1 or len(lams[0][1]) != 1:
            raise Undecided('categorical source layout')
        vv = lams[0][1][0]
        gotl = nf.P_of_key(lams[0][2])
        want = c('logits', vv)
        dl = gotl - want
        ok = not nf.depends(dl, vv)
        if not ok:
            r = same(gotl, want)
            ok = r
    rep.decide(ok, rule + ':logits', tag, 'draws use log-probabilities '
               'different from the logits: %s' %
               nf.show(nf.P_of_key(lams[0][2]), 200), x.site)
    # 2. independent draws: the draw index must separate all sample indices
    used = set()

    def toks(i):
        if isinstance(i, str):
            used.add(i)
        elif isinstance(i, tuple):
            for y in i[1:] if i and i[0] in ('grp', 'part', 'rev') else ():
                toks(y)
            if i and i[0] == 'ixp':
                for kk in nf.atoms_in(nf.P_of_key(i[1])):
                    if kk[0] == 'sym':
                        for y in kk[2]:
                            toks(y)
    toks(row)
    toks(draw)
    need = {t for t in tuple(lead) + tuple(bi) if isinstance(t, str)}
    rep.decide(need <= used, rule + ':independent', tag,
               'the same draw is shared along axes %s' %
               sorted(need - used), x.site)
    # 3. count structure
    src = nf.A(k)
    z = nf.A(('sym', 'DRAW', ()))

    def f(kk):
        if kk == k:
            return z
        if kk[0] == 'delta':
            fx = lambda i: nf.mk_ixp(nf.rewrite(nf.P_of_key(i[1]), f)) \
                if isinstance(i, tuple) and i and i[0] == 'ixp' else i
            return nf.delta(fx(kk[1]), fx(kk[2]))
        return None
    if d.name == 'Categorical':
        rep.decide(same(got, src), rule, tag, 'sample is %s' %
                   nf.show(got, 200), x.site)
    elif d.name == 'OnehotCategorical':
        want = nf.delta(vi[0], nf.mk_ixp(src))
        rep.decide(same(got, want), rule, tag, 'sample is %s' %
                   nf.show(got, 200), x.site)
    else:
        # n-fold sum of draws (Binomial) / one-hot draws (Multinomial)
        if len(got.t) != 1:
            raise Undecided('count structure')
        (mm, cc), = got.t.items()
        if cc != 1 or len(mm) != 1 or nf.akey(mm[0][0])[0] != 'sum':
            rep.bad(rule, tag, 'sample is not a sum of unit draws: %s' %
                    nf.show(got, 200), x.site)
            return
        sk = nf.akey(mm[0][0])
        n = b.ref['n_experiments']
        size = nf.ONE
        for _, dd in sk[1]:
            size = size * nf.dim_nf(dd)
        body = nf.P({sk[2]: F(1)})
        kb = [q for q in nf.atoms_in(body) if q[0] == 'app']
        kv = sk[1][0][0]
        dep = any(nf.depends_atom(nf.atom(q), kv) for q in kb)
        want = nf.A(kb[0]) if d.name == 'Binomial' else \
            nf.delta(vi[0], nf.mk_ixp(nf.A(kb[0])))
        rep.decide(same(size, n) and dep and same(body, want), rule, tag,
                   'sample is not the sum of n_experiments independent '
                   'draws: %s' % nf.show(got, 200), x.site)


def _c04_one(rep, d, v, cfg, ns, rp):
    rule = 'sampling-law'
    tag = '%s [%s]' % (con(d, 'sample'), case(
        d, v, cfg, 'n=%s' % ns, '' if rp is None else 'reparam=%s' % rp))
    box = {}

    def go():
        b = box['b'] = build(rep, d, v, cfg, opts={} if rp is None else
                             {'is_reparameterized': rp})
        S = b.S
        x = S.m(b.obj, 'sample', nsamp(S, ns))
        if gap(b, rep, rule, tag):
            return
        full = x.shape
        if cfg.used:
            old = {k for k, y in ancestors(b.before).items()
                   if y.op in NOISE}
            again = [y for k, y in ancestors([x]).items() if k in old]
            rep.decide(not again, 'fresh-draws', tag, 'a second call of '
                       'sample() returns the noise of an earlier one',
                       x.site)
        idx = S.nftok(full)
        got = drop_eps(nf.strip_sg(S.ev(x, idx)))
        if nf.has_unknown(got):
            raise Undecided('unknown value')
        m = len(full) - len(b.outer) - len(b.vshape)
        if m != (0 if ns == 'none' else 1) or \
                tuple(full[m:]) != tuple(b.outer) + b.vshape:
            rep.bad(rule, tag, 'sample shape %s' % (full,), x.site)
            return
        if d.name in ('Categorical', 'OnehotCategorical', 'Multinomial',
                      'Binomial'):
            _cat_law(rep, d, v, b, x, got, full, idx, rule, tag)
            return
        refs = sample_refs(d, v, b, full, idx)
        ids = canon_noise(got)
        kinds = [i[0] for i in ids]
        slots = {}
        best = None
        perms = itertools.permutations(range(len(ids))) if len(ids) <= 3 \
            else [range(len(ids))]
        verdicts = []
        for perm in perms:
            mp = {}
            for i, s in zip(ids, perm):
                mp[i] = (i[0], 's%d' % s)
            g = rename_noise(got, mp)
            for ref in refs:
                for fl in flips(ref):
                    r = same(g, drop_eps(fl))
                    if r:
                        rep.ok(rule, tag)
                        return
                    verdicts.append(r)
        if all(r is None for r in verdicts):
            rep.und(rule, tag, 'not comparable')
            return
        # change of variables (scalar continuous laws)
        r = _cov(d, v, b, got, ids, full, idx)
        if r is not None:
            rep.decide(r, rule, tag, 'samples %s do not follow the density '
                       'of %s (change of variables fails)' % (
                           nf.show(got, 200), d.name), x.site)
            return
        known = {'normal', 'uniform', 'rgamma', 'rpoisson'}
        if not set(kinds) <= known:
            rep.und(rule, tag, 'noise kinds %s' % kinds)
            return
        rep.bad(rule, tag, 'samples are %s; expected a %s variate %s' % (
            nf.show(got, 200), d.name, nf.show(refs[0], 200)), x.site)
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


def _cov(d, v, b, got, ids, full, idx):
    """Exact change of variables for scalar continuous distributions:
    log p(g(z)) + log|g'(z)| must equal the log density of the noise z."""
    if d.value_ndims or d.discrete or len(ids) != 1 or \
            d.name == 'FoldNormal':
        return None
    kind = ids[0][0]
    if kind not in ('normal', 'uniform'):
        return None
    rn = [k for k in nf.atoms_in(got) if k[0] == 'rnd']
    if len(rn) != 1:
        return False if len(rn) > 1 else None
    tok = tuple(i for i, dd in zip(idx, full) if dd != 1)
    if rn[0][2] != tok:
        return False          # noise shared along an axis
    z = nf.A(rn[0])

    def dm(k):
        if k == rn[0]:
            return nf.ONE
        return None
    try:
        dg = nf.diff(got, dm)
        m = len(full) - len(b.outer)
        c = ds.Ctx(full[m:], idx[m:], b.shapes, b.vd)
        lp = ds.logp_of(d, v[0])(c, lambda *i: got, b.ref)
    except nf.Undecidable:
        return None
    if not dg.t:
        return False
    want = -z * z / 2 - nf.log(2 * ds.PI) / 2 if kind == 'normal' \
        else nf.ZERO
    lhs = lp + nf.log(dg * dg) / 2
    return same(lhs, want)


# ------------------------------------------------------------------- C05

def c05(rep, tier):
    for d in ds.DISTS:
        for v in d.variants:
            for cfg in cfgs(QUICK_SHAPES):
                _c05_meta(rep, d, v, cfg)
                if not can_sample(d, v):
                    continue
                for ns in ('none', 'int', '1', 'tensor'):
                    _c05_one(rep, d, v, cfg, ns)


def dim_shape_nf(els):
    return [e for e in els]


def _c05_meta(rep, d, v, cfg):
    rule = 'shape-attrs'
    tag = '%s [%s]' % (con(d, 'batch_shape/value_shape'), case(d, v, cfg))
    box = {}

    def go():
        b = box['b'] = build(rep, d, v, cfg)
        S, I = b.S, b.I
        for nm, want in (('batch_shape', tuple(b.outer)),
                         ('value_shape', b.vshape)):
            t = S.attr(b.obj, nm)
            els = I.tf.as_ivec(t)
            st = S.m(b.obj, 'get_' + nm)
            if gap(b, rep, rule, tag):
                return
            if els is None:
                rep.und(rule, tag + ' ' + nm, 'shape vector not tracked')
            else:
                rep.decide(tuple(els) == tuple(want), rule, tag + ' ' + nm,
                           '%s is %s, expected %s' % (nm, els, want))
            if not isinstance(st, TShape):
                rep.und(rule, tag + ' get_' + nm, repr(st))
                continue
            rep.decide(static_ok(I, st, want), rule, tag + ' get_' + nm,
                       'static %s is %s, inconsistent with %s' %
                       (nm, st, want))
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


def static_ok(I, st, want):
    """A static shape may know less than the true shape, never else."""
    dims = st.dims
    if dims is None:
        return True
    if any(isinstance(w, Seg) for w in want):
        return None if dims is not None else True
    if len(dims) != len(want):
        return False
    for a, w in zip(dims, want):
        a = sval(I, a)
        if a is None:
            continue
        if a != w:
            return False
    return True


def sval(I, a):
    if a is None:
        return None
    if isinstance(a, Term):
        e = I.tf.dim_el(a)
        return e
    return a


def _c05_one(rep, d, v, cfg, ns):
    rule = 'sample-shape'
    tag = '%s [%s]' % (con(d, 'sample'), case(d, v, cfg, 'n=%s' % ns))
    box = {}

    def go():
        b = box['b'] = build(rep, d, v, cfg)
        S, I = b.S, b.I
        n = nsamp(S, ns)
        x = S.m(b.obj, 'sample', n)
        for kind, msg, site, gs in I.events:
            rep.bad('shape-conflict', tag, '%s: %s' % (kind, msg), site)
        if gap(b, rep, rule, tag):
            return
        lead = {'none': (), 'int': (Dim('M'),), '1': (1,),
                'tensor': (DExpr(nf.A(('sym', 'm', ()))),)}[ns]
        want = lead + tuple(b.outer) + b.vshape
        if x.shape is None:
            rep.und(rule, tag, 'shape unknown')
        else:
            rep.decide(tuple(x.shape) == want, rule, tag, 'sample(n_samples='
                       '%s) has shape %s, expected %s' % (ns, x.shape, want),
                       x.site)
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


# ------------------------------------------------------------------- C06

def c06(rep, tier):
    for d in ds.DISTS:
        for v in d.variants:
            for cfg in cfgs(('sampled', 'bcast-given', 'dyn', 'dyn-sampled',
                             'same', 'options') if tier == 'quick' else
                            ('options', 'sampled', 'bcast-given', 'dyn', 'dyn-sampled',
                             'same', 'bcast-both', 'unit', 'bcast-param',
                             'dyn-batch', 'dyn-value')):
                for g in (0, 1, 2, 'tensor'):
                    for meth in ('log_prob', 'prob'):
                        _c06_one(rep, d, v, cfg, g, meth)
            _c06_bad(rep, d, v)


def _c06_bad(rep, d, v):
    S0 = CFGS[0]
    S = Scenario(rep, known=S0.known)

    class _S(object):
        pass
    s = _S()
    s.I = S.I
    for bad, what in ((-1, '-1'), (-2, '-2'), (-7, '-7'), (1.0, '1.0'),
                      (0.5, '0.5'),
                      (lazy(lambda S_: S_.sym('gf', (), F32)),
                       'float tensor')):
        tag = '%s [%s]' % (con(d, '__init__'), case(
            d, v, None, 'group_ndims=%s' % what))
        expect_raise(rep, s, 'group-negative', tag,
                     lambda: build(rep, d, v, S0, opts={'group_ndims': bad}),
                     ['ValueError', 'TypeError'])

    tag = '%s [%s]' % (con(d, '__init__'), case(
        d, v, None, 'group_event_ndims'))
    expect_raise(rep, s, 'group-deprecated', tag,
                 lambda: build(rep, d, v, S0,
                               opts={'group_event_ndims': 1}),
                 ['ValueError'])


def _c06_one(rep, d, v, cfg, g, meth):
    rule = 'group-ndims'
    tag = '%s [%s]' % (con(d, meth), case(d, v, cfg, 'g=%s' % g))
    box = {}

    def go():
        S1 = build(rep, d, v, cfg)
        full = bcast(S1.outer, cfg.given)
        if isinstance(g, int) and g > len(full):
            return
        if g == 'tensor':
            b = box['b'] = build(rep, d, v, cfg, opts={
                'group_ndims': lazy(lambda S_: S_.sym('gt', (), I32))})
        else:
            b = box['b'] = build(rep, d, v, cfg, opts={'group_ndims': g})
        S = b.S
        x = given_of(b)
        lp = S.m(b.obj, meth, x)
        gn = S.attr(b.obj, 'group_ndims')
        if gap(b, rep, rule, tag):
            return
        op = 'rsum' if meth == 'log_prob' else 'rprod'
        if g == 'tensor':
            t = lp
            while t.op in ('id',):
                t = t.args[0]
            okk = t.op == op and t.attrs[0] == 'last'
            if not okk:
                rep.decide(None if t.op not in ('rsum', 'rprod') else False,
                           rule, tag, '%s with a tensor group_ndims is a %s '
                           'over %s' % (meth, t.op, t.attrs[:1]), lp.site)
                return
            gt = t.args[1] if len(t.args) > 1 else None
            gg = S.ev(gt, ()) if gt is not None else None
            rep.decide(same(gg, nf.A(('sym', 'gt', ()))) if gg is not None
                       else None, rule, tag, 'reduces %s axes' %
                       (nf.show(gg) if gg is not None else '?'), lp.site)
            rest = {'rankT': 0, 'rankQ': 1, 'n_experiments': 5, 'N': 5,
                    K.name: 4}
            guarded_against(rep, rule + ':checked', tag, lp,
                            [dict(rest, gt=-1), dict(rest, gt=-4)],
                            [dict(rest, gt=j) for j in (0, 1, 2)],
                            'negative group_ndims')
            base = t.args[0]
            f2, idx, ref = ref_logp(b)
            got = nf.strip_sg(S.ev(base, idx))
            want = ref if meth == 'log_prob' else nf.exp(ref)
            rep.decide(same(got, want), rule, tag, 'wrong summand',
                       lp.site)
            return
        rep.decide(gn == g, rule + ':attr', tag, 'group_ndims is %r' % (gn,))
        want_shape = full[:len(full) - g]
        if lp.shape is None:
            raise Undecided('shape')
        if tuple(lp.shape) != tuple(want_shape):
            rep.bad(rule, tag, '%s has shape %s, expected %s' % (
                meth, lp.shape, want_shape), lp.site)
            return
        idx = S.nftok(want_shape)
        got = nf.strip_sg(S.ev(lp, idx))
        toks = tuple(nf.fresh_idx() if dd != 1 else 0
                     for dd in full[len(full) - g:])
        _, _, ref = ref_logp(b, idx + toks)
        if meth == 'log_prob':
            for t_, dd in zip(toks, full[len(full) - g:]):
                if t_ != 0:
                    ref = nf.sum_over(ref, t_, dd)
        else:
            ref = nf.exp(ref)
            for t_, dd in zip(toks, full[len(full) - g:]):
                if t_ != 0:
                    ref = nf.reduce_op('prod', ref, t_, dd)
        rep.decide(same(got, ref), rule, tag, '%s does not reduce exactly '
                   'the last %d axes: %s' % (meth, g, nf.show(got, 200)),
                   lp.site)
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


def lazy(f):
    f.lazy = True
    return f


# ------------------------------------------------------------------- C07

ALL_DT = [F16, F32, F64, I16, I32, I64]


def c07(rep, tier):
    for d in ds.DISTS:
        for v in d.variants:
            pdts = [F32, F64] if d.name == 'Categorical' else \
                [F16, F32, F64]
            if d.discrete:
                odts = [None] + ALL_DT
                if d.name == 'Categorical':
                    odts = [None, F32, F64, I32, I64]
            else:
                odts = [None]
            for pd in pdts:
                for od in odts:
                    for cfg in cfgs(('same', 'norank', 'path', 'checked')
                                    if tier == 'quick'
                                    else ('same', 'norank', 'dyn-sampled',
                                          'path', 'checked', 'options',
                                          'scalar', 'bcast-both')):
                        _c07_one(rep, d, v, pd, od, cfg)
            _c07_reject(rep, d, v)


def _dname(t):
    return getattr(t, 'name', str(t))


MOVES = {'sym', 'id', 'convert', 'const', 'cst', 'reshape', 'transpose',
         'expand', 'squeeze', 'tile', 'bto', 'slice', 'fill', 'gather',
         'concat', 'stack', 'unstack', 'onehot', 'sg', 'chk', 'shape', 'pack',
         'zeros', 'ones', 'where', 'sel', 'reverse', 'phi'}


NOISE = {'rnormal', 'runiform', 'rgamma', 'rcat', 'rpoisson', 'rother'}


def unit(x):
    """Is every element of x the number one?"""
    while isinstance(x, Term) and x.op in ('fill', 'bto', 'id', 'cast',
                                           'convert', 'reshape', 'tile'):
        x = x.args[0]
    if isinstance(x, Term):
        return x.op == 'const' and x.attrs and x.attrs[0] == 1
    return x == 1


def rounded(t, pd, discrete):
    """A term below t whose float precision is lower than that of pd."""
    for a in ancestors([t], ctrl=False).values():
        if a.op == 'cast' and a.dtype is not None and not discrete:
            s = a.args[0]
            if isinstance(s, Term) and s.dtype is not None and \
                    s.dtype.kind in 'iu' and a.dtype is not s.dtype and (
                        a.dtype.kind in 'iu' and a.dtype.size < 4 or
                        a.dtype.kind == 'f' and a.dtype.size < pd.size):
                return 'cast from %s to %s' % (s.dtype.name, a.dtype.name)
        if a.dtype is None or a.dtype.kind != 'f' or a.dtype.size >= pd.size:
            continue
        if a.op in MOVES:
            continue
        if a.op == 'cast':
            s = a.args[0]
            if not isinstance(s, Term) or s.dtype is None or \
                    s.dtype.kind != 'f' or s.dtype.size <= a.dtype.size:
                continue
            if discrete and any(x.op in NOISE for x in
                                ancestors([s], ctrl=False).values()):
                continue        # the drawn value in the requested dtype
        elif discrete and a.op not in NOISE:
            continue
        elif a.op == 'mul' and any(unit(x) for x in a.args):
            continue
        return '%s in %s' % (a.op, a.dtype.name)
    return None


def _c07_one(rep, d, v, pd, od, cfg):
    rule = 'dtype'
    tag = '%s [%s]' % (con(d, 'dtype'), case(d, v, cfg, 'params=%s' %
                                             pd.name, 'dtype=%s' %
                                             (od.name if od else 'default')))
    box = {}

    def go():
        b = box['b'] = build(rep, d, v, cfg, dtype=pd, odtype=od)
        S = b.S
        want = od or (I32 if d.discrete else pd)
        got = {}
        vals = {}
        got['dtype'] = (S.attr(b.obj, 'dtype'), want)
        got['param_dtype'] = (S.attr(b.obj, 'param_dtype'), pd)
        if can_sample(d, v):
            for ns in ('int', 'none'):
                x = S.m(b.obj, 'sample', nsamp(S, ns))
                got['sample(%s)' % ns] = (x.dtype, want)
                vals['sample(%s)' % ns] = x
        x = given_of(b, dtype=want)
        for meth in ('log_prob', 'prob'):
            r = S.m(b.obj, meth, x)
            got[meth] = (r.dtype, pd)
            vals[meth] = r
        if gap(b, rep, rule, tag):
            return
        for w, (g, e) in sorted(got.items()):
            rep.decide(None if is_unk(g) else g is e, rule, tag + ' ' + w,
                       '%s of %s has dtype %s, expected %s' % (
                           w, d.name, _dname(g), _dname(e)))
        rep.decide(S.attr(b.obj, 'is_continuous') is (not d.discrete),
                   'continuous-flag', tag, 'is_continuous is wrong')
        for w, t in sorted(vals.items()):
            bad = rounded(t, pd, d.discrete and w.startswith('sample'))
            rep.decide(not bad, 'precision', tag + ' ' + w,
                       '%s of %s rounds to a lower precision than %s: %s' % (
                           w, d.name, pd.name, bad))
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


def mkdist(rep, name, kw, known=ALL):
    """kw: {param: ('t', shape, dtype) | value} -> thunk and scenario."""
    S = Scenario(rep, known=known)

    def go():
        cls = S.get('zhusuan.distributions', name)
        args = {}
        for k, x in kw.items():
            if isinstance(x, tuple) and x and x[0] == 't':
                args[k] = S.sym(k, x[1], x[2] if len(x) > 2 else F32)
            elif isinstance(x, DType):
                args[k] = x
            else:
                args[k] = x
        return S.I.call(cls, [], args)
    return S, go


def good(d, v, dtype=F32):
    """Keyword arguments of a valid construction (batch axis B)."""
    kw = {}
    for p in v[1]:
        q = p if p in d.params else 'std'
        if d.params[q] == 's':
            kw[p] = ('t', (), dtype)
        else:
            kw[p] = ('t', (B_,) + ds.inner_shape(d, q), dtype)
    for k, x in v[2].items():
        kw[k] = 3 if x in ('pyint', 'tensor') else x
    return kw


def rejects(rep, rule, d, what, kw, names, known=ALL, after=None):
    tag = '%s [%s]' % (con(d, '__init__'), what)
    S, go = mkdist(rep, d.name, kw, known)
    f = go if after is None else (lambda: after(S, go()))
    expect_raise(rep, S, rule, tag, f, names)
    rep.absorb(S.I)


def _c07_reject(rep, d, v):
    rule = 'dtype-reject'
    pn = [p for p in v[1]]
    # parameters of different floating types
    for p in pn[1:]:
        kw = good(d, v)
        kw[p] = ('t', kw[p][1], F64)
        rejects(rep, rule, d, case(d, v, None, 'float32 vs float64 %s' % p),
                kw, ['TypeError', 'ValueError'])
    # parameters of integer type
    for bad in (I32, I64):
        kw = good(d, v, bad)
        rejects(rep, rule, d, case(d, v, None, '%s parameters' % bad.name),
                kw, ['TypeError'])
    if d.name == 'Categorical':
        rejects(rep, rule, d, case(d, v, None, 'float16 parameters'),
                good(d, v, F16), ['TypeError'])
    if d.discrete:
        for bad in (BOOL, DTYPES['int8'], DTYPES['uint8'],
                    DTYPES['complex64']) + (
                        (F16, I16) if d.name == 'Categorical' else ()):
            kw = good(d, v)
            kw['dtype'] = bad
            rejects(rep, rule, d, case(d, v, None, 'dtype=%s' % bad.name),
                    kw, ['TypeError'])


# ------------------------------------------------------------------- C08

def c08(rep, tier):
    VE = ['ValueError']
    for d in ds.DISTS:
        for v in d.variants:
            kw0 = good(d, v)
            # incompatible static parameter shapes
            ps = [p for p in v[1] if d.params.get(
                p, d.params.get('std')) != 's']
            if len(ps) >= 2:
                for p in ps[1:]:
                    for base_, bad in (((2,), (3,)), ((4, 2), (3,)),
                                       ((4, 2), (3, 2))):
                        kw = dict(kw0)
                        for q in ps:
                            inn = ds.inner_shape(
                                d, q if q in d.params else 'std')
                            kw[q] = ('t', base_ + inn, F32)
                        inn = ds.inner_shape(
                            d, p if p in d.params else 'std')
                        kw[p] = ('t', bad + inn, F32)
                        rejects(rep, 'param-shapes', d, case(
                            d, v, None, '%s %s vs %s' % (p, bad, base_)),
                            kw, VE)
            # rank too small
            for p in ps:
                nd = d.params.get(p, 0)
                for r in range(nd if isinstance(nd, int) else 0):
                    kw = dict(kw0)
                    kw[p] = ('t', (K,) * r, F32)
                    for kn in (ALL, ()) if r else (ALL,):
                        rejects(rep, 'param-rank', d, case(
                            d, v, None, '%s rank %d%s' % (
                                p, r, '' if kn else ', sizes unknown')),
                            kw, VE, kn)
            # non-scalar temperature
            if 'temperature' in v[1]:
                for sh in ((1,), (B_,), (2, 3)):
                    kw = dict(kw0)
                    kw['temperature'] = ('t', sh, F32)
                    rejects(rep, 'param-rank', d, case(
                        d, v, None, 'temperature shape %s' % (sh,)), kw, VE)
            # numbers of experiments
            if v[2].get('n_experiments') == 'pyint':
                for bad in (0, -1, -7):
                    kw = dict(kw0)
                    kw['n_experiments'] = bad
                    rejects(rep, 'n-experiments', d, case(
                        d, v, None, 'n_experiments=%d' % bad), kw, VE)
                kw = dict(kw0)
                kw['n_experiments'] = 2.5
                rejects(rep, 'n-experiments', d, case(
                    d, v, None, 'n_experiments=2.5'), kw, ['TypeError'])
                for n in (1, 2, 1000):
                    _c08_count(rep, d, v, dict(kw0, n_experiments=n), n)
            _c08_given(rep, d, v, tier)
        _c08_special(rep, d)
        _c08_dyn(rep, d)


def _c08_count(rep, d, v, kw, n):
    rule = 'n-experiments'
    tag = '%s [%s]' % (con(d, '__init__'), case(
        d, v, None, 'n_experiments=%d accepted' % n))
    S, mk = mkdist(rep, d.name, kw, ALL)

    def f():
        o = mk()
        got = S.attr(o, 'n_experiments')
        if isinstance(got, Term):
            got = int_of(got, {})
        rep.decide(got == n, rule, tag, 'n_experiments reports %r' % (got,))
        S.m(o, 'sample', 2)
    guarded(rep, rule, tag, f, S.I)
    rep.absorb(S.I)


def _c08_special(rep, d):
    VE = ['ValueError']
    if d.name in ('Normal', 'FoldNormal'):
        t = ('t', (B_,), F32)
        rejects(rep, 'std-or-logstd', d, 'both', {
            'mean': t, 'std': t, 'logstd': t}, VE)
        rejects(rep, 'std-or-logstd', d, 'neither', {'mean': t}, VE)
        tag = '%s [%s]' % (con(d, '__init__'), 'positional std')
        S = Scenario(rep, known=ALL)

        def go():
            cls = S.get('zhusuan.distributions', d.name)
            return S.call(cls, S.sym('mean', (B_,)), S.sym('std', (B_,)))
        expect_raise(rep, S, 'positional-std', tag, go, VE)
        rep.absorb(S.I)
    if d.name == 'Dirichlet':
        rejects(rep, 'n-categories', d, 'one category',
                {'alpha': ('t', (B_, 1), F32)}, VE)
        rejects(rep, 'n-categories', d, 'one category, rank 1',
                {'alpha': ('t', (1,), F32)}, VE)
    if d.name == 'MultivariateNormalCholesky':
        rejects(rep, 'param-shapes', d, 'cov_tril not square', {
            'mean': ('t', (3,), F32), 'cov_tril': ('t', (3, 2), F32)}, VE)
        rejects(rep, 'param-shapes', d, 'cov_tril of other size', {
            'mean': ('t', (3,), F32), 'cov_tril': ('t', (2, 2), F32)}, VE)
    if d.name == 'MatrixVariateNormalCholesky':
        for what, u, w in (('u_tril of other size', (2, 2), (5, 5)),
                           ('v_tril of other size', (3, 3), (4, 4)),
                           ('u/v swapped', (5, 5), (3, 3)),
                           ('u_tril not square', (3, 5), (5, 5)),
                           ('v_tril not square', (3, 3), (5, 3))):
            rejects(rep, 'param-shapes', d, what, {
                'mean': ('t', (3, 5), F32), 'u_tril': ('t', u, F32),
                'v_tril': ('t', w, F32)}, VE)


def _c08_given(rep, d, v, tier):
    """A given value that cannot broadcast is rejected statically."""
    inner = {1: (3,), 2: (3, 4)}
    for base_, bad in (((2,), (5,)), ((4, 2), (3, 2)), ((2,), (4, 5))):
        kw = {}
        for p in v[1]:
            q = p if p in d.params else 'std'
            if d.params[q] == 's':
                kw[p] = ('t', (), F32)
                continue
            inn = ds.inner_shape(d, q)
            m = {K: 4 if d.value_ndims == 2 else 3, R: 3}
            kw[p] = ('t', base_ + tuple(m[i] for i in inn), F32)
        for k, x in v[2].items():
            kw[k] = 3 if x in ('pyint', 'tensor') else x
        gsh = bad + {0: (), 1: (3,), 2: (3, 4)}[d.value_ndims]
        for meth in ('log_prob', 'prob'):
            rejects(rep, 'given-shape', d, case(
                d, v, None, '%s of %s given %s' % (meth, base_, bad)), kw,
                ['ValueError'], after=lambda S, o: S.m(
                    o, meth, S.sym('x', gsh, I32 if d.discrete else F32)))


def asserted(rep, rule, tag, S, roots, pred):
    """Some runtime assertion satisfying `pred` precedes every root."""
    for name, r in roots:
        anc = ancestors([r])
        hit = any(t.op == 'assertop' and pred(t) for t in anc.values())
        rep.decide(hit, rule, '%s %s' % (tag, name), 'no run-time check '
                   'guards %s' % name, getattr(r, 'site', None))


def _c08_dyn(rep, d):
    """Shape requirements that are only known at run time are asserted
    before the value is used."""
    def go(tag, kw, test, rule='dynamic-check', attr=None,
           only=False, ns=None):
        S, mk = mkdist(rep, d.name, kw, ())
        tag = '%s [%s]' % (con(d, '__init__'), tag)

        def f():
            o = mk()
            roots = []
            if attr is not None:
                roots.append((attr, S.attr(o, attr)))
            if attr is None and d.name != 'UnnormalizedMultinomial':
                roots.append(('sample', S.m(
                    o, 'sample', ns(S) if ns else S.pyint('M'))))
            if not only:
                x = S.sym('x', (Seg('Q'),) + {0: (), 1: (K,), 2: (R, K)}[
                    d.value_ndims], I32 if d.discrete else F32)
                roots.append(('log_prob', S.m(o, 'log_prob', x)))
            if S.I.unknowns:
                rep.und(rule, tag, str(S.I.unknowns[:1]))
                return
            for name, r in roots:
                test(rule, '%s %s' % (tag, name), r)
        guarded(rep, rule, tag, f, S.I)
        rep.absorb(S.I)
    Q = Seg('Q')

    def rank(p, nd):
        """Some assertion on p's rank demands exactly what the shape of p
        needs: at least nd."""
        def test(rule, tag, r):
            ok = None
            for t in guards_of(r):
                if t.attrs[0] != 'rank_ge' and not (
                        t.attrs[0] in ('ge', 'gt', 'le', 'lt')):
                    continue
                ss = set(x.attrs[0] for x in ancestors(t.args).values()
                         if x.op == 'sym')
                if t.attrs[0] == 'rank_ge':
                    k = int_of(t.args[1], {})
                    if ss != {p} or k is None:
                        continue
                    ok = k == nd or ok is True
                    rep.decide(k <= nd, rule, tag + ' accepted',
                               'rank %d of %s is rejected when the graph '
                               'runs' % (nd, p), t.site)
                else:
                    # tf.rank(p) >= nd
                    lo = truth(t, {'rankQ': -1})
                    hi = truth(t, {'rankQ': 0})
                    if lo is False and hi is True:
                        ok = True
            rep.decide(ok is True, rule, tag, 'no run-time check that the '
                       'rank of %s is at least %d' % (p, nd), r.site)
        return test

    def against(bad, good, what):
        rest = {'rankT': 0, 'rankQ': 1, 'n_experiments': 5, K.name: 4}
        bad, good = [[dict(rest, **e) for e in x] for x in (bad, good)]
        return lambda rule, tag, r: guarded_against(rep, rule, tag, r, bad,
                                                    good, what)
    base_ = {}
    v = d.variants[0]
    kw0 = good(d, v)
    for p in v[1]:
        q = p if p in d.params else 'std'
        if d.params[q] == 's':
            base_[p] = ('t', (), F32)
        else:
            base_[p] = ('t', (Q,) + ds.inner_shape(d, q), F32)
    for k, x in v[2].items():
        base_[k] = 3 if x in ('pyint', 'tensor') else x
    for p in v[1]:
        nd = d.params.get(p, 0)
        if nd == 's':
            kw = dict(base_)
            kw[p] = ('t', (Seg('T'),), F32)
            go('temperature of unknown rank', kw,
               against([{'rankT': 1}, {'rankT': 2}], [{'rankT': 0}],
                       'rank of the temperature'), attr='temperature', only=True)
        elif isinstance(nd, int) and nd >= 1:
            go('%s of unknown rank' % p, dict(base_), rank(p, nd))
    if 'n_experiments' in v[2]:
        kw = dict(base_)
        kw['n_experiments'] = ('t', (), I32)
        go('tensor n_experiments', kw,
           against([{'n_experiments': 0}, {'n_experiments': -3}],
                   [{'n_experiments': 1}, {'n_experiments': 100}],
                   'n_experiments'), attr='n_experiments')
        kw['n_experiments'] = ('t', (Seg('T'),), I32)
        go('n_experiments of unknown rank', kw,
           against([{'rankT': 1}], [{'rankT': 0}], 'rank of n_experiments'),
           only=True,
           attr='n_experiments')
    if d.name == 'Dirichlet':
        go('unknown number of categories', dict(base_),
           against([{K.name: 1}], [{K.name: 2}, {K.name: 9}],
                   'number of categories'))


# ------------------------------------------------------------------- C10

def c10(rep, tier):
    """Noise never reaches log(0) or a division by zero."""
    for d in ds.DISTS:
        for v in d.variants:
            if not can_sample(d, v):
                continue
            for dt in (F16, F32, F64):
                if dt is F16 and d.name == 'Categorical':
                    continue
                for rp in ((True, False) if d.reparam else (None,)):
                    for cfg in cfgs(('same', 'path', 'checked')):
                        _c10_one(rep, d, v, dt, rp, cfg)


def _c10_one(rep, d, v, dt, rp, cfg):
    rule = 'open-noise'
    tag = '%s [%s]' % (con(d, 'sample'), case(
        d, v, cfg, dt.name, '' if rp is None else 'reparam=%s' % rp))
    box = {}

    def go():
        b = box['b'] = build(rep, d, v, cfg, dtype=dt, opts={}
                             if rp is None else {'is_reparameterized': rp})
        S = b.S
        x = S.m(b.obj, 'sample', S.pyint('M'))
        if gap(b, rep, rule, tag):
            return
        noise_finite(rep, rule, tag, x)
    guarded(rep, rule, tag, go, _I(box))
    _fin(rep, box)


def noise_only(t, memo):
    """Is t a function of uniform noise and constants alone?"""
    r = memo.get(t.sid)
    if r is not None:
        return r
    memo[t.sid] = False
    if t.op == 'runiform':
        r = True
    elif t.op in ('sym', 'var', 'rnormal', 'rgamma', 'rpoisson', 'rcat',
                  'unk'):
        r = False
    elif t.op in ('const', 'cst', 'dim', 'ivec'):
        r = None
    else:
        rs = [noise_only(a, memo) for a in t.args if isinstance(a, Term)]
        if any(q is False for q in rs):
            r = False
        elif any(q for q in rs):
            r = True
        else:
            r = None
    memo[t.sid] = r if r is not None else 0
    return memo[t.sid]


def noise_finite(rep, rule, tag, root):
    iv = interval.Intervals()
    memo = {}
    n = 0
    for t in ancestors([root], ctrl=False).values():
        if t.op in ('log', 'log1p', 'div', 'rsqrt', 'recip', 'atanh'):
            a = t.args[1] if t.op == 'div' else t.args[0]
            if not isinstance(a, Term) or noise_only(a, memo) is not True:
                continue
            n += 1
            i = iv.of(a)
            if t.op == 'log1p':
                bad = i.lo <= -1 and not (i.lo == -1 and i.lo_o)
            elif t.op == 'log':
                bad = interval.may_nonpos(i)
            else:
                bad = interval.has_zero(i)
            if i.lo == -interval.INF and i.hi == interval.INF:
                rep.und(rule, tag, 'range of the argument of %s unknown' %
                        t.op, t.site)
            else:
                rep.decide(not bad, rule, tag, 'random noise can make the '
                           'argument of %s equal to a pole: range %s' %
                           (t.op, i), t.site)
    if n == 0:
        rep.ok(rule + ':no-pole', tag)
