"""Reference semantics of the probability distributions.

For every distribution: its parameters, the textbook (log-)density in index
notation, the reference sampling law and its public options.  The references
come from the definition of the distributions, not from the code.
"""
from . import nf
from .nf import num, exp, log, fn, sum_over, fresh_idx, A, ZERO, ONE
from .terms import Dim, F16, F32, F64, I16, I32, I64, bcast, align

K = Dim('K')
R = Dim('R')
PI = A(('sym', 'pi', ()))


def lgamma(p):
    return fn('lgamma', p)


def softplus(p):
    return log(1 + exp(p))


class Ctx(object):
    """Index-notation access to parameters and the given value."""

    def __init__(self, full, idx, shapes, vdims, extra=None):
        self.full, self.idx, self.shapes, self.vdims = full, idx, shapes, \
            vdims
        self.extra = extra or {}

    def __call__(self, name, *inner):
        sh = self.shapes[name]
        n = self.vdims.get(name, 0)
        outer = sh[:len(sh) - n] if n else sh
        ix = align(self.full, self.idx, outer)
        ix = tuple(i for i, d in zip(ix, outer) if d != 1)
        inn = tuple(i for i, d in zip(inner, sh[len(sh) - n:] if n else ())
                    if d != 1)
        return A(('sym', name, ix + inn))

    def S(self, f, d):
        v = fresh_idx()
        if d == 1:
            return f(0)
        return sum_over(f(v), v, d)


class Dist(object):
    def __init__(self, name, params, logp, vdims=None, value_ndims=0,
                 discrete=False, path=False, reparam=False, variants=None,
                 aliases=(), module='univariate', check_numerics=True,
                 sample=None, nreparam_params=None):
        self.name = name
        self.params = params        # {name: vdim} differentiable parameters
        self.logp = logp
        self.value_ndims = value_ndims
        self.discrete = discrete
        self.path = path
        self.reparam = reparam
        self.variants = variants or [('', list(params), {})]
        self.aliases = aliases
        self.check_numerics = check_numerics
        self.sample = sample


def _normal(std):
    def f(c, x, o):
        if std == 'std':
            ls = log(c('std'))
        else:
            ls = c('logstd')
        d = x() - c('mean')
        return -log(2 * PI) / 2 - ls - d * d * exp(-2 * ls) / 2
    return f


def _foldnormal(std):
    def f(c, x, o):
        ls = log(c('std')) if std == 'std' else c('logstd')
        m = c('mean')
        pr = exp(-2 * ls)
        a = exp(-(x() - m) * (x() - m) * pr / 2)
        b = exp(-(x() + m) * (x() + m) * pr / 2)
        return -log(2 * PI) / 2 - ls + log(a + b) + \
            nf.lind(nf.ble(ZERO, x()))
    return f


def _bernoulli(c, x, o):
    l = c('logits')
    return x() * (-softplus(-l)) + (1 - x()) * (-softplus(l))


def _lse(c, name):
    return log(c.S(lambda k: exp(c(name, k)), o_dim(c, name)))


def o_dim(c, name):
    return c.shapes[name][-1]


def _categorical(c, x, o):
    k = nf.mk_ixp(x())
    return c('logits', k) - _lse(c, 'logits')


def _uniform(c, x, o):
    lo, hi = c('minval'), c('maxval')
    return -log(hi - lo) + nf.lind(nf.band([nf.ble(lo, x()),
                                            nf.blt(x(), hi)]))


def _gamma(c, x, o):
    a, b = c('alpha'), c('beta')
    return a * log(b) - lgamma(a) + (a - 1) * log(x()) - b * x()


def _beta(c, x, o):
    a, b = c('alpha'), c('beta')
    return (a - 1) * log(x()) + (b - 1) * log(1 - x()) - lgamma(a) - \
        lgamma(b) + lgamma(a + b)


def _poisson(c, x, o):
    return x() * log(c('rate')) - c('rate') - lgamma(x() + 1)


def _binomial(c, x, o):
    n, l = o['n_experiments'], c('logits')
    return lgamma(n + 1) - lgamma(x() + 1) - lgamma(n - x() + 1) + \
        x() * (-softplus(-l)) + (n - x()) * (-softplus(l))


def _invgamma(c, x, o):
    a, b = c('alpha'), c('beta')
    return a * log(b) - lgamma(a) - (a + 1) * log(x()) - b / x()


def _laplace(c, x, o):
    return -log(2 * c('scale')) - nf.fabs(x() - c('loc')) / c('scale')


def _binconcrete(c, x, o):
    t, l = c('temperature'), c('logits')
    # Maddison et al. (2017), with alpha = exp(logits)
    return log(t) + l + (-t - 1) * log(x()) + (-t - 1) * log(1 - x()) - \
        2 * log(exp(l) * exp(-t * log(x())) + exp(-t * log(1 - x())))


def _mvn(c, x, o):
    d = o_dim(c, 'mean')
    dn = nf.dim_nf(d)
    ld = c.S(lambda k: log(c('cov_tril', k, k)), d)
    v0, v1 = ('v', 0), ('v', 1)

    def y(k):
        m = c('cov_tril', v0, v1)
        r = x(v0) - c('mean', v0)
        return A(('app', 'trisolve:%s' % (o['solve_attrs'],),
                  (('lam', (v0, v1), m.key), ('lam', (v0,), r.key)), (k,)))
    return -dn / 2 * log(2 * PI) - ld - c.S(lambda k: y(k) * y(k), d) / 2


def _matnormal(c, x, o):
    n, p = c.shapes['mean'][-2], c.shapes['mean'][-1]
    nn, pn = nf.dim_nf(n), nf.dim_nf(p)
    v0, v1 = ('v', 0), ('v', 1)
    ldu = c.S(lambda k: log(c('u_tril', k, k)), n)
    ldv = c.S(lambda k: log(c('v_tril', k, k)), p)

    def solve(m, r, k):
        return A(('app', 'trisolve:%s' % (o['solve_attrs'],),
                  (('lam', (v0, v1), m.key), ('lam', (v0,), r.key)), (k,)))

    def z1(i, j):        # U^-1 (X - M)
        return solve(c('u_tril', v0, v1), x(v0, j) - c('mean', v0, j), i)

    def z2(i, j):        # V^-1 (U^-1 (X - M))^T   [j, i]
        return solve(c('v_tril', v0, v1), z1(i, v0), j)
    return -nn * pn / 2 * log(2 * PI) - pn * ldu - nn * ldv - \
        c.S(lambda i: c.S(lambda j: z2(i, j) * z2(i, j), p), n) / 2


def _norm_logits(c, o):
    if o.get('normalize_logits', True):
        lse = _lse(c, 'logits')
        return lambda k: c('logits', k) - lse
    return lambda k: c('logits', k)


def _multinomial(c, x, o):
    d = o_dim(c, 'logits')
    l = _norm_logits(c, o)
    n = o['n_experiments']
    if n is None:
        n = c.S(lambda k: x(k), d)
    return lgamma(n + 1) - c.S(lambda k: lgamma(x(k) + 1), d) + \
        c.S(lambda k: x(k) * l(k), d)


def _unnorm(c, x, o):
    l = _norm_logits(c, o)
    return c.S(lambda k: x(k) * l(k), o_dim(c, 'logits'))


def _onehot(c, x, o):
    # a one-hot vector: sum_k x_k = 1
    lse = _lse(c, 'logits')
    return c.S(lambda k: x(k) * (c('logits', k) - lse), o_dim(c, 'logits'))


def _dirichlet(c, x, o):
    d = o_dim(c, 'alpha')
    return c.S(lambda k: (c('alpha', k) - 1) * log(x(k)), d) - \
        c.S(lambda k: lgamma(c('alpha', k)), d) + \
        lgamma(c.S(lambda k: c('alpha', k), d))


def _expconcrete(c, x, o):
    d = o_dim(c, 'logits')
    n, t = nf.dim_nf(d), c('temperature')
    e = lambda k: c('logits', k) - t * x(k)
    return lgamma(n) + (n - 1) * log(t) + c.S(e, d) - \
        n * log(c.S(lambda k: exp(e(k)), d))


def _concrete(c, x, o):
    d = o_dim(c, 'logits')
    n, t = nf.dim_nf(d), c('temperature')
    e = lambda k: c('logits', k) - t * log(x(k))
    return lgamma(n) + (n - 1) * log(t) + \
        c.S(lambda k: e(k) - log(x(k)), d) - \
        n * log(c.S(lambda k: exp(e(k)), d))


INT_DTYPES = [I16, I32, I64]
FLOAT_DTYPES = [F16, F32, F64]

DISTS = [
    Dist('Normal', {'mean': 0, 'std': 0}, None, path=True, reparam=True,
         variants=[('std', ['mean', 'std'], {}),
                   ('logstd', ['mean', 'logstd'], {})]),
    Dist('FoldNormal', {'mean': 0, 'std': 0}, None, path=True, reparam=True,
         variants=[('std', ['mean', 'std'], {}),
                   ('logstd', ['mean', 'logstd'], {})]),
    Dist('Bernoulli', {'logits': 0}, _bernoulli, discrete=True,
         check_numerics=False),
    Dist('Categorical', {'logits': 1}, _categorical, discrete=True,
         aliases=('Discrete',), check_numerics=False),
    Dist('Uniform', {'minval': 0, 'maxval': 0}, _uniform, reparam=True),
    Dist('Gamma', {'alpha': 0, 'beta': 0}, _gamma),
    Dist('Beta', {'alpha': 0, 'beta': 0}, _beta),
    Dist('Poisson', {'rate': 0}, _poisson, discrete=True),
    Dist('Binomial', {'logits': 0}, _binomial, discrete=True,
         variants=[('int', ['logits'], {'n_experiments': 'pyint'}),
                   ('tensor', ['logits'], {'n_experiments': 'tensor'})]),
    Dist('InverseGamma', {'alpha': 0, 'beta': 0}, _invgamma),
    Dist('Laplace', {'loc': 0, 'scale': 0}, _laplace, path=True,
         reparam=True),
    Dist('BinConcrete', {'temperature': 's', 'logits': 0}, _binconcrete,
         path=True, reparam=True, aliases=('BinGumbelSoftmax',)),
    Dist('MultivariateNormalCholesky', {'mean': 1, 'cov_tril': 2}, _mvn,
         value_ndims=1, path=True, reparam=True),
    Dist('Multinomial', {'logits': 1}, _multinomial, value_ndims=1,
         discrete=True, check_numerics=False,
         variants=[('int', ['logits'], {'n_experiments': 'pyint'}),
                   ('tensor', ['logits'], {'n_experiments': 'tensor'}),
                   ('none', ['logits'], {'n_experiments': None}),
                   ('raw', ['logits'], {'n_experiments': 'pyint',
                                        'normalize_logits': False})]),
    Dist('UnnormalizedMultinomial', {'logits': 1}, _unnorm, value_ndims=1,
         discrete=True, aliases=('BagofCategoricals',), check_numerics=False,
         variants=[('', ['logits'], {}),
                   ('raw', ['logits'], {'normalize_logits': False})]),
    Dist('OnehotCategorical', {'logits': 1}, _onehot, value_ndims=1,
         discrete=True, aliases=('OnehotDiscrete',), check_numerics=False),
    Dist('Dirichlet', {'alpha': 1}, _dirichlet, value_ndims=1),
    Dist('ExpConcrete', {'temperature': 's', 'logits': 1}, _expconcrete,
         value_ndims=1, path=True, reparam=True,
         aliases=('ExpGumbelSoftmax',)),
    Dist('Concrete', {'temperature': 's', 'logits': 1}, _concrete,
         value_ndims=1, path=True, reparam=True, aliases=('GumbelSoftmax',)),
    Dist('MatrixVariateNormalCholesky',
         {'mean': 2, 'u_tril': 2, 'v_tril': 2}, _matnormal, value_ndims=2,
         path=True, reparam=True),
]
BY_NAME = {d.name: d for d in DISTS}
BY_NAME['Normal'].logp = {'std': _normal('std'), 'logstd': _normal('logstd')}
BY_NAME['FoldNormal'].logp = {'std': _foldnormal('std'),
                              'logstd': _foldnormal('logstd')}


def logp_of(d, variant):
    return d.logp[variant] if isinstance(d.logp, dict) else d.logp


def inner_shape(d, p):
    """Trailing (value) axes of parameter p."""
    vd = d.params.get(p, 0)
    if d.name == 'MultivariateNormalCholesky':
        return {'mean': (K,), 'cov_tril': (K, K)}[p]
    if d.name == 'MatrixVariateNormalCholesky':
        return {'mean': (R, K), 'u_tril': (R, R), 'v_tril': (K, K)}[p]
    if vd == 's':
        return ()
    return (K,) * vd


def value_shape(d):
    return {0: (), 1: (K,), 2: (R, K)}[d.value_ndims]


def vdims_of(d):
    return {p: (0 if v == 's' else v) for p, v in d.params.items()}
