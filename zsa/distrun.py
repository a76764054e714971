"""Abstract construction of distribution objects over shape classes."""
from . import nf
from .terms import *
from .lib import *
from . import distspec as ds
from .distspec import K, R

A_, B_, S_, N_ = Dim('A'), Dim('B'), Dim('S'), Dim('N')
Q_ = Seg('Q')
ALL = (A_, B_, S_, K, R, Dim('G'), Dim('N'))


class Cfg(object):
    """A shape class: batch axes of the parameters and of the given value."""

    def __init__(self, name, outer, given, known=ALL, uniform=False,
                 used=False, opts=()):
        self.name, self.outer, self.given, self.known = name, outer, given, \
            known
        self.uniform = uniform
        self.used = used        # see warm_up()
        self.opts = dict(opts)  # options that the obligation leaves alone


CFGS = [
    Cfg('same', [(B_,), (B_,), (B_,)], (B_,)),
    Cfg('scalar', [(), (), ()], ()),
    Cfg('bcast-param', [(B_,), (), (B_,)], (S_, B_)),
    Cfg('bcast-both', [(A_, 1), (B_,), (A_, B_)], (S_, A_, B_)),
    Cfg('bcast-given', [(A_, B_), (B_,), (A_, B_)], (B_,)),
    Cfg('sampled', [(A_, B_), (A_, B_), (A_, B_)], (S_, A_, B_)),
    Cfg('unit', [(1, B_), (B_,), (1, B_)], (A_, B_)),
    Cfg('dyn', [(A_, B_), (A_, B_), (A_, B_)], (A_, B_), known=()),
    Cfg('dyn-sampled', [(A_, B_), (B_,), (A_, B_)], (S_, A_, B_), known=()),
    Cfg('dyn-batch', [(B_,), (B_,), (B_,)], (S_, B_), known=(K, R, S_)),
    Cfg('dyn-value', [(B_,), (B_,), (B_,)], (S_, B_), known=(B_, S_)),
    Cfg('cross', [(1, B_), (B_, 1), (1, B_)], (B_, 1)),
    Cfg('used', [(B_,), (B_,), (B_,)], (S_, B_), used=True),
    Cfg('used-dyn', [(A_, B_), (B_,), (A_, B_)], (A_, B_), known=(),
        used=True),
    Cfg('deep', [(A_, B_, 3, A_), (3, A_), (A_, B_, 3, A_)],
        (A_, B_, 3, A_)),
    Cfg('deeper', [(B_, 3, A_), (A_, B_, 3, A_), (B_, 1, 1)],
        (S_, A_, B_, 3, A_)),
    Cfg('norank', [(Q_,), (Q_,), (Q_,)], (Q_,), known=(K, R)),
    Cfg('norank-sampled', [(Q_,), (Q_,), (Q_,)], (S_, Q_), known=()),
    Cfg('path', [(A_, B_), (B_,), (A_, B_)], (S_, A_, B_),
        opts=[('use_path_derivative', True)]),
    Cfg('checked', [(A_, B_), (B_,), (A_, B_)], (S_, A_, B_),
        opts=[('check_numerics', True), ('is_reparameterized', False)]),
    Cfg('options', [(B_,), (B_,), (B_,)], (B_,),
        opts=[('use_path_derivative', True), ('check_numerics', True),
              ('is_reparameterized', False)]),
]


def takes(d, option):
    """Whether the constructor of `d` documents the option."""
    return {'use_path_derivative': d.path, 'is_reparameterized': d.reparam,
            'check_numerics': d.check_numerics}[option]


class Built(object):
    pass


def build(rep, d, variant, cfg, dtype=F32, odtype=None, opts=None,
          cls=None, drop=()):
    """Construct distribution `d` abstractly.  May raise PyRaise."""
    vname, pnames, extra = variant
    S = Scenario(rep, known=cfg.known)
    b = Built()
    b.S, b.d, b.cfg, b.I = S, d, cfg, S.I
    b.variant = vname
    if cls is None:
        cls = S.get('zhusuan.distributions', d.name)
    kw = {}
    b.shapes = {}
    b.params = {}
    outs = []
    uni = d.name in ('MultivariateNormalCholesky',
                     'MatrixVariateNormalCholesky')
    j = 0
    for p in pnames:
        spec = d.params.get(p, d.params.get('std', 0))
        if spec == 's':
            sh = ()
        else:
            o = cfg.outer[0] if uni else cfg.outer[j]
            j += 1
            sh = tuple(o) + ds.inner_shape(d, p if p in d.params else 'std')
            outs.append(tuple(o))
        b.shapes[p] = sh
        b.params[p] = S.sym(p, sh, dtype)
        if p not in drop:
            kw[p] = b.params[p]
    b.outer = outs[0]
    for o in outs[1:]:
        b.outer = bcast(b.outer, o)
    b.ref = {}
    for k, v in extra.items():
        if v == 'pyint':
            kw[k] = S.pyint('N')
            b.ref[k] = nf.A(('dim', 'N'))
        elif v == 'tensor':
            kw[k] = S.sym('nexp', (), I32)
            b.ref[k] = nf.A(('sym', 'nexp', ()))
        else:
            kw[k] = v
            b.ref[k] = v
    b.ref['solve_attrs'] = (True, False)
    if odtype is not None:
        kw['dtype'] = S.I.tf.dtype_value(odtype) \
            if hasattr(S.I.tf, 'dtype_value') else odtype
    opts = dict(opts or {})
    for k, o in cfg.opts.items():
        if takes(d, k):
            opts.setdefault(k, o)
    for k, o in opts.items():
        kw[k] = o(S) if callable(o) and getattr(o, 'lazy', False) else o
    b.kw = kw
    b.vshape = ds.value_shape(d)
    b.vd = ds.vdims_of(d)
    b.vd.setdefault('logstd', 0)
    b.obj = S.I.call(cls, [], kw)
    b.dtype = dtype
    b.odtype = odtype or (kw.get('dtype') or I32 if d.discrete else dtype)
    b.before = []
    if cfg.used:
        warm_up(b, cls, kw)
    return b


def warm_up(b, cls, kw):
    """A history: another distribution of the class and this very object have
    already been used for sampling and for densities of other values."""
    S = b.S
    other = dict(kw)
    for p, t in b.params.items():
        if p in other:
            other[p] = S.sym('w_' + p, t.shape, t.dtype)
    draws = not (b.d.name == 'UnnormalizedMultinomial' or
                 (b.d.name == 'Multinomial' and b.variant == 'none'))
    for i, o in enumerate((S.I.call(cls, [], other), b.obj)):
        if draws:
            for n in (None, S.pyint('W'), S.sym('w_m', (), I32)):
                b.before.append(S.m(o, 'sample', n))
        for sh in (tuple(b.outer), (S_,) + tuple(b.outer)):
            x = S.sym('w_x%d' % i, sh + tuple(b.vshape), b.odtype)
            b.before += [S.m(o, 'log_prob', x), S.m(o, 'prob', x)]


def given_of(b, name='x', outer=None, dtype=None):
    outer = b.cfg.given if outer is None else outer
    sh = tuple(outer) + b.vshape
    b.shapes['x'] = sh
    b.vd['x'] = len(b.vshape)
    b.gouter = tuple(outer)
    b.given = b.S.sym('x', sh, dtype or b.odtype)
    return b.given


def ref_logp(b, idx=None):
    """Reference log-density at free index tokens (before grouping)."""
    full = bcast(b.outer, b.gouter)
    if full is None:
        raise Undecidable('broadcast of unknown-rank shapes')
    idx = b.S.nftok(full) if idx is None else idx
    c = ds.Ctx(full, idx, b.shapes, b.vd)
    x = lambda *inner: c('x', *inner)
    return full, idx, ds.logp_of(b.d, b.variant)(c, x, b.ref)
