"""From value-graph terms to the algebraic normal form, in index notation.

ev(t, idx): the normal form of element `idx` of tensor term `t`.
evb(t, idx): the same for boolean terms.
"""
from fractions import Fraction as F
from . import nf
from .nf import (num, lift, ZERO, ONE, Undecidable, A, band, bor, bnot, BT,
                 BF)
from .terms import (Term, Dim, Seg, Prod, DExpr, align, reindex, dim_of_nf,
                    shape_nf)

UNARY = {
    'neg': lambda a: -a,
    'exp': nf.exp,
    'log': nf.log,
    'log1p': lambda a: nf.log(1 + a),
    'expm1': lambda a: nf.exp(a) - 1,
    'sqrt': lambda a: nf.power(a, F(1, 2)),
    'rsqrt': lambda a: nf.power(a, F(-1, 2)),
    'square': lambda a: a * a,
    'recip': lambda a: 1 / a,
    'sigmoid': lambda a: nf.exp(a) / (1 + nf.exp(a)),
    'softplus': lambda a: nf.log(1 + nf.exp(a)),
    'logsigmoid': lambda a: a - nf.log(1 + nf.exp(a)),
    'tanh': lambda a: (nf.exp(2 * a) - 1) / (nf.exp(2 * a) + 1),
    'relu': lambda a: nf.fmax(a, ZERO),
    'abs': nf.fabs,
    'sign': nf.sign,
    'lgamma': lambda a: nf.fn('lgamma', a),
    'digamma': lambda a: nf.fn('digamma', a),
    'floor': lambda a: nf.fn('floor', a),
    'ceil': lambda a: nf.fn('ceil', a),
    'round': lambda a: nf.fn('round', a),
    'sin': lambda a: nf.fn('sin', a),
    'cos': lambda a: nf.fn('cos', a),
    'atan': lambda a: nf.fn('atan', a),
    'tan': lambda a: nf.fn('tan', a),
    'erf': lambda a: nf.fn('erf', a),
    'erfc': lambda a: nf.fn('erfc', a),
    'ndtri': lambda a: nf.fn('ndtri', a),
}
BINARY = {
    'add': lambda a, b: a + b,
    'sub': lambda a, b: a - b,
    'mul': lambda a, b: a * b,
    'div': lambda a, b: a / b,
    'pow': nf.powr,
    'max': nf.fmax,
    'min': nf.fmin,
    'sqdiff': lambda a, b: (a - b) * (a - b),
    'mod': lambda a, b: nf.fn('mod', a, b),
    'truncatemod': lambda a, b: nf.fn('truncatemod', a, b),
    'truncatediv': lambda a, b: nf.fn('truncatediv', a, b),
    'floordiv': lambda a, b: nf.fn('floordiv', a, b),
    'xlogy': lambda a, b: a * nf.log(b),
    'xlog1py': lambda a, b: a * nf.log(1 + b),
    'xdivy': lambda a, b: a / b,
}
COMPARE = {
    'lt': lambda a, b: nf.blt(a, b),
    'le': lambda a, b: nf.ble(a, b),
    'gt': lambda a, b: nf.blt(b, a),
    'ge': lambda a, b: nf.ble(b, a),
    'eq': lambda a, b: nf.beq(a, b),
    'ne': lambda a, b: bnot(nf.beq(a, b)),
}
PASS = ('id', 'chk', 'convert', 'preventgrad')
ELEMENTWISE = set(UNARY) | set(BINARY) | set(COMPARE) | set(PASS) | {
    'and', 'or', 'xor', 'not', 'isfin', 'isnan', 'isinf', 'cast', 'sg',
    'sel', 'gamma'}


def is_bool(t):
    return (t.dtype is not None and t.dtype.kind == 'b') or \
        t.pytype == 'bool'


class Evaluator(object):
    """`var_value`: optional hook giving the value read from a variable."""

    def __init__(self, var_value=None):
        self.memo = {}
        self.memob = {}
        self.var_value = var_value
        self.reader = None
        self.cut = {}

    def view(self, cut):
        """The same evaluator with some terms replaced: `cut` maps a term
        id to a symbol name or to a number."""
        e = Evaluator(self.var_value)
        e.reader = self.reader
        e.cut = dict(cut)
        return e

    # -- helpers
    def scalar(self, t):
        if not isinstance(t, Term):
            return num(t)
        if t.shape not in ((), None) and any(d != 1 for d in t.shape):
            raise Undecidable('scalar expected: %r %s' % (t, t.shape))
        return self.ev(t, (0,) * len(t.shape or ()))

    def whole(self, t):
        """Canonical lambda form of a whole tensor."""
        if not isinstance(t, Term):
            return ('py', repr(t))
        if t.shape is None:
            raise Undecidable('unknown shape of %r' % t)
        vs = tuple(('v', j) for j in range(len(t.shape)))
        if is_bool(t):
            return ('blam', vs, self.evb(t, vs))
        return ('lam', vs, self.ev(t, vs).key)

    # -- numeric
    def ev(self, t, idx=()):
        if not isinstance(t, Term):
            return num(t)
        idx = tuple(idx)
        key = (t.sid, idx)
        r = self.memo.get(key)
        if r is None:
            try:
                r = self._ev(t, idx)
            except nf.Undecidable:
                raise
            self.memo[key] = r
        return r

    def _args(self, t, idx):
        return [self.ev(a, align(t.shape, idx, a.shape)) for a in t.args]

    def _ev(self, t, idx):
        op = t.op
        if t.shape is not None and len(idx) != len(t.shape):
            raise Undecidable('index rank %s vs shape %s of %r' %
                              (idx, t.shape, t))
        if t.sid in self.cut:
            c = self.cut[t.sid]
            if isinstance(c, str):
                return A(('sym', c, self._drop1(t.shape, idx)))
            return c if isinstance(c, nf.P) else num(c)
        if is_bool(t) and op not in ('const',):
            return nf.ind(self.evb(t, idx))
        if op == 'const':
            return num(t.attrs[0])
        if op == 'sym':
            return A(('sym', t.attrs[0], self._drop1(t.shape, idx)))
        if op == 'var':
            if self.var_value is not None:
                v = self.var_value(t)
                if v is not None:
                    return self.ev(v, idx)
            return A(('sym', t.attrs[0], self._drop1(t.shape, idx)))
        if op == 'lvar':
            return A(('sym', t.attrs, self._drop1(t.shape, idx)))
        if op == 'pi':
            return A(('sym', 'pi', ()))
        if op == 'cst':
            return A(('sym', t.attrs[0], ()))
        if op == 'dim':
            return nf.dim_nf(t.attrs[0])
        if op == 'unk':
            return A(('sym', '?unk%d:%s' % (t.sid, t.attrs[0]), idx))
        if op in PASS:
            return self.ev(t.args[0], align(t.shape, idx, t.args[0].shape))
        if op == 'cast':
            a = t.args[0]
            ai = align(t.shape, idx, a.shape)
            if is_bool(a):
                return nf.ind(self.evb(a, ai))
            return self.ev(a, ai)
        if op == 'sg':
            return nf.sg(self.ev(t.args[0], idx))
        if op in UNARY:
            return UNARY[op](self.ev(t.args[0],
                                     align(t.shape, idx, t.args[0].shape)))
        if op in BINARY:
            a, b = self._args(t, idx)
            return BINARY[op](a, b)
        if op in ('sel', 'gamma'):
            c, a, b = t.args
            cb = self.evb(c, align(t.shape, idx, c.shape))
            return nf.sel(cb, self.ev(a, align(t.shape, idx, a.shape)),
                          self.ev(b, align(t.shape, idx, b.shape)))
        if op in ('rsum', 'rmean', 'rmax', 'rmin', 'rprod', 'rlse', 'rstd',
                  'rvar'):
            return self._reduce(t, idx)
        if op == 'cumsum':
            raise Undecidable('cumsum')
        if op == 'reshape':
            return self.ev(t.args[0], reindex(t.args[0].shape, t.shape, idx))
        if op == 'transpose':
            perm = t.attrs
            src = [None] * len(perm)
            for j, p in enumerate(perm):
                src[p] = idx[j]
            return self.ev(t.args[0], tuple(src))
        if op == 'expand':
            p = t.attrs[0]
            return self.ev(t.args[0], idx[:p] + idx[p + 1:])
        if op == 'squeeze':
            out = list(idx)
            for p in sorted(t.attrs):
                out.insert(p, 0)
            return self.ev(t.args[0], tuple(out))
        if op in ('tile', 'bto'):
            a = t.args[0]
            off = len(t.shape) - len(a.shape)
            src = []
            for j, d in enumerate(a.shape):
                o = t.shape[off + j]
                if d == 1:
                    src.append(0)
                elif d == o:
                    src.append(idx[off + j])
                else:
                    raise Undecidable('tile of a non-unit axis')
            return self.ev(a, tuple(src))
        if op == 'ivec':
            i = idx[0]
            if not isinstance(i, int):
                raise Undecidable('symbolic index into shape vector')
            el = t.attrs[i]
            if isinstance(el, bool):
                return num(int(el))
            if isinstance(el, (Seg, tuple)):
                raise Undecidable('segment element')
            return nf.dim_nf(el)
        if op == 'fill':
            return self.scalar(t.args[0])
        if op == 'pack':
            ax = t.attrs[0]
            i = idx[ax]
            rest = idx[:ax] + idx[ax + 1:]
            if isinstance(i, int):
                a = t.args[i]
                return self.ev(a, align(t.shape[:ax] + t.shape[ax + 1:],
                                        rest, a.shape))
            # symbolic position along a packed axis: sum of deltas
            out = ZERO
            for j, a in enumerate(t.args):
                out = out + nf.delta(i, j) * self.ev(a, rest)
            return out
        if op == 'concat':
            return self._concat(t, idx)
        if op == 'slice':
            return self._slice(t, idx)
        if op == 'reverse':
            out = list(idx)
            for p in t.attrs:
                if isinstance(out[p], tuple) and out[p][:1] == ('rev',):
                    out[p] = out[p][1]
                elif isinstance(out[p], int) and \
                        isinstance(t.shape[p], int):
                    out[p] = t.shape[p] - 1 - out[p]
                elif out[p] == 0 and t.shape[p] == 1:
                    pass
                else:
                    out[p] = ('rev', out[p], t.shape[p])
            return self.ev(t.args[0], tuple(out))
        if op == 'onehot':
            ind_ = self.ev(t.args[0], idx[:-1])
            return nf.delta(idx[-1], nf.mk_ixp(ind_))
        if op == 'range':
            return self._tok(idx[0]) + self.scalar(t.args[0])
        if op == 'matmul':
            a, b = t.args
            ta, tb = t.attrs[0], t.attrs[1]
            sa = a.shape
            k = nf.fresh_idx()
            d = sa[-2] if ta else sa[-1]
            bi = idx[:-2]
            bs = t.shape[:-2]
            ia = align(bs, bi, sa[:-2])
            ib = align(bs, bi, b.shape[:-2])
            i, j = idx[-2], idx[-1]
            if isinstance(d, int) and d <= 6:
                r = nf.num(0)
                for k in range(d):
                    r = r + self.ev(a, ia + ((k, i) if ta else (i, k))) * \
                        self.ev(b, ib + ((j, k) if tb else (k, j)))
                return r
            pa = self.ev(a, ia + ((k, i) if ta else (i, k)))
            pb = self.ev(b, ib + ((j, k) if tb else (k, j)))
            return nf.sum_over(pa * pb, k, d)
        if op == 'diagpart':
            return self.ev(t.args[0], idx + idx[-1:])
        if op == 'diag':
            return nf.delta(idx[-1], idx[-2]) * self.ev(t.args[0], idx[:-1])
        if op == 'trisolve':
            m, r = t.args
            bs, bi = t.shape[:-2], idx[:-2]
            im = align(bs, bi, m.shape[:-2])
            ir = align(bs, bi, r.shape[:-2])
            p = self.ev(m, im + (('v', 0), ('v', 1)))
            q = self.ev(r, ir + (('v', 0), idx[-1]))
            return A(('app', 'trisolve:%s' % (t.attrs,),
                      (('lam', (('v', 0), ('v', 1)), p.key),
                       ('lam', (('v', 0),), q.key)), (idx[-2],)))
        if op == 'rnormal':
            sh, mean, std = t.args
            r = A(('rnd', ('normal', t.attrs[0]), self._drop1(t.shape, idx)))
            return r * self.ev(std, align(t.shape, idx, std.shape)) + \
                self.ev(mean, align(t.shape, idx, mean.shape))
        if op == 'runiform':
            sh, lo, hi = t.args
            r = A(('rnd', ('uniform', t.attrs[0]),
                   self._drop1(t.shape, idx)))
            lo_ = self.ev(lo, align(t.shape, idx, lo.shape))
            hi_ = self.ev(hi, align(t.shape, idx, hi.shape))
            return lo_ + r * (hi_ - lo_)
        if op == 'rother':
            return A(('rnd', t.attrs[:2], self._drop1(t.shape, idx)))
        if op in ('rgamma', 'rpoisson'):
            par = t.args[1]
            p = self.ev(par, align(t.shape, idx, par.shape))
            r = A(('app', op, (('uid', t.attrs[0]), ('lam', (), p.key)),
                   self._drop1(t.shape, idx)))
            if op == 'rgamma':
                beta = t.args[2]
                r = r / self.ev(beta, align(t.shape, idx, beta.shape))
            return r
        if op == 'rcat':
            lg = t.args[0]
            kd = lg.shape[-1]
            if isinstance(kd, int) and kd <= 6:
                vals = [self.ev(lg, (idx[0], j)) for j in range(kd)]
                lam = tuple(('lam', (), (v - vals[0]).key) for v in vals[1:])
            else:
                v = ('v', 0)
                p = self.ev(lg, (idx[0], v))
                p = nf.P({m: c for m, c in p.t.items()
                          if any(nf.depends_atom(a, v) for a, _ in m)})
                lam = (('lam', (v,), p.key),)
            return A(('app', 'rcat', (('uid', t.attrs[0]), lam), idx))
        if op == 'app':
            return A(('app', t.attrs[0],
                      tuple((nm, self.whole(a))
                            for nm, a in zip(t.attrs[1], t.args)),
                      self._drop1(t.shape, idx)))
        if op == 'grad':
            y, x = t.args
            return A(('app', 'grad', (self.whole(y), self.whole(x),
                                      t.attrs),
                      self._drop1(t.shape, idx)))
        if op == 'loopout':
            n = t.attrs[0]
            parts = tuple(self.whole(a) for a in t.args)
            return A(('app', 'loop', (parts, t.attrs),
                      self._drop1(t.shape, idx)))
        if op == 'assign':
            return self.ev(t.args[1], align(t.shape, idx, t.args[1].shape))
        if op == 'gather':
            return self.ev(t.args[0], t.attrs_idx(idx))
        if op == 'opaque':
            return A(('app', t.attrs[0],
                      tuple(self.whole(a) for a in t.args) +
                      (('attrs', repr(t.attrs[1:])),),
                      self._drop1(t.shape, idx)))
        raise Undecidable('no value semantics for op %s' % op)

    def _tok(self, i):
        if isinstance(i, int):
            return num(i)
        if isinstance(i, tuple) and i[:1] == ('ixp',):
            return nf.P_of_key(i[1])
        return A(('sym', 'index', (i,)))

    def _drop1(self, shape, idx):
        return tuple(i for d, i in zip(shape, idx) if d != 1)

    def _reduce(self, t, idx):
        a = t.args[0]
        axes, keep = t.attrs[0], t.attrs[1]
        if axes == 'last':
            raise Undecidable('reduction over symbolic trailing axes')
        src = []
        it = iter(idx)
        bound = []
        for j, d in enumerate(a.shape):
            if j in axes:
                if keep:
                    next(it)
                v = nf.fresh_idx()
                bound.append((v, d))
                src.append(v if d != 1 else 0)
            else:
                src.append(next(it))
        op = t.op
        if op in ('rlse',):
            x = nf.exp(self.ev(a, tuple(src)))
            for v, d in bound:
                x = nf.sum_over(x, v, d)
            return nf.log(x)
        p = self.ev(a, tuple(src))
        if op in ('rsum', 'rmean'):
            size = ONE
            for v, d in bound:
                p = nf.sum_over(p, v, d)
                size = size * nf.dim_nf(d)
            return p / size if op == 'rmean' else p
        if op in ('rstd', 'rvar'):
            size = ONE
            q = p * p
            for v, d in bound:
                p = nf.sum_over(p, v, d)
                q = nf.sum_over(q, v, d)
                size = size * nf.dim_nf(d)
            r = q / size - (p / size) * (p / size)
            return nf.power(r, F(1, 2)) if op == 'rstd' else r
        for v, d in bound:
            if d == 1:
                continue
            p = nf.reduce_op({'rmax': 'max', 'rmin': 'min',
                              'rprod': 'prod'}[op], p, v, d)
        return p

    def _concat(self, t, idx):
        ax = t.attrs[0]
        i = idx[ax]
        if isinstance(i, int):
            off = i
            for a in t.args:
                d = a.shape[ax]
                if not isinstance(d, int):
                    raise Undecidable('concat over symbolic axis')
                if off < d:
                    return self.ev(a, idx[:ax] + (off,) + idx[ax + 1:])
                off -= d
        raise Undecidable('concat at symbolic position')

    def _slice(self, t, idx):
        """attrs: per source axis ('full',) | ('int', i) | ('from', i, n)."""
        a = t.args[0]
        src = []
        it = list(idx)
        for sp, d in zip(t.attrs, a.shape):
            if sp[0] == 'new':
                it.pop(0)
                continue
            if sp[0] == 'full':
                src.append(it.pop(0))
            elif sp[0] == 'int':
                src.append(self._fixpos(sp[1], d))
            elif sp[0] == 'from':
                x = it.pop(0)
                base = self._fixpos(sp[1], d)
                if isinstance(x, int) and isinstance(base, int):
                    src.append(base + x)
                elif base == 0:
                    src.append(x)
                elif x == 0 and sp[2] == 1:
                    src.append(base)
                else:
                    src.append(nf.mk_ixp(self._tok(x) + self._tok(base)))
        return self.ev(a, tuple(src))

    def _fixpos(self, i, d):
        if isinstance(i, Term):
            return nf.mk_ixp(self.scalar(i))
        if isinstance(i, int) and i < 0:
            if isinstance(d, int):
                return i + d
            return nf.mk_ixp(nf.dim_nf(d) + i)
        return i

    # -- boolean
    def evb(self, t, idx=()):
        if isinstance(t, bool):
            return BT if t else BF
        if not isinstance(t, Term):
            raise Undecidable('boolean of %r' % (t,))
        idx = tuple(idx)
        key = (t.sid, idx)
        r = self.memob.get(key)
        if r is None:
            r = self._evb(t, idx)
            self.memob[key] = r
        return r

    def _evb(self, t, idx):
        op = t.op
        al = lambda a: align(t.shape, idx, a.shape)
        if op == 'const':
            return BT if t.attrs[0] else BF
        if op in ('sym', 'var', 'lvar'):
            return ('bsym', t.attrs[0], self._drop1(t.shape, idx))
        if op == 'unk':
            return ('bsym', '?unk%d' % t.sid, ())
        if op == 'pycond':
            return ('bsym', t.attrs, ())
        if op in COMPARE:
            a, b = t.args
            if is_bool(a) and is_bool(b):
                x, y = self.evb(a, al(a)), self.evb(b, al(b))
                eq = bor([band([x, y]), band([bnot(x), bnot(y)])])
                return eq if op == 'eq' else bnot(eq)
            return COMPARE[op](self.ev(a, al(a)), self.ev(b, al(b)))
        if op == 'and':
            return band([self.evb(a, al(a)) for a in t.args])
        if op == 'or':
            return bor([self.evb(a, al(a)) for a in t.args])
        if op == 'not':
            return bnot(self.evb(t.args[0], al(t.args[0])))
        if op == 'xor':
            x, y = [self.evb(a, al(a)) for a in t.args]
            return bor([band([x, bnot(y)]), band([bnot(x), y])])
        if op == 'isfin':
            return ('fin', self.ev(t.args[0], al(t.args[0])).key)
        if op in ('isnan', 'isinf'):
            return ('bsym', (op, self.ev(t.args[0],
                                         al(t.args[0])).key), ())
        if op in PASS or op == 'sg':
            return self.evb(t.args[0], al(t.args[0]))
        if op == 'cast':
            a = t.args[0]
            if is_bool(a):
                return self.evb(a, al(a))
            return bnot(nf.beq(self.ev(a, al(a)), ZERO))
        if op in ('sel', 'gamma'):
            c, a, b = t.args
            cb = self.evb(c, al(c))
            x, y = self.evb(a, al(a)), self.evb(b, al(b))
            return bor([band([cb, x]), band([bnot(cb), y])])
        if op in ('rall', 'rany'):
            return ('bsym', (op, self.whole(t.args[0]), t.attrs), idx)
        if op == 'expand':
            p = t.attrs[0]
            return self.evb(t.args[0], idx[:p] + idx[p + 1:])
        if op == 'reshape':
            return self.evb(t.args[0],
                            reindex(t.args[0].shape, t.shape, idx))
        if op == 'squeeze':
            out = list(idx)
            for p in sorted(t.attrs):
                out.insert(p, 0)
            return self.evb(t.args[0], tuple(out))
        if op in ('tile', 'bto'):
            a = t.args[0]
            off = len(t.shape) - len(a.shape)
            src = []
            for j, d in enumerate(a.shape):
                o = t.shape[off + j]
                if d == 1:
                    src.append(0)
                elif d == o:
                    src.append(idx[off + j])
                else:
                    raise Undecidable('tile of a non-unit axis')
            return self.evb(a, tuple(src))
        if op == 'fill':
            return self.evb(t.args[0], ())
        if op == 'ivec':
            return BT if t.attrs[idx[0]] else BF
        if op == 'app':
            return ('bsym', ('app', t.attrs[0],
                             tuple((nm, self.whole(a)) for nm, a in
                                   zip(t.attrs[1], t.args))), idx)
        if op == 'loopout':
            return ('bsym', ('loop', tuple(self.whole(a) for a in t.args),
                             t.attrs), idx)
        if op == 'opaque':
            return ('bsym', ('opaque', t.attrs, tuple(
                self.whole(a) for a in t.args)), idx)
        raise Undecidable('no boolean semantics for op %s' % op)
