"""Models of the external API (TensorFlow 1, NumPy, six, builtins).

Every modelled call maps abstract values to value-graph terms with inferred
shape and dtype.  Anything not modelled yields an unknown value.
"""
import inspect
from . import nf, numid
from .terms import (Term, Dim, Seg, Prod, DExpr, DType, DTYPES, F16, F32, F64,
                    I16, I32, I64, BOOL, mk_prod, dim_of_nf, bcast,
                    ShapeConflict, _factors)
from . import evalnf

PREFIX = [
    ('tensorflow.compat.v1', 'tf'), ('tensorflow', 'tf'), ('numpy', 'np'),
]
ALIAS = {
    'tf.random.normal': 'tf.random_normal',
    'tf.random.uniform': 'tf.random_uniform',
    'tf.random.gamma': 'tf.random_gamma',
    'tf.random.poisson': 'tf.random_poisson',
    'tf.multinomial': 'tf.random.categorical',
    'tf.random.multinomial': 'tf.random.categorical',
    'tf.negative': 'tf.neg', 'tf.multiply': 'tf.mul',
    'tf.subtract': 'tf.sub', 'tf.realdiv': 'tf.divide',
    'tf.truediv': 'tf.truediv', 'tf.div': 'tf.divide',
    'tf.div_no_nan': 'tf.divide',
    'tf.floormod': 'tf.mod', 'tf.floor_div': 'tf.floordiv',
    'tf.minimum': 'tf.min_', 'tf.maximum': 'tf.max_',
    'tf.reciprocal': 'tf.recip',
    'tf.is_finite': 'tf.isfin', 'tf.is_nan': 'tf.isnan_',
    'tf.is_inf': 'tf.isinf_',
    'tf.debugging.is_finite': 'tf.isfin',
    'tf.less': 'tf.lt', 'tf.less_equal': 'tf.le', 'tf.greater': 'tf.gt',
    'tf.greater_equal': 'tf.ge', 'tf.equal': 'tf.eq',
    'tf.not_equal': 'tf.ne',
    'tf.nn.sigmoid': 'tf.sigmoid', 'tf.nn.tanh': 'tf.tanh',
    'tf.nn.softplus': 'tf.softplus', 'tf.nn.relu': 'tf.relu',
    'tf.log_sigmoid': 'tf.logsigmoid', 'tf.nn.log_sigmoid': 'tf.logsigmoid',
    'tf.squared_difference': 'tf.sqdiff',
    'tf.select': 'tf.where', 'tf.where_v2': 'tf.where2',
    'tf.nn.softmax': 'tf.softmax', 'tf.nn.log_softmax': 'tf.log_softmax',
    'tf.reduce_logsumexp': 'tf.reduce_logsumexp',
    'tf.linalg.diag_part': 'tf.matrix_diag_part',
    'tf.linalg.tensor_diag_part': 'tf.diag_part',
    'tf.linalg.diag': 'tf.matrix_diag',
    'tf.linalg.set_diag': 'tf.matrix_set_diag',
    'tf.linalg.eye': 'tf.eye',
    'tf.linalg.matmul': 'tf.matmul',
    'tf.linalg.transpose': 'tf.matrix_transpose',
    'tf.linalg.matrix_transpose': 'tf.matrix_transpose',
    'tf.linalg.triangular_solve': 'tf.matrix_triangular_solve',
    'tf.debugging.check_numerics': 'tf.check_numerics',
    'tf.debugging.assert_equal': 'tf.assert_equal',
    'tf.debugging.assert_rank': 'tf.assert_rank',
    'tf.debugging.assert_rank_at_least': 'tf.assert_rank_at_least',
    'tf.debugging.assert_greater': 'tf.assert_greater',
    'tf.debugging.assert_greater_equal': 'tf.assert_greater_equal',
    'tf.debugging.assert_less': 'tf.assert_less',
    'tf.debugging.assert_positive': 'tf.assert_positive',
    'tf.debugging.assert_non_negative': 'tf.assert_non_negative',
    'tf.compat.dimension_value': 'tf.dimension_value',
    'tf.initializers.constant': 'tf.constant_initializer',
    'tf.zeros_initializer': 'tf.constant_initializer',
    'tf.get_static_value': 'tf.constant_value',
    'tf.dtypes.as_dtype': 'tf.as_dtype', 'tf.dtypes.cast': 'tf.cast',
    'tf.to_float': 'tf.to_float',
}
EW1 = ['neg', 'exp', 'log', 'log1p', 'expm1', 'sqrt', 'rsqrt', 'square',
       'recip', 'sigmoid', 'softplus', 'logsigmoid', 'tanh', 'relu', 'abs',
       'sign', 'lgamma', 'digamma', 'floor', 'ceil', 'round', 'sin', 'cos',
       'tan', 'atan', 'erf', 'erfc']
FLOAT_ONLY = {'exp', 'log', 'log1p', 'expm1', 'sqrt', 'rsqrt', 'sigmoid',
              'softplus', 'logsigmoid', 'tanh', 'lgamma', 'digamma',
              'recip', 'erf', 'erfc', 'sin', 'cos'}
EW2 = ['add', 'sub', 'mul', 'pow', 'sqdiff', 'mod', 'floordiv', 'xlogy',
       'xlog1py', 'xdivy', 'truncatemod', 'truncatediv']
CMP = ['lt', 'le', 'gt', 'ge', 'eq', 'ne']
PYTYPES = ('int', 'float', 'bool')
# attributes a NumPy array has and a tensor does not
ND_ONLY = {'mean', 'sum', 'max', 'min', 'std', 'var', 'prod', 'astype',
           'copy', 'view', 'T', 'squeeze', 'transpose', 'reshape', 'ravel',
           'flatten', 'item', 'tolist', 'size', 'any', 'all', 'cumsum',
           'clip', 'dot', 'argmax', 'argmin', 'repeat', 'fill', 'round',
           'sort', 'argsort', 'swapaxes', 'take', 'nonzero', 'conj', 'real',
           'flat', 'itemsize', 'nbytes', 'strides', 'cumprod', 'diagonal',
           'trace', 'ptp', 'searchsorted', 'tobytes', 'compress', 'put'}


NP2 = True      # NumPy 2: a Python float next to np.float32 stays float32


CONST_ATOMS = ('e', 'poly', 'log')


def constant(p):
    """The value of a form made of constants only, if clearly not zero."""
    if not all(k[0] in CONST_ATOMS for k in nf.atoms_in(p)):
        return None
    v = numid.Point(0).P(p, {})
    return v if isinstance(v, float) and abs(v) > 1e-9 else None


class NpF(float):
    """A NumPy floating scalar: a float that knows its precision."""
    def __new__(cls, v, dt=None):
        o = float.__new__(cls, v)
        o.dt = dt
        return o


class Model(object):
    def __init__(self, I):
        self.I = I
        self.g = I.g
        self.vars = []
        self.nvar = 0
        self.placeholders = []
        self.make_builtins()

    # ------------------------------------------------------------- naming
    def canon(self, path):
        for a, b in PREFIX:
            if path == a or path.startswith(a + '.'):
                path = b + path[len(a):]
                break
        if path.startswith('tf.compat.v1.'):
            path = 'tf.' + path[13:]
        if path.startswith('tf.math.'):
            path = 'tf.' + path[8:]
        if path == 'tf.compat.v1' or path == 'tf.math':
            return 'tf'
        if path.startswith('six.moves.'):
            return 'py.' + path[10:].replace('xrange', 'range')
        return ALIAS.get(path, path)

    # --------------------------------------------------------- term making
    def mk(self, op, args=(), attrs=(), shape=(), dtype=None, pytype=None):
        ctrl = ()
        if pytype is None and self.I.ctrl:
            ctrl = set()
            for c in self.I.ctrl:
                ctrl.update(c)
            if any(isinstance(a, Term) and a.op == 'var' for a in args):
                args = self.after_writes(op, args, ctrl)
        n0 = self.g.n
        t = self.g.mk(op, args, attrs, shape, dtype, pytype, ctrl,
                      self.I.site)
        # the branches under which the op exists
        tg = self.I.tguard
        if not self.I.guards:
            tg.pop(t.sid, None)
        else:
            gs = tuple((c, b) for c, b in self.I.guards
                       if isinstance(c, Term))
            if t.sid >= n0:
                tg[t.sid] = gs
            elif t.sid in tg:
                tg[t.sid] = tuple(x for x in tg[t.sid] if x in gs)
        return t

    def after_writes(self, op, args, ctrl):
        """A variable read that is ordered after an assignment to that
        variable observes the assigned value."""
        writes = [e[1] for e in self.I.effects if e[0] == 'assign']
        vs = {w.args[0].sid for w in writes}
        if not any(isinstance(a, Term) and a.sid in vs for a in args):
            return args
        key = frozenset(c.sid for c in ctrl)
        memo = self.__dict__.setdefault('_anc', {})
        anc = memo.get(key)
        if anc is None:
            anc, stack = set(), list(ctrl)
            while stack:
                x = stack.pop()
                if not isinstance(x, Term) or x.sid in anc:
                    continue
                anc.add(x.sid)
                stack.extend(x.args)
                stack.extend(x.ctrl)
            memo[key] = anc
        out = []
        for i, a in enumerate(args):
            if isinstance(a, Term) and a.op == 'var' and not (
                    op == 'assign' and i == 0):
                for w in reversed(writes):
                    if w.args[0].sid == a.sid and w.sid in anc:
                        a = w
                        break
            out.append(a)
        return tuple(out)

    def pyconst(self, v):
        pt = 'bool' if isinstance(v, bool) else (
            'int' if isinstance(v, int) else 'float')
        return self.g.mk('const', (), (v,), (), None, pt)

    def const(self, v, dtype, shape=()):
        return self.mk('const', (), (v,), shape, dtype)

    def pybool(self, b):
        return self.pyconst(bool(b))

    def unk_bool(self, why):
        return self.g.mk('unk', (), (why, self.g.fresh()), (), None, 'bool')

    def unk(self, why, shape=None, dtype=None):
        self.I.unknowns.append((why, self.I.site))
        return self.mk('unk', (), (why, self.g.fresh()), shape, dtype)

    def num_term(self, v):
        if isinstance(v, Term):
            return v
        if isinstance(v, (bool, int, float)):
            return self.pyconst(v)
        return None

    def is_py(self, t):
        return t.pytype is not None

    # --------------------------------------------------------- conversion
    def tensor(self, v, dtype=None):
        """tf.convert_to_tensor"""
        I = self.I
        from . import interp as ip
        if isinstance(v, ip.Choice):
            w = I.drop_missing(v)
            if w is not v:
                return self.tensor(w, dtype)
            return I.fork(v.cond, lambda: self.tensor(v.a, dtype),
                          lambda: self.tensor(v.b, dtype))
        if isinstance(v, ip.Unk):
            return self.mk('unk', (), (v.why, self.g.fresh()), None, dtype)
        if isinstance(v, ip.Obj):
            for cls, f in reversed(I.conversions):
                if cls in ip.mro_of(v.cls):
                    r = I.call(f, [v], {'dtype': dtype})
                    return self.tensor(r, dtype)
            I.throw('TypeError', 'cannot convert %r to tensor' % (v,))
        if isinstance(v, bool):
            if dtype is not None and dtype.kind != 'b':
                I.throw('TypeError', 'bool to ' + dtype.name)
            return self.const(v, BOOL)
        if isinstance(v, int):
            if dtype is not None and dtype.kind in 'bs':
                I.throw('TypeError', 'int to ' + dtype.name)
            return self.const(v, dtype or I32)
        if isinstance(v, float):
            if dtype is not None and dtype.kind not in 'fc':
                I.throw('TypeError', 'float to ' + dtype.name)
            return self.const(v, dtype or F32)
        if v is None:
            I.throw('ValueError', 'None values not supported.')
        if isinstance(v, str):
            return self.const(v, DTYPES['string'])
        if isinstance(v, Term):
            if v.pytype is not None:
                if v.pytype == 'np':
                    return self.retype(v, dtype or v.dtype)
                k = {'int': I32, 'float': F32, 'bool': BOOL}[v.pytype]
                if dtype is not None:
                    if v.pytype == 'float' and dtype.kind not in 'fc':
                        I.throw('TypeError', 'float to ' + dtype.name)
                    if v.pytype == 'bool' and dtype.kind != 'b':
                        I.throw('TypeError', 'bool to ' + dtype.name)
                    k = dtype
                return self.retype(v, k)
            if v.op in ('assertop', 'group', 'noop'):
                I.throw('TypeError', "can't convert Operation to Tensor")
            if dtype is not None and v.dtype is not None and \
                    v.dtype is not dtype:
                I.throw('ValueError', 'Tensor conversion requested dtype %s '
                        'for Tensor with dtype %s' % (dtype, v.dtype))
            return v
        if isinstance(v, ip.TShape):
            if v.dims is None or any(d is None for d in v.dims):
                I.throw('ValueError', 'Cannot convert a partially known '
                        'TensorShape to a Tensor')
            return self.ivec(v.dims, dtype or I32)
        if isinstance(v, ip.DimensionV):
            return self.tensor(self.dimval(v.d), dtype)
        if isinstance(v, ip.IterV):
            I.throw('TypeError', 'iterator to tensor')
        if isinstance(v, (ip.ListV, tuple)):
            items = list(v.items) if isinstance(v, ip.ListV) else list(v)
            if items and all(isinstance(x, (bool,)) for x in items):
                return self.ivec(items, BOOL)
            if all(self.int_like(x) for x in items) and (
                    dtype is None or dtype.kind in 'iu'):
                if not items and dtype is None:
                    return self.ivec([], F32)
                els = [self.dim_el(x) for x in items]
                if all(e is not None for e in els):
                    return self.ivec(els, dtype or I32)
            if not items:
                return self.mk('fill', (self.pyconst(0),), (), (0,),
                               dtype or F32)
            if dtype is None:
                for x in items:
                    if isinstance(x, Term) and x.pytype is None:
                        dtype = x.dtype
            parts = [self.tensor(x, dtype) for x in items]
            if dtype is None:
                dts = [p.dtype for p in parts]
                if any(d is F32 for d in dts) and any(d is I32
                                                      for d in dts):
                    parts = [self.tensor(x, F32) for x in items]
            return self.tf_stack(parts)
        if isinstance(v, ip.Ext):
            w = self.ext_value(v.path)
            if w is not None:
                return self.tensor(w, dtype)
        return self.unk('convert %r' % (v,), None, dtype)

    def retype(self, t, dtype):
        """A Python-scalar term turned into a tensor."""
        if t.op == 'const':
            return self.const(t.attrs[0], dtype)
        if t.op == 'dim':
            return self.mk('dim', (), t.attrs, (), dtype)
        return self.mk('convert', (t,), (), t.shape, dtype)

    def int_like(self, x):
        from . import interp as ip
        if isinstance(x, bool):
            return False
        if isinstance(x, int):
            return True
        if isinstance(x, ip.DimensionV):
            return x.d is not None
        if isinstance(x, Term):
            if x.pytype == 'int':
                return True
            return x.pytype is None and x.shape == () and \
                x.dtype is not None and x.dtype.kind in 'iu'
        return False

    def dim_el(self, x):
        """ivec element for an int-like value, or None."""
        from . import interp as ip
        if isinstance(x, int):
            return x
        if isinstance(x, ip.DimensionV):
            return x.d
        try:
            return dim_of_nf(self.I.E.scalar(x))
        except nf.Undecidable:
            return None

    def ivec(self, els, dtype=I32):
        els = tuple(els)
        if any(isinstance(e, Seg) or (isinstance(e, tuple)) for e in els):
            n = nf.num(0)
            for e in els:
                s = e[1] if isinstance(e, tuple) else e
                n = n + (nf.A(('dim', 'rank' + s.name))
                         if isinstance(s, Seg) else nf.ONE)
            sh = (dim_of_nf(n),)
        else:
            sh = (len(els),)
        return self.mk('ivec', (), els, sh, dtype)

    def as_ivec(self, v):
        """Elements of a shape-like argument, or None."""
        from . import interp as ip
        if isinstance(v, ip.TShape):
            if v.dims is None or any(d is None for d in v.dims):
                self.I.throw('ValueError', 'partially known TensorShape')
            return list(v.dims)
        if isinstance(v, ip.Choice):
            v = self.I.drop_missing(v)
        if isinstance(v, (ip.ListV, tuple)):
            items = v.items if isinstance(v, ip.ListV) else v
            out = []
            for x in items:
                e = self.dim_el(x) if self.int_like(x) else None
                if e is None:
                    return None
                out.append(e)
            return out
        if isinstance(v, int):
            return [v]
        if isinstance(v, Term):
            if v.op in ('id', 'chk', 'convert', 'cast') and v.args:
                return self.as_ivec(v.args[0])
            if v.op == 'ivec':
                return list(v.attrs)
            if v.op == 'const' and v.shape == ():
                return [v.attrs[0]]
            if v.op == 'pack' and v.shape and len(v.shape) == 1:
                out = []
                for a in v.args:
                    e = self.dim_el(a)
                    if e is None:
                        return None
                    out.append(e)
                return out
            if v.op == 'fill' and v.shape == (0,):
                return []
            if v.op == 'dim':
                return [v.attrs[0]]
            if v.op in ('reshape', 'expand') and v.shape == (1,) and \
                    v.args[0].shape == () and self.int_like(v.args[0]):
                e = self.dim_el(v.args[0])
                return None if e is None else [e]
            if v.op in ('reshape', 'squeeze') and v.shape == () and \
                    v.args[0].shape == (1,):
                return self.as_ivec(v.args[0])
            if v.op == 'concat' and len(v.shape or ()) == 1:
                out = []
                for a in v.args:
                    e = self.as_ivec(a) if a.shape != () else None
                    if e is None:
                        return None
                    out += e
                return out
        return None

    def as_int(self, v):
        """Concrete Python int of a value or None."""
        from . import interp as ip
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, ip.DimensionV):
            return v.d if isinstance(v.d, int) else None
        if isinstance(v, Term):
            try:
                n = nf.num_val(self.I.E.scalar(v))
            except nf.Undecidable:
                return None
            if n is not None and n.denominator == 1:
                return int(n)
        return None

    def dimval(self, d):
        """Python value of a (static) dimension."""
        if d is None or isinstance(d, int):
            return d
        return self.g.mk('dim', (), (d,), (), None, 'int')

    # ------------------------------------------------------- static shapes
    def sdim(self, d):
        if isinstance(d, int):
            return d
        if isinstance(d, Dim):
            return d if d in self.I.known else None
        if isinstance(d, Prod):
            if all(isinstance(f, int) or f in self.I.known for f in d.fs):
                return d
            return None
        if isinstance(d, DExpr):
            for a in nf.atoms_in(d.p):
                k = nf.akey(a) if isinstance(a, int) else a
                if k[0] == 'dim' and Dim(k[1]) in self.I.known:
                    continue
                return None
            return d
        return None

    def static(self, t):
        from . import interp as ip
        if t.shape is None or any(isinstance(d, Seg) for d in t.shape):
            return ip.TShape(None)
        return ip.TShape([self.sdim(d) for d in t.shape])

    # -------------------------------------------------------- elementwise
    def result_dtype(self, ts, op):
        dt = None
        for t in ts:
            if t.pytype is None and t.dtype is not None:
                if dt is None:
                    dt = t.dtype
                elif dt is not t.dtype:
                    self.I.throw('TypeError', 'op %s: dtype mismatch %s vs '
                                 '%s' % (op, dt, t.dtype))
        return dt

    def ew(self, op, *args):
        I = self.I
        from . import interp as ip
        for k, a in enumerate(args):
            if isinstance(a, ip.Unk):
                return a
        for i, a in enumerate(args):
            if isinstance(a, ip.Choice):
                w = I.drop_missing(a)
                rest = list(args)
                if w is not a:
                    rest[i] = w
                    return self.ew(op, *rest)

                def go(v, i=i, rest=rest):
                    r = list(rest)
                    r[i] = v
                    return self.ew(op, *r)
                return I.fork(a.cond, lambda: go(a.a), lambda: go(a.b))
        ts = []
        for a in args:
            if isinstance(a, (ip.Obj, ip.ListV, tuple, ip.TShape)):
                dt = None
                for b in args:
                    if isinstance(b, Term) and b.pytype is None:
                        dt = b.dtype
                a = self.tensor(a, dt if isinstance(a, (ip.ListV, tuple))
                                else None)
            t = self.num_term(a)
            if t is None and isinstance(a, ip.DimensionV):
                t = self.num_term(self.dimval(a.d)) \
                    if a.d is not None else None
            if t is None and isinstance(a, ip.Ext):
                w = self.ext_value(a.path)
                t = self.num_term(w) if w is not None else None
            if t is None:
                if a is None:
                    I.throw('TypeError', 'None operand of ' + op)
                return I.unk('operand %r of %s' % (a, op))
            if t.op in ('assertop', 'group'):
                return I.unk('op used as tensor')
            ts.append(t)
        if all(t.pytype is not None for t in ts):
            return self.py_ew(op, ts)
        dt = self.result_dtype(ts if op not in ('sel', 'gamma')
                               else ts[1:], op)
        conv = []
        for j, t in enumerate(ts):
            if t.pytype is not None:
                if op in ('sel', 'gamma') and j == 0:
                    conv.append(t)
                    continue
                if t.pytype == 'float' and dt is not None and \
                        dt.kind in 'iu':
                    I.throw('TypeError', 'float operand for int tensor')
                if t.pytype == 'np' and t.dtype is not None and \
                        dt is not None and t.dtype is not dt:
                    I.throw('TypeError', 'dtype mismatch')
                conv.append(t if t.pytype == 'np' else self.retype(t, dt))
            else:
                conv.append(t)
        ts = conv
        sh = ts[0].shape
        for t in ts[1:]:
            try:
                sh = bcast(sh, t.shape)
            except ShapeConflict as e:
                if self.static(ts[0]).dims is not None and \
                        self.static(t).dims is not None:
                    I.throw('ValueError', 'Dimensions must be equal: %s' % e)
                I.event('shape-conflict', '%s in %s' % (e, op))
                return self.unk('shape conflict', None, dt)
        rdt = dt
        if op in CMP or op in ('and', 'or', 'xor', 'not', 'isfin', 'isnan',
                               'isinf'):
            rdt = BOOL
            if op in ('and', 'or', 'xor', 'not') and dt is not None and \
                    dt.kind != 'b':
                I.throw('TypeError', 'logical op on ' + dt.name)
        if op in FLOAT_ONLY and dt is not None and dt.kind not in 'fc':
            I.throw('TypeError', '%s on %s' % (op, dt))
        if op == 'div' and dt is not None and dt.kind in 'iu':
            dt2 = F64 if dt.size >= 4 else F32
            ts = [self.cast(t, dt2) for t in ts]
            rdt = dt2
        f = self.fold(op, ts, sh, rdt)
        if f is not None:
            return f
        if op in ('sel', 'gamma') and ts[1] is ts[2]:
            if ts[1].shape == sh:
                return ts[1]
        return self.mk(op, ts, (), sh, rdt)

    def py_ew(self, op, ts):
        """Python-scalar arithmetic on symbolic scalars."""
        if op in CMP or op in ('and', 'or', 'xor', 'not', 'isfin', 'isnan',
                               'isinf'):
            pt = 'bool'
        elif op in FLOAT_ONLY or op in ('div', 'xlogy'):
            pt = 'float'
        elif op in ('sel', 'gamma'):
            ps = {t.pytype for t in ts[1:]}
            pt = ps.pop() if len(ps) == 1 else 'float'
        else:
            pt = 'int' if all(t.pytype in ('int', 'bool') for t in ts) \
                else 'float'
        sh = ()
        if any(t.pytype == 'np' for t in ts):
            pt = 'np'
            for t in ts:
                try:
                    sh = bcast(sh, t.shape)
                except ShapeConflict:
                    return self.unk('np shape')
        vals = [t.attrs[0] for t in ts if t.op == 'const']
        if len(vals) == len(ts) and pt in ('int', 'bool') or (
                len(vals) == len(ts) and op in ('neg', 'add', 'sub', 'mul')):
            r = _pyfold(op, vals)
            if r is not None:
                return self.pyconst(r)
        if op == 'not' and ts[0].op == 'not':
            return ts[0].args[0]
        if op in ('sel', 'gamma') and ts[1] is ts[2]:
            return ts[1]
        if op in CMP:
            d = self.decide_cmp(op, ts[0], ts[1])
            if d is not None:
                return self.pybool(d)
        return self.g.mk(op, ts, (), sh, None, pt)

    def decide_cmp(self, op, a, b):
        """Decide a comparison of Python ints/floats built from dims."""
        try:
            d = self.I.E.scalar(a) - self.I.E.scalar(b)
        except nf.Undecidable:
            return None
        v = nf.num_val(d)
        if v is None:
            v = constant(d)
        if v is None:
            lo = hi = 0
            for m, c in d.t.items():
                if m == ():
                    if lo is not None:
                        lo += c
                    if hi is not None:
                        hi += c
                    continue
                isdim = all(nf.akey(x)[0] == 'dim' and e > 0 and
                            e.denominator == 1 for x, e in m)
                if not isdim:
                    return None
                lb = 1
                for x, e in m:
                    lb *= (self.I.dim_lb.get(nf.akey(x)[1], 1)) ** int(e)
                if c > 0:
                    if lo is not None:
                        lo += c * lb
                    hi = None
                else:
                    lo = None
                    if hi is not None:
                        hi += c * lb
            if lo is not None and lo > 0:
                return {'lt': False, 'le': False, 'gt': True, 'ge': True,
                        'eq': False, 'ne': True}[op]
            if lo is not None and lo == 0 and op in ('ge', 'lt'):
                return op == 'ge'
            if hi is not None and hi < 0:
                return {'lt': True, 'le': True, 'gt': False, 'ge': False,
                        'eq': False, 'ne': True}[op]
            if hi is not None and hi == 0 and op in ('le', 'gt'):
                return op == 'le'
            return None
        return {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0,
                'eq': v == 0, 'ne': v != 0}[op]

    def fold(self, op, ts, sh, dt):
        """Constant folding of scalar consts and integer vectors."""
        if all(t.op == 'const' for t in ts) and sh == () and \
                not self.I.ctrl:
            vals = [t.attrs[0] for t in ts]
            if all(isinstance(v, (int, bool)) for v in vals):
                r = _pyfold(op, vals)
                if r is not None:
                    return self.const(r, dt)
            return None
        if any(t.op == 'ivec' for t in ts) and all(
                t.op in ('ivec', 'const', 'dim') for t in ts):
            n = max(len(t.attrs) for t in ts if t.op == 'ivec')
            cols = []
            for t in ts:
                if t.op == 'ivec':
                    if any(isinstance(e, (Seg, tuple)) for e in t.attrs):
                        if op in ('eq',) and ts[0].attrs == ts[1].attrs:
                            return None
                        return None
                    if len(t.attrs) not in (1, n):
                        return None
                    cols.append(list(t.attrs) if len(t.attrs) == n
                                else list(t.attrs) * n)
                else:
                    cols.append([t.attrs[0]] * n)
            out = []
            for vs in zip(*cols):
                if all(isinstance(v, (int, bool)) for v in vs):
                    r = _pyfold(op, list(vs))
                elif op in ('mul', 'add', 'sub'):
                    a, b = [nf.dim_nf(v) for v in vs]
                    r = dim_of_nf({'mul': a * b, 'add': a + b,
                                   'sub': a - b}[op])
                elif op in ('eq', 'ne') and vs[0] == vs[1]:
                    r = op == 'eq'
                elif op == 'sel' and isinstance(vs[0], (bool, int)):
                    r = vs[1] if vs[0] else vs[2]
                elif op in ('max', 'min') and any(
                        isinstance(v, int) and v == 1 for v in vs):
                    big = vs[1] if vs[0] == 1 else vs[0]
                    r = big if op == 'max' else 1
                else:
                    return None
                if r is None:
                    return None
                out.append(r)
            return self.ivec(out, dt)
        return None

    def arith(self, op, a, b):
        """Python operator on tensors/dims/py scalars."""
        from . import interp as ip
        if isinstance(a, (ip.DimensionV,)):
            if a.d is None:
                return ip.DimensionV(None)
            a = self.dimval(a.d)
        if isinstance(b, (ip.DimensionV,)):
            if b.d is None:
                return ip.DimensionV(None)
            b = self.dimval(b.d)
        if isinstance(a, ip.Ext):
            a = self.ext_value(a.path)
        if isinstance(b, ip.Ext):
            b = self.ext_value(b.path)
        if not isinstance(a, Term) and not isinstance(b, Term):
            return NotImplemented
        if op == 'mul' and isinstance(a, ip.ListV) or \
                isinstance(b, ip.ListV) and op == 'mul' and \
                isinstance(a, Term) and a.pytype is not None:
            return NotImplemented
        m = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'truediv': 'div',
             'floordiv': 'floordiv', 'mod': 'mod', 'pow': 'pow',
             'and': 'and', 'or': 'or', 'xor': 'xor'}
        if op == 'matmul':
            return self.tf_matmul(a, b)
        if op not in m:
            return NotImplemented
        for x in (a, b):
            if isinstance(x, (str, ip.DictV, ip.FuncV)):
                self.I.throw('TypeError', 'operand')
        return self.ew(m[op], a, b)

    def compare(self, name, a, b):
        from . import interp as ip
        if isinstance(a, ip.DimensionV):
            a = self.dimval(a.d)
        if isinstance(b, ip.DimensionV):
            b = self.dimval(b.d)
        if isinstance(a, DType) or isinstance(b, DType):
            if isinstance(a, ip.Ext) or isinstance(b, ip.Ext):
                return self.I.unk('dtype comparison')
            if isinstance(a, str) or isinstance(b, str):
                x = a.name if isinstance(a, DType) else a
                y = b.name if isinstance(b, DType) else b
                return (x == y) if name == 'eq' else (x != y)
            return (a is b) if name == 'eq' else (a is not b)
        if isinstance(a, ip.TShape) or isinstance(b, ip.TShape):
            da, db = self.as_dims(a), self.as_dims(b)
            if da == 'bad' or db == 'bad':
                return name == 'ne'
            if name in ('eq', 'ne'):
                if da is None or db is None:
                    self.I.throw('ValueError', 'unknown rank comparison')
                r = da == db
                return r if name == 'eq' else not r
            return self.I.unk('shape comparison')
        if isinstance(a, Term) or isinstance(b, Term):
            if name in ('eq', 'ne'):
                ta = isinstance(a, Term) and a.pytype is None
                tb = isinstance(b, Term) and b.pytype is None
                if ta or tb:
                    # TF1 tensors compare by identity
                    return (a is b) if name == 'eq' else (a is not b)
                if not (isinstance(a, (Term, int, float)) and
                        isinstance(b, (Term, int, float))):
                    return name == 'ne'
            if a is None or b is None:
                self.I.throw('TypeError', 'ordering with None')
            return self.ew(name, a, b)
        if name in ('eq', 'ne'):
            if isinstance(a, ip.NATIVE) != isinstance(b, ip.NATIVE):
                return name == 'ne'
            r = a is b
            if isinstance(a, ip.DictV) and isinstance(b, ip.DictV):
                r = a.d == b.d
            return r if name == 'eq' else not r
        return self.I.unk('compare %r %r' % (a, b))

    def truth(self, t):
        """Truth of a term used as a Python bool."""
        if t.sid in self.I.assumed:
            return self.I.assumed[t.sid]
        if t.op == 'not' and t.args[0].sid in self.I.assumed:
            return not self.I.assumed[t.args[0].sid]
        if t.pytype is None:
            if t.op == 'unk':
                return self.unk_bool('unknown')
            self.I.throw('TypeError', 'Using a tf.Tensor as a Python bool '
                         'is not allowed')
        if t.op == 'const':
            return bool(t.attrs[0])
        if t.op == 'dim':
            return True
        if t.pytype in ('int', 'float'):
            d = self.decide_cmp('ne', t, self.pyconst(0))
            if d is not None:
                return d
            c = self.py_ew('ne', [t, self.pyconst(0)])
            if c.op == 'const':
                return bool(c.attrs[0])
            return c
        if t.op in CMP:
            d = self.decide_cmp(t.op, *t.args)
            if d is not None:
                return d
        if t.op == 'gamma':
            c = self.I.assumed.get(t.args[0].sid)
            if c is not None:
                return self.truth(t.args[1 if c else 2])
        return t

    def lnot(self, c):
        if isinstance(c, bool):
            return not c
        if c.pytype is not None:
            if c.op == 'const':
                return self.pybool(not c.attrs[0])
            return self.py_ew('not', [c])
        return self.ew('not', c)

    def land(self, a, b):
        if isinstance(a, bool):
            a = self.pybool(a)
        if isinstance(b, bool):
            b = self.pybool(b)
        if a.op == 'const' and a.pytype:
            return b if a.attrs[0] else a
        if b.op == 'const' and b.pytype:
            return a if b.attrs[0] else b
        if a is b:
            return a
        if a.pytype is not None and b.pytype is not None:
            return self.g.mk('and', (a, b), (), (), None, 'bool')
        return self.g.mk('and', (a, b), (), bcast(a.shape, b.shape), BOOL)

    def gamma(self, cond, a, b):
        if a is b:
            return a
        if (a.pytype is None) != (b.pytype is None):
            raise nf.Undecidable('gamma of python and tensor')
        ts = {a.pytype, b.pytype}
        if ts == {'np', 'bool'} and not a.shape and not b.shape and \
                (a if a.pytype == "np" else b).dtype in (BOOL, None):
            return self.g.mk('gamma', (cond, a, b), (), (), None, 'bool')
        if 'np' in ts and len(ts) == 2 and ts & {'int', 'float'} and \
                not a.shape and not b.shape:
            return self.g.mk('gamma', (cond, a, b), (), (), a.dtype if
                             a.pytype == 'np' else b.dtype, 'np')
        if a.pytype is not None and a.pytype != b.pytype and not (
                {a.pytype, b.pytype} <= {'int', 'float'}):
            raise nf.Undecidable('gamma of mixed python types')
        if a.pytype != b.pytype:
            raise nf.Undecidable('gamma of int and float')
        if a.dtype is not b.dtype or a.shape != b.shape:
            raise nf.Undecidable('gamma of different types')
        if a.op in ('var', 'assertop', 'group') or \
                b.op in ('assertop', 'group'):
            if a.op != 'var':
                raise nf.Undecidable('gamma of ops')
        return self.g.mk('gamma', (cond, a, b), (), a.shape, a.dtype,
                         a.pytype)

    def np_cast(self, dtype, args, kw):
        v = args[0]
        if isinstance(v, (int, float)):
            if dtype.kind == 'f':
                return NpF(v, dtype)
            return int(v)
        if isinstance(v, Term):
            return v
        return self.I.unk('np cast')

    def cast(self, t, dtype):
        if t.dtype is dtype:
            return t
        if t.op == 'const' and t.shape == () and not self.I.ctrl and \
                isinstance(t.attrs[0], (int, bool)):
            v = t.attrs[0]
            if dtype.kind == 'b':
                v = bool(v)
            elif isinstance(v, bool):
                v = int(v)
            return self.const(v, dtype)
        if t.op == 'ivec' and all(isinstance(e, (int, bool))
                                  for e in t.attrs):
            f = bool if dtype.kind == 'b' else int
            return self.ivec([f(e) for e in t.attrs], dtype)
        return self.mk('cast', (t,), (), t.shape, dtype)

    # ----------------------------------------------------------- builtins
    def builtin(self, name):
        return self.builtins.get(name)

    def make_builtins(self):
        from . import interp as ip
        B = {}
        I = self.I
        for n, c in ip.BUILTIN_EXC.items():
            if n != 'object':
                B[n] = c
        B['object'] = ip.BUILTIN_EXC['object']

        def prim(name):
            def deco(f):
                B[name] = ip.Prim(name, lambda I_, a, k: f(*a, **k))
                return f
            return deco

        def it(v):
            r = I.iterate(v)
            if r is None:
                return None
            return r

        B['NotImplemented'] = NotImplemented
        B['Ellipsis'] = Ellipsis
        for n in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict',
                  'set', 'frozenset', 'bytes', 'complex', 'type', 'slice',
                  'property', 'staticmethod', 'classmethod', 'range', 'zip',
                  'map', 'enumerate', 'super', 'reversed', 'filter'):
            B[n] = ip.Ext('py.' + n)

        @prim('len')
        def _(v):
            if isinstance(v, ip.Choice):
                v = I.drop_missing(v)
            if isinstance(v, (tuple, str)):
                return len(v)
            if isinstance(v, ip.ListV):
                return len(v.items)
            if isinstance(v, ip.DictV):
                return len(v.d)
            if isinstance(v, ip.SetV):
                return len(v.items)
            if isinstance(v, ip.TShape):
                if v.dims is None:
                    I.throw('ValueError', 'len of unknown rank shape')
                return len(v.dims)
            if isinstance(v, ip.Obj):
                m = I.class_attr(v.cls, '__len__')
                if m is not None:
                    return I.call(ip.BoundV(m, v), [], {})
                if v.cls.nt_fields is not None:
                    return len(v.cls.nt_fields)
                I.throw('TypeError', 'len()')
            if isinstance(v, Term) and v.shape and v.pytype == 'np':
                return self.dimval(v.shape[0])
            return I.unk('len %r' % (v,))

        @prim('isinstance')
        def _(v, c):
            return self.isinstance_(v, c)

        @prim('issubclass')
        def _(v, c):
            if isinstance(v, ip.ClassV) and isinstance(c, ip.ClassV):
                return c in ip.mro_of(v)
            return I.unk('issubclass')

        @prim('callable')
        def _(v):
            if isinstance(v, ip.Choice):
                v = I.drop_missing(v)
            if isinstance(v, ip.Obj):
                return I.class_attr(v.cls, '__call__') is not None
            if isinstance(v, ip.Unk):
                return v
            return isinstance(v, (ip.FuncV, ip.BoundV, ip.Prim, ip.ClassV,
                                  ip.Ext))

        @prim('hasattr')
        def _(o, n):
            try:
                r = I.getattr_opt(o, n)
            except ip.PyRaise as e:
                if ip.exc_is(e.exc, ip.BUILTIN_EXC['AttributeError']):
                    return False
                raise
            if isinstance(r, ip.Choice):
                if r.a is ip.MISSING:
                    return self.lnot(r.cond)
                if r.b is ip.MISSING:
                    return r.cond
            return r is not ip.MISSING

        @prim('getattr')
        def _(o, n, *d):
            try:
                r = I.getattr_opt(o, n)
            except ip.PyRaise as e:
                if d and ip.exc_is(e.exc, ip.BUILTIN_EXC['AttributeError']):
                    return d[0]
                raise
            if r is ip.MISSING:
                if d:
                    return d[0]
                I.throw('AttributeError', n)
            if isinstance(r, ip.Choice) and d:
                if r.a is ip.MISSING:
                    return I.merge(r.cond, d[0], r.b)
                if r.b is ip.MISSING:
                    return I.merge(r.cond, r.a, d[0])
            return r

        @prim('setattr')
        def _(o, n, v):
            I.setattr(o, n, v)

        @prim('delattr')
        def _(o, n):
            if isinstance(o, ip.Obj):
                if n not in o.attrs:
                    I.throw('AttributeError', n)
                I.set_loc(o.attrs, n, ip.MISSING)

        @prim('id')
        def _(o):
            return id(o)

        @prim('hash')
        def _(o):
            if isinstance(o, ip.NATIVE):
                return hash(o)
            if isinstance(o, ip.Obj):
                for c in ip.mro_of(o.cls):
                    h = c.attrs.get('__hash__')
                    if h is not None:
                        return I.call(ip.BoundV(h, o), [], {})
                    if '__hash__' in c.attrs or '__eq__' in c.attrs:
                        I.throw('TypeError', 'unhashable type: ' + c.name)
            return id(o)

        @prim('repr')
        def _(o):
            return I.to_str(o, True)

        @prim('format')
        def _(o, spec=''):
            try:
                return format(o if isinstance(o, ip.NATIVE)
                              else I.to_str(o), spec)
            except Exception:
                return I.to_str(o)

        @prim('print')
        def _(*a, **k):
            return None

        @prim('iter')
        def _(o):
            r = it(o)
            return ip.IterV(r) if r is not None else I.unk('iter')

        @prim('next')
        def _(o, *d):
            if isinstance(o, ip.IterV):
                if o.state.get('used'):
                    items = []
                else:
                    items = o.items
                pos = o.state.get('pos', 0)
                if pos < len(items):
                    I.set_loc(o.state, 'pos', pos + 1)
                    return items[pos]
                if d:
                    return d[0]
                I.throw('StopIteration')
            return I.unk('next')

        @prim('sum')
        def _(v, start=0):
            items = it(v)
            if items is None:
                return v if isinstance(v, ip.Unk) else I.unk('sum')
            acc = start
            for x in items:
                if isinstance(x, ip.Choice) and x.b is ip.MISSING:
                    acc = I.fork(x.cond,
                                 lambda: I.binop('add', acc, x.a),
                                 lambda: acc)
                elif isinstance(x, ip.Choice) and x.a is ip.MISSING:
                    acc = I.fork(x.cond, lambda: acc,
                                 lambda: I.binop('add', acc, x.b))
                else:
                    acc = I.binop('add', acc, x)
            return acc

        def minmax(nm):
            def f(*a, **k):
                items = it(a[0]) if len(a) == 1 else list(a)
                if items is None:
                    return I.unk(nm)
                if not items:
                    if 'default' in k:
                        return k['default']
                    I.throw('ValueError', nm)
                if k.get('key') is not None:
                    ks = [I.call(k['key'], [x], {}) for x in items]
                    if len({type(x) for x in ks} - {int, float}) == 0 or \
                            all(isinstance(x, str) for x in ks):
                        j = (max if nm == 'max' else min)(
                            range(len(ks)), key=lambda j_: ks[j_])
                        return items[j]
                    return I.unk(nm + ' key')
                acc = items[0]
                for x in items[1:]:
                    if isinstance(acc, (int, float)) and isinstance(
                            x, (int, float)):
                        acc = (max if nm == 'max' else min)(acc, x)
                    else:
                        acc = self.ew(nm, acc, x)
                return acc
            return f
        prim('max')(minmax('max'))
        prim('min')(minmax('min'))

        @prim('abs')
        def _(v):
            if isinstance(v, (int, float)):
                return abs(v)
            if isinstance(v, ip.Obj):
                m = I.class_attr(v.cls, '__abs__')
                if m is not None:
                    return I.call(ip.BoundV(m, v), [], {})
            return self.ew('abs', v)

        @prim('round')
        def _(v, n=None):
            return round(v, n) if isinstance(v, float) else v

        @prim('pow')
        def _(a, b):
            return I.binop('pow', a, b)

        @prim('divmod')
        def _(a, b):
            return (I.binop('floordiv', a, b), I.binop('mod', a, b))

        @prim('sorted')
        def _(v, key=None, reverse=False):
            items = it(v)
            if items is None:
                return I.unk('sorted')
            ks = items if key is None else [I.call(key, [x], {})
                                            for x in items]
            if all(isinstance(k, (int, float)) for k in ks) or \
                    all(isinstance(k, str) for k in ks) or \
                    all(isinstance(k, tuple) and k and
                        isinstance(k[0], str) for k in ks):
                order = sorted(range(len(items)), key=lambda i:
                               ks[i][0] if isinstance(ks[i], tuple)
                               else ks[i], reverse=bool(reverse))
                return ip.ListV([items[i] for i in order])
            return I.unk('sorted')

        @prim('any')
        def _(v):
            items = it(v)
            if items is None:
                return I.unk('any')
            acc = False
            for x in items:
                c = I.truth(x)
                if c is True:
                    return True
                if c is False:
                    continue
                c = I.as_cond(c)
                acc = c if acc is False else self.lnot(
                    self.land(self.lnot(acc), self.lnot(c)))
            return acc

        @prim('all')
        def _(v):
            items = it(v)
            if items is None:
                return I.unk('all')
            acc = True
            for x in items:
                c = I.truth(x)
                if c is False:
                    return False
                if c is True:
                    continue
                c = I.as_cond(c)
                acc = c if acc is True else self.land(acc, c)
            return acc

        @prim('vars')
        def _(o):
            return ip.DictV(o.attrs) if isinstance(o, ip.Obj) else \
                I.unk('vars')

        @prim('format')
        def _(v, s=''):
            return str(v)
        self.builtins = B

    def isinstance_(self, v, c):
        from . import interp as ip
        I = self.I
        if isinstance(v, ip.Choice):
            w = I.drop_missing(v)
            if w is not v:
                return self.isinstance_(w, c)
            return I.fork(v.cond, lambda: self.isinstance_(v.a, c),
                          lambda: self.isinstance_(v.b, c))
        if isinstance(v, ip.Unk):
            return v
        if isinstance(c, (tuple, ip.ListV)):
            und = None
            for x in (c if isinstance(c, tuple) else c.items):
                r = self.isinstance_(v, x)
                if r is True:
                    return True
                if r is not False:
                    und = r
            return und if und is not None else False
        if isinstance(c, ip.ClassV):
            if isinstance(v, ip.Obj):
                return c in ip.mro_of(v.cls)
            return c.name == 'object'
        if isinstance(c, DType):
            return False
        if isinstance(c, ip.Ext):
            p = c.path
            if p == 'py.int':
                return isinstance(v, int) or (
                    isinstance(v, Term) and v.pytype in ('int', 'bool'))
            if p == 'py.bool':
                return isinstance(v, bool) or (
                    isinstance(v, Term) and v.pytype == 'bool')
            if p == 'py.float':
                return isinstance(v, float) or (
                    isinstance(v, Term) and v.pytype == 'float')
            if p in ('py.str', 'py.basestring', 'py.string_types'):
                return isinstance(v, str)
            if p == 'py.list':
                return isinstance(v, ip.ListV)
            if p == 'py.tuple':
                return isinstance(v, tuple) or (
                    isinstance(v, ip.Obj) and v.cls.nt_fields is not None)
            if p in ('py.dict', 'collections.OrderedDict',
                     'collections.abc.Mapping', 'collections.Mapping'):
                return isinstance(v, ip.DictV)
            if p in ('py.set', 'py.frozenset'):
                return isinstance(v, ip.SetV)
            if p == 'py.type':
                return isinstance(v, ip.ClassV)
            if p == 'tf.Variable':
                return isinstance(v, Term) and v.op == 'var'
            if p == 'tf.Tensor':
                return isinstance(v, Term) and v.pytype is None and \
                    v.op not in ('var', 'assertop', 'group')
            if p == 'tf.TensorShape':
                return isinstance(v, ip.TShape)
            if p == 'tf.Dimension':
                return isinstance(v, ip.DimensionV)
            if p == 'tf.DType':
                return isinstance(v, DType)
            if p == 'np.ndarray':
                return isinstance(v, Term) and v.pytype == 'np'
            if p in ('collections.abc.Iterable', 'collections.Iterable'):
                return isinstance(v, (tuple, ip.ListV, ip.DictV, ip.IterV,
                                      ip.SetV))
            if p in ('six.integer_types',):
                return self.isinstance_(v, ip.Ext('py.int'))
            if p in ('numbers.Number', 'numbers.Real'):
                return isinstance(v, (int, float)) or (
                    isinstance(v, Term) and v.pytype is not None)
            if p in ('numbers.Integral', 'np.integer'):
                return self.isinstance_(v, ip.Ext('py.int'))
        return I.unk('isinstance %r' % (c,))

    # ------------------------------------------------------ external values
    def ext_value(self, path):
        """Value of an external constant."""
        if path in ('np.pi', 'math.pi'):
            return self.g.mk('pi', (), (), (), None, 'float')
        if path in ('np.inf', 'math.inf', 'np.Inf', 'np.infty'):
            return float('inf')
        if path in ('np.nan', 'math.nan'):
            return float('nan')
        if path in ('np.e', 'math.e'):
            return self.py_ew('exp', [self.pyconst(1)])
        if path in ('np.newaxis', 'tf.newaxis'):
            return None
        return None

    DT = {'tf.' + n: d for n, d in DTYPES.items()}
    DT.update({'np.' + n: d for n, d in DTYPES.items()})
    DT['tf.double'] = DT['np.double'] = F64
    DT['tf.half'] = F16
    DT['tf.float'] = F32

    def attr(self, o, name):
        from . import interp as ip
        I = self.I
        if isinstance(o, ip.Ext):
            if o.path.startswith('py.'):
                if name == '__name__':
                    return o.path[3:]
                if name == 'fromkeys':
                    return ip.Prim('fromkeys', lambda I_, a, k: ip.DictV(
                        {I.dkey(x): (a[1] if len(a) > 1 else None)
                         for x in (I.iterate(a[0]) or [])}))
                return ip.Ext(o.path + '.' + name)
            p = self.canon(o.path + '.' + name)
            if p in self.DT:
                return self.DT[p]
            if p in ('np.newaxis', 'tf.newaxis'):
                return None
            v = self.ext_value(p)
            if v is not None:
                return v
            if p == 'six.string_types':
                return (ip.Ext('py.str'),)
            if p == 'six.integer_types':
                return (ip.Ext('py.int'),)
            if p.startswith('six.moves.'):
                return ip.Ext('py.' + p.split('.')[-1].replace('xrange',
                                                               'range'))
            if p == 'collections.OrderedDict.fromkeys':
                return ip.Prim('fromkeys', lambda I_, a, k: ip.DictV(
                    {I.dkey(x): None for x in (I.iterate(a[0]) or [])}))
            return ip.Ext(p)
        if isinstance(o, Term):
            return self.term_attr(o, name)
        if isinstance(o, ip.TShape):
            return self.shape_attr(o, name)
        if isinstance(o, ip.DimensionV):
            if name == 'value':
                return self.dimval(o.d)
            return ip.MISSING
        if isinstance(o, DType):
            if name in ('as_numpy_dtype', 'base_dtype', 'real_dtype'):
                return o
            if name in ('name', '__name__'):
                return o.name
            if name == 'is_floating':
                return o.kind == 'f'
            if name == 'is_integer':
                return o.kind in 'iu'
            if name == 'is_bool':
                return o.kind == 'b'
            if name == 'is_complex':
                return o.kind == 'c'
            if name == 'is_compatible_with':
                return ip.Prim(name, lambda I_, a, k: a[0] is o)
            if name == 'size':
                return o.size
            if name in ('max', 'min'):
                return self.g.mk('cst', (), ('%s:%s' % (name, o.name),), (),
                                 None, 'float')
            return ip.MISSING
        if isinstance(o, ip.FInfo):
            if name in ('tiny', 'eps', 'max', 'min', 'smallest_normal',
                        'resolution'):
                nm = 'tiny' if name == 'smallest_normal' else name
                return self.g.mk('cst', (), ('%s:%s' % (nm, o.dt.name),),
                                 (), None, 'float')
            return ip.MISSING
        if isinstance(o, ip.ListV):
            return self.list_attr(o, name)
        if isinstance(o, ip.DictV):
            return self.dict_attr(o, name)
        if isinstance(o, ip.SetV):
            return self.set_attr(o, name)
        if isinstance(o, str):
            return self.str_attr(o, name)
        if isinstance(o, tuple):
            if name == 'index' or name == 'count':
                return ip.Prim(name, lambda I_, a, k: getattr(o, name)(a[0]))
            return ip.MISSING
        if isinstance(o, ip.CtxV):
            if o.kind == 'session' and name == 'run':
                return ip.Prim('run', self.sess_run)
            if o.kind == 'graph':
                return I.unk('graph.' + name)
            return ip.MISSING
        if isinstance(o, ip.Prim):
            if name == '__name__':
                return o.name
            return ip.MISSING
        if isinstance(o, ip.SliceV):
            return {'start': o.a, 'stop': o.b, 'step': o.c}.get(
                name, ip.MISSING)
        if isinstance(o, (int, float)):
            if name in ('real',):
                return o
            return ip.MISSING
        return ip.MISSING

    def sess_run(self, I, a, k):
        from . import interp as ip
        fetches = a[0]
        feed = a[1] if len(a) > 1 else k.get('feed_dict')
        n = self.g.fresh()
        I.effects.append(('run', (n, fetches, feed), list(I.guards),
                          None, I.site))

        def one(x):
            if isinstance(x, (ip.ListV, tuple)):
                it = x.items if isinstance(x, ip.ListV) else x
                return ip.ListV([one(y) for y in it])
            if isinstance(x, ip.DictV):
                return ip.DictV({kk: one(y) for kk, y in x.d.items()})
            if isinstance(x, ip.Obj):
                x = self.tensor(x)
            if isinstance(x, Term):
                if x.op in ('group', 'assertop', 'noop'):
                    return None
                return self.g.mk('fetch', (x,), (n,), x.shape, x.dtype,
                                 'np')
            return I.unk('fetch')
        return one(fetches)

    # --- tensors
    def term_attr(self, t, name):
        from . import interp as ip
        P = lambda f: ip.Prim('tensor.' + name, lambda I_, a, k: f(*a, **k))
        if t.pytype == 'np' or t.pytype is None and name in ND_ONLY and \
                getattr(self.I, 'np_terms', False):
            if name == 'shape':
                return tuple(self.dimval(d) for d in t.shape) \
                    if t.shape is not None else self.I.unk('np shape')
            if name == 'dtype':
                return t.dtype
            if name == 'ndim':
                return len(t.shape)
            if name in ('mean', 'sum', 'max', 'min', 'std', 'var', 'prod'):
                return P(lambda axis=None, keepdims=False:
                         self.reduce('r' + name, t, axis, keepdims))
            if name == 'astype':
                return P(lambda d: t)
            if name in ('copy', 'view'):
                return P(lambda *a, **k: t)
            if name == 'T':
                return self.tf_transpose(t)
            if name == 'squeeze':
                return P(lambda axis=None: self.np_squeeze(t, axis))
            if name == 'transpose':
                return P(lambda *a: self.tf_transpose(t, a) if a else
                         self.tf_transpose(t))
            if name in ND_ONLY:
                return self.I.unk('ndarray.' + name)
            return ip.MISSING
        if t.pytype is not None:
            return ip.MISSING
        if t.op == 'unk' and name not in ('get_shape', 'shape', 'dtype',
                                          'set_shape'):
            return self.I.unk('attr of unknown')
        if t.op in ('group', 'assertop'):
            if name == 'name':
                return 'op'
            return self.I.unk('op.' + name)
        if name == 'dtype':
            return t.dtype if t.dtype is not None else \
                self.I.unk('dtype of %r' % t)
        if name == 'shape':
            return self.static(t)
        if name == 'get_shape':
            return P(lambda: self.static(t))
        if name == 'set_shape':
            return P(lambda shape: self.set_shape(t, shape))
        if name == 'name':
            return str(t.attrs[0]) if t.op in ('sym', 'var') else t.op
        if name == 'op':
            return t
        if name == 'device':
            return ''
        if name == 'eval':
            return P(lambda *a, **k: self.I.unk('eval'))
        if t.op == 'var' or t.op == 'assign':
            if name == 'assign':
                return P(lambda value, **k: self.assign(t, value))
            if name in ('assign_add', 'assign_sub'):
                o = name[7:]
                return P(lambda delta, **k: self.assign(
                    t, None, (o, delta)))
            if name in ('read_value', 'value', 'initialized_value'):
                return P(lambda *a, **k: self.mk('id', (t,), (), t.shape,
                                                 t.dtype))
            if name in ('initializer',):
                return self.I.unk('initializer')
            if name == 'initial_value':
                for v, iv in self.vars:
                    if v is t:
                        return iv
        if name == 'graph':
            return ip.CtxV('graph')
        return ip.MISSING

    def set_shape(self, t, shape):
        from . import interp as ip
        dims = self.as_dims(shape)
        if dims is None:
            return None
        if dims == 'bad':
            self.I.unk('set_shape')
            return None
        if t.shape is None:
            return None
        if any(isinstance(d, Seg) for d in t.shape):
            # true rank is generic: a static rank claim can't be checked
            return None
        if len(dims) != len(t.shape):
            self.I.throw('ValueError', 'set_shape rank %s vs %s' %
                         (dims, t.shape))
        for a, b in zip(dims, t.shape):
            if a is not None and a != b:
                if self.sdim(b) is not None:
                    self.I.throw('ValueError', 'set_shape %s vs %s' %
                                 (dims, t.shape))
                self.I.event('static-shape-wrong', 'set_shape %s on tensor '
                             'of shape %s' % (dims, t.shape))
        return None

    def as_dims(self, v):
        """Static dims list / None for unknown rank."""
        from . import interp as ip
        if isinstance(v, ip.TShape):
            return v.dims
        if v is None:
            return None
        if isinstance(v, ip.Choice):
            v = self.I.drop_missing(v)
        if isinstance(v, (ip.ListV, tuple)):
            out = []
            for x in (v.items if isinstance(v, ip.ListV) else v):
                if x is None or isinstance(x, int):
                    out.append(x)
                elif isinstance(x, ip.DimensionV):
                    out.append(x.d)
                elif isinstance(x, Term) and x.pytype == 'int':
                    out.append(self.dim_el(x))
                else:
                    return 'bad'
            return out
        if isinstance(v, int):
            return [v]
        return 'bad'

    def shape_attr(self, s, name):
        from . import interp as ip
        I = self.I
        P = lambda f: ip.Prim('shape.' + name, lambda I_, a, k: f(*a, **k))
        if name in ('ndims', 'rank'):
            return None if s.dims is None else len(s.dims)
        if name == 'dims':
            return None if s.dims is None else ip.ListV(
                [ip.DimensionV(d) for d in s.dims])
        if name == 'is_fully_defined':
            return P(lambda: s.dims is not None and
                     all(d is not None for d in s.dims))
        if name == 'as_list':
            def f():
                if s.dims is None:
                    I.throw('ValueError', 'as_list() on unknown shape')
                return ip.ListV([self.dimval(d) for d in s.dims])
            return P(f)
        if name == 'concatenate':
            return P(lambda other: self.shape_concat(s, other))
        if name == 'num_elements':
            def f():
                if s.dims is None or any(d is None for d in s.dims):
                    return None
                return self.dimval(mk_prod(s.dims))
            return P(f)
        if name == 'is_compatible_with':
            return P(lambda o: self.shape_compat(s, o))
        if name == 'assert_is_compatible_with':
            def f(o):
                if not self.shape_compat(s, o):
                    I.throw('ValueError', 'Shapes are incompatible')
            return P(f)
        if name == 'assert_has_rank':
            def f(r):
                if s.dims is not None and len(s.dims) != r:
                    I.throw('ValueError', 'rank')
            return P(f)
        if name == 'with_rank':
            def f(r):
                if s.dims is not None and len(s.dims) != r:
                    I.throw('ValueError', 'rank')
                return s if s.dims is not None else ip.TShape([None] * r)
            return P(f)
        if name == 'with_rank_at_least':
            def f(r):
                if s.dims is not None and len(s.dims) < r:
                    I.throw('ValueError', 'rank')
                return s
            return P(f)
        if name == 'merge_with':
            def f(o):
                d = self.as_dims(o)
                if s.dims is None:
                    return ip.TShape(d)
                if d is None:
                    return s
                if len(d) != len(s.dims):
                    I.throw('ValueError', 'merge')
                out = []
                for x, y in zip(s.dims, d):
                    if x is None or y is None or x == y:
                        out.append(x if x is not None else y)
                    else:
                        I.throw('ValueError', 'merge')
                return ip.TShape(out)
            return P(f)
        return ip.MISSING

    def shape_compat(self, s, o):
        d = self.as_dims(o)
        if s.dims is None or d is None:
            return True
        if len(d) != len(s.dims):
            return False
        return all(x is None or y is None or x == y
                   for x, y in zip(s.dims, d))

    def shape_concat(self, s, o):
        from . import interp as ip
        d = self.as_dims(o)
        if d == 'bad':
            self.I.unk('concatenate')
            return ip.TShape(None)
        if s.dims is None or d is None:
            return ip.TShape(None)
        return ip.TShape(list(s.dims) + list(d))

    def shape_getitem(self, s, k):
        from . import interp as ip
        if isinstance(k, ip.SliceV):
            if s.dims is None:
                a, b = k.a, k.b
                a = 0 if a is None else self.as_int(a)
                b = None if b is None else self.as_int(b)
                if b is None or a is None or a < 0 or b < 0:
                    return ip.TShape(None)
                return ip.TShape([None] * max(0, b - a))
            f = lambda x: None if x is None else self.as_int(x)
            return ip.TShape(s.dims[slice(f(k.a), f(k.b), f(k.c))])
        if s.dims is None:
            return ip.DimensionV(None)
        i = self.as_int(k)
        if i is None:
            return self.I.unk('shape index')
        try:
            return ip.DimensionV(s.dims[i])
        except IndexError:
            self.I.throw('IndexError', 'shape index')

    # --- containers
    def list_attr(self, o, name):
        from . import interp as ip
        I = self.I

        def P(f):
            return ip.Prim('list.' + name, lambda I_, a, k: f(*a, **k))

        def right(v):           # a bounded deque drops from the other end
            return v if o.maxlen is None else v[max(0, len(v) - o.maxlen):]

        def left(v):
            return v if o.maxlen is None else v[:o.maxlen]
        if name == 'append':
            return P(lambda x: I.set_loc(o, None, right(o.items + [x])))
        if name == 'appendleft':
            return P(lambda x: I.set_loc(o, None, left([x] + o.items)))
        if name == 'extend':
            def f(v):
                it = I.iterate(v)
                if it is None:
                    I.unk('extend')
                    return
                I.set_loc(o, None, right(o.items + list(it)))
            return P(f)
        if name == 'extendleft':
            return P(lambda v: I.set_loc(o, None, left(
                list(reversed(I.iterate(v))) + o.items)))
        if name in ('pop', 'popleft'):
            def f(i=-1 if name == 'pop' else 0):
                if not o.items:
                    I.throw('IndexError', 'pop from empty list')
                items = list(o.items)
                r = items.pop(i)
                I.set_loc(o, None, items)
                return r
            return P(f)
        if name == 'insert':
            def f(i, x):
                items = list(o.items)
                items.insert(i, x)
                I.set_loc(o, None, items)
            return P(f)
        if name == 'remove':
            def f(x):
                items = list(o.items)
                for j, y in enumerate(items):
                    if y is x or (isinstance(y, ip.NATIVE) and y == x):
                        del items[j]
                        I.set_loc(o, None, items)
                        return
                I.throw('ValueError', 'list.remove')
            return P(f)
        if name == 'clear':
            return P(lambda: I.set_loc(o, None, []))
        if name == 'reverse':
            return P(lambda: I.set_loc(o, None, list(reversed(o.items))))
        if name == 'copy':
            return P(lambda: ip.ListV(o.items))
        if name == 'index':
            def f(x):
                for j, y in enumerate(o.items):
                    if y is x or (isinstance(y, ip.NATIVE) and y == x):
                        return j
                I.throw('ValueError', 'index')
            return P(f)
        if name == 'count':
            return P(lambda x: sum(1 for y in o.items if y is x or (
                isinstance(y, ip.NATIVE) and y == x)))
        if name == 'sort':
            def f(**k):
                r = I.call(self.builtins['sorted'], [o], k)
                if isinstance(r, ip.ListV):
                    I.set_loc(o, None, r.items)
            return P(f)
        if hasattr(list, name) or name in ('rotate', 'maxlen'):
            return I.unk('list.' + name)
        return ip.MISSING

    def dict_attr(self, o, name):
        from . import interp as ip
        I = self.I

        def P(f):
            return ip.Prim('dict.' + name, lambda I_, a, k: f(*a, **k))
        if name in ('keys', 'iterkeys', 'viewkeys'):
            return P(lambda: ip.ListV(list(o.d)))
        if name in ('values', 'itervalues'):
            return P(lambda: ip.ListV([self._dv(o, k) for k in o.d]))
        if name in ('items', 'iteritems'):
            return P(lambda: ip.ListV([(k, self._dv(o, k)) for k in o.d]))
        if name == 'get':
            def f(k, d=None):
                k = I.dkey(k)
                if isinstance(k, ip.Unk):
                    return k
                if k in o.d:
                    v = o.d[k]
                    if isinstance(v, ip.Choice):
                        if v.a is ip.MISSING:
                            return I.merge(v.cond, d, v.b)
                        if v.b is ip.MISSING:
                            return I.merge(v.cond, v.a, d)
                    return v
                return d
            return P(f)
        if name == 'pop':
            def f(k, *d):
                k = I.dkey(k)
                if k in o.d:
                    v = I.drop_missing(o.d[k])
                    I.set_loc(o.d, k, ip.MISSING)
                    return v
                if d:
                    return d[0]
                I.throw('KeyError', repr(k))
            return P(f)
        if name == 'setdefault':
            def f(k, d=None):
                k = I.dkey(k)
                if k not in o.d:
                    I.set_loc(o.d, k, d)
                return o.d[k]
            return P(f)
        if name == 'update':
            def f(other=None, **kw):
                if isinstance(other, ip.Choice):
                    other = I.drop_missing(other)
                if isinstance(other, ip.DictV):
                    for k, v in list(other.d.items()):
                        I.set_loc(o.d, k, v)
                elif other is None and not kw:
                    if other is None:
                        I.throw('TypeError', 'NoneType is not iterable')
                elif other is not None:
                    it = I.iterate(other)
                    if it is None:
                        I.unk('dict.update')
                    else:
                        for p in it:
                            k, v = I.iterate(p)
                            I.set_loc(o.d, I.dkey(k), v)
                for k, v in kw.items():
                    I.set_loc(o.d, k, v)
            return P(f)
        if name == 'copy':
            return P(lambda: ip.DictV(dict(o.d)))
        if name == 'clear':
            def f():
                for k in list(o.d):
                    I.set_loc(o.d, k, ip.MISSING)
            return P(f)
        if name == '__contains__':
            return P(lambda k: I.contains(o, k))
        if name == 'popitem':
            def f(last=True):
                if not o.d:
                    I.throw('KeyError', 'popitem(): dictionary is empty')
                k = list(o.d)[-1 if last else 0]
                v = I.drop_missing(o.d[k])
                I.set_loc(o.d, k, ip.MISSING)
                return (k, v)
            return P(f)
        if hasattr(dict, name) or name in ('move_to_end',
                                           'default_factory'):
            return I.unk('dict.' + name)
        return ip.MISSING

    def _dv(self, o, k):
        return o.d[k]

    def set_attr(self, o, name):
        from . import interp as ip
        I = self.I
        def P(f):
            return ip.Prim('set.' + name, lambda I_, a, k: f(*a, **k))

        def has(c, x):
            r = I.contains(c, x)
            if not isinstance(r, bool):
                I.unk('set membership')
            return r is True

        def its(vs):
            out = []
            for v in vs:
                r = I.iterate(v)
                if r is None:
                    I.unk('set operand')
                    r = []
                out += list(r)
            return out
        put = lambda items: I.set_loc(o, None, ip.SetV(items).items)
        if name == 'add':
            return P(lambda x: None if has(o, x) else put(o.items + [x]))
        if name in ('discard', 'remove'):
            def f(x):
                if not has(o, x):
                    if name == 'remove':
                        I.throw('KeyError', repr(x))
                    return
                one = ip.ListV([x])
                put([y for y in o.items if not has(one, y)])
            return P(f)
        if name == 'update':
            return P(lambda *v: put(o.items + its(v)))
        if name == 'clear':
            return P(lambda: put([]))
        if name == 'copy':
            return P(lambda: ip.SetV(o.items))
        if name == 'pop':
            def f():
                if not o.items:
                    I.throw('KeyError', 'pop from an empty set')
                if len(o.items) > 1:
                    return I.unk('set.pop order')
                x = o.items[0]
                put([])
                return x
            return P(f)
        if name in ('intersection', 'intersection_update'):
            def f(*vs):
                out = list(o.items)
                for v in vs:
                    c = ip.ListV(its([v]))
                    out = [x for x in out if has(c, x)]
                if name == 'intersection':
                    return ip.SetV(out)
                put(out)
            return P(f)
        if name == 'difference_update':
            def f(*vs):
                c = ip.ListV(its(vs))
                put([x for x in o.items if not has(c, x)])
            return P(f)
        if name == 'symmetric_difference':
            def f(v):
                c = ip.ListV(its([v]))
                return ip.SetV([x for x in o.items if not has(c, x)] +
                               [x for x in c.items if not has(o, x)])
            return P(f)
        if name == 'issuperset':
            return P(lambda v: all(has(o, x) for x in its([v])))
        if name == 'isdisjoint':
            return P(lambda v: not any(has(o, x) for x in its([v])))
        if name == 'union':
            return P(lambda *v: ip.SetV(o.items + its(v)))
        if name == 'difference':
            def f(*vs):
                c = ip.ListV(its(vs))
                return ip.SetV([x for x in o.items if not has(c, x)])
            return P(f)
        if name == 'union':
            return ip.Prim(name, lambda I_, a, k: ip.SetV(
                o.items + list(I.iterate(a[0]))))
        if name == 'difference':
            return ip.Prim(name, lambda I_, a, k: ip.SetV(
                [x for x in o.items
                 if I.contains(ip.ListV(I.iterate(a[0])), x) is not True]))
        if name == 'issubset':
            return ip.Prim(name, lambda I_, a, k: all(
                I.contains(a[0], x) is True for x in o.items))
        return I.unk('set.' + name)

    def str_attr(self, o, name):
        from . import interp as ip

        def f(I_, a, k):
            if name == 'format':
                try:
                    return o.format(*[x if isinstance(x, ip.NATIVE) else
                                      self.I.to_str(x) for x in a],
                                    **{q: (x if isinstance(x, ip.NATIVE)
                                           else self.I.to_str(x))
                                       for q, x in k.items()})
                except Exception:
                    return o
            if name == 'join':
                it = self.I.iterate(a[0])
                return o.join(str(x) for x in it or [])
            if all(isinstance(x, ip.NATIVE) or isinstance(x, tuple)
                   for x in a):
                try:
                    r = getattr(o, name)(*a, **k)
                except Exception:
                    return self.I.unk('str.' + name)
                if isinstance(r, list):
                    return ip.ListV(r)
                return r
            return self.I.unk('str.' + name)
        if not hasattr('', name):
            return ip.MISSING
        return ip.Prim('str.' + name, f)

    # ---------------------------------------------------------------- calls
    def call(self, path, args, kw):
        from . import interp as ip
        I = self.I
        if path.startswith('py.'):
            f = getattr(self, 'py_' + path[3:].replace('.', '_'), None)
            if f is None:
                return I.unk('call ' + path)
            return f(*args, **kw)
        for v in list(args) + list(kw.values()):
            if isinstance(v, ip.Choice) and (v.a is ip.MISSING or
                                             v.b is ip.MISSING):
                args = [I.drop_missing(x) for x in args]
                kw = {k: I.drop_missing(x) for k, x in kw.items()}
                break
        pos = path.split('.', 1)
        short = pos[1] if len(pos) > 1 else pos[0]
        f = getattr(self, pos[0] + '_' + short.replace('.', '_'), None)
        if f is None and pos[0] == 'tf':
            kw = dict(kw)
            kw.pop('name', None)
            if short in EW1 and args + list(kw.values()):
                a = (list(args) + list(kw.values()))[0]
                return self.ew(short, self.tens(a))
            if short in EW2 or short in CMP:
                a = list(args) + [kw[k] for k in kw]
                if len(a) >= 2:
                    return self.ew(short, *self.tens2(a[0], a[1]))
        if f is None:
            if path.startswith('tf.') and any(
                    isinstance(a, Term) for a in args):
                return self.unk('call ' + path)
            return I.unk('call ' + path)
        try:
            inspect.signature(f).bind(*args, **kw)
        except TypeError:
            return I.unk('arguments of %s' % path)
        return f(*args, **kw)

    def tens(self, a):
        from . import interp as ip
        if isinstance(a, ip.Unk):
            return a
        return self.tensor(a)

    def tens2(self, a, b):
        """Binary-op conversion: the second follows the first's dtype."""
        from . import interp as ip
        if isinstance(a, ip.Unk) or isinstance(b, ip.Unk):
            return a, b
        pa = not isinstance(a, (Term, ip.Obj, ip.Choice)) or (
            isinstance(a, Term) and a.pytype is not None)
        pb = not isinstance(b, (Term, ip.Obj, ip.Choice)) or (
            isinstance(b, Term) and b.pytype is not None)
        if pa and pb:
            a = self.tensor(a)
            return a, self.tensor(b, a.dtype)
        if pa:
            b = self.tensor(b)
            if isinstance(b, Term) and isinstance(a, (
                    ip.ListV, tuple, Term)):
                return self.tensor(a, b.dtype), b
            return a, b
        a = self.tensor(a)
        if pb:
            if isinstance(b, (ip.ListV, tuple)) and isinstance(a, Term):
                return a, self.tensor(b, a.dtype)
            return a, b
        return a, self.tensor(b)

    # --- python builtins with type identity
    def py_int(self, v=0, *a):
        from . import interp as ip
        I = self.I
        if isinstance(v, ip.Choice):
            v = I.drop_missing(v)
        if isinstance(v, (int, float, str)):
            try:
                return int(v, *a)
            except ValueError:
                I.throw('ValueError', 'int()')
        if isinstance(v, ip.DimensionV):
            if v.d is None:
                I.throw('TypeError', '__int__ returned non-int')
            return self.dimval(v.d)
        if isinstance(v, Term):
            if v.pytype == 'int':
                return v
            if v.pytype == 'bool':
                return self.g.mk('cast', (v,), (), (), None, 'int')
            if v.pytype in ('float',):
                return self.g.mk('floor', (v,), (), (), None, 'int')
            if v.pytype is None:
                I.throw('TypeError', 'int() of a tensor')
        if isinstance(v, ip.Unk):
            return v
        if v is None:
            I.throw('TypeError', 'int(None)')
        return I.unk('int()')

    def py_float(self, v=0.0):
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, Term) and v.pytype in ('int', 'float', 'bool'):
            if v.op == 'const':
                return float(v.attrs[0])
            return self.g.mk('cast', (v,), (), (), None, 'float')
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                self.I.throw('ValueError', 'float()')
        return self.I.unk('float()')

    def py_bool(self, v=False):
        c = self.I.truth(v)
        return c

    def py_str(self, v='', *a):
        return self.I.to_str(v)

    def py_list(self, v=()):
        from . import interp as ip
        it = self.I.iterate(v)
        if it is None:
            if isinstance(v, (int, float)) or v is None:
                self.I.throw('TypeError', 'object is not iterable')
            return v if isinstance(v, ip.Unk) else self.I.unk('list()')
        return ip.ListV(it)

    def py_tuple(self, v=()):
        from . import interp as ip
        it = self.I.iterate(v)
        if it is None:
            if isinstance(v, (int, float)) or v is None:
                self.I.throw('TypeError', 'object is not iterable')
            return v if isinstance(v, ip.Unk) else self.I.unk('tuple()')
        return tuple(it)

    def py_set(self, v=()):
        from . import interp as ip
        it = self.I.iterate(v)
        return ip.SetV(it) if it is not None else self.I.unk('set()')

    py_frozenset = py_set

    def py_dict(self, *a, **kw):
        from . import interp as ip
        d = {}
        if a:
            src = a[0]
            if isinstance(src, ip.Choice):
                src = self.I.drop_missing(src)
            if isinstance(src, ip.DictV):
                d.update(src.d)
            else:
                it = self.I.iterate(src)
                if it is None:
                    return self.I.unk('dict()')
                for p in it:
                    if isinstance(p, ip.Choice) and isinstance(p.a, tuple) \
                            and p.b is ip.MISSING:
                        d[self.I.dkey(p.a[0])] = ip.Choice(
                            p.cond, p.a[1], ip.MISSING)
                        continue
                    kv = self.I.iterate(p)
                    if kv is None or len(kv) != 2:
                        return self.I.unk('dict() pair')
                    d[self.I.dkey(kv[0])] = kv[1]
        d.update(kw)
        return ip.DictV(d)

    def py_type(self, v, *a):
        from . import interp as ip
        if isinstance(v, ip.Obj):
            return v.cls
        if isinstance(v, bool):
            return ip.Ext('py.bool')
        for t, n in ((int, 'int'), (float, 'float'), (str, 'str'),
                     (tuple, 'tuple')):
            if isinstance(v, t):
                return ip.Ext('py.' + n)
        if isinstance(v, ip.ListV):
            return ip.Ext('py.list')
        if isinstance(v, ip.DictV):
            return ip.Ext('py.dict')
        if isinstance(v, Term) and v.pytype in PYTYPES:
            return ip.Ext('py.' + v.pytype)
        return self.I.unk('type()')

    def py_slice(self, *a):
        from . import interp as ip
        a = list(a)
        if len(a) == 1:
            a = [None] + a
        return ip.SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    def py_property(self, f=None, fset=None, *a):
        from . import interp as ip
        return ip.PropertyV(f, fset)

    def py_staticmethod(self, f):
        from . import interp as ip
        return ip.StaticV(f)

    def py_classmethod(self, f):
        from . import interp as ip
        return ip.ClassMV(f)

    def py_super(self, cls, obj):
        from . import interp as ip
        return ip.SuperV(cls, obj)

    def py_range(self, *a):
        from . import interp as ip
        v = [self.as_int(x) for x in a]
        if any(x is None for x in v):
            for x in a:
                if isinstance(x, Term) and x.pytype is None:
                    self.I.throw('TypeError', 'range() of a tensor')
            if any(isinstance(x, float) for x in a):
                self.I.throw('TypeError', 'range() of a float')
            return self.I.unk('symbolic range')
        return ip.ListV(list(range(*v)))

    def py_zip(self, *a):
        from . import interp as ip
        its = [self.I.iterate(x) for x in a]
        if any(x is None for x in its):
            return self.I.unk('zip')
        return ip.IterV(list(zip(*its)))

    def py_map(self, f, *a):
        from . import interp as ip
        its = [self.I.iterate(x) for x in a]
        if any(x is None for x in its):
            return self.I.unk('map')
        return ip.IterV([self.I.call(f, list(x), {}) for x in zip(*its)])

    def py_filter(self, f, a):
        from . import interp as ip
        it = self.I.iterate(a)
        if it is None:
            return self.I.unk('filter')
        out = []
        for x in it:
            c = self.I.truth(x if f is None else self.I.call(f, [x], {}))
            if c is True:
                out.append(x)
            elif c is not False:
                out.append(ip.Choice(self.I.as_cond(c), x, ip.MISSING))
        return ip.IterV(out)

    def py_enumerate(self, a, start=0):
        from . import interp as ip
        it = self.I.iterate(a)
        if it is None:
            return self.I.unk('enumerate')
        return ip.IterV(list(enumerate(it, start)))

    def py_reversed(self, a):
        from . import interp as ip
        it = self.I.iterate(a)
        if it is None:
            return self.I.unk('reversed')
        return ip.IterV(list(reversed(it)))

    # --- six / stdlib
    def six_iteritems(self, d):
        return self.I.call(self.I.getattr(d, 'items'), [], {})

    def six_itervalues(self, d):
        return self.I.call(self.I.getattr(d, 'values'), [], {})

    def six_iterkeys(self, d):
        return self.I.call(self.I.getattr(d, 'keys'), [], {})

    def warnings_warn(self, *a, **k):
        return None

    def functools_wraps(self, f, **k):
        from . import interp as ip

        def deco(I, a, kk):
            g = a[0]
            if isinstance(g, ip.FuncV) and isinstance(f, ip.FuncV):
                g.name = f.name
                g.qual = getattr(f, 'qual', f.name)
            return g
        return ip.Prim('wraps', deco)

    def functools_partial(self, f, *a, **k):
        from . import interp as ip
        return ip.Prim('partial', lambda I, b, kk: I.call(
            f, list(a) + list(b), dict(k, **kk)))

    def functools_reduce(self, f, seq, *init):
        it = self.I.iterate(seq)
        if it is None:
            return self.I.unk('reduce')
        it = list(init) + list(it)
        if not it:
            self.I.throw('TypeError', 'reduce() of empty sequence')
        acc = it[0]
        for x in it[1:]:
            acc = self.I.call(f, [acc, x], {})
        return acc

    py_reduce = functools_reduce

    def copy_copy(self, v):
        from . import interp as ip
        if isinstance(v, ip.ListV):
            return ip.ListV(v.items)
        if isinstance(v, ip.DictV):
            return ip.DictV(dict(v.d))
        if isinstance(v, ip.SetV):
            return ip.SetV(v.items)
        if isinstance(v, (tuple, Term) + ip.NATIVE):
            return v
        if isinstance(v, ip.Obj):
            n = ip.Obj(v.cls)
            n.attrs.update(v.attrs)
            return n
        return self.I.unk('copy')

    def copy_deepcopy(self, v, memo=None):
        from . import interp as ip
        memo = {} if not isinstance(memo, dict) else memo
        if id(v) in memo:
            return memo[id(v)]
        D = lambda x: self.copy_deepcopy(x, memo)
        if isinstance(v, (Term, DType) + ip.NATIVE) or v is None:
            return v
        if isinstance(v, tuple):
            return tuple(D(x) for x in v)
        if isinstance(v, ip.ListV):
            n = memo[id(v)] = ip.ListV([])
            n.items = [D(x) for x in v.items]
            return n
        if isinstance(v, ip.DictV):
            n = memo[id(v)] = ip.DictV()
            for k, x in v.d.items():
                n.d[D(k)] = D(x)
            return n
        if isinstance(v, ip.SetV):
            return ip.SetV([D(x) for x in v.items])
        if isinstance(v, ip.Obj):
            n = memo[id(v)] = ip.Obj(v.cls)
            for k, x in v.attrs.items():
                n.attrs[k] = D(x)
            return n
        if isinstance(v, (ip.FuncV, ip.ClassV, ip.Prim, ip.Ext, ip.BoundV)):
            return v
        return self.I.unk('deepcopy')

    def collections_namedtuple(self, name, fields, **k):
        from . import interp as ip
        if isinstance(fields, str):
            fs = fields.replace(',', ' ').split()
        else:
            fs = self.I.iterate(fields)
        c = ip.ClassV(name, [ip.BUILTIN_EXC['object']], {}, None)
        c.nt_fields = list(fs)
        return c

    def collections_OrderedDict(self, *a, **k):
        return self.py_dict(*a, **k)

    def collections_deque(self, v=(), maxlen=None):
        r = self.py_list(v)
        if maxlen is not None and hasattr(r, 'items'):
            m = self.as_int(maxlen)
            if m is None:
                return self.I.unk('deque bound')
            r.maxlen = m
            r.items = r.items[max(0, len(r.items) - m):]
        return r

    def collections_defaultdict(self, *a, **k):
        d = self.py_dict(*a[1:], **k)
        if hasattr(d, 'd') and a and a[0] is not None:
            d.default = a[0]
        return d

    def contextlib_contextmanager(self, f):
        from . import interp as ip

        def mk(I, a, k):
            return ip.GenCM(f, a, k)
        return ip.Prim('contextmanager', mk)

    def functools_lru_cache(self, *a, **k):
        from . import interp as ip
        if len(a) == 1 and not k and isinstance(
                a[0], (ip.FuncV, ip.BoundV, ip.Prim)):
            return self.functools_cache(a[0])
        return ip.Prim('lru_cache', lambda I, b, kk:
                       self.functools_cache(b[0]))

    def functools_cache(self, f):
        from . import interp as ip
        memo = {}

        def g(I, a, k):
            key = (tuple(I.dkey(x) for x in a),
                   tuple(sorted((q, I.dkey(x)) for q, x in k.items())))
            try:
                hash(key)
            except TypeError:
                I.throw('TypeError', 'unhashable type')
            if key not in memo:
                I.set_loc(memo, key, I.call(f, a, k))
            return memo[key]
        return ip.Prim(getattr(f, 'name', 'cached'), g)

    def functools_cached_property(self, f):
        from . import interp as ip
        name = getattr(f, 'name', 'f')

        def g(I, a, k):
            o = a[0]
            key = '_cached:' + name
            if key not in o.attrs:
                I.set_loc(o.attrs, key, I.call(f, [o], {}))
            return o.attrs[key]
        return ip.PropertyV(ip.Prim(name, g))

    def types_SimpleNamespace(self, **k):
        from . import interp as ip
        o = ip.Obj(ip.ClassV('SimpleNamespace',
                             [ip.BUILTIN_EXC['object']], {}, None))
        o.attrs.update(k)
        return o

    argparse_Namespace = types_SimpleNamespace

    def dataclasses_field(self, **k):
        from . import interp as ip
        o = ip.Obj(ip.ClassV('Field', [ip.BUILTIN_EXC['object']], {}, None))
        o.attrs.update(k)
        o.is_field = True
        return o

    def dataclasses_dataclass(self, cls=None, **k):
        from . import interp as ip
        I = self.I
        if cls is None:
            return ip.Prim('dataclass', lambda I_, a, kk:
                           self.dataclasses_dataclass(a[0]))
        if not isinstance(cls, ip.ClassV):
            return I.unk('dataclass')
        fields, dflt = [], {}
        for c in reversed(ip.mro_of(cls)):
            for n, has in getattr(c, 'fields', []):
                if n not in fields:
                    fields.append(n)
                if has and n in c.attrs:
                    dflt[n] = c.attrs[n]

        def init(I_, a, kw):
            o, vals = a[0], list(a[1:])
            if len(vals) > len(fields) or any(q not in fields for q in kw):
                I.throw('TypeError', '__init__() arguments')
            for j, n in enumerate(fields):
                if j < len(vals):
                    v = vals[j]
                elif n in kw:
                    v = kw[n]
                elif n in dflt:
                    v = dflt[n]
                    if getattr(v, 'is_field', False):
                        if 'default' in v.attrs:
                            v = v.attrs['default']
                        elif 'default_factory' in v.attrs:
                            v = I.call(v.attrs['default_factory'], [], {})
                        else:
                            I.throw('TypeError', 'missing ' + n)
                else:
                    I.throw('TypeError', 'missing ' + n)
                I.set_loc(o.attrs, n, v)
            m = I.class_attr(cls, '__post_init__')
            if m is not None:
                I.call(ip.BoundV(m, o), [], {})
        if '__init__' not in cls.attrs:
            I.set_loc(cls.attrs, '__init__', ip.Prim('__init__', init))
        return cls

    def _it(fn):
        def f(self, *a, **k):
            from . import interp as ip
            its = []
            for x in a:
                if isinstance(x, int):
                    its.append(x)
                    continue
                r = self.I.iterate(x)
                if r is None:
                    return self.I.unk('itertools')
                its.append(r)
            import itertools
            return ip.IterV([tuple(x) if isinstance(x, tuple) else x
                             for x in getattr(itertools, fn)(*its, **k)])
        return f
    itertools_product = _it('product')
    itertools_combinations = _it('combinations')
    itertools_permutations = _it('permutations')
    itertools_zip_longest = _it('zip_longest')
    itertools_islice = _it('islice')

    def itertools_chain_from_iterable(self, v):
        it = self.I.iterate(v)
        return self.I.unk('chain') if it is None else \
            self.itertools_chain(*it)

    def itertools_repeat(self, v, n=None):
        from . import interp as ip
        if not isinstance(n, int):
            return self.I.unk('itertools.repeat')
        return ip.IterV([v] * n)

    def itertools_starmap(self, f, v):
        from . import interp as ip
        it = self.I.iterate(v)
        if it is None:
            return self.I.unk('starmap')
        return ip.IterV([self.I.call(f, list(self.I.iterate(x)), {})
                         for x in it])

    def itertools_takewhile(self, f, v):
        from . import interp as ip
        I, it = self.I, self.I.iterate(v)
        if it is None:
            return I.unk('takewhile')
        out, so_far = [], True
        for x in it:
            c = I.truth(I.call(f, [x], {}))
            if c is False:
                break
            if c is not True:
                c = I.as_cond(c)
                so_far = c if so_far is True else self.land(so_far, c)
            out.append(x if so_far is True else
                       ip.Choice(so_far, x, ip.MISSING))
        return ip.IterV(out)

    def itertools_accumulate(self, v, func=None, initial=None):
        from . import interp as ip
        it = self.I.iterate(v)
        if it is None:
            return self.I.unk('accumulate')
        it = ([initial] if initial is not None else []) + list(it)
        out = []
        for x in it:
            out.append(x if not out else (
                self.I.binop('add', out[-1], x) if func is None
                else self.I.call(func, [out[-1], x], {})))
        return ip.IterV(out)

    def operator_itemgetter(self, *ks):
        from . import interp as ip

        def f(I, a, k):
            r = tuple(I.getitem(a[0], q) for q in ks)
            return r[0] if len(r) == 1 else r
        return ip.Prim('itemgetter', f)

    def operator_attrgetter(self, *ks):
        from . import interp as ip

        def g(I, o, path):
            for p in path.split('.'):
                o = I.getattr(o, p)
            return o

        def f(I, a, k):
            r = tuple(g(I, a[0], q) for q in ks)
            return r[0] if len(r) == 1 else r
        return ip.Prim('attrgetter', f)

    def operator_methodcaller(self, name, *b, **kk):
        from . import interp as ip
        return ip.Prim('methodcaller', lambda I, a, k: I.call(
            I.getattr(a[0], name), list(b), dict(kk)))

    def _opr(op):
        def f(self, a, b):
            return self.I.binop(op, a, b)
        return f
    operator_sub, operator_truediv = _opr('sub'), _opr('truediv')
    operator_floordiv, operator_mod = _opr('floordiv'), _opr('mod')
    operator_pow, operator_concat = _opr('pow'), _opr('add')
    operator_and_, operator_or_ = _opr('and'), _opr('or')

    def operator_neg(self, a):
        return self.ew('neg', a) if not isinstance(a, (int, float)) else -a

    def operator_getitem(self, a, b):
        return self.I.getitem(a, b)

    def operator_not_(self, a):
        t = self.I.truth(a)
        return (not t) if isinstance(t, bool) else self.lnot(
            self.I.as_cond(t))

    def itertools_chain(self, *a):
        from . import interp as ip
        out = []
        for x in a:
            it = self.I.iterate(x)
            if it is None:
                return self.I.unk('chain')
            out += it
        return ip.IterV(out)

    def math_log(self, v, *a):
        return self.ew('log', v)

    def math_exp(self, v):
        return self.ew('exp', v)

    def math_sqrt(self, v):
        return self.ew('sqrt', v)

    def math_lgamma(self, v):
        return self.ew('lgamma', v)

    def operator_add(self, a, b):
        return self.I.binop('add', a, b)

    def operator_mul(self, a, b):
        return self.I.binop('mul', a, b)

    def six_moves_reduce(self, *a):
        return self.functools_reduce(*a)

    # --- numpy
    def _np1(op):
        def f(self, v, **k):
            return self.ew(op, v)
        return f
    np_log, np_exp, np_sqrt = _np1('log'), _np1('exp'), _np1('sqrt')
    np_square, np_abs, np_tanh = _np1('square'), _np1('abs'), _np1('tanh')
    np_log1p, np_sign = _np1('log1p'), _np1('sign')
    np_floor, np_ceil = _np1('floor'), _np1('ceil')

    def _np2(op):
        def f(self, a, b, **k):
            return self.ew(op, a, b)
        return f
    np_add, np_subtract = _np2('add'), _np2('sub')
    np_multiply, np_divide = _np2('mul'), _np2('div')
    np_power, np_maximum, np_minimum = _np2('pow'), _np2('max'), _np2('min')

    def _npr(op):
        def f(self, a, axis=None, keepdims=False, dtype=None):
            if isinstance(a, (int, float)):
                return a
            if not isinstance(a, Term):
                return self.I.unk('np reduction')
            if a.pytype in PYTYPES:
                return a
            return self.reduce(op, a, axis, keepdims)
        return f
    np_mean, np_sum = _npr('rmean'), _npr('rsum')
    np_max, np_min = _npr('rmax'), _npr('rmin')
    np_amax, np_amin = _npr('rmax'), _npr('rmin')
    np_var, np_std, np_prod = _npr('rvar'), _npr('rstd'), _npr('rprod')

    def np_finfo(self, d):
        from . import interp as ip
        if isinstance(d, DType):
            return ip.FInfo(d)
        return self.I.unk('finfo')

    tf_finfo = np_finfo

    def np_nextafter(self, a, b, **k):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            ds = [getattr(x, 'dt', None) for x in (a, b)]
            ds = [d for d in ds if d is not None] or [F64]
            if len(ds) == 1 and not NP2:
                ds = [F64]      # a Python float next to a numpy scalar
            d = max(ds, key=lambda d: d.size)
            return self.g.mk('cst', (), ('nextafter(%g,%g):%s' % (
                a, b, d.name),), (), None, 'float')
        return self.I.unk('nextafter')

    def np_squeeze(self, a, axis=None):
        if isinstance(a, Term) and a.shape is not None and \
                a.pytype not in PYTYPES:
            if all(d != 1 for d in a.shape) and axis is None:
                return a
            return self.tf_squeeze(a, axis)
        return a

    def np_array(self, v, dtype=None, **k):
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Term):
            return v
        return self.tensor(v, dtype)

    np_asarray = np_array

    def np_float32(self, v):
        return self.np_cast(F32, [v], {})

    def np_triu(self, *a, **k):
        return self.I.unk('np.triu')

    # ------------------------------------------------------------------ tf
    def tf_convert_to_tensor(self, value, dtype=None, name=None,
                             preferred_dtype=None, dtype_hint=None):
        return self.tensor(value, self.dt(dtype))

    def dt(self, d):
        from . import interp as ip
        if d is None or isinstance(d, DType):
            return d
        if isinstance(d, str) and d in DTYPES:
            return DTYPES[d]
        if isinstance(d, ip.Ext) and d.path in ('py.bool',):
            return BOOL
        if isinstance(d, ip.Ext) and d.path in ('py.int',):
            return I32
        if isinstance(d, ip.Ext) and d.path in ('py.float',):
            return F32
        return None

    def tf_as_dtype(self, d):
        r = self.dt(d)
        return r if r is not None else self.I.unk('as_dtype')

    def tf_constant(self, value, dtype=None, shape=None, name=None,
                    verify_shape=False):
        from . import interp as ip
        dtype = self.dt(dtype)
        if isinstance(value, Term) and value.pytype is None:
            self.I.throw('TypeError', 'constant of a tensor')
        t = self.tensor(value, dtype)
        if shape is not None:
            els = self.as_ivec(shape)
            if els is None:
                return self.unk('constant shape', None, dtype)
            if t.shape == ():
                return self.mk('fill', (t,), (), els, t.dtype)
            return self.tf_reshape(t, shape)
        return t

    def tf_identity(self, input, name=None):
        t = self.tensor(input)
        return self.mk('id', (t,), (), t.shape, t.dtype)

    def tf_stop_gradient(self, input, name=None):
        from . import interp as ip
        t = self.tens(input)
        if isinstance(t, ip.Unk):
            return t
        return self.mk('sg', (t,), (), t.shape, t.dtype)

    def tf_check_numerics(self, tensor, message=None, name=None):
        t = self.tensor(tensor)
        if t.dtype is not None and t.dtype.kind != 'f':
            self.I.throw('TypeError', 'check_numerics')
        return self.mk('chk', (t,), (), t.shape, t.dtype)

    def tf_cast(self, x, dtype, name=None):
        from . import interp as ip
        d = self.dt(dtype)
        if d is None:
            return self.I.unk('cast dtype')
        if isinstance(x, ip.Unk):
            return x
        t = self.tensor(x)
        if isinstance(x, (int, float)) and not isinstance(x, bool) and \
                d.kind in 'fiu':
            return self.const(float(x) if d.kind == 'f' and
                              isinstance(x, float) else x, d)
        return self.cast(t, d)

    def tf_to_float(self, x, name=None):
        return self.tf_cast(x, F32)

    def tf_to_double(self, x, name=None):
        return self.tf_cast(x, F64)

    def tf_to_int32(self, x, name=None):
        return self.tf_cast(x, I32)

    def tf_to_int64(self, x, name=None):
        return self.tf_cast(x, I64)

    def tf_saturate_cast(self, x, dtype, name=None):
        return self.tf_cast(x, dtype)

    def tf_Print(self, input_, data=None, message=None, first_n=None,
                 summarize=None, name=None):
        return self.tf_identity(input_)

    def tf_identity_n(self, input, name=None):
        from . import interp as ip
        it = self.I.iterate(input)
        if it is None:
            return self.I.unk('identity_n')
        return ip.ListV([self.tf_identity(x) for x in it])

    def tf_ensure_shape(self, x, shape, name=None):
        t = self.tf_identity(x)
        self.set_shape(t, shape)
        return t

    def tf_placeholder_with_default(self, input, shape=None, name=None):
        return self.tf_identity(input)

    def tf_norm(self, tensor, ord='euclidean', axis=None, keepdims=False,
                name=None, keep_dims=None):
        if ord not in ('euclidean', 2, 1):
            return self.unk('norm')
        t = self.tensor(tensor)
        kd = keepdims or bool(keep_dims)
        if ord == 1:
            return self.reduce('rsum', self.ew('abs', t), axis, kd)
        return self.ew('sqrt', self.reduce('rsum', self.ew('square', t),
                                           axis, kd))
    tf_linalg_norm = tf_norm

    def tf_nn_l2_loss(self, t, name=None):
        return self.ew('mul', self.reduce('rsum', self.ew(
            'square', self.tensor(t)), None), self.pyconst(0.5))

    def tf_nn_moments(self, x, axes, shift=None, name=None, keep_dims=None,
                      keepdims=False):
        t = self.tensor(x)
        kd = keepdims or bool(keep_dims)
        m = self.reduce('rmean', t, axes, True)
        v = self.reduce('rmean', self.ew('square', self.ew('sub', t, m)),
                        axes, kd)
        return (self.reduce('rmean', t, axes, kd), v)

    def tf_nn_bias_add(self, value, bias, data_format=None, name=None):
        return self.ew('add', *self.tens2(value, bias))

    def tf_nn_xw_plus_b(self, x, weights, biases, name=None):
        return self.ew('add', self.tf_matmul(x, weights),
                       self.tensor(biases))

    def tf_reciprocal_no_nan(self, x, name=None):
        return self.ew('recip', self.tensor(x))

    def tf_shape_n(self, input, out_type=None, name=None):
        from . import interp as ip
        it = self.I.iterate(input)
        if it is None:
            return self.I.unk('shape_n')
        return ip.ListV([self.tf_shape(x, out_type=out_type) for x in it])

    def tf_split(self, value, num_or_size_splits, axis=0, num=None,
                 name='split'):
        from . import interp as ip
        t = self.tensor(value)
        ax = self.as_int(axis)
        if t.shape is None or ax is None or any(
                isinstance(d, Seg) for d in t.shape):
            return self.I.unk('split')
        p = ax % len(t.shape)
        n = t.shape[p]
        k = self.as_int(num_or_size_splits)
        if k is not None:
            if not isinstance(n, int) or n % k:
                return self.I.unk('split')
            sizes = [n // k] * k
        else:
            sizes = self.as_ivec(num_or_size_splits)
            if sizes is None or not all(isinstance(x, int) and x >= 0
                                        for x in sizes):
                return self.I.unk('split')
        pre = (ip.SliceV(None, None, None),) * p
        out, at = [], 0
        for z in sizes:
            out.append(self.getitem(t, pre + (ip.SliceV(at, at + z, None),)))
            at += z
        return ip.ListV(out)

    def tf_einsum(self, equation, *inputs, **kw):
        ts = [self.tensor(x) for x in inputs]
        if not isinstance(equation, str) or '.' in equation or \
                '->' not in equation or any(
                    t.shape is None or any(isinstance(d, Seg)
                                           for d in t.shape) for t in ts):
            return self.unk('einsum', None, ts[0].dtype if ts else None)
        lhs, out = equation.replace(' ', '').split('->')
        subs = lhs.split(',')
        if len(subs) != len(ts) or any(
                len(u) != len(t.shape) or len(set(u)) != len(u)
                for u, t in zip(subs, ts)):
            return self.unk('einsum', None, ts[0].dtype)
        labels = list(out)
        for u in subs:
            labels += [c for c in u if c not in labels]
        acc = None
        for u, t in zip(subs, ts):
            order = [c for c in labels if c in u]
            perm = [u.index(c) for c in order]
            if perm != list(range(len(perm))):
                t = self.mk('transpose', (t,), tuple(perm),
                            [t.shape[i] for i in perm], t.dtype)
            for i, c in enumerate(labels):
                if c not in u:
                    t = self.expand(t, i)
            acc = t if acc is None else self.ew('mul', acc, t)
        extra = list(range(len(out), len(labels)))
        return self.reduce('rsum', acc, tuple(extra)) if extra else acc

    def tf_shape(self, input, name=None, out_type=None):
        from . import interp as ip
        if isinstance(input, ip.Unk):
            return input
        t = self.tensor(input)
        if t.shape is None:
            return self.unk('shape of unknown', None, I32)
        return self.ivec(t.shape, self.dt(out_type) or I32)

    def tf_rank(self, input, name=None):
        t = self.tensor(input)
        if t.shape is None:
            return self.unk('rank of unknown', (), I32)
        if any(isinstance(d, Seg) for d in t.shape):
            n = nf.num(0)
            for d in t.shape:
                n = n + (nf.A(('dim', 'rank' + d.name))
                         if isinstance(d, Seg) else nf.ONE)
            return self.mk('dim', (), (dim_of_nf(n),), (), I32)
        return self.const(len(t.shape), I32)

    def tf_size(self, input, name=None, out_type=None):
        t = self.tensor(input)
        if t.shape is None:
            return self.unk('size', (), I32)
        p = mk_prod(t.shape)
        if isinstance(p, int):
            return self.const(p, I32)
        return self.mk('dim', (), (p,), (), I32)

    def tf_dimension_value(self, d):
        from . import interp as ip
        if isinstance(d, ip.DimensionV):
            return self.dimval(d.d)
        return d

    def tf_TensorShape(self, dims):
        from . import interp as ip
        d = self.as_dims(dims)
        if d == 'bad':
            for x in (dims.items if isinstance(dims, ip.ListV) else
                      (dims if isinstance(dims, tuple) else ())):
                if isinstance(x, Term) and x.pytype is None:
                    self.I.throw('TypeError', 'Dimension from a tensor')
            self.I.unk('TensorShape')
            return ip.TShape(None)
        return ip.TShape(d)

    def tf_broadcast_static_shape(self, shape_x, shape_y):
        from . import interp as ip
        a, b = self.as_dims(shape_x), self.as_dims(shape_y)
        if a == 'bad' or b == 'bad':
            return self.I.unk('broadcast_static_shape')
        if a is None or b is None:
            return ip.TShape(None)
        out = []
        a, b = list(a), list(b)
        n = max(len(a), len(b))
        a = [1] * (n - len(a)) + a
        b = [1] * (n - len(b)) + b
        for x, y in zip(a, b):
            if x == 1 and isinstance(x, int):
                out.append(y)
            elif y == 1 and isinstance(y, int):
                out.append(x)
            elif x is None or y is None:
                out.append(y if x is None else x)
            elif x == y:
                out.append(x)
            else:
                self.I.throw('ValueError', 'Incompatible shapes for '
                             'broadcasting: %s and %s' % (a, b))
        return ip.TShape(out)

    def tf_broadcast_dynamic_shape(self, shape_x, shape_y):
        a, b = self.as_ivec(shape_x), self.as_ivec(shape_y)
        if a is None or b is None:
            return self.unk('broadcast_dynamic_shape', None, I32)
        try:
            r = bcast(a, b)
        except ShapeConflict as e:
            self.I.event('shape-conflict', str(e))
            return self.unk('broadcast_dynamic_shape', None, I32)
        if r is None:
            return self.unk('broadcast_dynamic_shape', None, I32)
        return self.ivec(r)

    def tf_broadcast_to(self, input, shape, name=None):
        t = self.tensor(input)
        els = self.as_ivec(shape)
        if els is None:
            return self.unk('broadcast_to', None, t.dtype)
        return self.mk('bto', (t,), (), els, t.dtype)

    # arithmetic with special signatures
    def tf_add(self, x, y, name=None):
        return self.ew('add', *self.tens2(x, y))

    def tf_divide(self, x, y, name=None):
        return self.ew('div', *self.tens2(x, y))

    tf_truediv = tf_divide

    def tf_floordiv(self, x, y, name=None):
        return self.ew('floordiv', *self.tens2(x, y))

    def tf_min_(self, x, y, name=None):
        return self.ew('min', *self.tens2(x, y))

    def tf_max_(self, x, y, name=None):
        return self.ew('max', *self.tens2(x, y))

    def tf_logical_and(self, x, y, name=None):
        return self.ew('and', *self.tens2(x, y))

    def tf_logical_or(self, x, y, name=None):
        return self.ew('or', *self.tens2(x, y))

    def tf_logical_xor(self, x, y, name=None):
        return self.ew('xor', *self.tens2(x, y))

    def tf_logical_not(self, x, name=None):
        return self.ew('not', self.tens(x))

    def tf_isfin(self, x, name=None):
        return self.ew('isfin', self.tens(x))

    def tf_isnan_(self, x, name=None):
        return self.ew('isnan', self.tens(x))

    def tf_isinf_(self, x, name=None):
        return self.ew('isinf', self.tens(x))

    def tf_clip_by_value(self, t, clip_value_min, clip_value_max,
                         name=None):
        return self.ew('min', self.ew('max', self.tens(t), clip_value_min),
                       clip_value_max)

    def tf_clip_by_norm(self, t, clip_norm, axes=None, name=None):
        t = self.tens(t)
        n = self.call('tf.sqrt', [self.call('tf.reduce_sum', [
            self.ew('mul', t, t), axes], {'keepdims': True})], {})
        return self.ew('div', self.ew('mul', t, clip_norm),
                       self.ew('max', n, clip_norm))

    def tf_clip_by_global_norm(self, t_list, clip_norm, use_norm=None,
                               name=None):
        from . import interp as ip
        it = self.I.iterate(t_list)
        if not it or any(x is None for x in it):
            return self.unk('clip_by_global_norm')
        n = use_norm
        if n is None:
            n = self.call('tf.sqrt', [self.call('tf.add_n', [ip.ListV([
                self.call('tf.reduce_sum', [self.ew(
                    'mul', self.tens(x), self.tens(x))], {})
                for x in it])], {})], {})
        d = self.ew('max', n, clip_norm)
        return ip.ListV([self.ew('div', self.ew('mul', self.tens(x),
                                                clip_norm), d)
                         for x in it]), n

    def tf_add_n(self, inputs, name=None):
        it = self.I.iterate(inputs)
        if it is None:
            return self.unk('add_n')
        if not it:
            self.I.throw('ValueError', 'add_n of nothing')
        acc = self.tens(it[0])
        for x in it[1:]:
            acc = self.ew('add', acc, self.tens(x))
        return acc

    def tf_accumulate_n(self, inputs, **k):
        return self.tf_add_n(inputs)

    def tf_where(self, condition, x=None, y=None, name=None):
        if x is None or y is None:
            return self.unk('tf.where(cond)')
        c = self.tens(condition)
        a, b = self.tens2(x, y)
        from . import interp as ip
        if any(isinstance(v, ip.Unk) for v in (c, a, b)):
            return self.I.unk('where')
        a, b = self.tens(a), self.tens(b)
        if a.dtype is not b.dtype and a.dtype and b.dtype:
            if not (isinstance(x, Term) and x.pytype is None):
                a = self.tensor(x, b.dtype)
            elif not (isinstance(y, Term) and y.pytype is None):
                b = self.tensor(y, a.dtype)
            else:
                self.I.throw('TypeError', 'where dtype mismatch')
        # TF1 select: x and y have the same shape; cond the same shape, a
        # scalar, or a vector matching the first axis
        if a.shape is not None and b.shape is not None and \
                a.shape != b.shape:
            self.I.event('select-shape', 'tf.where branches %s vs %s' %
                         (a.shape, b.shape))
            return self.unk('where shapes', None, a.dtype)
        if c.shape is not None and a.shape is not None and \
                c.shape != a.shape and c.shape != ():
            if len(c.shape) == 1 and a.shape and c.shape[0] == a.shape[0]:
                for _ in range(len(a.shape) - 1):
                    c = self.expand(c, len(c.shape))
            else:
                self.I.event('select-shape', 'tf.where condition %s vs %s' %
                             (c.shape, a.shape))
                return self.unk('where cond shape', None, a.dtype)
        return self.ew('sel', c, a, b)

    def tf_where2(self, condition, x=None, y=None, name=None):
        if x is None or y is None:
            return self.unk('tf.where(cond)')
        return self.ew('sel', self.tens(condition), *self.tens2(x, y))

    def tf_softmax(self, logits, axis=None, name=None, dim=None):
        t = self.tensor(logits)
        ax = -1 if axis is None and dim is None else (
            axis if axis is not None else dim)
        e = self.ew('exp', t)
        return self.ew('div', e, self.reduce('rsum', e, ax, True))

    def tf_log_softmax(self, logits, axis=None, name=None, dim=None):
        t = self.tensor(logits)
        ax = -1 if axis is None and dim is None else (
            axis if axis is not None else dim)
        return self.ew('sub', t, self.reduce('rlse', t, ax, True))

    def tf_nn_sigmoid_cross_entropy_with_logits(self, _sentinel=None,
                                                labels=None, logits=None,
                                                name=None):
        z, x = self.tensor(labels), self.tensor(logits)
        if z.shape is not None and x.shape is not None and \
                z.shape != x.shape:
            if self.static(z).dims is not None and \
                    self.static(x).dims is not None:
                self.I.throw('ValueError', 'logits and labels must have the '
                             'same shape')
            self.I.event('shape-conflict', 'sigmoid_cross_entropy %s vs %s'
                         % (z.shape, x.shape))
        # x - x z + log(1 + exp(-x))
        return self.ew('add', self.ew('sub', x, self.ew('mul', x, z)),
                       self.ew('softplus', self.ew('neg', x)))

    def tf_nn_softmax_cross_entropy_with_logits(self, _sentinel=None,
                                                labels=None, logits=None,
                                                dim=-1, name=None,
                                                axis=None):
        z, x = self.tensor(labels), self.tensor(logits)
        if z.shape is not None and x.shape is not None and \
                z.shape != x.shape:
            self.I.event('shape-conflict', 'softmax_cross_entropy %s vs %s'
                         % (z.shape, x.shape))
        lse = self.reduce('rlse', x, -1, True)
        return self.ew('neg', self.reduce(
            'rsum', self.ew('mul', z, self.ew('sub', x, lse)), -1, False))

    tf_nn_softmax_cross_entropy_with_logits_v2 = \
        tf_nn_softmax_cross_entropy_with_logits

    def tf_nn_sparse_softmax_cross_entropy_with_logits(
            self, _sentinel=None, labels=None, logits=None, name=None):
        z, x = self.tensor(labels), self.tensor(logits)
        if x.shape is None or z.shape is None:
            return self.unk('sparse ce', None, x.dtype)
        if z.dtype is not None and z.dtype not in (I32, I64):
            self.I.throw('TypeError', 'labels dtype %s' % z.dtype)
        if z.shape != x.shape[:-1]:
            if self.static(z).dims is not None and \
                    self.static(x).dims is not None:
                self.I.throw('ValueError', 'labels/logits shape mismatch')
            self.I.event('shape-conflict', 'sparse ce %s vs %s' %
                         (z.shape, x.shape))
        lse = self.reduce('rlse', x, -1, False)
        oh = self.mk('onehot', (z,), (x.shape[-1],),
                     z.shape + (x.shape[-1],), x.dtype)
        pick = self.reduce('rsum', self.ew('mul', oh, x), -1, False)
        return self.ew('sub', lse, pick)

    def tf_lbeta(self, x, name=None):
        t = self.tensor(x)
        return self.ew('sub', self.reduce('rsum', self.ew('lgamma', t), -1,
                                          False),
                       self.ew('lgamma', self.reduce('rsum', t, -1, False)))

    # reductions
    def axes_of(self, axis, shape):
        """('all'|tuple of positions|('last', term)|None)"""
        from . import interp as ip
        if axis is None:
            return tuple(range(len(shape)))
        if isinstance(axis, Term) and axis.op == 'range' and \
                axis.attrs and axis.attrs[0] == 'trailing':
            return ('last', axis.args[0])
        els = self.as_ivec(axis) if not isinstance(axis, bool) else None
        if els is None:
            return None
        out = []
        hasseg = any(isinstance(d, Seg) for d in shape)
        n = len(shape)
        for e in els:
            if isinstance(e, DExpr):
                e = nf.num_val(e.p)
                e = int(e) if e is not None else None
            if not isinstance(e, int):
                return None
            if hasseg:
                # positions relative to an opaque run
                seg = [i for i, d in enumerate(shape)
                       if isinstance(d, Seg)]
                if e < 0:
                    if n + e <= seg[-1]:
                        return None
                    out.append(n + e)
                else:
                    if e >= seg[0]:
                        return None
                    out.append(e)
                continue
            if e < -n or e >= n:
                self.I.throw('ValueError', 'Invalid reduction dimension %d '
                             'for rank %d' % (e, n))
            out.append(e % n)
        return tuple(sorted(set(out)))

    def reduce(self, op, t, axis, keepdims=False):
        from . import interp as ip
        if isinstance(t, ip.Unk):
            return t
        if isinstance(axis, ip.Unk):
            return self.unk('reduction axis', None, t.dtype)
        keep = bool(keepdims) if not isinstance(keepdims, Term) else None
        if keep is None:
            return self.unk('keepdims', None, t.dtype)
        if t.shape is None:
            return self.unk('reduce of unknown shape', None, t.dtype)
        if op in ('rall', 'rany') and t.dtype is not None and \
                t.dtype.kind != 'b':
            self.I.throw('TypeError', op)
        ax = self.axes_of(axis, t.shape)
        if ax is None:
            return self.unk('reduction axes', None, t.dtype)
        if ax and ax[0] == 'last':
            return self.mk(op, (t, ax[1]), ('last', keep), None, t.dtype)
        sh = []
        for j, d in enumerate(t.shape):
            if j in ax:
                if keep:
                    if isinstance(d, Seg):
                        return self.unk('keepdims over run', None, t.dtype)
                    sh.append(1)
            else:
                sh.append(d)
        if t.op == 'ivec' and op in ('rall', 'rany') and ax == (0,) and \
                all(isinstance(e, bool) for e in t.attrs):
            return self.const((all if op == 'rall' else any)(t.attrs), BOOL)
        if t.op == 'ivec' and op == 'rprod' and ax == (0,):
            p = mk_prod(t.attrs)
            if isinstance(p, int):
                return self.const(p, t.dtype)
            return self.mk('dim', (), (p,), (), t.dtype)
        if not ax:
            if op in ('rlse', 'rsum', 'rmean', 'rmax', 'rmin', 'rprod',
                      'rall', 'rany'):
                return self.mk('id', (t,), (), t.shape, t.dtype) \
                    if t.pytype is None else t
        return self.mk(op, (t,), (ax, keep), sh, t.dtype,
                       t.pytype if t.pytype == 'np' else None)

    def _red(op):
        def f(self, input_tensor, axis=None, keepdims=None, name=None,
              reduction_indices=None, keep_dims=None):
            from . import interp as ip
            if isinstance(input_tensor, ip.Unk):
                return input_tensor
            return self.reduce(op, self.tensor(input_tensor),
                               axis if axis is not None
                               else reduction_indices,
                               keepdims if keepdims is not None
                               else (keep_dims or False))
        return f
    tf_reduce_sum, tf_reduce_mean = _red('rsum'), _red('rmean')
    tf_reduce_max, tf_reduce_min = _red('rmax'), _red('rmin')
    tf_reduce_prod, tf_reduce_logsumexp = _red('rprod'), _red('rlse')
    tf_reduce_all, tf_reduce_any = _red('rall'), _red('rany')
    tf_reduce_std, tf_reduce_variance = _red('rstd'), _red('rvar')

    # structure
    def tf_reshape(self, tensor, shape, name=None):
        t = self.tensor(tensor)
        els = self.as_ivec(shape)
        if els is None or t.shape is None:
            return self.unk('reshape', None, t.dtype)
        if -1 in [e for e in els if isinstance(e, int)]:
            i = [j for j, e in enumerate(els)
                 if isinstance(e, int) and e == -1][0]
            src = []
            for d in t.shape:
                src += _factors(d)
            pre = []
            for e in els[:i]:
                pre += _factors(e)
            post = []
            for e in els[i + 1:]:
                post += _factors(e)
            rem = list(src)
            ok = True
            # remove leading factors from the left, trailing from the right
            for f in pre:
                if rem and rem[0] == f:
                    rem.pop(0)
                elif f in rem:
                    rem.remove(f)
                else:
                    ok = False
            for f in reversed(post):
                if rem and rem[-1] == f:
                    rem.pop()
                elif f in rem:
                    rem.reverse()
                    rem.remove(f)
                    rem.reverse()
                else:
                    ok = False
            if not ok:
                self.I.event('reshape', '%s to %s' % (t.shape, els))
                return self.unk('reshape -1', None, t.dtype)
            els = list(els)
            els[i] = mk_prod(rem)
        els = [e for e in els]
        if any(isinstance(e, tuple) for e in els):
            els = self.squash_ones(els)
        fa = sorted(repr(f) for d in t.shape for f in _factors(d))
        fb = sorted(repr(f) for d in els for f in _factors(d))
        if fa != fb:
            if all(isinstance(d, int) for d in t.shape) and \
                    all(isinstance(d, int) for d in els):
                import math
                if math.prod(t.shape) == math.prod(els):
                    return self.unk('int reshape', tuple(els), t.dtype)
            self.I.event('reshape', '%s to %s' % (t.shape, els))
            return self.unk('reshape mismatch', tuple(els), t.dtype)
        return self.mk('reshape', (t,), (), els, t.dtype)

    def squash_ones(self, els):
        return els

    def tf_expand_dims(self, input, axis=None, name=None, dim=None):
        t = self.tensor(input)
        ax = self.as_int(axis if axis is not None else dim)
        if ax is None or t.shape is None:
            return self.unk('expand_dims', None, t.dtype)
        n = len(t.shape)
        if any(isinstance(d, Seg) for d in t.shape):
            seg = [i for i, d in enumerate(t.shape) if isinstance(d, Seg)]
            if ax < 0:
                p = n + 1 + ax
                if p <= seg[-1]:
                    return self.unk('expand_dims', None, t.dtype)
            else:
                p = ax
                if p > seg[0]:
                    return self.unk('expand_dims', None, t.dtype)
        else:
            if ax < -n - 1 or ax > n:
                self.I.throw('ValueError', 'expand_dims axis')
            p = ax if ax >= 0 else n + 1 + ax
        return self.expand(t, p)

    def expand(self, t, p):
        sh = t.shape[:p] + (1,) + t.shape[p:]
        return self.mk('expand', (t,), (p,), sh, t.dtype, t.pytype)

    def tf_squeeze(self, input, axis=None, name=None, squeeze_dims=None):
        t = self.tensor(input)
        if axis is None:
            axis = squeeze_dims
        if t.shape is None:
            return self.unk('squeeze', None, t.dtype)
        if axis is None:
            if any(isinstance(d, Seg) for d in t.shape):
                return self.unk('squeeze', None, t.dtype)
            ax = tuple(j for j, d in enumerate(t.shape) if d == 1)
            if any(not isinstance(d, int) for d in t.shape):
                self.I.event('squeeze-all', 'squeeze without axis on %s: '
                             'drops any axis that happens to have size 1' %
                             (t.shape,))
        else:
            for x in (axis.items if hasattr(axis, 'items') else
                      axis if isinstance(axis, tuple) else (axis,)):
                if isinstance(x, Term) and x.pytype is None:
                    self.I.throw('TypeError', "Expected list for 'axis' "
                                 "argument to 'squeeze', not a tensor")
            ax = self.axes_of(axis, t.shape)
            if ax is None:
                return self.unk('squeeze', None, t.dtype)
        for j in ax:
            if t.shape[j] != 1:
                self.I.throw('ValueError', 'squeeze of axis of size %r' %
                             (t.shape[j],))
        sh = [d for j, d in enumerate(t.shape) if j not in ax]
        return self.mk('squeeze', (t,), tuple(ax), sh, t.dtype)

    def tf_transpose(self, a, perm=None, name=None, conjugate=False):
        t = self.tensor(a)
        if t.shape is None:
            return self.unk('transpose', None, t.dtype)
        if perm is None:
            if any(isinstance(d, Seg) for d in t.shape):
                return self.unk('transpose', None, t.dtype)
            p = tuple(reversed(range(len(t.shape))))
        else:
            els = self.as_ivec(perm)
            if els is None or sorted(map(repr, els)) != \
                    sorted(map(repr, range(len(t.shape)))):
                return self.unk('transpose perm', None, t.dtype)
            p = tuple(els)
        return self.mk('transpose', (t,), p, [t.shape[i] for i in p],
                       t.dtype, t.pytype)

    def tf_matrix_transpose(self, a, name=None, conjugate=False):
        t = self.tensor(a)
        if t.shape is None or len(t.shape) < 2 or any(
                isinstance(d, Seg) for d in t.shape[-2:]):
            return self.unk('matrix_transpose', None, t.dtype)
        n = len(t.shape)
        p = tuple(range(n - 2)) + (n - 1, n - 2)
        return self.mk('transpose', (t,), p, [t.shape[i] for i in p],
                       t.dtype)

    def tf_tile(self, input, multiples, name=None):
        t = self.tensor(input)
        m = self.as_ivec(multiples)
        if m is None or t.shape is None:
            return self.unk('tile', None, t.dtype)
        if len(m) != len(t.shape):
            return self.unk('tile rank', None, t.dtype)
        m = self.align_ones(m, t.shape)
        sh = []
        for d, k in zip(t.shape, m):
            if isinstance(d, Seg):
                if k == ('one', d):
                    sh.append(d)
                    continue
                return self.unk('tile run', None, t.dtype)
            if isinstance(k, tuple):
                return self.unk('tile run', None, t.dtype)
            if isinstance(k, int) and k == 1:
                sh.append(d)
            elif isinstance(d, int) and d == 1:
                sh.append(k)
            else:
                return self.unk('tile of non-unit axis',
                                None, t.dtype)
        return self.mk('tile', (t,), (), sh, t.dtype)

    @staticmethod
    def align_ones(m, shape):
        """Entries inside a stretch of ones are interchangeable: line runs
        of ones up with the runs of axes they multiply."""
        m = list(m)
        for i, d in enumerate(shape):
            if isinstance(d, Seg) and m[i] != ('one', d) and m[i] == 1:
                j = i
                while j + 1 < len(m) and (m[j] == 1 or
                                          isinstance(m[j], tuple)):
                    j += 1
                    if m[j] == ('one', d):
                        m.insert(i, m.pop(j))
                        break
            elif isinstance(m[i], tuple) and m[i] != ('one', d):
                for j in range(i + 1, len(m)):
                    if m[j] == 1:
                        m.insert(i, m.pop(j))
                        break
                    if not isinstance(m[j], tuple):
                        break
        return m

    def tf_concat(self, values, axis, name=None):
        it = self.I.iterate(values)
        if it is None:
            return self.unk('concat')
        ax = self.as_int(axis)
        ivs = [self.as_ivec(x) for x in it]
        one_d = ax in (0, -1) and all(v is not None for v in ivs)
        if one_d:
            bad = False
            dt = None
            for x in it:
                if isinstance(x, Term):
                    if x.shape == ():
                        bad = True
                    if x.pytype is None:
                        dt = dt or x.dtype
                elif isinstance(x, int):
                    bad = True
            if not bad:
                return self.ivec([e for v in ivs for e in v], dt or I32)
        ts = []
        dt = None
        for x in it:
            if isinstance(x, Term) and x.pytype is None:
                dt = dt or x.dtype
        for x in it:
            ts.append(self.tensor(x, dt if not (isinstance(x, Term) and
                                                x.pytype is None) else None))
        if len(ts) == 1:
            return ts[0]
        self.result_dtype(ts, 'concat')
        if ax is None or any(t.shape is None for t in ts):
            return self.unk('concat', None, ts[0].dtype)
        n = len(ts[0].shape)
        if any(len(t.shape) != n for t in ts):
            return self.unk('concat ranks', None, ts[0].dtype)
        if any(isinstance(d, Seg) for t in ts for d in t.shape):
            if ax >= 0:
                return self.unk('concat run', None, ts[0].dtype)
        p = ax % n if n else 0
        tot = nf.num(0)
        for t in ts:
            tot = tot + nf.dim_nf(t.shape[p])
        sh = list(ts[0].shape)
        sh[p] = dim_of_nf(tot)
        return self.mk('concat', ts, (p,), sh, ts[0].dtype)

    def tf_stack(self, values, axis=0, name=None):
        it = self.I.iterate(values) if not isinstance(values, list) \
            else values
        if it is None:
            return self.unk('stack')
        ax = self.as_int(axis)
        if it and all(self.int_like(x) for x in it) and ax in (0, -1):
            els = [self.dim_el(x) for x in it]
            if all(e is not None for e in els):
                dt = None
                for x in it:
                    if isinstance(x, Term) and x.pytype is None:
                        dt = x.dtype
                return self.ivec(els, dt or I32)
        ts = [self.tensor(x) for x in it]
        dt = self.result_dtype(ts, 'stack')
        sh = ts[0].shape
        if ax is None or any(t.shape is None for t in ts):
            return self.unk('stack', None, dt)
        for t in ts[1:]:
            if t.shape != sh:
                self.I.event('shape-conflict', 'stack %s %s' %
                             (sh, t.shape))
                return self.unk('stack', None, dt)
        p = ax if ax >= 0 else len(sh) + 1 + ax
        return self.mk('pack', ts, (p,),
                       sh[:p] + (len(ts),) + sh[p:], dt)

    def tf_unstack(self, value, num=None, axis=0, name='unstack'):
        from . import interp as ip
        t = self.tensor(value)
        ax = self.as_int(axis)
        if t.shape is None or ax is None:
            return self.I.unk('unstack')
        n = t.shape[ax % len(t.shape)]
        if not isinstance(n, int):
            return self.I.unk('unstack')
        p = ax % len(t.shape)
        k = [ip.SliceV(None, None, None)] * p
        return ip.ListV([self.getitem(t, tuple(k) + (i,))
                         for i in range(n)])

    def tf_reverse(self, tensor, axis, name=None):
        t = self.tensor(tensor)
        if t.shape is None:
            return self.unk('reverse', None, t.dtype)
        ax = self.axes_of(axis, t.shape)
        if ax is None:
            return self.unk('reverse', None, t.dtype)
        return self.mk('reverse', (t,), ax, t.shape, t.dtype)

    tf_reverse_v2 = tf_reverse

    def tf_one_hot(self, indices, depth, on_value=None, off_value=None,
                   axis=None, dtype=None, name=None):
        d = self.dt(dtype) or F32
        t = self.tensor(indices)
        k = self.dim_el(depth) if self.int_like(depth) or isinstance(
            depth, Term) else None
        if k is None or on_value is not None or off_value is not None or \
                axis not in (None, -1):
            return self.unk('one_hot', None, d)
        if t.op == 'const' and isinstance(k, int) and t.shape == ():
            v = t.attrs[0]
            return self.ivec([1 if j == v else 0 for j in range(k)], d)
        if t.shape is None:
            return self.unk('one_hot', None, d)
        return self.mk('onehot', (t,), (k,), t.shape + (k,), d)

    def tf_range(self, start, limit=None, delta=1, dtype=None,
                 name='range'):
        if limit is None:
            start, limit = 0, start
        a, b, c = [self.as_int(x) for x in (start, limit, delta)]
        if None not in (a, b, c):
            return self.ivec(list(range(a, b, c)), self.dt(dtype) or I32)
        if b == 0 and c == 1:
            s = self.num_term(start)
            if s is not None:
                g = self.ew('neg', s)
                return self.mk('range', (g,), ('trailing',), None, I32)
        if a == 0 and c == 1:
            k = self.dim_el(limit)
            if k is not None:
                return self.mk('range', (self.pyconst(0),), ('to', k), (k,),
                               I32)
        return self.unk('range', None, I32)

    def _filled(v):
        def f(self, shape, dtype=None, name=None):
            d = self.dt(dtype) or F32
            els = self.as_ivec(shape)
            if els is None:
                return self.unk('fill shape', None, d)
            if d.kind in 'iu' and len(els) == 1 and \
                    isinstance(els[0], int) and els[0] < 64:
                return self.ivec([v] * els[0], d)
            if v == 1 and d.kind in 'iu' and len(els) == 1:
                run = self.rank_run(els[0])
                if run is not None:
                    return self.ivec(run, d)
            if d.kind == 'b':
                c = self.g.mk('const', (), (bool(v),), (), None, 'bool')
            else:
                c = self.pyconst(v)
            return self.mk('fill', (c,), (), els, d)
        return f
    tf_zeros, tf_ones = _filled(0), _filled(1)

    def tf_fill(self, dims, value, name=None):
        els = self.as_ivec(dims)
        t = self.tensor(value)
        if els is None:
            return self.unk('fill', None, t.dtype)
        if len(els) == 1 and t.op == 'const' and (
                t.pytype == 'int' or t.dtype and t.dtype.kind in 'iu'):
            v = t.attrs[0]
            if isinstance(els[0], int) and els[0] < 64:
                return self.ivec([v] * els[0], t.dtype or I32)
            run = self.rank_run(els[0]) if v == 1 else None
            if run is not None:
                return self.ivec(run, t.dtype or I32)
        return self.mk('fill', (t,), (), els, t.dtype)

    @staticmethod
    def rank_run(e):
        """A vector of ones whose length is a rank: one entry per axis."""
        p = nf.dim_nf(e) if not isinstance(e, DExpr) else e.p
        out, k = [], 0
        for m, c in p.t.items():
            if c.denominator != 1 or c < 0:
                return None
            if not m:
                k = int(c)
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            key = nf.akey(m[0][0])
            if key[0] != 'dim' or not key[1].startswith('rank'):
                return None
            out += [('one', Seg(key[1][4:]))] * int(c)
        return out + [1] * k if out else None

    def _like(v):
        def f(self, tensor, dtype=None, name=None, optimize=True):
            from . import interp as ip
            if isinstance(tensor, ip.Unk):
                return tensor
            t = self.tensor(tensor)
            d = self.dt(dtype) or t.dtype
            if t.op == 'ivec' and (d is None or d.kind in 'iu'):
                out = []
                for e in t.attrs:
                    if isinstance(e, Seg):
                        if v != 1:
                            return self.unk('zeros_like run', t.shape, d)
                        out.append(('one', e))
                    elif isinstance(e, tuple):
                        out.append(e)
                    else:
                        out.append(v)
                return self.ivec(out, d)
            if d is not None and d.kind == 'b':
                c = self.g.mk('const', (), (bool(v),), (), None, 'bool')
            else:
                c = self.pyconst(v)
            if t.shape is None:
                return self.unk('like', None, d)
            return self.mk('fill', (c,), (), t.shape, d)
        return f
    tf_zeros_like, tf_ones_like = _like(0), _like(1)

    def tf_matmul(self, a, b, transpose_a=False, transpose_b=False,
                  adjoint_a=False, adjoint_b=False, name=None, **k):
        x, y = self.tensor(a), self.tensor(b)
        dt = self.result_dtype([x, y], 'matmul')
        ta, tb = bool(transpose_a or adjoint_a), bool(transpose_b or
                                                      adjoint_b)
        if x.shape is None or y.shape is None or len(x.shape) < 2 or \
                len(y.shape) < 2:
            if x.shape is not None and y.shape is not None:
                self.I.throw('ValueError', 'matmul rank')
            return self.unk('matmul', None, dt)
        if any(isinstance(d, Seg) for d in x.shape[-2:] + y.shape[-2:]):
            return self.unk('matmul', None, dt)
        i, k1 = (x.shape[-1], x.shape[-2]) if ta else x.shape[-2:]
        k2, j = (y.shape[-1], y.shape[-2]) if tb else y.shape[-2:]
        if k1 != k2:
            self.I.throw('ValueError', 'matmul dims %s vs %s' % (k1, k2))
        try:
            bs = bcast(x.shape[:-2], y.shape[:-2])
        except ShapeConflict:
            self.I.throw('ValueError', 'matmul batch dims')
        if bs is None:
            return self.unk('matmul', None, dt)
        return self.mk('matmul', (x, y), (ta, tb), bs + (i, j), dt)

    def tf_matrix_diag_part(self, input, name=None, **k):
        t = self.tensor(input)
        if t.shape is None or len(t.shape) < 2 or \
                t.shape[-1] != t.shape[-2]:
            return self.unk('diag_part', None, t.dtype)
        return self.mk('diagpart', (t,), (), t.shape[:-1], t.dtype)

    def tf_matrix_diag(self, diagonal, name=None, **k):
        t = self.tensor(diagonal)
        if t.shape is None or not t.shape or isinstance(t.shape[-1], Seg):
            return self.unk('diag', None, t.dtype)
        return self.mk('diag', (t,), (), t.shape + t.shape[-1:], t.dtype)

    def tf_eye(self, num_rows, num_columns=None, batch_shape=None,
               dtype=None, name=None):
        if num_columns is not None or batch_shape is not None:
            return self.unk('eye', None, self.dt(dtype) or F32)
        return self.call('tf.one_hot', [
            self.call('tf.range', [num_rows], {}), num_rows],
            {'dtype': dtype or F32})

    def tf_matrix_set_diag(self, input, diagonal, name=None, **k):
        x, d = self.tensor(input), self.tensor(diagonal)
        if x.shape is None or d.shape is None or len(x.shape) < 2 or \
                any(isinstance(v, Seg) for v in x.shape[-2:]) or \
                x.shape[-1] != x.shape[-2] or d.shape != x.shape[:-1]:
            return self.unk('set_diag', x.shape, x.dtype)
        on = self.call('tf.cast', [
            self.call('tf.eye', [self.dimval(x.shape[-1])], {}), BOOL], {})
        on = self.call('tf.logical_and', [on, self.call(
            'tf.ones_like', [x], {'dtype': BOOL})], {})
        return self.call('tf.where', [on, self.tf_matrix_diag(d), x], {})

    def tf_matrix_triangular_solve(self, matrix, rhs, lower=True,
                                   adjoint=False, name=None):
        m, r = self.tensor(matrix), self.tensor(rhs)
        dt = self.result_dtype([m, r], 'triangular_solve')
        if m.shape is None or r.shape is None or len(m.shape) < 2 or \
                len(r.shape) < 2:
            return self.unk('trisolve', None, dt)
        if m.shape[-1] != r.shape[-2]:
            self.I.throw('ValueError', 'trisolve dims')
        try:
            bs = bcast(m.shape[:-2], r.shape[:-2])
        except ShapeConflict:
            self.I.throw('ValueError', 'trisolve batch')
        if bs is None:
            return self.unk('trisolve', None, dt)
        return self.mk('trisolve', (m, r), (bool(lower), bool(adjoint)),
                       bs + r.shape[-2:], dt)

    def tf_gather(self, params, indices, axis=0, name=None, **k):
        i = self.as_int(indices)
        t = self.tensor(params)
        ax = self.as_int(axis)
        if i is None or ax is None or t.shape is None:
            return self.unk('gather', None, t.dtype)
        from . import interp as ip
        return self.getitem(t, (ip.SliceV(None, None, None),) *
                            (ax % len(t.shape)) + (i,))

    # indexing
    def getitem(self, t, k):
        from . import interp as ip
        I = self.I
        if t.pytype is not None and t.pytype != 'np':
            I.throw('TypeError', 'scalar is not subscriptable')
        if t.op in ('assertop', 'group'):
            return I.unk('op index')
        ks = list(k) if isinstance(k, tuple) else [k]
        if t.shape is None:
            return self.unk('index unknown shape', None, t.dtype)
        if t.op in ('id', 'convert') and t.args[0].op == 'ivec':
            base = t.args[0]
        else:
            base = t
        if base.op == 'ivec' and len(ks) == 1:
            els = list(base.attrs)
            kk = ks[0]
            segs = [i for i, e in enumerate(els)
                    if isinstance(e, (Seg, tuple))]

            def pos(i):
                if i is None:
                    return None
                i = self.as_int(i)
                if i is None:
                    raise nf.Undecidable('index')
                if segs:
                    if i < 0 and len(els) + i > segs[-1]:
                        return len(els) + i
                    if 0 <= i <= segs[0]:
                        return i
                    raise nf.Undecidable('index into run')
                return i
            try:
                if isinstance(kk, ip.SliceV):
                    a, b = pos(kk.a), pos(kk.b)
                    c = kk.c
                    if c not in (None, 1):
                        if not segs and isinstance(c, int):
                            return self.ivec(els[slice(a, b, c)], t.dtype)
                        raise nf.Undecidable('step')
                    if a is not None and segs and a > segs[0] and \
                            kk.a is not None and self.as_int(kk.a) >= 0:
                        raise nf.Undecidable('slice')
                    return self.ivec(els[a:b], t.dtype)
                i = pos(kk)
                e = els[i]
                if isinstance(e, (Seg, tuple)):
                    raise nf.Undecidable('index into run')
                if isinstance(e, (int, bool)):
                    return self.const(e, t.dtype)
                return self.mk('dim', (), (e,), (), t.dtype)
            except nf.Undecidable:
                return self.unk('shape vector index', None, t.dtype)
            except IndexError:
                I.throw('ValueError', 'slice index out of bounds')
        n = len(t.shape)
        nreal = sum(1 for x in ks if x is not None and x is not Ellipsis)
        hasseg = any(isinstance(d, Seg) for d in t.shape)
        if any(x is Ellipsis for x in ks):
            j = [i for i, x in enumerate(ks) if x is Ellipsis][0]
            fill = n - nreal
            ks = ks[:j] + [ip.SliceV(None, None, None)] * fill + ks[j + 1:]
        elif hasseg and nreal:
            # leading positions only, before the run
            seg = [i for i, d in enumerate(t.shape)
                   if isinstance(d, Seg)][0]
            if nreal > seg:
                return self.unk('index into run', None, t.dtype)
        if nreal > n:
            I.throw('ValueError', 'too many indices')
        specs = []
        sh = []
        news = []
        ax = 0
        for x in ks:
            if x is None:
                news.append(len(sh))
                sh.append(1)
                continue
            d = t.shape[ax]
            ax += 1
            if isinstance(x, ip.SliceV):
                if x.a is None and x.b is None and x.c is None:
                    specs.append(('full',))
                    sh.append(d)
                    continue
                if x.c == -1 and x.a is None and x.b is None and \
                        nreal == 1 and not news:
                    return self.mk('reverse', (t,), (ax - 1,), t.shape,
                                   t.dtype, t.pytype)
                if x.c not in (None, 1):
                    return self.unk('strided slice', None, t.dtype)
                a = x.a
                try:
                    an = nf.num(0) if a is None else I.E.scalar(
                        self.num_term(a))
                    dn = nf.dim_nf(d)
                    if nf.num_val(an) is not None and nf.num_val(an) < 0:
                        an = dn + an
                    bn = dn if x.b is None else I.E.scalar(
                        self.num_term(x.b))
                    if nf.num_val(bn) is not None and nf.num_val(bn) < 0:
                        bn = dn + bn
                except (nf.Undecidable, AttributeError, TypeError):
                    return self.unk('slice', None, t.dtype)
                if isinstance(d, int):
                    av, bv = nf.num_val(an), nf.num_val(bn)
                    if av is not None and bv is not None:
                        bn = nf.num(max(min(bv, d), av))
                ln = dim_of_nf(bn - an)
                av = nf.num_val(an)
                st = int(av) if av is not None else \
                    self.g.mk('dim', (), (dim_of_nf(an),), (), None, 'int')
                specs.append(('from', st, ln))
                sh.append(ln)
                continue
            i = self.as_int(x)
            if i is None:
                if isinstance(x, Term):
                    specs.append(('int', x))
                    continue
                return self.unk('index', None, t.dtype)
            if isinstance(d, int) and not -d <= i < d:
                I.throw('ValueError', 'index out of bounds')
            specs.append(('int', i))
        while ax < n:
            specs.append(('full',))
            sh.append(t.shape[ax])
            ax += 1
        core = [d for j, d in enumerate(sh) if j not in news]
        if all(s == ('full',) for s in specs):
            r = t
        else:
            r = self.mk('slice', (t,), tuple(specs), core, t.dtype,
                        t.pytype)
        for p in news:
            r = self.expand(r, p)
        return r

    def iter_term(self, t):
        if t.pytype is None:
            self.I.throw('TypeError', 'Tensor objects are not iterable')
        if t.shape and isinstance(t.shape[0], int):
            return [self.getitem(t, i) for i in range(t.shape[0])]
        return None

    # random
    def rshape(self, shape):
        return self.as_ivec(shape)

    def param(self, v, dtype):
        from . import interp as ip
        if isinstance(v, (int, float)) or (isinstance(v, Term) and
                                           v.pytype is not None):
            return self.num_term(v)
        return self.tensor(v)

    def draw(self, op, seed):
        """Identity of a draw: operations of one constant seed produce the
        same stream."""
        if isinstance(seed, bool) or not isinstance(seed, int):
            return self.g.fresh()
        return self.g.seeded.setdefault((op, seed), self.g.fresh())

    def tf_random_normal(self, shape, mean=0.0, stddev=1.0, dtype=None,
                         seed=None, name=None):
        d = self.dt(dtype) or F32
        els = self.rshape(shape)
        m, s = self.param(mean, d), self.param(stddev, d)
        for p in (m, s):
            if p.pytype is None and p.dtype is not None and \
                    p.dtype is not d:
                self.I.throw('ValueError', 'random_normal dtype')
        if els is None:
            return self.unk('random shape', None, d)
        sh = els
        return self.mk('rnormal', (self.ivec(els), m, s),
                       (self.draw('rnormal', seed), _seed(seed)), sh, d)

    def tf_random_uniform(self, shape, minval=0, maxval=None, dtype=None,
                          seed=None, name=None):
        d = self.dt(dtype) or F32
        els = self.rshape(shape)
        if maxval is None:
            maxval = 1
        lo, hi = self.param(minval, d), self.param(maxval, d)
        if els is None:
            return self.unk('random shape', None, d)
        if d.kind != 'f':
            return self.mk('rother', (lo, hi),
                           ('uniformint', self.draw('uniformint', seed)), els, d)
        return self.mk('runiform', (self.ivec(els), lo, hi),
                       (self.draw('runiform', seed), _seed(seed)), els, d)

    def tf_truncated_normal(self, shape, mean=0.0, stddev=1.0, dtype=None,
                            seed=None, name=None):
        d = self.dt(dtype) or F32
        els = self.rshape(shape)
        if els is None:
            return self.unk('random shape', None, d)
        return self.mk('rother', (self.param(mean, d),
                                  self.param(stddev, d)),
                       ('truncnormal', self.draw('truncnormal', seed)), els, d)

    def tf_random_gamma(self, shape, alpha, beta=None, dtype=None,
                        seed=None, name=None):
        d = self.dt(dtype) or F32
        els = self.rshape(shape)
        a = self.tensor(alpha, None)
        if a.pytype is None and a.dtype is not d and a.dtype is not None:
            if isinstance(alpha, Term) and alpha.pytype is None:
                self.I.throw('ValueError', 'random_gamma dtype')
        b = self.param(1 if beta is None else beta, d)
        if els is None:
            return self.unk('random shape', None, d)
        try:
            ps = bcast(a.shape, b.shape)
        except ShapeConflict:
            self.I.throw('ValueError', 'random_gamma shapes')
        if ps is None:
            return self.unk('random_gamma shape', None, d)
        return self.mk('rgamma', (self.ivec(els), a, b),
                       (self.draw('rgamma', seed), _seed(seed)), tuple(els) + ps, d)

    def tf_random_poisson(self, lam, shape, dtype=None, seed=None,
                          name=None):
        d = self.dt(dtype) or F32
        els = self.rshape(shape)
        a = self.tensor(lam)
        if els is None or a.shape is None:
            return self.unk('random shape', None, d)
        return self.mk('rpoisson', (self.ivec(els), a),
                       (self.draw('rpoisson', seed), _seed(seed)),
                       tuple(els) + a.shape, d)

    def tf_random_categorical(self, logits, num_samples, dtype=None,
                              seed=None, name=None, output_dtype=None):
        d = self.dt(dtype) or self.dt(output_dtype) or I64
        t = self.tensor(logits)
        k = self.dim_el(num_samples) if not isinstance(
            num_samples, int) else num_samples
        if t.shape is None or k is None:
            return self.unk('categorical', None, d)
        if any(isinstance(x, Seg) for x in t.shape) or len(t.shape) != 2:
            self.I.throw('ValueError', 'random.categorical needs rank 2')
        return self.mk('rcat', (t,), (self.draw('rcat', seed), _seed(seed)),
                       (t.shape[0], k), d)

    def tf_random_shuffle(self, *a, **k):
        return self.unk('shuffle')

    # variables / effects
    def tf_Variable(self, initial_value=None, trainable=True,
                    collections=None, validate_shape=True,
                    caching_device=None, name=None, variable_def=None,
                    dtype=None, **k):
        from . import interp as ip
        d = self.dt(dtype)
        iv = initial_value
        if isinstance(iv, (ip.FuncV, ip.Prim, ip.BoundV)):
            iv = self.I.call(iv, [], {})
        if isinstance(iv, (int, float)) and d is not None and \
                d.kind == 'f':
            t = self.const(iv, d)
        else:
            t = self.tensor(iv, d)
        self.nvar += 1
        nm = '%s@%d' % (name if isinstance(name, str) else 'Variable',
                        self.nvar)
        v = self.mk('var', (), (nm,), t.shape, t.dtype)
        self.vars.append((v, t))
        self.I.effects.append(('variable', (v, t, trainable),
                               list(self.I.guards), None, self.I.site))
        return v

    def tf_get_variable(self, name, shape=None, dtype=None,
                        initializer=None, regularizer=None, trainable=True,
                        **k):
        from . import interp as ip
        full = '/'.join([str(x[0]) for x in self.I.vscopes] + [str(name)])
        reuse = self.I.vscopes[-1][1] if self.I.vscopes else False
        old = self.I.vstore.get(full)
        if old is not None and reuse:
            return old
        if old is not None and not self.I.guards:
            self.I.throw('ValueError', 'Variable %s already exists' % full)
        if old is None and reuse is True:
            self.I.throw('ValueError', 'Variable %s does not exist' % full)
        v = self._new_variable(name, shape, dtype, initializer, trainable)
        self.I.vstore[full] = v
        return v

    def _new_variable(self, name, shape, dtype, initializer, trainable):
        from . import interp as ip
        d = self.dt(dtype) or F32
        if isinstance(initializer, Term):
            return self.tf_Variable(initializer, name=name,
                                    trainable=trainable)
        els = self.as_ivec(shape) if shape is not None else []
        if els is None:
            return self.unk('get_variable', None, d)
        if isinstance(initializer, ip.Prim) or isinstance(
                initializer, (ip.FuncV, ip.BoundV)):
            t = self.I.call(initializer, [ip.ListV(list(shape.items)
                            if isinstance(shape, ip.ListV) else [])], {})
        else:
            t = self.unk('initializer', tuple(els), d)
        self.nvar += 1
        v = self.mk('var', (), ('%s@%d' % (name, self.nvar),), els, d)
        self.vars.append((v, t))
        self.I.effects.append(('variable', (v, t, trainable),
                               list(self.I.guards), None, self.I.site))
        return v

    def tf_constant_initializer(self, value=0, dtype=None, **k):
        from . import interp as ip
        return ip.Prim('constant_initializer', lambda I, a, kk: self.mk(
            'fill', (self.num_term(value),), (),
            self.as_ivec(a[0]) or [], self.dt(dtype) or F32))

    def tf_assign(self, ref, value, validate_shape=None, use_locking=None,
                  name=None):
        return self.assign(ref, value)

    def tf_assign_add(self, ref, value, use_locking=None, name=None):
        return self.assign(ref, None, ('add', value))

    def tf_assign_sub(self, ref, value, use_locking=None, name=None):
        return self.assign(ref, None, ('sub', value))

    def assign(self, ref, value, delta=None):
        from . import interp as ip
        if not isinstance(ref, Term) or ref.op not in ('var', 'assign'):
            if isinstance(ref, Term) and ref.op == 'id' and \
                    ref.args[0].op == 'var':
                self.I.throw('ValueError', 'assign to a tensor')
            return self.unk('assign target')
        var = ref
        while var.op == 'assign':
            var = var.args[0]
        if delta is not None:
            v = self.ew(delta[0], ref, self.coerce(delta[1], ref.dtype))
        else:
            v = self.coerce(value, ref.dtype)
        if isinstance(v, ip.Unk):
            v = self.unk(v.why, ref.shape, ref.dtype)
        if v.shape is not None and ref.shape is not None and \
                v.shape != ref.shape:
            self.I.event('assign-shape', 'assign %s to %s' %
                         (v.shape, ref.shape))
        extra = ()
        if ref.op == 'assign':
            extra = (ref,)
        t = self.mk('assign', (var, v) + extra, (self.g.fresh(),
                                                'assign'),
                    ref.shape, ref.dtype)
        self.I.effects.append(('assign', t, list(self.I.guards), None,
                               self.I.site))
        return t

    def coerce(self, v, dtype):
        """convert_to_tensor with the dtype of a reference for scalars."""
        from . import interp as ip
        if isinstance(v, (int, float)):
            return self.const(v, dtype)
        if isinstance(v, Term) and v.pytype in PYTYPES:
            return self.retype(v, dtype)
        if isinstance(v, Term) and v.pytype == 'np':
            return v
        if isinstance(v, ip.Unk):
            return v
        return self.tensor(v, dtype)

    def tf_placeholder(self, dtype, shape=None, name=None):
        d = self.dt(dtype)
        els = None
        if shape is not None:
            ds = self.as_dims(shape)
            if ds is not None and ds != 'bad' and None not in ds:
                els = tuple(ds)
        n = self.g.fresh()
        t = self.mk('sym', (), ('placeholder:%s:%d' % (name, n),), els, d)
        self.placeholders.append(t)
        return t

    def tf_control_dependencies(self, control_inputs):
        from . import interp as ip
        it = self.I.iterate(control_inputs) \
            if control_inputs is not None else []
        out = []
        for x in it or []:
            x = self.I.drop_missing(x)
            if isinstance(x, ip.Obj):
                x = self.tensor(x)
            if isinstance(x, Term):
                out.append(x)
        return ip.CtxV('ctrl', tuple(out))

    def tf_group(self, *inputs, **k):
        from . import interp as ip
        flat = []

        def go(x):
            x = self.I.drop_missing(x)
            if isinstance(x, (ip.ListV, tuple)):
                for y in (x.items if isinstance(x, ip.ListV) else x):
                    go(y)
            elif isinstance(x, Term):
                flat.append(x)
            elif x is not None:
                flat.append(self.unk('group member'))
        for i in inputs:
            go(i)
        return self.mk('group', flat, (self.g.fresh(),), (), None)

    def tf_tuple(self, tensors, name=None, control_inputs=None):
        from . import interp as ip
        it = [self.tensor(x) for x in self.I.iterate(tensors)]
        self.I.ctrl.append(tuple(it))
        try:
            return ip.ListV([self.mk('id', (x,), (), x.shape, x.dtype)
                             for x in it])
        finally:
            self.I.ctrl.pop()

    def tf_no_op(self, name=None):
        return self.mk('group', (), (self.g.fresh(),), (), None)

    def tf_name_scope(self, name=None, default_name=None, values=None):
        from . import interp as ip
        return ip.CtxV('scope')

    def tf_variable_scope(self, *a, **k):
        from . import interp as ip
        self.I.effects.append(('variable_scope', (a, k),
                               list(self.I.guards), None, self.I.site))
        nm = a[0] if a else k.get('name_or_scope', k.get('default_name'))
        if nm is None:
            nm = a[1] if len(a) > 1 else k.get('default_name')
            if isinstance(nm, str):
                self.I.templates += 1
                nm = '%s_%d' % (nm, self.I.templates)
        reuse = k.get('reuse')
        inh = self.I.vscopes[-1][1] if self.I.vscopes else False
        if reuse is not None and not isinstance(reuse, bool):
            reuse = 'auto'
        return ip.CtxV('vscope', (nm if isinstance(nm, str) else '?%d' %
                                  id(nm), inh if reuse in (None, False)
                                  else reuse))

    def tf_device(self, *a):
        from . import interp as ip
        return ip.CtxV('scope')

    def tf_make_template(self, name_, func_, *a, **k):
        from . import interp as ip

        self.I.templates += 1
        state = {'called': False, 'id': '%s_t%d' % (name_,
                                                    self.I.templates)}

        def f(I, args, kw):
            I.effects.append(('template_call', (name_, func_),
                              list(I.guards), None, I.site))
            n = len(I.vscopes)
            I.vscopes.append((state['id'], state['called']))
            try:
                r = I.call(func_, list(args), dict(k, **kw))
                state['called'] = True
                return r
            finally:
                del I.vscopes[n:]
        return ip.Prim('template', f)

    def tf_register_tensor_conversion_function(self, base_type,
                                               conversion_func,
                                               priority=100):
        self.I.conversions.append((base_type, conversion_func))

    def call_noop(self, *a, **k):
        return None

    def tf_python_client_session_register_session_run_conversion_functions(
            self, tensor_type, fetch_function, feed_function=None,
            feed_function_for_partial_run=None):
        self.I.sess_conv.append((tensor_type, fetch_function, feed_function,
                                 feed_function_for_partial_run))

    def tf_python_training_moving_averages_assign_moving_average(
            self, variable, value, decay, zero_debias=True, name=None):
        v = self.tensor(value)
        d = self.coerce(decay, v.dtype)
        new = self.mk('opaque', (variable, v, d),
                      ('moving_average', bool(zero_debias) if not
                       isinstance(zero_debias, Term) else 'sym'),
                      variable.shape, variable.dtype)
        return self.assign(variable, new)

    def tf_Session(self, *a, **k):
        from . import interp as ip
        return ip.CtxV('session', ip.CtxV('session'))

    def tf_get_default_graph(self):
        from . import interp as ip
        return ip.CtxV('graph')

    def tf_global_variables_initializer(self):
        return self.tf_no_op()

    # asserts
    def assertion(self, kind, args, message=None, data=None):
        from . import interp as ip
        ts = [self.tensor(a) if not isinstance(a, int) else self.pyconst(a)
              for a in args]
        t = self.mk('assertop', ts, (kind,), (), None)
        self.I.effects.append(('assert', (kind, ts, message),
                               list(self.I.guards), t, self.I.site))
        return t

    def tf_assert_equal(self, x, y, data=None, summarize=None, message=None,
                        name=None):
        a, b = self.tens2(x, y)
        return self.assertion('eq', [a, b], message)

    def _assertcmp(k):
        def f(self, x, y, data=None, summarize=None, message=None,
              name=None):
            a, b = self.tens2(x, y)
            a, b = self.tens(a), b
            if isinstance(b, (int, float)) or (isinstance(b, Term) and
                                               b.pytype is not None):
                b = self.coerce(b, a.dtype)
            if a.op == 'const' and b.op == 'const' and a.shape == ():
                r = _pyfold(k, [a.attrs[0], b.attrs[0]])
                if r is False:
                    self.I.throw('InvalidArgumentError', 'assertion failed')
            return self.assertion(k, [a, b], message)
        return f
    tf_assert_greater, tf_assert_greater_equal = _assertcmp('gt'), \
        _assertcmp('ge')
    tf_assert_less, tf_assert_less_equal = _assertcmp('lt'), \
        _assertcmp('le')

    def tf_assert_positive(self, x, data=None, summarize=None, message=None,
                           name=None):
        return self.tf_assert_greater(x, 0, message=message)

    def tf_assert_non_negative(self, x, data=None, summarize=None,
                               message=None, name=None):
        return self.tf_assert_greater_equal(x, 0, message=message)

    def tf_assert_rank(self, x, rank, data=None, summarize=None,
                       message=None, name=None):
        t = self.tensor(x)
        st = self.static(t)
        r = self.as_int(rank)
        if st.dims is not None and r is not None and len(st.dims) != r:
            self.I.throw('ValueError', 'assert_rank')
        return self.assertion('rank', [t, rank], message)

    def tf_assert_rank_at_least(self, x, rank, data=None, summarize=None,
                                message=None, name=None):
        t = self.tensor(x)
        st = self.static(t)
        r = self.as_int(rank)
        if st.dims is not None and r is not None and len(st.dims) < r:
            self.I.throw('ValueError', 'assert_rank_at_least')
        return self.assertion('rank_ge', [t, rank], message)

    def tf_Assert(self, condition, data, summarize=None, name=None):
        return self.assertion('true', [condition])

    tf_debugging_Assert = tf_Assert

    # control flow
    def tf_cond(self, pred=None, true_fn=None, false_fn=None, strict=False,
                name=None, fn1=None, fn2=None):
        from . import interp as ip
        I = self.I
        true_fn = true_fn if true_fn is not None else fn1
        false_fn = false_fn if false_fn is not None else fn2
        if isinstance(pred, bool):
            I.throw('TypeError', 'pred must not be a Python bool')
        if isinstance(pred, ip.Unk):
            c = self.unk_bool(pred.why)
        else:
            c = self.tensor(pred)

        def norm(v):
            if isinstance(v, ip.ListV):
                r = ip.ListV([norm(x) for x in v.items])
                return r
            if isinstance(v, tuple):
                return tuple(norm(x) for x in v)
            if v is None or isinstance(v, (ip.Unk, ip.DictV)):
                return v
            if isinstance(v, Term) and v.op in ('group', 'assertop'):
                return v
            if isinstance(v, Term) and v.op == 'var':
                return self.mk('id', (v,), (), v.shape, v.dtype)
            return self.tensor(v)

        def one(v):
            if not strict:
                if isinstance(v, ip.ListV) and len(v.items) == 1:
                    return v.items[0]
                if isinstance(v, tuple) and len(v) == 1:
                    return v[0]
            return v
        if c.op == 'const':
            return one(norm(I.call(true_fn if c.attrs[0] else false_fn, [],
                                   {})))
        if c.sid in I.assumed:
            return one(norm(I.call(true_fn if I.assumed[c.sid] else
                                   false_fn, [], {})))
        try:
            b = I.E.evb(c, ())
            if b == evalnf.BT or b == evalnf.BF:
                return one(norm(I.call(
                    true_fn if b == evalnf.BT else false_fn, [], {})))
        except nf.Undecidable:
            pass

        def run(f):
            # ops created inside a branch depend on the predicate
            I.ctrl.append((c,))
            try:
                return norm(I.call(f, [], {}))
            finally:
                I.ctrl.pop()
        return one(I.fork(c, lambda: run(true_fn), lambda: run(false_fn)))

    def tf_case(self, *a, **k):
        return self.unk('tf.case')

    def tf_while_loop(self, cond, body, loop_vars, shape_invariants=None,
                      parallel_iterations=10, back_prop=True,
                      swap_memory=False, name=None, maximum_iterations=None,
                      return_same_structure=False):
        from . import interp as ip
        I = self.I

        def pack_like(ref, v):
            return v

        def conv(v):
            if isinstance(v, ip.ListV):
                return ip.ListV([conv(x) for x in v.items])
            if isinstance(v, tuple):
                return tuple(conv(x) for x in v)
            if isinstance(v, ip.IterV):
                return ip.ListV([conv(x) for x in I.iterate(v)])
            if isinstance(v, (ip.Unk,)):
                return v
            return self.tensor(v)
        init = [conv(x) for x in I.iterate(loop_vars)]
        mark = len(I.trail)
        ne, nr, nv = len(I.effects), len(I.raises), len(I.events)
        cur = list(init)

        def as_list(r, n):
            if isinstance(r, (ip.ListV, tuple)):
                it = list(r.items if isinstance(r, ip.ListV) else r)
            else:
                it = [r]
            return [conv(x) for x in it]
        mi = maximum_iterations
        if isinstance(mi, Term) and mi.op == 'const':
            mi = mi.attrs[0]
        if mi is None or type(mi) is int:
            for n_ in range(getattr(I, 'unroll', 12)):
                if mi is not None and n_ >= mi:
                    return cur[0] if len(cur) == 1 else ip.ListV(cur)
                c = I.call(cond, cur, {})
                if isinstance(c, Term) and c.op == 'const':
                    if not c.attrs[0]:
                        return cur[0] if len(cur) == 1 else ip.ListV(cur)
                elif isinstance(c, bool):
                    if not c:
                        return cur[0] if len(cur) == 1 else ip.ListV(cur)
                else:
                    break
                cur = as_list(I.call(body, cur, {}), len(cur))
        # summary
        I.rollback(mark)
        del I.effects[ne:], I.raises[nr:], I.events[nv:]
        uid = I.loopdepth = getattr(I, 'loopdepth', 0) + 1
        leaves = []

        def sym(v):
            if isinstance(v, ip.ListV):
                return ip.ListV([sym(x) for x in v.items])
            if isinstance(v, tuple):
                return tuple(sym(x) for x in v)
            if isinstance(v, Term):
                t = self.g.mk('lvar', (), ('loop%d' % uid, len(leaves)),
                              v.shape, v.dtype)
                leaves.append((v, t))
                return t
            return v
        syms = [sym(x) for x in init]
        try:
            c = I.call(cond, syms, {})
            outs = as_list(I.call(body, syms, {}), len(init))
        finally:
            I.loopdepth -= 1
        flat_out = []

        def flat(v, acc):
            if isinstance(v, (ip.ListV, tuple)):
                for x in (v.items if isinstance(v, ip.ListV) else v):
                    flat(x, acc)
            elif isinstance(v, Term):
                acc.append(v)
            else:
                acc.append(self.unk('loop value'))
        for o in outs:
            flat(o, flat_out)
        if len(flat_out) != len(leaves) or not isinstance(c, Term):
            return self.I.unk('while_loop structure')
        args = [a for a, _ in leaves] + [c] + flat_out
        I.effects.append(('while', (uid, leaves, c, flat_out),
                          list(I.guards), None, I.site))
        k = [0]

        def rebuild(v):
            if isinstance(v, ip.ListV):
                return ip.ListV([rebuild(x) for x in v.items])
            if isinstance(v, tuple):
                return tuple(rebuild(x) for x in v)
            if isinstance(v, Term):
                i = k[0]
                k[0] += 1
                return self.mk('loopout', args, (i, uid), v.shape, v.dtype)
            return v
        res = [rebuild(x) for x in init]
        return res[0] if len(res) == 1 else ip.ListV(res)

    # gradients
    def tf_gradients(self, ys, xs, grad_ys=None, name=None,
                     colocate_gradients_with_ops=False, gate_gradients=False,
                     aggregation_method=None, stop_gradients=None,
                     **k):
        from . import interp as ip
        I = self.I
        single = not isinstance(xs, (ip.ListV, tuple))
        xl = [xs] if single else I.iterate(xs)
        yl = I.iterate(ys) if isinstance(ys, (ip.ListV, tuple)) else [ys]
        if grad_ys is not None:
            return ip.ListV([self.unk('grad_ys', x.shape, x.dtype)
                             for x in xl])
        if any(isinstance(y, ip.Unk) for y in yl):
            return ip.ListV([self.unk('gradients', getattr(x, 'shape', None),
                                      getattr(x, 'dtype', None))
                             for x in xl])
        yl = [self.tensor(y) for y in yl]
        stops = None
        if stop_gradients is not None:
            sl = I.iterate(stop_gradients) if isinstance(
                stop_gradients, (ip.ListV, tuple)) else [stop_gradients]
            stops = [self.tensor(t) if isinstance(t, ip.Obj) else t
                     for t in sl]
        out = []
        for x in xl:
            if isinstance(x, ip.Obj):
                x = self.tensor(x)
            if not isinstance(x, Term):
                out.append(I.unk('gradients wrt'))
                continue
            if stops is not None and any(
                    not isinstance(t, Term) or t is not x and
                    depends_on(t, x) for t in stops):
                out.append(self.unk('stop_gradients', x.shape, x.dtype))
                continue
            ys_ = [y for y in yl if depends_on(y, x)]
            if not ys_:
                out.append(None)
                continue
            y = ys_[0]
            for z in ys_[1:]:
                y = self.ew('add', self.reduce('rsum', y, None),
                            self.reduce('rsum', z, None))
            out.append(self.mk('grad', (y, x), (), x.shape, x.dtype))
        return ip.ListV(out)


def depends_on(y, x, seen=None):
    """x reaches y through differentiable edges."""
    seen = set() if seen is None else seen
    stack = [y]
    while stack:
        t = stack.pop()
        if t is x:
            return True
        if t.sid in seen or t.op in ('sg', 'ivec', 'dim'):
            continue
        seen.add(t.sid)
        stack.extend(a for a in t.args if isinstance(a, Term))
    return False


def _seed(s):
    return s if s is None or isinstance(s, int) else 'sym'


def _pyfold(op, v):
    try:
        if op == 'add':
            return v[0] + v[1]
        if op == 'sub':
            return v[0] - v[1]
        if op == 'mul':
            return v[0] * v[1]
        if op == 'neg':
            return -v[0]
        if op == 'floordiv':
            return v[0] // v[1]
        if op == 'mod':
            return v[0] % v[1]
        if op == 'pow' and isinstance(v[1], int) and v[1] >= 0:
            return v[0] ** v[1]
        if op == 'max':
            return max(v)
        if op == 'min':
            return min(v)
        if op == 'abs':
            return abs(v[0])
        if op == 'lt':
            return v[0] < v[1]
        if op == 'le':
            return v[0] <= v[1]
        if op == 'gt':
            return v[0] > v[1]
        if op == 'ge':
            return v[0] >= v[1]
        if op == 'eq':
            return v[0] == v[1]
        if op == 'ne':
            return v[0] != v[1]
        if op == 'and':
            return bool(v[0] and v[1])
        if op == 'or':
            return bool(v[0] or v[1])
        if op == 'xor':
            return bool(v[0]) != bool(v[1])
        if op == 'not':
            return not v[0]
        if op in ('sel', 'gamma'):
            return v[1] if v[0] else v[2]
    except ZeroDivisionError:
        return None
    return None
