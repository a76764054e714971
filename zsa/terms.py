"""Value-graph terms, symbolic shapes and dtypes."""
from . import nf


class Dim(object):
    """A single axis of unknown (generic) size."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Dim) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Dim', self.name))

    def __repr__(self):
        return self.name

    def nf(self):
        return nf.A(('dim', self.name))


class Seg(object):
    """An opaque run of axes: any rank, any sizes."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Seg) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Seg', self.name))

    def __repr__(self):
        return '*' + self.name

    def nf(self):
        return nf.A(('dim', '|' + self.name + '|'))


class Prod(object):
    """One axis whose size is the (row-major) product of the factors."""
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = tuple(fs)

    def __eq__(self, o):
        return isinstance(o, Prod) and sorted(map(repr, o.fs)) == \
            sorted(map(repr, self.fs))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Prod', tuple(sorted(map(repr, self.fs)))))

    def __repr__(self):
        return '(' + '.'.join(map(repr, self.fs)) + ')'

    def nf(self):
        r = nf.ONE
        for f in self.fs:
            r = r * nf.dim_nf(f)
        return r


class DExpr(object):
    """One axis whose size is an arbitrary scalar expression."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, DExpr) and o.p == self.p

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('DExpr', self.p))

    def __repr__(self):
        return '<%s>' % nf.show(self.p)

    def nf(self):
        return self.p


def mk_prod(fs):
    out = []
    c = 1
    for f in fs:
        if isinstance(f, Prod):
            out.extend(f.fs)
        elif isinstance(f, int):
            if f != 1:
                out.append(f)
        else:
            out.append(f)
    if not out:
        return 1
    if all(isinstance(f, int) for f in out):
        for f in out:
            c *= f
        return c
    if len(out) == 1 and isinstance(out[0], (Dim, DExpr)):
        return out[0]
    return Prod(out)


def dim_of_nf(p):
    v = nf.num_val(p)
    if v is not None and v.denominator == 1:
        return int(v)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c.denominator == 1 and c > 0:
            fs = [] if c == 1 else [int(c)]
            ok = True
            for a, e in m:
                k = nf.akey(a)
                if k[0] == 'dim' and e.denominator == 1 and e > 0:
                    nm = k[1]
                    if nm.startswith('|'):
                        f = Seg(nm.strip('|'))
                    else:
                        f = Dim(nm)
                    fs += [f] * int(e)
                elif k[0] in ('sym', 'app') and e.denominator == 1 and \
                        e > 0 and len(m) > 1:
                    fs += [DExpr(nf.P({((a, nf.F(1)),): nf.F(1)}))] * int(e)
                else:
                    ok = False
            if ok:
                if len(fs) == 1 and isinstance(fs[0], Dim):
                    return fs[0]
                return mk_prod(fs)
    return DExpr(p)


class DType(object):
    def __init__(self, name, kind, size):
        self.name, self.kind, self.size = name, kind, size

    def __repr__(self):
        return self.name


DTYPES = {n: DType(n, k, s) for n, k, s in [
    ('float16', 'f', 2), ('float32', 'f', 4), ('float64', 'f', 8),
    ('int8', 'i', 1), ('int16', 'i', 2), ('int32', 'i', 4),
    ('int64', 'i', 8), ('uint8', 'u', 1), ('bool', 'b', 1),
    ('string', 's', 0), ('complex64', 'c', 8)]}
F16, F32, F64 = DTYPES['float16'], DTYPES['float32'], DTYPES['float64']
I16, I32, I64 = DTYPES['int16'], DTYPES['int32'], DTYPES['int64']
BOOL = DTYPES['bool']


class Term(object):
    __slots__ = ('op', 'args', 'attrs', 'shape', 'dtype', 'pytype', 'sid',
                 'ctrl', 'site')

    def __repr__(self):
        return '%s#%d' % (self.op, self.sid)


class Graph(object):
    """Hash-consing table (one per analysed configuration)."""

    def __init__(self):
        self.table = {}
        self.n = 0
        self.uid = 0
        self.nodes = []
        self.seeded = {}

    def mk(self, op, args=(), attrs=(), shape=(), dtype=None, pytype=None,
           ctrl=(), site=None):
        args = tuple(args)
        key = (op, tuple(a.sid if isinstance(a, Term) else ('py', a)
                         for a in args), attrs, dtype and dtype.name, pytype,
               tuple(sorted(c.sid for c in ctrl)),
               tuple(map(repr, shape)) if shape is not None else None)
        t = self.table.get(key)
        if t is not None:
            return t
        t = Term()
        t.op, t.args, t.attrs = op, args, attrs
        t.shape = tuple(shape) if shape is not None else None
        t.dtype, t.pytype = dtype, pytype
        t.ctrl = frozenset(ctrl)
        t.sid = self.n
        t.site = site
        self.n += 1
        self.table[key] = t
        self.nodes.append(t)
        return t

    def fresh(self):
        self.uid += 1
        return self.uid


# ----------------------------------------------------------- shape algebra

class ShapeConflict(Exception):
    pass


def bcast(a, b):
    """Broadcast two true shapes (tuples) or None when unknown."""
    if a is None or b is None:
        return None
    a, b = list(a), list(b)
    out = []
    while a or b:
        if not a:
            out.append(b.pop())
            continue
        if not b:
            out.append(a.pop())
            continue
        x, y = a[-1], b[-1]
        if x == y:
            out.append(x)
            a.pop()
            b.pop()
        elif isinstance(x, Seg) and isinstance(y, Seg):
            # a run of unknown axes against another: only alignable when the
            # other operand is exhausted; otherwise unknown
            if len(a) == 1 and any(z == x for z in b):
                j = max(i for i, z in enumerate(b) if z == x)
                return None if j != len(b) - 1 else None
            return None
        elif isinstance(x, Seg) or isinstance(y, Seg):
            return None
        elif x == 1:
            out.append(y)
            a.pop()
            b.pop()
        elif y == 1:
            out.append(x)
            a.pop()
            b.pop()
        else:
            raise ShapeConflict('%s vs %s' % (x, y))
    return tuple(reversed(out))


def align(out_shape, idx, arg_shape):
    """Index tokens for an operand broadcast to out_shape."""
    if arg_shape is None or out_shape is None:
        raise nf.Undecidable('unknown shape in broadcast')
    n = len(arg_shape)
    off = len(out_shape) - n
    if off < 0:
        raise nf.Undecidable('operand rank exceeds result rank')
    res = []
    for j in range(n):
        d, o = arg_shape[j], out_shape[off + j]
        if d == o:
            res.append(idx[off + j])
        elif d == 1:
            res.append(0)
        else:
            raise nf.Undecidable('cannot align %s with %s' % (d, o))
    return tuple(res)


def _factors(d):
    if isinstance(d, Prod):
        return list(d.fs)
    if d == 1 and isinstance(d, int):
        return []
    return [d]


def reindex(src, dst, idx):
    """Index into src (row-major reshape) for index idx into dst."""
    seq = []
    for d, t in zip(dst, idx):
        fs = _factors(d)
        if isinstance(d, Prod):
            if isinstance(t, tuple) and t and t[0] == 'grp' and \
                    len(t) - 1 == len(fs):
                seq += list(zip(fs, t[1:]))
            else:
                seq += [(f, ('part', t, j, len(fs)))
                        for j, f in enumerate(fs)]
        elif fs:
            seq.append((d, t))
    out = []
    for d in src:
        fs = _factors(d)
        if not fs:
            out.append(0)
            continue
        take = seq[:len(fs)]
        seq = seq[len(fs):]
        if isinstance(d, Prod):
            if sorted(repr(f) for f, _ in take) != sorted(map(repr, fs)):
                raise nf.Undecidable('reshape factors %s vs %s' % (take, d))
            # identity regrouping of a part-split token
            toks = [t for _, t in take]
            if all(isinstance(t, tuple) and t[:1] == ('part',) and
                   t[1] == toks[0][1] and t[2] == j and t[3] == len(toks)
                   for j, t in enumerate(toks)):
                out.append(toks[0][1])
            else:
                out.append(('grp',) + tuple(toks))
        else:
            if len(take) != 1 or take[0][0] != d:
                raise nf.Undecidable('reshape %s vs %s' % (take, d))
            out.append(take[0][1])
    if seq:
        raise nf.Undecidable('reshape leftover')
    return tuple(out)


def shape_nf(shape):
    r = nf.ONE
    for d in shape:
        r = r * nf.dim_nf(d)
    return r
