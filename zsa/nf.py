"""Algebraic normal form (value-number domain).

A `P` is a Laurent polynomial with exact rational coefficients over interned
atoms.  exp/log/powers are pushed into the monomials, sums over an axis are
distributed and factored, so two formulas that are equal by ring/field laws,
exp-log laws, linearity of sums and renaming of bound indices get the same
normal form.  `equal` additionally clears denominators and splits on the
conditions of `sel`/min/max/abs atoms.

Assumption (stated in DESIGN.md): arguments of log / bases of non-integer
powers are in the positive domain.
"""
from fractions import Fraction as F
import itertools

# ---------------------------------------------------------------- atoms

_ATOM_IDS = {}
_ATOMS = []


def atom(key):
    i = _ATOM_IDS.get(key)
    if i is None:
        i = len(_ATOMS)
        _ATOM_IDS[key] = i
        _ATOMS.append(key)
    return i


def akey(i):
    return _ATOMS[i]


def reset():
    _ATOM_IDS.clear()
    del _ATOMS[:]
    _SUBST_CACHE.clear()


class Undecidable(Exception):
    """Raised when the normaliser meets something it does not model."""


class P(object):
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, P) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, scale(lift(o), F(-1)))

    def __rsub__(self, o):
        return add(lift(o), scale(self, F(-1)))

    def __neg__(self):
        return scale(self, F(-1))

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(lift(o), F(-1)))

    def __rtruediv__(self, o):
        return mul(lift(o), power(self, F(-1)))

    def __pow__(self, n):
        return power(self, F(n))

    def __repr__(self):
        return show(self)


def pkey(p):
    return p.key


def P_of_key(k):
    return P(dict(k))


ZERO = P({})
ONE = P({(): F(1)})


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return A(('const', repr(x)))
        f = F(x).limit_denominator(5000)
        x = f if float(f) == x else F(repr(x))
    x = F(x)
    return P({(): x}) if x else ZERO


def lift(x):
    return x if isinstance(x, P) else num(x)


def A(key):
    return P({((atom(key), F(1)),): F(1)})


def sym(name, *idx):
    return A(('sym', name, tuple(idx)))


def is_num(p):
    return not p.t or (len(p.t) == 1 and () in p.t)


def num_val(p):
    if not p.t:
        return F(0)
    if len(p.t) == 1 and () in p.t:
        return p.t[()]
    return None


def add(a, b):
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + c
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return P(t)


def scale(a, c):
    if not c:
        return ZERO
    return P({m: v * c for m, v in a.t.items()})


def _mono_mul(m1, m2):
    """Multiply two monomials -> (coef, mono, expand list)."""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _mono_norm(d)


def _mono_norm(d):
    coef = F(1)
    out = []
    expand = []
    for a, e in d.items():
        if e == 0:
            continue
        k = _ATOMS[a]
        tag = k[0]
        if tag == 'ind' and e > 0:
            e = F(1)
        elif tag == 'prime':
            ip = e.numerator // e.denominator
            if ip:
                coef *= F(k[1]) ** ip
                e -= ip
            if e == 0:
                continue
        elif tag == 'poly' and e > 0 and e >= 1:
            ip = e.numerator // e.denominator
            expand.append((k[1], ip))
            e -= ip
            if e == 0:
                continue
        elif tag in ('abs',) and e.denominator == 1 and e.numerator % 2 == 0:
            expand.append(((P_of_key(k[1]) ** e).key, 1))
            continue
        elif tag == 'sign' and e.denominator == 1 and e > 0 and \
                e.numerator % 2 == 0:
            continue
        out.append((a, e))
    out.sort()
    return coef, tuple(out), expand


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    t = {}
    pend = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            if not m1:
                c, m, ex = F(1), m2, ()
            elif not m2:
                c, m, ex = F(1), m1, ()
            else:
                c, m, ex = _mono_mul(m1, m2)
            c = c * c1 * c2
            if ex:
                pend.append((c, m, ex))
                continue
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    r = P(t)
    for c, m, ex in pend:
        q = P({m: c})
        for k, n in ex:
            pk = P_of_key(k)
            for _ in range(n):
                q = mul(q, pk)
        r = add(r, q)
    return r


def _factor_int(n):
    fs = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            fs[d] = fs.get(d, 0) + 1
            n //= d
        d += 1
        if d > 100000:
            break
    if n > 1:
        fs[n] = fs.get(n, 0) + 1
    return fs


def _content(p):
    """p = c * mono * rest, c > 0 rational, rest has no common factor."""
    from math import gcd
    ms = list(p.t)
    common = dict(ms[0])
    allat = set(common)
    for m in ms[1:]:
        allat |= set(dict(m))
    mins = {}
    for a in allat:
        tag = _ATOMS[a][0]
        e = min(dict(m).get(a, F(0)) for m in ms)
        if tag == 'ind':
            continue
        if e != 0:
            mins[a] = e
    g, l = 0, 1
    for c in p.t.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    content = F(g, l)
    if mins or content != 1:
        inv = tuple(sorted((a, -e) for a, e in mins.items()))
        rest = mul(p, P({inv: 1 / content}))
        mono = tuple(sorted(mins.items()))
    else:
        rest, mono = p, ()
    return content, mono, rest


def _lead_sign(p):
    k = p.key
    return 1 if k[0][1] > 0 else -1


def power(p, e):
    e = F(e)
    if e == 1:
        return p
    if e == 0:
        return ONE
    if not p.t:
        if e > 0:
            return ZERO
        return A(('const', 'div0'))
    if e.denominator == 1 and 1 < e <= 16:
        r = p
        for _ in range(int(e) - 1):
            r = mul(r, p)
        return r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return _mono_pow(m, c, e)
    content, mono, rest = _content(p)
    out = _mono_pow(mono, content, e)
    if e.denominator == 1 and _lead_sign(rest) < 0:
        rest = -rest
        if e.numerator % 2:
            out = -out
    if len(rest.t) == 1:
        return mul(out, power(rest, e))
    return mul(out, P({((atom(('poly', rest.key)), e),): F(1)}))


def _mono_pow(m, c, e):
    if e.denominator == 1:
        out = P({(): F(c) ** int(e)})
    else:
        if c < 0:
            return P({((atom(('poly', P({m: c}).key)), e),): F(1)})
        out = ONE
        for q, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in _factor_int(q).items():
                if q == 1:
                    continue
                d = {atom(('prime', pr)): e * k * s}
                cf, mm, _ = _mono_norm(d)
                out = mul(out, P({mm: cf}))
    for a, k in m:
        kk = _ATOMS[a]
        if kk[0] == 'ind' and e < 0:
            out = mul(out, P({((a, F(-1)),): F(1)}))
            continue
        cf, mm, ex = _mono_norm({a: k * e})
        q = P({mm: cf})
        for kx, n in ex:
            for _ in range(n):
                q = mul(q, P_of_key(kx))
        out = mul(out, q)
    return out


def exp(p):
    out = ONE
    for m, c in p.t.items():
        if not m:
            out = mul(out, P({((atom(('e',)), c),): F(1)}))
            continue
        if len(m) == 1 and m[0][1] == 1:
            k = _ATOMS[m[0][0]]
            if k[0] == 'log':
                out = mul(out, power(P_of_key(k[1]), c))
                continue
            if k[0] == 'logind':
                out = mul(out, ind(k[1]))
                continue
        out = mul(out, P({((atom(('exp', m)), c),): F(1)}))
    return out


def log(p):
    if not p.t:
        return A(('const', '-inf'))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c < 0:
            odd = [(a, e) for a, e in m if not (
                _mono_positive(((a, e),)) or _ATOMS[a][0] == 'ind' or
                (e.denominator == 1 and e.numerator % 2 == 0))]
            if len(odd) == 1 and _ATOMS[odd[0][0]][0] == 'poly' and \
                    odd[0][1].denominator == 1:
                (a, e), = odd
                rest = P({tuple(x for x in m if x != (a, e)): -c})
                flip = A(('log', (-P_of_key(_ATOMS[a][1])).key))
                return (log(rest) if rest != ONE else ZERO) + flip * e
            return A(('log', p.key))
        out = ZERO
        for q, s in ((c.numerator, 1), (c.denominator, -1)):
            if q == 1:
                continue
            for pr, k in _factor_int(q).items():
                out = out + A(('log', num(pr).key)) * (k * s)
        for a, e in m:
            k = _ATOMS[a]
            if k[0] == 'exp':
                out = out + P({k[1]: e})
            elif k[0] == 'e':
                out = out + num(e)
            elif k[0] == 'prime':
                out = out + A(('log', num(k[1]).key)) * e
            elif k[0] == 'poly':
                out = out + A(('log', k[1])) * e
            elif k[0] == 'ind':
                out = out + A(('logind', k[1]))
            elif k[0] == 'sym' and not e.denominator == 1:
                out = out + A(('log', P({((a, F(1)),): F(1)}).key)) * e
            else:
                out = out + A(('log', P({((a, F(1)),): F(1)}).key)) * e
        return out
    content, mono, rest = _content(p)
    if len(rest.t) > 1:
        bl = _boolean_poly(rest)
        if bl is not None:
            sgn, b = bl
            head = P({mono: content * sgn})
            return lind(b) + (log(head) if head != ONE else ZERO)
    out = log(P({mono: content})) if (mono or content != 1) else ZERO
    if len(rest.t) == 1:
        return out + log(rest)
    return out + A(('log', rest.key))


def _boolean_poly(p):
    """(sign, condition) when sign*p is a 0/1-valued polynomial in
    indicator atoms only."""
    atoms = []
    for m in p.t:
        for a, e in m:
            if _ATOMS[a][0] != 'ind' or e != 1:
                return None
            if a not in atoms:
                atoms.append(a)
    if len(atoms) > 4:
        return None
    atoms.sort()
    vals = []
    for bits in itertools.product((0, 1), repeat=len(atoms)):
        env = dict(zip(atoms, bits))
        v = F(0)
        for m, c in p.t.items():
            for a, _ in m:
                if not env[a]:
                    break
            else:
                v += c
        vals.append((bits, v))
    vs = {v for _, v in vals}
    if vs <= {0, 1}:
        sgn = 1
    elif vs <= {0, -1}:
        sgn = -1
    else:
        return None
    true = [b for b, v in vals if v]
    lits = []
    for j, a in enumerate(atoms):
        col = {b[j] for b in true}
        if len(col) == 1:
            x = _ATOMS[a][1]
            lits.append(x if col == {1} else bnot(x))
    if 2 ** (len(atoms) - len(lits)) == len(true):
        return sgn, band(lits)
    return sgn, bor([band([_ATOMS[a][1] if v else bnot(_ATOMS[a][1])
                           for a, v in zip(atoms, b)]) for b in true])


def powr(a, b):
    """a ** b for NF exponent."""
    n = num_val(b)
    if n is not None:
        return power(a, n)
    return exp(mul(b, log(a)))


# ------------------------------------------------------------- booleans
# B keys: ('T',) ('F',) ('lt', Pkey) [P<0] ('eq', Pkey) ('fin', Pkey)
#         ('not', B) ('and', (B..)) ('or', (B..)) ('bsym', name, idx)

BT = ('T',)
BF = ('F',)


def bnot(b):
    if b == BT:
        return BF
    if b == BF:
        return BT
    if b[0] == 'not':
        return b[1]
    if b[0] == 'and':
        return bor([bnot(x) for x in b[1]])
    if b[0] == 'or':
        return band([bnot(x) for x in b[1]])
    return ('not', b)


def band(bs):
    s = set()
    for b in bs:
        if b == BF:
            return BF
        if b == BT:
            continue
        if b[0] == 'and':
            s |= set(b[1])
        else:
            s.add(b)
    for b in s:
        if bnot(b) in s:
            return BF
    if not s:
        return BT
    if len(s) == 1:
        return s.pop()
    return ('and', tuple(sorted(s, key=repr)))


def bor(bs):
    s = set()
    for b in bs:
        if b == BT:
            return BT
        if b == BF:
            continue
        if b[0] == 'or':
            s |= set(b[1])
        else:
            s.add(b)
    for b in s:
        if bnot(b) in s:
            return BT
    if not s:
        return BF
    if len(s) == 1:
        return s.pop()
    return ('or', tuple(sorted(s, key=repr)))


POSITIVE_SYMS = set()


def _mono_positive(m):
    for a, e in m:
        k = _ATOMS[a]
        if k[0] in ('exp', 'e', 'prime'):
            continue
        if k[0] == 'sym' and k[1] in POSITIVE_SYMS:
            continue
        if k[0] == 'dim':
            continue
        return False
    return True


def blt(a, b):
    """a < b"""
    d = a - b
    v = num_val(d)
    if v is not None:
        return BT if v < 0 else BF
    d = _cmp_norm(d)
    return ('lt', d.key)


def _cmp_norm(d):
    if len(d.t) == 2:
        (m1, c1), (m2, c2) = sorted(d.t.items(), key=lambda z: -z[1])
        if c1 > 0 > c2 and _mono_positive(m1) and _mono_positive(m2):
            # c1 m1 < -c2 m2  <=> log(c1 m1) - log(-c2 m2) < 0
            if any(_ATOMS[a][0] == 'exp' for a, _ in m1 + m2):
                return _cmp_norm(log(P({m1: c1})) - log(P({m2: -c2})))
    from math import gcd
    g, l = 0, 1
    for c in d.t.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    d = scale(d, 1 / F(g, l))
    # divide out a common positive monomial factor
    if len(d.t) >= 1:
        content, mono, rest = _content(d)
        pos = {a: e for a, e in mono if _mono_positive(((a, e),))}
        if pos:
            d = mul(d, P({tuple(sorted((a, -e) for a, e in pos.items())):
                          F(1)}))
    return d


def ble(a, b):
    return bnot(blt(b, a))


def beq(a, b):
    d = a - b
    v = num_val(d)
    if v is not None:
        return BT if v == 0 else BF
    from math import gcd
    g, l = 0, 1
    for c in d.t.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    d = scale(d, 1 / F(g, l))
    if _lead_sign(d) < 0:
        d = -d
    return ('eq', d.key)


def ind(b):
    if b == BT:
        return ONE
    if b == BF:
        return ZERO
    if b[0] == 'and':
        r = ONE
        for x in b[1]:
            r = r * ind(x)
        return r
    if b[0] == 'not':
        # keep 1-ind form: lets case-splitting and linear identities work
        return ONE - ind(b[1])
    if b[0] == 'or':
        return ONE - ind(band([bnot(x) for x in b[1]]))
    return A(('ind', b))


def lind(b):
    """log of an indicator."""
    if b == BT:
        return ZERO
    if b[0] == 'and':
        r = ZERO
        for x in b[1]:
            r = r + lind(x)
        return r
    return A(('logind', b))


def sel(c, a, b):
    if c == BT:
        return a
    if c == BF:
        return b
    if a == b:
        return a
    if c[0] == 'not':
        return sel(c[1], b, a)
    common = {}
    for m, v in a.t.items():
        if b.t.get(m) == v:
            common[m] = v
    if common:
        cp = P(common)
        return cp + sel(c, a - cp, b - cp)
    return A(('sel', c, a.key, b.key))


def fmin(a, b):
    if a == b:
        return a
    va, vb = num_val(a), num_val(b)
    if va is not None and vb is not None:
        return a if va <= vb else b
    x, y = sorted([a.key, b.key])
    return A(('min', x, y))


def fmax(a, b):
    if a == b:
        return a
    va, vb = num_val(a), num_val(b)
    if va is not None and vb is not None:
        return a if va >= vb else b
    x, y = sorted([a.key, b.key])
    return A(('max', x, y))


def fabs(p):
    v = num_val(p)
    if v is not None:
        return num(abs(v))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if _mono_positive(m):
            return P({m: abs(c)})
        return P({((atom(('abs', P({m: F(1)}).key)), F(1)),): abs(c)})
    content, mono, rest = _content(p)
    if _lead_sign(p) < 0:
        p = -p
    return A(('abs', p.key))


def sign(p):
    v = num_val(p)
    if v is not None:
        return num((v > 0) - (v < 0))
    s = 1
    if _lead_sign(p) < 0:
        p, s = -p, -1
    return A(('sign', p.key)) * s


def fn(name, *args):
    """Uninterpreted elementwise function of NF arguments."""
    return A(('fn', name, tuple(a.key for a in args)))


def sg(p):
    """stop_gradient: numbers are unaffected; keep as a transparent marker."""
    if is_num(p):
        return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]][0] == 'sg':
            return p
    return A(('sg', p.key))


# --------------------------------------------- index substitution / traversal

_SUBST_CACHE = {}


def _map_idx(ix, mp):
    if isinstance(ix, tuple) and ix and ix[0] == 'grp':
        return ('grp',) + tuple(_map_idx(x, mp) for x in ix[1:])
    if isinstance(ix, tuple) and ix and ix[0] == 'part':
        inner = _map_idx(ix[1], mp)
        if isinstance(inner, tuple) and inner and inner[0] == 'grp' and \
                ix[2] < len(inner) - 1 and len(inner) - 1 == ix[3]:
            return inner[1 + ix[2]]
        return ('part', inner, ix[2], ix[3])
    if isinstance(ix, tuple) and ix and ix[0] == 'ixp':
        return mk_ixp(map_atoms(P_of_key(ix[1]), mp))
    if isinstance(ix, tuple) and ix and ix[0] == 'rev':
        inner = _map_idx(ix[1], mp)
        if isinstance(inner, int) and isinstance(ix[2], int):
            return ix[2] - 1 - inner
        return ('rev', inner, ix[2])
    return mp.get(ix, ix)


def mk_ixp(p):
    v = num_val(p)
    if v is not None and v.denominator == 1:
        return int(v)
    return ('ixp', p.key)


def map_key(k, mp):
    return map_atoms(P_of_key(k), mp).key


def map_b(b, mp):
    t = b[0]
    if t in ('T', 'F'):
        return b
    if t == 'lt':
        p = map_atoms(P_of_key(b[1]), mp)
        return blt(p, ZERO)
    if t == 'eq':
        return beq(map_atoms(P_of_key(b[1]), mp), ZERO)
    if t == 'fin':
        return ('fin', map_key(b[1], mp))
    if t == 'not':
        return bnot(map_b(b[1], mp))
    if t == 'and':
        return band([map_b(x, mp) for x in b[1]])
    if t == 'or':
        return bor([map_b(x, mp) for x in b[1]])
    if t == 'bsym':
        return ('bsym', b[1], tuple(_map_idx(i, mp) for i in b[2]))
    raise Undecidable('bool ' + repr(t))


def map_atoms(p, mp):
    """Substitute index tokens in every atom of p."""
    if not mp:
        return p
    ck = (p.key, tuple(sorted(mp.items(), key=repr)))
    r = _SUBST_CACHE.get(ck)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.t.items():
        q = num(c)
        for a, e in m:
            q = q * power(map_atom(a, mp), e)
        out = out + q
    _SUBST_CACHE[ck] = out
    return out


def map_atom(a, mp):
    k = _ATOMS[a]
    t = k[0]
    if t in ('const', 'e', 'prime', 'dim'):
        return P({((a, F(1)),): F(1)})
    if t == 'sym':
        return A(('sym', k[1], tuple(_map_idx(i, mp) for i in k[2])))
    if t == 'rnd':
        return A(('rnd', k[1], tuple(_map_idx(i, mp) for i in k[2])))
    if t == 'exp':
        return exp(map_atoms(P({k[1]: F(1)}), mp))
    if t == 'log':
        return log(map_atoms(P_of_key(k[1]), mp))
    if t == 'poly':
        return map_atoms(P_of_key(k[1]), mp)
    if t == 'ind':
        return ind(map_b(k[1], mp))
    if t == 'logind':
        return lind(map_b(k[1], mp))
    if t == 'sel':
        return sel(map_b(k[1], mp), map_atoms(P_of_key(k[2]), mp),
                   map_atoms(P_of_key(k[3]), mp))
    if t == 'min':
        return fmin(map_atoms(P_of_key(k[1]), mp),
                    map_atoms(P_of_key(k[2]), mp))
    if t == 'max':
        return fmax(map_atoms(P_of_key(k[1]), mp),
                    map_atoms(P_of_key(k[2]), mp))
    if t == 'abs':
        return fabs(map_atoms(P_of_key(k[1]), mp))
    if t == 'sign':
        return sign(map_atoms(P_of_key(k[1]), mp))
    if t == 'fn':
        return A(('fn', k[1], tuple(map_key(x, mp) for x in k[2])))
    if t == 'sg':
        return sg(map_atoms(P_of_key(k[1]), mp))
    if t == 'delta':
        return delta(_map_idx(k[1], mp), _map_idx(k[2], mp))
    if t == 'sum':
        mp2 = {x: y for x, y in mp.items() if x not in dict(k[1])}
        if not mp2:
            return P({((a, F(1)),): F(1)})
        fresh = {}
        for v, d in k[1]:
            fresh[v] = fresh_idx()
        body = map_atoms(P({k[2]: F(1)}), fresh)
        body = map_atoms(body, mp2)
        return msum(body, [(fresh[v], d) for v, d in k[1]])
    if t == 'red':
        # ('red', op, bound, bodykey)
        fresh = fresh_idx()
        body = map_atoms(P_of_key(k[3]), {k[2][0]: fresh})
        mp2 = {x: y for x, y in mp.items() if x != k[2][0]}
        return reduce_op(k[1], map_atoms(body, mp2), fresh, k[2][1])
    if t == 'app':
        # ('app', name, args(opaque), idx)
        return A(('app', k[1], tuple(map_lam(x, mp) for x in k[2]),
                  tuple(_map_idx(i, mp) for i in k[3])))
    raise Undecidable('atom ' + repr(t))


def map_lam(x, mp):
    """opaque argument: ('lam', vars, Pkey) | anything else hashable."""
    if isinstance(x, tuple) and x and x[0] == 'lam':
        mp2 = {a: b for a, b in mp.items() if a not in x[1]}
        return ('lam', x[1], map_key(x[2], mp2))
    if isinstance(x, tuple) and x and x[0] == 'blam':
        mp2 = {a: b for a, b in mp.items() if a not in x[1]}
        return ('blam', x[1], map_b(x[2], mp2))
    if isinstance(x, tuple):
        return tuple(map_lam(y, mp) for y in x)
    return x


_FRESH = itertools.count()


def fresh_idx():
    return ('q', next(_FRESH))


def delta(i, j):
    if i == j:
        return ONE
    if isinstance(i, int) and isinstance(j, int):
        return ZERO
    a, b = sorted([i, j], key=repr)
    return A(('delta', a, b))


def _idx_in(ix, v):
    if ix == v:
        return True
    if isinstance(ix, tuple) and ix:
        if ix[0] in ('grp',):
            return any(_idx_in(x, v) for x in ix[1:])
        if ix[0] in ('part', 'rev'):
            return _idx_in(ix[1], v)
        if ix[0] == 'ixp':
            return depends(P_of_key(ix[1]), v)
    return False


_DEP_CACHE = {}


def depends_atom(a, v):
    ck = (a, v, _ATOMS[a])
    r = _DEP_CACHE.get(ck)
    if r is None:
        r = _DEP_CACHE[ck] = _depends_atom(a, v)
    return r


def _depends_b(b, v):
    t = b[0]
    if t in ('lt', 'eq', 'fin'):
        return depends(P_of_key(b[1]), v)
    if t == 'not':
        return _depends_b(b[1], v)
    if t in ('and', 'or'):
        return any(_depends_b(x, v) for x in b[1])
    if t == 'bsym':
        return any(_idx_in(i, v) for i in b[2])
    return False


def _lam_dep(x, v):
    if isinstance(x, tuple) and x and x[0] == 'lam':
        return v not in x[1] and depends(P_of_key(x[2]), v)
    if isinstance(x, tuple) and x and x[0] == 'blam':
        return v not in x[1] and _depends_b(x[2], v)
    if isinstance(x, tuple):
        return any(_lam_dep(y, v) for y in x)
    return False


def _depends_atom(a, v):
    k = _ATOMS[a]
    t = k[0]
    if t in ('const', 'e', 'prime', 'dim'):
        return False
    if t in ('sym', 'rnd'):
        return any(_idx_in(i, v) for i in k[2])
    if t == 'exp':
        return any(depends_atom(x, v) for x, _ in k[1])
    if t in ('log', 'poly', 'abs', 'sign', 'sg'):
        return depends(P_of_key(k[1]), v)
    if t in ('ind', 'logind'):
        return _depends_b(k[1], v)
    if t == 'sel':
        return _depends_b(k[1], v) or depends(P_of_key(k[2]), v) or \
            depends(P_of_key(k[3]), v)
    if t in ('min', 'max'):
        return depends(P_of_key(k[1]), v) or depends(P_of_key(k[2]), v)
    if t == 'fn':
        return any(depends(P_of_key(x), v) for x in k[2])
    if t == 'delta':
        return _idx_in(k[1], v) or _idx_in(k[2], v)
    if t == 'sum':
        return v not in dict(k[1]) and any(depends_atom(x, v)
                                           for x, _ in k[2])
    if t == 'red':
        return k[2][0] != v and depends(P_of_key(k[3]), v)
    if t == 'app':
        return any(_lam_dep(x, v) for x in k[2]) or \
            any(_idx_in(i, v) for i in k[3])
    raise Undecidable('dep ' + repr(t))


def depends(p, v):
    return any(depends_atom(a, v) for m in p.t for a, _ in m)


# ----------------------------------------------------------------- sums

def dim_nf(d):
    """A dimension (int | Dim | Prod ...) as NF."""
    if isinstance(d, int):
        return num(d)
    return d.nf()


def sum_over(p, v, d):
    """Sum_{v in range(d)} p."""
    if isinstance(d, int):
        if d == 0:
            return ZERO
        if d <= 6:
            out = ZERO
            for i in range(d):
                out = out + map_atoms(p, {v: i})
            return out
    return msum(p, [(v, d)])


def msum(p, bound):
    out = ZERO
    for m, c in p.t.items():
        out = out + scale(_sum_mono(m, list(bound)), c)
    return out


def _levels(a):
    """highest canonical bound level used inside atom a."""
    k = _ATOMS[a]
    t = k[0]
    lv = -1

    def ofP(key):
        r = -1
        for m, _ in key:
            for x, _e in m:
                r = max(r, _levels(x))
        return r

    def ofB(b):
        if b[0] in ('lt', 'eq', 'fin'):
            return ofP(b[1])
        if b[0] == 'not':
            return ofB(b[1])
        if b[0] in ('and', 'or'):
            return max([ofB(x) for x in b[1]] + [-1])
        return -1

    def ofL(x):
        if isinstance(x, tuple) and x and x[0] == 'lam':
            return ofP(x[2])
        if isinstance(x, tuple) and x and x[0] == 'blam':
            return ofB(x[2])
        if isinstance(x, tuple):
            return max([ofL(y) for y in x] + [-1])
        return -1
    if t == 'exp':
        for x, _ in k[1]:
            lv = max(lv, _levels(x))
    elif t in ('log', 'poly', 'abs', 'sign', 'sg'):
        lv = ofP(k[1])
    elif t in ('ind', 'logind'):
        lv = ofB(k[1])
    elif t == 'sel':
        lv = max(ofB(k[1]), ofP(k[2]), ofP(k[3]))
    elif t in ('min', 'max'):
        lv = max(ofP(k[1]), ofP(k[2]))
    elif t == 'fn':
        lv = max([ofP(x) for x in k[2]] + [-1])
    elif t == 'sum':
        lv = max([v[1] for v, _ in k[1]] + [_levels(x) for x, _ in k[2]])
    elif t == 'red':
        lv = max(k[2][0][1], ofP(k[3]))
    elif t == 'app':
        lv = max([ofL(x) for x in k[2]] + [-1])
    return lv


def _sum_mono(m, bound):
    # open nested sums (exponent 1) that depend on a bound variable
    changed = True
    m = list(m)
    bound = list(bound)
    while changed:
        changed = False
        for j, (a, e) in enumerate(m):
            k = _ATOMS[a]
            if k[0] == 'sum' and e == 1 and any(
                    depends_atom(a, v) for v, _ in bound):
                fresh = {v: fresh_idx() for v, _ in k[1]}
                body = map_atoms(P({k[2]: F(1)}), fresh)
                if len(body.t) != 1:
                    rest = P({tuple(m[:j] + m[j + 1:]): F(1)})
                    return msum(rest * body,
                                bound + [(fresh[v], d) for v, d in k[1]])
                (bm, bc), = body.t.items()
                c, mm, ex = _mono_mul(tuple(sorted(m[:j] + m[j + 1:])), bm)
                nb = bound + [(fresh[v], d) for v, d in k[1]]
                if ex or c * bc != 1:
                    q = P({mm: c * bc})
                    for kx, n in ex:
                        for _ in range(n):
                            q = q * P_of_key(kx)
                    return msum(q, nb)
                m, bound = list(mm), nb
                changed = True
                break
    # delta elimination
    for j, (a, e) in enumerate(m):
        k = _ATOMS[a]
        if k[0] == 'delta':
            for v, d in bound:
                other = None
                if k[1] == v and not _idx_in(k[2], v):
                    other = k[2]
                elif k[2] == v and not _idx_in(k[1], v):
                    other = k[1]
                if other is not None:
                    rest = P({tuple(m[:j] + m[j + 1:]): F(1)})
                    rest = map_atoms(rest, {v: other})
                    return msum(rest, [b for b in bound if b[0] != v])
    # independent bound variables -> factor of dim
    dep = {v: [a for a, _ in m if depends_atom(a, v)] for v, _ in bound}
    out = ONE
    live = []
    for v, d in bound:
        if dep[v]:
            live.append((v, d))
        else:
            out = out * dim_nf(d)
    if not live:
        return out * P({tuple(m): F(1)})
    # connected components of factors
    factors = list(m)
    indep = [(a, e) for a, e in factors
             if not any(depends_atom(a, v) for v, _ in live)]
    if indep:
        out = out * P({tuple(sorted(indep)): F(1)})
    factors = [f for f in factors if f not in indep]
    comps = []
    vs = [v for v, _ in live]
    left = set(vs)
    while left:
        seed = [left.pop()]
        cv = set(seed)
        grew = True
        while grew:
            grew = False
            for a, e in factors:
                av = {v for v in vs if depends_atom(a, v)}
                if av & cv and not av <= cv:
                    cv |= av
                    grew = True
        left -= cv
        cf = [(a, e) for a, e in factors
              if any(depends_atom(a, v) for v in cv)]
        comps.append(([(v, d) for v, d in live if v in cv], cf))
    for bnd, cf in comps:
        out = out * _mk_sum(bnd, tuple(sorted(cf)))
    return out


def _mk_sum(bnd, m):
    # small static dims are expanded
    for v, d in bnd:
        if isinstance(d, int) and d <= 6:
            rest = [b for b in bnd if b[0] != v]
            out = ZERO
            for i in range(d):
                q = map_atoms(P({m: F(1)}), {v: i})
                out = out + (msum(q, rest) if rest else q)
            return out
    base = 1 + max([_levels(a) for a, _ in m] + [-1])
    best = None
    n = len(bnd)
    for perm in itertools.permutations(range(n)):
        mp = {bnd[perm[j]][0]: ('k', base + j) for j in range(n)}
        dims = tuple((('k', base + j), bnd[perm[j]][1]) for j in range(n))
        body = map_atoms(P({m: F(1)}), mp)
        cand = (tuple(repr(d) for _, d in dims), repr(body.key), dims, body)
        if best is None or cand[:2] < best[:2]:
            best = cand
        if n > 4:
            break
    dims, body = best[2], best[3]
    if len(body.t) != 1:
        raise Undecidable('sum body split')
    (bm, bc), = body.t.items()
    return A(('sum', dims, bm)) * bc


def reduce_op(op, p, v, d):
    """op in max/min/prod/any/all over axis; opaque reduction atom."""
    if not depends(p, v) and op in ('max', 'min'):
        return p
    if isinstance(d, int) and d <= 6:
        vals = [map_atoms(p, {v: i}) for i in range(d)]
        r = vals[0]
        for x in vals[1:]:
            r = {'max': fmax, 'min': fmin, 'prod': mul}[op](r, x)
        return r
    if op in ('max', 'min') and len(p.t) >= 1:
        # pull out v-independent additive terms
        ind_t = {m: c for m, c in p.t.items()
                 if not any(depends_atom(a, v) for a, _ in m)}
        if ind_t and len(ind_t) < len(p.t):
            q = P(ind_t)
            return q + reduce_op(op, p - q, v, d)
    lv = 1 + max([_levels(a) for m in p.t for a, _ in m] + [-1])
    body = map_atoms(p, {v: ('k', lv)})
    return A(('red', op, (('k', lv), d), body.key))


# --------------------------------------------------------- differentiation

def diff(p, dmap):
    """Formal differential: dmap(atom key) -> P differential of base atoms,
    or None when the atom is not a base atom.  stop_gradient atoms have zero
    differential."""
    out = ZERO
    for m, c in p.t.items():
        for j, (a, e) in enumerate(m):
            da = diff_atom(a, dmap)
            if not da.t:
                continue
            rest = P({tuple(m[:j] + m[j + 1:]): c})
            out = out + rest * scale(power(P({((a, F(1)),): F(1)}), e - 1),
                                     e) * da
    return out


def diff_atom(a, dmap):
    k = _ATOMS[a]
    r = dmap(k)
    if r is not None:
        return r
    t = k[0]
    if t in ('const', 'e', 'prime', 'dim', 'sg', 'ind', 'logind', 'delta',
             'sign', 'rnd'):
        return ZERO
    if t == 'exp':
        return P({((a, F(1)),): F(1)}) * diff(P({k[1]: F(1)}), dmap)
    if t == 'log':
        q = P_of_key(k[1])
        return diff(q, dmap) / q
    if t == 'poly':
        return diff(P_of_key(k[1]), dmap)
    if t == 'sum':
        fresh = {v: fresh_idx() for v, _ in k[1]}
        body = map_atoms(P({k[2]: F(1)}), fresh)
        return msum(diff(body, dmap), [(fresh[v], d) for v, d in k[1]])
    if t == 'sym':
        return ZERO
    if t == 'sel':
        return sel(k[1], diff(P_of_key(k[2]), dmap),
                   diff(P_of_key(k[3]), dmap))
    if t == 'red' and k[1] in ('max', 'min'):
        q = P_of_key(k[3])
        if not diff(q, dmap).t:
            return ZERO
        return A(('app', 'd' + k[1], (('lam', (k[2][0],), k[3]),), ()))
    if t == 'abs':
        q = P_of_key(k[1])
        return sign(q) * diff(q, dmap)
    if t == 'fn':
        out = ZERO
        for j, x in enumerate(k[2]):
            dx = diff(P_of_key(x), dmap)
            if dx.t:
                out = out + A(('fn', 'd%d_%s' % (j, k[1]), k[2])) * dx
        return out
    if t in ('min', 'max'):
        x, y = P_of_key(k[1]), P_of_key(k[2])
        dx, dy = diff(x, dmap), diff(y, dmap)
        if not dx.t and not dy.t:
            return ZERO
        c = blt(x, y)
        return sel(c, dx, dy) if t == 'min' else sel(c, dy, dx)
    if t == 'app' and k[1] in ('rcat', 'rpoisson'):
        return ZERO
    if t == 'app':
        def lams(x):
            if isinstance(x, tuple) and x and x[0] == 'lam':
                return diff(P_of_key(x[2]), dmap).t
            if isinstance(x, tuple):
                return any(lams(y) for y in x)
            return False
        if any(lams(x) for x in k[2]):
            return A(('app', 'd_' + str(k[1]), k[2], k[3])) * \
                A(('sym', 'd_any', ()))
        return ZERO
    raise Undecidable('diff ' + repr(t))


def rewrite(p, f):
    """Bottom-up atom rewriting: f(key) -> P or None (keep, recursing)."""
    out = ZERO
    for m, c in p.t.items():
        q = num(c)
        for a, e in m:
            q = q * power(rewrite_atom(a, f), e)
        out = out + q
    return out


def rewrite_b(b, f):
    t = b[0]
    g = getattr(f, 'b', None)
    if g is not None:
        r = g(b)
        if r is not None:
            return r
    if t == 'lt':
        return blt(rewrite(P_of_key(b[1]), f), ZERO)
    if t == 'eq':
        return beq(rewrite(P_of_key(b[1]), f), ZERO)
    if t == 'fin':
        return ('fin', rewrite(P_of_key(b[1]), f).key)
    if t == 'not':
        return bnot(rewrite_b(b[1], f))
    if t == 'and':
        return band([rewrite_b(x, f) for x in b[1]])
    if t == 'or':
        return bor([rewrite_b(x, f) for x in b[1]])
    return b


def rewrite_lam(x, f):
    if isinstance(x, tuple) and x and x[0] == 'lam':
        return ('lam', x[1], rewrite(P_of_key(x[2]), f).key)
    if isinstance(x, tuple) and x and x[0] == 'blam':
        return ('blam', x[1], rewrite_b(x[2], f))
    if isinstance(x, tuple):
        return tuple(rewrite_lam(y, f) for y in x)
    return x


def rewrite_atom(a, f):
    k = _ATOMS[a]
    r = f(k)
    if r is not None:
        return r
    t = k[0]
    R = lambda key: rewrite(P_of_key(key), f)
    if t == 'exp':
        return exp(R(P({k[1]: F(1)}).key))
    if t == 'log':
        return log(R(k[1]))
    if t == 'poly':
        return R(k[1])
    if t == 'abs':
        return fabs(R(k[1]))
    if t == 'sign':
        return sign(R(k[1]))
    if t == 'sg':
        return sg(R(k[1]))
    if t == 'ind':
        return ind(rewrite_b(k[1], f))
    if t == 'logind':
        return lind(rewrite_b(k[1], f))
    if t == 'sel':
        return sel(rewrite_b(k[1], f), R(k[2]), R(k[3]))
    if t == 'min':
        return fmin(R(k[1]), R(k[2]))
    if t == 'max':
        return fmax(R(k[1]), R(k[2]))
    if t == 'fn':
        return A(('fn', k[1], tuple(R(x).key for x in k[2])))
    if t == 'sum':
        fresh = {v: fresh_idx() for v, _ in k[1]}
        body = map_atoms(P({k[2]: F(1)}), fresh)
        return msum(rewrite(body, f), [(fresh[v], d) for v, d in k[1]])
    if t == 'red':
        v = fresh_idx()
        body = map_atoms(P_of_key(k[3]), {k[2][0]: v})
        return reduce_op(k[1], rewrite(body, f), v, k[2][1])
    if t == 'app':
        return A(('app', k[1], tuple(rewrite_lam(x, f) for x in k[2]),
                  tuple(rewrite_ix(i, f) for i in k[3])))
    if t in ('sym', 'rnd') and any(isinstance(i, tuple) and i and
                                   i[0] == 'ixp' for i in k[2]):
        return A((t, k[1], tuple(rewrite_ix(i, f) for i in k[2])))
    if t == 'delta':
        return delta(rewrite_ix(k[1], f), rewrite_ix(k[2], f))
    return P({((a, F(1)),): F(1)})


def rewrite_ix(i, f):
    if isinstance(i, tuple) and i and i[0] == 'ixp':
        return mk_ixp(rewrite(P_of_key(i[1]), f))
    return i


def strip_sg(p):
    def f(k):
        if k[0] == 'sg':
            return strip_sg(P_of_key(k[1]))
        return None
    return rewrite(p, f)


# ------------------------------------------------------------- comparison

def atoms_in(p, acc=None, deep=True):
    """All atom keys occurring in p (recursively)."""
    if acc is None:
        acc = set()

    def walkP(key):
        for m, _ in key:
            for a, _e in m:
                walkA(a)

    def walkB(b):
        if b[0] in ('lt', 'eq', 'fin'):
            walkP(b[1])
        elif b[0] == 'not':
            walkB(b[1])
        elif b[0] in ('and', 'or'):
            for x in b[1]:
                walkB(x)
        else:
            acc.add(('B',) + b)

    def walkL(x):
        if isinstance(x, tuple) and x and x[0] == 'lam':
            walkP(x[2])
        elif isinstance(x, tuple) and x and x[0] == 'blam':
            walkB(x[2])
        elif isinstance(x, tuple):
            for y in x:
                walkL(y)

    def walkA(a):
        k = _ATOMS[a]
        if k in acc:
            return
        acc.add(k)
        t = k[0]
        if t in ('exp',):
            for x, _ in k[1]:
                walkA(x)
        elif t in ('log', 'poly', 'abs', 'sign', 'sg'):
            walkP(k[1])
        elif t in ('ind', 'logind'):
            walkB(k[1])
        elif t == 'sel':
            walkB(k[1])
            walkP(k[2])
            walkP(k[3])
        elif t in ('min', 'max'):
            walkP(k[1])
            walkP(k[2])
        elif t == 'fn':
            for x in k[2]:
                walkP(x)
        elif t == 'sum':
            for x, _ in k[2]:
                walkA(x)
        elif t == 'red':
            walkP(k[3])
        elif t == 'app':
            for x in k[2]:
                walkL(x)
        if t in ('sym', 'rnd', 'app'):
            for i in k[-1]:
                if isinstance(i, tuple) and i and i[0] == 'ixp':
                    walkP(i[1])
        if t == 'delta':
            for i in k[1:3]:
                if isinstance(i, tuple) and i and i[0] == 'ixp':
                    walkP(i[1])
    walkP(p.key)
    return acc


def has_unknown(p):
    return any(k[0] == 'sym' and str(k[1]).startswith('?') or
               (k[0] == 'app' and str(k[1]).startswith('?')) or
               (k[0] == 'B' and k[1] == 'bsym' and str(k[2]).startswith('?'))
               for k in atoms_in(p))


def clear_denominators(d):
    for _ in range(12):
        den = {}
        for m in d.t:
            for a, e in m:
                if _ATOMS[a][0] == 'poly' and e < 0:
                    n = -(e.numerator // e.denominator)
                    if e.denominator == 1:
                        den[a] = max(den.get(a, 0), int(-e))
                    else:
                        den[a] = max(den.get(a, 0), n)
        if not den:
            return d
        q = ONE
        out = ZERO
        for m, c in d.t.items():
            dm = dict(m)
            q = num(c)
            extra = ONE
            for a, n in den.items():
                have = dm.get(a, F(0))
                newe = have + n
                dm.pop(a, None)
                pk = P_of_key(_ATOMS[a][1])
                ip = newe.numerator // newe.denominator
                fr = newe - ip
                for _i in range(max(ip, 0)):
                    extra = extra * pk
                if ip < 0:
                    fr = newe
                if fr:
                    dm[a] = fr
            out = out + P({tuple(sorted(dm.items())): c}) * extra
        if out == d:
            return d
        d = out
    return d


def _conds(p):
    """Candidate atomic conditions for case splitting."""
    out = []
    for k in sorted(atoms_in(p), key=repr):
        if k[0] in ('sel', 'ind'):
            def leaves(b):
                if b[0] in ('and', 'or'):
                    for x in b[1]:
                        leaves(x)
                elif b[0] == 'not':
                    leaves(b[1])
                elif b not in out:
                    out.append(b)
            leaves(k[1])
        elif k[0] == 'min' or k[0] == 'max':
            c = blt(P_of_key(k[1]), P_of_key(k[2]))
            while c[0] == 'not':
                c = c[1]
            if c not in out and c[0] not in 'TF':
                out.append(c)
        elif k[0] in ('abs', 'sign'):
            c = blt(P_of_key(k[1]), ZERO)
            while c[0] == 'not':
                c = c[1]
            if c not in out and c[0] not in 'TF':
                out.append(c)
    return out


def assume(p, cond, val):
    tv = BT if val else BF

    def fb(b):
        if b == cond:
            return tv
        if b[0] == 'not':
            return bnot(fb(b[1]))
        if b[0] == 'and':
            return band([fb(x) for x in b[1]])
        if b[0] == 'or':
            return bor([fb(x) for x in b[1]])
        return b

    def f(k):
        if k[0] == 'ind':
            b = fb(k[1])
            if b != k[1]:
                return ind(b)
        elif k[0] == 'logind':
            b = fb(k[1])
            if b != k[1]:
                return lind(b)
        elif k[0] == 'sel':
            b = fb(k[1])
            if b != k[1]:
                return sel(b, assume(P_of_key(k[2]), cond, val),
                           assume(P_of_key(k[3]), cond, val))
        elif k[0] in ('min', 'max'):
            x, y = P_of_key(k[1]), P_of_key(k[2])
            c = fb(blt(x, y))
            if c in (BT, BF):
                pick = x if (c == BT) == (k[0] == 'min') else y
                return assume(pick, cond, val)
        elif k[0] in ('abs', 'sign'):
            x = P_of_key(k[1])
            c = fb(blt(x, ZERO))
            if c in (BT, BF):
                x = assume(x, cond, val)
                if k[0] == 'abs':
                    return -x if c == BT else x
                return num(-1 if c == BT else 1)
        return None
    return rewrite(p, f)


def equal(a, b, depth=0):
    """True: normal forms agree.  False: they do not."""
    if a == b:
        return True
    d = clear_denominators(a - b)
    if not d.t:
        return True
    if depth >= 10:
        return False
    cs = _conds(d)
    if not cs:
        return False
    c = cs[0]
    x, y = assume(a, c, True), assume(b, c, True)
    u, v = assume(a, c, False), assume(b, c, False)
    if (x, y) == (a, b) and (u, v) == (a, b):
        return False
    return equal(x, y, depth + 1) and equal(u, v, depth + 1)


# --------------------------------------------------------------- printing

def _si(i):
    if isinstance(i, tuple) and i:
        if i[0] == 'q' or i[0] == 'k':
            return '%s%s' % (i[0], i[1])
        if i[0] == 'grp':
            return '(' + ','.join(_si(x) for x in i[1:]) + ')'
        if i[0] == 'part':
            return '%s.%d' % (_si(i[1]), i[2])
        if i[0] == 'ixp':
            return '{' + show(P_of_key(i[1])) + '}'
        if i[0] == 'rev':
            return 'rev(' + _si(i[1]) + ')'
    return str(i)


def show_b(b):
    t = b[0]
    if t == 'lt':
        return '(%s < 0)' % show(P_of_key(b[1]))
    if t == 'eq':
        return '(%s == 0)' % show(P_of_key(b[1]))
    if t == 'fin':
        return 'finite(%s)' % show(P_of_key(b[1]))
    if t == 'not':
        return '!' + show_b(b[1])
    if t in ('and', 'or'):
        return '(' + (' %s ' % t).join(show_b(x) for x in b[1]) + ')'
    if t == 'bsym':
        return '%s[%s]' % (b[1], ','.join(_si(i) for i in b[2]))
    return t


def show_lam(x):
    if isinstance(x, tuple) and x and x[0] == 'lam':
        return show(P_of_key(x[2]))
    if isinstance(x, tuple) and x and x[0] == 'blam':
        return show_b(x[2])
    if isinstance(x, tuple):
        return '(' + ', '.join(show_lam(y) for y in x) + ')'
    return str(x)


def show_atom(a):
    k = _ATOMS[a]
    t = k[0]
    S = lambda key: show(P_of_key(key))
    if t in ('sym', 'rnd'):
        ix = ','.join(_si(i) for i in k[2])
        nm = k[1] if t == 'sym' else 'RND<%s>' % (k[1],)
        return '%s[%s]' % (nm, ix) if ix else str(nm)
    if t == 'exp':
        return 'exp(%s)' % show(P({k[1]: F(1)}))
    if t in ('log', 'abs', 'sign', 'sg'):
        return '%s(%s)' % (t, S(k[1]))
    if t == 'poly':
        return '(%s)' % S(k[1])
    if t in ('ind', 'logind'):
        return '%s%s' % (t, show_b(k[1]))
    if t == 'sel':
        return 'sel(%s, %s, %s)' % (show_b(k[1]), S(k[2]), S(k[3]))
    if t in ('min', 'max'):
        return '%s(%s, %s)' % (t, S(k[1]), S(k[2]))
    if t == 'fn':
        return '%s(%s)' % (k[1], ', '.join(S(x) for x in k[2]))
    if t == 'delta':
        return 'delta(%s,%s)' % (_si(k[1]), _si(k[2]))
    if t == 'sum':
        return 'Sum_{%s}[%s]' % (','.join('%s<%s' % (_si(v), d)
                                          for v, d in k[1]),
                                 show(P({k[2]: F(1)})))
    if t == 'red':
        return '%s_{%s<%s}[%s]' % (k[1], _si(k[2][0]), k[2][1], S(k[3]))
    if t == 'app':
        ix = ','.join(_si(i) for i in k[3])
        return '%s(%s)%s' % (k[1], ', '.join(show_lam(x) for x in k[2]),
                             '[%s]' % ix if ix else '')
    if t == 'dim':
        return '#%s' % (k[1],)
    if t == 'e':
        return 'e'
    return '%s' % (k[1:],)


def show(p, limit=600):
    if not p.t:
        return '0'
    parts = []
    for m, c in p.key:
        s = '*'.join(show_atom(a) + ('' if e == 1 else '^%s' % e)
                     for a, e in m)
        if not s:
            parts.append(str(c))
        elif c == 1:
            parts.append(s)
        elif c == -1:
            parts.append('-' + s)
        else:
            parts.append('%s*%s' % (c, s))
    r = ' + '.join(parts).replace('+ -', '- ')
    return r if limit is None or len(r) <= limit else r[:limit] + '...'


def atom_key(a):
    return _ATOMS[a]
