"""Abstract interpreter for the Python subset used by zhusuan.

Walks the AST of /repo/zhusuan (never imports it), building value-graph terms.
Undecided branches are joined with gamma nodes; definite/guarded raises,
assignments to TF variables, session runs etc. are recorded as effects with
the guard under which they happen.
"""
import ast
import os
import sys
from .terms import (Graph, Term, Dim, Seg, Prod, DExpr, DType, DTYPES,
                    ShapeConflict)
from . import terms as T
from . import nf

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """The analyser cannot proceed (anchor missing, internal limit)."""


# ------------------------------------------------------------------ values

class Missing(object):
    def __repr__(self):
        return '<missing>'


MISSING = Missing()


class Unk(object):
    """Unmodelled value."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<unk %s>' % self.why


class ListV(object):
    maxlen = None

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return 'ListV(%r)' % (self.items,)


class IterV(object):
    """One-shot iterator."""

    def __init__(self, items):
        self.items = list(items)
        self.state = {'used': False}

    def __repr__(self):
        return 'IterV(%r)' % (self.items,)


class DictV(object):
    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def __repr__(self):
        return 'DictV(%r)' % (self.d,)


class SetV(object):
    def __init__(self, items=()):
        self.items = []
        for i in items:
            if not any(x is i or (type(x) is type(i) and not
                                  isinstance(x, Obj) and x == i)
                       for x in self.items):
                self.items.append(i)


class Choice(object):
    """Join of two values that have no common representation."""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return 'Choice(%r, %r, %r)' % (self.cond, self.a, self.b)


class Ext(object):
    """External (modelled or unmodelled) entity, by canonical dotted path."""
    _cache = {}

    def __new__(cls, path):
        r = cls._cache.get(path)
        if r is None:
            r = object.__new__(cls)
            r.path = path
            cls._cache[path] = r
        return r

    def __repr__(self):
        return 'Ext(%s)' % self.path


class Prim(object):
    """A callable implemented by the analyser."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Prim(%s)' % self.name


class FuncV(object):
    def __init__(self, node, env, defaults, kwdefaults, module, name,
                 cls=None):
        self.node, self.env = node, env
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.module, self.name = module, name
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return 'FuncV(%s)' % self.name


class BoundV(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return 'Bound(%r)' % (self.func,)


class GenCM(object):
    """Call of a function decorated with contextlib.contextmanager."""

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class PropertyV(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV(object):
    def __init__(self, f):
        self.f = f


class ClassMV(object):
    def __init__(self, f):
        self.f = f


class ClassV(object):
    def __init__(self, name, bases, attrs, module, node=None):
        self.name, self.bases, self.attrs = name, bases, attrs
        self.module, self.node = module, node
        self.nt_fields = None
        self.mro = None

    def __repr__(self):
        return 'ClassV(%s)' % self.name


class Obj(object):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return 'Obj<%s>' % self.cls.name


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModuleV(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.vars = {}


class CtxV(object):
    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data


class TShape(object):
    """Static tensor shape: dims is None (unknown rank) or a list of
    int | Dim | Prod | DExpr | None."""

    def __init__(self, dims):
        self.dims = None if dims is None else list(dims)

    def __repr__(self):
        return 'TShape(%s)' % (self.dims,)


class DimensionV(object):
    def __init__(self, d):
        self.d = d


class FInfo(object):
    def __init__(self, dt):
        self.dt = dt


class SliceV(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Env(object):
    def __init__(self, parent=None, module=None):
        self.vars = {}
        self.parent = parent
        self.module = module if module is not None else (
            parent.module if parent else None)
        self.globals_ = set()
        self.nonlocals = set()


class Abrupt(object):
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class Mixed(object):
    """Normal completion alive, with pending abrupt alternatives."""

    def __init__(self, pend):
        self.pend = pend      # list of (condterm, Abrupt, mark, delta)


class PyRaise(Exception):
    def __init__(self, exc, site=None):
        Exception.__init__(self, repr(exc))
        self.exc = exc
        self.site = site


class Budget(Exception):
    pass


BUILTIN_EXC = {}


def _mk_exc():
    obj = ClassV('object', [], {}, None)
    obj.mro = [obj]
    BUILTIN_EXC['object'] = obj
    tree = [('BaseException', 'object'), ('Exception', 'BaseException'),
            ('ValueError', 'Exception'), ('TypeError', 'Exception'),
            ('RuntimeError', 'Exception'), ('LookupError', 'Exception'),
            ('IndexError', 'LookupError'), ('KeyError', 'LookupError'),
            ('NotImplementedError', 'RuntimeError'),
            ('AttributeError', 'Exception'), ('NameError', 'Exception'),
            ('AssertionError', 'Exception'), ('ArithmeticError', 'Exception'),
            ('ZeroDivisionError', 'ArithmeticError'),
            ('OverflowError', 'ArithmeticError'),
            ('StopIteration', 'Exception'), ('ImportError', 'Exception'),
            ('OSError', 'Exception'), ('Warning', 'Exception'),
            ('FutureWarning', 'Warning'), ('UserWarning', 'Warning'),
            ('DeprecationWarning', 'Warning'),
            ('RuntimeWarning', 'Warning'), ('OpError', 'Exception'),
            ('InvalidArgumentError', 'OpError')]
    for n, b in tree:
        c = ClassV(n, [BUILTIN_EXC[b]], {}, None)
        c.mro = [c] + BUILTIN_EXC[b].mro
        BUILTIN_EXC[n] = c


_mk_exc()


def mro_of(cls):
    if cls.mro is None:
        seqs = [list(mro_of(b)) for b in cls.bases] + [list(cls.bases)]
        out = [cls]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in o[1:] for o in seqs):
                    break
            else:
                raise AnalysisError('MRO of %s' % cls.name)
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]
        cls.mro = out
    return cls.mro


def exc_is(exc, cls):
    if isinstance(exc, Obj):
        return cls in mro_of(exc.cls)
    return False


def exc_name(exc):
    return exc.cls.name if isinstance(exc, Obj) else repr(exc)


PYOPS = {
    ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
    ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
    ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
    ast.LShift: 'lshift', ast.RShift: 'rshift', ast.MatMult: 'matmul'}
CMPOPS = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
          ast.Eq: 'eq', ast.NotEq: 'ne'}
REFL = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq',
        'ne': 'ne'}
NATIVE = (int, float, str, bool, type(None), complex, bytes)


class Interp(object):
    MAX_STEPS = 3000000

    def __init__(self, root, known=(), overlay=None):
        self.root = root
        self.g = Graph()
        self.known = set(known)        # statically known Dims
        self.trail = []
        self.guards = []
        self.tguard = {}
        self.ctrl = []
        self.modules = {}
        self.raises = []               # guarded raises (guards, exc, site)
        self.effects = []              # (kind, data, guards, ctrl, site)
        self.events = []               # analysis events (conflicts ...)
        self.unknowns = []
        self.assumed = {}
        self.conversions = []          # (ClassV, func)
        self.depth = 0
        self.steps = 0
        self.site = None
        self.visited = set()           # (file, qualname) functions entered
        self.callsites = 0
        self.loop_level = 0
        self.fn_stack = []
        self.vscopes = []
        self.vstore = {}
        self.sess_conv = []
        self.templates = 0
        self.overlay = overlay or {}
        self.dim_lb = {}
        from .evalnf import Evaluator
        self.E = Evaluator()
        from . import tfmodel
        self.tf = tfmodel.Model(self)
        self.sess_hook = None

    # ------------------------------------------------------------ utilities
    def exc(self, name, msg=''):
        o = Obj(BUILTIN_EXC[name])
        o.attrs['args'] = (msg,)
        return o

    def throw(self, name, msg=''):
        raise PyRaise(self.exc(name, msg), self.site)

    def unk(self, why):
        self.unknowns.append((why, self.site))
        return Unk(why)

    def event(self, kind, msg):
        self.events.append((kind, msg, self.site, list(self.guards)))

    def set_loc(self, cont, key, val):
        if isinstance(cont, (ListV, SetV)):
            self.trail.append((cont, None, list(cont.items)))
            cont.items = list(val)
        elif val is MISSING:
            self.trail.append((cont, key, cont.get(key, MISSING)))
            cont.pop(key, None)
        else:
            self.trail.append((cont, key, cont.get(key, MISSING)))
            cont[key] = val

    def delta(self, mark):
        d = {}
        for cont, key, old in self.trail[mark:]:
            k = (id(cont), key)
            if k not in d:
                if isinstance(cont, (ListV, SetV)):
                    d[k] = (cont, key, list(cont.items))
                else:
                    d[k] = (cont, key, cont.get(key, MISSING))
        return d

    def rollback(self, mark):
        while len(self.trail) > mark:
            cont, key, old = self.trail.pop()
            if isinstance(cont, (ListV, SetV)):
                cont.items = old
            elif old is MISSING:
                cont.pop(key, None)
            else:
                cont[key] = old

    def apply_delta(self, d):
        for cont, key, val in d.values():
            self.set_loc(cont, key, val)

    def merge_deltas(self, cond, da, db):
        """State is at the branch point; install gamma of both deltas."""
        keys = list(da)
        keys += [k for k in db if k not in da]
        for k in keys:
            cont, key = (da.get(k) or db.get(k))[:2]
            if isinstance(cont, (ListV, SetV)):
                cur = list(cont.items)
                va = da[k][2] if k in da else cur
                vb = db[k][2] if k in db else cur
                if len(va) == len(vb):
                    v = [self.merge(cond, x, y) for x, y in zip(va, vb)]
                else:
                    v = [self.merge(cond, x, y)
                         for x, y in zip(va, vb)]
                    n = min(len(va), len(vb))
                    for x in va[n:]:
                        v.append(Choice(cond, x, MISSING))
                    for y in vb[n:]:
                        v.append(Choice(cond, MISSING, y))
            else:
                cur = cont.get(key, MISSING)
                va = da[k][2] if k in da else cur
                vb = db[k][2] if k in db else cur
                v = self.merge(cond, va, vb)
            self.set_loc(cont, key, v)

    def merge(self, cond, a, b):
        if a is b:
            return a
        if isinstance(a, NATIVE) and isinstance(b, NATIVE) and \
                type(a) is type(b) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and \
                len(a) == len(b):
            return tuple(self.merge(cond, x, y) for x, y in zip(a, b))
        if isinstance(a, ListV) and isinstance(b, ListV) and \
                len(a.items) == len(b.items):
            return ListV([self.merge(cond, x, y)
                          for x, y in zip(a.items, b.items)])
        if isinstance(a, DictV) and isinstance(b, DictV) and \
                list(a.d) == list(b.d):
            return DictV({k: self.merge(cond, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, TShape) and isinstance(b, TShape) and \
                a.dims == b.dims:
            return a
        ta, tb = self.tf.num_term(a), self.tf.num_term(b)
        if ta is not None and tb is not None:
            try:
                return self.tf.gamma(cond, ta, tb)
            except (ShapeConflict, nf.Undecidable):
                pass
        if isinstance(a, BoundV) and isinstance(b, BoundV) and \
                a.func is b.func and a.self_ is b.self_:
            return a
        return Choice(cond, a, b)

    def guard_term(self, guards=None):
        gs = self.guards if guards is None else guards
        t = None
        for c, v in gs:
            x = c if v else self.tf.lnot(c)
            t = x if t is None else self.tf.land(t, x)
        return t

    def fork(self, cond, fa, fb):
        """Evaluate both thunks under cond / not cond, join results."""
        mark = len(self.trail)
        ra = rb = None
        ea = eb = None
        self.guards.append((cond, True))
        old = self.assumed.get(cond.sid)
        self.assumed[cond.sid] = True
        try:
            ra = fa()
        except PyRaise as e:
            ea = e
        finally:
            self.guards.pop()
            self._restore(cond, old)
        da = self.delta(mark)
        self.rollback(mark)
        self.guards.append((cond, False))
        self.assumed[cond.sid] = False
        try:
            rb = fb()
        except PyRaise as e:
            eb = e
        finally:
            self.guards.pop()
            self._restore(cond, old)
        db = self.delta(mark)
        self.rollback(mark)
        if ea and eb:
            self.merge_deltas(cond, da, db)
            if exc_name(ea.exc) != exc_name(eb.exc):
                self.record_raise(eb, [(cond, False)])
            raise ea
        if ea:
            self.record_raise(ea, [(cond, True)])
            self.apply_delta(db)
            return rb
        if eb:
            self.record_raise(eb, [(cond, False)])
            self.apply_delta(da)
            return ra
        self.merge_deltas(cond, da, db)
        return self.merge(cond, ra, rb)

    def _restore(self, cond, old):
        if old is None:
            self.assumed.pop(cond.sid, None)
        else:
            self.assumed[cond.sid] = old

    def record_raise(self, e, extra=()):
        self.raises.append((list(self.guards) + list(extra), e.exc, e.site))

    # ------------------------------------------------------------- modules
    def module_path(self, name):
        rel = name.replace('.', '/')
        p = os.path.join(self.root, rel + '.py')
        if os.path.isfile(p):
            return p, False
        p = os.path.join(self.root, rel, '__init__.py')
        if os.path.isfile(p):
            return p, True
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, pkg = self.module_path(name)
        if name in self.overlay:
            path, pkg = '<overlay>', False
            src = self.overlay[name]
        elif path is None:
            raise AnalysisError('module %s not found' % name)
        else:
            with open(path) as f:
                src = f.read()
        m = ModuleV(name, path)
        m.pkg = pkg
        self.modules[name] = m
        tree = _PARSED.get((path, src))
        if tree is None:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = _PARSED[(path, src)] = ast.parse(src, path)
        env = Env(None, m)
        env.vars = m.vars
        m.env = env
        m.tree = tree
        m.vars['__name__'] = name
        saved, self.guards = self.guards, []
        sctrl, self.ctrl = self.ctrl, []
        ssite = self.site
        try:
            self.exec_block(tree.body, env)
        except PyRaise as e:
            self.event('import-raise', '%s: %s' % (name, exc_name(e.exc)))
        finally:
            self.guards = saved
            self.ctrl = sctrl
            self.site = ssite
        return m

    def import_name(self, full):
        if full == 'zhusuan' or full.startswith('zhusuan.'):
            if self.module_path(full)[0] or full in self.overlay:
                return self.load(full) if full != 'zhusuan' else \
                    self.pkg_stub()
            return None
        return Ext(self.tf.canon(full))

    def pkg_stub(self):
        m = self.modules.get('zhusuan')
        if m is None:
            m = ModuleV('zhusuan', os.path.join(self.root,
                                                'zhusuan/__init__.py'))
            m.pkg = True
            m.vars['__name__'] = 'zhusuan'
            m.stub = True
            self.modules['zhusuan'] = m
        return m

    def do_import_from(self, node, env):
        mod = node.module or ''
        if node.level:
            base = env.module.name.split('.')
            if not env.module.pkg:
                base = base[:-1]
            base = base[:len(base) - (node.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        if mod.startswith('__future__'):
            return
        if mod == 'zhusuan' or mod.startswith('zhusuan.'):
            for al in node.names:
                if al.name == '*':
                    m = self.load(mod)
                    names = m.vars.get('__all__')
                    if isinstance(names, ListV):
                        names = names.items
                    else:
                        names = [n for n in m.vars if n[0] != '_']
                    for n in names:
                        if n in m.vars:
                            env.vars[n] = m.vars[n]
                    continue
                sub = mod + '.' + al.name
                if self.module_path(sub)[0]:
                    v = self.load(sub)
                else:
                    m = self.load(mod) if mod != 'zhusuan' else \
                        self.load_pkg_full()
                    v = m.vars.get(al.name, MISSING)
                    if v is MISSING:
                        v = self.unk('import %s.%s' % (mod, al.name))
                self.bind(env, al.asname or al.name, v)
            return
        for al in node.names:
            self.bind(env, al.asname or al.name,
                      Ext(self.tf.canon(mod + '.' + al.name)))

    def load_pkg_full(self):
        m = self.modules.get('zhusuan')
        if m is not None and not getattr(m, 'stub', False):
            return m
        self.modules.pop('zhusuan', None)
        return self.load('zhusuan')

    # -------------------------------------------------------------- scopes
    def bind(self, env, name, val):
        if name in env.globals_:
            self.set_loc(env.module.vars, name, val)
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    self.set_loc(e.vars, name, val)
                    return
                e = e.parent
        self.set_loc(env.vars, name, val)

    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Choice):
                    v = self.drop_missing(v)
                return v
            e = e.parent
        m = env.module
        if m is not None and name in m.vars:
            return m.vars[name]
        v = self.tf.builtin(name)
        if v is not None:
            return v
        self.throw('NameError', name)

    def drop_missing(self, v):
        if isinstance(v, Choice):
            if v.a is MISSING:
                return self.drop_missing(v.b)
            if v.b is MISSING:
                return self.drop_missing(v.a)
            k = self.assumed.get(v.cond.sid)
            if k is not None:
                return self.drop_missing(v.a if k else v.b)
        return v

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        pend = []
        for st in stmts:
            comp = self.exec_stmt(st, env)
            if comp is None:
                continue
            if isinstance(comp, Mixed):
                pend = comp.pend + pend
                # the remaining statements run only when none of the pending
                # alternatives was taken
                for c, _, _, _ in comp.pend:
                    self.guards.append((c, False))
                continue
            return self.finish(pend, comp)
        return self.finish(pend, None)

    def finish(self, pend, comp):
        """Combine pending abrupt alternatives with the block completion."""
        for _ in pend:
            self.guards.pop()
        if not pend:
            return comp
        if comp is None:
            return Mixed(pend)
        return self.combine(pend, comp)

    def combine(self, pend, comp):
        """All-abrupt combination. pend is innermost first."""
        for cond, ab, mark, dl in pend:
            if comp.kind == 'raise' and ab.kind != 'raise':
                self.record_raise(PyRaise(comp.val, self.site),
                                  [(cond, False)])
                self.rollback(mark)
                self.apply_delta(dl)
                comp = ab
                continue
            if ab.kind == 'raise':
                if comp.kind == 'raise':
                    if exc_name(ab.val) != exc_name(comp.val):
                        self.record_raise(PyRaise(ab.val, self.site),
                                          [(cond, True)])
                    continue
                self.record_raise(PyRaise(ab.val, self.site), [(cond, True)])
                continue
            db = self.delta(mark)
            self.rollback(mark)
            self.merge_deltas(cond, dl, db)
            if ab.kind == comp.kind:
                comp = Abrupt(comp.kind, self.merge(cond, ab.val, comp.val)
                              if comp.kind == 'ret' else None)
            else:
                comp = Abrupt('ret', self.unk('mixed control flow'))
        return comp

    def normalise_mixed(self, comp):
        """Function end reached with pending alternatives: falls off."""
        if isinstance(comp, Mixed):
            return self.combine(comp.pend, Abrupt('ret', None))
        return comp

    def exec_stmt(self, st, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget('step budget exhausted')
        self.site = (env.module.path if env.module else '?', st.lineno,
                     self.fn_stack[-1] if self.fn_stack else '<module>')
        meth = getattr(self, 'st_' + type(st).__name__, None)
        if meth is None:
            self.unk('statement ' + type(st).__name__)
            return None
        try:
            return meth(st, env)
        except PyRaise as e:
            if e.site is None:
                e.site = self.site
            self.last_raise_site = e.site
            return Abrupt('raise', e.exc)

    def st_Expr(self, st, env):
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Global(self, st, env):
        env.globals_ |= set(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def st_Import(self, st, env):
        for al in st.names:
            v = self.import_name(al.name)
            if al.asname:
                self.bind(env, al.asname, v)
            else:
                top = al.name.split('.')[0]
                self.bind(env, top, self.import_name(top))

    def st_ImportFrom(self, st, env):
        self.do_import_from(st, env)

    def st_Return(self, st, env):
        return Abrupt('ret', self.eval(st.value, env) if st.value else None)

    def st_Break(self, st, env):
        return Abrupt('brk')

    def st_Continue(self, st, env):
        return Abrupt('cont')

    def st_Raise(self, st, env):
        if st.exc is None:
            e = getattr(self, 'cur_exc', None)
            raise PyRaise(e if e is not None else self.exc('RuntimeError'),
                          self.site)
        v = self.eval(st.exc, env)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, Choice):
            v = self.drop_missing(v)
        if not isinstance(v, Obj):
            v = self.exc('Exception', repr(v))
        raise PyRaise(v, self.site)

    def st_Assert(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if c is False:
            e = self.exc('AssertionError')
            e.attrs['args'] = (self.eval(st.msg, env),) if st.msg else ()
            raise PyRaise(e, self.site)
        if isinstance(c, Term):
            self.raises.append((list(self.guards) + [(c, False)],
                                self.exc('AssertionError'), self.site))

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.set_loc(env.vars, t.id, MISSING)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj):
                    if t.attr not in o.attrs:
                        self.throw('AttributeError', t.attr)
                    self.set_loc(o.attrs, t.attr, MISSING)
                else:
                    self.unk('del attribute')
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, DictV):
                    k = self.dkey(k)
                    if k not in o.d:
                        self.throw('KeyError', repr(k))
                    self.set_loc(o.d, k, MISSING)
                elif isinstance(o, ListV) and isinstance(k, int):
                    items = list(o.items)
                    del items[k]
                    self.set_loc(o, None, items)
                else:
                    self.unk('del item')

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if getattr(env, 'is_class', False) and \
                isinstance(st.target, ast.Name):
            env.classv.fields = getattr(env.classv, 'fields', []) + [
                (st.target.id, st.value is not None)]
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def st_AugAssign(self, st, env):
        cur = self.eval(_load(st.target), env)
        v = self.eval(st.value, env)
        op = PYOPS[type(st.op)]
        if isinstance(cur, ListV) and op == 'add':
            items = self.iterate(v)
            if items is None:
                self.unk('list += unknown')
                return
            self.set_loc(cur, None, cur.items + list(items))
            return
        if isinstance(cur, Obj):
            m = self.class_attr(cur.cls, '__i%s__' % op)
            if m is not None:
                self.assign(st.target, self.call(BoundV(m, cur), [v], {}),
                            env)
                return
        self.assign(st.target, self.binop(op, cur, v), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Choice):
                n = len(t.elts)
                a = self.unpack(v.a, t.elts)
                b = self.unpack(v.b, t.elts)
                vals = [self.merge(v.cond, x, y) for x, y in zip(a, b)]
            else:
                vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            self.setitem(o, k, v)
        else:
            self.unk('assign target')

    def unpack(self, v, elts):
        n = len(elts)
        if isinstance(v, Unk):
            return [self.unk('unpack ' + v.why)] * n
        items = self.iterate(v)
        if items is None:
            return [self.unk('unpack')] * n
        items = list(items)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            tail = n - i - 1
            if len(items) < n - 1:
                self.throw('ValueError', 'unpack')
            mid = items[i:len(items) - tail] if tail else items[i:]
            return items[:i] + [ListV(mid)] + (
                items[len(items) - tail:] if tail else [])
        if len(items) != n:
            self.throw('ValueError', 'not enough/too many values to unpack')
        return items

    def setattr(self, o, name, v):
        if isinstance(o, Choice):
            o = self.drop_missing(o)
        if isinstance(o, Obj):
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, PropertyV):
                if ca.fset is None:
                    self.throw('AttributeError', "can't set " + name)
                self.call(ca.fset, [o, v], {})
                return
            hook = self.class_attr(o.cls, '__setattr__')
            if hook is not None and isinstance(hook, FuncV):
                self.call(BoundV(hook, o), [name, v], {})
                return
            self.set_loc(o.attrs, name, v)
        elif isinstance(o, ClassV):
            self.set_loc(o.attrs, name, v)
        elif isinstance(o, FuncV):
            self.set_loc(o.attrs, name, v)
        elif isinstance(o, ModuleV):
            self.set_loc(o.vars, name, v)
        elif isinstance(o, Choice):
            self.fork(o.cond, lambda: self.setattr(o.a, name, v),
                      lambda: self.setattr(o.b, name, v))
        else:
            self.unk('setattr on %r' % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, DictV):
            self.set_loc(o.d, self.dkey(k), v)
        elif isinstance(o, ListV):
            if isinstance(k, int):
                items = list(o.items)
                try:
                    items[k] = v
                except IndexError:
                    self.throw('IndexError', 'assignment index')
                self.set_loc(o, None, items)
            elif isinstance(k, SliceV) and self.iterate(v) is not None and \
                    all(x is None or self.tf.as_int(x) is not None
                        for x in (k.a, k.b, k.c)):
                items = list(o.items)
                items[slice(*[None if x is None else self.tf.as_int(x)
                              for x in (k.a, k.b, k.c)])] = self.iterate(v)
                self.set_loc(o, None, items)
            else:
                items = [self.unk('list item') for _ in o.items]
                self.set_loc(o, None, items)
        elif isinstance(o, Obj):
            m = self.class_attr(o.cls, '__setitem__')
            if m is None:
                self.throw('TypeError', 'no item assignment')
            self.call(BoundV(m, o), [k, v], {})
        elif isinstance(o, Unk):
            pass
        else:
            self.unk('setitem on %r' % (o,))

    def dkey(self, k):
        if isinstance(k, Choice):
            k = self.drop_missing(k)
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        return k

    def st_FunctionDef(self, st, env):
        v = self.make_func(st, env)
        for d in reversed(st.decorator_list):
            dec = self.eval(d, env)
            v = self.call(dec, [v], {})
        self.bind(env, st.name, v)

    st_AsyncFunctionDef = st_FunctionDef

    def make_func(self, st, env):
        a = st.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [None if d is None else self.eval(d, env)
               for d in a.kw_defaults]
        f = FuncV(st, env, defaults, kwd, env.module,
                  getattr(st, 'name', '<lambda>'))
        f.cls = getattr(env, 'classv', None)
        f.qual = (env.classv_name + '.' if getattr(env, 'classv_name', None)
                  else '') + f.name
        return f

    def st_ClassDef(self, st, env):
        bases = []
        typed = False
        for b in st.bases:
            v = self.eval(b, env)
            if isinstance(v, ClassV):
                bases.append(v)
            elif isinstance(v, Ext) and v.path == 'py.object':
                pass
            elif isinstance(v, Ext) and v.path == 'typing.NamedTuple':
                typed = True
            else:
                self.unk('class base %r' % (v,))
        if not bases:
            bases = [BUILTIN_EXC['object']]
        cls = ClassV(st.name, bases, {}, env.module, st)
        cenv = Env(env, env.module)
        cenv.vars = cls.attrs
        cenv.is_class = True
        cenv.classv = cls
        cenv.classv_name = st.name
        self.exec_block(st.body, cenv)
        if typed:
            cls.nt_fields = [n for n, _ in getattr(cls, 'fields', [])]
            cls.nt_defaults = {n: cls.attrs.pop(n) for n, d in
                               getattr(cls, 'fields', []) if d}
        for b in bases:
            if b.nt_fields is not None and cls.nt_fields is None:
                cls.nt_fields = b.nt_fields
                cls.nt_defaults = getattr(b, 'nt_defaults', {})
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        self.bind(env, st.name, v)

    def st_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if c is True:
            return self.exec_block(st.body, env)
        if c is False:
            return self.exec_block(st.orelse, env)
        if isinstance(c, Unk):
            c = self.tf.unk_bool(c.why)
        return self.branch(c, lambda: self.exec_block(st.body, env),
                           lambda: self.exec_block(st.orelse, env))

    def branch(self, c, fa, fb):
        mark = len(self.trail)
        old = self.assumed.get(c.sid)

        def run(val, f):
            self.guards.append((c, val))
            self.assumed[c.sid] = val
            try:
                comp = f()
            finally:
                self.guards.pop()
                self._restore(c, old)
            return comp
        ca = run(True, fa)
        ma = self._settle(ca)
        da = self.delta(mark)
        self.rollback(mark)
        cb = run(False, fb)
        mb = self._settle(cb)
        db = self.delta(mark)
        self.rollback(mark)
        ca, cb = ma, mb
        if ca is None and cb is None:
            self.merge_deltas(c, da, db)
            return None
        if isinstance(ca, Abrupt) and ca.kind == 'raise':
            if isinstance(cb, Abrupt) and cb.kind == 'raise':
                self.merge_deltas(c, da, db)
                if exc_name(ca.val) != exc_name(cb.val):
                    self.record_raise(PyRaise(cb.val, self.site),
                                      [(c, False)])
                return ca
            self.record_raise(PyRaise(ca.val, self.last_raise_site),
                              [(c, True)])
            self.apply_delta(db)
            return cb
        if isinstance(cb, Abrupt) and cb.kind == 'raise':
            self.record_raise(PyRaise(cb.val, self.last_raise_site),
                              [(c, False)])
            self.apply_delta(da)
            return ca
        if isinstance(ca, Abrupt) and isinstance(cb, Abrupt):
            self.merge_deltas(c, da, db)
            if ca.kind == cb.kind:
                return Abrupt(ca.kind, self.merge(c, ca.val, cb.val)
                              if ca.kind == 'ret' else None)
            # different kinds: keep one pending
            self.rollback(mark)
            self.apply_delta(db)
            return Abrupt('ret', self.unk('mixed abrupt kinds'))
        if isinstance(ca, Abrupt):
            self.apply_delta(db)
            return Mixed([(c, ca, mark, da)])
        nc = self.tf.lnot(c)
        self.apply_delta(da)
        return Mixed([(nc, cb, mark, db)])

    def _settle(self, comp):
        if isinstance(comp, Mixed):
            # nested partial abrupt inside a branch: approximate by forcing
            # the pending alternatives to be joined at this level
            kinds = {ab.kind for _, ab, _, _ in comp.pend}
            if kinds == {'raise'}:
                for cond, ab, mark, dl in comp.pend:
                    self.record_raise(PyRaise(ab.val, self.site),
                                      [(cond, True)])
                return None
            self.partial = True
            raise Partial(comp)
        return comp

    def st_For(self, st, env):
        it = self.eval(st.iter, env)
        items = self.iterate(it)
        if items is None:
            if not isinstance(it, Unk):
                self.unk('loop over %r' % (it,))
            # unknown iterable: havoc assigned names
            self.havoc(st, env)
            return None

        def step(x):
            if isinstance(x, Choice) and (x.a is MISSING or
                                          x.b is MISSING):
                self.unk('conditional list element')
                x = self.drop_missing(x)
            self.assign(st.target, x, env)
            return self.exec_block(st.body, env)
        return self.loop(st, env, items, step)

    def loop(self, st, env, items, step):
        pend_brk = []
        pend_out = []
        n_guard = 0
        res = None
        for x in items:
            comp = step(x)
            if comp is None:
                continue
            if isinstance(comp, Mixed):
                for p in comp.pend:
                    cond, ab, mark, dl = p
                    if ab.kind == 'cont':
                        db = self.delta(mark)
                        self.rollback(mark)
                        self.merge_deltas(cond, dl, db)
                    elif ab.kind == 'raise':
                        self.record_raise(PyRaise(ab.val, self.site),
                                          [(cond, True)])
                    elif ab.kind == 'brk':
                        pend_brk.insert(0, p)
                        self.guards.append((cond, False))
                        n_guard += 1
                    else:
                        pend_out.insert(0, p)
                        self.guards.append((cond, False))
                        n_guard += 1
                continue
            if comp.kind == 'cont':
                continue
            if comp.kind == 'brk':
                res = 'brk'
                break
            res = comp
            break
        else:
            if st.orelse:
                r2 = self.exec_block(st.orelse, env)
                if r2 is not None:
                    res = r2
        for _ in range(n_guard):
            self.guards.pop()
        for cond, ab, mark, dl in pend_brk:
            db = self.delta(mark)
            self.rollback(mark)
            self.merge_deltas(cond, dl, db)
        if res == 'brk':
            res = None
        if pend_out:
            if res is None:
                return Mixed(pend_out)
            if isinstance(res, Mixed):
                return Mixed(res.pend + pend_out)
            return self.combine(pend_out, res)
        return res

    def havoc(self, st, env):
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.bind(env, n.id, self.unk('havoc ' + n.id))

    def st_While(self, st, env):
        leave = ast.If(ast.UnaryOp(ast.Not(), st.test), [ast.Break()], [])
        for x in ast.walk(leave):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, st)

        def turns():
            for _ in range(1500):
                c = self.truth(self.eval(st.test, env))
                if c is False:
                    return
                if c is True:
                    yield False
                elif isinstance(c, Unk):
                    break
                else:
                    yield True
            self.unk('undecided while condition')
            self.havoc(st, env)

        def step(open_):
            return self.exec_block(([leave] if open_ else []) + st.body, env)
        return self.loop(st, env, turns(), step)

    def st_With(self, st, env):
        return self._with(st, 0, env)

    def _with(self, st, i, env):
        if i == len(st.items):
            return self.exec_block(st.body, env)
        item = st.items[i]
        cm = self.eval(item.context_expr, env)
        if isinstance(cm, Choice):
            cm = self.drop_missing(cm)
        if isinstance(cm, CtxV):
            n = len(self.ctrl)
            if cm.kind == 'ctrl':
                self.ctrl.append(cm.data)
            nv = len(self.vscopes)
            if cm.kind == 'vscope':
                self.vscopes.append(cm.data)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, cm.data
                            if cm.kind == 'session' else None, env)
            try:
                return self._with(st, i + 1, env)
            finally:
                del self.ctrl[n:]
                del self.vscopes[nv:]
        if isinstance(cm, Obj):
            en = self.getattr(cm, '__enter__')
            v = self.call(en, [], {})
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
            comp = self._with(st, i + 1, env)
            ex = self.getattr(cm, '__exit__')
            if isinstance(comp, Abrupt) and comp.kind == 'raise':
                r = self.call(ex, [comp.val.cls if isinstance(
                    comp.val, Obj) else None, comp.val, None], {})
                if self.truth(r) is True:
                    return None
            else:
                self.call(ex, [None, None, None], {})
            return comp
        if isinstance(cm, GenCM):
            out = []

            def at_yield(v):
                if out:
                    self.throw('RuntimeError', "generator didn't stop")
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, env)
                comp = self._with(st, i + 1, env)
                out.append(comp)
                if isinstance(comp, Abrupt) and comp.kind == 'raise':
                    raise PyRaise(comp.val, getattr(
                        self, 'last_raise_site', self.site))
                return None
            self.yield_hook = at_yield
            self.call(cm.f, cm.args, cm.kw)
            if not out:
                self.throw('RuntimeError', "generator didn't yield")
            comp = out[0]
            if isinstance(comp, Abrupt) and comp.kind == 'raise':
                return None         # the generator swallowed it
            return comp
        self.unk('context manager %r' % (cm,))
        if item.optional_vars is not None:
            self.assign(item.optional_vars, self.unk('with'), env)
        return self._with(st, i + 1, env)

    def st_Try(self, st, env):
        start = len(self.raises)
        comp = self.exec_block(st.body, env)
        if isinstance(comp, Abrupt) and comp.kind == 'raise':
            h = self.find_handler(st, comp.val, env)
            if h is not None:
                comp = self.run_handler(h, comp.val, env)
        else:
            # guarded raises inside the body that a handler catches
            mine = self.raises[start:]
            keep = []
            todo = []
            for r in mine:
                h = self.find_handler(st, r[1], env)
                if h is None:
                    keep.append(r)
                else:
                    todo.append((r, h))
            self.raises[start:] = keep
            seen = set()
            for (gs, exc, site), h in todo:
                extra = gs[len(self.guards):]
                c = self.guard_term(extra)
                if c is None or (c.sid, id(h)) in seen:
                    continue
                seen.add((c.sid, id(h)))
                r2 = self.branch(c, lambda: self.run_handler(h, exc, env),
                                 lambda: None)
                if isinstance(r2, Mixed):
                    if comp is None:
                        comp = r2
                    elif isinstance(comp, Mixed):
                        comp = Mixed(r2.pend + comp.pend)
            if comp is None and st.orelse:
                comp = self.exec_block(st.orelse, env)
        if st.finalbody:
            r = self.exec_block(st.finalbody, env)
            if r is not None:
                return r
        return comp

    def find_handler(self, st, exc, env):
        for h in st.handlers:
            if h.type is None:
                return h
            t = self.eval(h.type, env)
            ts = t if isinstance(t, tuple) else (t,)
            for c in ts:
                if isinstance(c, ClassV) and exc_is(exc, c):
                    return h
        return None

    def run_handler(self, h, exc, env):
        if h.name:
            self.bind(env, h.name, exc)
        old = getattr(self, 'cur_exc', None)
        self.cur_exc = exc
        try:
            return self.exec_block(h.body, env)
        finally:
            self.cur_exc = old

    # ---------------------------------------------------------- expressions
    def eval(self, e, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget('step budget exhausted')
        return getattr(self, 'ex_' + type(e).__name__, self.ex_unknown)(
            e, env)

    def ex_unknown(self, e, env):
        return self.unk('expression ' + type(e).__name__)

    def ex_Constant(self, e, env):
        return e.value

    def ex_Name(self, e, env):
        return self.lookup(env, e.id)

    def ex_Tuple(self, e, env):
        return tuple(self.eval_list(e.elts, env))

    def ex_List(self, e, env):
        return ListV(self.eval_list(e.elts, env))

    def ex_Set(self, e, env):
        return SetV(self.eval_list(e.elts, env))

    def eval_list(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                if v is None:
                    self.throw('TypeError', 'argument after * must be an '
                                'iterable')
                items = self.iterate(v)
                if items is None:
                    out.append(self.unk('star'))
                else:
                    out.extend(items)
            else:
                out.append(self.eval(x, env))
        return out

    def ex_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                if isinstance(src, DictV):
                    d.update(src.d)
                else:
                    self.unk('dict **')
            else:
                kk = self.dkey(self.eval(k, env))
                d[kk] = self.eval(v, env)
        return DictV(d)

    def ex_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                if v.conversion in (114, 97):
                    x = self.to_str(x, True)
                sp = self.eval(v.format_spec, env) if v.format_spec else ''
                try:
                    out.append(format(x if isinstance(x, NATIVE)
                                      else self.to_str(x), sp))
                except Exception:
                    out.append(self.to_str(x))
        return ''.join(out)

    def to_str(self, v, rep=False):
        if isinstance(v, Choice):
            v = self.drop_missing(v)
        if isinstance(v, NATIVE) or v is None:
            return repr(v) if rep else str(v)
        if isinstance(v, Obj):
            for nm in (('__repr__',) if rep else ('__str__', '__repr__')):
                m = self.class_attr(v.cls, nm)
                if isinstance(m, FuncV):
                    r = self.call(BoundV(m, v), [], {})
                    return r if isinstance(r, str) else repr(r)
            if exc_is(v, BUILTIN_EXC['BaseException']):
                a = v.attrs.get('args', ())
                if isinstance(a, tuple):
                    if rep:
                        return '%s(%s)' % (v.cls.name, ', '.join(
                            self.to_str(x, True) for x in a))
                    return self.to_str(a[0]) if len(a) == 1 else \
                        ('' if not a else self.to_str(a))
        if isinstance(v, tuple):
            return '(%s%s)' % (', '.join(self.to_str(x, True) for x in v),
                               ',' if len(v) == 1 else '')
        if isinstance(v, ListV):
            return '[%s]' % ', '.join(self.to_str(x, True) for x in v.items)
        if isinstance(v, DictV):
            return '{%s}' % ', '.join(
                '%s: %s' % (self.to_str(k, True), self.to_str(x, True))
                for k, x in v.d.items())
        return repr(v)

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ex_Lambda(self, e, env):
        return self.make_func(e, env)

    def ex_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if c is True:
            return self.eval(e.body, env)
        if c is False:
            return self.eval(e.orelse, env)
        if isinstance(c, Unk):
            c = self.tf.unk_bool(c.why)
        return self.fork(c, lambda: self.eval(e.body, env),
                         lambda: self.eval(e.orelse, env))

    def ex_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i], env)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if c is True:
                return go(i + 1) if is_and else v
            if c is False:
                return v if is_and else go(i + 1)
            if isinstance(c, Unk):
                c = self.tf.unk_bool(c.why)
            if is_and:
                return self.fork(c, lambda: go(i + 1), lambda: v)
            return self.fork(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            if isinstance(c, bool):
                return not c
            if isinstance(c, Unk):
                return c
            return self.tf.lnot(c)
        return self.unop({ast.USub: 'neg', ast.UAdd: 'pos',
                          ast.Invert: 'invert'}[type(e.op)], v)

    def unop(self, op, v):
        if isinstance(v, Choice):
            return self.fork(v.cond, lambda: self.unop(op, v.a),
                             lambda: self.unop(op, v.b))
        if isinstance(v, Unk):
            return v
        if isinstance(v, (int, float)):
            return {'neg': lambda: -v, 'pos': lambda: +v,
                    'invert': lambda: ~v}[op]()
        if isinstance(v, Obj):
            m = self.class_attr(v.cls, '__%s__' % op)
            if m is not None:
                return self.call(BoundV(m, v), [], {})
            self.throw('TypeError', 'bad operand for unary ' + op)
        if isinstance(v, Term):
            if op == 'neg':
                return self.tf.ew('neg', v)
            if op == 'invert':
                return self.tf.lnot(v)
            return v
        return self.unk('unary %s on %r' % (op, v))

    def ex_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(PYOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, Choice):
            a = self.drop_missing(a)
        if isinstance(b, Choice):
            b = self.drop_missing(b)
        if isinstance(a, Choice):
            return self.fork(a.cond, lambda: self.binop(op, a.a, b),
                             lambda: self.binop(op, a.b, b))
        if isinstance(b, Choice):
            return self.fork(b.cond, lambda: self.binop(op, a, b.a),
                             lambda: self.binop(op, a, b.b))
        if isinstance(a, Unk) or isinstance(b, Unk):
            return a if isinstance(a, Unk) else b
        if isinstance(a, NATIVE) and isinstance(b, NATIVE):
            if op == 'mod' and isinstance(a, str):
                try:
                    return a % b
                except Exception:
                    return a
            try:
                import operator as o
                r = {'add': o.add, 'sub': o.sub, 'mul': o.mul,
                     'truediv': o.truediv, 'floordiv': o.floordiv,
                     'mod': o.mod, 'pow': o.pow, 'and': o.and_,
                     'or': o.or_, 'xor': o.xor, 'lshift': o.lshift,
                     'rshift': o.rshift}[op](a, b)
                return r
            except TypeError:
                self.throw('TypeError', 'operands')
            except ZeroDivisionError:
                self.throw('ZeroDivisionError', 'division')
        if op == 'mod' and isinstance(a, str):
            bb = b if isinstance(b, tuple) else (b,)
            try:
                return a % tuple(x if isinstance(x, NATIVE)
                                 else self.to_str(x) for x in bb)
            except Exception:
                return a
        if isinstance(a, ListV) and isinstance(b, ListV) and op == 'add':
            return ListV(a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'add':
            return a + b
        if op == 'mul' and isinstance(a, ListV) and isinstance(b, int):
            return ListV(a.items * b)
        if op == 'mul' and isinstance(b, ListV) and isinstance(a, int):
            return ListV(b.items * a)
        if op == 'mul' and isinstance(a, tuple) and isinstance(b, int):
            return a * b
        if isinstance(a, SetV) and isinstance(b, SetV):
            if op == 'or':
                return SetV(a.items + b.items)
            if op == 'sub':
                return SetV([x for x in a.items
                             if not self.contains(b, x) is True])
            if op == 'and':
                return SetV([x for x in a.items
                             if self.contains(b, x) is True])
            if op == 'xor':
                return SetV([x for x in a.items
                             if self.contains(b, x) is not True] +
                            [x for x in b.items
                             if self.contains(a, x) is not True])
        if isinstance(a, TShape) and op == 'add':
            return self.tf.shape_concat(a, b)
        if isinstance(a, DictV) and isinstance(b, DictV) and op == 'or':
            d = dict(a.d)
            d.update(b.d)
            return DictV(d)
        if isinstance(a, Obj):
            m = self.class_attr(a.cls, '__%s__' % op)
            if m is not None:
                return self.call(BoundV(m, a), [b], {})
        if isinstance(a, Term) and isinstance(b, Obj) and a.pytype is None:
            pass
        if isinstance(b, Obj):
            m = self.class_attr(b.cls, '__r%s__' % op)
            if m is not None and not (isinstance(a, Term) and
                                      a.pytype is None):
                return self.call(BoundV(m, b), [a], {})
        r = self.tf.arith(op, a, b)
        if r is NotImplemented:
            if isinstance(b, Obj) or isinstance(a, Obj):
                self.throw('TypeError', 'unsupported operand')
            return self.unk('binop %s %r %r' % (op, a, b))
        return r

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.compare(op, left, right)
            if res is None:
                res = v
            else:
                c = self.truth(res)
                if c is False:
                    return False
                if c is True:
                    res = v
                else:
                    res = self.tf.land(self.as_cond(c), self.as_cond(
                        self.truth(v)))
            left = right
        return res

    def as_cond(self, c):
        if isinstance(c, bool):
            return self.tf.pybool(c)
        if isinstance(c, Unk):
            return self.tf.unk_bool(c.why)
        return c

    def compare(self, op, a, b):
        if isinstance(a, Choice):
            a = self.drop_missing(a)
        if isinstance(b, Choice):
            b = self.drop_missing(b)
        if isinstance(a, Choice):
            return self.fork(a.cond, lambda: self.compare(op, a.a, b),
                             lambda: self.compare(op, a.b, b))
        if isinstance(b, Choice):
            return self.fork(b.cond, lambda: self.compare(op, a, b.a),
                             lambda: self.compare(op, a, b.b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            if isinstance(r, bool) and isinstance(op, ast.IsNot):
                r = not r
            elif isinstance(r, Term) and isinstance(op, ast.IsNot):
                r = self.tf.lnot(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                if isinstance(r, bool):
                    return not r
                if isinstance(r, Term):
                    return self.tf.lnot(r)
            return r
        name = CMPOPS[type(op)]
        return self.cmp(name, a, b)

    def cmp(self, name, a, b):
        if isinstance(a, Unk) or isinstance(b, Unk):
            return a if isinstance(a, Unk) else b
        if isinstance(a, NATIVE) and isinstance(b, NATIVE):
            import operator as o
            try:
                return {'lt': o.lt, 'le': o.le, 'gt': o.gt, 'ge': o.ge,
                        'eq': o.eq, 'ne': o.ne}[name](a, b)
            except TypeError:
                self.throw('TypeError', 'unorderable')
        if isinstance(a, SetV) and isinstance(b, SetV):
            ab = [self.contains(b, x) for x in a.items]
            ba = [self.contains(a, x) for x in b.items]
            if all(isinstance(x, bool) for x in ab + ba):
                le, ge = all(ab), all(ba)
                return {'le': le, 'ge': ge, 'lt': le and not ge,
                        'gt': ge and not le, 'eq': le and ge,
                        'ne': not (le and ge)}[name]
        for x, y, nm in ((a, b, name), (b, a, REFL[name])):
            if isinstance(x, Obj):
                m = self.class_attr(x.cls, '__%s__' % nm)
                if m is None and nm == 'ne':
                    m2 = self.class_attr(x.cls, '__eq__')
                    if m2 is not None:
                        r = self.truth(self.call(BoundV(m2, x), [y], {}))
                        return (not r) if isinstance(r, bool) else \
                            self.tf.lnot(self.as_cond(r))
                if m is not None:
                    return self.call(BoundV(m, x), [y], {})
        if name in ('eq', 'ne') and (a is None or b is None):
            r = a is b
            return r if name == 'eq' else not r
        if isinstance(a, tuple) and isinstance(b, tuple) and \
                name in ('eq', 'ne'):
            if len(a) != len(b):
                return name == 'ne'
            rs = [self.truth(self.cmp('eq', x, y)) for x, y in zip(a, b)]
            if all(r is True for r in rs):
                return name == 'eq'
            if any(r is False for r in rs):
                return name == 'ne'
            return self.unk('tuple comparison')
        if isinstance(a, ListV) and isinstance(b, ListV):
            return self.cmp(name, tuple(a.items), tuple(b.items))
        return self.tf.compare(name, a, b)

    def is_same(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, Unk):
                return x
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, (int, str, float)) and isinstance(
                b, (int, str, float)):
            return a == b and type(a) is type(b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.unk('is')
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        return False

    def contains(self, cont, x):
        if isinstance(cont, DictV):
            k = self.dkey(x)
            if isinstance(k, Unk):
                return k
            try:
                r = k in cont.d
            except TypeError:
                return self.unk('in dict')
            if r:
                v = cont.d[k]
                if isinstance(v, Choice):
                    if v.a is MISSING:
                        return self.tf.lnot(v.cond)
                    if v.b is MISSING:
                        return v.cond
            return r
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, Unk):
            return cont
        if isinstance(cont, Obj):
            m = self.class_attr(cont.cls, '__contains__')
            if m is not None:
                return self.call(BoundV(m, cont), [x], {})
        if isinstance(cont, SetV):
            items = cont.items
        elif isinstance(cont, (ListV, tuple, IterV)):
            items = self.iterate(cont)
        else:
            return self.unk('in %r' % (cont,))
        und = None
        for i in items:
            if i is x:
                return True
            r = self.truth(self.cmp('eq', i, x)) \
                if not isinstance(i, Obj) else (i is x)
            if r is True:
                return True
            if r is not False:
                und = r
        if und is not None:
            return self.as_cond(und)
        return False

    # comprehension
    def comp(self, gens, env, body):
        out = []

        def go(i, env):
            if i == len(gens):
                out.append(body(env))
                return
            g = gens[i]
            it = self.eval(g.iter, env)
            items = self.iterate(it)
            if items is None:
                out.append(it if isinstance(it, Unk)
                           else self.unk('comprehension over %r' % (it,)))
                self.comp_unknown = True
                return
            for x in items:
                e2 = env
                self.assign(g.target, x, e2)
                ok = True
                for cnd in g.ifs:
                    c = self.truth(self.eval(cnd, e2))
                    if c is False:
                        ok = False
                        break
                    if c is not True:
                        # undecided membership: element present under c
                        n = len(out)
                        cc = self.as_cond(c)
                        self.fork(cc, lambda: go(i + 1, e2), lambda: None)
                        for j in range(n, len(out)):
                            out[j] = Choice(cc, out[j], MISSING)
                        ok = False
                        break
                if ok:
                    go(i + 1, e2)
        e = Env(env, env.module)
        go(0, e)
        return out

    def ex_ListComp(self, e, env):
        return ListV(self.comp(e.generators, env,
                               lambda en: self.eval(e.elt, en)))

    def ex_GeneratorExp(self, e, env):
        return IterV(self.comp(e.generators, env,
                               lambda en: self.eval(e.elt, en)))

    def ex_SetComp(self, e, env):
        return SetV(self.comp(e.generators, env,
                              lambda en: self.eval(e.elt, en)))

    def ex_DictComp(self, e, env):
        prs = self.comp(e.generators, env,
                        lambda en: (self.dkey(self.eval(e.key, en)),
                                    self.eval(e.value, en)))
        d = {}
        for p in prs:
            if isinstance(p, tuple):
                d[p[0]] = p[1]
            elif isinstance(p, Choice) and isinstance(p.a, tuple):
                d[p.a[0]] = Choice(p.cond, p.a[1], MISSING)
            else:
                self.unk('dict comprehension')
        return DictV(d)

    def iterate(self, v):
        """List of items or None when unknown."""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, ListV):
            return list(v.items)
        if isinstance(v, IterV):
            if v.state['used']:
                return []
            self.set_loc(v.state, 'used', True)
            return list(v.items)
        if isinstance(v, DictV):
            return list(v.d)
        if isinstance(v, SetV):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, TShape):
            if v.dims is None:
                self.throw('ValueError', 'iterate over unknown rank')
            return [DimensionV(d) for d in v.dims]
        if isinstance(v, Obj):
            if v.cls.nt_fields is not None:
                return [v.attrs[f] for f in v.cls.nt_fields]
            m = self.class_attr(v.cls, '__iter__')
            if m is not None:
                return self.iterate(self.call(BoundV(m, v), [], {}))
            self.throw('TypeError', 'not iterable')
        if isinstance(v, Term):
            return self.tf.iter_term(v)
        if isinstance(v, Choice):
            w = self.drop_missing(v)
            if w is not v:
                return self.iterate(w)
            return None
        return None

    # subscripting
    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        k = self.eval(e.slice, env)
        return self.getitem(o, k)

    def ex_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def ex_Index(self, e, env):
        return self.eval(e.value, env)

    def ex_Starred(self, e, env):
        return self.unk('starred')

    def getitem(self, o, k):
        if isinstance(o, Choice):
            o2 = self.drop_missing(o)
            if o2 is not o:
                return self.getitem(o2, k)
            return self.fork(o.cond, lambda: self.getitem(o.a, k),
                             lambda: self.getitem(o.b, k))
        if isinstance(k, Choice):
            k2 = self.drop_missing(k)
            if k2 is not k:
                return self.getitem(o, k2)
            return self.fork(k.cond, lambda: self.getitem(o, k.a),
                             lambda: self.getitem(o, k.b))
        if isinstance(o, Unk):
            return o
        if isinstance(o, DictV):
            kk = self.dkey(k)
            if isinstance(kk, Unk):
                return kk
            if kk not in o.d:
                df = getattr(o, 'default', None)
                if df is not None:
                    self.set_loc(o.d, kk, self.call(df, [], {}))
                    return o.d[kk]
                self.throw('KeyError', repr(kk))
            return self.drop_missing(o.d[kk])
        if isinstance(o, (ListV, tuple, str)):
            items = o.items if isinstance(o, ListV) else o
            if isinstance(k, SliceV):
                f = lambda x: self.tf.as_int(x)
                try:
                    r = items[slice(*[None if x is None else f(x)
                                      for x in (k.a, k.b, k.c)])]
                except TypeError:
                    return self.unk('slice bounds')
                return ListV(r) if isinstance(o, ListV) else r
            i = self.tf.as_int(k)
            if i is None:
                return self.unk('symbolic list index')
            try:
                return self.drop_missing(items[i])
            except IndexError:
                self.throw('IndexError', 'list index')
        if isinstance(o, TShape):
            return self.tf.shape_getitem(o, k)
        if isinstance(o, Obj):
            if o.cls.nt_fields is not None and isinstance(k, int):
                return o.attrs[o.cls.nt_fields[k]]
            m = self.class_attr(o.cls, '__getitem__')
            if m is not None:
                return self.call(BoundV(m, o), [k], {})
            self.throw('TypeError', 'not subscriptable')
        if isinstance(o, Term):
            return self.tf.getitem(o, k)
        return self.unk('subscript of %r' % (o,))

    # attributes
    def class_attr(self, cls, name):
        for c in mro_of(cls):
            if name in c.attrs:
                v = c.attrs[name]
                if isinstance(v, Choice):
                    v = self.drop_missing(v)
                return v
        return None

    def class_has_none(self, cls, name):
        """Is there a class attribute of value None?"""
        for c in mro_of(cls):
            if name in c.attrs:
                v = c.attrs[name]
                return v is None or isinstance(v, Choice) and \
                    self.drop_missing(v) is None
        return False

    def ex_Attribute(self, e, env):
        o = self.eval(e.value, env)
        return self.getattr(o, e.attr)

    def getattr(self, o, name):
        r = self.getattr_opt(o, name)
        if r is MISSING:
            self.throw('AttributeError', '%r has no attribute %s' % (o, name))
        if isinstance(r, Choice) and (r.a is MISSING or r.b is MISSING):
            r = self.drop_missing(r)
        return r

    def getattr_opt(self, o, name):
        if isinstance(o, Choice):
            w = self.drop_missing(o)
            if w is not o:
                return self.getattr_opt(w, name)
            return self.fork(o.cond, lambda: self.getattr(o.a, name),
                             lambda: self.getattr(o.b, name))
        if isinstance(o, Unk):
            return o
        if isinstance(o, Obj):
            return self.obj_attr(o, name)
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(mro_of(o))
            if name == '__dict__':
                return DictV(o.attrs)
            v = self.class_attr(o, name)
            if v is None:
                if self.class_has_none(o, name):
                    return None
                if name == '__init__' or name == '__setattr__':
                    return Prim('object.' + name,
                                lambda I, a, k: None)
                if name == '__new__':
                    return Prim('object.__new__',
                                lambda I, a, k: Obj(a[0]))
                return MISSING
            if isinstance(v, StaticV):
                return v.f
            if isinstance(v, ClassMV):
                return BoundV(v.f, o)
            return v
        if isinstance(o, ModuleV):
            if name in o.vars:
                return o.vars[name]
            sub = o.name + '.' + name
            if self.module_path(sub)[0]:
                return self.load(sub)
            if getattr(o, 'stub', False):
                m = self.load_pkg_full()
                if name in m.vars:
                    return m.vars[name]
            return MISSING
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return ''
            if name == '__module__':
                return o.module.name if o.module else ''
            return MISSING
        if isinstance(o, BoundV):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self.getattr_opt(o.func, name)
        if isinstance(o, PropertyV):
            if name == 'setter':
                return Prim('setter', lambda I, a, k:
                            PropertyV(o.fget, a[0]))
            if name == 'fget':
                return o.fget
            return MISSING
        return self.tf.attr(o, name)

    def obj_attr(self, o, name):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return DictV(o.attrs)
        if name == '__doc__':
            return ''
        ca = self.class_attr(o.cls, name)
        if isinstance(ca, PropertyV):
            return self.call(ca.fget, [o], {})
        if name in o.attrs:
            return o.attrs[name]
        if ca is not None:
            if isinstance(ca, (FuncV, Prim)):
                return BoundV(ca, o)
            if isinstance(ca, StaticV):
                return ca.f
            if isinstance(ca, ClassMV):
                return BoundV(ca.f, o.cls)
            if isinstance(ca, Obj):
                g = self.class_attr(ca.cls, '__get__')
                if g is not None:
                    return self.call(BoundV(g, ca), [o, o.cls], {})
            return ca
        if self.class_has_none(o.cls, name):
            return None
        if name in ('__init__', '__setattr__', '__hash__', '__enter__x'):
            return Prim('object.' + name, lambda I, a, k: None)
        h = self.class_attr(o.cls, '__getattr__')
        if h is not None:
            try:
                return self.call(BoundV(h, o), [name], {})
            except PyRaise as e:
                if exc_is(e.exc, BUILTIN_EXC['AttributeError']):
                    return MISSING
                raise
        if o.cls.nt_fields is not None and name == '_fields':
            return tuple(o.cls.nt_fields)
        if o.cls.nt_fields is not None and name == '_asdict':
            return Prim('_asdict', lambda I, a, k: DictV(
                {f: o.attrs[f] for f in o.cls.nt_fields}))
        if o.cls.nt_fields is not None and name == '_replace':
            def rep(I, a, k):
                n = Obj(o.cls)
                n.attrs.update(o.attrs)
                n.attrs.update(k)
                return n
            return Prim('_replace', rep)
        if exc_is(o, BUILTIN_EXC['BaseException']):
            return Prim('exc.' + name, lambda I, a, k: None)
        return MISSING

    def super_attr(self, s, name):
        cls = s.obj.cls if isinstance(s.obj, Obj) else s.obj
        mro = mro_of(cls)
        i = mro.index(s.cls) if s.cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.attrs:
                v = c.attrs[name]
                if isinstance(v, PropertyV):
                    return self.call(v.fget, [s.obj], {})
                if isinstance(v, StaticV):
                    return v.f
                if isinstance(v, ClassMV):
                    return BoundV(v.f, cls)
                if isinstance(v, (FuncV, Prim)):
                    return BoundV(v, s.obj)
                return v
        if name in ('__init__', '__enter__', '__exit__', '__setattr__',
                    '__init_subclass__'):
            if name == '__setattr__':
                return Prim('object.__setattr__', lambda I, a, k:
                            I.set_loc(s.obj.attrs, a[0], a[1]))
            return Prim('object.' + name, lambda I, a, k: None)
        return MISSING

    # truth
    def truth(self, v):
        if isinstance(v, Choice):
            w = self.drop_missing(v)
            if w is not v:
                return self.truth(w)
            ta, tb = self.truth(v.a), self.truth(v.b)
            if isinstance(ta, bool) and isinstance(tb, bool):
                if ta == tb:
                    return ta
                return v.cond if ta else self.tf.lnot(v.cond)
            if isinstance(ta, Unk) or isinstance(tb, Unk):
                return self.unk('truth')
            return self.tf.gamma(v.cond, self.as_cond(ta), self.as_cond(tb))
        if v is None:
            return False
        if isinstance(v, NATIVE):
            return bool(v)
        if isinstance(v, Unk):
            return v
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, ListV):
            return len(v.items) > 0
        if isinstance(v, SetV):
            return len(v.items) > 0
        if isinstance(v, DictV):
            ks = [k for k in v.d]
            if ks and all(isinstance(v.d[k], Choice) and
                          (v.d[k].a is MISSING or v.d[k].b is MISSING)
                          for k in ks):
                return self.unk('truth of partially known dict')
            return len(v.d) > 0
        if isinstance(v, TShape):
            return v.dims is not None
        if isinstance(v, Term):
            return self.tf.truth(v)
        if isinstance(v, Obj):
            for nm in ('__bool__', '__nonzero__'):
                m = self.class_attr(v.cls, nm)
                if m is not None:
                    return self.truth(self.call(BoundV(m, v), [], {}))
            m = self.class_attr(v.cls, '__len__')
            if m is not None:
                return self.truth(self.call(BoundV(m, v), [], {}))
            return True
        if isinstance(v, DimensionV):
            return True
        return True

    # ---------------------------------------------------------------- calls
    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args:
            # zero-argument super
            fenv = env
            while fenv is not None and not hasattr(fenv, 'func'):
                fenv = fenv.parent
            f = fenv.func
            a = f.node.args.args
            return SuperV(f.cls, fenv.vars[a[0].arg])
        f = self.eval(e.func, env)
        args = self.eval_list(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, Choice):
                    d = self.drop_missing(d)
                if isinstance(d, DictV):
                    for kk, vv in d.d.items():
                        if kk in kw:
                            self.throw('TypeError', 'multiple values for ' +
                                       str(kk))
                        kw[kk] = vv
                elif d is None:
                    self.throw('TypeError', 'argument after ** must be a '
                               'mapping')
                else:
                    self.unk('**kwargs')
            else:
                if k.arg in kw:
                    self.throw('TypeError', 'multiple values for ' + k.arg)
                kw[k.arg] = self.eval(k.value, env)
        old = self.site
        self.site = (env.module.path if env.module else '?', e.lineno,
                     self.fn_stack[-1] if self.fn_stack else '<module>')
        try:
            return self.call(f, args, kw)
        finally:
            self.site = old

    def call(self, f, args, kw):
        self.callsites += 1
        if isinstance(f, Choice):
            w = self.drop_missing(f)
            if w is not f:
                return self.call(w, args, kw)
            return self.fork(f.cond, lambda: self.call(f.a, args, kw),
                             lambda: self.call(f.b, args, kw))
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, Prim):
            return f.fn(self, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.tf.call(f.path, args, kw)
        if isinstance(f, Obj):
            m = self.class_attr(f.cls, '__call__')
            if m is not None:
                return self.call(BoundV(m, f), args, kw)
            self.throw('TypeError', 'not callable')
        if isinstance(f, (StaticV,)):
            return self.call(f.f, args, kw)
        if isinstance(f, DType):
            return self.tf.np_cast(f, args, kw)
        if isinstance(f, Unk):
            return f
        if f is None or isinstance(f, NATIVE):
            self.throw('TypeError', 'not callable')
        return self.unk('call of %r' % (f,))

    def instantiate(self, cls, args, kw):
        if cls.nt_fields is not None:
            o = Obj(cls)
            for n, v in zip(cls.nt_fields, args):
                o.attrs[n] = v
            for k, v in kw.items():
                o.attrs[k] = v
            if len(args) > len(cls.nt_fields):
                self.throw('TypeError', 'too many fields')
            for n in cls.nt_fields:
                if n not in o.attrs and n in getattr(cls, 'nt_defaults', {}):
                    o.attrs[n] = cls.nt_defaults[n]
            for n in cls.nt_fields:
                if n not in o.attrs:
                    self.throw('TypeError', 'missing field ' + n)
            return o
        o = Obj(cls)
        init = self.class_attr(cls, '__init__')
        if init is not None:
            self.call(BoundV(init, o), args, kw)
        elif BUILTIN_EXC['BaseException'] in mro_of(cls):
            o.attrs['args'] = tuple(args)
        return o

    def call_func(self, f, args, kw):
        if self.depth > 160:
            return self.unk('call depth')
        node = f.node
        a = node.args
        env = Env(f.env if not getattr(f.env, 'is_class', False)
                  else f.env.parent, f.module)
        env.func = f
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + \
            [x.arg for x in a.args]
        vals = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                self.throw('TypeError', '%s() takes %d positional arguments '
                           'but %d were given' % (f.name, len(names),
                                                  len(args)))
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vals:
                    self.throw('TypeError', '%s() got multiple values for '
                               'argument %s' % (f.name, k))
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictV(extra)
        elif extra:
            self.throw('TypeError', '%s() got an unexpected keyword argument '
                       '%s' % (f.name, sorted(map(str, extra))[0]))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    self.throw('TypeError', '%s() missing argument %s' %
                               (f.name, n))
                vals[n] = f.defaults[j]
        for x, d, dn in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg not in vals:
                if dn is None:
                    self.throw('TypeError', 'missing keyword ' + x.arg)
                vals[x.arg] = d
        env.vars.update(vals)
        qual = getattr(f, 'qual', f.name)
        self.visited.add((f.module.path if f.module else '?', qual))
        self.depth += 1
        self.fn_stack.append(qual)
        site = self.site
        ng = len(self.guards)
        nctrl = len(self.ctrl)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if _is_gen(node):
                return self.run_generator(f, node, env)
            comp = self.exec_fn_body(node.body, env)
            comp = self.normalise_mixed(comp)
            if comp is None:
                return None
            if comp.kind == 'ret':
                return comp.val
            if comp.kind == 'raise':
                raise PyRaise(comp.val, getattr(self, 'last_raise_site',
                                                self.site))
            return None
        finally:
            self.depth -= 1
            self.fn_stack.pop()
            self.site = site
            del self.guards[ng:]
            del self.ctrl[nctrl:]

    def exec_fn_body(self, body, env):
        mark = len(self.trail)
        ng, nr = len(self.guards), len(self.raises)
        try:
            return self.exec_block(body, env)
        except Partial:
            # a branch completed partially (return nested under several
            # undecided ifs): restructure `if c: A; rest` so that every
            # undecided branch carries its continuation
            self.rollback(mark)
            del self.guards[ng:]
            del self.raises[nr:]
            return self.exec_cont(list(body), env)

    def exec_cont(self, stmts, env):
        """Execute with continuation duplication at undecided ifs."""
        i = 0
        while i < len(stmts):
            st = stmts[i]
            if isinstance(st, ast.If):
                self.site = (env.module.path, st.lineno,
                             self.fn_stack[-1] if self.fn_stack else '')
                try:
                    c = self.truth(self.eval(st.test, env))
                except PyRaise as e:
                    return Abrupt('raise', e.exc)
                rest = stmts[i + 1:]
                if c is True:
                    return self.exec_cont(list(st.body) + rest, env)
                if c is False:
                    return self.exec_cont(list(st.orelse) + rest, env)
                if isinstance(c, Unk):
                    c = self.tf.unk_bool(c.why)
                return self.branch(
                    c, lambda: self.exec_cont(list(st.body) + rest, env),
                    lambda: self.exec_cont(list(st.orelse) + rest, env))
            comp = self.exec_stmt(st, env)
            if isinstance(comp, Mixed):
                comp2 = self.exec_cont(stmts[i + 1:], env)
                if comp2 is None:
                    comp2 = Abrupt('ret', None)
                if isinstance(comp2, Mixed):
                    return Mixed(comp2.pend + comp.pend)
                return self.combine(comp.pend, comp2)
            if comp is not None:
                return comp
            i += 1
        return None

    def run_generator(self, f, node, env):
        env.yields = []
        hook = self.__dict__.pop('yield_hook', None)
        if hook is not None:
            env.on_yield = hook
        comp = self.exec_block(node.body, env)
        if isinstance(comp, Abrupt) and comp.kind == 'raise':
            raise PyRaise(comp.val, getattr(self, 'last_raise_site',
                                            self.site))
        return IterV(env.yields)

    def ex_YieldFrom(self, e, env):
        it = self.iterate(self.eval(e.value, env))
        en = self.gen_env(env)
        if it is None or en is None:
            return self.unk('yield from')
        en.yields += it
        return None

    def gen_env(self, env):
        while env is not None and not hasattr(env, 'yields'):
            env = env.parent
        return env

    # structural pattern matching
    def st_Match(self, st, env):
        v = self.eval(st.subject, env)
        for c in st.cases:
            binds = {}
            r = self.match(c.pattern, v, binds, env)
            if r is None:
                self.unk('match pattern')
                return None
            if not r:
                continue
            for k, x in binds.items():
                self.bind(env, k, x)
            if c.guard is not None:
                t = self.truth(self.eval(c.guard, env))
                if t is False:
                    continue
                if t is not True:
                    self.unk('match guard')
                    return None
            return self.exec_block(c.body, env)
        return None

    def match(self, p, v, binds, env):
        if isinstance(v, Choice):
            v = self.drop_missing(v)
        if isinstance(v, (Unk, Choice)) and not (
                isinstance(p, ast.MatchAs) and p.pattern is None):
            return None
        if isinstance(p, ast.MatchAs):
            r = True if p.pattern is None else \
                self.match(p.pattern, v, binds, env)
            if r and p.name:
                binds[p.name] = v
            return r
        if isinstance(p, ast.MatchSingleton):
            r = self.is_same(v, p.value)
            return r if isinstance(r, bool) else None
        if isinstance(p, ast.MatchValue):
            r = self.truth(self.cmp('eq', v, self.eval(p.value, env)))
            return r if isinstance(r, bool) else None
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                r = self.match(q, v, binds, env)
                if r is None or r:
                    return r
            return False
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, ListV)):
                return False
            items = list(self.iterate(v))
            star = [i for i, q in enumerate(p.patterns)
                    if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if star:
                if len(items) < n - 1:
                    return False
                i = star[0]
                k = len(items) - (n - 1)
                if p.patterns[i].name:
                    binds[p.patterns[i].name] = ListV(items[i:i + k])
                items = items[:i] + items[i + k:]
                pats = p.patterns[:i] + p.patterns[i + 1:]
            else:
                pats = p.patterns
            if len(items) != len(pats):
                return False
            for q, x in zip(pats, items):
                r = self.match(q, x, binds, env)
                if not r:
                    return r
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns:
            r = self.tf.isinstance_(v, self.eval(p.cls, env))
            if r is not True:
                return r if r is False else None
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                r = self.match(q, self.getattr(v, a), binds, env)
                if not r:
                    return r
            return True
        if isinstance(p, ast.MatchMapping) and p.rest is None and \
                isinstance(v, DictV):
            for k, q in zip(p.keys, p.patterns):
                kk = self.dkey(self.eval(k, env))
                if kk not in v.d:
                    return False
                r = self.match(q, v.d[kk], binds, env)
                if not r:
                    return r
            return True
        return None

    def ex_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value else None
        en = self.gen_env(env)
        if en is not None:
            h = getattr(en, 'on_yield', None)
            if h is not None:
                return h(v)
            en.yields.append(v)
        return None


class Partial(Exception):
    pass


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


_GEN = {}
_PARSED = {}       # trees are kept alive: _GEN is keyed by node identity


def _is_gen(node):
    r = _GEN.get(id(node))
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(n))
        _GEN[id(node)] = r
    return r
