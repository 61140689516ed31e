"""AST interpreter over symbolic values"""
import ast
import os
import sys
import importlib
import inspect
import types
import builtins
import operator
from collections import OrderedDict
from .core import *
from . import core
from .objs import *

REPO = os.environ.get('PYVC_REPO', '/repo')
_ast_cache = {}


def load_ast(path):
    if path not in _ast_cache:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}

        def walk(body, pre):
            for n in body:
                if isinstance(n, (ast.FunctionDef,)):
                    idx.setdefault(pre + n.name, n)
                    number_loops(n)
                    walk(n.body, pre + n.name + '.<locals>.')
                elif isinstance(n, ast.ClassDef):
                    idx[pre + n.name] = n
                    walk(n.body, pre + n.name + '.')
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    walk(n.body, pre)
                    walk(getattr(n, 'orelse', []), pre)
                    for h in getattr(n, 'handlers', []):
                        walk(h.body, pre)
        walk(tree.body, '')
        _ast_cache[path] = (src, tree, idx)
    return _ast_cache[path]


def number_loops(fn):
    k = 0
    for n in _own_nodes(fn):
        if isinstance(n, (ast.For, ast.While)):
            n._ordinal = k
            k += 1
    fn._nloops = k


def _own_nodes(fn):
    """nodes in source order, not descending into nested functions"""
    st = list(reversed(fn.body))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(reversed(list(ast.iter_child_nodes(n))))


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Through(Exception):
    """a for loop over a generator is left: passes through the frames of the generator"""
    def __init__(self, exc):
        self.exc = exc


class Frame(object):
    def __init__(self, fn, locs, glob, parent=None):
        self.fn = fn
        self.locs = locs
        self.glob = glob
        self.parent = parent
        self.globals_decl = set()
        self.nonlocals = set()
        self.yields = None
        self.consumer = None
        self.exc = None
        self.ident = None


class LoopSpec(object):
    """inv(L, k, S) -> list of (name, formula); hints: local name -> maker()
    contents: name of a local list -> (get, same): item i of that list is get(i), where same(v, i) says that v is that"""
    def __init__(self, inv=None, hints=None, variant=None, unroll=None, contents=None):
        self.contents = contents or {}
        self.inv = inv
        self.hints = hints or {}
        self.variant = variant
        self.unroll = unroll


class Locals(object):
    def __init__(self, frame):
        self.__dict__['_f'] = frame

    def __getattr__(self, n):
        f = self._f
        while f is not None:
            if n in f.locs:
                v = f.locs[n]
                if isinstance(v, Poison):
                    raise Unsupported('invariant needs local %s' % n)
                return v
            f = f.parent
        f = self._f
        while f.consumer is not None:
            f = f.consumer[2]
            if n in f.locs and not isinstance(f.locs[n], Poison):
                return f.locs[n]
        raise Unsupported('invariant needs local %s which the code does not have' % n)


_STORE_FIELDS = (ast.Store, ast.Del)


def assigned_names(nodes):
    out = []
    for n in nodes:
        for m in [n] + list(_walk_own(n)):
            if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                if m.id not in out:
                    out.append(m.id)
            elif isinstance(m, ast.ExceptHandler) and m.name and m.name not in out:
                out.append(m.name)
            elif isinstance(m, ast.FunctionDef) and m.name not in out:
                out.append(m.name)
            elif isinstance(m, (ast.Import, ast.ImportFrom)):
                for a in m.names:
                    nm = (a.asname or a.name).split('.')[0]
                    if nm not in out:
                        out.append(nm)
    return out


def _walk_own(n):
    st = list(ast.iter_child_nodes(n))
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        st.extend(ast.iter_child_nodes(x))


BINOPS = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__',
          ast.FloorDiv: '__floordiv__', ast.Mod: '__mod__', ast.Pow: '__pow__', ast.BitAnd: '__and__',
          ast.BitOr: '__or__', ast.BitXor: '__xor__', ast.LShift: '__lshift__', ast.RShift: '__rshift__',
          ast.MatMult: '__matmul__'}
PYOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
         ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
         ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
         ast.MatMult: operator.matmul}


class Interp(object):
    def __init__(self, uses=None, loops=None, S=None, overrides=None, builtins_over=None):
        """uses: qualname -> Model (callee contracts); loops: (qualname, ordinal) -> LoopSpec"""
        from . import models
        self.models = models
        self.uses = uses or {}
        self.entry = None         # the function verified: its own first call is its body, recursive ones its contract
        self.loops = loops or {}
        self.S = S
        self.overrides = overrides or {}
        self.depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.loop_info = []
        models.bind(self)

    # ------------------------------------------------------------ functions
    def funcref(self, pyfn, cls=None):
        """FuncRef for a real python function of the repository"""
        code = pyfn.__code__
        path = code.co_filename
        src, tree, idx = load_ast(path)
        q = getattr(code, 'co_qualname', pyfn.__qualname__)
        node = idx.get(q)
        if node is None:
            raise Unsupported('no syntax tree for %s' % q)
        closure = None
        if code.co_freevars and pyfn.__closure__:
            closure = Frame(None, {}, pyfn.__globals__)
            for n, cell in zip(code.co_freevars, pyfn.__closure__):
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                closure.locs[n] = self.global_value(v, n)
        defaults = [from_py(d) for d in (pyfn.__defaults__ or ())]
        kwd = {k: from_py(v) for k, v in (pyfn.__kwdefaults__ or {}).items()}
        return FuncRef(node, pyfn.__globals__, q, closure=closure, defaults=defaults, kwdefaults=kwd, cls=cls, src=path)

    def bind_args(self, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        locs = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(names, args):
            locs[n] = v
        extra = args[len(names):]
        if extra and not a.vararg:
            raise PyRaise(TypeError)
        if a.vararg:
            locs[a.vararg.arg] = tuple(extra)
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in locs:
                    raise PyRaise(TypeError)
                locs[k] = kwargs.pop(k)
        if kwargs:
            if not a.kwarg:
                raise PyRaise(TypeError, 'unexpected keyword %s' % list(kwargs))
        if a.kwarg:
            locs[a.kwarg.arg] = PDict(list(kwargs.items()), label='kwargs')
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in locs:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise(TypeError, 'missing argument %s' % n)
                locs[n] = fn.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in locs:
                if x.arg not in fn.kwdefaults:
                    raise PyRaise(TypeError)
                locs[x.arg] = fn.kwdefaults[x.arg]
        return locs

    def call_func(self, fn, args, kwargs):
        entry, self.entry = self.entry, None
        if fn.qual in self.uses and fn.qual != entry:
            self.used_contracts.add(fn.qual)
            return self.uses[fn.qual](*args, **kwargs)
        self.depth += 1
        if self.depth > 25:
            raise Unsupported('call depth')
        try:
            locs = self.bind_args(fn, args, kwargs)
            fr = Frame(fn, locs, fn.module, fn.closure)
            self.inlined.add(fn.qual)
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(fn.node)) \
                if isinstance(fn.node, ast.FunctionDef) else False
            if gen:
                return GenObj(self, fn, fr)
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fr)
            try:
                self.block(fn.node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Model):
            return f.f(*args, **kwargs)
        if isinstance(f, BoundMethod):
            if isinstance(f.fn, FuncRef):
                return self.call_func(f.fn, [f.self_] + list(args), kwargs)
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncRef):
            return self.call_func(f, args, kwargs)
        if isinstance(f, type):
            return self.models.construct(self, f, args, kwargs)
        if isinstance(f, (types.FunctionType,)):
            m = self.models.lookup_callable(f)
            if m is not None:
                return m.f(*args, **kwargs)
            if in_repo(f):
                return self.call_func(self.funcref(f), args, kwargs)
        m = self.models.lookup_callable(f)
        if m is not None:
            return m.f(*args, **kwargs)
        if isinstance(f, Obj):
            m = self.getattr(f, '__call__')
            return self.call(m, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c, c.__dict__[name]
        return None, None

    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported('use of loop-carried value %s' % o.name)
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__dict__':
                raise Unsupported('__dict__')
            if name == '__class__':
                return o.cls
            c, v = self.class_attr(o.cls, name)
            if c is not None and c is not object:
                return self.bind_class_attr(o, c, v, name)
            if o.missing is not None:
                return o.missing(name)
            c, v = self.class_attr(o.cls, '__getattr__')
            if c is not None and c is not object:
                return self.call(BoundMethod(self.funcref(v, c), o), [name])
            raise Unsupported('attribute %s of %s is not described by the contract' % (name, o.label))
        if isinstance(o, SuperRef):
            mro = o.obj.cls.__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    if c is object and name == '__init__':
                        return Model(lambda *a, **k: None)
                    return self.bind_class_attr(o.obj, c, c.__dict__[name], name)
            raise PyRaise(AttributeError, name)
        if isinstance(o, types.ModuleType):
            return self.models.module_attr(self, o, name)
        if isinstance(o, type):
            if name == '__name__':
                return o.__name__
            m = self.models.class_attr(self, o, name)
            if m is not None:
                return m
            c, v = self.class_attr(o, name)
            if c is not None:
                if isinstance(v, staticmethod):
                    return self.wrapfn(v.__func__, c)
                if isinstance(v, classmethod):
                    return BoundMethod(self.wrapfn(v.__func__, c), o)
                if isinstance(v, types.FunctionType):
                    return self.wrapfn(v, c)
                return from_py(v)
            raise PyRaise(AttributeError, name)
        return self.models.value_attr(self, o, name)

    def wrapfn(self, f, cls):
        m = self.models.lookup_callable(f)
        if m is not None:
            return m
        if in_repo(f):
            return self.funcref(f, cls)
        raise Unsupported('function %r outside the repository' % (f,))

    def bind_class_attr(self, o, c, v, name):
        q = '%s.%s' % (c.__name__, name)
        if isinstance(v, property):
            return self.call(BoundMethod(self.funcref(v.fget, c), o), [])
        if isinstance(v, staticmethod):
            return self.wrapfn(v.__func__, c)
        if isinstance(v, classmethod):
            return BoundMethod(self.wrapfn(v.__func__, c), o.cls)
        if isinstance(v, types.FunctionType):
            return BoundMethod(self.wrapfn(v, c), o)
        if callable(v) and not isinstance(v, type):
            m = self.models.lookup_callable(v)
            if m is not None:
                return BoundMethod(m, o)
            if v is object.__setattr__:
                return BoundMethod(Model(lambda x, n, w: x.set(n, w), '__setattr__'), o)
            raise Unsupported('class attribute %s' % name)
        return from_py(v)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            c, p = self.class_attr(o.cls, name)
            if isinstance(p, property):
                if p.fset is None:
                    raise PyRaise(AttributeError)
                self.call(BoundMethod(self.funcref(p.fset, c), o), [v])
                return
            c, sa = self.class_attr(o.cls, '__setattr__')
            if c is not None and c is not object:
                self.call(BoundMethod(self.funcref(sa, c), o), [name, v])
                return
            o.set(name, v)
            return
        self.models.set_value_attr(self, o, name, v)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Global(self, s, fr):
        fr.globals_decl.update(s.names)

    def st_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def st_Import(self, s, fr):
        for a in s.names:
            try:
                m = importlib.import_module(a.name)
            except ImportError:
                raise PyRaise(ImportError)
            if a.asname:
                fr.locs[a.asname] = m
            else:
                fr.locs[a.name.split('.')[0]] = sys.modules[a.name.split('.')[0]]

    def st_ImportFrom(self, s, fr):
        try:
            m = importlib.import_module(s.module)
        except ImportError:
            raise PyRaise(ImportError)
        for a in s.names:
            if not hasattr(m, a.name):
                raise PyRaise(ImportError)
            fr.locs[a.asname or a.name] = self.global_value(getattr(m, a.name))

    def st_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

    def st_Break(self, s, fr):
        raise BreakEx()

    def st_Continue(self, s, fr):
        raise ContinueEx()

    def st_FunctionDef(self, s, fr):
        number_loops(s)
        f = FuncRef(s, fr.glob, (fr.fn.qual if fr.fn else '') + '.<locals>.' + s.name, closure=fr,
                    defaults=[self.ev(d, fr) for d in s.args.defaults],
                    kwdefaults={a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        if s.decorator_list:
            raise Unsupported('decorated local function')
        self.store_name(s.name, f, fr)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(t.id, ast.Load()), fr)
            self.store_name(t.id, self.inplace(s.op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, old, self.ev(s.value, fr)))
        else:
            raise Unsupported('augassign')

    def inplace(self, op, old, v):
        if isinstance(old, Arr):
            if old.ndim == 0 and not isinstance(v, Arr):
                return self.binop(op, old, v)
            return old.inplace(BINOPS[type(op)], v)
        if isinstance(old, core.SymList) and isinstance(op, ast.Add):
            for x in self.concrete_iter(v):
                old.append(x)
            return old
        if isinstance(old, Obj):
            nm = '__i' + BINOPS[type(op)][2:]
            c, f = self.class_attr(old.cls, nm)
            if c is not None:
                return self.call(self.getattr(old, nm), [v])
        return self.binop(op, old, v)

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locs.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if not isinstance(o, Obj):
                    raise Unsupported('del attr')
                eng().note_write(o, t.attr)
                o.attrs.pop(t.attr)
            else:
                raise Unsupported('del')

    def st_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(AssertionError)

    def st_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.exc is None:
                f = f.parent
            if f is None:
                raise Unsupported('bare raise')
            raise f.exc
        v = self.ev(s.exc, fr)
        if isinstance(v, ExcVal):
            raise PyRaise(v.cls, v)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v, ExcVal(v, ()))
        if isinstance(v, PyRaise):
            raise v
        if isinstance(v, Obj) and issubclass(v.cls, BaseException):
            raise PyRaise(v.cls, v)
        raise Unsupported('raise of %r' % (v,))

    def st_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as ex:
                for h in s.handlers:
                    if self.match_exc(h, ex, fr):
                        saved = fr.exc
                        fr.exc = self.handled = ex
                        if h.name:
                            fr.locs[h.name] = ex.value if ex.value is not None else ExcVal(ex.cls, ())
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.exc = saved
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PathEnd, Restart, Unsupported):
            raise
        except BaseException as ex:
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def match_exc(self, h, ex, fr):
        if h.type is None:
            return True
        t = self.ev(h.type, fr)
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            if not isinstance(c, type):
                raise Unsupported('exception class %r' % (c,))
            if issubclass(ex.cls, c):
                return True
        return False

    def st_With(self, s, fr):
        exits = []
        for it in s.items:
            m = self.ev(it.context_expr, fr)
            v = self.call(self.getattr(m, '__enter__'), [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            exits.append(m)
        try:
            self.block(s.body, fr)
        except (PathEnd, Restart, Unsupported):
            raise
        except BaseException as ex:
            for m in reversed(exits):
                self.call(self.getattr(m, '__exit__'), [None, None, None])
            raise
        else:
            for m in reversed(exits):
                self.call(self.getattr(m, '__exit__'), [None, None, None])

    # loops ---------------------------------------------------------------
    def iteration(self, v):
        """list of values, or SymIter"""
        if isinstance(v, SymIter):
            n = v.n
            if isinstance(n, int):
                return [v.get(k) for k in range(n)]
            s = z3.simplify(T(n))
            if z3.is_int_value(s):
                return [v.get(k) for k in range(s.as_long())]
            return v
        if isinstance(v, GenObj):
            body = [x for x in v.fn.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if not v.started and v.items is None and len(body) == 1 and isinstance(body[0], ast.For) and not body[0].orelse:
                f = body[0]
                if isinstance(f.target, ast.Name) and len(f.body) == 1 and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Yield) and \
                        isinstance(f.body[0].value.value, ast.Name) and f.body[0].value.value.id == f.target.id:
                    # a generator that yields each element of something is an iteration of that
                    v.started = True
                    return self.iteration(self.ev(f.iter, v.fr))
            return self.iteration(v.run())
        if isinstance(v, core.SymList):
            if v.items is not None:
                return list(v.items)
            return self.iteration(SymIter(v.n, lambda k: v.getitem(k)))
        if isinstance(v, PDict):
            if v.base is not None and v.seq is not None:
                return self.iteration(SymIter(v.seq[0], v.seq[1]))
            return list(v.keys())
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise(TypeError)
            return self.iteration(SymIter(v.shape_[0], lambda k: v.getitem(k)))
        if isinstance(v, Obj):
            if v.iter_hook is not None:
                return self.iteration(v.iter_hook(v))
            c, f = self.class_attr(v.cls, '__iter__')
            if c is not None:
                return self.iteration(self.call(self.getattr(v, '__iter__'), []))
            raise Unsupported('iteration over %r' % v)
        if isinstance(v, (list, tuple, range, str)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, OpaqueStr):
            raise Unsupported('iteration over opaque string')
        if v is None or is_sym(v) or isinstance(v, numbers.Number):
            raise PyRaise(TypeError)
        raise Unsupported('iteration over %r' % type(v))

    def concrete_iter(self, v):
        it = self.iteration(v)
        if isinstance(it, SymIter):
            e = eng()
            if e.bounded is not None:
                return [it.get(k) for k in range(self.bound_count(it.n))]
            raise Unsupported('iteration of symbolic length')
        return it

    def bound_count(self, n):
        """bounded mode: pick a concrete count <= K"""
        e = eng()
        for k in range(e.bounded + 1):
            if e.branch(T(n) == k):
                return k
        e.assumptions.add('bounded: loop counts and sizes at most %d' % e.bounded)
        raise PathEnd()

    def loop_body(self, s, fr):
        """returns True when the loop is to be left"""
        try:
            self.block(s.body, fr)
        except BreakEx:
            return True
        except ContinueEx:
            pass
        return False

    ReturnEx = ReturnEx
    handled = None

    def over_generator(self, g, s, fr):
        def body(v):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx, PyRaise, Through) as ex:
                raise Through(ex)
        try:
            g.run((body, s, fr))
        except Through as ex:
            if isinstance(ex.exc, BreakEx):
                return
            raise ex.exc
        self.block(s.orelse, fr)

    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if isinstance(it, Obj) and it.iter_hook is None and self.class_attr(it.cls, '__iter__')[0] is not None:
            it = self.call(self.getattr(it, '__iter__'), [])
        if isinstance(it, GenObj):
            self.over_generator(it, s, fr)
            return
        if isinstance(it, CallIter):
            for _ in range(50):
                v = self.call(it.f, [])
                if self.truth(self.compare(ast.Eq(), v, it.end)):
                    self.block(s.orelse, fr)
                    return
                self.assign(s.target, v, fr)
                if self.loop_body(s, fr):
                    return
            raise Unsupported('long loop')
        if isinstance(it, core.SymList) and it.items is not None:
            # a list may change while it is iterated over
            k = 0
            while it.items is not None and k < len(it.items):
                if k > 400:
                    raise Unsupported('long concrete loop')
                self.assign(s.target, it.items[k], fr)
                if self.loop_body(s, fr):
                    return
                k += 1
            if it.items is None:
                raise Unsupported('a list that is iterated over and changed')
            self.block(s.orelse, fr)
            return
        it = self.iteration(it)
        if isinstance(it, list):
            if len(it) > 400:
                raise Unsupported('long concrete loop')
            for v in it:
                self.assign(s.target, v, fr)
                if self.loop_body(s, fr):
                    return
            self.block(s.orelse, fr)
            return
        e = eng()
        if e.bounded is not None:
            n = self.bound_count(it.n)
            for k in range(n):
                self.assign(s.target, it.get(k), fr)
                if self.loop_body(s, fr):
                    return
            self.block(s.orelse, fr)
            return
        self.sym_loop(s, fr, it)

    def st_While(self, s, fr):
        e = eng()
        spec = self.loops.get((fr.fn.qual, getattr(s, '_ordinal', None)))
        if spec is None or e.bounded is not None or spec.unroll:
            # unroll while the condition is decided; otherwise bounded
            cnt = 0
            lim = e.bounded if e.bounded is not None else (spec.unroll if spec else None)
            while True:
                d0 = len(e.decisions)
                c = self.ev(s.test, fr)
                if not self.truth(c):
                    self.block(s.orelse, fr)
                    return
                if len(e.decisions) > d0 or cnt > 50:
                    if lim is None:
                        raise Unsupported('while loop without an invariant in %s' % fr.fn.qual)
                    if cnt > lim + 1:
                        e.assumptions.add('bounded: loop counts and sizes at most %d' % lim)
                        raise PathEnd()
                cnt += 1
                if self.loop_body(s, fr):
                    return
        self.sym_loop(s, fr, None)

    def sym_loop(self, s, fr, it):
        e = eng()
        key0 = (fr.fn.qual, getattr(s, '_ordinal', None))
        spec = self.loops.get(key0) or LoopSpec()
        occ = e.loop_seen.get(key0, 0)
        e.loop_seen[key0] = occ + 1
        key = key0 + (occ,)
        if key in e.split_loops:
            # what was created before the loop depends on the path here
            key = key + (tuple(e.decisions),)
        nm = '%s loop %s' % key0
        names = assigned_names(s.body)
        L = Locals(fr)
        zero = 0
        inv0 = spec.inv(L, zero, self.S) if spec.inv else []
        for n_, f in self._spec(inv0):
            e.oblige('%s: invariant %s holds on entry' % (nm, n_), f, 'loop')
        if it is not None:
            e.assume_fact(T(it.n) >= 0) if False else None
        for n_, (get, same) in spec.contents.items():
            o = fr.locs.get(n_)
            if isinstance(o, core.SymList) and getattr(o, 'spec', None) is None and o.items is not None:
                # from here on the list is described by its length
                for j, v in enumerate(o.items):
                    o.admit(same(v, j))
                o.spec = same
                o.n_, o.get_, o.items = len(o.items), (lambda i, get=get: get(SInt(i))), None
        # havoc
        entry_kinds = {}
        for n_ in names:
            if n_ in spec.hints:
                fr.locs[n_] = spec.hints[n_]()
                continue
            if n_ in fr.locs:
                fr.locs[n_] = self.havoc_value(fr.locs[n_], '%s.%s' % (fr.fn.node.name, n_))
        for n_ in (assigned_names([s.target]) if it is not None else []):
            if n_ in fr.locs:
                fr.locs[n_] = Poison(n_)
        # the bodies of the loops that consume this generator run within the loop
        f_ = fr
        while f_ is not None and f_.consumer is not None:
            _, cs, f_ = f_.consumer
            for n_ in assigned_names(cs.body + [cs.target]):
                if n_ in f_.locs:
                    f_.locs[n_] = self.havoc_value(f_.locs[n_], '%s.%s' % (f_.fn.node.name, n_))
        hav = e.havoc_sets.get(key, set())
        oid0 = e.oids
        closed, slots = [], []
        objs = self.oid_index(fr)
        hinted = []
        hdone = set()
        for n_ in spec.hints:
            if n_ not in names and isinstance(fr.locs.get(n_), PDict):
                inner = self.inner_dicts(fr.locs[n_])
                if any(h_[0] == x.oid for x in inner[1:] for h_ in hav):
                    self.havoc_like(fr.locs[n_], spec.hints[n_](), nm, hinted)
                    hdone.update(x.oid for x in inner)
        for oid, field in sorted(hav, key=lambda p: (p[0], str(p[1]))):
            o = objs.get(oid)
            if oid in hdone:
                continue
            if (o is None or isinstance(o, PDict) and getattr(o, 'havoc_hook', None) is None and
                    not any(fr.locs.get(n_) is o for n_ in spec.hints)) and len(key) == 3:
                e.split_loops.add(key)
                raise core.Restart()
            if o is None:
                raise Unsupported('loop modifies an unreachable object %s %s' % (oid, field))
            if isinstance(o, Obj):
                hk = getattr(o, 'havoc_attr', None)
                if hk is not None and field in hk:
                    o.attrs[field] = hk[field]()
                else:
                    o.attrs[field] = self.havoc_value(o.attrs.get(field), '%s.%s' % (o.label, field))
            elif isinstance(o, core.SymList) and isinstance(field, str) and field.startswith('item'):
                # one slot of a list of fixed length
                if o.items is not None:
                    j = int(field[4:])
                    if (key, oid, j) in e.poison_slots:
                        o.items[j] = Poison(o.label)
                    else:
                        o.items[j] = self.havoc_value(o.items[j], '%s[%d]' % (o.label, j))
                    slots.append((o, j, o.items[j], len(o.items)))
            elif isinstance(o, PDict) and getattr(o, 'havoc_hook', None) is None and any(fr.locs.get(n_) is o for n_ in spec.hints):
                # a dictionary held by a local: what it may hold is said by the hint
                h = [spec.hints[n_]() for n_ in spec.hints if fr.locs.get(n_) is o][0]
                o.entries, o.base = [list(x) for x in h.entries], h.base
            elif isinstance(o, PDict) and getattr(o, 'havoc_hook', None) is None and o.base is None:
                # the keys stay; each value may become any of its kind
                for x in o.entries:
                    v = x[2]
                    if isinstance(v, (Arr, bool, int, float, SV)):
                        x[2] = self.havoc_value(v, o.label)
                closed.append((o, [list(x) for x in o.entries]))
            else:
                o.havoc('L%s' % (key0[1],))
        k = e.fresh_int('k_%s' % (key0[1],))
        e.assume_fact(k.t >= 0)
        inv1 = spec.inv(L, k, self.S) if spec.inv else []
        for n_, f in self._spec(inv1):
            e.assume(f)
        if spec.inv is not None:
            self.loop_info.append(nm)
        do_iter = e.choose(2) == 0
        if do_iter:
            if it is not None:
                e.assume(k < it.n)
            var0 = spec.variant(L, k, self.S) if spec.variant else None
            if it is None:
                if not self.truth(self.ev(s.test, fr)):
                    raise PathEnd()
            elif not isinstance(it, FilterIter):
                self.assign(s.target, it.get(k), fr)
            pre = {n_: fr.locs.get(n_) for n_ in names}
            e.loop_stack.append(dict(oid0=oid0, havoc=set(hav), key=key))
            frame_rec = e.loop_stack[-1]
            left = False
            try:
                if isinstance(it, FilterIter):
                    # the generator runs interleaved with the body
                    f2 = Frame(it.frame.fn, {}, it.frame.glob, it.frame)
                    self.assign(it.g.target, it.it.get(k), f2)
                    if all(self.truth(self.ev(c_, f2)) for c_ in it.g.ifs):
                        self.assign(s.target, self.ev(it.elt, f2), fr)
                        left = self.loop_body(s, fr)
                else:
                    left = self.loop_body(s, fr)
            finally:
                # an exit by exception / return leaves the loop for good
                if e.loop_stack and e.loop_stack[-1] is frame_rec:
                    e.loop_stack.pop()
            if left:
                return
            for n_ in names:
                if n_ in pre and pre[n_] is not None and n_ not in spec.hints:
                    self.check_kind(n_, pre[n_], fr.locs.get(n_), nm)
            for o, was in closed:
                self.check_closed(o, was, oid0, nm)
            bufs = []
            for o, was in hinted:
                self.check_like(o, was, oid0, nm, bufs)
            for o, j, was, n_ in slots:
                if o.items is not None:
                    if len(o.items) != n_:
                        raise Unsupported('%s: list %s changes length' % (nm, o.label))
                    if isinstance(o.items[j], Arr):
                        raise Unsupported('%s: list %s of arrays' % (nm, o.label))
                    try:
                        self.check_kind('%s[%d]' % (o.label, j), was, o.items[j], nm)
                    except Unsupported:
                        # anything may be there after an iteration
                        e.poison_slots.add((key, o.oid, j))
                        raise core.Restart()
            inv2 = spec.inv(L, k + 1, self.S) if spec.inv else []
            for n_, f in self._spec(inv2):
                e.oblige('%s: invariant %s is preserved' % (nm, n_), f, 'loop')
            if it is None:
                if spec.variant is None:
                    e.assumptions.add('termination of %s is not proved' % nm)
                else:
                    v1 = spec.variant(L, k + 1, self.S)
                    e.oblige('%s: variant decreases' % nm, And(v1 < var0, var0 >= 0), 'loop')
            raise PathEnd()
        if it is not None:
            e.assume(k == it.n)
        else:
            if self.truth(self.ev(s.test, fr)):
                raise PathEnd()
        self.block(s.orelse, fr)

    def _spec(self, inv):
        return inv or []

    def check_closed(self, o, was, oid0, nm):
        if o.base is not None or len(o.entries) != len(was):
            raise Unsupported('%s: dict %s changes keys' % (nm, o.label))
        bufs = []
        for x, y in zip(was, o.entries):
            if x[0] is not y[0] or x[1] is not y[1]:
                raise Unsupported('%s: dict %s changes keys' % (nm, o.label))
            if isinstance(x[2], (Arr, bool, int, float, SV)):
                self.check_kind('%s[%s]' % (o.label, x[0]), x[2], y[2], nm)
                if isinstance(y[2], Arr) and y[2] is not x[2]:
                    # (nothing else that lives on may hold it)
                    if y[2].buf.oid <= oid0 or any(y[2].buf is b for b in bufs):
                        raise Unsupported('%s: dict %s comes to share an array' % (nm, o.label))
                    bufs.append(y[2].buf)
            elif x[2] is not y[2]:
                raise Unsupported('%s: dict %s changes an object' % (nm, o.label))

    def inner_dicts(self, d):
        out = [d]
        for x in d.entries:
            if isinstance(x[2], PDict):
                out += self.inner_dicts(x[2])
        return out

    def havoc_like(self, d, h, nm, hinted):
        """a dictionary of dictionaries becomes any of those the hint describes"""
        if d.base is not None or h.base is not None or [x[0] for x in d.entries] != [x[0] for x in h.entries]:
            raise Unsupported('%s: the hint has other keys' % nm)
        for x, y in zip(d.entries, h.entries):
            if isinstance(x[2], PDict) and isinstance(y[2], PDict):
                self.havoc_like(x[2], y[2], nm, hinted)
            elif isinstance(y[2], Arr) or y[2] is None:
                x[2] = y[2]
            else:
                raise Unsupported('%s: the hint has other values' % nm)
        hinted.append((d, [list(x) for x in d.entries]))

    def check_like(self, o, was, oid0, nm, bufs):
        if o.base is not None or len(o.entries) != len(was):
            raise Unsupported('%s: dict %s changes keys' % (nm, o.label))
        for x, y in zip(was, o.entries):
            if x[0] is not y[0] and x[0] != y[0] or x[1] is not y[1]:
                raise Unsupported('%s: dict %s changes keys' % (nm, o.label))
            if isinstance(x[2], PDict):
                if y[2] is not x[2]:
                    raise Unsupported('%s: dict %s changes an object' % (nm, o.label))
            elif isinstance(y[2], Arr):
                if y[2] is not x[2] and (y[2].buf.oid <= oid0 or y[2].kind != 'real') or any(y[2].buf is b for b in bufs):
                    raise Unsupported('%s: dict %s comes to share an array' % (nm, o.label))
                bufs.append(y[2].buf)
            elif y[2] is not None:
                raise Unsupported('%s: dict %s changes an object' % (nm, o.label))

    def check_kind(self, name, a, b, nm):
        if isinstance(a, Poison):
            return
        ka, kb = val_kind(a), val_kind(b)
        if ka == kb:
            if isinstance(a, tuple):
                if len(a) != len(b):
                    raise Unsupported('%s: tuple %s changes length' % (nm, name))
                for x, y in zip(a, b):
                    self.check_kind(name, x, y, nm)
            if isinstance(a, Arr):
                if a.ndim != b.ndim or not all(dims_equal(x, y) for x, y in zip(a.shape_, b.shape_)):
                    raise Unsupported('%s: array %s changes shape' % (nm, name))
            return
        if isinstance(a, Poison):
            return
        raise Unsupported('%s: %s changes kind %s -> %s' % (nm, name, ka, kb))

    def havoc_value(self, v, name):
        e = eng()
        if isinstance(v, SOpaque):
            return SOpaque(z3.Const(e.fresh_name(name), VSORT))
        if isinstance(v, bool) or isinstance(v, SBool):
            return e.fresh_bool(name)
        if isinstance(v, (int, SInt)):
            return e.fresh_int(name)
        if isinstance(v, (float, SReal)):
            r = e.fresh_real(name, nan=isinstance(v, SReal) and v.nan is not None)
            return r
        if isinstance(v, SStr):
            return e.fresh_str(name)
        if isinstance(v, Arr):
            a = Arr.new(v.shape_, fresh_content(name, v.ndim, v.kind), name, v.kind)
            a.tok = v.tok
            return a
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.havoc_value(x, name) for x in v)
        return Poison(name)

    def oid_index(self, fr):
        """objects reachable now, by oid"""
        seen = {}
        done = set()
        st = list(eng().roots) if hasattr(eng(), 'roots') else []
        f = fr
        while f is not None:
            st.extend(f.locs.values())
            g = f
            while g is not None and g.consumer is not None:
                g = g.consumer[2]
                st.extend(g.locs.values())
            f = f.parent
        while st:
            x = st.pop()
            if id(x) in done:
                continue
            done.add(id(x))
            if isinstance(x, Arr):
                seen[x.buf.oid] = x.buf
            elif isinstance(x, core.SymList):
                seen[x.oid] = x
                if x.items is not None:
                    st.extend(x.items)
            elif isinstance(x, PDict):
                seen[x.oid] = x
                st.extend(e[2] for e in x.entries)
            elif isinstance(x, Obj):
                seen[x.oid] = x
                st.extend(x.attrs.values())
            elif isinstance(x, Buf):
                seen[x.oid] = x
            elif isinstance(x, (list, tuple)):
                st.extend(x)
            elif isinstance(x, dict):
                st.extend(x.values())
            elif isinstance(x, BoundMethod):
                st.append(x.self_)
            elif isinstance(x, Frame):
                st.extend(x.locs.values())
            elif isinstance(x, FuncRef) and x.closure is not None:
                st.append(x.closure)
        if getattr(eng(), 'roots', None):
            pass
        return seen

    # assignment ------------------------------------------------------------
    def store_name(self, n, v, fr):
        if n in fr.globals_decl:
            raise Unsupported('assignment to a module global')
        if n in fr.nonlocals:
            f = fr.parent
            while f is not None and n not in f.locs:
                f = f.parent
            f.locs[n] = v
            return
        fr.locs[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.concrete_iter(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyRaise(ValueError)
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, core.SymList(list(vs[i:len(vs) - after])), fr)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(x, y, fr)
                return
            if len(vs) != len(t.elts):
                raise PyRaise(ValueError)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        else:
            raise Unsupported('assignment target')

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)

    def ex_Constant(self, n, fr):
        return n.value

    def ex_Name(self, n, fr):
        f = fr
        while f is not None:
            if n.id in f.locs:
                v = f.locs[n.id]
                if isinstance(v, Poison):
                    raise Unsupported('value of %s after a loop is not tracked' % v.name)
                return v
            f = f.parent
        if n.id in self.overrides:
            return self.overrides[n.id]
        if n.id in fr.glob:
            return self.global_value(fr.glob[n.id], n.id)
        if hasattr(builtins, n.id):
            return self.global_value(getattr(builtins, n.id), n.id)
        # local not yet bound, or missing
        raise PyRaise(NameError, n.id)

    def global_value(self, v, name=None):
        m = self.models.lookup_callable(v) if callable(v) else None
        if m is not None:
            return m
        if isinstance(v, types.FunctionType):
            if in_repo(v):
                return self.funcref(v)
            return v
        if isinstance(v, (type, types.ModuleType)):
            return v
        return from_py(v)

    def ex_Tuple(self, n, fr):
        return tuple(self.ev_elts(n.elts, fr))

    def ex_List(self, n, fr):
        return core.SymList(self.ev_elts(n.elts, fr))

    def ex_Set(self, n, fr):
        vs = self.ev_elts(n.elts, fr)
        return self.models.mkset(vs)

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_iter(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, n, fr):
        d = PDict(label='lit')
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v, fr)
                for kk in self.concrete_iter(src):
                    d.setitem(kk, self.getitem(src, kk))
            else:
                d.setitem(self.ev(k, fr), self.ev(v, fr))
        return d

    def ex_BinOp(self, n, fr):
        return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of loop-carried value')
        if isinstance(op, ast.Mod) and isinstance(a, (str, OpaqueStr, SStr)) :
            return self.models.str_format(self, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            m = BINOPS[type(op)]
            if isinstance(a, Obj):
                c, f = self.class_attr(a.cls, m)
                if c is not None and c is not object:
                    return self.call(self.getattr(a, m), [b])
                if m in a.attrs:
                    return self.call(a.attrs[m], [b])
            if isinstance(b, Obj):
                r = '__r' + m[2:]
                c, f = self.class_attr(b.cls, r)
                if c is not None and c is not object:
                    return self.call(self.getattr(b, r), [a])
            raise PyRaise(TypeError)
        if isinstance(a, core.SymList) or isinstance(b, core.SymList):
            return self.models.list_binop(self, op, a, b)
        if isinstance(a, (PDict,)) or isinstance(b, PDict) or a is None or b is None:
            raise PyRaise(TypeError)
        f = PYOPS[type(op)]
        if isinstance(a, complex) and isinstance(b, (SV, Arr)):
            a = core.SComplex.of(a)
        if isinstance(b, complex) and isinstance(a, (SV, Arr)):
            b = core.SComplex.of(b)
        try:
            if isinstance(b, Arr) and not isinstance(a, Arr) and not isinstance(a, SV):
                m = '__r' + BINOPS[type(op)][2:]
                r = getattr(b, m)(a)
            elif isinstance(b, Arr) and isinstance(a, SV):
                m = '__r' + BINOPS[type(op)][2:]
                r = getattr(b, m)(a)
            else:
                r = f(a, b)
        except TypeError:
            raise PyRaise(TypeError)
        except ZeroDivisionError:
            raise PyRaise(ZeroDivisionError)
        except AttributeError:
            raise Unsupported('operator %s on %s, %s' % (type(op).__name__, type(a), type(b)))
        if r is NotImplemented:
            raise PyRaise(TypeError)
        return r

    def ex_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return self.not_(v)
        if isinstance(v, Obj):
            return self.call(self.getattr(v, '__neg__'), [])
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and isinstance(v, Arr):
            return v._map(lambda x: Not(x))
        raise Unsupported('unary op')

    def not_(self, v):
        return not self.truth(v)

    def ex_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not is_sym(v) else (False if isinstance(v, SBool) else v)
            if not isand and t:
                return v if not is_sym(v) else (True if isinstance(v, SBool) else v)
        return v

    def ex_IfExp(self, n, fr):
        return self.ev(n.body, fr) if self.truth(self.ev(n.test, fr)) else self.ev(n.orelse, fr)

    def ex_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if len(n.ops) == 1:
                return c
            if not self.truth(c):
                return False
            res = c
            left = right
        return res if is_sym(res) else True

    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of loop-carried value')
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return Not(self.contains(b, a))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b, ne=True)
            return r
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        if isinstance(a, self.models.SymSet) and isinstance(b, self.models.SymSet):
            if isinstance(op, (ast.Gt, ast.GtE)):
                a, b = b, a
            sub = all(b.has(x) for x in a.items)
            return sub and (isinstance(op, (ast.LtE, ast.GtE)) or len(a.items) < len(b.items))
        if isinstance(a, Obj):
            nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[type(op)]
            c, g = self.class_attr(a.cls, nm)
            if c is not None and c is not object:
                return self.call(self.getattr(a, nm), [b])
            raise PyRaise(TypeError)
        if isinstance(b, Arr) and not isinstance(a, Arr):
            f2 = {ast.Lt: operator.gt, ast.LtE: operator.ge, ast.Gt: operator.lt, ast.GtE: operator.le}[type(op)]
            return f2(b, a)
        if isinstance(a, (tuple, core.SymList)) and isinstance(b, (tuple, core.SymList)):
            raise Unsupported('sequence ordering')
        try:
            return f(a, b)
        except TypeError:
            raise PyRaise(TypeError)

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return a == b if is_sym(a) or not is_sym(b) else (b == a)
            return False
        if isinstance(a, str) and isinstance(b, str):
            # identity of strings: the repository compares literals; equal text is taken as identical
            eng().assumptions.add("'is' between strings is taken as equality (interned literals)")
            return a == b
        if isinstance(a, (SStr, SOpaque)) or isinstance(b, (SStr, SOpaque)):
            if isinstance(a, (SOpaque,)) and isinstance(b, SOpaque):
                return a == b
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                eng().assumptions.add("'is' between strings is taken as equality (interned literals)")
                return a == b if is_sym(a) else b == a
            return False
        if isinstance(a, Model) and isinstance(b, Model):
            return a.f is b.f
        if type(a) is object or type(b) is object:
            # a sentinel
            return a is b
        if isinstance(a, SV) or isinstance(b, SV):
            raise Unsupported('identity of symbolic values')
        return a is b

    def eq(self, a, b, ne=False):
        def fin(r):
            return Not(r) if ne else r
        if a is None or b is None:
            return fin(a is b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return fin(False)
            return fin(And([self.eq(x, y) for x, y in zip(a, b)]))
        if isinstance(a, self.models.SymSet) or isinstance(b, self.models.SymSet):
            same = isinstance(a, self.models.SymSet) and isinstance(b, self.models.SymSet) and len(a.items) == len(b.items) and all(b.has(x) for x in a.items)
            return same != ne
        if isinstance(a, core.SymList) and isinstance(b, core.SymList):
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return fin(False)
                return fin(And([self.eq(x, y) for x, y in zip(a.items, b.items)]))
            k = z3.Int(eng().fresh_name('leq'))
            f = z3.And(T(a.n) == T(b.n), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < T(a.n)),
                                                                _sb_(a.at(SInt(k)) == b.at(SInt(k))))))
            return fin(SBool(f))
        if isinstance(a, Obj):
            c, f = self.class_attr(a.cls, '__eq__')
            if c is not None and c is not object:
                return fin(self.call(self.getattr(a, '__eq__'), [b]))
            return fin(a is b)
        if isinstance(b, Arr) and not isinstance(a, Arr):
            a, b = b, a
        if isinstance(a, Arr):
            r = (a != b) if ne else (a == b)
            return r
        if isinstance(a, Model) and isinstance(b, Model):
            return fin(a.f is b.f)
        if is_sym(b) and not is_sym(a):
            a, b = b, a
        if isinstance(a, PDict) and isinstance(b, PDict):
            ka, kb = a.items(), b.items()
            if len(ka) != len(kb):
                return fin(False)
            r = []
            for k, v in ka:
                e_ = b.find(k)
                if e_ is None or not e_[1]:
                    return fin(False)
                r.append(self.eq(v, e_[2]))
            return fin(And(r))
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            raise Unsupported('comparison of opaque text')
        return (a != b) if ne else (a == b)

    def contains(self, c, x):
        if isinstance(c, PDict):
            return c.has(x)
        if isinstance(c, Obj):
            if c.contains_hook is not None:
                return c.contains_hook(c, x)
            return self.call(self.getattr(c, '__contains__'), [x])
        if isinstance(c, (str, SStr)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return lift(c).contains(x)
        if isinstance(c, core.SymList) and c.items is None:
            k = z3.Int(eng().fresh_name('in'))
            el = self.eq(c.at(SInt(k)), x)
            return SBool(z3.Exists([k], z3.And(0 <= k, k < T(c.n), _sb_(el))))
        if isinstance(c, (core.SymList, tuple, list, set, frozenset)):
            its = c.items if isinstance(c, core.SymList) else c
            rs = []
            for y in its:
                if y is x:
                    return True
                r = self.eq(y, x)
                if isinstance(r, Arr):
                    raise Unsupported('array membership')
                if r is True:
                    return True
                rs.append(r)
            return Or(rs) if rs else False
        if isinstance(c, Arr):
            k = z3.Int(eng().fresh_name('in'))
            if c.ndim != 1:
                raise Unsupported('in n-d array')
            if isinstance(c.shape_[0], int):
                return Or([c.at(j) == x for j in range(c.shape_[0])] + [False])
            return SBool(z3.Exists([k], z3.And(0 <= k, k < T(c.shape_[0]), _sb_(c.at(SInt(k)) == x))))
        if isinstance(c, SymIter):
            return self.contains(core.SymList(self.concrete_iter(c)), x)
        if isinstance(c, dict):
            return x in c
        raise Unsupported('in %r' % type(c))

    def truth(self, v):
        if isinstance(v, Poison):
            raise Unsupported('use of loop-carried value')
        if isinstance(v, SV):
            return bool(v)
        if isinstance(v, core.SymList):
            if v.items is not None:
                return len(v.items) > 0
            return eng().branch(T(v.n) > 0)
        if isinstance(v, PDict):
            if v.base is not None:
                if v.seq is not None:
                    return eng().branch(T(v.seq[0]) > 0)
                raise Unsupported('truth of an open dict')
            return len(v.keys()) > 0
        if isinstance(v, Obj):
            for nm in ('__bool__', '__nonzero__', '__len__'):
                if nm == '__nonzero__':
                    continue
                c, f = self.class_attr(v.cls, nm)
                if c is not None and c is not object:
                    return self.truth(self.call(self.getattr(v, nm), []))
            return True
        if isinstance(v, OpaqueStr):
            return True
        if isinstance(v, (FuncRef, BoundMethod, Model, type, types.ModuleType)):
            return True
        return bool(v)

    def ex_Call(self, n, fr):
        f = n.func
        # zero-argument super() is not used in the repository; super(C, self) is
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in fr.locs:
            if n.args:
                c = self.ev(n.args[0], fr)
                o = self.ev(n.args[1], fr)
            else:
                c = fr.fn.cls
                o = fr.locs[fr.fn.node.args.args[0].arg]
            return SuperRef(c, o)
        fn = self.ev(f, fr)
        args = self.ev_elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                for kk in self.concrete_iter(d):
                    kw[kk] = self.getitem(d, kk)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kw)

    def ex_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def ev_index(self, n, fr):
        if isinstance(n, ast.Slice):
            return slice(*[self.ev(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in n.elts)
        return self.ev(n, fr)

    def ex_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev_index(n.slice, fr))

    def ex_Slice(self, n, fr):
        return self.ev_index(n, fr)

    def getitem(self, o, k):
        if isinstance(o, Poison):
            raise Unsupported('use of loop-carried value')
        if isinstance(o, Arr):
            return self.models.arr_getitem(self, o, k)
        if isinstance(o, (core.SymList, PDict)):
            return o.getitem(k)
        if isinstance(o, Obj):
            if o.getitem_hook is not None:
                return o.getitem_hook(o, k)
            return self.call(self.getattr(o, '__getitem__'), [k])
        if isinstance(o, (tuple, str, list, range)):
            if isinstance(k, slice):
                k = slice(*[core._cint(x) for x in (k.start, k.stop, k.step)]) if not isinstance(o, str) or not any(is_sym(x) for x in (k.start, k.stop)) else k
            if isinstance(o, str) and (is_sym(k) or isinstance(k, slice) and any(is_sym(x) for x in (k.start, k.stop))):
                o = lift(o)
            else:
                if is_sym(k):
                    return core.SymList(list(o)).getitem(k)
                try:
                    return o[k]
                except IndexError:
                    raise PyRaise(IndexError)
                except TypeError:
                    raise PyRaise(TypeError)
        if isinstance(o, SStr):
            if isinstance(k, slice):
                if k.step is not None:
                    raise Unsupported('string step')
                return o.sub(k.start, k.stop)
            t = T(k)
            n = z3.Length(o.t)
            e = eng()
            if e.branch(z3.And(t >= 0, t < n)):
                return o.at(SInt(t))
            if e.branch(z3.And(t < 0, t >= -n)):
                return o.at(SInt(t + n))
            raise PyRaise(IndexError)
        if isinstance(o, dict):
            if k in o:
                return from_py(o[k])
            raise PyRaise(KeyError)
        if isinstance(o, SNum) or o is None or isinstance(o, numbers.Number):
            raise PyRaise(TypeError)
        return self.models.value_getitem(self, o, k)

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            o.setitem(k, v)
        elif isinstance(o, (core.SymList, PDict)):
            o.setitem(k, v)
        elif isinstance(o, Obj):
            if o.setitem_hook is not None:
                o.setitem_hook(o, k, v)
            else:
                self.call(self.getattr(o, '__setitem__'), [k, v])
        elif isinstance(o, (tuple, SNum, numbers.Number, str)) or o is None:
            raise PyRaise(TypeError)
        else:
            self.models.value_setitem(self, o, k, v)

    def delitem(self, o, k):
        if isinstance(o, PDict):
            o.delitem(k)
        elif isinstance(o, core.SymList) and o.items is not None:
            eng().note_write(o, 'list')
            del o.items[core._cint(k)]
        elif isinstance(o, Obj):
            self.call(self.getattr(o, '__delitem__'), [k])
        else:
            raise Unsupported('del item')

    def ex_Lambda(self, n, fr):
        return FuncRef(n, fr.glob, (fr.fn.qual if fr.fn else '') + '.<lambda>', closure=fr,
                       defaults=[self.ev(d, fr) for d in n.args.defaults])

    def comp(self, n, fr):
        """yields frames, or a SymIter template"""
        out = []

        def rec(i, f):
            if i == len(n.generators):
                out.append(f)
                return
            g = n.generators[i]
            it = self.iteration(self.ev(g.iter, f))
            if isinstance(it, SymIter):
                if eng().bounded is not None:
                    it = self.concrete_iter(it)
                else:
                    raise _SymComp(it, g, f)
            for v in it:
                f2 = Frame(f.fn, {}, f.glob, f)
                self.assign(g.target, v, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    rec(i + 1, f2)
        rec(0, fr)
        return out

    def sym_comp(self, sc, n, fr, elt):
        """[elt for x in symbolic] with one generator and no filter"""
        if len(n.generators) != 1 or sc.g.ifs:
            raise Unsupported('filtered comprehension of symbolic length')
        e = eng()
        kt = z3.Int(e.fresh_name('cmp'))
        f2 = Frame(fr.fn, {}, fr.glob, fr)
        d0 = len(e.decisions)
        npc = len(e.pc)
        e.assume_fact(z3.And(kt >= 0, kt < T(sc.it.n)))
        self.assign(sc.g.target, sc.it.get(SInt(kt)), f2)
        v = self.ev(elt, f2)
        if isinstance(v, (Obj, PDict, core.SymList, Arr)) or v is None:
            raise Unsupported('comprehension element')
        v = lift(v)
        if any(d is not True and d is not False for d in e.decisions[d0:]):
            raise Unsupported('choice in comprehension')
        # facts learned about the generic element: they must hold for every
        # element (no fork on it), and are kept as quantified facts
        new = e.pc[npc + 1:]
        base = e.pc[:npc]
        rng = z3.And(kt >= 0, kt < T(sc.it.n))
        keep = []
        for f_ in new:
            if not core.mentions(f_, kt):
                keep.append(f_)
                continue
            sv = z3.Solver()
            sv.set('timeout', 2000)
            sv.add(*base)
            sv.add(*keep)
            sv.add(rng, z3.Not(f_))
            if sv.check() != z3.unsat:
                raise Unsupported('comprehension element depends on a condition')
        e.pc = base
        e.rebuild_solver()
        for f_ in keep:
            e.assume_fact(f_)

        def get(i, v=v):
            if isinstance(v, SComplex):
                raise Unsupported('complex comp')
            t = z3.substitute(v.t, (kt, T(i)))
            if isinstance(v, SReal):
                return SReal(t, None if v.nan is None else z3.substitute(v.nan, (kt, T(i))))
            return type(v)(t)
        return core.SymList(None, sc.it.n, get, kind_of(v), 'comp')

    def ex_ListComp(self, n, fr):
        try:
            return core.SymList([self.ev(n.elt, f) for f in self.comp(n, fr)])
        except _SymComp as sc:
            return self.sym_comp(sc, n, fr, n.elt)

    def ex_GeneratorExp(self, n, fr):
        try:
            return core.SymList([self.ev(n.elt, f) for f in self.comp(n, fr)])
        except _SymComp as sc:
            if len(n.generators) == 1 and sc.g.ifs:
                return FilterIter(sc.it, sc.g, fr, n.elt)
            return self.sym_comp(sc, n, fr, n.elt)

    def ex_SetComp(self, n, fr):
        return self.models.mkset([self.ev(n.elt, f) for f in self.comp(n, fr)])

    def ex_DictComp(self, n, fr):
        d = PDict(label='dictcomp')
        try:
            for f in self.comp(n, fr):
                d.setitem(self.ev(n.key, f), self.ev(n.value, f))
        except _SymComp:
            raise Unsupported('dict comprehension of symbolic length')
        return d

    def ex_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        self.do_yield(v, fr)
        return None

    def do_yield(self, v, fr):
        if fr.yields is None:
            raise Unsupported('yield')
        if fr.consumer is not None:
            fr.consumer[0](v)
        else:
            fr.yields.append(v)

    def ex_YieldFrom(self, n, fr):
        for v in self.concrete_iter(self.ev(n.value, fr)):
            self.do_yield(v, fr)

    def ex_JoinedStr(self, n, fr):
        return OpaqueStr()

    def ex_Starred(self, n, fr):
        raise Unsupported('starred')


class _SymComp(Exception):
    def __init__(self, it, g, f):
        self.it, self.g, self.f = it, g, f


def _sb_(x):
    return core._sb(x)


def val_kind(v):
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if isinstance(v, (float, SReal)):
        return 'real'
    if isinstance(v, (str, SStr)):
        return 'str'
    if isinstance(v, Arr):
        return 'arr-' + v.kind
    if isinstance(v, SComplex):
        return 'complex'
    if v is None:
        return 'none'
    return type(v).__name__


CLIENTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts') + '/'


def in_repo(f):
    code = getattr(f, '__code__', None)
    return code is not None and (code.co_filename.startswith(REPO + '/') or code.co_filename.startswith(CLIENTS))


def from_py(v):
    """a concrete python object of the real program -> interpreter value"""
    if isinstance(v, dict) and type(v) in (dict, OrderedDict):
        return PDict([(k, from_py(x)) for k, x in v.items()], label='const')
    if isinstance(v, list):
        return core.SymList([from_py(x) for x in v])
    if type(v) is tuple:
        return tuple(from_py(x) for x in v)
    return v
