"""heap objects of the interpreter"""
from .core import *
from . import core
import numbers


class PDict(object):
    """a python dict / OrderedDict.  entries: [key, present, value]; keys may be
    symbolic; `base` (has, make) describes the part nobody has looked at yet."""
    __array_sym__ = True
    __hash__ = object.__hash__

    def __init__(self, pairs=(), base=None, seq=None, label='dict', pycls=dict, kind='obj', locked=False):
        self.entries = [[k, True, v] for k, v in pairs]
        self.initial = []
        self.base = base
        self.seq = seq
        self.label = label
        self.pycls = pycls
        self.kind = kind
        self.locked = locked
        self.oid = eng().new_oid(self)
        self.fast = None

    def keyeq(self, a, b):
        if a is b:
            return True
        ta, tb = isinstance(a, tuple), isinstance(b, tuple)
        if ta or tb:
            if not (ta and tb) or len(a) != len(b):
                return False
            return all(self.keyeq(x, y) for x, y in zip(a, b))
        if not is_sym(a) and not is_sym(b):
            try:
                return bool(a == b)
            except Exception:
                return False
        r = (a == b) if is_sym(a) else (b == a)
        return bool(r)

    def find(self, key):
        if isinstance(key, (core.SymList, PDict, Arr)):
            raise PyRaise(TypeError)
        for e in self.entries:
            if self.keyeq(e[0], key):
                return e
        if self.base is not None:
            has, make = self.base
            h = has(key)
            p = bool(h) if isinstance(h, SBool) else h
            e = [key, p, make(key) if p else None]
            self.entries.append(e)
            self.initial.append((key, p, e[2]))
            return e
        return None

    def has(self, key):
        e = self.find(key)
        return e is not None and e[1]

    def get(self, key, default=None):
        e = self.find(key)
        return e[2] if e is not None and e[1] else default

    def getitem(self, key):
        e = self.find(key)
        if e is None or not e[1]:
            raise PyRaise(KeyError, key)
        return e[2]

    def setitem(self, key, v):
        e = self.find(key)
        eng().note_write(self, 'dict')
        if e is None:
            self.entries.append([key, True, v])
        elif e[1]:
            e[2] = v
        else:
            # python appends a re-inserted key at the end
            self.entries.remove(e)
            self.entries.append([key, True, v])

    def delitem(self, key):
        e = self.find(key)
        if e is None or not e[1]:
            raise PyRaise(KeyError, key)
        eng().note_write(self, 'dict')
        e[1], e[2] = False, None

    def keys(self):
        if self.base is not None:
            raise Unsupported('iteration over an open dict')
        return [e[0] for e in self.entries if e[1]]

    def items(self):
        if self.base is not None:
            raise Unsupported('iteration over an open dict')
        return [(e[0], e[2]) for e in self.entries if e[1]]

    def values(self):
        return [v for k, v in self.items()]

    def clear(self):
        eng().note_write(self, 'dict')
        self.entries = []
        self.base = None

    def copy(self):
        d = PDict(label=self.label, pycls=self.pycls, base=self.base, seq=self.seq)
        d.entries = [list(e) for e in self.entries]
        d.initial = list(self.initial)
        return d

    snapshot = copy

    def havoc(self, tag):
        e = eng()
        nm = e.fresh_name(self.label + '!' + tag)
        hook = getattr(self, 'havoc_hook', None)
        if hook is None:
            raise Unsupported('loop modifies dict %s (no havoc rule)' % self.label)
        hook(self, nm)


class Obj(object):
    """an instance of a repository class (or of a stand-in)"""
    __array_sym__ = True
    __hash__ = object.__hash__

    def __init__(self, cls, attrs=None, label=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.label = label or getattr(cls, '__name__', 'obj')
        self.oid = eng().new_oid(self)
        self.getitem_hook = None
        self.setitem_hook = None
        self.contains_hook = None
        self.iter_hook = None
        self.missing = None       # name -> value or raises

    def get(self, name):
        return self.attrs[name]

    def set(self, name, v):
        eng().note_write(self, name)
        self.attrs[name] = v

    def __repr__(self):
        return '<Obj %s>' % self.label


class ExcVal(object):
    def __init__(self, cls, args):
        self.cls = cls
        self.args = args


class FuncRef(object):
    """a function of the repository, by its syntax tree"""
    def __init__(self, node, module, qual, closure=None, defaults=None, kwdefaults=None, cls=None, src=None):
        self.node = node
        self.module = module        # globals dict
        self.qual = qual
        self.closure = closure
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.cls = cls
        self.src = src


class BoundMethod(object):
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class Model(object):
    """a function whose meaning the verifier supplies"""
    def __init__(self, f, name=''):
        self.f = f
        self.name = name

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class SuperRef(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class SymIter(object):
    """iteration with symbolic count: element k is get(k)"""
    def __init__(self, n, get):
        self.n = n
        self.get = get


class FilterIter(SymIter):
    """a generator (elt for x in it if cond) over an iterable of symbolic length: consumed by for loops only"""
    def __init__(self, it, g, frame, elt):
        def no(k):
            raise Unsupported('element of a filtered generator of symbolic length')
        SymIter.__init__(self, it.n, no)
        self.it, self.g, self.frame, self.elt = it, g, frame, elt


class SymRange(SymIter):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        if step == 1:
            d = T(hi) - T(lo)
            n = simp_int(z3.If(d > 0, d, z3.IntVal(0))) if not eng().entails(d >= 0) else simp_int(d)
            SymIter.__init__(self, n, lambda k: simp_int(T(lo) + T(k)))
        elif step == -1:
            d = T(lo) - T(hi)
            n = simp_int(z3.If(d > 0, d, z3.IntVal(0))) if not eng().entails(d >= 0) else simp_int(d)
            SymIter.__init__(self, n, lambda k: simp_int(T(lo) - T(k)))
        else:
            raise Unsupported('range step')


class Poison(object):
    def __init__(self, name):
        self.name = name


class GenObj(object):
    """a generator that has not been started: a for loop runs it interleaved with its own body"""
    def __init__(self, ip, fn, fr):
        self.ip, self.fn, self.fr, self.started, self.items = ip, fn, fr, False, None

    def next(self):
        """next(generator): its body is run to the end first"""
        if self.items is None:
            self.items = self.run()
        return self.items

    def run(self, consumer=None):
        if self.started:
            if consumer is None:
                return SymList([])
            return
        self.started = True
        if self.items is not None:
            return self.items
        self.fr.consumer = consumer
        self.fr.yields = SymList([], label='yields')
        self.ip.depth += 1
        if self.ip.depth > 25:
            raise Unsupported('call depth')
        try:
            self.ip.block(self.fn.node.body, self.fr)
        except self.ip.ReturnEx:
            pass
        finally:
            self.ip.depth -= 1
        return self.fr.yields


class CallIter(object):
    """iter(function, sentinel)"""
    def __init__(self, f, end):
        self.f, self.end = f, end
