"""Values and signals of the symbolic interpreter."""
import inspect
from .terms import *    # noqa: F401,F403

IDX = [var('#%d' % k, 'I') for k in range(8)]


class Unsupported(Exception):
    """a construct outside the engine's subset: the unit falls back to the bounded stand-in"""


class PyExc(Exception):
    """an exception of the interpreted program"""
    explicit = False            # raised by a raise statement of the program

    def __init__(self, name, args=(), value=None):
        Exception.__init__(self, name)
        self.name, self.eargs, self.value = name, args, value


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Infeasible(Exception):
    pass


EXC = {'Exception': None, 'TypeError': 'Exception', 'ValueError': 'Exception', 'NotImplementedError': 'RuntimeError',
       'RuntimeError': 'Exception', 'AttributeError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
       'LookupError': 'Exception', 'ImportError': 'Exception', 'NameError': 'Exception', 'AssertionError': 'Exception',
       'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'LinAlgError': 'Exception',
       'UnboundLocalError': 'NameError', 'StopIteration': 'Exception', 'ModelError': 'Exception', 'OverflowError': 'ArithmeticError'}


def exc_is(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC.get(name)
    return base in ('Exception', 'BaseException')


class Arr(object):
    """an array: a view (rd/wr index maps) of a heap cell"""
    __slots__ = ('cell', 'shape', 'dtype', 'rd', 'wr', 'contig')

    def __init__(self, cell, shape, dtype, rd=None, wr=None, contig=True):
        self.cell, self.shape, self.dtype, self.rd, self.wr, self.contig = cell, tuple(shape), dtype, rd, wr, contig

    @property
    def ndim(self):
        return len(self.shape)


class MArr(object):
    """base[mask]: the elements (or rows) of an array selected by a boolean mask"""

    def __init__(self, dims, mask, rest, dtype, body):
        self.dims, self.mask, self.rest, self.dtype, self.body = list(dims), mask, list(rest), dtype, body


class PyList(object):
    def __init__(self, lid):
        self.lid = lid


class SymSeq(object):
    """immutable sequence of symbolic length: element k is value with var := k"""

    def __init__(self, n, var_, value):
        self.n, self.var, self.value = n, var_, value


class Frozen(object):
    """an array as a value (index body), independent of the heap"""

    def __init__(self, shape, dtype, body):
        self.shape, self.dtype, self.body = tuple(shape), dtype, body


class Obj(object):
    def __init__(self, cls, oid):
        self.cls, self.oid = cls, oid

    def __repr__(self):
        return '<%s #%d>' % (self.cls.name, self.oid)


class ClassVal(object):
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                out += [x for x in b.mro() if x not in out]
        return out

    def lookup(self, k):
        for c in self.mro():
            if k in c.ns:
                return c.ns[k]
        raise KeyError(k)

    def __repr__(self):
        return '<class %s>' % self.name


class Closure(object):
    def __init__(self, node, frame, module, name, defaults, kwdefaults=None):
        self.node, self.frame, self.module, self.name, self.defaults = node, frame, module, name, defaults
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return '<function %s.%s>' % (self.module.name if self.module else '?', self.name)


class Bound(object):
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


HARMLESS = ('casting', 'subok', 'kind', 'copy', 'check_finite', 'stacklevel')


def harmless(key, v):
    """keyword arguments of numpy that do not change a mathematical result"""
    if key in HARMLESS:
        return True
    if key == 'order':
        return v is None or v in ('C', 'F', 'K', 'A')     # memory layout only; reshape and ravel have models of it
    if key == 'keepdims':
        return v is False
    if key in ('out', 'initial', 'where'):
        return v is None
    if key == 'dtype':
        return v is None or isinstance(v, Opaque) and 'float' in str(v.info)
    return False


def refuse_keywords(name, kw):
    for key, v in kw.items():
        if not harmless(key, v):
            raise Unsupported('keyword %s of %s' % (key, name))


def strict(name, f):
    """a model that takes **kw must not ignore a keyword that changes the result"""
    try:
        ps = inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return f
    if not any(q.kind == q.VAR_KEYWORD for q in ps) or any(q.kind == q.VAR_POSITIONAL for q in ps):
        return f
    own = set(q.name for q in ps if q.kind != q.VAR_KEYWORD)

    def g(*a, **kw):
        refuse_keywords(name, {k: v for k, v in kw.items() if k not in own})
        return f(*a, **kw)
    return g


class Prim(object):
    def __init__(self, name, f):
        self.name, self.f = name, strict(name, f)

    def __repr__(self):
        return '<prim %s>' % self.name


class ModVal(object):
    def __init__(self, name, ns=None):
        self.name, self.ns = name, ns if ns is not None else {}

    def __repr__(self):
        return '<module %s>' % self.name


class Opaque(object):
    """a value the program only passes around (tokens, dtypes, strings built from symbolic parts)"""

    def __init__(self, tag, info=None):
        self.tag, self.info = tag, info

    def __repr__(self):
        return '<%s %s>' % (self.tag, self.info)


class Rec(object):
    """record with attributes supplied by a model (results of scipy routines)"""

    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class SymFun(object):
    """a callable supplied by the caller: calls are logged, results are uninterpreted"""

    def __init__(self, name, result, raises=True):
        self.name, self.result, self.raises = name, result, raises


class Phi(object):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Poison(object):
    def __init__(self, why):
        self.why = why


class Slice(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def norm(v):
    if isinstance(v, T):
        if v is TRUE:
            return True
        if v is FALSE:
            return False
        if v.k == 'num' and v.s == 'I':
            return int(v.a[0])
    return v


def is_scalar(v):
    return isinstance(v, (T, bool, int, float, Fr)) and not isinstance(v, str)


def term(v):
    if isinstance(v, T):
        return v
    return lift(v)


def dim(v):
    return v if isinstance(v, T) else num(v, 'I')


NONFIN = set()      # names of the functions whose values may be NaN or infinite (results of black-box models); all other numbers are finite
