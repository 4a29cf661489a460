"""Run-time hooks the instrumented code calls (`_vc.*`)."""
import builtins, types as pytypes
import z3
from .core import ctx, Ctx, Unsupported, PathAbort, EngineExc
from . import values as V
from . import types as TY
from .types import VList, VDict, Choice, eq as deep_eq, contains_sym, concrete
from . import models

PyExc = Exception
_type = type
_isinstance = isinstance
_bool = bool


def unsupported(msg):
    raise Unsupported(msg)


def force(x):
    return x.force() if _type(x) is Choice else x


def anysym(args, kw):
    for a in args:
        if contains_sym(a):
            return True
    for a in kw.values():
        if contains_sym(a):
            return True
    return False


def needs_model(args, kw):
    for a in args:
        t = _type(a)
        if t in (VList, VDict) or contains_sym(a):
            return True
        if t is tuple and any(_type(b) in (VList, VDict) for b in a):
            return True
    for a in kw.values():
        if _type(a) in (VList, VDict) or contains_sym(a):
            return True
    return False


# contracts used in place of bodies at call sites: {function object or qualified name: handler(*args)}
overrides = {}
callee = None           # the function an override handler stands in for


def qualname(f):
    m = getattr(f, '__module__', None)
    q = getattr(f, '__qualname__', None)
    return '%s:%s' % (m, q) if q else None


def call(*args, **kw):
    f = args[0]
    args = args[1:]
    if _type(f) is Choice:
        f = f.force()
    c = Ctx.cur
    if c is None:
        return f(*args, **kw)
    t = _type(f)
    if overrides:
        global callee
        h = None
        if t is pytypes.MethodType:
            h = overrides.get(qualname(f.__func__))
            if h is not None:
                callee = f
                return h(f.__self__, *args, **kw)
        elif t is pytypes.FunctionType or t is type:
            h = overrides.get(qualname(f))
            if h is not None:
                callee = f
                return h(*args, **kw)
        elif t is pytypes.BuiltinFunctionType:
            h = overrides.get('%s:%s' % (f.__module__, f.__name__))
            if h is not None:
                callee = f
                return h(*args, **kw)
    if t is pytypes.FunctionType:
        m = f.__module__ or ''
        if m.startswith('pdfmajor') or m.startswith('vc') or m.startswith('contracts') or m == '__main__':
            return f(*args, **kw)
        r = models.python_function(f, args, kw)
        return r
    if t is pytypes.MethodType:
        m = f.__func__.__module__ if hasattr(f.__func__, '__module__') else ''
        s = f.__self__
        if m and (m.startswith('pdfmajor') or m.startswith('vc') or m.startswith('contracts') or m == '__main__'):
            return f(*args, **kw)
        return models.python_function(f, args, kw)
    return models.builtin(f, args, kw)


def getitem(o, i):
    o = force(o)
    i = force(i)
    t = _type(o)
    if t in (list, tuple, bytes, str):
        if _type(i) is int or (_type(i) is slice and not contains_sym((i.start, i.stop, i.step))):
            return o[i]
        if t in (bytes, str):
            return V.lift(o)[i]
        if _type(i) is slice:
            r = VList(o).getslice(i)
            return r if t is list else tuple(r)
        if V.isint(i):
            return VList(o)[i]
        return o[i]
    if t is dict:
        if not contains_sym(i):
            return o[i]
        return models.dict_lookup(o, i)
    return o[i]


def setitem(o, i, v):
    o = force(o)
    i = force(i)
    t = _type(o)
    if t is list and contains_sym(i) and V.isint(i):
        o[V.enum_int(i)] = v
        return
    if t is dict and contains_sym(i):
        raise Unsupported('store with a symbolic key into a module-level dict')
    if t is list and _type(i) is slice and _type(v) is VList:
        v = list(v)
    o[i] = v


def delitem(o, i):
    o = force(o)
    del o[force(i)]


def augop(name, a, b):
    import operator
    a = force(a)
    f = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
         'FloorDiv': operator.ifloordiv, 'LShift': operator.ilshift, 'RShift': operator.irshift,
         'BitAnd': operator.iand, 'BitOr': operator.ior, 'BitXor': operator.ixor, 'Pow': operator.ipow}[name]
    return f(a, b)


def contains(x, c):
    c = force(c)
    x = force(x)
    t = _type(c)
    if t in (VList, VDict):
        return c.contains(x)
    if V.isinstance_(c, V.SSeq):
        return c.contains(x)
    if contains_sym(x) or contains_sym(c):
        if t in (list, tuple, set, frozenset):
            return V.or_(*[deep_eq(x, y) for y in c])
        if t is dict or t.__name__ == 'dict_keys':
            return V.or_(*[deep_eq(x, y) for y in c])
        if t in (bytes, str):
            if t is str and not _isinstance(x, str):
                raise TypeError("'in <string>' requires string as left operand")
            # a short needle in a concrete haystack
            return models.contains_const(x, c)
    return x in c


def ncontains(x, c):
    return V.not_(contains(x, c))


def is_(a, b):
    return TY.is_same(a, b)


def isnot(a, b):
    return V.not_(TY.is_same(a, b))


def eq(a, b):
    ta, tb = _type(a), _type(b)
    if ta is tuple or tb is tuple or ta is Choice or tb is Choice or ta is list or tb is list or ta in (VList, VDict):
        if contains_sym(a) or contains_sym(b) or ta in (VList, VDict) or tb in (VList, VDict):
            return deep_eq(a, b)
    return a == b


def ne(a, b):
    r = eq(a, b)
    if r is True or r is False or V.isinstance_(r, V.Sym):
        if r is not False and r is not True or _type(a) in (tuple, list, VList, VDict, Choice):
            return V.not_(r)
    return a != b


def not_(a):
    if _type(a) is V.SBool:
        return V.not_(a)
    if _type(a) is Choice:
        a = a.force()
    return not a


def mod(a, b):
    a = force(a)
    if _isinstance(a, (str, bytes)):
        return models.percent(a, b)
    return a % b


def fstr(*parts):
    return models.fstr(parts)


def mklist(xs):
    return VList(xs)


def mkdict(*pairs):
    return VDict(pairs)


def mkdict2(*parts):
    d = VDict()
    for star, v in parts:
        if star:
            d.update(v)
        else:
            d[v[0]] = v[1]
    return d


def fromdict(d):
    return VDict(list(d.items()))


def mkset(xs):
    if contains_sym(tuple(xs)):
        return models.VSet(xs)
    return set(xs)


def iterable(it):
    """what a loop over `it` iterates over; a container of the code may iterate over a list of any length"""
    it = force(it)
    if Ctx.cur is not None:
        f = getattr(_type(it), '__iter__', None)
        if _type(f) is pytypes.FunctionType and (f.__module__ or '').startswith(('pdfmajor', 'contracts')):
            return f(it)
    return it


def iter_(it):
    it = iterable(it)
    if _type(it) is VList or V.isinstance_(it, V.SSeq):
        return iter(it)
    if V.isinstance_(it, models.SymIter):
        return it.enumerate_()
    return it


def unpack(x, n):
    x = force(x)
    t = _type(x)
    if t is VList and x.el is not None or V.isinstance_(x, V.SSeq):
        ln = x.slen()
        if not V.truth(ln == n):
            raise ValueError('unpack: wrong number of values')
        return tuple(x[k] for k in range(n))
    if t is VList:
        return tuple(x.items)
    return x


def comp(kind, ntargets, body, cond, it):
    it = iterable(it)
    if ntargets is not None:
        b0, c0 = body, cond
        body = lambda x: b0(*unpack(x, ntargets))
        cond = None if c0 is None else (lambda x: c0(*unpack(x, ntargets)))
    return models.comprehension(kind, body, cond, it)


def loop(key, isfor, it, names):
    from . import loops
    return loops.begin(key, isfor, iterable(it) if isfor else force(it), names)


def star(x):
    """the operand of *x in a call"""
    if type(x) is TY.VList and x.el is not None and Ctx.cur is not None:
        return [TY.Star(x.copy())]
    return x
