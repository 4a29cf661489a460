"""Models of the C-implemented builtins and library functions the code under proof calls with symbolic arguments.
These are the assumed contracts on CPython and its standard library (reported as trusted in the evidence)."""
import builtins, array as _array, struct as _struct, re as _re, io, logging, types as pytypes
import z3
from .core import ctx, Ctx, Unsupported, PathAbort, EngineExc, pure, I, B
from . import values as V
from . import types as TY
from .types import (VList, VDict, Choice, TInt, TBytes, TStr, TList, TTuple, contains_sym, concrete, guess_type,
                    eq as deep_eq, SOpaque, Rec)
from .seq import BYTES, STR

_type = type
iv = z3.IntVal


# ------------------------------------------------------------------ symbolic iterables
class SymIter(V.Sym):
    __slots__ = ()

    def length(self):
        raise NotImplementedError

    def at(self, k):
        raise NotImplementedError

    def enumerate_(self):
        n = self.length()
        n = n if _type(n) is int else V.enum_int(n)
        for k in range(n):
            yield self.at(k)

    def __iter__(self):
        return self.enumerate_()


class SeqIter(SymIter):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s.copy() if _type(s) is VList else s

    def length(self):
        return self.s.slen()

    def at(self, k):
        s = self.s
        if _type(s) is VList:
            if s.el is None:
                return s[k]
            return s.el.wrap(s.th.index(s.seq, V.int_term(k)))
        return s.at(V.int_term(k))


class RangeIter(SymIter):
    __slots__ = ('a', 'b', 's', 'n', 'step_symbolic')

    def __init__(self, a, b, s=1):
        self.a, self.b, self.s = a, b, s
        self.step_symbolic = False
        if _type(s) is not int:
            if V.truth(s == 0):
                raise ValueError('range() arg 3 must not be zero')
            pos = V.truth(s > 0)
            self.step_symbolic = pos
        else:
            if s == 0:
                raise ValueError('range() arg 3 must not be zero')
            pos = s > 0
        at, bt = V.int_term(a), V.int_term(b)
        d = (bt - at) if pos else (at - bt)
        st = V.int_term(s)
        ab = z3.simplify(st if pos else -st)
        if z3.is_int_value(ab) and ab.as_long() == 1:
            n = d
        else:
            n = (d + ab - 1) / ab
        self.n = V.mkint(z3.If(d <= 0, iv(0), n))

    @property
    def __class__(self):
        return range

    def length(self):
        return self.n

    def at(self, k):
        return self.a + k * self.s


class StepIter(SymIter):
    """range with a symbolic positive step, indexed by the current value itself (keeps arithmetic linear)"""
    __slots__ = ('a', 'b', 's')

    def __init__(self, r):
        self.a, self.b, self.s = r.a, r.b, r.s

    def length(self):
        return self.b

    def at(self, k):
        return k


class MapIter(SymIter):
    __slots__ = ('f', 'it')

    def __init__(self, f, it):
        self.f, self.it = f, it

    def length(self):
        return self.it.length()

    def at(self, k):
        return self.f(self.it.at(k))


class ZipIter(SymIter):
    __slots__ = ('its',)

    def __init__(self, its):
        self.its = its

    def length(self):
        ns = [i.length() for i in self.its]
        r = V.int_term(ns[0])
        for n in ns[1:]:
            t = V.int_term(n)
            r = z3.If(t < r, t, r)
        c = ctx()
        for n in ns:                  # keep the term simple when the path condition decides it
            t = V.int_term(n)
            if c.entails(r == t):
                return V.mkint(t)
        return V.mkint(r)

    def at(self, k):
        return tuple(i.at(k) for i in self.its)


class EnumIter(SymIter):
    __slots__ = ('it', 'start')

    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def length(self):
        return self.it.length()

    def at(self, k):
        return (self.start + k, self.it.at(k))


class RevIter(SymIter):
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it

    def length(self):
        return self.it.length()

    def at(self, k):
        return self.it.at(self.it.length() - 1 - k)


class ListView(SymIter):
    """python list/tuple as SymIter"""
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = list(xs)

    def length(self):
        return len(self.xs)

    def at(self, k):
        return self.xs[k] if _type(k) is int else VList(self.xs)[k]


class LiveList:
    def __init__(self, v):
        self.v = v

    def __iter__(self):
        k = 0
        while True:
            if self.v.items is None:
                raise Unsupported('list became symbolic while iterated')
            if k >= len(self.v.items):
                return
            yield self.v.items[k]
            k += 1


def symiter(x):
    """SymIter over x when x has symbolic length, else None"""
    if _type(x) is Choice:
        x = x.force()
    if V.isinstance_(x, SymIter):
        return x
    if _type(x) is VList:
        return SeqIter(x) if x.el is not None else None
    if V.isinstance_(x, V.SSeq):
        return SeqIter(x)
    return None


def as_symiter(x):
    s = symiter(x)
    if s is not None:
        return s
    if _type(x) is VList:
        return ListView(x.items)
    return ListView(list(x))


def _consts(t, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.append(t)
    if z3.is_quantifier(t):
        _consts(t.body(), out, seen)
        return
    for ch in t.children():
        _consts(ch, out, seen)


def generic_eval(n, fn):
    """value fn(k) for a generic index 0<=k<n plus the quantified side facts; returns (kconst, value, abstract)
    where abstract(term, pattern) closes facts over k."""
    c = ctx()
    k = z3.Const(c.fresh_name('gk'), z3.IntSort())
    c0 = c.counter
    n0 = len(c.ax)
    sv = list(c.local)
    c.local = sv + [k >= 0, k < V.int_term(n)]
    c.purelevel += 1
    try:
        v = pure(lambda: fn(V.SInt(k)))
    finally:
        c.purelevel -= 1
        c.local = sv
    c1 = c.counter
    new = c.ax[n0:]
    del c.ax[n0:]
    mine, keep = [], []
    for a in new:
        cs = []
        _consts(a, cs, set())
        if any(x.eq(k) for x in cs):
            mine.append(a)
        else:
            keep.append(a)
    c.ax.extend(keep)

    def close(facts, pat):
        """ForAll k: facts, with skolemised fresh constants"""
        body = z3.And(*(list(facts) + mine)) if len(facts) + len(mine) > 1 else (list(facts) + mine)[0]
        cs = []
        _consts(body, cs, set())
        subs = []
        for x in cs:
            nm = x.decl().name()
            if '!' in nm:
                try:
                    num = int(nm.rsplit('!', 1)[1])
                except ValueError:
                    continue
                if c0 < num <= c1:
                    subs.append((x, z3.Function(nm + '.fn', z3.IntSort(), x.sort())(k)))
        if subs:
            body = z3.substitute(body, *subs)
        return z3.ForAll([k], body, patterns=[pat])
    return k, v, close


def raw_item(it):
    """(type, function from index terms to raw terms) of the elements of a symbolic iterable, or None"""
    if V.isinstance_(it, SeqIter) and _type(it.s) is VList and it.s.el is not None:
        l = it.s
        th, seq = TList(l.el).th, l.seq
        return l.el, lambda k: th.index(seq, k)
    if V.isinstance_(it, ZipIter):
        rs = [raw_item(i) for i in it.its]
        if all(r is not None for r in rs):
            ty = TTuple(*[r[0] for r in rs])
            return ty, lambda k: ty.ctor(*[r[1](k) for r in rs])
    return None


def to_list(it):
    """VList of the elements of a symbolic iterable"""
    n, raw = it.length(), raw_item(it)
    if _type(n) is int or raw is None:
        return map_list(it, lambda e: e)
    c = ctx()
    ty, f = raw
    th = TList(ty).th
    r, k, nt = z3.Const(c.fresh_name('lst'), th.sort), z3.Const(c.fresh_name('qk'), z3.IntSort()), V.int_term(n)
    c.axiom(th.len(r) == nt)
    c.axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nt), th.idx(r, k) == f(k)), patterns=[th.idx(r, k)]))
    return VList.sym(ty, r)


def map_list(it, fn):
    """VList of fn(x) for x in symbolic iterable"""
    c = ctx()
    n = it.length()
    if _type(n) is int:
        return VList([fn(it.at(k)) for k in range(n)])
    k, v, close = generic_eval(n, lambda kk: fn(it.at(kk)))
    ty = guess_type(v)
    th = TList(ty).th
    t = ty.unwrap(v)
    if _type(it) is SeqIter and _type(it.s) is VList and it.s.el is not None and it.s.th is th and t.eq(th.index(it.s.seq, k)):
        return VList.sym(ty, it.s.seq)      # the same values
    r = z3.Const(c.fresh_name('map'), th.sort)
    nt = V.int_term(n)
    c.axiom(th.len(r) == nt)
    c.axiom(close([z3.Implies(z3.And(k >= 0, k < nt), th.idx(r, k) == t)], th.idx(r, k)))
    return VList.sym(ty, r)


def entailed_length(s, limit=64):
    """the length of a symbolic sequence when the facts determine it (and it is small)"""
    if _type(s) is not SeqIter:
        return None
    c, n = ctx(), V.int_term(s.length())
    key = ('length', n.get_id()) + tuple(x.get_id() for x in c.local)
    if key not in c.memo:
        lo, hi = 0, limit
        if not c.entails(n <= hi):
            lo = None
        while lo is not None and lo < hi:
            mid = (lo + hi) // 2
            if c.entails(n <= mid):
                hi = mid
            else:
                lo = mid + 1
        c.memo[key] = lo if lo is not None and c.entails(n == lo) else None, n, list(c.local)
    return c.memo[key][0]


def known_byte(*xs):
    """numbers that are in 0..255 by construction"""
    for x in xs:
        t = V.int_term(x)
        ctx().known_bytes[t.get_id()] = t


def comprehension(kind, body, cond, it):
    s = symiter(it)
    if s is None and _type(it) is VList:
        it = list(it.items)
    if s is not None and _type(s.length()) is int:
        it = s.enumerate_()
        s = None
    elif s is not None and cond is None:
        n = entailed_length(s)
        if n is not None:
            it = [s.at(k) for k in builtins.range(n)]
            if V.isinstance_(s.s, V.SBytes):
                known_byte(*it)
            s = None
    if s is None:
        g = (body(x) for x in it if cond is None or V.truth(cond(x)))
        if kind == 'gen':
            return g
        xs = list(g)
        if kind == 'list':
            return VList(xs)
        if kind == 'set':
            from .hooks import mkset
            return mkset(xs)
        return VDict(xs)
    if cond is not None:
        raise Unsupported('filtering comprehension over a symbolic iterable')
    if kind == 'list':
        return map_list(s, body)
    if kind == 'gen':
        return MapIter(body, s)
    raise Unsupported('%s comprehension over a symbolic iterable' % kind)


class VSet:
    """a set: `els` is the tuple of its elements, or (in loops) a characteristic function"""
    _vc_heap = True

    def __init__(self, xs=()):
        self.els = ()
        for x in xs:
            self.add(x)

    @property
    def __class__(self):
        return set

    def el(self, x):
        t = self.els.ty.el.unwrap(x)
        if t is None:
            raise Unsupported('%r in a set of %s' % (x, self.els.ty.el.name))
        return t

    def contains(self, x):
        if _type(self.els) is tuple:
            return V.or_(*[deep_eq(x, y) for y in self.els])
        return V.mkbool(z3.Select(self.els.t, self.el(x)))

    def __contains__(self, x):
        return V.truth(self.contains(x))

    def add(self, x):
        if _type(self.els) is not tuple:
            self.els = TY.SOpaque(self.els.ty, z3.Store(self.els.t, self.el(x), z3.BoolVal(True)))
        elif not V.truth(self.contains(x)):
            self.els += (x,)

    def remove(self, x):
        if not V.truth(self.contains(x)):
            raise KeyError(x)
        self.discard(x)

    def discard(self, x):
        if _type(self.els) is not tuple:
            self.els = TY.SOpaque(self.els.ty, z3.Store(self.els.t, self.el(x), z3.BoolVal(False)))
            return
        for k, y in builtins.enumerate(self.els):
            if V.truth(deep_eq(x, y)):
                self.els = self.els[:k] + self.els[k + 1:]
                return

    def elements(self):
        if _type(self.els) is not tuple:
            raise Unsupported('elements of a symbolic set')
        return self.els

    def __iter__(self): return iter(self.elements())
    def __len__(self): return len(self.elements())

    def __bool__(self):
        if _type(self.els) is tuple:
            return bool(self.els)
        return V.truth(V.mkbool(self.els.t != self.els.ty.empty()))

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)


# ------------------------------------------------------------------ dispatcher
TABLE = {}


def model(*fs):
    def d(m):
        for f in fs:
            TABLE[f] = m
        return m
    return d


METHODS = {}      # (python type, method name) -> model(self, *args)


def method(ty, *names):
    def d(m):
        for n in names:
            METHODS[(ty, n)] = m
        return m
    return d


def key_of(f):
    try:
        hash(f)
        return f
    except TypeError:
        return None


def builtin(f, args, kw):
    args = tuple(a.force() if _type(a) is Choice else a for a in args)
    h = None
    s = getattr(f, '__self__', None)
    t = _type(f)
    try:
        h = TABLE.get(f)
    except (TypeError, EngineExc):
        h = None
    if h is not None:
        return h(*args, **kw)
    if (t in (pytypes.BuiltinMethodType, pytypes.MethodWrapperType) or t.__name__ == 'builtin_method') and s is not None and not isinstance(s, pytypes.ModuleType):
        st = _type(s)
        h = METHODS.get((st, f.__name__))
        from . import hooks
        if h is not None and (hooks.needs_model(args, kw) or
                              any(_type(a) is pytypes.GeneratorType for a in args)):
            return h(s, *args, **kw)
        if not hooks.needs_model(args, kw):
            return f(*args, **kw)
        if st in (bytes, str) and hooks.anysym(args, kw):
            return getattr(V.lift(s), f.__name__)(*args, **kw)
        if st in (list,) and f.__name__ in ('append', 'insert', 'extend', 'remove', 'index', 'pop'):
            if f.__name__ in ('append', 'insert'):
                return f(*args, **kw)
            if f.__name__ == 'extend':
                return f(list(args[0]))
        if st is dict and f.__name__ in ('setdefault', 'pop') and not contains_sym(args[0]):
            return f(*args)
        try:
            cargs = [concrete(a) for a in args]
            ckw = {k: concrete(a) for k, a in kw.items()}
        except Unsupported:
            raise Unsupported('no model of %s.%s on symbolic arguments' % (st.__name__, f.__name__))
        return f(*cargs, **ckw)
    if t is type or isinstance(f, type):
        m = getattr(f, '__module__', '')
        if m.startswith(('pdfmajor', 'vc.', 'contracts')) or issubclass(f, BaseException):
            return f(*args, **kw)
    if t.__module__.startswith(('pdfmajor', 'vc.', 'vc', 'contracts')):
        return f(*args, **kw)
    from . import hooks
    if not hooks.needs_model(args, kw):
        r = f(*args, **kw)
        return r
    try:
        cargs = [concrete(a) for a in args]
        ckw = {k: concrete(a) for k, a in kw.items()}
    except Unsupported:
        raise Unsupported('no model of builtin %r on symbolic arguments' % (getattr(f, '__qualname__', f),))
    return f(*cargs, **ckw)


LOGFUNCS = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'warn', 'log'}


def python_function(f, args, kw):
    """Python-level library function"""
    args = tuple(a.force() if _type(a) is Choice else a for a in args)
    m = f.__module__ or ''
    if m == 'logging' and f.__name__ in LOGFUNCS:
        return None
    try:
        h = TABLE.get(f)
    except (TypeError, EngineExc):
        h = None
    if h is None and _type(f) is pytypes.MethodType:
        h = METHODS.get((_type(f.__self__), f.__name__))
        if h is not None:
            return h(f.__self__, *args, **kw)
    if h is not None:
        return h(*args, **kw)
    from . import hooks
    if not hooks.needs_model(args, kw):
        return f(*args, **kw)
    try:
        cargs = [concrete(a) for a in args]
        ckw = {k: concrete(a) for k, a in kw.items()}
    except Unsupported:
        raise Unsupported('no model of %s.%s on symbolic arguments' % (m, f.__qualname__))
    return f(*cargs, **ckw)


# ------------------------------------------------------------------ builtins
@model(len)
def m_len(x):
    t = _type(x)
    if t is VList or V.isinstance_(x, V.SSeq):
        return x.slen()
    if V.isinstance_(x, SymIter):
        return x.length()
    if V.isinstance_(x, V.SNum):
        raise TypeError('object has no len()')
    return len(x)


@model(range)
def m_range(*a):
    for x in a:
        if not V.isint(x):
            raise TypeError("'%s' object cannot be interpreted as an integer" % _type(x).__name__)
    if not any(V.isinstance_(x, V.Sym) for x in a):
        return range(*a)
    if len(a) == 1:
        return RangeIter(0, a[0])
    return RangeIter(*a)


@model(isinstance)
def m_isinstance(x, c):
    if _type(x) is VList or _type(x) is VDict:
        return isinstance(x, c)
    return isinstance(x, c)


@model(issubclass)
def m_issubclass(a, b):
    return issubclass(a, b)


@model(type)
def m_type(*a):
    if len(a) != 1:
        raise Unsupported('type/3')
    x = a[0]
    if V.isinstance_(x, V.Sym) or _type(x) in (VList, VDict):
        return x.__class__
    return type(x)


@model(callable)
def m_callable(x):
    return callable(x)


@model(getattr)
def m_getattr(o, n, *d):
    if V.isinstance_(n, V.Sym):
        raise Unsupported('getattr with a symbolic name')
    return getattr(o, n, *d)


@model(hasattr)
def m_hasattr(o, n):
    return hasattr(o, n)


@model(setattr)
def m_setattr(o, n, v):
    if V.isinstance_(n, V.Sym):
        raise Unsupported('setattr with a symbolic name')
    return setattr(o, n, v)


@model(id)
def m_id(x):
    return id(x)


@model(print)
def m_print(*a, **k):
    return None


@model(abs)
def m_abs(x):
    return abs(x)


@model(bool)
def m_bool(x=False):
    if V.isinstance_(x, V.SNum) or V.isinstance_(x, V.SSeq):
        return V.mkbool(V.tob(x) if _type(x) is not V.SReal else x.t != 0)
    return bool(x)


def _minmax(a, kw, less):
    key = kw.get('key')
    if len(a) == 1:
        s = symiter(a[0])
        if s is not None and _type(s.length()) is not int:
            raise Unsupported('min/max over a symbolic iterable')
        xs = list(a[0])
        if not xs:
            if 'default' in kw:
                return kw['default']
            raise ValueError('min()/max() of an empty sequence')
    else:
        xs = list(a)
    if key is None:
        xs = [V.canon(x) for x in xs]
        if all(_type(x) is V.SReal for x in xs):
            xs = [x for _, x in sorted({x.t.sexpr(): x for x in xs}.items())]
    r = xs[0]
    for x in xs[1:]:
        p, q = (r, x) if key is None else (key(r), key(x))
        c = less(q, p)
        if c is True:
            r = x
        elif c is False:
            pass
        elif _type(c) is V.SBool:
            if V.isnum(r) and V.isnum(x) and V.isreal(r) == V.isreal(x):
                r = V.ite(c, x, r)
            else:
                r = x if V.truth(c) else r
        else:
            r = x if c else r
    return r


@model(min)
def m_min(*a, **kw):
    return _minmax(a, kw, lambda q, p: q < p)


@model(max)
def m_max(*a, **kw):
    return _minmax(a, kw, lambda q, p: q > p)


@model(sum)
def m_sum(xs, start=0):
    s = symiter(xs)
    if s is not None and _type(s.length()) is not int:
        raise Unsupported('sum over a symbolic iterable')
    r = start
    for x in xs:
        r = r + x
    return r


def _every(xs, want):
    """truth value `every element is <want>` of an iterable of symbolic length, else None"""
    s = symiter(xs)
    if s is None or _type(s.length()) is int:
        return None
    from .contract import FORALL

    def is_want(k):
        v = s.at(k)
        t = V.mkbool(V.int_term(v.slen()) != 0) if _type(v) is VList else V.mkbool(V.tob(v))
        return t if want else V.not_(t)
    return FORALL(s.length(), is_want)


@model(any)
def m_any(xs):
    b = _every(xs, False)
    if b is not None:
        return V.not_(b)
    for x in xs:
        if V.truth(x):
            return True
    return False


@model(all)
def m_all(xs):
    b = _every(xs, True)
    if b is not None:
        return b
    for x in xs:
        if not V.truth(x):
            return False
    return True


@model(divmod)
def m_divmod(a, b):
    return (a // b, a % b)


@model(pow)
def m_pow(a, b, *m):
    if m:
        raise Unsupported('pow/3')
    return a ** b


@model(round)
def m_round(x, *n):
    if not V.isinstance_(x, V.Sym):
        return round(x, *n)
    if V.isint(x) and not n:
        return x
    if n:
        f = z3.Function('round/%s' % n[0], z3.RealSort(), z3.RealSort())
        return V.mkreal(f(V.real_term(x)))
    f = z3.Function('round', z3.RealSort(), I)
    r = f(V.real_term(x))
    c = ctx()
    xt = V.real_term(x)
    c.axiom(z3.And(z3.ToReal(r) >= xt - z3.RealVal('1/2'), z3.ToReal(r) <= xt + z3.RealVal('1/2')))
    return V.mkint(r)


@model(ord)
def m_ord(x):
    if not V.isinstance_(x, V.SSeq):
        return ord(x)
    if not V.truth(x.slen() == 1):
        raise TypeError('ord() expected a character')
    return V.mkint(x.th.index(x.t, iv(0)))


@model(chr)
def m_chr(x):
    if not V.isinstance_(x, V.Sym):
        return chr(x)
    if not V.isint(x):
        raise TypeError('an integer is required')
    if not V.truth(V.and_(x >= 0, x < 0x110000)):
        raise ValueError('chr() arg not in range(0x110000)')
    return V.mkseq_str(STR.unit(V.int_term(x)))


def hexdigit(e):
    """(is hex digit, value) of a character code term"""
    isd = z3.And(e >= 48, e <= 57)
    isl = z3.And(e >= 97, e <= 102)
    isu = z3.And(e >= 65, e <= 70)
    return z3.Or(isd, isl, isu), z3.If(isd, e - 48, z3.If(isl, e - 87, e - 55))


def _parse_int(x, base):
    th = x.th
    c = ctx()
    n = x.lent()
    ok = z3.Function('%s.isint%d' % (th.name, base), th.sort, B)
    val = z3.Function('%s.int%d' % (th.name, base), th.sort, I)
    key = ('int', base, x.t.get_id())
    if key not in c.memo:
        c.memo[key] = x
        digs = []
        for k in range(3):
            e = th.index(x.t, iv(k)) if k else th.index(x.t, iv(0))
            if base == 16:
                digs.append(hexdigit(e))
            else:
                digs.append((z3.And(e >= 48, e < 48 + base), e - 48))
        c.axiom(z3.Implies(th.len(x.t) == 0, z3.Not(ok(x.t))))
        acc = []
        v = None
        for k in range(3):
            acc.append(digs[k][0])
            v = digs[k][1] if v is None else v * base + digs[k][1]
            alld = z3.And(*acc) if len(acc) > 1 else acc[0]
            c.axiom(z3.Implies(z3.And(n == k + 1, alld), z3.And(ok(x.t), val(x.t) == v)))
        c.axiom(z3.Implies(z3.And(n == 1, z3.Not(digs[0][0])), z3.Not(ok(x.t))))
    if not V.truth(V.mkbool(ok(x.t))):
        raise ValueError('invalid literal for int()')
    return V.mkint(val(x.t))


@model(int)
def m_int(x=0, base=None):
    if _type(x) in (V.SInt, V.SBool) and base is None:
        return V.mkint(V.int_term(x))
    if _type(x) is V.SReal and base is None:
        t = x.t
        return V.mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if V.isinstance_(x, V.SSeq):
        if base is not None and _type(base) is not int:
            base = V.enum_int(base)
        return _parse_int(x, base or 10)
    if _type(x) is TY.SOpaque and isinstance(x.ty, TY.TAny) and base is None:
        r = x.ty.intval(x.t)
        if r is not None:
            return r
    if hasattr(_type(x), '_vc_int') and base is None:
        return x._vc_int()
    if contains_sym(x):
        raise Unsupported('int(%r)' % (x,))
    return int(x) if base is None else int(x, base)


@model(float)
def m_float(x=0.0):
    if _type(x) in (V.SInt, V.SBool, V.SReal):
        return V.mkreal(V.real_term(x))
    if V.isinstance_(x, V.SSeq):
        th = x.th
        ok = z3.Function('%s.isfloat' % th.name, th.sort, B)
        val = z3.Function('%s.float' % th.name, th.sort, z3.RealSort())
        if not V.truth(V.mkbool(ok(x.t))):
            raise ValueError('could not convert string to float')
        return V.mkreal(val(x.t))
    if contains_sym(x):
        raise Unsupported('float')
    return float(x)


def str_of(x):
    """str(x) as str/SStr"""
    t = _type(x)
    if t is V.SStr or t is str:
        return x
    if t is V.SInt:
        return V.mkseq_str(z3.Function('str.of_int', I, STR.sort)(x.t))
    if t is V.SReal:
        return V.mkseq_str(z3.Function('str.of_real', z3.RealSort(), STR.sort)(x.t))
    if t is V.SBool:
        return V.ite(x, 'True', 'False')
    if t is V.SBytes:
        return V.mkseq_str(z3.Function('str.of_bytes', BYTES.sort, STR.sort)(x.t))
    if t is tuple and contains_sym(x):
        return opaque_str('tuple')
    if t in (VList, VDict):
        if not contains_sym(x):
            return str(concrete(x))
        return opaque_str('list')
    if t is SOpaque:
        return V.mkseq_str(z3.Function('str.of_' + x.ty.name, x.ty.sort, STR.sort)(x.t))
    if contains_sym(x):
        raise Unsupported('str(%r)' % (x,))
    return str(x)


def opaque_str(what):
    c = ctx()
    return V.SStr(z3.Const(c.fresh_name('str_' + what), STR.sort))


@model(str)
def m_str(*a, **kw):
    if not a:
        return ''
    if len(a) == 1 and not kw:
        return str_of(a[0])
    if V.isinstance_(a[0], V.SBytes):
        return decode(*a, **kw)
    if V.isinstance_(a[0], V.Sym):
        raise TypeError('decoding to str: need a bytes-like object')
    if _type(a[0]) in (VList, VDict):
        raise TypeError('decoding to str: need a bytes-like object')
    return str(*a, **kw)


@model(repr)
def m_repr(x):
    if not contains_sym(x) and _type(x) not in (VList, VDict):
        return repr(x)
    if not contains_sym(x):
        return repr(concrete(x))
    t = _type(x)
    if t in (V.SInt, V.SReal, V.SBool):
        return str_of(x)
    return opaque_str('repr')


@model(hash)
def m_hash(x):
    return hash(x)


@model(bytes, bytearray)
def m_bytes(x=b'', *a):
    if a:
        if V.isinstance_(x, V.SStr):
            return encode(x, *a)
        return bytes(x, *a)
    if V.isinstance_(x, V.SBytes):
        return x
    if V.isint(x):
        if V.isinstance_(x, V.Sym):
            if V.truth(x < 0):
                raise ValueError('negative count')
            return V.lift(b'\0') * x
        return bytes(x)
    s = symiter(x)
    if s is None:
        xs = list(x)
        for e in xs:
            if not V.isint(e):
                raise TypeError('cannot convert to bytes')
        if not contains_sym(tuple(xs)):
            return bytes(xs)
        for e in xs:
            if V.isinstance_(e, V.Sym) and not V.truth(V.and_(e >= 0, e <= 255)):
                raise ValueError('bytes must be in range(0, 256)')
        t = BYTES.emp
        for e in xs:
            t = BYTES.concat(t, BYTES.unit(V.int_term(e)))
        return V.mkseq_bytes(t)
    c = ctx()
    n = s.length()
    k, v, close = generic_eval(n, lambda kk: s.at(kk))
    nt = V.int_term(n)
    vt = V.int_term(v)
    if vt is None:
        raise Unsupported('bytes()')
    bad = z3.Const(c.fresh_name('badidx'), I)
    vb = z3.substitute(vt, (k, bad))
    # either some element is out of range, or all are in range
    some = z3.And(bad >= 0, bad < nt, z3.Or(vb < 0, vb > 255))
    if c.decide(2, lambda i: c.feasible(some) if i == 0 else True) == 0:
        c.assume(some)
        raise ValueError('bytes must be in range(0, 256)')
    r = z3.Const(c.fresh_name('bytes'), BYTES.sort)
    c.axiom(BYTES.len(r) == nt)
    c.axiom(close([z3.Implies(z3.And(k >= 0, k < nt), z3.And(BYTES.idx(r, k) == vt, vt >= 0, vt <= 255))], BYTES.idx(r, k)))
    return V.mkseq_bytes(r)


@model(list)
def m_list(x=()):
    if _type(x) is VList:
        return x.copy()
    s = symiter(x)
    if s is not None:
        if V.isinstance_(s, SeqIter) and _type(s.s) is VList:
            return s.s.copy()
        return to_list(s)
    return VList(list(x))


@model(tuple)
def m_tuple(x=()):
    s = symiter(x)
    if s is not None and _type(s.length()) is not int:
        if _type(x) is VList or V.isinstance_(x, SymIter):
            return STuple(x if _type(x) is VList else to_list(s))
        raise Unsupported('tuple of a symbolic iterable')
    return tuple(x)


class STuple(V.Sym):
    """tuple of symbolic length"""
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l.copy()

    @property
    def __class__(self):
        return tuple

    def slen(self): return self.l.slen()
    def __len__(self): return len(self.l)
    def __iter__(self): return iter(self.l)
    def __bool__(self): return bool(self.l)
    def __getitem__(self, i):
        r = self.l[i]
        return STuple(r) if _type(i) is slice else r

    def __eq__(self, o):
        if _type(o) is STuple:
            return deep_eq(self.l, o.l)
        if _type(o) is tuple:
            return deep_eq(self.l, VList(o))
        return False
    __hash__ = None


@model(dict)
def m_dict(*a, **kw):
    d = VDict()
    if a:
        x = a[0]
        if _type(x) is VDict:
            d = x.copy()
        elif _type(x) is dict:
            d.update(x)
        else:
            s = symiter(x)
            if s is not None and _type(s.length()) is not int:
                raise Unsupported('dict of a symbolic iterable')
            for p in x:
                k, v = p
                d[k] = v
    for k, v in kw.items():
        d[k] = v
    return d


@model(set, frozenset)
def m_set(x=()):
    xs = list(x)
    return VSet(xs)


@model(enumerate)
def m_enumerate(x, start=0):
    s = symiter(x)
    if s is not None:
        return EnumIter(s, start)
    if _type(x) is VList:
        x = LiveList(x)
    return ((start + k, e) for k, e in builtins.enumerate(x))


@model(zip)
def m_zip(*xs):
    if any(symiter(x) is not None for x in xs):
        return ZipIter([as_symiter(x) for x in xs])
    return zip(*xs)


@model(reversed)
def m_reversed(x):
    s = symiter(x)
    if s is not None:
        return RevIter(s)
    return reversed(list(x))


@model(map)
def m_map(f, *xs):
    from .hooks import call
    if len(xs) == 1:
        s = symiter(xs[0])
        if s is not None:
            return MapIter(lambda e: call(f, e), s)
        return (call(f, e) for e in xs[0])
    return (call(f, *e) for e in m_zip(*xs))


@model(filter)
def m_filter(f, x):
    from .hooks import call
    if symiter(x) is not None:
        raise Unsupported('filter over a symbolic iterable')
    return (e for e in x if V.truth(e if f is None else call(f, e)))


@model(iter)
def m_iter(x, *a):
    if a:
        raise Unsupported('iter/2')
    s = symiter(x)
    if s is not None:
        return s
    return iter(x)


@model(next)
def m_next(x, *d):
    if V.isinstance_(x, SymIter):
        raise Unsupported('next on a symbolic iterable')
    return next(x, *d)


@model(sorted)
def m_sorted(x, key=None, reverse=False):
    s = symiter(x)
    if s is not None and _type(s.length()) is not int:
        raise Unsupported('sorted over a symbolic iterable')
    xs = list(x)
    from .hooks import call
    ks = [x if key is None else call(key, x) for x in xs]
    if not contains_sym(tuple(ks)):
        idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
        return VList([xs[i] for i in idx])
    # insertion sort, forking on comparisons (stable)
    out = []
    for x, k in zip(xs, ks):
        pos = len(out)
        while pos > 0:
            pk = out[pos - 1][1]
            less = (k < pk) if not reverse else (k > pk)
            if V.truth(less):
                pos -= 1
            else:
                break
        out.insert(pos, (x, k))
    return VList([x for x, _ in out])


# ------------------------------------------------------------------ dict with symbolic key
def dict_lookup(d, k):
    for q in d:
        e = deep_eq(q, k)
        if e is False:
            continue
        if V.truth(e):
            return d[q]
    raise KeyError(k)


@method(dict, 'get')
def m_dict_get(d, k, default=None):
    if not contains_sym(k):
        return d.get(k, default)
    try:
        return dict_lookup(d, k)
    except KeyError:
        return default


@method(dict, '__contains__')
def m_dict_contains(d, k):
    return V.or_(*[deep_eq(k, q) for q in d])


def contains_const(x, c):
    """`x in c` for a constant bytes/str haystack"""
    if V.isint(x) and _type(c) is bytes:
        return V.or_(*[deep_eq(x, b) for b in sorted(set(c))])
    x = V.lift(x)
    n = x.slen()
    subs = set()
    for ln in range(0, len(c) + 1):
        for p in range(len(c) - ln + 1):
            subs.add(c[p:p + ln])
    if len(subs) > 40:
        raise Unsupported('substring test in a long constant')
    return V.or_(*[V.seq_eq(x, s) for s in sorted(subs)])


# ------------------------------------------------------------------ bytes/str
def flat_fn(th):
    """concatenation of a list of sequences, as an uninterpreted function with append axioms"""
    ty = TBytes if th is BYTES else TStr
    lth = TList(ty).th
    f = z3.Function('flat_' + th.name, lth.sort, th.sort)
    key = 'flat_' + th.name
    from .core import Theories
    if key not in Theories.names:
        Theories.names.add(key)
        a, b = z3.Consts('fa fb', lth.sort)
        x = z3.Const('fx', th.sort)
        Theories.axioms.extend([
            f(lth.emp) == th.emp,
            z3.ForAll([x], f(lth.unit(x)) == x, patterns=[f(lth.unit(x))]),
            z3.ForAll([a, b], f(lth.cat(a, b)) == th.cat(f(a), f(b)), patterns=[f(lth.cat(a, b))])])
    return f, ty


def seq_join(sep, it):
    th = sep.th
    if _type(it) is pytypes.GeneratorType and sep.concrete() is not None and not len(sep.concrete()):
        # b''.join(generator): an accumulation loop; invariants of the generator's loops refer to it as `joined`
        g = ctx().ghost
        g['joined'] = sep.pytype()
        for x in it:
            if not isinstance(x, sep.pytype):
                raise TypeError('sequence item: wrong type')
            g['joined'] = g['joined'] + x
        return g.pop('joined')
    s = symiter(it)
    if s is not None and _type(s.length()) is int:
        it = list(s.enumerate_())
        s = None
    if s is None:
        xs = list(it)
        for x in xs:
            if not isinstance(x, sep.pytype):
                raise TypeError('sequence item: wrong type')
        r = sep.pytype()
        for k, x in enumerate(xs):
            if k:
                r = r + (sep if sep.concrete() is None else sep.concrete())
            r = r + x
        return r
    v = sep.concrete()
    if v is None or len(v):
        l = it if _type(it) is VList else to_list(s)
        ty = TBytes if th is BYTES else TStr
        f = z3.Function('joinsep_' + th.name, th.sort, TList(ty).th.sort, th.sort)
        return V.mkseq(sep, f(sep.t, l.asterm(ty)))
    if s is not None and _type(it) is not VList:
        # pieces of one element each: position k of the result is the element of piece k
        c, n = ctx(), s.length()
        k, v, close = generic_eval(n, s.at)
        if V.isinstance_(v, sep.pytype) or V.isinstance_(v, V.SSeq):
            w, nt = V.lift(v), V.int_term(n)
            sv = list(c.local)
            c.local = sv + [k >= 0, k < nt]
            one = w.th is th and c.entails(th.len(w.t) == 1)
            c.local = sv
            if one:
                r = z3.Const(c.fresh_name('joined'), th.sort)
                c.axiom(th.len(r) == nt)
                c.axiom(close([z3.Implies(z3.And(k >= 0, k < nt), th.idx(r, k) == th.idx(w.t, 0))], th.idx(r, k)))
                return V.mkseq(sep, r)
    l = it if _type(it) is VList else to_list(s)
    f, ty = flat_fn(th)
    t = l.asterm(ty)
    if t is None:
        raise TypeError('sequence item: wrong type')
    return V.mkseq(sep, f(t))


@method(bytes, 'join')
def m_bytes_join(sep, it):
    return seq_join(V.lift(sep), it)


@method(str, 'join')
def m_str_join(sep, it):
    return seq_join(V.lift(sep), it)


@method(str, 'format')
def m_str_format(tmpl, *a, **k):
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        out = out + lit
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported('format field ' + field)
        out = out + format_one(v, conv, spec)
    return out


def format_one(v, conv, spec):
    if conv == 'r' or conv == 114:
        v = m_repr(v)
    elif conv == 's' or conv == 115:
        v = str_of(v)
    if spec in ('', None):
        return str_of(v)
    if not contains_sym(v):
        return format(concrete(v), spec)
    t = V.int_term(v)
    if t is not None:
        return V.mkseq_str(z3.Function('str.format_int[%s]' % spec, I, STR.sort)(t))
    t = V.real_term(v) if V.isnum(v) else None
    if t is not None:
        return V.mkseq_str(z3.Function('str.format_real[%s]' % spec, z3.RealSort(), STR.sort)(t))
    if V.isinstance_(v, V.SStr):
        return V.mkseq_str(z3.Function('str.format_str[%s]' % spec, STR.sort, STR.sort)(v.t))
    raise Unsupported('format spec')


def fstr(parts):
    if not any(_type(p) is tuple and (contains_sym(p[0]) or _type(p[0]) in (VList, VDict)) for p in parts):
        out = ''
        for p in parts:
            if _type(p) is tuple:
                v = p[0]
                v = {-1: lambda x: x, 114: repr, 115: str, 97: ascii}[p[1]](v)
                out += format(v, p[2] if _type(p[2]) is str else p[2])
            else:
                out += p.value if hasattr(p, 'value') else p
        return out
    out = ''
    for p in parts:
        if _type(p) is tuple:
            out = out + format_one(p[0], p[1], p[2])
        else:
            out = out + p
    return out


_pct = _re.compile(rb'%(?:\(([^)]*)\))?([#0\- +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])')


def percent(fmt, args):
    if V.isinstance_(fmt, V.Sym):
        return opaque_str('fmt')
    if not contains_sym(args) and _type(args) not in (VList, VDict) and not (
            _type(args) is tuple and any(_type(a) in (VList, VDict) for a in args)):
        return fmt % args
    isb = _type(fmt) is bytes
    if isb:
        raise Unsupported('bytes formatting')
    if _type(args) is VDict and '%(' in fmt:
        raise Unsupported('mapping format')
    if _type(args) is not tuple:
        args = (args,)
    out = ''
    pos = 0
    k = 0
    for m in _pct.finditer(fmt.encode('utf-8')):
        if m.group(1) is not None:
            raise Unsupported('mapping format')
    f8 = fmt
    for m in _re.finditer(r'%([#0\- +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])', f8):
        out = out + f8[pos:m.start()]
        pos = m.end()
        if m.group(4) == '%':
            out = out + '%'
            continue
        if k >= len(args):
            raise TypeError('not enough arguments for format string')
        v = args[k]
        k += 1
        d = m.group(4)
        if not contains_sym(v) and _type(v) not in (VList, VDict):
            out = out + (m.group(0) % (v,))
            continue
        if _type(v) in (VList, VDict) or _type(v) is tuple:
            out = out + (str_of(v) if d == 's' else m_repr(v))
            continue
        if d == 'd' and V.isint(v) and _re.fullmatch(r'[<>]%d[a-zA-Z]', fmt) and fmt[-1] in _codes:
            r = V.mkseq_str(z3.Function('str.struct[%s]' % fmt, I, STR.sort)(V.int_term(v)))
            ctx().memo['struct', r.t.get_id()] = (r, fmt, v)
            return r
        if d == 's' and m.group(0) == '%s':
            out = out + str_of(v)
        elif d == 'r':
            out = out + m_repr(v)
        elif d in 'di' and V.isnum(v):
            t = V.int_term(m_int(v))
            if m.group(0) == '%d':
                out = out + V.mkseq_str(z3.Function('str.of_int', I, STR.sort)(t))
            else:
                out = out + V.mkseq_str(z3.Function('str.format_int[%s]' % m.group(0), I, STR.sort)(t))
        elif d in 'xXoc' and V.isint(v):
            out = out + V.mkseq_str(z3.Function('str.format_int[%s]' % m.group(0), I, STR.sort)(V.int_term(v)))
        elif d in 'feEgG' and V.isnum(v):
            out = out + V.mkseq_str(z3.Function('str.format_real[%s]' % m.group(0), z3.RealSort(), STR.sort)(V.real_term(v)))
        else:
            if d in 'difeEgGxXo':
                raise TypeError('a number is required')
            out = out + opaque_str('fmt')
    if k < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return out + f8[pos:]


def normenc(enc):
    e = enc.lower().replace('_', '-')
    return {'utf8': 'utf-8', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1', 'us-ascii': 'ascii'}.get(e, e)


def decode(b, enc='utf-8', errors='strict'):
    if not V.isinstance_(b, V.SBytes):
        return b.decode(enc, errors)
    c = ctx()
    enc = normenc(enc)
    if enc == 'latin-1':
        f = z3.Function('decode[latin-1]', BYTES.sort, STR.sort)
        r = f(b.t)
        key = ('decode', r.get_id())
        if key not in c.memo:
            c.memo[key] = r
            k = z3.Int('k_dec')
            c.axiom(STR.len(r) == BYTES.len(b.t))
            c.axiom(z3.ForAll([k], STR.idx(r, k) == BYTES.idx(b.t, k), patterns=[STR.idx(r, k)]))
        return V.mkseq_str(r)
    if errors == 'strict':
        ok = z3.Function('decodable[%s]' % enc, BYTES.sort, B)
        if not V.truth(V.mkbool(ok(b.t))):
            raise UnicodeDecodeError(enc, b'', 0, 1, 'symbolic')
        return V.mkseq_str(z3.Function('decode[%s]' % enc, BYTES.sort, STR.sort)(b.t))
    return V.mkseq_str(z3.Function('decode[%s,%s]' % (enc, errors), BYTES.sort, STR.sort)(b.t))


def encode(s, enc='utf-8', errors='strict'):
    if not V.isinstance_(s, V.SStr):
        return s.encode(enc, errors)
    c = ctx()
    enc = normenc(enc)
    if errors == 'strict' and enc != 'utf-8':
        ok = z3.Function('encodable[%s]' % enc, STR.sort, B)
        if not V.truth(V.mkbool(ok(s.t))):
            raise UnicodeEncodeError(enc, '', 0, 1, 'symbolic')
    f = z3.Function('encode[%s%s]' % (enc, '' if errors == 'strict' else ',' + errors), STR.sort, BYTES.sort)
    r = f(s.t)
    if enc == 'latin-1' and errors == 'strict':
        k = z3.Int('k_enc')
        c.axiom(STR.len(s.t) == BYTES.len(r))
        c.axiom(z3.ForAll([k], STR.idx(s.t, k) == BYTES.idx(r, k), patterns=[BYTES.idx(r, k)]))
    return V.mkseq_bytes(r)


# ------------------------------------------------------------------ struct
_codes = {'B': (1, False), 'b': (1, True), 'H': (2, False), 'h': (2, True), 'L': (4, False), 'l': (4, True),
          'I': (4, False), 'i': (4, True), 'Q': (8, False), 'q': (8, True)}


def _parsefmt(fmt):
    if _type(fmt) is bytes:
        fmt = fmt.decode()
    order = 'big'
    if fmt and fmt[0] in '<>=!@':
        order = {'<': 'little', '>': 'big', '!': 'big', '=': 'little', '@': 'little'}[fmt[0]]
        fmt = fmt[1:]
    else:
        order = 'little'
        if any(ch not in 'Bb0123456789sxc' for ch in fmt):
            raise Unsupported('native struct format ' + fmt)
    out = []
    for n, ch in _re.findall(r'(\d*)([a-zA-Z])', fmt):
        if ch == 's':
            out.append(('s', int(n or 1)))
        elif ch == 'c':
            out.extend([('s', 1)] * int(n or 1))
        else:
            if ch not in _codes:
                raise Unsupported('struct code ' + ch)
            out.extend([(ch, 1)] * int(n or 1))
    return order, out


def _small(t, lo, hi):
    """a remainder that fits the code"""
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and lo <= 0 and 0 < t.arg(1).as_long() <= hi + 1


@model(_struct.pack)
def m_pack(fmt, *vals):
    if not contains_sym(vals):
        return _struct.pack(fmt, *vals)
    order, items = _parsefmt(fmt)
    if len(items) != len(vals):
        raise _struct.error('pack expected %d items' % len(items))
    out = b''
    for (ch, n), v in zip(items, vals):
        if ch == 's':
            if not isinstance(v, bytes):
                raise _struct.error("argument for 's' must be a bytes object")
            if V.isinstance_(v, V.SBytes):
                if not V.truth(v.slen() == n):
                    raise Unsupported('struct s padding')
            out = out + v
            continue
        size, signed = _codes[ch]
        if not V.isint(v):
            raise _struct.error('required argument is not an integer')
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        if not (size == 1 and not signed and V.int_term(v).get_id() in ctx().known_bytes) and not _small(V.int_term(v), lo, hi) and not V.truth(V.and_(v >= lo, v <= hi)):
            raise _struct.error('argument out of range')
        t = V.int_term(v)
        if signed:
            t = z3.If(t < 0, t + (1 << (8 * size)), t)
        bs = [t] if size == 1 else [(t / iv(1 << (8 * k))) % 256 if k else t % 256 for k in range(size - 1, -1, -1)]
        if size > 1:
            bs[0] = t / iv(1 << (8 * (size - 1)))
        if order == 'little':
            bs.reverse()
        out = out + V.mkseq_bytes(BYTES.lit([z3.simplify(x) for x in bs]))
    return out


@model(_struct.unpack)
def m_unpack(fmt, b):
    if not contains_sym(b):
        return _struct.unpack(fmt, b)
    if V.isinstance_(fmt, V.SStr):
        return _unpack_many(fmt, b)
    order, items = _parsefmt(fmt)
    total = sum(n if ch == 's' else _codes[ch][0] for ch, n in items)
    if not V.truth(b.slen() == total):
        raise _struct.error('unpack requires a buffer of %d bytes' % total)
    return _unpack_items(order, items, b)


def _unpack_many(fmt, b):
    """n numbers of one size, n arbitrary"""
    hit = ctx().memo.get(('struct', fmt.t.get_id()))
    if hit is None:
        raise Unsupported('symbolic struct format')
    f, n = hit[1:]
    size, signed = _codes[f[-1]]
    if not V.truth(b.slen() == n * size):
        raise _struct.error('unpack requires a buffer of another size')
    r = z3.Const(ctx().fresh_name('unpacked'), TList(TInt).sort)
    th = TList(TInt).th
    ctx().assume(V.mkbool(th.len(r) == V.int_term(n)))
    k = z3.Int('k_unp')
    bs = [BYTES.idx(b.t, size * k + j) for j in range(size)]
    if f[0] == '<':
        bs.reverse()
    t = bs[0]
    for x in bs[1:]:
        t = t * 256 + x
    if signed:
        t = z3.If(t >= (1 << (8 * size - 1)), t - (1 << (8 * size)), t)
    ctx().axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < V.int_term(n)), th.idx(r, k) == t), patterns=[th.idx(r, k)]))
    return m_tuple(TList(TInt).wrap(r))


def _unpack_items(order, items, b):
    out = []
    p = 0
    for ch, n in items:
        if ch == 's':
            out.append(b[p:p + n])
            p += n
            continue
        size, signed = _codes[ch]
        bs = [BYTES.index(b.t, iv(p + k)) for k in range(size)]
        if order == 'little':
            bs.reverse()
        t = bs[0]
        for x in bs[1:]:
            t = t * 256 + x
        if signed:
            t = z3.If(t >= (1 << (8 * size - 1)), t - (1 << (8 * size)), t)
        out.append(V.mkint(t))
        p += size
    return tuple(out)


@model(_struct.calcsize)
def m_calcsize(fmt):
    return _struct.calcsize(fmt)


@method(_struct.Struct, 'pack')
def m_Struct_pack(s, *vals):
    return m_pack(s.format, *vals)


@method(_struct.Struct, 'unpack')
def m_Struct_unpack(s, b):
    return m_unpack(s.format, b)


# ------------------------------------------------------------------ regular expressions (single character classes)
_classes = {}


def char_class(p):
    """256-entry table if the pattern is one character class, else None"""
    if p in _classes:
        return _classes[p]
    r = None
    try:
        import re._parser as sp
        tree = sp.parse(p.pattern, p.flags & ~(_re.UNICODE if isinstance(p.pattern, bytes) else 0))
        if len(tree) == 1 and str(tree[0][0]) in ('IN', 'LITERAL', 'NOT_LITERAL', 'ANY'):
            if isinstance(p.pattern, bytes):
                r = [p.match(bytes([k])) is not None for k in range(256)]
            else:
                r = [p.match(chr(k)) is not None for k in range(256)]
    except Exception:
        r = None
    _classes[p] = r
    return r


def class_pred(table, e):
    """z3 predicate: character code e is in the class"""
    rs = []
    k = 0
    while k < 256:
        if table[k]:
            j = k
            while j < 256 and table[j]:
                j += 1
            rs.append((k, j - 1))
            k = j
        else:
            k += 1
    neg = len(rs) > 1 and table[0] and table[255]
    if neg:
        t2 = [not x for x in table]
        return z3.Not(class_pred(t2, e))
    cs = [e == a if a == b else z3.And(e >= a, e <= b) for a, b in rs]
    return z3.Or(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(False))


class SMatch(V.Sym):
    __slots__ = ('s', 'a', 'b')

    def __init__(self, s, a, b):
        self.s, self.a, self.b = s, a, b

    def start(self, g=0):
        self._g(g)
        return self.a

    def end(self, g=0):
        self._g(g)
        return self.b

    def span(self, g=0): return (self.a, self.b)

    def group(self, g=0):
        self._g(g)
        return self.s[self.a:self.b]

    def _g(self, g):
        if g != 0:
            raise Unsupported('match group')

    def __bool__(self): return True
    __hash__ = None


CLASS_FN = {}


def class_fn(p):
    """uninterpreted-by-name predicate for the class, defined by an axiom"""
    table = char_class(p)
    key = tuple(table)
    if key not in CLASS_FN:
        f = z3.Function('charclass%d' % len(CLASS_FN), I, B)
        CLASS_FN[key] = f
    f = CLASS_FN[key]
    c = ctx()
    if ('cls', f.name()) not in c.memo:
        c.memo[('cls', f.name())] = f
        e = z3.Int('e_cls')
        sv = c.local
        c.local = []
        c.axiom(z3.ForAll([e], f(e) == class_pred(table, e), patterns=[f(e)]))
        c.local = sv
    return f


@method(_re.Pattern, 'search')
def m_re_search(p, s, pos=0, *a):
    if not contains_sym((s, pos)) or a:
        return p.search(s, pos, *a)
    t = char_class(p)
    if t is None:
        raise Unsupported('re.search with pattern %r' % p.pattern)
    s = V.lift(s)
    c = ctx()
    cls = class_fn(p)
    th = s.th
    n = s.lent()
    st = V.int_term(pos)
    if not c.entails(st >= 0):
        st = z3.If(st < 0, iv(0), st)
    j = z3.Const(c.fresh_name('m'), I)
    k = z3.Int('k_re')
    none = c.decide(2) == 0
    if none:
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= st, k < n), z3.Not(cls(th.idx(s.t, k)))), patterns=[th.idx(s.t, k)]))
        return None
    c.assume(z3.And(j >= st, j < n, cls(th.idx(s.t, j)), class_pred(t, th.idx(s.t, j))))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= st, k < j), z3.Not(cls(th.idx(s.t, k)))), patterns=[th.idx(s.t, k)]))
    if not c.feasible():
        raise PathAbort('no match possible')
    return SMatch(s, V.mkint(j), V.mkint(j + 1))


@method(_re.Pattern, 'match')
def m_re_match(p, s, pos=0, *a):
    if not contains_sym((s, pos)) or a:
        return p.match(s, pos, *a)
    t = char_class(p)
    if t is None:
        raise Unsupported('re.match with pattern %r' % p.pattern)
    s = V.lift(s)
    if not V.truth(s.slen() > pos):
        return None
    e = s.th.index(s.t, V.int_term(pos))
    if V.truth(V.mkbool(class_pred(t, e))):
        return SMatch(s, pos, pos + 1)
    return None


@method(_re.Pattern, 'sub')
def m_re_sub(p, repl, s, *a):
    """substitution: the contract gives the meaning (and proves what it says of the replacement)"""
    if a or not contains_sym(s):
        raise Unsupported('re.sub')
    h = getattr(ctx().contract, 're_sub', None)
    if h is None:
        raise Unsupported('no model of Pattern.sub on symbolic arguments')
    return h(p, repl, s)


# ------------------------------------------------------------------ array.array('b'/'B'): a list of small ints
@model(_array.array)
def m_array(code, init=()):
    if _type(init) is VList:
        r = init.copy()
    elif _type(init) in (bytes,) or V.isinstance_(init, V.SBytes):
        raise Unsupported('array from bytes')
    else:
        r = VList(init)
    return r


def array_tobytes(self):
    if self.el is None:
        return m_bytes(self)
    l = m_bytes(self)
    return l


VList.tobytes = array_tobytes


# ------------------------------------------------------------------ files
class SFile:
    """binary file object over a byte sequence"""
    _vc_heap = True

    def __init__(self, data=b'', pos=0):
        self.data = data
        self.pos = pos

    def read(self, n=-1):
        d = self.data
        if n is None or (_type(n) is int and n < 0):
            r = d[self.pos:] if not V.isinstance_(d, V.Sym) or True else None
            self.pos = V.m_max_(self.pos, m_len(d))
            return r
        if V.truth(n < 0):
            r = d[self.pos:]
            self.pos = V.m_max_(self.pos, m_len(d))
            return r
        from .hooks import getitem
        r = getitem(d, slice(self.pos, self.pos + n, None))
        self.pos = self.pos + m_len(r)
        return r

    def seek(self, p, whence=0):
        if whence == 0:
            if V.truth(p < 0):
                raise ValueError('negative seek value')
            self.pos = p
        elif whence == 1:
            self.pos = self.pos + p
        else:
            self.pos = m_len(self.data) + p
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        return None


def _mx(a, b):
    return m_max(a, b)


V.m_max_ = _mx


@model(io.BytesIO)
def m_BytesIO(data=b''):
    return SFile(data, 0)


import operator as _operator


@model(_operator.getitem)
def m_getitem(a, b):
    from . import hooks
    return hooks.getitem(a, b)


@model(_re.sub)
def m_re_sub_function(pattern, repl, s, *a):
    return m_re_sub(_re.compile(pattern), repl, s, *a)
