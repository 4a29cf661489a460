"""Type descriptors, mutable containers (VList, VDict), merging and deep equality."""
import z3
from .core import ctx, Ctx, Unsupported, PathAbort, I, B, RS, tobool
from . import values as V
from . import seq as SQ
from .seq import BYTES, STR

_type = type
_isinstance = isinstance


# ------------------------------------------------------------------ descriptors
class T:
    name = '?'
    sort = None

    def wrap(self, t):
        raise NotImplementedError

    def unwrap(self, v):
        """z3 term of v, or None when v is not of this type"""
        raise NotImplementedError

    def domain(self, t):
        """list of facts about an arbitrary term of this type"""
        return []

    def fresh(self, name):
        t = z3.Const(ctx().fresh_name(name), self.sort)
        c = ctx()
        for f in self.domain(t):
            c.axiom(f)
        return self.wrap(t)

    def term_eq(self, a, b):
        return a == b

    def conc(self, m, t, lim=5000):
        """python value of term t in model m"""
        raise NotImplementedError

    def __repr__(self):
        return self.name


class _Int(T):
    name = 'int'
    sort = I
    def wrap(self, t): return V.mkint(t)
    def unwrap(self, v): return V.int_term(v)

    def conc(self, m, t, lim=5000):
        return m.eval(t, model_completion=True).as_long()


class _Bool(T):
    name = 'bool'
    sort = B
    def wrap(self, t): return V.mkbool(t)
    def unwrap(self, v): return V.tob(v) if _type(v) in (bool, V.SBool) else None

    def conc(self, m, t, lim=5000):
        return z3.is_true(m.eval(t, model_completion=True))


class _Real(T):
    name = 'real'
    sort = RS
    def wrap(self, t): return V.mkreal(t)
    def unwrap(self, v): return V.real_term(v) if V.isnum(v) else None

    def conc(self, m, t, lim=5000):
        x = m.eval(t, model_completion=True)
        if z3.is_rational_value(x):
            return float(x.numerator_as_long()) / float(x.denominator_as_long())
        return float(x.approx(10).as_fraction())


class _Seq(T):
    def __init__(self, name, th, mk, py):
        self.name, self.th, self.sort, self.mk, self.py = name, th, th.sort, mk, py
    def wrap(self, t): return self.mk(t)

    def unwrap(self, v):
        if _type(v) is self.py or _isinstance(v, V.Sym) and _isinstance(v, self.py):
            return V.lift(v).t
        return None

    def term_eq(self, a, b): return self.th.eq(a, b)

    def conc(self, m, t, lim=5000):
        n = m.eval(self.th.len(t), model_completion=True).as_long()
        if n < 0 or n > lim:
            raise ValueError('length')
        els = []
        for k in range(n):
            e = m.eval(self.th.idx(t, z3.IntVal(k)), model_completion=True).as_long()
            els.append(e)
        if self.py is bytes:
            return bytes([e & 255 if not 0 <= e <= 255 else e for e in els])
        return ''.join(chr(e if 0 <= e < 0x110000 and not 0xD800 <= e < 0xE000 else 63) for e in els)


TInt = _Int()
TBool = _Bool()
TReal = _Real()
TBytes = _Seq('bytes', BYTES, V.mkseq_bytes, bytes)
TStr = _Seq('str', STR, V.mkseq_str, str)


class _Num(_Real):
    """an int or float of which only the value matters: an int is read as the float equal to it"""
    name = 'num'


TNum = _Num()


class TRange(_Int):
    """int in [lo, hi]"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.name = 'int[%s..%s]' % (lo, hi)

    def domain(self, t):
        r = []
        if self.lo is not None:
            r.append(t >= self.lo)
        if self.hi is not None:
            r.append(t <= self.hi)
        return r


class TConst(T):
    """one of a finite set of Python objects (compared by identity / equality)"""
    def __init__(self, *vals):
        self.vals = list(vals)
        self.name = 'one of %d' % len(vals)
        self.sort = I

    def unwrap(self, v):
        for k, x in enumerate(self.vals):
            if x is v or (_type(x) is _type(v) and not V.isinstance_(v, V.Sym) and _cheap_eq(x, v)):
                return z3.IntVal(k)
        return None

    def wrap(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return self.vals[t.as_long()]
        c = ctx()
        c.assume(z3.And(t >= 0, t < len(self.vals)))
        return self.vals[V.enum_int(V.SInt(t))]

    def domain(self, t):
        return [t >= 0, t < len(self.vals)]

    def fresh(self, name):
        return self.vals[ctx().decide(len(self.vals))] if len(self.vals) > 1 else self.vals[0]

    def conc(self, m, t, lim=5000):
        return self.vals[m.eval(t, model_completion=True).as_long()]


def _cheap_eq(a, b):
    if _type(a) in (int, str, bytes, float, bool, _type(None)):
        return a == b
    if _type(a).__name__ == 'method' and _type(b).__name__ == 'method':
        return a.__self__ is b.__self__ and a.__func__ is b.__func__
    return False


_dts = {}


class TTuple(T):
    def __init__(self, *ts, tag='tup'):
        self.ts = ts
        self.name = tag + '(' + ','.join(t.name for t in ts) + ')'
        if self.name not in _dts:
            d = z3.Datatype(self.name)
            d.declare('mk' + self.name, *[('%s.%d' % (self.name, k), t.sort) for k, t in enumerate(ts)])
            _dts[self.name] = d.create()
        self.sort = _dts[self.name]
        self.ctor = self.sort.constructor(0)
        self.acc = [self.sort.accessor(0, k) for k in range(len(ts))]

    def wrap(self, t):
        if t.decl().eq(self.ctor):
            return tuple(ty.wrap(t.arg(k)) for k, ty in enumerate(self.ts))
        return tuple(ty.wrap(a(t)) for ty, a in zip(self.ts, self.acc))

    def unwrap(self, v):
        if not (_type(v) is tuple and len(v) == len(self.ts)):
            return None
        xs = [ty.unwrap(x) for ty, x in zip(self.ts, v)]
        if any(x is None for x in xs):
            return None
        if xs and all(z3.is_app(x) and x.num_args() == 1 and x.decl().eq(a) for x, a in zip(xs, self.acc)) and all(x.arg(0).eq(xs[0].arg(0)) for x in xs):
            return xs[0].arg(0)             # the components of one tuple, put together again
        return self.ctor(*xs)

    def domain(self, t):
        return [f for ty, a in zip(self.ts, self.acc) for f in ty.domain(a(t))]

    def fresh(self, name):
        return tuple(ty.fresh('%s.%d' % (name, k)) for k, ty in enumerate(self.ts))

    def term_eq(self, a, b):
        return z3.And([ty.term_eq(f(a), f(b)) for ty, f in zip(self.ts, self.acc)])

    def conc(self, m, t, lim=5000):
        return tuple(ty.conc(m, f(t), lim) for ty, f in zip(self.ts, self.acc))


class TOpt(T):
    """None or a value"""
    def __init__(self, ty):
        self.ty = ty
        self.name = 'opt(%s)' % ty.name
        if self.name not in _dts:
            d = z3.Datatype(self.name)
            d.declare('none' + self.name)
            d.declare('some' + self.name, ('val' + self.name, ty.sort))
            _dts[self.name] = d.create()
        self.sort = _dts[self.name]
        self.none = self.sort.constructor(0)()
        self.some = self.sort.constructor(1)
        self.val = self.sort.accessor(1, 0)
        self.isnone = self.sort.recognizer(0)

    def wrap(self, t):
        if t.eq(self.none):
            return None
        if t.decl().eq(self.some):
            return self.ty.wrap(t.arg(0))
        if ctx().purelevel:
            # stay merged
            return Choice([(self.isnone(t), None), (z3.Not(self.isnone(t)), self.ty.wrap(self.val(t)))])
        if ctx().branch(self.isnone(t)):
            return None
        return self.ty.wrap(self.val(t))

    def unwrap(self, v):
        if v is None:
            return self.none
        x = self.ty.unwrap(v)
        return None if x is None else self.some(x)

    def domain(self, t):
        return [z3.Implies(z3.Not(self.isnone(t)), f) for f in self.ty.domain(self.val(t))]

    def fresh(self, name):
        if ctx().decide(2) == 0:
            return None
        return self.ty.fresh(name)

    def term_eq(self, a, b):
        return z3.Or(z3.And(self.isnone(a), self.isnone(b)),
                     z3.And(z3.Not(self.isnone(a)), z3.Not(self.isnone(b)), self.ty.term_eq(self.val(a), self.val(b))))

    def conc(self, m, t, lim=5000):
        if z3.is_true(m.eval(self.isnone(t), model_completion=True)):
            return None
        return self.ty.conc(m, self.val(t), lim)


class TList(T):
    def __init__(self, ty):
        self.ty = ty
        self.name = 'list(%s)' % ty.name
        base = ty
        nm = ty.ty.name if _type(ty) is TObj else ty.name      # a list of objects is the list of their terms
        self.th = SQ.theory('L' + nm, ty.sort)
        self.th.elem_eq = ty.term_eq
        self.sort = self.th.sort

    def wrap(self, t): return VList.sym(self.ty, t)

    def unwrap(self, v):
        if _type(v) is VList:
            return v.asterm(self.ty)
        if _type(v) is list:
            return VList(v).asterm(self.ty)
        return None

    def term_eq(self, a, b): return self.th.eq(a, b)

    def conc(self, m, t, lim=300):
        n = m.eval(self.th.len(t), model_completion=True).as_long()
        if n < 0 or n > lim:
            raise ValueError('length')
        return [self.ty.conc(m, self.th.idx(t, z3.IntVal(k)), lim) for k in range(n)]


class TSort(T):
    """opaque values of an uninterpreted sort (compared for identity only)"""
    def __init__(self, name, pyclass=object):
        self.name = name
        self.sort = z3.DeclareSort(name)
        self.pyclass = pyclass
        self.names = {}

    def wrap(self, t): return SOpaque(self, t)

    def unwrap(self, v):
        if _type(v) is SOpaque and v.ty is self:
            return v.t
        return None

    def conc(self, m, t, lim=5000):
        v = str(m.eval(t, model_completion=True))
        return ('opaque', self.name, v)


class SOpaque(V.Sym):
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    @property
    def __class__(self):
        return self.ty.pyclass

    def __eq__(self, o):
        if _type(o) is SOpaque and o.ty is self.ty:
            return V.mkbool(self.t == o.t)
        return False

    def __ne__(self, o):
        return V.not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of opaque')

    def __bool__(self):
        raise Unsupported('truth of an opaque value')

    def __repr__(self):
        return '<opaque %s>' % self.t


class TRec(T):
    """record with named fields; values are Rec objects (spec states)"""
    def __init__(self, name, **fields):
        self.name = name
        self.fields = fields
        self.tt = TTuple(*fields.values(), tag=name)
        self.sort = self.tt.sort

    def make(self, *a, **kw):
        vals = dict(zip(self.fields, a))
        vals.update(kw)
        return Rec(self, vals)

    __call__ = make

    def wrap(self, t):
        return Rec(self, dict(zip(self.fields, self.tt.wrap(t))))

    def unwrap(self, v):
        if _type(v) is Rec and v._ty is self:
            return self.tt.unwrap(tuple(v._f[k] for k in self.fields))
        return None

    def domain(self, t): return self.tt.domain(t)

    def fresh(self, name):
        return Rec(self, {k: ty.fresh('%s.%s' % (name, k)) for k, ty in self.fields.items()})

    def term_eq(self, a, b): return self.tt.term_eq(a, b)

    def conc(self, m, t, lim=5000):
        return Rec(self, dict(zip(self.fields, self.tt.conc(m, t, lim))))


class TDict(T):
    """dict with string keys out of a finite set, each present or absent (iteration is not supported)"""
    def __init__(self, name, **fields):
        self.name = name
        self.fields = {k: TOpt(v) for k, v in fields.items()}
        self.tt = TTuple(*self.fields.values(), tag=name)
        self.sort = self.tt.sort
        self.acc = dict(zip(self.fields, self.tt.acc))

    def wrap(self, t):
        return VDict(base=DictBase(self, t))

    def unwrap(self, v):
        if _type(v) is dict:
            v = VDict.of(v)
        if _type(v) is not VDict:
            return None
        t = v.base.t if v.base is not None and _type(v.base) is DictBase and v.base.ty is self else None
        if t is None and v.base is not None:
            return None
        vals = {}
        for k, x in v.ps:
            if _type(k) is not str or k not in self.fields:
                return None
            vals[k] = self.fields[k].unwrap(x)
            if vals[k] is None:
                return None
        if not vals and t is not None:
            return t
        return self.tt.ctor(*[vals[k] if k in vals else (self.acc[k](t) if t is not None else ty.none)
                             for k, ty in self.fields.items()])

    def domain(self, t):
        return self.tt.domain(t)

    def fresh(self, name):
        t = z3.Const(ctx().fresh_name(name), self.sort)
        for d in self.domain(t):
            ctx().assume(d)
        return self.wrap(t)

    def term_eq(self, a, b): return self.tt.term_eq(a, b)

    def conc(self, m, t, lim=5000):
        out = {}
        for k, ty in self.fields.items():
            f = self.acc[k](t)
            if not z3.is_true(m.eval(ty.isnone(f), model_completion=True)):
                out[k] = ty.ty.conc(m, ty.val(f), lim)
        return out


class DictBase:
    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def lookup(self, k):
        k = k.force() if _type(k) is Choice else k
        if V.isinstance_(k, V.Sym):
            c = k.concrete() if hasattr(k, 'concrete') else None
            if c is None:
                raise Unsupported('symbolic key into a record-like dict')
            k = c
        if k not in self.ty.fields:
            return False, None
        o = self.ty.fields[k]
        f = z3.simplify(self.ty.acc[k](self.t))
        if f.eq(o.none):
            return False, None
        if f.decl().eq(o.some):
            return True, o.ty.wrap(f.arg(0))
        g = lambda: o.ty.wrap(o.val(f))
        g._lazy = True
        return V.mkbool(z3.Not(o.isnone(f))), g

    def nonempty(self):
        return V.mkbool(z3.Or([z3.Not(o.isnone(self.ty.acc[k](self.t))) for k, o in self.ty.fields.items()]))


class TMap(T):
    """dict from keys of one type to values of another; iteration is not supported"""
    def __init__(self, key, val):
        self.key, self.opt = key, TOpt(val)
        self.name = 'map(%s,%s)' % (key.name, val.name)
        self.sort = z3.ArraySort(key.sort, self.opt.sort)

    def wrap(self, t):
        return VDict(base=MapBase(self, t))

    def unwrap(self, v):
        if _type(v) is dict:
            v = VDict.of(v)
        if _type(v) is not VDict:
            return None
        if v.base is None:
            t = z3.K(self.key.sort, self.opt.none)
        elif _type(v.base) is MapBase and v.base.ty.sort == self.sort:
            t = v.base.t
        else:
            return None
        for k, x in v.ps:
            kt, xt = self.key.unwrap(k), self.opt.unwrap(x)
            if kt is None or xt is None or x is None:
                return None
            t = z3.Store(t, kt, xt)
        return t

    def at(self, v, k):
        """(present, value) of key k of a dict"""
        o = z3.simplify(z3.Select(self.unwrap(v), self.key.unwrap(k)))
        return V.mkbool(z3.simplify(z3.Not(self.opt.isnone(o)))), self.opt.ty.wrap(z3.simplify(self.opt.val(o)))

    def fresh(self, name):
        return self.wrap(z3.Const(ctx().fresh_name(name), self.sort))

    def domain(self, t): return []

    def term_eq(self, a, b): return a == b


class MapBase:
    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def lookup(self, k):
        k = k.force() if _type(k) is Choice else k
        kt = self.ty.key.unwrap(k)
        if kt is None:
            return False, None
        o = self.ty.opt
        f = z3.simplify(z3.Select(self.t, kt))
        if f.eq(o.none):
            return False, None
        if z3.is_app(f) and f.decl().eq(o.some):
            return True, o.ty.wrap(f.arg(0))
        g = lambda: o.ty.wrap(o.val(f))
        g._lazy = True
        return V.mkbool(z3.Not(o.isnone(f))), g

    def store(self, k, v):
        kt, vt = self.ty.key.unwrap(k), self.ty.opt.unwrap(v)
        if kt is None or vt is None or v is None:
            return None
        return MapBase(self.ty, z3.Store(self.t, kt, vt))

    def nonempty(self):
        raise Unsupported('emptiness of a symbolic map')


class Rec:
    def __init__(self, ty, f):
        object.__setattr__(self, '_ty', ty)
        object.__setattr__(self, '_f', dict(f))

    def __getattr__(self, n):
        try:
            return self._f[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        raise TypeError('Rec is immutable')

    def set(self, **kw):
        f = dict(self._f)
        f.update(kw)
        return Rec(self._ty, f)

    def __eq__(self, o):
        return _type(o) is Rec and self._ty is o._ty and eq(tuple(self._f.values()), tuple(o._f.values()))

    def __hash__(self):
        return hash(tuple(self._f.values()))

    def __repr__(self):
        return '%s(%s)' % (self._ty.name, ', '.join('%s=%r' % kv for kv in self._f.items()))


# ------------------------------------------------------------------ choice (merged heterogeneous value)
class Choice(V.Sym):
    __slots__ = ('alts', 'src')

    def __init__(self, alts):
        self.src = None         # (TObj, term) this is the value of
        flat = []
        for c, v in alts:
            if _type(v) is Choice:
                for c2, v2 in v.alts:
                    flat.append((z3.And(c, c2), v2))
            else:
                flat.append((c, v))
        self.alts = flat

    def force(self):
        c = ctx()
        for cond, v in self.alts[:-1]:
            if c.branch(cond):
                return v
        c.assume(self.alts[-1][0])
        return self.alts[-1][1]

    def is_(self, o):
        return V.mkbool(z3.And([z3.Implies(c, V.tob(is_same(v, o))) for c, v in self.alts]))

    def __eq__(self, o): return eq(self, o)
    def __ne__(self, o): return V.not_(eq(self, o))
    def __hash__(self): raise Unsupported('hash of choice')
    def __bool__(self): return bool(self.force())

    @property
    def __class__(self):
        return self.force().__class__

    def __getattr__(self, n):
        return getattr(self.force(), n)

    def __getitem__(self, i): return self.force()[i]
    def __len__(self): return len(self.force())
    def __iter__(self): return iter(self.force())


def _fwd(op):
    def f(self, o):
        import operator
        a = self.force()
        if _type(o) is Choice:
            o = o.force()
        return getattr(operator, op)(a, o)
    return f


def _rfwd(op):
    def f(self, o):
        import operator
        return getattr(operator, op)(o, self.force())
    return f


for _o in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'lt', 'le', 'gt', 'ge', 'and_', 'or_'):
    setattr(Choice, '__%s__' % _o.rstrip('_'), _fwd(_o))
    if _o not in ('lt', 'le', 'gt', 'ge'):
        setattr(Choice, '__r%s__' % _o.rstrip('_'), _rfwd(_o))


def is_same(a, b):
    """`is`"""
    if a is b:
        return True
    if _type(a) is Choice:
        return a.is_(b)
    if _type(b) is Choice:
        return b.is_(a)
    if a is None or b is None:
        return False
    ta, tb = _type(a), _type(b)
    if ta in (bool, V.SBool) and tb in (bool, V.SBool):
        return V.mkbool(V.tob(a) == V.tob(b))
    if ta is SOpaque and tb is SOpaque:
        return a == b
    return False


# ------------------------------------------------------------------ merging
def merge(results):
    if len(results) == 1:
        return results[0][1]
    vals = [v for _, v in results]
    first = vals[0]
    if all(v is first for v in vals):
        return first
    conds = [z3.And(*cs) if len(cs) != 1 else cs[0] for cs, _ in results]
    if any(_type(v) is Choice for v in vals):
        # merge alternatives of like kind pairwise
        return _choice(conds, vals)
    return _merge(conds, vals)


def _kind(v):
    t = _type(v)
    if t in (bool, V.SBool):
        return 'bool'
    if V.isint(v):
        return 'int'
    if V.isreal(v):
        return 'real'
    if t is bytes or t is V.SBytes:
        return 'bytes'
    if t is str or t is V.SStr:
        return 'str'
    if t is tuple:
        return ('tuple', len(v))
    if t in (VList, list):
        return 'list'
    if t is Rec:
        return ('rec', v._ty.name)
    if t is SOpaque:
        return ('opaque', v.ty.name)
    if v is None:
        return 'none'
    return ('obj', id(v))


def _choice(conds, vals):
    groups = {}
    for c, v in zip(conds, vals):
        alts = [(z3.And(c, c2), v2) for c2, v2 in v.alts] if _type(v) is Choice else [(c, v)]
        for c2, v2 in alts:
            groups.setdefault(_kind(v2), []).append((c2, v2))
    if len(groups) == 1:
        g = list(groups.values())[0]
        return _merge([c for c, _ in g], [v for _, v in g])
    alts = []
    for g in groups.values():
        cs = [c for c, _ in g]
        alts.append((z3.Or(*cs) if len(cs) > 1 else cs[0], _merge(cs, [v for _, v in g])))
    return Choice(alts)


def _merge(conds, vals):
    if len(vals) == 1:
        return vals[0]
    first = vals[0]
    if all(v is first for v in vals):
        return first
    kinds = {repr(_kind(v)): _kind(v) for v in vals}
    ks = list(kinds.values())
    if len(ks) > 1:
        if set(map(str, ks)) <= {'int', 'real'}:
            return _ite(conds, vals, TReal)
        return _choice(conds, vals)
    k = ks[0]
    if k == 'bool':
        return _ite(conds, vals, TBool)
    if k == 'int':
        return _ite(conds, vals, TInt)
    if k == 'real':
        return _ite(conds, vals, TReal)
    if k == 'bytes':
        return _ite(conds, vals, TBytes)
    if k == 'str':
        return _ite(conds, vals, TStr)
    if k == 'list':
        ty = None
        for v in vals:
            if _type(v) is VList and v.el is not None:
                ty = v.el
        vs = [v if _type(v) is VList else VList(v) for v in vals]
        if ty is None:
            n = {len(v.items) for v in vs}
            if len(n) == 1:
                return VList([_merge(conds, [v.items[i] for v in vs]) for i in range(n.pop())])
            return Choice(list(zip(conds, vals)))
        return _ite(conds, vs, TList(ty))
    if k == 'none':
        return None
    if k[0] == 'tuple':
        return tuple(_merge(conds, [v[i] for v in vals]) for i in range(k[1]))
    if k[0] == 'rec':
        return Rec(first._ty, {f: _merge(conds, [v._f[f] for v in vals]) for f in first._ty.fields})
    if k[0] == 'opaque':
        return _ite(conds, vals, first.ty)
    return first


def _ite(conds, vals, ty):
    ts = []
    for v in vals:
        t = ty.unwrap(v)
        if t is None:
            raise Unsupported('merge: %r is not a %s' % (v, ty))
        ts.append(t)
    if all(t.eq(ts[0]) for t in ts):
        return ty.wrap(ts[0])
    r = ts[-1]
    for c, t in zip(reversed(conds[:-1]), reversed(ts[:-1])):
        r = t if t.eq(r) else z3.If(c, t, r)
    return ty.wrap(r)


# ------------------------------------------------------------------ deep equality
def eq(a, b):
    """Python equality of two values, as bool or SBool (never forks on proxies)."""
    if a is b:
        return True
    ta, tb = _type(a), _type(b)
    if ta is Choice:
        return V.mkbool(z3.And([z3.Implies(c, V.tob(eq(v, b))) for c, v in a.alts]))
    if tb is Choice:
        return eq(b, a)
    if a is None or b is None:
        return False
    if V.isnum(a) and V.isnum(b):
        if V.isinstance_(a, V.Sym):
            return a == b
        if V.isinstance_(b, V.Sym):
            return b == a
        return a == b
    if (ta in (bytes, V.SBytes) and tb in (bytes, V.SBytes)) or (ta in (str, V.SStr) and tb in (str, V.SStr)):
        return V.seq_eq(a, b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        return V.and_(*[eq(x, y) for x, y in zip(a, b)])
    if ta is Rec and tb is Rec:
        return a._ty is b._ty and eq(tuple(a._f.values()), tuple(b._f.values()))
    if ta in (VList, list) and tb in (VList, list):
        return list_eq(a if ta is VList else VList(a), b if tb is VList else VList(b))
    if ta in (VDict, dict) and tb in (VDict, dict):
        return dict_eq(a, b)
    if V.isinstance_(a, V.Sym):
        r = a.__eq__(b)
        return False if r is NotImplemented else r
    if V.isinstance_(b, V.Sym):
        r = b.__eq__(a)
        return False if r is NotImplemented else r
    return a == b


def list_eq(a, b):
    if a.el is None and b.el is None:
        if len(a.items) != len(b.items):
            return False
        return V.and_(*[eq(x, y) for x, y in zip(a.items, b.items)])
    ty = a.el or b.el
    ta, tb = a.asterm(ty), b.asterm(ty)
    if ta is None or tb is None:
        # element that does not fit: different unless lengths rule it out
        return V.and_(eq(a.slen(), b.slen()), eq(a.slen(), 0))
    return V.mkbool(TList(ty).th.eq(ta, tb))


def dict_eq(a, b):
    a, b = VDict.of(a), VDict.of(b)
    for x in (a, b):
        if x.base is not None and _type(x.base) is DictBase:
            ty = x.base.ty
            ta, tb = ty.unwrap(a), ty.unwrap(b)
            if ta is not None and tb is not None:
                return V.mkbool(ty.term_eq(ta, tb))
    ka, kb = a.pairs(), b.pairs()
    if len(ka) != len(kb):
        return False
    r = []
    for k, v in ka:
        hit = []
        for k2, v2 in kb:
            e = eq(k, k2)
            if e is False:
                continue
            hit.append(V.and_(e, eq(v, v2)))
        r.append(V.or_(*hit))
    return V.and_(*r)


# ------------------------------------------------------------------ lists
class Star(V.Sym):
    """*x in a call, x a list of unknown length: can only be passed on and added to a list"""
    __slots__ = ('lst',)

    def __init__(self, lst):
        self.lst = lst

    def __iter__(self):
        raise Unsupported('use of a star argument')

    __bool__ = __len__ = __getitem__ = __eq__ = __iter__
    __hash__ = None


class VList:
    """mutable list: `items` (python list) while its shape is concrete, else element type `el` + sequence term"""
    __slots__ = ('items', 'el', 'seq', 'hint')

    def __init__(self, items=()):
        self.items = list(items) if not V.isinstance_(items, VList) else list(items.items)
        self.el = None
        self.seq = None
        self.hint = None

    @staticmethod
    def sym(ty, term):
        r = VList()
        th = TList(ty).th
        r.hint = ty
        if term.eq(th.emp):
            return r
        r.items, r.el, r.seq = None, ty, term
        return r

    @property
    def __class__(self):
        return list

    @property
    def th(self):
        return TList(self.el).th

    def copy(self):
        r = VList()
        r.items = None if self.items is None else list(self.items)
        r.el, r.seq, r.hint = self.el, self.seq, self.hint
        return r

    def become(self, o):
        o = o if _type(o) is VList else VList(o)
        self.items = None if o.items is None else list(o.items)
        self.el, self.seq = o.el, o.seq

    def asterm(self, ty):
        """sequence term with element type ty, or None"""
        if self.el is not None:
            if self.el is ty or self.el.name == ty.name:
                return self.seq
            return None
        th = TList(ty).th
        ts = []
        for x in self.items:
            t = ty.unwrap(x)
            if t is None:
                return None
            ts.append(t)
        return th.lit(ts)

    def tosym(self, ty):
        if self.el is None:
            t = self.asterm(ty)
            if t is None:
                raise Unsupported('list element is not a %s: %r' % (ty, self.items))
            self.items, self.el, self.seq = None, ty, t

    def slen(self):
        if self.el is None:
            return len(self.items)
        return V.mkint(self.th.length(self.seq))

    def __len__(self):
        n = self.slen()
        return n if _type(n) is int else V.enum_int(n)

    def __bool__(self):
        if self.el is None:
            return bool(self.items)
        return ctx().branch(self.th.length(self.seq) != 0)

    def __iter__(self):
        if self.el is None:
            return iter(self.items)
        return self._symiter()

    def _symiter(self):
        n = self.__len__()
        for k in range(n):
            yield self.el.wrap(self.th.index(self.seq, z3.IntVal(k)))

    def _pos(self, i, n, err):
        """normalised z3 position; forks on the bounds"""
        it = V.int_term(i)
        if it is None:
            raise TypeError('list indices must be integers or slices')
        c = ctx()
        if _type(i) is int and i < 0:
            k = n + it
            ok = V.mkbool(k >= 0)
        elif _type(i) is int or c.entails(it >= 0):
            k = it
            ok = V.mkbool(k < n)
        else:
            ok = V.mkbool(z3.And(it < n, it >= -n))
            k = z3.If(it < 0, it + n, it)
        if not V.truth(ok):
            raise IndexError(err)
        return z3.simplify(k)

    def __getitem__(self, i):
        if _type(i) is slice:
            return self.getslice(i)
        if self.el is None:
            if _type(i) is int:
                return self.items[i]
            if not V.isint(i):
                raise TypeError('list indices must be integers or slices')
            n = len(self.items)
            k = self._pos(i, z3.IntVal(n), 'list index out of range')
            return self.items[V.enum_int(V.mkint(k))]
        k = self._pos(i, self.th.length(self.seq), 'list index out of range')
        return self.el.wrap(self.th.index(self.seq, k))

    def getslice(self, s):
        if self.el is None and all(_type(x) in (int, _type(None)) for x in (s.start, s.stop, s.step)):
            r = VList(self.items[s])
            r.hint = self.hint
            return r
        if s.step is not None and s.step != 1:
            raise Unsupported('slice step on a symbolic list')
        if self.el is None:
            n = len(self.items)
            lo, hi = V.norm_slice(s.start, s.stop, z3.IntVal(n))
            lo, hi = V.enum_int(V.mkint(lo)), V.enum_int(V.mkint(hi))
            return VList(self.items[lo:hi])
        lo, hi = V.norm_slice(s.start, s.stop, self.th.length(self.seq))
        return VList.sym(self.el, self.th.slice(self.seq, lo, hi))

    def __setitem__(self, i, v):
        if _type(i) is slice:
            return self.setslice(i, v)
        if self.el is None:
            if _type(i) is int:
                self.items[i] = v
                return
            if not V.isint(i):
                raise TypeError('list indices must be integers or slices')
            n = len(self.items)
            k = self._pos(i, z3.IntVal(n), 'list assignment index out of range')
            self.items[V.enum_int(V.mkint(k))] = v
            return
        k = self._pos(i, self.th.length(self.seq), 'list assignment index out of range')
        t = self.el.unwrap(v)
        if t is None:
            raise Unsupported('list element type')
        self.seq = self.th.upd(self.seq, k, t)

    def setslice(self, s, v):
        if self.el is None and all(_type(x) in (int, _type(None)) for x in (s.start, s.stop, s.step)):
            v = v if _type(v) is VList else VList(v)
            if v.el is None:
                self.items[s] = v.items
                return
        if s.step is not None and s.step != 1:
            raise Unsupported('slice step on a symbolic list')
        a = self.getslice(slice(None, s.start))if s.start is not None else VList()
        if s.stop is None:
            b = VList()
        else:
            lo, hi = V.norm_slice(s.start, s.stop, V.int_term(self.slen()))
            b = self.getslice(slice(V.mkint(hi), None))
        self.become(a + v + b)

    def __delitem__(self, i):
        if _type(i) is slice:
            self.setslice(i, VList())
            return
        self.pop(i)

    def append(self, x):
        if self.el is None:
            self.items.append(x)
        else:
            t = self.el.unwrap(x)
            if t is None:
                raise Unsupported('append of %r to list of %s' % (x, self.el))
            self.seq = self.th.concat(self.seq, self.th.unit(t))

    def extend(self, o):
        if _type(o) is tuple and any(_type(x) is Star for x in o):
            for x in o:
                self.extend(x.lst if _type(x) is Star else (x,))
            return
        self.become(self + (o if _type(o) is VList else VList(list(o))))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if _type(o) not in (VList, list):
            return NotImplemented
        o = o if _type(o) is VList else VList(o)
        if self.el is None and o.el is None:
            r = VList(self.items + o.items)
            r.hint = self.hint or o.hint
            return r
        ty = self.el or o.el
        a, b = self.asterm(ty), o.asterm(ty)
        if a is None or b is None:
            raise Unsupported('concatenation of lists with different element types')
        return VList.sym(ty, TList(ty).th.concat(a, b))

    def __radd__(self, o):
        return VList(o) + self

    def __mul__(self, n):
        if self.el is None and _type(n) is int:
            return VList(self.items * n)
        if self.el is None and len(self.items) == 1:
            x = self.items[0]
            x = x.force() if _type(x) is Choice else x
            try:
                ty = guess_type(x)
            except Unsupported:
                ty = TConst(x)      # the same object n times
            th = TList(ty).th
            return VList.sym(ty, th.rep(th.unit(ty.unwrap(x)), V.int_term(n)))
        raise Unsupported('list repetition')

    __rmul__ = __mul__

    def pop(self, i=-1):
        if self.el is None and _type(i) is int:
            return self.items.pop(i)
        if self.el is None:
            x = self[i]
            n = len(self.items)
            k = V.enum_int(V.mkint(self._pos(i, z3.IntVal(n), 'pop index out of range')))
            return self.items.pop(k)
        n = self.th.length(self.seq)
        if not V.truth(V.mkbool(n > 0)):
            raise IndexError('pop from empty list')
        k = self._pos(i, n, 'pop index out of range')
        x = self.el.wrap(self.th.index(self.seq, k))
        self.seq = self.th.concat(self.th.slice(self.seq, z3.IntVal(0), k),
                                  self.th.slice(self.seq, z3.simplify(k + 1), n))
        return x

    def insert(self, i, x):
        if self.el is None and _type(i) is int:
            self.items.insert(i, x)
            return
        self.become(self.getslice(slice(None, i)) + VList([x]) + self.getslice(slice(i, None)))

    def remove(self, x):
        for k, y in enumerate(self):
            if V.truth(eq(x, y)):
                del self.items[k]
                return
        raise ValueError('list.remove(x): x not in list')

    def clear(self):
        self.items, self.el, self.seq = [], None, None

    def reverse(self):
        if self.el is None:
            self.items.reverse()
        else:
            raise Unsupported('reverse')

    def index(self, x, *a):
        if a or self.el is not None:
            raise Unsupported('list.index')
        for k, y in enumerate(self.items):
            if V.truth(eq(y, x)):
                return k
        raise ValueError('not in list')

    def count(self, x):
        raise Unsupported('list.count')

    def sort(self, key=None, reverse=False):
        if self.el is None and not any(contains_sym(x) for x in self.items) and key is None:
            self.items.sort(reverse=reverse)
            return
        raise Unsupported('sort of a symbolic list')

    def contains(self, x):
        if self.el is None:
            return V.or_(*[eq(x, y) for y in self.items])
        t = self.el.unwrap(x)
        if t is None:
            return False
        th = self.th
        f = z3.Function(th.name + '.has', th.sort, th.elem, I)
        k = f(self.seq, t)
        c = ctx()
        key = ('has', k.get_id())
        if key not in c.memo:
            c.memo[key] = k
            n = th.len(self.seq)
            j = z3.Int('j_has')
            c.axiom(z3.Or(k == -1, z3.And(0 <= k, k < n, th.elem_eq(th.idx(self.seq, k), t))))
            c.axiom(z3.Implies(k == -1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), th.idx(self.seq, j) != t),
                                                  patterns=[th.idx(self.seq, j)])))
        return V.mkbool(k >= 0)

    def __contains__(self, x):
        return V.truth(self.contains(x))

    def __eq__(self, o):
        if _type(o) not in (VList, list):
            return NotImplemented
        return eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else V.not_(r)

    __hash__ = None

    def __repr__(self):
        return 'VList(%r)' % (self.items,) if self.el is None else 'VList<%s>(%s)' % (self.el, self.seq)


def guess_type(x):
    if _type(x) is Choice and x.src is not None:
        return x.src[0]
    t = _type(x)
    if t in (bool, V.SBool):
        return TBool
    if V.isint(x):
        return TInt
    if V.isreal(x):
        return TReal
    if t in (bytes, V.SBytes):
        return TBytes
    if t in (str, V.SStr):
        return TStr
    if t is tuple:
        return TTuple(*[guess_type(y) for y in x])
    if t is Rec:
        return x._ty
    if t is SOpaque:
        return x.ty
    if t is VDict and x.base is not None and _type(x.base) is DictBase:
        return x.base.ty
    if t is VList:
        if x.el is not None:
            return TList(x.el)
        if x.hint is not None:
            return TList(x.hint)
        if x.items:
            return TList(guess_type(x.items[0]))
    for ty in ctx().ghost.get('object types', ()):
        if ty.unwrap(x) is not None:
            return ty
    raise Unsupported('no symbolic type for %r' % (x,))


def contains_sym(x, depth=0):
    t = _type(x)
    if issubclass(t, V.Sym):
        return True
    if t in (VList,):
        return x.el is not None or any(contains_sym(y, depth + 1) for y in x.items)
    if t in (list, tuple, set, frozenset) and depth < 6:
        return any(contains_sym(y, depth + 1) for y in x)
    if t is dict and depth < 6:
        return any(contains_sym(k, depth + 1) or contains_sym(v, depth + 1) for k, v in x.items())
    if t is VDict:
        return any(contains_sym(k) or contains_sym(v) for k, v in x.pairs())
    if t is Rec:
        return any(contains_sym(v) for v in x._f.values())
    return False


# ------------------------------------------------------------------ dicts
class VDict:
    """dict with possibly symbolic keys and values; finite number of writes over an optional symbolic base map"""
    __slots__ = ('ps', 'base')

    def __init__(self, pairs=(), base=None):
        self.ps = []            # list of [key, value]
        self.base = base        # object with get(key)->(found: bool/SBool, value)
        for k, v in pairs:
            self[k] = v

    @staticmethod
    def of(d):
        if _type(d) is VDict:
            return d
        return VDict(list(d.items()))

    @property
    def __class__(self):
        return dict

    def pairs(self):
        if self.base is not None:
            raise Unsupported('iteration over a symbolic map')
        return [(k, v) for k, v in self.ps]

    def _find(self, k):
        """slot of key k among the writes, or None; forks on symbolic equality"""
        for p in self.ps:
            if V.truth(eq(p[0], k)):
                return p
        return None

    def lookup(self, k):
        p = self._find(k)
        if p is not None:
            return True, p[1]
        if self.base is not None:
            return self.base.lookup(k)
        return False, None

    def __getitem__(self, k):
        f, v = self.lookup(k)
        if not V.truth(f):
            raise KeyError(k)
        return v() if callable(v) and getattr(v, '_lazy', False) else v

    def get(self, k, d=None):
        f, v = self.lookup(k)
        if not V.truth(f):
            return d
        return v() if callable(v) and getattr(v, '_lazy', False) else v

    def become(self, o):
        self.ps, self.base = [list(p) for p in o.ps], o.base

    def __setitem__(self, k, v):
        if _type(self.base) is MapBase and not self.ps:
            b = self.base.store(k, v)
            if b is None:
                raise Unsupported('%r: %r in a %s' % (k, v, self.base.ty))
            self.base = b
            return
        p = self._find(k)
        if p is not None:
            p[1] = v
        else:
            self.ps.append([k, v])

    def __delitem__(self, k):
        p = self._find(k)
        if p is None:
            if self.base is not None:
                raise Unsupported('del on symbolic map')
            raise KeyError(k)
        self.ps.remove(p)

    def pop(self, k, *d):
        p = self._find(k)
        if p is None:
            if self.base is not None:
                raise Unsupported('pop on symbolic map')
            if d:
                return d[0]
            raise KeyError(k)
        self.ps = [q for q in self.ps if q is not p]
        return p[1]

    def setdefault(self, k, d=None):
        f, v = self.lookup(k)
        if V.truth(f):
            return v
        self[k] = d
        return d

    def contains(self, k):
        if self.base is None:
            return V.or_(*[eq(p[0], k) for p in self.ps])
        f, v = self.lookup(k)
        return f

    def __contains__(self, k):
        return V.truth(self.contains(k))

    def __iter__(self): return iter([k for k, v in self.pairs()])
    def keys(self): return [k for k, v in self.pairs()]
    def values(self): return [v for k, v in self.pairs()]
    def items(self): return self.pairs()
    def __len__(self): return len(self.pairs())

    def __bool__(self):
        if self.ps:
            return True
        if self.base is None:
            return False
        return V.truth(self.base.nonempty())

    def copy(self):
        r = VDict(base=self.base)
        r.ps = [list(p) for p in self.ps]
        return r

    def update(self, *a, **kw):
        for d in a:
            if _type(d) in (VDict, dict):
                d = d.items()
            for k, v in d:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.ps, self.base = [], None

    def __eq__(self, o):
        if _type(o) not in (VDict, dict):
            return NotImplemented
        return eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else V.not_(r)

    __hash__ = None

    def __repr__(self):
        return 'VDict(%r%s)' % (self.ps, ', base' if self.base is not None else '')


def concrete(x):
    """deep-convert a fully concrete engine value to plain Python"""
    t = _type(x)
    if t is VList:
        if x.el is not None:
            raise Unsupported('symbolic list where a concrete one is needed')
        return [concrete(y) for y in x.items]
    if t is list:
        return [concrete(y) for y in x]
    if t is tuple:
        return tuple(concrete(y) for y in x)
    if t is VDict:
        return {concrete(k): concrete(v) for k, v in x.pairs()}
    if issubclass(t, V.Sym):
        if _isinstance(x, (bytes, str)):
            v = x.concrete() if t is not Choice else None
            if v is not None:
                return v
        raise Unsupported('symbolic value where a concrete one is needed: %r' % (x,))
    return x


V.merge = merge


class TAny(TSort):
    """values of any kind, known only as themselves; lists, numbers, byte strings and concrete objects embed into it"""
    def __init__(self, name='any'):
        TSort.__init__(self, name)
        self.objs = {}

    def fn(self, kind, *sorts):
        return z3.Function('%s.%s' % (self.name, kind), *sorts, self.sort)

    def intval(self, t):
        """the integer t is known to be, or None"""
        x = z3.Function(self.name + '.intval', self.sort, z3.IntSort())(t)
        return V.mkint(x) if ctx().entails(self.fn('int', z3.IntSort())(x) == t) else None

    def unwrap(self, v):
        k = _type(v)
        if k is SOpaque:
            return v.t if v.ty is self else None
        if k is Choice:
            r = None
            for c, x in reversed(v.alts):
                t = self.unwrap(x)
                if t is None:
                    return None
                r = t if r is None else z3.If(c, t, r)
            return r
        if k is VList or k is list:
            t = TList(self).unwrap(v)
            return None if t is None else self.fn('list', TList(self).sort)(t)
        if k is bool:
            return self.fn('bool', z3.BoolSort())(z3.BoolVal(v))
        if V.isint(v):
            x = V.int_term(v)
            t = self.fn('int', z3.IntSort())(x)
            ctx().axiom(z3.Function(self.name + '.intval', self.sort, z3.IntSort())(t) == x)
            return t
        if V.isreal(v):
            return self.fn('real', z3.RealSort())(TReal.unwrap(v))
        if k is bytes or k is V.SBytes:
            return self.fn('bytes', V.BYTES.sort)(TBytes.unwrap(v))
        if k is str or k is V.SStr:
            return self.fn('str', V.STR.sort)(TStr.unwrap(v))
        if isinstance(v, V.Sym):
            return None
        self.objs.setdefault(id(v), (len(self.objs), v))
        return z3.Const('%s.obj%d' % (self.name, self.objs[id(v)][0]), self.sort)


class TSet(TSort):
    """a finite or infinite set of values of one type, as its characteristic function"""
    def __init__(self, el):
        self.el = el
        self.name = 'set(%s)' % el.name
        self.sort = z3.ArraySort(el.sort, z3.BoolSort())
        self.pyclass = object

    def empty(self):
        return z3.K(self.el.sort, z3.BoolVal(False))

    def unwrap(self, v):
        if _type(v) is SOpaque and v.ty is self:
            return v.t
        if _type(v) is tuple:
            t = self.empty()
            for x in v:
                e = self.el.unwrap(x)
                if e is None:
                    return None
                t = z3.Store(t, e, z3.BoolVal(True))
            return t
        return None

    def conc(self, m, t, lim=5000):
        return ('set', str(m.eval(t, model_completion=True)))


TIntSet = TSet(TInt)


class TObj(T):
    """objects of a harness class, one for every term: make(value of type `ty`) -> object; get(object) -> value or None"""
    def __init__(self, name, ty, make, get):
        self.name, self.ty, self.make, self.get = name, ty, make, get
        self.sort = ty.sort

    def wrap(self, t):
        v = self.make(self.ty.wrap(t))
        if _type(v) is Choice:
            v.src = (self, t)
        return v

    def unwrap(self, v):
        if _type(v) is Choice and v.src is not None and v.src[0] is self:
            return v.src[1]
        x = self.get(v)
        return None if x is None else self.ty.unwrap(x)

    def domain(self, t): return self.ty.domain(t)

    def term_eq(self, a, b): return self.ty.term_eq(a, b)

    def conc(self, m, t, lim=5000):
        return self.ty.conc(m, t, lim)
