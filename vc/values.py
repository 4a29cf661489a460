"""Symbolic proxies for Python values, and type descriptors."""
import z3
from .core import ctx, Ctx, Unsupported, PathAbort, tobool, I, B, RS, EngineExc
from . import seq as SQ
from .seq import BYTES, STR


def iv(n):
    return z3.IntVal(n)


class Sym:
    """base of every proxy"""
    __slots__ = ()


def is_sym(x):
    return isinstance_(x, Sym)


_isinstance = isinstance
_type = type


def isinstance_(x, c):
    return issubclass(_type(x), c)


# ------------------------------------------------------------------ numbers
def int_term(x):
    """z3 Int term of an int-like value, or None"""
    t = _type(x)
    if t is int:
        return iv(x)
    if t is bool:
        return iv(int(x))
    if t is SInt:
        return x.t
    if t is SBool:
        return z3.If(x.t, iv(1), iv(0))
    if issubclass(t, int):
        return iv(int(x))
    return None


def real_term(x):
    t = _type(x)
    if t is float:
        from fractions import Fraction
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float literal')
        f = Fraction(x)
        # a float literal is read as the decimal it prints as (floats are mathematical reals here)
        f = Fraction(repr(x))
        return z3.RealVal(str(f))
    if t is SReal:
        return x.t
    i = int_term(x)
    if i is not None:
        if z3.is_int_value(i):
            return z3.RealVal(i.as_long())
        return z3.ToReal(i)
    return None


def mkint(t, tz=0):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    r = SInt(t)
    r.tz = tz
    return r


def mkbool(t):
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    t2 = z3.simplify(t)
    if z3.is_true(t2):
        return True
    if z3.is_false(t2):
        return False
    return SBool(t)


def mkreal(t):
    return SReal(z3.simplify(t))


_canon = {}


def _poly(t, memo):
    """{monomial (sorted names of atoms): coefficient} of a real term, None when it is too large"""
    k = t.get_id()
    if k in memo:
        return memo[k]
    from fractions import Fraction
    r = None
    d = t.decl().kind()
    ch = t.children()
    if z3.is_rational_value(t):
        r = {(): Fraction(t.numerator_as_long(), t.denominator_as_long())}
    elif d == z3.Z3_OP_UMINUS:
        p = _poly(ch[0], memo)
        r = p and {m: -c for m, c in p.items()}
    elif d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        r = {}
        for i, x in enumerate(ch):
            p = _poly(x, memo)
            if p is None:
                r = None
                break
            for m, c in p.items():
                r[m] = r.get(m, 0) + (-c if i and d == z3.Z3_OP_SUB else c)
    elif d == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for x in ch:
            p = _poly(x, memo)
            if p is None or len(p) * len(r) > 300:
                r = None
                break
            q = {}
            for m, c in r.items():
                for n, e in p.items():
                    k2 = tuple(sorted(m + n))
                    q[k2] = q.get(k2, 0) + c * e
            r = q
    elif d == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]) and ch[1].numerator_as_long() != 0:
        p = _poly(ch[0], memo)
        v = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
        r = p and {m: c / v for m, c in p.items()}
    elif z3.is_const(t):
        nm = t.decl().name()
        _canon[nm] = t
        r = {(nm,): Fraction(1)}
    else:
        nm = t.sexpr()
        if len(nm) < 3000:
            _canon[nm] = t
            r = {(nm,): Fraction(1)}
    memo[k] = r
    return r


def canon(x):
    """a real in a canonical form: equal polynomials of the same atoms are one term"""
    if _type(x) is not SReal or z3.is_const(x.t) or x.t.decl().kind() == z3.Z3_OP_ITE:
        return x
    p = _poly(x.t, {})
    if p is None:
        return x
    key = tuple(sorted((m, c) for m, c in p.items() if c))
    if key not in _canon:
        ts = [z3.Product(*([z3.RealVal(str(c))] * (c != 1) + [_canon[n] for n in m])) if len(m) + (c != 1) > 1 else _canon[m[0]] if m else z3.RealVal(str(c)) for m, c in key]
        _canon[key] = (z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0))
    r = SReal(_canon[key])
    return r


def isnum(x):
    t = _type(x)
    return t in (int, bool, float, SInt, SBool, SReal) or issubclass(t, (int, float))


def isreal(x):
    t = _type(x)
    return t in (float, SReal) or issubclass(t, float)


def isint(x):
    t = _type(x)
    return t in (int, bool, SInt, SBool) or (issubclass(t, int))


def is_pow2(n):
    return n > 0 and n & (n - 1) == 0


def term_div(a, b):
    """Python floor division / modulo on z3 ints; b != 0 known"""
    if z3.is_int_value(b):
        n = b.as_long()
        if n > 0:
            return a / b, a % b
        q = (-a) / iv(-n)
        return q, a - b * q
    if ctx().entails(b > 0):
        return a / b, a % b
    q = z3.If(b > 0, a / b, (-a) / (-b))
    return q, a - b * q


class SNum(Sym):
    __slots__ = ()

    def _bin(self, o, fi, fr):
        if not isnum(o):
            return NotImplemented
        if isreal(self) or isreal(o):
            return mkreal(fr(real_term(self), real_term(o)))
        return mkint(fi(int_term(self), int_term(o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __mul__(self, o):
        if not isnum(o):
            return NotImplemented
        return self._bin(o, product, product)

    def __rmul__(self, o):
        if _type(o) in (bytes, str):
            return lift(o) * self
        return self._bin(o, lambda a, b: product(b, a), lambda a, b: product(b, a))

    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)
    def __neg__(self):
        return mkreal(-self.t) if isreal(self) else mkint(-int_term(self))
    def __pos__(self): return self if not isinstance_(self, SBool) else mkint(int_term(self))
    def __abs__(self):
        if isreal(self):
            return mkreal(z3.If(self.t >= 0, self.t, -self.t))
        t = int_term(self)
        return mkint(z3.If(t >= 0, t, -t))

    @staticmethod
    def _div(a, b):
        if not (isnum(a) and isnum(b)):
            return NotImplemented
        bt = real_term(b)
        if truth(mkbool(bt == 0)):
            raise ZeroDivisionError('division by zero')
        return mkreal(real_term(a) / bt)

    def __truediv__(self, o): return SNum._div(self, o)
    def __rtruediv__(self, o): return SNum._div(o, self)

    @staticmethod
    def _fdm(a, b, which):
        if not (isnum(a) and isnum(b)):
            return NotImplemented
        if isreal(a) or isreal(b):
            if which == 1:
                raise Unsupported('float modulo')
            bt = real_term(b)
            if truth(mkbool(bt == 0)):
                raise ZeroDivisionError('float floor division by zero')
            return mkreal(z3.ToReal(z3.ToInt(real_term(a) / bt)))
        at, bt = int_term(a), int_term(b)
        if truth(mkbool(bt == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        return mkint(term_div(at, bt)[which])

    def __floordiv__(self, o): return SNum._fdm(self, o, 0)
    def __rfloordiv__(self, o): return SNum._fdm(o, self, 0)
    def __mod__(self, o): return SNum._fdm(self, o, 1)
    def __rmod__(self, o): return SNum._fdm(o, self, 1)
    def __divmod__(self, o): return (self // o, self % o)

    def __pow__(self, o):
        if _type(o) is int and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('pow')

    def __rpow__(self, o):
        if _type(o) is int:
            return o ** enum_int(self)
        raise Unsupported('pow')

    # comparisons
    def _cmp(self, o, f):
        if not isnum(o):
            return NotImplemented
        if isreal(self) or isreal(o):
            if _type(o) is float and (o != o or o in (float('inf'), float('-inf'))):
                return f(0.0, o)
            return mkbool(f(real_term(self), real_term(o)))
        return mkbool(f(int_term(self), int_term(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not isnum(o):
            return NotImplemented if isinstance_(o, (SAnyBase,)) else False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        raise Unsupported('hash of a symbolic number')

    def __repr__(self):
        return '<%s %s>' % (_type(self).__name__, self.t)

    def __str__(self):
        raise Unsupported('native str() of a symbolic number')

    def __format__(self, s):
        raise Unsupported('native format of a symbolic number')

    # bit operations
    def __lshift__(self, o):
        if isreal(self) or not isint(o):
            return NotImplemented
        n = o if _type(o) is int else enum_int(o)
        if n < 0:
            raise ValueError('negative shift count')
        return mkint(int_term(self) * iv(1 << n), tz=n)

    def __rlshift__(self, o):
        n = enum_int(self)
        return o << n

    def __rshift__(self, o):
        if isreal(self) or not isint(o):
            return NotImplemented
        n = o if _type(o) is int else enum_int(o)
        if n < 0:
            raise ValueError('negative shift count')
        return mkint(int_term(self) / iv(1 << n))

    def __rrshift__(self, o):
        n = enum_int(self)
        return o >> n

    def __and__(self, o):
        if isreal(self) or not isint(o):
            return NotImplemented
        if _type(self) is SBool and _type(o) in (bool, SBool):
            return and_(self, o)
        if _type(o) in (int, bool):
            return mask_and(int_term(self), int(o))
        return sym_bits(self, o, '&')

    __rand__ = __and__

    def __or__(self, o):
        if isreal(self) or not isint(o):
            return NotImplemented
        if _type(self) is SBool and _type(o) in (bool, SBool):
            return or_(self, o)
        c = ctx()
        for (x, y) in ((self, o), (o, self)):
            tz = getattr(x, 'tz', 0) if _type(x) is SInt else 0
            if _type(x) is int and x:
                tz = (x & -x).bit_length() - 1
            if _type(x) is int and x == 0:
                return y
            if tz:
                yt = int_term(y)
                if c.entails(z3.And(yt >= 0, yt < (1 << tz))):
                    return mkint(int_term(x) + yt)
        if _type(o) is int and o >= 0:
            t = int_term(self)
            return mkint(t + iv(o) - int_term(mask_and(t, o)))
        return sym_bits(self, o, '|')

    __ror__ = __or__

    def __xor__(self, o):
        if isreal(self) or not isint(o):
            return NotImplemented
        if _type(self) is SBool and _type(o) in (bool, SBool):
            return mkbool(z3.Xor(tob(self), tob(o)))
        if _type(o) is int and o >= 0:
            t = int_term(self)
            if o == 0:
                return mkint(t)
            r = mkint(t + iv(o) - 2 * int_term(mask_and(t, o)))
            if o < 256 and t.get_id() in ctx().known_bytes:
                ctx().known_bytes[int_term(r).get_id()] = int_term(r)
            return r
        return sym_bits(self, o, '^')

    __rxor__ = __xor__

    def __invert__(self):
        return mkint(-int_term(self) - 1)

    def __index__(self):
        return enum_int(self)

    def __int__(self):
        raise Unsupported('native int() of a symbolic number')

    def __float__(self):
        raise Unsupported('native float() of a symbolic number')


def sym_bits(a, b, op):
    c = ctx()
    at, bt = int_term(a), int_term(b)
    f = z3.Function('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op], I, I, I)
    if at.get_id() > bt.get_id():
        at, bt = bt, at
    return mkint(f(at, bt))


def mask_and(t, m):
    if m == 0:
        return 0
    if m < 0:
        # x & m = x - (x & ~m)
        return mkint(t - int_term(mask_and(t, ~m)))
    # split the mask into runs of ones
    r = []
    k = 0
    while m >> k:
        if (m >> k) & 1:
            j = k
            while (m >> j) & 1:
                j += 1
            # bits k..j-1
            r.append(((t % iv(1 << j)) / iv(1 << k)) * iv(1 << k) if k else t % iv(1 << j))
            k = j
        else:
            k += 1
    return mkint(sum(r[1:], r[0]))


def probe_int(c, t, limit):
    for hi in (8, 16, 32, limit):
        if c.query([z3.Not(z3.And(t >= -1, t <= hi))], c.feas_timeout)[0] == 'unsat':
            return [v for v in range(-1, hi + 1) if c.query([t == v], c.feas_timeout)[0] != 'unsat']
    raise Unsupported('cannot enumerate a symbolic integer')


def enum_int(x, limit=70):
    """Case split a symbolic int over all its feasible values (complete; Unsupported when there are too many)."""
    if _type(x) in (int, bool):
        return int(x)
    c = ctx()
    t = int_term(x)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    k = len(c.decisions)
    # find candidate values by model enumeration; replays use the memo
    key = ('enum', k, t.get_id(), len(c.pc), len(c.local))
    vals = c.feas_memo.get((tuple(d[0] for d in c.decisions), t.get_id()))
    if vals is None:
        vals = []
        excl = []
        while True:
            r, m = c.query(excl, c.feas_timeout, want_model=True)
            if r == 'unsat':
                break
            if m is None:
                vals = probe_int(c, t, limit)
                break
            v = m.eval(t, model_completion=True)
            if not z3.is_int_value(v):
                raise Unsupported('cannot enumerate a symbolic integer')
            v = v.as_long()
            if v in vals:
                raise Unsupported('cannot enumerate a symbolic integer')
            vals.append(v)
            excl.append(t != v)
            if len(vals) > limit:
                raise Unsupported('too many values of a symbolic integer used as a machine index')
        vals.sort()
        c.feas_memo[(tuple(d[0] for d in c.decisions), t.get_id())] = vals
        c.cache[('keep', t.get_id())] = ('', t)
    if not vals:
        raise PathAbort('infeasible')
    if len(vals) == 1:
        c.assume(t == vals[0])
        return vals[0]
    i = c.decide(len(vals))
    f = t == vals[i]
    (c.local if (c.local or c.purelevel) else c.pc).append(f)
    return vals[i]


_mul = {s: z3.Function('product.%s' % s, s, s, s) for s in (z3.IntSort(), z3.RealSort())}


def product(a, b):
    """a*b; a nonlinear product is also named by a function symbol (so that equal factors give equal products at once)"""
    r = a * b
    if z3.is_int_value(a) or z3.is_int_value(b) or z3.is_rational_value(a) or z3.is_rational_value(b) or a.sort() != b.sort():
        return r
    if z3.is_int_value(z3.simplify(a)) or z3.is_int_value(z3.simplify(b)):
        return r
    if a.sort() == z3.IntSort() and Ctx.cur is not None:
        m = _mul[a.sort()]
        Ctx.cur.axiom(z3.And(r == m(a, b), m(a, b) == m(b, a)))
    return r


class SInt(SNum):
    __slots__ = ('t', 'tz')

    def __init__(self, t):
        self.t = t
        self.tz = 0

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def bit_length(self):
        raise Unsupported('bit_length')

    def to_bytes(self, n, order='big', signed=False):
        raise Unsupported('to_bytes')

    @property
    def real(self): return self
    @property
    def imag(self): return 0


class SBool(SNum):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().branch(self.t)


class SReal(SNum):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def hex(self):
        raise Unsupported('float.hex')


def truth(x):
    """python truth value (forks)"""
    if x is True or x is False:
        return x
    return bool(x)


def tob(x):
    """z3 Bool of a truth-valued thing, without forking when it is a proxy"""
    if x is True or x is False:
        return z3.BoolVal(x)
    if _type(x) is SBool:
        return x.t
    if _isinstance(x, z3.BoolRef):
        return x
    if _type(x) is SInt:
        return x.t != 0
    if isinstance_(x, SSeq):
        return x.lent() != 0
    return z3.BoolVal(bool(x))


def not_(x):
    if x is True or x is False:
        return not x
    return mkbool(z3.Not(tob(x)))


def and_(*xs):
    ts = [tob(x) for x in xs]
    return mkbool(z3.And(*ts)) if ts else True


def or_(*xs):
    ts = [tob(x) for x in xs]
    return mkbool(z3.Or(*ts)) if ts else False


def implies(a, b):
    """b may be a thunk"""
    if a is True:
        return b() if callable(b) else b
    if a is False:
        return True
    if callable(b):
        c = ctx()
        if c is None:
            return b() if a else True
        t = tob(a)
        if not c.feasible(t):
            return True
        sv = list(c.local)
        c.local.append(t)
        c.purelevel += 1
        try:
            r = tob(b())
        finally:
            c.local = sv
            c.purelevel -= 1
        return mkbool(z3.Implies(t, r))
    return mkbool(z3.Implies(tob(a), tob(b)))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if _type(c) is not SBool:
        return a if c else b
    return merge([([c.t], a), ([z3.Not(c.t)], b)])


# ------------------------------------------------------------------ sequences
_lits = {}


class SSeq(Sym):
    """immutable sequence of ints: bytes or str"""
    __slots__ = ('t',)
    th = None
    pytype = None

    def __init__(self, t):
        self.t = t

    def lent(self):
        return self.th.length(self.t)

    @property
    def __class__(self):
        return self.pytype

    def slen(self):
        return mkint(self.lent())

    def __len__(self):
        n = self.slen()
        return n if _type(n) is int else enum_int(n)

    def __bool__(self):
        return ctx().branch(self.lent() != 0)

    def __hash__(self):
        v = self.concrete()
        if v is not None:
            return hash(v)
        raise Unsupported('hash of a symbolic %s' % self.pytype.__name__)

    def __repr__(self):
        return '<%s %s>' % (_type(self).__name__, self.t)

    def __str__(self):
        raise Unsupported('native str() of a symbolic sequence')

    def __format__(self, s):
        raise Unsupported('native format() of a symbolic sequence')

    def concrete(self):
        """python value if the term is a literal"""
        th = self.th
        t = self.t
        if t.eq(th.emp):
            return self.pytype()
        if t.decl().eq(th.unit):
            e = z3.simplify(t.arg(0))
            if z3.is_int_value(e):
                return self.frompy([e.as_long()])
        return None

    def __add__(self, o):
        if not _isinstance(o, self.pytype):
            return NotImplemented
        o = lift(o)
        return mkseq(self, self.th.concat(self.t, o.t))

    def __radd__(self, o):
        if not _isinstance(o, self.pytype):
            return NotImplemented
        o = lift(o)
        return mkseq(self, self.th.concat(o.t, self.t))

    def __mul__(self, n):
        if not isint(n):
            return NotImplemented
        v = self.concrete()
        if v is not None and not len(v):
            return v
        nt = z3.simplify(int_term(n))
        if z3.is_int_value(nt):
            k = nt.as_long()
            if k <= 0:
                return self.pytype()
            if k == 1:
                return self
            if k <= 8:
                r = self.t
                for _ in range(k - 1):
                    r = self.th.concat(self.t, r)
                return mkseq(self, r)
        return mkseq(self, self.th.rep(self.t, nt))

    __rmul__ = __mul__

    def elem(self, t):
        raise NotImplementedError

    def at(self, kt):
        return self.elem(self.th.index(self.t, kt))

    def __getitem__(self, i):
        if _type(i) is slice:
            return self.getslice(i.start, i.stop, i.step)
        if not isint(i):
            raise TypeError('indices must be integers')
        n = self.lent()
        if _type(i) is int and i < 0:
            k = n + iv(i)
            ok = mkbool(k >= 0)
        else:
            it = int_term(i)
            if _type(i) is int or ctx().entails(it >= 0):
                k = it
                ok = mkbool(k < n)
            else:
                ok = mkbool(z3.And(it < n, it >= -n))
                k = z3.If(it < 0, it + n, it)
        if not truth(ok):
            raise IndexError('index out of range')
        return self.at(z3.simplify(k))

    def getslice(self, lo, hi, step):
        if step is not None and step != 1:
            if step == -1 and lo is None and hi is None:
                return self.reversed_()
            raise Unsupported('slice step')
        lo, hi = norm_slice(lo, hi, self.lent())
        # one side of a concatenation
        t, c, th = self.t, ctx(), self.th
        while t.decl().eq(th.cat):
            n0 = th.length(t.arg(0))
            if c.entails(hi <= n0):
                t = t.arg(0)
            elif c.entails(lo >= n0):
                t, lo, hi = t.arg(1), z3.simplify(lo - n0), z3.simplify(hi - n0)
            else:
                break
        if z3.is_int_value(lo) and lo.as_long() == 0 and not (t is self.t and z3.is_int_value(hi)) and c.entails(hi == th.length(t)):
            return mkseq(self, t)
        return mkseq(self, th.slice(t, lo, hi))

    def reversed_(self):
        th = self.th
        f = z3.Function(th.name + '.rev', th.sort, th.sort)
        r = f(self.t)
        c = ctx()
        c.axiom(th.len(r) == th.len(self.t))
        k = z3.Int('k_rev')
        c.axiom(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < th.len(r)),
                                          th.idx(r, k) == th.idx(self.t, th.len(r) - 1 - k)), patterns=[th.idx(r, k)]))
        return mkseq(self, r)

    def __iter__(self):
        n = self.__len__()
        for k in range(n):
            yield self.at(iv(k))

    def __eq__(self, o):
        if not _isinstance(o, self.pytype):
            return NotImplemented if isinstance_(o, SAnyBase) else False
        return seq_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    # ordering: decided for length <= 1 operands, else by the first elements; otherwise uninterpreted
    def _lex(self, o, strict):
        if not _isinstance(o, self.pytype):
            return NotImplemented
        o = lift(o)
        la, lb = z3.simplify(self.lent()), z3.simplify(o.lent())
        c = ctx()
        one = lambda l: (z3.is_int_value(l) and l.as_long() == 1) or c.entails(l == 1)
        if one(la) and one(lb):
            a, b = self.th.index(self.t, iv(0)), self.th.index(o.t, iv(0))
            return mkbool(a < b if strict else a <= b)
        lt = z3.Function(self.th.name + '.lt', self.th.sort, self.th.sort, B)
        r = lt(self.t, o.t)
        return mkbool(r) if strict else or_(mkbool(r), seq_eq(self, o))

    def __lt__(self, o): return self._lex(o, True)
    def __le__(self, o): return self._lex(o, False)

    def __gt__(self, o):
        if not _isinstance(o, self.pytype):
            return NotImplemented
        return lift(o)._lex(self, True)

    def __ge__(self, o):
        if not _isinstance(o, self.pytype):
            return NotImplemented
        return lift(o)._lex(self, False)

    def __contains__(self, x):
        return truth(self.contains(x))

    def contains(self, x):
        if isint(x) and self.pytype is bytes:
            x = SBytes(BYTES.unit(int_term(x)))
        if not _isinstance(x, self.pytype):
            raise TypeError('bad operand for in')
        x = lift(x)
        v = x.concrete()
        if v is not None and len(v) == 0:
            return True
        p = self.find(x)
        return p >= 0

    # -- searching for a one-element needle is characterised exactly; longer needles are uninterpreted positions
    def find(self, sub, start=0, end=None):
        if isint(sub) and self.pytype is bytes:
            sub = SBytes(BYTES.unit(int_term(sub)))
        sub = lift(sub)
        if end is not None:
            return mkint(z3.simplify(int_term(_find(self[:end], sub, start))))
        return _find(self, sub, start)

    def rfind(self, sub, start=0, end=None):
        if isint(sub) and self.pytype is bytes:
            sub = SBytes(BYTES.unit(int_term(sub)))
        sub = lift(sub)
        base = self if (start == 0 and end is None) else None
        if base is None:
            raise Unsupported('rfind with bounds')
        return _rfind(self, sub)

    def index(self, sub, start=0, end=None):
        p = self.find(sub, start, end)
        if truth(p < 0):
            raise ValueError('subsection not found')
        return p

    def startswith(self, p, start=0, end=None):
        if _type(p) is tuple:
            return or_(*[tob(self.startswith(q)) for q in p])
        if start != 0 or end is not None:
            return self[start:end].startswith(p)
        p = lift(p)
        n = p.lent()
        return mkbool(z3.And(self.lent() >= n, tob(seq_eq(_type(self)(self.th.slice(self.t, iv(0), n)), p))))

    def endswith(self, p, start=0, end=None):
        if _type(p) is tuple:
            return or_(*[tob(self.endswith(q)) for q in p])
        p = lift(p)
        n = p.lent()
        m = self.lent()
        return mkbool(z3.And(m >= n, tob(seq_eq(_type(self)(self.th.slice(self.t, z3.simplify(m - n), m)), p))))

    def join(self, it):
        from . import models
        return models.seq_join(self, it)

    def _class(self, name, pred):
        """isdigit & co on a sequence known to have one element"""
        n = self.slen()
        if truth(n == 1):
            return pred(self.th.index(self.t, iv(0)))
        if truth(n == 0):
            return False
        f = z3.Function('%s.%s' % (self.th.name, name), self.th.sort, B)
        return mkbool(f(self.t))

    def isdigit(self):
        return self._class('isdigit', lambda e: mkbool(z3.And(e >= 48, e <= 57)) if self.pytype is bytes
                           else mkbool(z3.Function('str.chr_isdigit', I, B)(e)))

    def isalpha(self):
        return self._class('isalpha', lambda e: mkbool(z3.Or(z3.And(e >= 65, e <= 90), z3.And(e >= 97, e <= 122)))
                           if self.pytype is bytes else mkbool(z3.Function('str.chr_isalpha', I, B)(e)))

    def isspace(self):
        return self._class('isspace', lambda e: mkbool(z3.Or(e == 32, z3.And(e >= 9, e <= 13)))
                           if self.pytype is bytes else mkbool(z3.Function('str.chr_isspace', I, B)(e)))

    def _map(self, name, *args):
        """total function of the receiver (and literal arguments), otherwise unspecified"""
        th = self.th
        a = [lift(x) if _type(x) in (bytes, str) else x for x in args]
        key = '%s.%s' % (th.name, name)
        ts = [x.t for x in a]
        f = z3.Function(key + '/%d' % len(ts), th.sort, *[t.sort() for t in ts], th.sort)
        return mkseq(self, f(self.t, *ts))

    def lower(self): return self._map('lower')
    def upper(self): return self._map('upper')
    def strip(self, *a): return self._map('strip', *a)
    def lstrip(self, *a): return self._map('lstrip', *a)
    def rstrip(self, *a): return self._map('rstrip', *a)
    def replace(self, a, b): return self._map('replace', a, b)

    def ljust(self, n, fill=None):
        if truth(self.slen() >= n):
            return self
        return self + lift(fill if fill is not None else self.pytype(b' ') if self.pytype is bytes else ' ') * (n - self.slen())


def _find(s, sub, start):
    th = s.th
    c = ctx()
    st = int_term(start)
    n = s.lent()
    if not (z3.is_int_value(st) and st.as_long() == 0):
        # Python clamps negative starts
        if c.entails(st >= 0):
            pass
        else:
            st = z3.If(st < 0, z3.If(st + n < 0, iv(0), st + n), st)
    f = z3.Function(th.name + '.find', th.sort, th.sort, I, I)
    p = f(s.t, sub.t, st)
    m = sub.lent()
    key = ('find', p.get_id())
    if key not in c.memo:
        c.memo[key] = p
        ms = z3.simplify(m)
        if z3.is_int_value(ms) and ms.as_long() == 1:
            e = th.index(sub.t, iv(0))
            c.axiom(z3.Or(p == -1, z3.And(p >= st, p < n, th.idx(s.t, p) == e)))
            k = z3.Int('k_find')
            c.axiom(z3.ForAll([k], z3.Implies(z3.And(k >= st, k < n, z3.Or(p == -1, k < p)), th.idx(s.t, k) != e),
                              patterns=[th.idx(s.t, k)]))
        else:
            c.axiom(z3.Or(p == -1, z3.And(p >= st, p + m <= n)))
            sl = th.sl(s.t, p, p + m)
            c.axiom(z3.Implies(p != -1, th.eq(sl, sub.t)))
    return mkint(p)


def _rfind(s, sub):
    th = s.th
    c = ctx()
    n = s.lent()
    f = z3.Function(th.name + '.rfind', th.sort, th.sort, I)
    p = f(s.t, sub.t)
    m = sub.lent()
    key = ('rfind', p.get_id())
    if key not in c.memo:
        c.memo[key] = p
        ms = z3.simplify(m)
        if z3.is_int_value(ms) and ms.as_long() == 1:
            e = th.index(sub.t, iv(0))
            c.axiom(z3.Or(p == -1, z3.And(p >= 0, p < n, th.idx(s.t, p) == e)))
            k = z3.Int('k_rfind')
            c.axiom(z3.ForAll([k], z3.Implies(z3.And(k > p, k < n, k >= 0), th.idx(s.t, k) != e),
                              patterns=[th.idx(s.t, k)]))
        else:
            c.axiom(z3.Or(p == -1, z3.And(p >= 0, p + m <= n)))
    return mkint(p)


def norm_slice(lo, hi, n):
    """Python slice clamping on z3 terms, simplified under the path condition."""
    c = ctx()

    def clamp(v, default):
        if v is None:
            return default, True
        if not isint(v):
            raise TypeError('slice indices must be integers or None')
        t = int_term(v)
        if z3.is_int_value(t):
            x = t.as_long()
            if x == 0:
                return iv(0), True
            if x < 0:
                t = n + t
                if c.entails(t >= 0):
                    return t, True
                return z3.If(t < 0, iv(0), t), True
            if c.entails(t <= n):
                return t, True
            return z3.If(t > n, n, t), True
        if c.entails(z3.And(t >= 0, t <= n)):
            return t, True
        if c.entails(t >= 0):
            return z3.If(t > n, n, t), True
        return z3.If(t < 0, z3.If(t + n < 0, iv(0), t + n), z3.If(t > n, n, t)), True

    lo, _ = clamp(lo, iv(0))
    hi, _ = clamp(hi, n)
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(lo) and lo.as_long() == 0:
        return lo, hi
    if not c.entails(lo <= hi):
        hi = z3.If(lo <= hi, hi, lo)
    return lo, hi


class SBytes(SSeq):
    __slots__ = ()
    th = BYTES
    pytype = bytes

    @staticmethod
    def frompy(l):
        return bytes(l)

    def elem(self, t):
        return mkint(t)

    def decode(self, enc='utf-8', errors='strict'):
        from . import models
        return models.decode(self, enc, errors)

    def hex(self):
        return mkseq_str(z3.Function('bytes.hex', BYTES.sort, STR.sort)(self.t))


class SStr(SSeq):
    __slots__ = ()
    th = STR
    pytype = str

    @staticmethod
    def frompy(l):
        return ''.join(map(chr, l))

    def elem(self, t):
        return mkseq_str(STR.unit(t))

    def encode(self, enc='utf-8', errors='strict'):
        from . import models
        return models.encode(self, enc, errors)

    def format(self, *a, **k):
        raise Unsupported('format on a symbolic template')


def mkseq(like, t):
    th = like.th
    r = _type(like)(t)
    v = r.concrete()
    return r if v is None else v


def mkseq_str(t):
    r = SStr(t)
    v = r.concrete()
    return r if v is None else v


def mkseq_bytes(t):
    r = SBytes(t)
    v = r.concrete()
    return r if v is None else v


def lift(x):
    t = _type(x)
    if t is bytes or t is bytearray:
        return SBytes(BYTES.lit(list(x)))
    if t is str:
        return SStr(STR.lit([ord(ch) for ch in x]))
    if t is int:
        return SInt(iv(x))
    if t is bool:
        return SBool(z3.BoolVal(x))
    if t is float:
        return SReal(real_term(x))
    if isinstance_(x, Sym):
        return x
    if issubclass(t, str):
        return lift(str(x))
    raise Unsupported('lift of %r' % (t,))


def seq_eq(a, b):
    """equality of two bytes or two str"""
    pa = a.concrete() if isinstance_(a, SSeq) else a
    pb = b.concrete() if isinstance_(b, SSeq) else b
    if pa is not None and pb is not None:
        return pa == pb
    if pa is not None:
        a, b, pa, pb = b, a, pb, pa
    a = lift(a)
    if pb is not None:
        th = a.th
        els = list(pb) if _type(pb) is bytes else [ord(ch) for ch in pb]
        n = len(els)
        la = z3.simplify(a.lent())
        if z3.is_int_value(la) and la.as_long() != n:
            return False
        if n == 0:
            return mkbool(a.t == th.emp) if False else mkbool(th.len(a.t) == 0)
        cs = []
        if not z3.is_int_value(la):
            cs.append(th.len(a.t) == n)
        for k, e in enumerate(els):
            cs.append(th.index(a.t, iv(k)) == e)
        full = z3.And(*cs) if len(cs) > 1 else cs[0]
        if n <= 64:
            c = ctx()
            lb = lift(pb)
            m = ('liteq', a.t.get_id(), lb.t.get_id())
            if m not in c.memo:
                c.memo[m] = (a.t, lb.t)
                c.axiom(full == (a.t == lb.t))
        return mkbool(full)
    b = lift(b)
    la, lb = z3.simplify(a.lent()), z3.simplify(b.lent())
    if z3.is_int_value(la) and z3.is_int_value(lb):
        n = la.as_long()
        if n != lb.as_long():
            return False
        if n == 1:
            e = a.th.index(a.t, iv(0)) == b.th.index(b.t, iv(0))
            c = ctx()
            m = ('uniteq', a.t.get_id(), b.t.get_id())
            if m not in c.memo:
                c.memo[m] = (a.t, b.t)
                c.axiom(e == (a.t == b.t))
            return mkbool(e)
    return mkbool(a.th.eq(a.t, b.t))


class SAnyBase(Sym):
    __slots__ = ()


from .types import *          # noqa  (type descriptors, VList, merge)
