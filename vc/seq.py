"""Sequence theory: uninterpreted sort with length/index, Dafny-style axioms and pattern-guided instantiation.
One theory instance per element sort; bytes additionally carry 0 <= element <= 255."""
import z3
from .core import I, B, add_theory_axioms, ctx, Ctx

_byname = {}


class Theory:
    def __init__(self, name, elem):
        self.name = name
        self.elem = elem
        S = self.sort = z3.DeclareSort('Seq_' + name)
        f = lambda n, *ss: z3.Function('%s.%s' % (name, n), *ss)
        self.len = f('len', S, I)
        self.idx = f('idx', S, I, elem)
        self.cat = f('cat', S, S, S)
        self.sl = f('slice', S, I, I, S)
        self.unit = f('unit', elem, S)
        self.rep = f('rep', S, I, S)
        self.upd = f('upd', S, I, elem, S)
        self.sk = f('skolem', S, S, I)
        self.emp = z3.Const(name + '.empty', S)
        a, b = z3.Consts('a b', S)
        k, lo, hi, i = z3.Ints('k lo hi i')
        x = z3.Const('x', elem)
        L, X = self.len, self.idx
        FA = z3.ForAll
        Imp, And = z3.Implies, z3.And
        ax = [
            FA([a], L(a) >= 0, patterns=[L(a)]),
            L(self.emp) == 0,
            FA([a], Imp(L(a) == 0, a == self.emp), patterns=[L(a)]),
            FA([x], And(L(self.unit(x)) == 1, X(self.unit(x), 0) == x), patterns=[self.unit(x)]),
            FA([a, b], And(L(self.cat(a, b)) == L(a) + L(b), Imp(L(a) == 0, self.cat(a, b) == b),
                           Imp(L(b) == 0, self.cat(a, b) == a)), patterns=[self.cat(a, b)]),
            FA([a, b, k], And(Imp(And(0 <= k, k < L(a)), X(self.cat(a, b), k) == X(a, k)),
                              Imp(And(L(a) <= k, k < L(a) + L(b)), X(self.cat(a, b), k) == X(b, k - L(a)))),
               patterns=[X(self.cat(a, b), k)]),
            FA([a, lo, hi], And(Imp(And(0 <= lo, lo <= hi, hi <= L(a)), L(self.sl(a, lo, hi)) == hi - lo),
                                Imp(And(lo == 0, hi == L(a)), self.sl(a, lo, hi) == a)),
               patterns=[self.sl(a, lo, hi)]),
            FA([a, lo, hi, k], Imp(And(0 <= lo, lo <= hi, hi <= L(a), 0 <= k, k < hi - lo),
                                   X(self.sl(a, lo, hi), k) == X(a, k + lo)), patterns=[X(self.sl(a, lo, hi), k)]),
            FA([a, i, x], L(self.upd(a, i, x)) == L(a), patterns=[self.upd(a, i, x)]),
            FA([a, i, x, k], Imp(And(0 <= k, k < L(a), 0 <= i, i < L(a)),
                                 X(self.upd(a, i, x), k) == z3.If(k == i, x, X(a, k))),
               patterns=[X(self.upd(a, i, x), k)]),
            # repetition of a one-element sequence (the only form whose elements are characterised)
            FA([a, k], And(Imp(And(k >= 0, L(a) == 1), L(self.rep(a, k)) == k),
                           Imp(k <= 0, L(self.rep(a, k)) == 0), Imp(k == 1, self.rep(a, k) == a)),
               patterns=[self.rep(a, k)]),
            FA([a, hi, k], Imp(And(0 <= k, k < hi, L(a) == 1), X(self.rep(a, hi), k) == X(a, 0)),
               patterns=[X(self.rep(a, hi), k)]),
        ]
        if name == 'bytes':
            ax.append(FA([a, k], And(0 <= X(a, k), X(a, k) <= 255), patterns=[X(a, k)]))
        if name == 'str':
            ax.append(FA([a, k], And(0 <= X(a, k), X(a, k) <= 0x10FFFF), patterns=[X(a, k)]))
        add_theory_axioms(ax)
        self.lits = {}
        self.elem_eq = lambda p, q: p == q

    # ---- builders with light normalisation
    def lit(self, elems):
        """constant sequence from element terms / python ints"""
        elems = [z3.IntVal(e) if isinstance(e, int) else e for e in elems]
        n = len(elems)
        if n == 0:
            return self.emp
        if n == 1:
            return self.unit(elems[0])
        key = tuple(e.get_id() for e in elems)
        if key in self.lits:
            t = self.lits[key][0]
        else:
            t = z3.Const('%s.lit%d' % (self.name, len(self.lits)), self.sort)
            self.lits[key] = (t, elems)
        c = ctx()
        m = ('lit', t.get_id())
        if m not in c.memo:
            c.memo[m] = t
            sv = c.local
            c.local = []
            c.axiom(self.len(t) == n)
            for k, e in enumerate(elems):
                c.axiom(self.idx(t, z3.IntVal(k)) == e)
            c.local = sv
        return t

    def length(self, t):
        if t.eq(self.emp):
            return z3.IntVal(0)
        d = t.decl()
        if d.eq(self.unit):
            return z3.IntVal(1)
        if d.eq(self.cat):
            return z3.simplify(self.length(t.arg(0)) + self.length(t.arg(1)))
        return self.len(t)

    def concat(self, a, b):
        if a.eq(self.emp):
            return b
        if b.eq(self.emp):
            return a
        return self.cat(a, b)

    def slice(self, t, lo, hi):
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi) and lo.as_long() >= hi.as_long():
            return self.emp
        if lo.eq(hi):
            return self.emp
        if z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(z3.simplify(self.length(t))):
            return t
        return self.sl(t, lo, hi)

    def index(self, t, k):
        if t.decl().eq(self.unit):
            k = z3.simplify(k)
            if z3.is_int_value(k) and k.as_long() == 0:
                return t.arg(0)
        return self.idx(t, k)

    def eq(self, a, b):
        """Equality usable in both polarities (ground extensionality for this pair)."""
        if a.eq(b):
            return z3.BoolVal(True)
        c = ctx()
        if a.get_id() > b.get_id():
            a, b = b, a
        m = ('seqeq', self.name, a.get_id(), b.get_id())
        if m in c.memo:
            return a == b
        c.memo[m] = (a, b)
        k = self.sk(a, b)
        sv = c.local
        c.local = []
        la, lb = self.len(a), self.len(b)
        c.axiom(z3.Or(a == b, la != lb,
                      z3.And(0 <= k, k < la, z3.Not(self.elem_eq(self.idx(a, k), self.idx(b, k))))))
        c.axiom(z3.Implies(a == b, la == lb))
        c.local = sv
        return a == b


def theory(name, elem=I):
    if name not in _byname:
        _byname[name] = Theory(name, elem)
    return _byname[name]


BYTES = theory('bytes')
STR = theory('str')


def by_sort(s):
    for th in _byname.values():
        if th.sort == s:
            return th
    raise KeyError(str(s))
