"""Loops: concrete ones run natively; symbolic ones are cut at the head with an invariant.

First arrival at the head: prove the invariant, havoc everything the loop modifies (locals assigned in the body and
heap cells found modified), assume the invariant.  Second arrival: prove the invariant again, end of path.
The havoc set is inferred: at the second arrival the reachable heap is compared with the havoced state, and the
whole proof restarts with a larger set when something else changed, until it is stable (fixpoint)."""
import os
import z3
from .core import ctx, Ctx, Unsupported, PathAbort, Restart, EngineExc
from . import values as V
from . import types as TY
from .types import VList, VDict, T, TInt, TBool, TReal, TBytes, TStr, TConst, TTuple, TOpt, TList, TRec, Rec, SOpaque, Choice
from . import models

_type = type


class NeedRole(EngineExc):
    """an invariant names a local that does not exist (renamed code): the prover tries the candidates"""
    def __init__(self, key, name, cands):
        super().__init__('%s needs local %s' % (key, name))
        self.key, self.name, self.cands = key, name, cands


class View:
    """what an invariant sees: locals, the loop index `_k` and sequence `_seq`, ghost state"""
    def __init__(self, d, L):
        self.__dict__['_d'] = d
        self.__dict__['_L'] = L

    def __getattr__(self, n):
        d = self._d
        if n in d:
            return d[n]
        L = self._L
        c = ctx()
        m = c.roles.get((L.key, n))
        if m is not None and m in d:
            return d[m]
        if m is not None:
            raise Unsupported('no local %s' % m)
        raise NeedRole(L.key, n, [x for x in d if not (x.startswith('_') and x not in ('_cur', '_k')) and x != 'self'
                                  and not callable(d[x])])

    def __getitem__(self, n):
        return getattr(self, n)

    def has(self, n):
        return n in self._d


class Missing(Exception):
    pass


class LoopSpec:
    def __init__(self, inv, types=None, where=None, name='inv', roles=None, entry=None, unroll=False):
        self.inv = inv                  # View -> list of (label, bool) or bool
        self.types = types or {}
        self.where = where              # suffix of the loop key, e.g. 'rldecode#0'
        self.name = name
        self.entry = entry              # called at first arrival (View) to record ghost values
        self.unroll = unroll
        self.roles = roles or {}        # role -> type tag, enables renaming of locals


class Native:
    """concrete loop"""
    __slots__ = ('it', 'x', 'n', 'key', 'forks', 'cut')

    def __init__(self, key, isfor, it):
        self.cut = False
        self.key = key
        self.n = 0
        self.forks = 0
        self.it = None
        if isfor:
            self.it = iter(it)

    def more(self):
        try:
            self.x = next(self.it)
            return True
        except StopIteration:
            return False

    def cur(self):
        return self.x

    def test(self, v):
        self.n += 1
        if self.n > 100000:
            raise Unsupported('loop runs too long: ' + self.key)
        if v is True or v is False:
            return v
        c = Ctx.cur
        if c is not None and _type(v) in (V.SBool, V.SInt) or isinstance(v, V.Sym):
            n0 = len(c.decisions)
            r = V.truth(v)
            if len(c.decisions) > n0:
                self.forks += 1
                if self.forks > 40:
                    raise Unsupported('loop without invariant: ' + self.key)
            return r
        return v


def begin(key, isfor, it, names):
    c = Ctx.cur
    if c is None or c.purelevel and False:
        return Native(key, isfor, it)
    spec = c.contract.loop_for(key, isfor) if c.contract is not None else None
    if isfor:
        if V.isinstance_(it, V.Sym) and not V.isinstance_(it, models.SymIter) or _type(it) is VList:
            if _type(it) is VList and it.el is None:
                it = models.LiveList(it)
                if not (spec and not spec.unroll and getattr(spec, 'force', False)):
                    return Native(key, isfor, it)
            else:
                it = models.SeqIter(it)
        if V.isinstance_(it, models.SymIter):
            n = it.length()
            if _type(n) is int and spec is None:
                return Native(key, isfor, it.enumerate_())
            if spec is not None and spec.unroll:
                return Native(key, isfor, it.enumerate_())
            if spec is None:
                try:
                    return Native(key, isfor, [it.at(k) for k in range(V.enum_int(n, 12))])
                except Unsupported:
                    pass
                spec = c.contract.pool_loop(key)
            if spec is None:
                raise Unsupported('no invariant for loop ' + key)
            return CutLoop(key, True, it, names, spec)
        return Native(key, isfor, it)
    if spec is not None and not spec.unroll:
        return CutLoop(key, False, None, names, spec)
    return Native(key, False, None)


# ------------------------------------------------------------------ heap walk
def heap_roots(d):
    out = []
    for k, v in d.items():
        if k.startswith('_vc'):
            continue
        out.append((k, v))
    g = Ctx.cur.ghost
    for k, v in g.items():
        out.append(('ghost.' + k, v))
    return out


def walk(d):
    """{path: (holder, key, value)} for every mutable cell reachable; VList/VDict contents are one cell"""
    cells = {}
    seen = set()

    def go(path, v, depth):
        t = _type(v)
        if depth > 6:
            return
        if t in (VList, VDict):
            if id(v) in seen:
                return
            seen.add(id(v))
            cells[path + '[]'] = (v, None, v)
            if t is VList and v.items is not None:
                for k, x in enumerate(v.items[:64]):
                    go('%s[%d]' % (path, k), x, depth + 1)
            elif t is VDict:
                for k, x in v.ps[:64]:
                    go('%s[%r]' % (path, k if not V.isinstance_(k, V.Sym) else '?'), x, depth + 1)
            return
        if t is tuple:
            for k, x in enumerate(v[:32]):
                go('%s[%d]' % (path, k), x, depth + 1)
            return
        m = getattr(t, '__module__', '')
        if (m.startswith('pdfmajor') or getattr(t, '_vc_heap', False)) and t is not type and hasattr(v, '__dict__'):
            if id(v) in seen:
                return
            seen.add(id(v))
            for k, x in list(v.__dict__.items()):
                cells['%s.%s' % (path, k)] = (v, k, x)
                go('%s.%s' % (path, k), x, depth + 1)
            return
        if t.__name__ == 'method':
            go(path + '.__self__', v.__self__, depth + 1)

    for k, v in heap_roots(d):
        go(k, v, 0)
    return cells


def snap(v):
    t = _type(v)
    if t is VList:
        return ('L', None if v.items is None else tuple(v.items), v.el, v.seq)
    if t is VDict:
        return ('D', tuple((k, x) for k, x in v.ps), v.base)
    return v


def same(a, b):
    if a is b:
        return True
    ta, tb = _type(a), _type(b)
    if ta is tuple and tb is tuple and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if ta is tb and ta in (int, str, bytes, float, bool, type(None)):
        return a == b and ta is tb
    if ta is tb and ta in (V.SInt, V.SBool, V.SReal, V.SBytes, V.SStr, SOpaque):
        return a.t.eq(b.t)
    if ta is Rec and tb is Rec:
        return all(same(x, y) for x, y in zip(a._f.values(), b._f.values()))
    if ta.__name__ == 'method' and tb.__name__ == 'method':
        return a.__self__ is b.__self__ and a.__func__ is b.__func__
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


# ------------------------------------------------------------------ havoc types
def type_of(v, hint=None):
    if hint is not None:
        return hint
    t = _type(v)
    if t in (bool, V.SBool):
        return TBool
    if t in (int, V.SInt):
        return TInt
    if t in (float, V.SReal):
        return TReal
    if t in (bytes, V.SBytes):
        return TBytes
    if t in (str, V.SStr):
        return TStr
    if t is tuple:
        return HTuple([type_of(x) for x in v])
    if t is VList:
        if v.el is not None:
            return TList(v.el)
        if v.hint is not None:
            return TList(v.hint)
        if v.items:
            try:
                return TList(TY.guess_type(v.items[0]))
            except Unsupported:
                return HShape(v)
        return TList(None_()) if False else HEmptyList()
    if t is Rec:
        return v._ty
    if t is SOpaque:
        return v.ty
    if t is VDict:
        return v.base.ty if _type(v.base) is TY.MapBase else HShape(v)
    if hasattr(t, '_vc_havoc'):
        return HAny(t)
    return TConst(v)


class HAny(T):
    """objects of a harness class: any instance (cls._vc_havoc(name) makes one)"""
    def __init__(self, cls):
        self.cls = cls
        self.name = 'any ' + cls.__qualname__

    def fresh(self, name):
        return self.cls._vc_havoc(name)


def None_():
    return TConst(None)


class HEmptyList(T):
    name = 'emptylist'


class HShape(T):
    """value must be the very same object/shape (no havoc)"""
    name = 'fixed'

    def __init__(self, v):
        self.v = v


class HItems(T):
    """python list of a fixed length, itemwise"""
    def __init__(self, *ts):
        self.ts = ts
        self.name = 'items(%s)' % ','.join(t.name for t in ts)

    def fresh(self, name):
        return VList([fresh(t, '%s.%d' % (name, k)) for k, t in enumerate(self.ts)])


class HTuple(T):
    """python tuple, componentwise"""
    def __init__(self, ts):
        self.ts = ts
        self.name = 'htup(%s)' % ','.join(t.name for t in ts)

    def fresh(self, name):
        return tuple(t.fresh('%s.%d' % (name, k)) for k, t in enumerate(self.ts))


def join(a, b):
    if a is b:
        return a
    if isinstance(a, HEmptyList):
        return b if isinstance(b, (TList, HEmptyList)) else None
    if isinstance(b, HEmptyList):
        return a if isinstance(a, TList) else None
    if isinstance(a, HTuple) and isinstance(b, HTuple) and len(a.ts) == len(b.ts):
        ts = [join(x, y) for x, y in zip(a.ts, b.ts)]
        return None if any(t is None for t in ts) else HTuple(ts)
    if isinstance(a, TConst) and isinstance(b, TConst):
        vals = list(a.vals)
        for v in b.vals:
            if TConst(*vals).unwrap(v) is None:
                vals.append(v)
        return TConst(*vals) if len(vals) <= 24 else None
    na, nb = a.name, b.name
    if na == nb:
        return a
    if {na, nb} == {'int', 'real'}:
        return TReal
    if {na, nb} == {'int', 'bool'}:
        return TInt
    if isinstance(a, TConst) and a.vals == [None]:
        return b if isinstance(b, HOpt) else HOpt(b)
    if isinstance(b, TConst) and b.vals == [None]:
        return a if isinstance(a, HOpt) else HOpt(a)
    if isinstance(a, HOpt) or isinstance(b, HOpt):
        x = a.ty if isinstance(a, HOpt) else a
        y = b.ty if isinstance(b, HOpt) else b
        j = join(x, y)
        return None if j is None else HOpt(j)
    return HUnion.of(a, b)


class HOpt(T):
    def __init__(self, ty):
        self.ty = ty
        self.name = 'hopt(%s)' % ty.name

    def fresh(self, name):
        if ctx().decide(2) == 0:
            return None
        return fresh(self.ty, name)


class HUnion(T):
    def __init__(self, ts):
        self.ts = ts
        self.name = 'union(%s)' % '|'.join(t.name for t in ts)

    @staticmethod
    def of(a, b):
        ts = []
        for x in (a, b):
            for y in (x.ts if isinstance(x, HUnion) else [x]):
                if y.name not in [t.name for t in ts]:
                    ts.append(y)
        return HUnion(ts) if len(ts) <= 6 else None

    def fresh(self, name):
        return fresh(self.ts[ctx().decide(len(self.ts))], name)


def fresh(ty, name):
    if isinstance(ty, HEmptyList):
        return VList()
    if isinstance(ty, HShape):
        return ty.v
    return ty.fresh(name)


def fits(ty, v):
    """the value belongs to the havoc type"""
    if isinstance(ty, HOpt):
        return v is None or fits(ty.ty, v)
    if isinstance(ty, HUnion):
        return any(fits(t, v) for t in ty.ts)
    if isinstance(ty, HTuple):
        return _type(v) is tuple and len(v) == len(ty.ts) and all(fits(t, x) for t, x in zip(ty.ts, v))
    if isinstance(ty, HItems):
        return _type(v) is VList and v.el is None and len(v.items) == len(ty.ts) and all(fits(t, x) for t, x in zip(ty.ts, v.items))
    if isinstance(ty, HEmptyList):
        return _type(v) is VList and v.el is None and not v.items
    if isinstance(ty, HShape):
        return v is ty.v
    if isinstance(ty, HAny):
        return type(v) is ty.cls
    if ty.name == 'int' and _type(v) in (bool, V.SBool):
        return False
    if ty.name == 'real' and _type(v) in (int, bool, V.SInt, V.SBool):
        return False
    if ty.name == 'real':
        return _type(v) in (float, V.SReal)
    if _type(v) is Choice:
        return False
    return ty.unwrap(v) is not None


def names_of(mod):
    return sorted(mod)


class CutLoop:
    cut = True

    def __init__(self, key, isfor, it, names, spec):
        self.key, self.isfor, self.it, self.names, self.spec = key, isfor, it, names, spec
        self.arrivals = 0
        self.idx, self.inc = 0, 1
        if isfor and V.isinstance_(it, models.RangeIter) and it.step_symbolic:
            it = self.it = models.StepIter(it)
            self.idx, self.inc = it.a, it.s
        self.first = self.idx
        self.state = ctx().loop_mod.setdefault(key, {})
        self.label = key.split(':')[-1]

    def view(self, d):
        d = dict(d)
        d['_k'] = self.idx
        if self.isfor:
            d['_seq'] = self.it
            d['_n'] = self.it.length()
            if V.isinstance_(self.it, (models.RangeIter, models.StepIter)):
                d['_cur'] = self.it.at(self.idx)
        for k, v in ctx().ghost.items():
            d.setdefault(k, v)
        d['_entry'] = View(getattr(self, 'entry_vals', {}), self)
        return View(d, self)

    def invs(self, d):
        c = ctx()
        r = self.spec.inv(self.view(d))
        if isinstance(r, (bool, V.SBool)):
            r = [('inv', r)]
        out = list(r)
        if self.isfor:
            out.append(self.range_fact())
        return out

    def range_fact(self):
        k = V.int_term(self.idx)
        n = V.int_term(self.it.length())
        if V.isinstance_(self.it, models.StepIter):
            a, st = V.int_term(self.first), V.int_term(self.inc)
            return ('range position', V.mkbool(z3.And(k >= a, z3.Or(k == a, k - st < n))))
        return ('0<=k<=n', V.mkbool(z3.And(k >= 0, k <= n)))

    def check(self, d, which):
        for label, g in self.call_inv(d):
            ctx().prove(g, '%s: loop invariant `%s` %s' % (self.label, label, which))

    def call_inv(self, d):
        try:
            return self.invs(d)
        except Missing as e:
            raise Unsupported('invariant of %s needs local %s' % (self.key, e))
        except Exception as e:
            if os.environ.get('VC_DEBUG'):
                import traceback
                traceback.print_exc()
            raise Unsupported('invariant of %s cannot be evaluated: %r' % (self.key, e))

    def head(self, d):
        c = ctx()
        d = {k: v for k, v in d.items() if not k.startswith('_vc')}
        self.arrivals += 1
        if self.arrivals == 1:
            self.entry_vals = dict(d)
            if self.spec.entry:
                self.spec.entry(self.view(d))
            self.check(d, 'holds on entry')
            return self.havoc(d)
        if self.arrivals == 2:
            if self.isfor:
                self.idx = self.idx + self.inc
            self.check_frame(d)
            self.check(d, 'is preserved')
            raise PathAbort('loop cut')
        raise Unsupported('third arrival')

    def hint(self, path):
        h = self.spec.types
        if path in h:
            return h[path]
        p = path[:-2] if path.endswith('[]') else path
        if p in h:
            return h[p]
        last = p.split('.')[-1]
        return h.get('*.' + last)

    def havoc(self, d):
        c = ctx()
        ret = {}
        nd = dict(d)
        st = self.state
        if self.isfor:
            self.idx = V.mkint(z3.Const(c.fresh_name('k'), z3.IntSort()))
        # locals assigned in the body
        for n in self.names:
            if n not in d:
                continue
            ty = st.get(n)
            h = self.hint(n)
            if ty is None:
                ty = st[n] = h or type_of(d[n])
            elif not fits(ty, d[n]):
                self.widen(n, d[n])
            if _type(d[n]) is VList or _type(d[n]) is VDict and isinstance(ty, TY.TMap):
                continue            # the object may be shared: its contents are havoced below; rebinding handled there
            v = fresh(ty, n)
            ret[n] = nd[n] = v
        # heap cells
        cells = walk(d)
        rebound = {}
        for path in sorted(p for p in st if ('.' in p or '[' in p)):
            ty = st[path]
            if path not in cells:
                continue
            holder, k, v = cells[path]
            if path.endswith('[]'):
                if _type(v) is VList:
                    if not fits(ty, v):
                        self.widen(path, v)
                    f = fresh(ty, path)
                    if f is not v:
                        v.become(f)
                elif _type(v) is VDict and isinstance(ty, TY.TMap):
                    if not fits(ty, v):
                        self.widen(path, v)
                    v.become(fresh(ty, path))
                else:
                    raise Unsupported('havoc of %s' % path)
            else:
                if _type(v) is VList and (path + '[]') in st:
                    continue
                if not fits(ty, v):
                    self.widen(path, v)
                holder.__dict__[k] = fresh(ty, path)
        for n in self.names:
            if n in d and _type(d[n]) is VList and st.get(n + '!rebind'):
                ty = st[n + '[]']
                ret[n] = nd[n] = fresh(ty, n)
        self.base = {p: snap(x[2]) for p, x in walk(nd).items()}
        self.base_locals = dict(nd)
        if self.isfor:
            c.assume(self.range_fact()[1])
        for label, g in self.call_inv(nd):
            c.assume(g)
        self.nd = nd
        return ret

    def widen(self, path, v):
        st = self.state
        old = st.get(path)
        new = self.hint(path) or type_of(v)
        j = new if old is None else join(old, new)
        if j is None:
            raise Unsupported('no common type for %s in loop %s: %s / %s' % (path, self.key, old, new))
        if old is not None and j.name == old.name and not isinstance(j, TConst):
            raise Unsupported('%s does not fit %s in loop %s: %r' % (path, old, self.key, v))
        st[path] = j
        raise Restart('%s: %s' % (self.key, path))

    def check_frame(self, d):
        st = self.state
        for n in self.names:
            if n not in d:
                continue
            if n not in st:
                if n in self.base_locals:
                    self.widen(n, d[n])
                continue
            if n in self.base_locals and _type(self.base_locals[n]) is VList:
                if _type(d[n]) is VList:
                    if d[n] is not self.base_locals[n] and not st.get(n + '!rebind'):
                        st[n + '!rebind'] = True
                        st.setdefault(n + '[]', self.hint(n) or join(type_of(self.base_locals[n]), type_of(d[n])))
                        raise Restart(n)
                    if st.get(n + '!rebind') and not fits(st[n + '[]'], d[n]):
                        self.widen(n + '[]', d[n])
                    continue
            if not fits(st[n], d[n]):
                self.widen(n, d[n])
        cells = walk(d)
        for p, (holder, k, v) in cells.items():
            if p not in self.base:
                continue
            root = p.split('.')[0].split('[')[0]
            if st.get(root + '!rebind'):
                continue
            if same(self.base[p], snap(v)):
                continue
            if p not in st:
                if p + '[]' in st and _type(v) is VList:
                    # rebound list attribute
                    if not fits(st[p + '[]'], v):
                        self.widen(p + '[]', v)
                    continue
                if _type(v) is VList and not p.endswith('[]'):
                    self.widen(p + '[]', v)
                self.widen(p, v)
            elif not fits(st[p], v):
                self.widen(p, v)

    def more(self):
        c = ctx()
        k, n = V.int_term(self.idx), V.int_term(self.it.length())
        return V.truth(V.mkbool(k < n))

    def cur(self):
        return self.it.at(self.idx)

    def test(self, v):
        return V.truth(v)
