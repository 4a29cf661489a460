"""Contracts, specification functions, lemmas; the prover and the concrete replay/search sides."""
import sys, time, random, traceback, importlib, json, os
import z3
from . import core
from .core import Ctx, ctx, Unsupported, PathAbort, Restart, StopProof, EngineExc, explore, pure
from . import values as V
from . import types as TY
from .types import (T, TInt, TBool, TReal, TNum, TBytes, TStr, TConst, TTuple, TOpt, TList, TMap, TRec, TDict, TRange, TSort, TAny, TObj, TSet, TIntSet, Rec, VList,
                    VDict, Choice, eq, concrete, contains_sym)
from .loops import LoopSpec, Missing
from . import models, hooks
from .loops import HItems

_type = type
_fun = type(lambda: 0)


# ------------------------------------------------------------------ mode-independent helpers used by specifications
def symbolic():
    return Ctx.cur is not None


def AND(*xs):
    if symbolic():
        return V.and_(*[x() if _type(x) is _fun else x for x in xs])
    return all(x() if callable(x) else x for x in xs)


def OR(*xs):
    if symbolic():
        return V.or_(*[x() if _type(x) is _fun else x for x in xs])
    return any(x() if callable(x) else x for x in xs)


def NOT(x):
    return V.not_(x) if symbolic() else not x


def IMP(a, b):
    if symbolic():
        return V.implies(a, b)
    return (b() if callable(b) else b) if a else True


def EQ(a, b):
    if symbolic():
        return eq(a, b)
    return ceq(a, b)


def ceq(a, b):
    """concrete equality; 1 == 1.0, lists/tuples by kind, NaN-free"""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        return False
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(ceq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(ceq(a[k], b[k]) for k in a)
    if type(a) is Rec and type(b) is Rec:
        return a._ty is b._ty and all(ceq(x, y) for x, y in zip(a._f.values(), b._f.values()))
    if type(a) in (bytes, str, int, float, type(None)) and type(a) is not type(b):
        return False
    return bool(a == b)


def ITE(c, a, b):
    if symbolic():
        return V.ite(c if _type(c) in (bool, V.SBool) else V.mkbool(V.tob(c)), a, b)
    return a if c else b


def LEN(x):
    return models.m_len(x) if symbolic() else len(x)


def SL(s, a=None, b=None):
    """s[a:b]"""
    return hooks.getitem(s, slice(a, b, None)) if symbolic() else s[a:b]


def SETADD(s, x):
    """s with x; s is a value of a TSet type (concretely a frozenset)"""
    if symbolic():
        return TY.SOpaque(s.ty, z3.Store(s.t, s.ty.el.unwrap(x), z3.BoolVal(True)))
    return s | {x}


def SETHAS(s, x):
    return V.mkbool(z3.Select(s.t, s.ty.el.unwrap(x))) if symbolic() else x in s


def SETNONE(ty):
    return ty.wrap(ty.empty()) if symbolic() else frozenset()


def AT(s, k):
    """s[k] for 0 <= k < len(s); unspecified (no exception) outside in symbolic mode"""
    if not symbolic():
        return s[k]
    if V.isinstance_(s, V.SSeq) or (_type(s) in (bytes, str) and V.isinstance_(k, V.Sym)):
        return V.lift(s).at(V.int_term(k))
    if _type(s) is VList and s.el is not None:
        return s.el.wrap(s.th.index(s.seq, V.int_term(k)))
    if _type(s) is VList and s.el is None and s.hint is not None:
        if not (_type(k) is int and 0 <= k < len(s.items)):
            th = TList(s.hint).th
            return s.hint.wrap(th.index(s.asterm(s.hint), V.int_term(k)))
    if _type(s) in (bytes, str, list, tuple) and not (0 <= k < len(s)):
        return V.SInt(z3.Const(ctx().fresh_name('oob'), z3.IntSort()))
    return hooks.getitem(s, k)


def B1(x):
    """one-byte bytes from an int in 0..255"""
    if _type(x) is int:
        return bytes([x])
    return V.mkseq_bytes(V.BYTES.unit(V.int_term(x)))


def REP(b, n):
    """n copies of the byte string b (n >= 0)"""
    return b * n


def TYPED(ty, v):
    """v as a symbolic value of the given type"""
    return ty.wrap(ty.unwrap(v)) if symbolic() else v


def FORCE(x):
    """resolve a merged value by cases"""
    return x.force() if _type(x) is Choice else x


def mkfile(data, pos=0):
    """binary file at position pos"""
    if symbolic():
        return models.SFile(data, pos)
    import io
    f = io.BytesIO(data)
    f.seek(pos)
    return f


def fpos(fp):
    return fp.pos if _type(fp) is models.SFile else fp.tell()


def LST(*xs):
    return VList(xs) if symbolic() else list(xs)


def FORALL(n, f, name='q'):
    """forall k in [0, n): f(k).  n may be symbolic."""
    if not symbolic():
        return all(f(k) for k in range(n))
    if _type(n) is int:
        return V.and_(*[f(k) for k in range(n)])
    c = ctx()
    k = z3.Const(c.fresh_name('qk'), z3.IntSort())
    n0 = len(c.ax)
    sv = list(c.local)
    c.local = sv + [k >= 0, k < V.int_term(n)]
    c.purelevel += 1
    try:
        v = pure(lambda: f(V.SInt(k)))
    finally:
        c.purelevel -= 1
        c.local = sv
    new = c.ax[n0:]
    if any(_mentions(a, k) for a in new):
        raise Unsupported('quantified body needs auxiliary facts')
    pats = []
    body = z3.Implies(z3.And(k >= 0, k < V.int_term(n)), V.tob(v))
    p = _idx_pattern(V.tob(v), k)
    return V.mkbool(z3.ForAll([k], body, patterns=p) if p else z3.ForAll([k], body))


def _mentions(t, k):
    out = []
    models._consts(t, out, set())
    return any(x.eq(k) for x in out)


def _idx_pattern(t, k):
    found = []
    seen = set()

    def clean(x):
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
                return False
            return all(clean(ch) for ch in x.children())
        return True

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 2 and x.decl().name().endswith('.idx') and x.arg(1).eq(k) and clean(x):
                found.append(x)
            for ch in x.children():
                go(ch)
    go(t)
    return found[:3]


# ------------------------------------------------------------------ recursive specification functions
class spec_fn:
    """@spec_fn((TBytes, TInt), TBytes): recursive specification function.  Concretely: the Python function (memoised on
    demand).  Symbolically: an uninterpreted function, unfolded once at every application made by a specification."""
    depth = 0

    def __init__(self, args, ret, fuel=1):
        self.args, self.ret, self.fuel = args, ret, fuel

    def __call__(self, f):
        self.f = f
        self.name = f.__name__
        self.decl = None
        g = lambda *a: self.apply(a)
        g.__name__ = f.__name__
        g.__module__ = f.__module__
        g.spec = self
        g.app = lambda *a: self.term(a)[0]      # application without unfolding
        return g

    def term(self, a):
        if self.decl is None:
            self.decl = z3.Function('spec.' + self.f.__module__ + '.' + self.name, *[t.sort for t in self.args], self.ret.sort)
        ts = []
        for ty, x in zip(self.args, a):
            if _type(x) is Choice:
                x = x.force()
            t = ty.unwrap(x)
            if t is None:
                raise Unsupported('argument of %s: %r is not %s' % (self.name, x, ty))
            ts.append(t)
        r = self.decl(*ts)
        return self.ret.wrap(r) if not isinstance(self.ret, TOpt) else r, r

    def apply(self, a):
        if not symbolic():
            return self.f(*a)
        c = ctx()
        w, r = self.term(a)
        key = ('unfold', r.get_id(), tuple(x.get_id() for x in c.local))
        fuel = spec_fn.depth
        if key not in c.memo and fuel < self.fuel:
            c.memo[key] = r
            for d in self.ret.domain(r):
                c.axiom(d)
            spec_fn.depth += 1
            try:
                v = pure(lambda: self.f(*a))
            finally:
                spec_fn.depth -= 1
            if not isinstance(v, Undefined):
                t = self.ret.unwrap(v)
                if t is None:
                    raise Unsupported('result of %s: %r is not %s' % (self.name, v, self.ret))
                c.axiom(self.ret.term_eq(r, t) if False else r == t)
        if isinstance(self.ret, TOpt):
            return self.ret.wrap(r)
        return w


def HASKEY(ty, d, k):
    """the TMap-typed dict d has key k"""
    return ty.at(d, k)[0]


def VALKEY(ty, d, k):
    return ty.at(d, k)[1]


class UF:
    """uninterpreted function: an arbitrary function of its arguments (the contract of an abstracted callee)"""
    def __init__(self, name, args, ret):
        self.args, self.ret = args, ret
        self.decl = z3.Function('uf.' + name, *[t.sort for t in args], ret.sort)

    def __call__(self, *a):
        ts = []
        for ty, x in zip(self.args, a):
            if _type(x) is Choice:
                x = x.force()
            t = ty.unwrap(x)
            if t is None:
                raise Unsupported('argument of an abstracted callee: %r is not %s' % (x, ty))
            ts.append(t)
        r = self.decl(*ts)
        if symbolic():
            for d in self.ret.domain(r):
                ctx().axiom(d)
        return self.ret.wrap(r)


def ITEM(ty, lst, i):
    """i-th element of a list of TTuple type `ty`, each component as an undecoded term: (term, ...)"""
    t = TList(ty).th.index(lst.seq if lst.el is not None and lst.el.sort == ty.sort else lst.asterm(ty), V.int_term(i))
    return tuple(a(t) for a in ty.acc)


def RSL(s, a, b):
    """s[a:b] for 0 <= a <= b <= len(s) (no index normalisation)"""
    if not symbolic():
        return s[a:b]
    s = V.lift(s)
    return TBytes.wrap(s.th.slice(s.t, V.int_term(a), V.int_term(b)))


def LEAST(xs):
    return models.m_min(list(xs)) if symbolic() else min(xs)


def GREATEST(xs):
    return models.m_max(list(xs)) if symbolic() else max(xs)


def HAVE(g, label='intermediate step'):
    """prove now, use from here on"""
    if symbolic():
        c = ctx()
        c.prove(g, '%s: %s' % (c.contract.name, label))
        c.assume(g)


def EXT(*xs):
    """extensionality for every two of these sequences (a hint: adds only the ground axiom, assumes nothing)"""
    if symbolic():
        for k, a in enumerate(xs):
            for b in xs[:k]:
                EQ(a, b)


class Undefined:
    pass


def no_unfold(f, *a):
    return f.app(*a)


# ------------------------------------------------------------------ contracts
class Contract:
    """One contract on real code.  Subclasses define:
       inputs(self)            -> dict name -> (type descriptor)      [symbolic inputs]
       requires(self, **inp)   -> bool                                 [precondition on the inputs]
       run(self, **inp)        -> observable outcome; calls the real code      (or yields outcome by `outcome`)
       ensures(self, out, **inp) -> list of (label, bool)
       gen(self, rng)          -> dict of concrete inputs for the falsifying search
       loops                   -> list of LoopSpec
       callees                 -> {qualname: handler} contracts used at call sites instead of bodies
    """
    name = '?'
    target = ()             # functions under contract, 'module:qualname'
    loops = ()
    callees = {}
    search_n = 3000
    timeout_ms = 8000
    budget_s = 240
    level = 'proof'
    bounded = None          # text of the bound if this is a bounded stand-in
    assumptions = ()
    unfold = 1
    internal = False        # about private state: never replayed as a failing input of the property

    def inputs(self):
        return {}

    def requires(self, **inp):
        return True

    def gen(self, rng):
        return None

    def corpus(self):
        return []

    # ---- helpers for run()
    def mod(self, name):
        m = sys.modules.get(name)
        if m is None:
            sv, Ctx.cur = Ctx.cur, None
            try:
                m = importlib.import_module(name)
            finally:
                Ctx.cur = sv
        return m

    def outcome(self, f, *a, **kw):
        """('ok', value) or ('exc', exception class name)"""
        try:
            r = hooks.call(f, *a, **kw) if symbolic() else f(*a, **kw)
            return ('ok', r)
        except Exception as e:
            return ('exc', type(e).__name__)

    # ---- loops
    def loop_for(self, key, isfor):
        for s in self.loops:
            if s.where is not None and key.endswith(s.where):
                s.used = True
                return s
        if not isfor:
            if key in ctx().loop_force:
                return self.pool_loop(key)
        return None

    def pool_loop(self, key):
        from .instrument import ALL_KEYS
        m = ctx().pool_map
        if key in m:
            return m[key]
        used = set(id(s) for s in m.values())
        for s in self.loops:
            if s.where is not None and any(k.endswith(s.where) for k in ALL_KEYS):
                continue
            if id(s) not in used and not s.unroll:
                m[key] = s
                return s
        return None

    def concretise(self, m, inp):
        out = {}
        for k, (ty, v) in inp.items():
            if isinstance(ty, T):
                t = ty.unwrap(v)
                out[k] = ty.conc(m, t)
            else:
                out[k] = v
        return out

    # ---- prove
    def one_path(self):
        c = ctx()
        c.ghost = {}
        ins = self.inputs()
        vals = {}
        c.inputs = {}
        for k, ty in ins.items():
            v = ty.fresh(k) if isinstance(ty, T) else ty
            vals[k] = v
            c.inputs[k] = (ty, v)
        c.assume(self.requires(**vals))
        out = self.run(**vals)
        c.ghost['$reached'] = True
        self.reached = True
        for label, g in self.ensures(out, **vals):
            c.prove(g() if callable(g) else g, '%s: ensures %s' % (self.name, label))

    def prove(self, timeout_ms=None, budget_s=None):
        """Prove; when invariants name locals the code no longer has, try role assignments for them."""
        from .loops import NeedRole
        t0 = time.time()
        try:
            return self.prove1({}, timeout_ms, budget_s)
        except NeedRole as e:
            stack = [({(e.key, e.name): x}) for x in reversed(e.cands)]
            first = None
        tries = 0
        while stack and tries < 120 and time.time() - t0 < (budget_s or self.budget_s):
            roles = stack.pop()
            tries += 1
            try:
                r = self.prove1(roles, timeout_ms, 60, stop_on_fail=True)
            except NeedRole as e:
                used = set(v for k, v in roles.items() if k[0] == e.key)
                stack += [dict(roles, **{}) | {(e.key, e.name): x} for x in reversed(e.cands) if x not in used]
                continue
            if r['status'] == 'ok':
                r['roles'] = {'%s %s' % k: v for k, v in roles.items()}
                return r
            if first is None or (first['error'] and not r['error']) or r['n_discharged'] > first['n_discharged']:
                first = r
        if first is None:
            first = {'name': self.name, 'target': list(self.target), 'status': 'error', 'obs': {}, 'n_obligations': 0,
                     'n_discharged': 0, 'fails': [], 'paths': 0, 'queries': 0, 'solver_s': 0, 'bounded': self.bounded,
                     'error': 'no assignment of locals to the roles of the invariants'}
        first['wall_s'] = round(time.time() - t0, 3)
        return first

    def prove1(self, roles, timeout_ms=None, budget_s=None, stop_on_fail=False):
        from .loops import NeedRole
        t0 = time.time()
        res = {'name': self.name, 'target': list(self.target), 'status': 'ok', 'obs': [], 'error': None,
               'bounded': self.bounded}
        loop_mod = {}
        restarts = 0
        c = None
        self.reached = False
        pool = {}
        force = set()
        try:
            while True:
                c = Ctx(timeout_ms or self.timeout_ms)
                c.contract = self
                c.roles = roles
                c.pool_map = pool
                c.loop_mod = loop_mod
                c.loop_force = force
                c.stop_on_fail = stop_on_fail
                c.deadline = t0 + (budget_s or self.budget_s)
                Ctx.cur = c
                hooks.overrides = dict(self.callees)
                try:
                    explore(c, self.one_path)
                    break
                except Restart as e:
                    restarts += 1
                    if restarts > 60:
                        raise Unsupported('havoc sets do not stabilise: %s' % e)
                except Unsupported as e:
                    if str(e).startswith('loop without invariant: ') and len(force) < 6:
                        k = str(e)[len('loop without invariant: '):]
                        if k not in force:
                            force.add(k)
                            continue
                    raise
        except StopProof:
            pass
        except Unsupported as e:
            res['error'] = 'outside the verified subset or budget: %s' % e
        except NeedRole:
            raise
        except EngineExc as e:
            res['error'] = '%s: %s' % (type(e).__name__, e)
        except Missing as e:
            res['error'] = 'invariant refers to missing local %s' % e
        except RecursionError as e:
            res['error'] = 'recursion'
        except Exception as e:
            res['error'] = 'exception while proving: %s' % ''.join(traceback.format_exception(e)[-6:])
        finally:
            Ctx.cur = None
            hooks.overrides = {}
        res['paths'] = c.paths
        res['queries'] = c.n_queries
        res['solver_s'] = round(c.solver_secs, 3)
        res['wall_s'] = round(time.time() - t0, 3)
        res['restarts'] = restarts
        agg = {}
        fails = []
        for o in c.obs:
            a = agg.setdefault(o.name, {'n': 0, 'ok': 0, 'secs': 0.0, 'back': {}})
            a['n'] += 1
            a['secs'] += o.secs
            a['back'][o.backend] = a['back'].get(o.backend, 0) + 1
            if o.status == 'ok':
                a['ok'] += 1
            else:
                fails.append(o)
        res['obs'] = agg
        res['n_obligations'] = len(c.obs)
        res['n_discharged'] = sum(1 for o in c.obs if o.status == 'ok')
        res['fails'] = [{'obligation': o.name, 'detail': o.detail, 'path': o.path, 'inputs': enc(o.inputs),
                         'model': str(o.model)[:3000] if o.model is not None else None} for o in fails[:8]]
        if fails:
            res['status'] = 'fail'
        if res['error']:
            res['status'] = 'error'
        elif not c.obs or not self.reached:
            res['status'] = 'error'
            res['error'] = 'vacuous: no obligation generated (or no path reaches the postcondition)'
        return res

    # ---- concrete check of one input on the pristine code: None if fine, else text
    def check_concrete(self, inp):
        lim = sys.getrecursionlimit()
        sys.setrecursionlimit(150000)
        try:
            try:
                if not self.requires(**inp):
                    return None
            except Exception as e:
                self.pre_errors = getattr(self, 'pre_errors', 0) + 1
                self.pre_error = repr(e)[:300]
                return None
            self.accepted = getattr(self, 'accepted', 0) + 1
            sys.setrecursionlimit(lim)
            out = self.run(**inp)
            sys.setrecursionlimit(150000)
            return self.judge(out, inp)
        finally:
            sys.setrecursionlimit(lim)

    def judge(self, out, inp):
        bad = []
        for label, g in self.ensures(out, **inp):
            if callable(g):
                g = g()
            if not g:
                bad.append(label)
        if bad:
            return 'violated: %s; outcome %r; %s' % (', '.join(bad), short(out), self.explain(out, **inp))
        return None

    def explain(self, out, **inp):
        return ''


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Lemma(Contract):
    """A ghost lemma: `vars`, `requires`, `ensures`, `decreases`, `proof`."""
    measure = None

    def inputs(self):
        return self.vars

    def claim(self, **v):
        raise NotImplementedError

    def pre(self, **v):
        return True

    def proof(self, **v):
        return None

    def run(self, **v):
        self.current = v
        self.proof(**v)
        return None

    def requires(self, **v):
        return self.pre(**v)

    def ensures(self, out, **v):
        return [('claim', self.claim(**v))]

    def __call__(self, **v):
        """use the lemma: prove its precondition, assume its claim; inside its own proof also the measure decreases"""
        if not symbolic():
            return
        c = ctx()
        c.prove(self.pre(**v), 'lemma %s: precondition' % self.name)
        if c.contract is self:
            m0, m1 = self.measure(**self.current), self.measure(**v)
            c.prove(AND(m1 >= 0, m1 < m0), 'lemma %s: induction measure decreases' % self.name)
        c.assume(self.claim(**v))


def enc(x):
    """JSON-able encoding of concrete inputs"""
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    if isinstance(x, (bytes, bytearray)):
        return {'$b': bytes(x).hex()}
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, tuple):
        return {'$t': [enc(y) for y in x]}
    if isinstance(x, dict):
        return {'$d': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, Rec):
        return {'$r': x._ty.name, 'f': [[k, enc(v)] for k, v in x._f.items()]}
    return {'$o': repr(x)}


def dec(x, recs=()):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        if '$b' in x:
            return bytes.fromhex(x['$b'])
        if '$t' in x:
            return tuple(dec(y) for y in x['$t'])
        if '$d' in x:
            return {dec(k): dec(v) for k, v in x['$d']}
        if '$o' in x:
            raise ValueError('opaque')
        if '$r' in x:
            raise ValueError('record')
    return x
