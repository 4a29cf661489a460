"""Core of the verifier: path exploration by decision replay, solver queries, obligations.

The code under proof is the real source of /repo, instrumented mechanically (instrument.py) and executed by
CPython on symbolic proxies (values.py).  A branch on a symbolic condition asks `Ctx.branch`; the explorer
re-executes the function once per feasible decision sequence.  Loops over symbolic data are cut at their head
with an inductive invariant (loops.py).
"""
import time, itertools, hashlib, sys
import z3

I = z3.IntSort()
B = z3.BoolSort()
RS = z3.RealSort()


class EngineExc(BaseException):
    """Engine control flow; never caught by the code under proof (`except:` is rewritten)."""


class PathAbort(EngineExc):
    pass


class Unsupported(EngineExc):
    pass


class Restart(EngineExc):
    """Havoc set of a loop grew: prove the contract again."""


class SpecUndef(EngineExc):
    pass


class Failure(Exception):
    pass


# ---------------------------------------------------------------- global axioms (theories)
class Theories:
    axioms = []          # list of (z3 formula)
    names = set()


def add_theory_axioms(fs):
    Theories.axioms.extend(fs)


# ---------------------------------------------------------------- context
class Ob:
    __slots__ = ('name', 'status', 'backend', 'secs', 'model', 'detail', 'path', 'inputs')

    def __init__(self, name):
        self.name = name
        self.status = None
        self.backend = ''
        self.secs = 0.0
        self.model = None
        self.detail = ''
        self.path = ''
        self.inputs = None


class Ctx:
    cur = None

    def __init__(self, timeout_ms=8000, feas_timeout_ms=1500):
        self.timeout = timeout_ms
        self.feas_timeout = feas_timeout_ms
        self.obs = []
        self.solver_secs = 0.0
        self.n_queries = 0
        self.deadline = None
        self.cache = {}
        self.known_bytes = {}
        self.frames = []
        self.max_paths = 4000
        self.paths = 0
        self.notes = set()
        self.loop_mod = {}      # loop key -> {path: type}    (persist across restarts)
        self.loop_force = set()
        self.roles = {}
        self.contract = None
        self.inputs = None
        self.input_types = None
        self.trusted = set()
        self.stop_on_fail = False
        self.feas_memo = {}
        self.reset_path([])

    # -- per path state
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []
        self.ax = []
        self.counter = 0
        self.local = []         # guards of the current pure() nest
        self.memo = {}
        self.ghost = {}
        self.purelevel = 0
        self.touched = {}

    def fresh_name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    # -- assertions
    def axiom(self, f):
        """A fact valid under the current path condition (definitional)."""
        if self.local:
            f = z3.Implies(z3.And(*self.local) if len(self.local) > 1 else self.local[0], f)
        self.ax.append(f)

    def assume(self, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            raise PathAbort('assume false')
        if self.local:
            self.ax.append(z3.Implies(z3.And(*self.local), c))
            self.local.append(c)
        else:
            self.pc.append(c)

    def facts(self):
        return self.pc + self.local

    # -- solver
    def query(self, extra, timeout, want_model=False, seed=1):
        """check sat of facts + axioms + extra"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the proof exhausted')
        fs = self.ax + self.pc + self.local + list(extra)
        key = None
        if not want_model:
            key = tuple(f.get_id() for f in fs)
            if key in self.cache:
                return self.cache[key][0], None
        t = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout))
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('random_seed', seed)
        for a in Theories.axioms:
            s.add(a)
        for f in fs:
            s.add(f)
        r = s.check()
        dt = time.time() - t
        self.solver_secs += dt
        self.n_queries += 1
        res = 'unsat' if r == z3.unsat else ('sat' if r == z3.sat else 'unknown')
        m = None
        if want_model and r != z3.unsat:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
            self.last_reason = s.reason_unknown() if r == z3.unknown else ''
        if key is not None:
            self.cache[key] = (res, fs)     # keep fs alive so ids stay unique
        self.last_solver = s
        return res, m

    def entails(self, c):
        """True if the facts imply c (used by the engine to simplify; never reported as an obligation)."""
        c = tobool(c)
        if c is True:
            return True
        if c is False:
            return False
        r, _ = self.query([z3.Not(c)], self.feas_timeout)
        return r == 'unsat'

    def feasible(self, c=None):
        ex = [] if c is None else [c]
        r, _ = self.query(ex, self.feas_timeout)
        return r != 'unsat'

    # -- decisions
    def decide(self, n, feas=None, what=''):
        """n-way nondeterministic choice; feas(i) -> bool prunes."""
        k = len(self.decisions)
        if k < len(self.prefix):
            ch, alts = self.prefix[k]
            self.decisions.append((ch, alts))
            return ch
        if len(self.decisions) > 600:
            raise Unsupported('path too long (a loop without invariant?)')
        alts = [i for i in range(n) if feas is None or feas(i)]
        if not alts:
            raise PathAbort('infeasible')
        self.decisions.append((alts[0], alts[1:]))
        return alts[0]

    def branch(self, c):
        c = tobool(c)
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.Not(c)
        i = self.decide(2, lambda i: self.feasible(c if i == 0 else nc))
        t = c if i == 0 else nc
        if self.local or self.purelevel:
            self.local.append(t)
        else:
            self.pc.append(t)
        return i == 0

    def choose(self, n, what=''):
        return self.decide(n)

    # -- obligations
    def prove(self, c, name):
        """Obligation: the facts imply c.  Afterwards c is assumed."""
        ob = Ob(name)
        self.obs.append(ob)
        t = time.time()
        c = tobool(c)
        if c is True:
            ob.status, ob.backend = 'ok', 'evaluation'
            return True
        r, m = ('', None)
        ng = z3.BoolVal(True) if c is False else z3.Not(c)
        r, m = self.query([ng], self.timeout, want_model=True)
        ob.backend = 'z3'
        if r == 'unknown' and self.retries < 4 and ('timeout' in self.last_reason or 'cancel' in self.last_reason):
            # a slow machine: another attempt with more time
            self.retries += 1
            r, m = self.query([ng], 4 * self.timeout, want_model=True, seed=7)
        if r == 'unknown':
            r2 = self.cvc5([ng])
            if r2 == 'unsat':
                r, ob.backend = 'unsat', 'cvc5'
        ob.secs = time.time() - t
        if r == 'unsat':
            ob.status = 'ok'
        else:
            ob.status = 'fail'
            ob.detail = r + (' (%s)' % self.last_reason if r == 'unknown' else '')
            ob.model = m
            ob.path = self.describe()
            if m is not None and self.inputs is not None and self.contract is not None:
                try:
                    ob.inputs = self.contract.concretise(m, self.inputs)
                except (Exception, EngineExc) as e:       # noqa
                    ob.inputs = None
            if self.stop_on_fail:
                raise StopProof()
        if c is False:
            raise PathAbort('after failed obligation')
        if self.local or self.purelevel:
            pass
        else:
            self.pc.append(c)
        return ob.status == 'ok'

    use_cvc5 = False
    retries = 0

    def cvc5(self, extra):
        if not self.use_cvc5:
            return 'unknown'
        import subprocess, tempfile, os
        txt = '(set-logic ALL)\n' + self.last_solver.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.timeout, f.name], capture_output=True, text=True)
            return p.stdout.strip().split('\n')[0]
        except Exception:
            return 'unknown'
        finally:
            os.unlink(f.name)

    def describe(self):
        s = []
        for f in self.pc[-14:]:
            s.append(str(f).replace('\n', ' ')[:220])
        return ' /\\ '.join(s)


class StopProof(EngineExc):
    pass


def tobool(c):
    if c is True or c is False:
        return c
    t = getattr(c, 't', None)
    if t is not None:
        c = t
    if isinstance(c, z3.BoolRef):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c
    if isinstance(c, z3.ExprRef):
        raise Failure('not boolean: %s' % c)
    return bool(c)


def ctx():
    return Ctx.cur


def explore(c, run, on_path=None):
    """Run `run()` once per feasible decision sequence."""
    prefix = []
    n = 0
    while True:
        c.reset_path(prefix)
        n += 1
        c.paths += 1
        if c.paths > c.max_paths:
            raise Unsupported('too many paths')
        try:
            run()
        except PathAbort:
            pass
        ds = c.decisions
        while ds and not ds[-1][1]:
            ds.pop()
        if not ds:
            return n
        ch, alts = ds[-1]
        prefix = ds[:-1] + [(alts[0], alts[1:])]


def pure(fn):
    """Evaluate fn under every local decision sequence and merge the results into one value (no side effects)."""
    from . import values as V
    c = Ctx.cur
    if c is None:
        return fn()
    saved_prefix, saved_dec = c.prefix, c.decisions
    base_local = list(c.local)
    results = []
    prefix = []
    c.purelevel += 1
    try:
        while True:
            c.prefix, c.decisions = prefix, []
            c.local = list(base_local)
            try:
                r = fn()
                results.append((c.local[len(base_local):], r))
            except PathAbort:
                pass
            except Exception as e:
                # a Python exception on a local branch: the value is undefined there
                if base_local or True:
                    results.append((c.local[len(base_local):], Raises(e)))
            if len(results) > 300:
                raise Unsupported('pure: too many branches')
            ds = c.decisions
            while ds and not ds[-1][1]:
                ds.pop()
            if not ds:
                break
            ch, alts = ds[-1]
            prefix = ds[:-1] + [(alts[0], alts[1:])]
    finally:
        c.purelevel -= 1
        c.prefix, c.decisions = saved_prefix, saved_dec
        c.local = base_local
    if not results:
        raise PathAbort('pure: no feasible branch')
    bad = [r for r in results if isinstance(r[1], Raises)]
    if bad and len(bad) < len(results):
        # perhaps the short time for branches was not enough to see that it cannot happen
        def possible(facts):
            c.local = base_local + list(facts)
            try:
                return c.query([z3.BoolVal(True)], 15000)[0] != 'unsat'
            finally:
                c.local = base_local
        results = [r for r in results if not isinstance(r[1], Raises) or possible(r[0])]
        bad = [r for r in results if isinstance(r[1], Raises)]
    if bad:
        if len(bad) == len(results):
            raise bad[0][1].exc
        raise Unsupported('exception %r on a branch of a merged evaluation' % (bad[0][1].exc,))
    return V.merge(results)


class Raises:
    def __init__(self, exc):
        self.exc = exc
