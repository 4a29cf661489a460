"""Paths: the segments that operators add, and the items that painting makes of them."""
from vc.contract import *
from .interp import *
from .c14_gstate import mul, reals, Page, num, write_ops, close, PAINT, IDENT, nearest

M = 'pdfmajor.utils.matrix'
INF = 2 ** 31 - 1
NPT = dict(m=1, l=1, c=3, v=2, y=2, h=0)
NARG = dict(m=2, l=2, c=6, v=4, y=4, h=0, re=4)


def at(m, x, y):
    a, b, c, d, e, f = m
    return (a * x + c * y + e, b * x + d * y + f)


def segments(op, x):
    """segments of an operator: kind and points, in user space"""
    if op == 're':
        a, b, w, h = x
        return [('m', (a, b)), ('l', (a + w, b)), ('l', (a + w, b + h)), ('l', (a, b + h)), ('h',)]
    return [(op,) + tuple((x[2 * i], x[2 * i + 1]) for i in range(len(x) // 2))]


def got(paths):
    return [(p.method.value,) + tuple((q.x, q.y) for q in p.points) for p in paths]


class Build(Contract):
    """a path operator adds its segments, in page coordinates, and paints nothing"""
    internal = True

    def __init__(self, op, fn):
        self.op = op
        self.name = 'path operator ' + op
        self.target = [K + ':' + fn, ST + '.Curves:CurvePoint.__init__', M + ':apply_matrix_pt']

    def inputs(self):
        return {**reals('c', 6), **reals('x', NARG[self.op])}

    def run(self, **v):
        st = new_state(self, tuple(v['c%d' % i] for i in range(6)))
        self.old = object()
        st.curvestacks.append(self.old)
        out = drive(self, st, [(self.op,) + tuple(v['x%d' % i] for i in range(NARG[self.op]))])
        return out, list(st.curvestacks)

    def ensures(self, out, **v):
        out, cs = out
        m = tuple(v['c%d' % i] for i in range(6))
        want = segments(self.op, [v['x%d' % i] for i in range(NARG[self.op])])
        r = [('paints nothing', out == ('ok', [])), ('adds to the path', len(cs) == 1 + len(want) and cs[0] is self.old)]
        if len(cs) != 1 + len(want):
            return r
        for i, (g, w) in enumerate(zip(got(cs[1:]), want)):
            r.append(('kind of segment %d' % i, g[0] == w[0] and len(g) == len(w)))
            for j in range(1, min(len(g), len(w))):
                p = at(m, *w[j])
                r.append(('point %d of segment %d' % (j, i), AND(EQ(g[j][0], p[0]), EQ(g[j][1], p[1]))))
        return r


contracts = [Build(op, fn) for op, fn in [('m', 'curve_moveto'), ('l', 'curve_lineto'), ('c', 'curve_curveto'), ('v', 'curve_urveto'), ('y', 'curve_rveto'), ('h', 'curve_close'), ('re', 'curve_rect')]]


class Finish(Contract):
    """painting takes the whole path, closed if the operator closes it, and starts a new one"""
    name = 'painting and ending a path'
    internal = True
    target = [K + ':curve_complete_path', K + ':curve_complete_path_evenodd', K + ':curve_close_complete', K + ':curve_close_complete_evenodd', K + ':curve_close_only']

    def run(self):
        c = ctx()
        ops = PAINT + ['n', 'W', 'W*']
        op = self.op = ops[c.decide(len(ops))]
        st = new_state(self)
        old = self.old = [object(), object()]
        st.curvestacks.extend(old)
        self.seen = []

        def make_curve(*a, **k):
            a = list(a) + list(k.values())
            p = [x for x in a if type(x) in (list, VList)]
            e = [x for x in a if type(x) is bool]
            self.seen.append((list(p[0]), e[0]))
            return 'item'
        hooks.overrides = {LAY + ':make_curve': make_curve}
        out = drive(self, st, [(op,)])
        return out, list(st.curvestacks)

    def ensures(self, out, **v):
        out, left = out
        op = self.op
        if op in ('W', 'W*'):
            return [('clipping changes nothing', out == ('ok', []) and left == self.old)]
        if op == 'n':
            return [('nothing painted', out == ('ok', []) and not self.seen), ('path is gone', left == [])]
        r = [('one item', out == ('ok', ['item']) and len(self.seen) == 1), ('new path', left == [])]
        if len(self.seen) != 1:
            return r
        p, e = self.seen[0]
        closes = op in ('s', 'b', 'b*')
        return r + [('rule', e is ('*' in op)), ('the path', p[:2] == self.old and len(p) == 2 + closes), ('closed', not closes or p[2].method.value == 'h' and not p[2].points)]


contracts.append(Finish())


# ------------------------------------------------------------------ make_curve on a path of any length
KIND = 'mlcvyh'


class Kind:
    """the method of a segment: the number k of KIND"""
    def __init__(self, k):
        self.k = k

    @property
    def value(self):
        r = 'h'
        for i in range(len(KIND) - 1):
            r = V.ite(EQ(self.k, i), V.lift(KIND[i]), V.lift(r))
        return r

    def __eq__(self, o):
        return EQ(self.k, KIND.index(o.value))

    def __ne__(self, o):
        return NOT(EQ(self.k, KIND.index(o.value)))

    __hash__ = None


class Pt:
    def __init__(self, x, y):
        self.x, self.y = x, y


PtT = TTuple(TReal, TReal, tag='point')
TPt = TObj('curvepoint', PtT, lambda t: Pt(t[0], t[1]), lambda o: (o.x, o.y) if type(o) is Pt else None)
SegT = TTuple(TInt, TList(PtT), tag='segment')


class Seg:
    """a segment of kind t[0] through the points t[1]"""
    def __init__(self, t):
        self.t = t
        self.method = Kind(t[0])

    @property
    def points(self):
        return TList(TPt).wrap(TList(PtT).unwrap(self.t[1]))


TSeg = TObj('curvepath', SegT, Seg, lambda o: o.t if type(o) is Seg else None)
SegsT = TList(SegT)


def end(s):
    """the point a segment ends at, for one that has points"""
    return AT(s[1], LEN(s[1]) - 1)


def _extreme(name, which, less):
    def f(S, k):
        if k <= 0:
            return INF if less else -INF
        s = AT(S, k - 1)
        v = end(s)[which]
        p = f(S, k - 1)
        return ITE(EQ(s[0], 5), p, ITE(v < p if less else v > p, v, p))
    f.__name__ = name
    f = spec_fn((SegsT, TInt), TReal)(f)
    return f


lox, loy, hix, hiy = [_extreme(*a) for a in (('lox', 0, True), ('loy', 1, True), ('hix', 0, False), ('hiy', 1, False))]


def upright(p):
    return OR(*[AND(EQ(p[0][a], p[1][a]), EQ(p[1][1 - a], p[2][1 - a]), EQ(p[2][a], p[3][a]), EQ(p[3][1 - a], p[0][1 - a])) for a in (0, 1)])


def box(x):
    return (x.bbox.x0, x.bbox.y0, x.bbox.x1, x.bbox.y1)


class Make(Contract):
    """the item made of a path of any length: its class, its bounding box, what it keeps"""
    internal = True
    budget_s = 400
    target = [LAY + ':make_curve', 'pdfmajor.utils.types:Bbox.__init__']

    def boxinv(v):
        S = v.ghost.S
        return [('least x so far', EQ(v.x0, lox(S, v._k))), ('least y so far', EQ(v.y0, loy(S, v._k))), ('greatest x so far', EQ(v.x1, hix(S, v._k))), ('greatest y so far', EQ(v.y1, hiy(S, v._k))),
                ('a point so far puts the least before the greatest', OR(FORALL(v._k, lambda i: EQ(AT(S, i)[0], 5)), AND(v.x0 <= v.x1, v.y0 <= v.y1)))]

    loops = [LoopSpec(where='make_curve#0', inv=boxinv, types={k: TNum for k in ('x0', 'y0', 'x1', 'y1')})]
    name = 'make_curve, a path of any length'

    def inputs(self):
        return dict(S=SegsT, w=TReal, evenodd=TBool)

    def requires(self, S, w, evenodd):
        lim = lambda v: AND(-INF < v, v < INF)

        def good(i):
            s = AT(S, i)
            n = ITE(EQ(s[0], 5), 0, ITE(EQ(s[0], 2), 3, ITE(s[0] <= 1, 1, 2)))
            return AND(s[0] >= 0, s[0] <= 5, EQ(LEN(s[1]), n), FORALL(LEN(s[1]), lambda j: AND(lim(AT(s[1], j)[0]), lim(AT(s[1], j)[1]))))
        return FORALL(LEN(S), good)

    def run(self, S, w, evenodd):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.S = S
        ctx().ghost['ghost'] = g
        st = new_state(self)
        drive(self, st, [('w', w), ('RG', 1, 0, 0), ('g', 0)])
        self.stroke, self.fill = st.graphics.scolor, st.graphics.ncolor
        self.paths = st.curvestacks = TList(TSeg).wrap(SegsT.unwrap(S))
        return drive(self, st, [('f*' if V.truth(evenodd) else 'f',)])

    def ensures(self, out, S, w, evenodd):
        if out[0] != 'ok':
            return [('no exception', False)]
        n = LEN(S)
        kind = lambda i: AT(S, i)[0]
        if len(out[1]) > 1:
            return [('at most one item', False)]
        x = out[1][0] if out[1] else None
        if x is None:
            return [('only a path without points paints nothing', FORALL(n, lambda i: EQ(kind(i), 5)))]
        r = [('line width', EQ(x.linewidth, w)), ('colours', x.stroke.values == self.stroke.values and x.fill.values == self.fill.values), ('rule', EQ(x.evenodd, evenodd)), ('path', x.paths is self.paths or EQ(x.paths, self.paths))]
        name = type(x).__name__
        P = lambda i: AT(AT(S, i)[1], 0)
        line = AND(EQ(n, 2), EQ(kind(0), 0), EQ(kind(1), 1))
        quad = AND(EQ(n, 5), EQ(kind(0), 0), EQ(kind(1), 1), EQ(kind(2), 1), EQ(kind(3), 1), EQ(kind(4), 5))
        if V.truth(line):
            p, q = P(0), P(1)
            r.append(('class of a line', name == ('LTVerticalLine' if V.truth(EQ(p[0], q[0])) else 'LTHorizontalLine' if V.truth(EQ(p[1], q[1])) else 'LTLine')))
            pts = [p, q]
        elif V.truth(quad) and name == 'LTRect':
            pts = [P(i) for i in range(4)]
            r.append(('class of a rectangle', upright(pts)))
        else:
            r.append(('class of a curve', name == 'LTCurve'))
            if V.truth(quad):
                [f(S, i) for f in (lox, loy, hix, hiy) for i in range(6)]
                r.append(('class of a rectangle', NOT(upright([P(i) for i in range(4)]))))
            b = box(x)
            r.append(('some segment has points', NOT(FORALL(n, lambda i: EQ(kind(i), 5)))))
            return r + [('bounding box, ' + f.__name__, EQ(b[i], f(S, n))) for i, f in enumerate((lox, loy, hix, hiy))]
        b = box(x)
        for a, lo, hi in ((0, b[0], b[2]), (1, b[1], b[3])):
            r += [('bounding box contains the points', AND(*[AND(lo <= p[a], p[a] <= hi) for p in pts])), ('bounding box is the least', AND(OR(*[EQ(lo, p[a]) for p in pts]), OR(*[EQ(hi, p[a]) for p in pts])))]
        return r


contracts.append(Make())


# ------------------------------------------------------------------ content streams
def paint(segs):
    """class and box of the item, from segments in page coordinates"""
    ends = [s[-1] for s in segs if len(s) > 1]
    if not ends:
        return None
    b = tuple(f(p[i] for p in ends) for f in (min, max) for i in (0, 1))
    shape = ''.join(s[0] for s in segs)
    k = 'LTCurve'
    if shape == 'ml':
        p, q = ends
        k = 'LTVerticalLine' if p[0] == q[0] else 'LTHorizontalLine' if p[1] == q[1] else 'LTLine'
    elif shape == 'mlllh' and upright(ends):
        k = 'LTRect'
    return k, b


class Streams(Contract):
    """content streams that build and paint paths of any segments, under any transformations"""
    name = 'paths of content streams'
    target = [K + ':curve_complete_path', LAY + ':make_curve', C + ':process_command_stream', 'pdfmajor.interpreter.PageInterpreter:PageInterpreter.__iter__']
    search_n = 4000

    def gen(self, rng):
        ops, deep = [], 0
        xy = [0, 1, 2, 10, -3, 5.5, .25, 100]
        n = lambda k: tuple(rng.choice(xy) for _ in range(k))
        for _ in range(rng.randrange(1, 8)):
            k = rng.randrange(8)
            if k == 0:
                ops.append(('cm',) + rng.choice([n(6), (2, 0, 0, .5, 3, 4), (0, 1, -1, 0, 5, 5), (1, .25, -.5, 1, 0, 0), (-1, 0, 0, -1, 0, 0), (1, 0, 0, 1, -7, 9)]))
            elif k == 1:
                ops.append(('q',))
                deep += 1
            elif k == 2 and deep:
                ops.append(('Q',))
                deep -= 1
            elif k == 3:
                x, y, w, h = n(4)
                ops += [('m', x, y), ('l', x + w, y), ('l', x + w, y + h), ('l', x, y + h), ('h',)]
            elif k == 4:
                ops += [('m',) + n(2), ('l',) + n(2)]
            elif k == 5:
                ops += [('re',) + n(4)]
            else:
                ops += [('m',) + n(2)] + [(o,) + n(NARG[o]) for o in (rng.choice('llcvyh') for _ in range(rng.randrange(5)))]
            if k > 2 and rng.random() < .8 or rng.random() < .1:
                ops += [(rng.choice(['W', 'W*']),)] * (rng.random() < .2) + [(rng.choice(PAINT + ['n']),)]
        return dict(ops=ops)

    def requires(self, ops):
        deep = 0
        for o in ops:
            if type(o) is not tuple or not o or type(o[0]) is not str:
                return False
            deep += (o[0] == 'q') - (o[0] == 'Q')
            k = 6 if o[0] == 'cm' else NARG.get(o[0], 0)
            if len(o) != k + 1 or deep < 0 or not (o[0] in NARG or o[0] in ('cm', 'q', 'Q', 'n', 'W', 'W*') or o[0] in PAINT):
                return False
            if not all(type(v) in (int, float) and abs(v) <= 1000 and v * 4 == int(v * 4) for v in o[1:]):
                return False
        return len([o for o in ops if o[0] == 'cm']) < 4

    def want(self, ops):
        m, stack, path, items = IDENT, [], [], []
        for o in ops:
            op, x = o[0], o[1:]
            if op == 'q':
                stack.append(m)
            elif op == 'Q':
                m = stack.pop()
            elif op == 'cm':
                m = mul(x, m)
            elif op in NARG:
                path += [(s[0],) + tuple(at(m, *p) for p in s[1:]) for s in segments(op, x)]
            elif op not in ('W', 'W*'):
                if op in ('s', 'b', 'b*'):
                    path.append(('h',))
                r = paint(path)
                if r and op != 'n':
                    items.append(r + ('*' in op, path))
                path = []
        return items

    def run(self, ops):
        PDFStream = self.mod('pdfmajor.parser.PDFStream').PDFStream
        page = Page([0, 0, 612, 792], 0, {}, [PDFStream({}, write_ops(ops))])

        def go():
            return [(type(x).__name__, (x.x0, x.y0, x.x1, x.y1), x.evenodd, got(x.paths)) for x in self.mod('pdfmajor.interpreter').PageInterpreter(page, 0)]
        return self.outcome(go)

    def ensures(self, out, ops):
        if out[0] != 'ok':
            return [('no exception', False)]
        return [('the items painted', close(out[1], self.want(ops)))]

    def explain(self, out, **kw):
        return 'wanted %r' % (self.want(**kw),)


probes = [Streams()]
