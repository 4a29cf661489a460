"""Where things are on a page: its size and rotation, images, form objects."""
from vc.contract import *
from .interp import *
from .c14_gstate import reals, mul, Page, write_ops, close, look, same, all_same, Settings, spaces, walk

MX, PI = 'pdfmajor.utils.matrix', 'pdfmajor.interpreter.PageInterpreter'
BB = 'pdfmajor.utils.types'
BIG = (1 << 31) - 1
Pt = TTuple(TReal, TReal, tag='point')
Pts = TList(Pt)
M6 = ['m%d' % i for i in range(6)]


def at(m, p):
    """the point p under the matrix m"""
    a, b, c, d, e, f = m
    return (a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f)


def low(xs):
    r = xs[0]
    for x in xs[1:]:
        r = ITE(x < r, x, r) if symbolic() else min(r, x)
    return r


def high(xs):
    return -low([-x for x in xs])


def box_of(pts):
    return (low([p[0] for p in pts]), low([p[1] for p in pts]), high([p[0] for p in pts]), high([p[1] for p in pts]))


def sides(b):
    return (b.x0, b.y0, b.x1, b.y1)


def corners(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x0, y1), (x1, y1)]


class Matrices(Contract):
    """the product of two matrices is one after the other"""
    name = 'matrices'
    target = [MX + ':mult_matrix', MX + ':apply_matrix_pt', MX + ':apply_matrix_norm', MX + ':translate_matrix']

    def inputs(self):
        return {**reals('m', 6), **reals('n', 6), 'x': TReal, 'y': TReal}

    def run(self, x, y, **v):
        m, n = tuple(v['m%d' % i] for i in range(6)), tuple(v['n%d' % i] for i in range(6))
        M = self.mod(MX)
        return self.outcome(lambda: (M.mult_matrix(m, n), M.apply_matrix_pt(m, (x, y)), M.apply_matrix_norm(m, (x, y)), M.translate_matrix(m, (x, y)), M.MATRIX_IDENTITY))

    def ensures(self, out, x, y, **v):
        if out[0] != 'ok':
            return [('no exception', False)]
        m, n = tuple(v['m%d' % i] for i in range(6)), tuple(v['n%d' % i] for i in range(6))
        prod, pt, norm, tr, one = out[1]
        o = at(m, (0, 0))
        p = at(m, (x, y))
        return [('product, %d' % i, EQ(g, w)) for i, (g, w) in enumerate(zip(prod, mul(m, n)))] + \
            [('one after the other, %d' % i, EQ(g, w)) for i, (g, w) in enumerate(zip(at(prod, (x, y)), at(n, p)))] + \
            [('point, %d' % i, EQ(g, w)) for i, (g, w) in enumerate(zip(pt, p))] + [('vector, %d' % i, EQ(g, w - o[i])) for i, (g, w) in enumerate(zip(norm, p))] + \
            [('moved, %d' % i, EQ(g, w)) for i, (g, w) in enumerate(zip(at(tr, (v['n0'], v['n1'])), at(m, (x + v['n0'], y + v['n1']))))] + [('identity', one == (1, 0, 0, 1, 0, 0))]


class Turned(Contract):
    """the box of a page, turned, fills the page from the origin"""
    target = [PI + ':PageInterpreter.__init__', PI + ':PageInterpreter.make_state']
    internal = True

    def __init__(self, rotate):
        self.rotate = rotate
        self.name = 'page turned by %d degrees' % rotate

    def inputs(self):
        return {**reals('b', 4), 'x': TReal, 'y': TReal}

    def run(self, x, y, **b):
        got = self.got = []
        self.res, self.cache = hooks.mkdict(), hooks.mkdict()

        def prep(state, ctm=None, resources=None, font_cache=None, ignore_bad_chars=False):
            got.append((state, ctm, resources, font_cache, ignore_bad_chars))
            return state
        hooks.overrides = {**hooks.overrides, C + ':prep_state': prep}
        page = Page(LST(*[b['b%d' % i] for i in range(4)]), self.rotate, self.res, LST())
        return self.outcome(lambda: self.mod(PI).PageInterpreter(page, 3, self.cache, True))

    def ensures(self, out, x, y, **b):
        if out[0] != 'ok' or not self.got:
            return [('no exception', False)]
        p = out[1]
        x0, y0, x1, y1 = box_of([(b['b0'], b['b1']), (b['b2'], b['b3'])])
        want, size = {90: ((y - y0, x1 - x), (y1 - y0, x1 - x0)), 180: ((x1 - x, y1 - y), (x1 - x0, y1 - y0)), 270: ((y1 - y, x - x0), (y1 - y0, x1 - x0))}.get(self.rotate, ((x - x0, y - y0), (x1 - x0, y1 - y0)))
        st, ctm, res, cache, ig = self.got[-1]
        g = at(ctm, (x, y))
        inside = AND(x0 <= x, x <= x1, y0 <= y, y <= y1)
        return [('where a point comes, x', EQ(g[0], want[0])), ('where a point comes, y', EQ(g[1], want[1])), ('width', EQ(p.width, size[0])), ('height', EQ(p.height, size[1])),
                ('within the page', IMP(inside, AND(0 <= g[0], g[0] <= p.width, 0 <= g[1], g[1] <= p.height))),
                ('prepared with the resources of the page, the fonts and options', res is self.res and cache is self.cache and ig is True and p.state is st and p.page_num == 3)]


class Sides(Contract):
    """a box from two opposite corners, or without coordinates"""
    name = 'box of two corners'
    target = [BB + ':Bbox.__init__', BB + ':Bbox.width', BB + ':Bbox.height']

    def inputs(self):
        return reals('b', 4)

    def run(self, b0, b1, b2, b3):
        B = self.mod(BB).Bbox
        return self.outcome(lambda: (B(b0, b1, b2, b3), B(None, None, None, None), B(None, b1, None, b3)))

    def ensures(self, out, b0, b1, b2, b3):
        if out[0] != 'ok':
            return [('no exception', False)]
        b, e, h = out[1]
        w = box_of([(b0, b1), (b2, b3)])
        return [('side %d' % i, EQ(g, s)) for i, (g, s) in enumerate(zip(sides(b), w))] + [('width', EQ(b.width, w[2] - w[0])), ('height', EQ(b.height, w[3] - w[1])), ('none', sides(e) == (None,) * 4), ('half', AND(h.x0 is None, h.x1 is None, EQ(h.y0, w[1]), EQ(h.y1, w[3])))]


def _fold(name, j, lower):
    @spec_fn((Pts, TInt), TReal)
    def f(L, k):
        if k <= 0:
            return BIG if lower else -BIG
        v, p = AT(L, k - 1)[j], f(L, k - 1)
        return ITE(v < p, v, p) if lower else ITE(v > p, v, p)
    f.spec.name = name
    return f


FOLDS = [_fold('pts_x0', 0, True), _fold('pts_y0', 1, True), _fold('pts_x1', 0, False), _fold('pts_y1', 1, False)]


class Around(Contract):
    """the smallest box around any number of points"""
    name = 'box of points'
    target = [BB + ':Bbox.from_points']

    def inv(v):
        L, k, q = v.pts, v._k, v.ghost.q
        got = (v.x0, v.y0, v.x1, v.y1)
        px, py = AT(L, q)[0], AT(L, q)[1]
        return [('side %d so far' % i, EQ(g, f(L, k))) for i, (g, f) in enumerate(zip(got, FOLDS))] + [
            ('around the points so far', IMP(q < k, AND(v.x0 <= px, px <= v.x1, v.y0 <= py, py <= v.y1)))]

    loops = [LoopSpec(where='from_points#0', inv=inv, types=dict(x0=TNum, y0=TNum, x1=TNum, y1=TNum))]

    def inputs(self):
        return dict(L=Pts, q=TInt)

    def requires(self, L, q):
        ok = lambda i: AND(*[AND(-BIG < c, c < BIG) for c in AT(L, i)])
        return AND(LEN(L) >= 1, 0 <= q, q < LEN(L), FORALL(LEN(L), ok))

    def run(self, L, q):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.q = q
        if symbolic():
            ctx().ghost['ghost'] = g
        return self.outcome(lambda: self.mod(BB).Bbox.from_points(L))

    def ensures(self, out, L, q):
        if out[0] != 'ok':
            return [('no exception', False)]
        b = out[1]
        n = LEN(L)
        p = AT(L, q)
        return [('around every point', AND(b.x0 <= p[0], p[0] <= b.x1, b.y0 <= p[1], p[1] <= b.y1)), ('proper', AND(b.x0 <= b.x1, b.y0 <= b.y1))] + [('smallest: side %d' % i, EQ(g, f(L, n))) for i, (g, f) in enumerate(zip(sides(b), FOLDS))]


class Painted(Contract):
    """Do and EI place what they name by the current matrix"""
    internal = True

    def __init__(self, kind, matrix=False, resources=False):
        self.kind, self.matrix, self.res = kind, matrix, resources
        self.name = 'painting %s%s%s' % (kind, ' with a matrix' if matrix else '', ' with resources' if resources else '')
        self.target = [K + (':insert_image' if 'inline' in kind else ':insert_xobject'), LAY + (':make_xobject' if 'form' in kind else ':make_image'), LAY + ('.LTXObject:LTXObject.__init__' if 'form' in kind else '.LTImage:LTImage.__init__'), BB + ':Bbox.from_points', MX + ':mult_matrix']

    def inputs(self):
        return {**reals('c', 6), **reals('m', 6), **reals('b', 4)}

    def place(self, v):
        c = tuple(v['c%d' % i] for i in range(6))
        if 'form' not in self.kind:
            return c, corners(0, 0, 1, 1)
        m = tuple(v['m%d' % i] for i in range(6)) if self.matrix else (1, 0, 0, 1, 0, 0)
        return mul(m, c), corners(*[v['b%d' % i] for i in range(4)])

    def requires(self, **v):
        m, pts = self.place(v)
        ps = [at(m, p) for p in pts]
        return AND(*[AND(-BIG < x, x < BIG) for p in ps for x in p])

    def run(self, **v):
        m = self.mod(C + '.commands')
        LIT = self.mod('pdfmajor.parser.PSStackParser').LIT
        own, page = hooks.mkdict(('Own', 1)), hooks.mkdict(('Page', 2))
        b = LST(*[v['b%d' % i] for i in range(4)])
        d = dict(Width=3, Height=4, Subtype=LIT('Image')) if self.kind == 'an image' else dict(Subtype=LIT('Form'), BBox=b) if self.kind == 'a form object' else dict(W=3, H=4) if self.kind == 'an inline image' else \
            dict(Width=3, Height=4) if 'inline' in self.kind else dict(Subtype=LIT('PS'), BBox=b)
        if self.matrix:
            d['Matrix'] = LST(*[v['m%d' % i] for i in range(6)])
        if self.res:
            d['Resources'] = own
        stream = self.mod('pdfmajor.parser.PDFStream').PDFStream
        x = self.x = stream(hooks.mkdict(*d.items()), b'')
        ctm = self.ctm = tuple(v['c%d' % i] for i in range(6))
        st = self.st = new_state(self, ctm, page, xobj={'X': x, 'Y': stream(hooks.mkdict(), b'')})
        return self.outcome(lambda: m.insert_image(st, x) if 'inline' in self.kind else m.insert_xobject(st, LIT('X')))

    def ensures(self, out, **v):
        if out[0] != 'ok':
            return [('no exception', False)]
        items = list(self.st.complete_layout_items)
        if self.kind == 'another object':
            return [('nothing painted', len(items) == 0)]
        if len(items) != 1:
            return [('one item', False)]
        it = items[0]
        m, pts = self.place(v)
        want = box_of([at(m, p) for p in pts])
        r = [('side %d of the box' % i, EQ(g, w)) for i, (g, w) in enumerate(zip(sides(it), want))]
        r.append(('the matrix of the page stays', EQ(self.st.t_matrix, self.ctm)))
        if 'form' in self.kind:
            return r + [('matrix inside', EQ(tuple(it.t_matrix), m)), ('resources inside', 'Own' in it.resources and 'Page' not in it.resources if self.res else 'Page' in it.resources), ('its stream', it.stream is self.x), ('no items yet', LEN(it._objs) == 0)]
        return r + [('its stream', it.stream is self.x), ('size in pixels', tuple(it.srcsize) == (3, 4))]


class Thing:
    """an item painted inside a form object"""
    def __init__(self, n):
        self.n = n


TThing = TObj('inner item', TInt, Thing, lambda v: v.n if type(v) is Thing else None)
Things = TList(TThing)


class Inside(Contract):
    """a form object is run on its own state, which starts as the state outside, and holds what it paints"""
    internal = True
    target = [C + ':process_command_stream', C + ':prep_state', K + ':insert_xobject', ST + '.PDFGraphicState:PDFGraphicState.copy', ST + '.PDFTextState:PDFTextState.copy', LAY + '._base:LTContainer.add']
    budget_s = 200

    def inv(v):
        objs = v.complete_item._objs
        return [('items so far', EQ(Things.wrap(Things.unwrap(objs)), v.ghost.L[:v._k]))]

    loops = [LoopSpec(where='process_command_stream#2', inv=inv, types={'*._objs': Things})]

    def __init__(self, kind):
        self.kind = kind
        self.name = 'inside a form object, colours %s' % (kind,)

    def inputs(self):
        return {**Settings.inputs('a'), **reals('m', 6), 'items': Things}

    def run(self, items, **v):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.L = items
        ctx().ghost['ghost'] = g
        m = self.mod(C)
        psm = self.mod('pdfmajor.parser.PSStackParser')
        PDFStream = self.mod('pdfmajor.parser.PDFStream').PDFStream
        a = Settings(self, 'a', v)
        sp = spaces(self)
        st = new_state(self, fonts={'Fa': Face()}, spaces=sp, ignore=True)
        first = drive(self, st, a.ops(self.kind, self.kind))
        self.before = look(st)
        M = LST(*[v['m%d' % i] for i in range(6)])
        form = self.form = PDFStream(hooks.mkdict(('Subtype', psm.LIT('Form')), ('BBox', LST(0, 0, 1, 1)), ('Matrix', M), ('Resources', hooks.mkdict(('Own', 1)))), b'')
        st.xobjmap['X'] = form
        calls = self.calls = []
        self.cache = hooks.mkdict()

        def nested(streams, font_cache=None, state=None):
            calls.append((list(streams), font_cache, state, look(state)))
            return items
        real = m.process_command_stream
        hooks.overrides = {**hooks.overrides, PARSER: lambda s: LST(psm.LIT('X'), psm.PSKeyword(b'Do')), C + ':process_command_stream': nested}
        self.outer = st
        out = []

        def go():
            for x in real(['stream'], self.cache, st):
                out.append(x)
        r = self.outcome(go)
        return first, r, out, look(st)

    def ensures(self, got, items, **v):
        first, r, out, after = got
        if first != ('ok', []) or r[0] != 'ok' or len(out) != 1 or len(self.calls) != 1:
            return [('no exception', False)]
        streams, cache, state, start = self.calls[0]
        m = tuple(v['m%d' % i] for i in range(6))
        want = dict(self.before, cm=mul(m, self.before['cm']))
        keep, now = {}, {}
        for k in ('graphics', 'text'):
            walk(getattr(self.outer, k), keep, (k,))
            walk(getattr(state, k), now, (k,))
        shared = [now[i][0] for i in now if i in keep and now[i][0][-1] != 'dash' and 'dash' not in now[i][0]]
        return all_same('the state it starts with', start, want) + all_same('the state outside', after, self.before) + [
            ('its own stream, resources and the fonts', streams == [self.form] and cache is self.cache and 'Own' in state.resources), ('a state of its own', state is not self.outer and len(state.gstack) == 0 and not shared),
            ('undefined characters as outside', state.text.ignore_bad_chars is True), ('the items inside', EQ(Things.wrap(Things.unwrap(out[0]._objs)), items))]


class Again(Contract):
    """every run over a page starts with a fresh state and gives all of its items"""
    name = 'items of a page, again'
    internal = True
    target = [PI + ':PageInterpreter.__init__', PI + ':PageInterpreter.__iter__']
    loops = [LoopSpec(where='__iter__#0', inv=lambda v: [('items so far', EQ(v.ghost.out, SL(v.ghost.L, 0, v._k))), ('not yet to stop', NOT(AND(v.ghost.stop >= 1, v.ghost.stop <= v._k)))])]

    def inputs(self):
        return dict(L=TList(TInt), stop=TInt)

    def run(self, L, stop):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.L = L
        ctx().ghost['ghost'] = g
        self.used, self.made = [], []

        def prep(state, ctm=None, resources=None, font_cache=None, ignore_bad_chars=False):
            self.made.append((state, tuple(ctm), resources, font_cache, ignore_bad_chars))
            return state

        def items(streams, font_cache=None, state=None):
            self.used.append((streams, font_cache, state))
            return L
        hooks.overrides = {**hooks.overrides, C + ':prep_state': prep, C + ':process_command_stream': items}
        self.contents, self.res, self.cache = LST('stream'), hooks.mkdict(), hooks.mkdict()
        page = Page(LST(0, 0, 10, 20), 0, self.res, self.contents)
        box = []
        r = [self.outcome(lambda: box.append(self.mod(PI).PageInterpreter(page, 3, self.cache, True)))]
        self.first = len(self.made)

        def go(stop):
            g.out, g.stop = TYPED(TList(TInt), LST()), stop
            for x in box[0]:
                g.out = g.out + LST(x)
                if V.truth(LEN(g.out) == stop):
                    break
        for n in (stop, -1, -1):
            r += [self.outcome(go, n), g.out]
        return r

    def ensures(self, out, L, stop):
        states = [u[2] for u in self.used]
        return [('no exception', len(out) == 7 and all(out[i][0] == 'ok' for i in (0, 1, 3, 5))), ('all items', AND(EQ(out[4], L), EQ(out[6], L))), ('the first items', EQ(out[2], SL(L, 0, stop) if V.truth(AND(stop >= 1, stop <= LEN(L))) else L)),
                ('each time a fresh state', len(states) == 3 and len({id(x) for x in states}) == 3 and all(any(m[0] is x for m in self.made) for x in states)),
                ('prepared alike', all(m[1] == (1, 0, 0, 1, 0, 0) and m[2] is self.res and m[3] is self.cache and m[4] is True for m in self.made)),
                ('the streams and fonts of the page', all(len(u[0]) == 1 and u[0][0] == 'stream' and u[1] is self.cache for u in self.used))]


contracts = [Inside('RG'), Again(), Matrices()] + [Turned(r) for r in (0, 90, 180, 270)] + [Sides(), Around()] + [Painted('an image'), Painted('an inline image'), Painted('an inline image with full names'), Painted('another object')] + [Painted('a form object', m, r) for m in (False, True) for r in (False, True)]


# ------------------------------------------------------------------ whole pages, by example
TURN = {0: lambda x0, y0, x1, y1: (1, 0, 0, 1, -x0, -y0), 90: lambda x0, y0, x1, y1: (0, -1, 1, 0, -y0, x1), 180: lambda x0, y0, x1, y1: (-1, 0, 0, -1, x1, y1), 270: lambda x0, y0, x1, y1: (0, 1, -1, 0, y1, -x0)}
NARGS = dict(cm=6, q=0, Q=0, line=4, w=1, Do=1, img=0, inl=1, Tf=1, text=1)


class WholePages(Contract):
    """what a page with forms within forms, images, texts and lines paints, and where"""
    name = 'pages with form objects'
    target = [PI + ':PageInterpreter.__init__', PI + ':PageInterpreter.__iter__', C + ':process_command_stream', K + ':insert_xobject', K + ':insert_image', LAY + ':make_xobject', LAY + ':make_image', BB + ':Bbox.from_points']
    search_n = 3000

    def gen(self, rng):
        n = lambda k: tuple(rng.choice([0, 1, 2, -3, .5, 10, -1.25]) for _ in range(k))
        mat = lambda: rng.choice([n(6), (1, 0, 0, 1, 5, 7), (0, 1, -1, 0, 5, 5), (2, 0, 0, -2, 1, 1), (.5, 0, 0, .5, 0, 0)])

        def ops(level):
            r, depth = [], 0
            for _ in range(rng.randrange(1, 7)):
                k = rng.choice(['cm', 'q', 'Q', 'line', 'line', 'w', 'Do', 'Do', 'img', 'inl', 'Tf', 'text'])
                if k == 'Do' and level == 2 or k == 'w' and depth:
                    k = 'line'
                depth += (k == 'q') - (k == 'Q' and depth > 0)
                r.append(('cm',) + mat() if k == 'cm' else ('line',) + n(4) if k == 'line' else (k, rng.randrange(1, 9)) if k in ('w', 'Tf') else ('Do', rng.randrange(2)) if k == 'Do' else ('inl', rng.random() < .5) if k == 'inl' else ('text', rng.randrange(1, 4)) if k == 'text' else (k,))
            return tuple(r)
        forms = tuple(tuple((n(4), mat() if rng.random() < .6 else None, rng.random() < .5, ops(level)) for _ in range(2)) for level in (1, 2))
        return dict(box=rng.choice([(0, 0, 612, 792), (10, 20, 110, 220), (110, 20, 10, 220), (5.5, 300, 205, -100)]), rotate=rng.choice([0, 0, 90, 180, 270]), ops=(('Tf', rng.randrange(1, 9)),) + ops(0), forms=forms)

    def requires(self, box, rotate, ops, forms):
        fine = lambda xs: all(type(v) in (int, float) and abs(v) <= 1000 and v * 4 == int(v * 4) for v in xs)

        def good(ops, level):
            depth = 0
            for o in ops:
                if type(o) is not tuple or not o or o[0] not in NARGS or len(o) != NARGS[o[0]] + 1 or not fine(o[1:]):
                    return False
                depth += (o[0] == 'q') - (o[0] == 'Q' and depth > 0)
                if o[0] in ('w', 'Tf', 'text') and not (type(o[1]) is int and 0 < o[1] < 20) or o[0] == 'w' and depth or o[0] == 'Do' and (level == 2 or o[1] not in (0, 1)):
                    return False
            return sum(o[0] == 'cm' for o in ops) < 4
        if not (type(box) is tuple and len(box) == 4 and fine(box) and rotate in TURN and good(ops, 0) and ops[:1] and ops[0][0] == 'Tf' and len(forms) == 2 and all(len(l) == 2 for l in forms)):
            return False
        return all(len(f) == 4 and len(f[0]) == 4 and fine(f[0]) and (f[1] is None or len(f[1]) == 6 and fine(f[1])) and good(f[3], level + 1) for level, l in enumerate(forms) for f in l)

    def paint(self, ops, m, w, size, forms, level):
        r, stack = [], []
        box = lambda m, b: box_of([at(m, p) for p in corners(*b)])
        for o in ops:
            k, x = o[0], o[1:]
            if k == 'cm':
                m = mul(x, m)
            elif k == 'q':
                stack.append((m, size))
            elif k == 'Q':
                if stack:
                    m, size = stack.pop()
            elif k == 'w':
                w = x[0]
            elif k == 'Tf':
                size = x[0]
            elif k == 'line':
                r.append(('line', box_of([at(m, x[:2]), at(m, x[2:])]), w))
            elif k in ('img', 'inl'):
                r.append(('image', box(m, (0, 0, 1, 1)), (3, 4) if k == 'img' else (1, 2)))
            elif k == 'text':
                r.append(('text', box(m, (0, 0, .5 * size * x[0], size)), 'A' * x[0]))
            else:
                b, fm, own, inner = forms[level][x[0]]
                mm = mul(fm, m) if fm else m
                r.append(('form', box(mm, b), self.paint(inner, mm, w, size, forms, level + 1)))
        return r

    def want(self, box, rotate, ops, forms):
        b = box_of([box[:2], box[2:]])
        w, h = b[2] - b[0], b[3] - b[1]
        return (h, w) if rotate in (90, 270) else (w, h), self.paint(ops, TURN[rotate](*b), 0, 0, forms, 0)

    def run(self, box, rotate, ops, forms):
        psm = self.mod('pdfmajor.parser.PSStackParser')
        LIT, PDFStream = psm.LIT, self.mod('pdfmajor.parser.PDFStream').PDFStream
        num = lambda x: (b'%d' % x) if x == int(x) else ('%.4f' % x).encode()

        def source(ops):
            out = []
            for o in ops:
                k, x = o[0], o[1:]
                a = [num(v) for v in x]
                out.append(b' '.join(a[:2] + [b'm'] + a[2:] + [b'l S']) if k == 'line' else b'/X%d Do' % x[0] if k == 'Do' else b'/Im Do' if k == 'img' else b'/F1 ' + a[0] + b' Tf' if k == 'Tf' else b'BT (' + b'A' * x[0] + b') Tj ET' if k == 'text' else
                           (b'BI /Width 1 /Height 2 /BitsPerComponent 8 ID ab EI' if x[0] else b'BI /W 1 /H 2 /BPC 8 ID ab EI') if k == 'inl' else b' '.join(a + [k.encode()]))
            return b'\n'.join(out) + b'\n'
        image = PDFStream({'Subtype': LIT('Image'), 'Width': 3, 'Height': 4}, b'')
        font = {'Type': LIT('Font'), 'Subtype': LIT('Type1'), 'BaseFont': LIT('Some'), 'FirstChar': 65, 'Widths': [500], 'FontDescriptor': {'FontName': LIT('Some'), 'FontBBox': [0, 0, 1000, 1000]}}
        below = {}
        for level in (1, 0):
            here = {}
            for i, (b, fm, own, inner) in enumerate(forms[level]):
                d = {'Subtype': LIT('Form'), 'BBox': list(b), 'Resources': {'XObject': dict(below, Im=image), 'Font': {'F1': font}}}
                if not own and not any(o[0] == 'Do' for o in inner):
                    del d['Resources']              # those of the surroundings
                if fm:
                    d['Matrix'] = list(fm)
                here['X%d' % i] = PDFStream(d, source(inner))
            below = here
        page = Page(list(box), rotate, {'XObject': dict(below, Im=image), 'Font': {'F1': font}}, [PDFStream({}, source(ops))])

        def look(items):
            r = []
            for x in items:
                k = type(x).__name__
                r.append(('form', sides(x), look(x)) if k == 'LTXObject' else ('image', sides(x), tuple(x.srcsize)) if k == 'LTImage' else ('text', sides(x), ''.join(c.get_text() for b in x for c in b)) if k == 'LTTextBlock' else ('line', sides(x), x.linewidth))
            return r

        def go():
            p = self.mod(PI).PageInterpreter(page, 0)
            return (p.width, p.height), look(p), look(p)
        return self.outcome(go)

    def ensures(self, out, **kw):
        if out[0] != 'ok':
            return [('no exception', False)]
        size, items = self.want(**kw)
        return [('size of the page', close(out[1][0], size)), ('what is where', close(out[1][1], items)), ('the same again', close(out[1][2], items))]

    def explain(self, out, **kw):
        return 'wanted %r' % (self.want(**kw),)


probes = [WholePages()]
