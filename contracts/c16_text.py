"""Text: where each glyph is painted, and what it is."""
from vc.contract import *
from .interp import *
from .c14_gstate import mul, reals, Page, num, write_ops, close, IDENT
from .c15_paths import at

TD = LAY + '.utils.textdecoder'
TB = LAY + '.LTTextBlock:LTTextBlock'


class Font(Face):
    """a font of arbitrary metrics: one glyph for every byte"""
    def __init__(self, w, h, de, W=0, disp=0, vertical=False, multibyte=False, name='face'):
        self.fontname, self.w, self.h, self.de, self.W, self.disp, self.vertical, self.multibyte = name, w, h, de, W, disp, vertical, multibyte

    def is_vertical(self):
        return self.vertical

    def is_multibyte(self):
        return self.multibyte

    def decode(self, b):
        return b

    def to_unichr(self, cid):
        return 'c'

    def char_width(self, cid):
        return self.w(cid) if callable(self.w) else self.w

    def char_disp(self, cid):
        return self.disp

    def get_height(self):
        return self.h

    def get_descent(self):
        return self.de

    def get_width(self):
        return self.W


class Model:
    """text state after the standard: matrix of the line, displacement along it, parameters"""
    def __init__(self, font, ctm, size=0, Tc=0, Tw=0, Tz=100, Ts=0, TL=0, M=IDENT):
        self.font, self.ctm, self.size, self.Tc, self.Tw, self.Tz, self.Ts, self.TL, self.M = font, ctm, size, Tc, Tw, Tz, Ts, TL, M
        self.off = (0, 0)

    def line(self, tx, ty):
        self.M, self.off = mul((1, 0, 0, 1, tx, ty), self.M), (0, 0)

    def move(self, n):
        """a number of TJ"""
        self.along(-n * self.size / 1000)

    def along(self, d):
        x, y = self.off
        self.off = (x, y + d) if self.font.is_vertical() else (x + d * self.Tz / 100, y)

    def glyph(self, cid):
        """box of the glyph; moves past it"""
        f, fs, th, v = self.font, self.size, self.Tz / 100, self.font.is_vertical()
        w = f.char_width(cid) * fs
        if v:
            W = f.get_width() * fs * th
            vx, vy = f.char_disp(cid)
            x = self.off[0] + (-W / 2 if vx is None else -vx * fs * th / 1000)
            top = self.off[1] + (1000 - vy) * fs / 1000 + self.Ts
            xs, ys = (x, x + W), (top + w, top)
        else:
            y = self.off[1] + f.get_descent() * fs + self.Ts
            xs, ys = (self.off[0], self.off[0] + w * th), (y, y + f.get_height() * fs)
        m = mul(self.M, self.ctm)
        pts = [at(m, x, y) for x in xs for y in ys]
        self.along(w + self.Tc + (self.Tw if cid == 32 and not f.is_multibyte() else 0))
        return tuple(g([p[i] for p in pts]) for g in (LEAST, GREATEST) for i in (0, 1))


def chars(items):
    """(text, box) of the characters of text blocks"""
    return [(c.get_text(), (c.x0, c.y0, c.x1, c.y1)) for b in items if type(b).__name__ == 'LTTextBlock' for s in b for c in s]


MOVES = {'none': 0, 'Td': 2, 'TD': 2, 'T*': 0, 'Tm': 6, "'": 0, '"': 2, 'TJ': 1, 'BT': 0, 'TL': 1}


class One(Contract):
    """a glyph shown after one text operator, in an arbitrary state"""
    internal = True

    def __init__(self, op, vertical):
        self.op, self.vertical = op, vertical
        self.name = 'glyph after %s, %s' % (op, 'vertical' if vertical else 'horizontal')
        self.target = [TB + '.add_char_block', TD + ':decode_text_seq', TD + ':__render_string_along', TD + ':__compute_char_bbox', K + ':add_char_blocks', K + ':begin_text', K + ':end_text', K + ':move_text_x', K + ':move_text_y', K + ':set_text_matrix', K + ':nextline', K + ':add_quoted_char_blocks', K + ':add_dbquoted_char_blocks', LAY + '.LTCharBlock:LTCharBlock.__init__']

    def inputs(self):
        return {**reals('c', 6), **reals('m', 6), **reals('x', MOVES[self.op]), **{k: TReal for k in ('size', 'Tc', 'Tw', 'Tz', 'Ts', 'TL', 'n', 'w', 'h', 'de', 'vx', 'vy')}}

    def run(self, **v):
        c = ctx()
        ctm, M, x = (tuple(v['%s%d' % (p, i)] for i in range(k)) for p, k in (('c', 6), ('m', 6), ('x', MOVES[self.op])))
        self.cid = cid = (65, 32)[c.decide(2)]
        f = Font(v['w'], v['h'], v['de'], v['h'], (None if c.decide(2) else v['vx'], v['vy']) if self.vertical else 0, self.vertical, not c.decide(2))
        st = new_state(self, ctm, fonts={'F': f})
        LIT = self.mod('pdfmajor.parser.PSStackParser').PSLiteral
        op, s = self.op, bytes([cid])
        pre = [('BT',), ('Tf', LIT('F'), v['size'])] + [(k, v[k]) for k in ('Tc', 'Tw', 'Tz', 'Ts', 'TL')] + [('Tm',) + M, ('TJ', LST(v['n']))]
        mid = [] if op == 'none' else [("'", b'')] if op == "'" else [('"',) + x + (b'',)] if op == '"' else [('TJ', LST(*x))] if op == 'TJ' else [('ET',), ('BT',)] if op == 'BT' else [(op,) + x]
        end = [('Tj', s), ('Tj', s), ('T*',), ('Tj', s), ('ET',)]
        m = self.m = Model(f, ctm, v['size'], v['Tc'], v['Tw'], v['Tz'], v['Ts'], v['TL'], M)
        m.move(v['n'])
        return drive(self, st, pre + mid + end)

    def ensures(self, out, **v):
        if out[0] != 'ok':
            return [('no exception', False)]
        m, op, cid = self.m, self.op, self.cid
        x = tuple(v['x%d' % i] for i in range(MOVES[op]))
        if op in ('Td', 'TD'):
            m.line(*x)
            if op == 'TD':
                m.TL = -x[1]
        elif op in ('T*', "'", '"'):
            if op == '"':
                m.Tw, m.Tc = x
            m.line(0, -m.TL)
        elif op == 'Tm':
            m.M, m.off = x, (0, 0)
        elif op == 'TJ':
            m.move(x[0])
        elif op == 'BT':
            m.M, m.off = IDENT, (0, 0)
        elif op == 'TL':
            m.TL = x[0]
        want = [m.glyph(cid), m.glyph(cid)]
        m.line(0, -m.TL)
        want.append(m.glyph(cid))
        g = chars(out[1])
        r = [('three glyphs', len(g) == 3 and [a for a, b in g] == ['c'] * 3)]
        for i, ((t, b), w) in enumerate(zip(g, want)):
            r += [('box of glyph %d: %s' % (i, n), EQ(b[k], w[k])) for k, n in enumerate(('x0', 'y0', 'x1', 'y1'))]
        return r


contracts = [One(op, v) for op in MOVES for v in (False, True)]


# ------------------------------------------------------------------ strings of any length, arrays of any length
Ints = TList(TInt)
R = lambda name: UF('text_' + name, (), TReal)
FS, TC, TW, TZ, RISE, H, DE, START = [R(n) for n in ('size', 'charspace', 'wordspace', 'scaling', 'rise', 'height', 'descent', 'start')]
MAT = [R('m%d' % i) for i in range(6)]
codes = UF('font_decode', (TBytes,), Ints)
width_of = UF('font_width', (TInt,), TReal)
text_of = UF('font_unichr', (TInt,), TStr)
Pt2 = TTuple(TReal, TReal, tag='pt2')
Box2 = TTuple(Pt2, Pt2, tag='box2')
CharT = TTuple(TStr, Box2, tag='char')
Chars = TList(CharT)


def elem(t):
    return t[1] if V.truth(t[0]) else t[2]


TElem = TObj('tj', TTuple(TBool, TReal, TBytes, tag='tj'), elem, lambda o: None)
Elems = TList(TElem)
ElemT = TElem.ty


def _model(vertical, o, cid):
    """the model, o along the line, and the box of the glyph there"""
    m = Model(Font(width_of, H(), DE(), vertical=vertical, multibyte=True), IDENT, FS(), TC(), TW(), TZ(), RISE(), 0, tuple(x() for x in MAT))
    m.off = (o, 0)
    return m, m.glyph(cid)


@spec_fn((TInt, TReal), CharT)
def glyph(cid, o):
    b = _model(False, o, cid)[1]
    return (text_of(cid), ((b[0], b[1]), (b[2], b[3])))


@spec_fn((TInt,), TReal)
def step(cid):
    return (width_of(cid) * FS() + TC() + ITE(EQ(cid, 32), TW(), 0)) * TZ() / 100


@spec_fn((Ints, TInt, TReal), TReal)
def off_in(D, j, a):
    """displacement after the first j codes"""
    if j <= 0:
        return a
    return off_in(D, j - 1, a) + step(AT(D, j - 1))


@spec_fn((Ints, TInt, TReal), Chars)
def shown_in(D, j, a):
    if j <= 0:
        return LST()
    return shown_in(D, j - 1, a) + LST(glyph(AT(D, j - 1), off_in(D, j - 1, a)))


@spec_fn((TList(ElemT), TInt, TReal), TReal)
def off(S, i, a):
    """displacement after the first i elements of a TJ array"""
    if i <= 0:
        return a
    e = AT(S, i - 1)
    p = off(S, i - 1, a)
    if e[0]:
        return p - e[1] * FS() / 1000 * TZ() / 100
    D = codes(e[2])
    return off_in(D, LEN(D), p)


@spec_fn((TList(ElemT), TInt, TReal), Chars)
def shown(S, i, a):
    if i <= 0:
        return LST()
    e = AT(S, i - 1)
    p = shown(S, i - 1, a)
    if e[0]:
        return p
    D = codes(e[2])
    return p + shown_in(D, LEN(D), off(S, i - 1, a))


class SymFont(Font):
    def __init__(self, st):
        Font.__init__(self, None, H(), DE())
        self.st = st

    def decode(self, b):
        D = codes(b)
        ctx().ghost['ghost'].D = D
        return D

    def to_unichr(self, cid):
        return text_of(cid)

    def char_width(self, cid):
        o = self.st[0].text.linematrix[0]
        glyph(cid, o)
        step(cid)
        return width_of(cid)


class Strings(Contract):
    """TJ with an array of any numbers and strings of any length, in a font of any metrics"""
    name = 'strings of any length'
    internal = True
    budget_s = 400
    target = [TD + ':decode_text_seq', TD + ':__render_string_along']

    def outer(v):
        S, a = v.ghost.S, v.ghost.start
        return [('displacement', EQ(v.textstate.linematrix[0], off(S, v._k, a))), ('characters', EQ(v.char_meta_datas, shown(S, v._k, a)))]

    def entry(v):
        v.ghost.o0 = v.textstate.linematrix[0]
        v.ghost.c0 = v.char_meta_datas + LST()

    def inner(v):
        D = v.ghost.D
        return [('displacement in a string', EQ(v.textstate.linematrix[0], off_in(D, v._k, v.ghost.o0))), ('characters of a string', EQ(v.char_meta_datas, v.ghost.c0 + shown_in(D, v._k, v.ghost.o0)))]

    loops = [LoopSpec(where='__render_string_along#0', inv=outer, types={'char_meta_datas[]': Chars, '*.linematrix': HItems(TNum, TConst(0))}),
             LoopSpec(where='__render_string_along#1', inv=inner, entry=entry, types={'char_meta_datas[]': Chars, '*.linematrix': HItems(TNum, TConst(0))})]

    def inputs(self):
        return dict(S=TList(ElemT))

    def run(self, S):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.S = S
        ctx().ghost['ghost'] = g
        box = []
        f = SymFont(box)
        st = new_state(self, fonts={'F': f})
        box.append(st)
        LIT = self.mod('pdfmajor.parser.PSStackParser').PSLiteral
        pre = [('BT',), ('Tf', LIT('F'), FS()), ('Tc', TC()), ('Tw', TW()), ('Tz', TZ()), ('Ts', RISE()), ('Tm',) + tuple(x() for x in MAT), ('TJ', LST(START()))]
        drive(self, st, pre)
        g.start = st.text.linematrix[0]
        return self.outcome(lambda: self.mod(TD).decode_text_seq(Elems.wrap(TList(ElemT).unwrap(S)), IDENT, st.text, None))

    def ensures(self, out, S):
        if out[0] != 'ok':
            return [('no exception', False)]
        n = LEN(S)
        a = ctx().ghost['ghost'].start
        return [('characters and their boxes', EQ(out[1][0], shown(S, n, a))), ('displacement', EQ(out[1][1].linematrix[0], off(S, n, a)))]


contracts.append(Strings())


# ------------------------------------------------------------------ the items made of the characters
class LT:
    """an LTChar as its text and box"""
    def __init__(self, t):
        self.t = t


TLT = TObj('ltchar', CharT, LT, lambda o: o.t if type(o) is LT else (o.get_text(), ((o.x0, o.y0), (o.x1, o.y1))) if type(o).__name__ == 'LTChar' else None)


def as_chars(l):
    return Chars.wrap(TList(TLT).unwrap(l))


def _bound(name, which, low):
    def f(L, k):
        b = AT(L, k - 1)[1][0 if low else 1][which]
        if k <= 1:
            return b
        p = f(L, k - 1)
        return ITE(b < p, b, p) if low else ITE(b > p, b, p)
    f.__name__ = name
    f = spec_fn((Chars, TInt), TReal)(f)
    return f


BOUNDS = [_bound('char_' + n, w, lo) for n, w, lo in (('x0', 0, True), ('y0', 1, True), ('x1', 0, False), ('y1', 1, False))]


class Block(Contract):
    """a block keeps every character in order; its box is the smallest that contains theirs"""
    name = 'block of characters of any length'
    internal = True
    target = [LAY + '.LTCharBlock:LTCharBlock.__init__', LAY + '.LTChar:LTChar.__init__', TB + '.add_char_block', LAY + '._base:LTContainer.__init__']

    def inv(v):
        L, k = v.ghost.L, v._k + 1
        got = as_chars(v.ltchars)
        return [('box so far: ' + n, EQ(getattr(v, n), f(L, k))) for n, f in zip(('x0', 'y0', 'x1', 'y1'), BOUNDS)] + [
            ('box is proper', AND(v.x0 <= v.x1, v.y0 <= v.y1)), ('as many characters', EQ(LEN(got), k)),
            ('the characters', EQ(got, L[:k]))]

    loops = [LoopSpec(where='__init__#0', inv=inv, types={'ltchars': TList(TLT), **{k: TNum for k in ('x0', 'y0', 'x1', 'y1')}})]

    def inputs(self):
        return dict(L=Chars)

    def requires(self, L):
        return AND(LEN(L) >= 1, FORALL(LEN(L), lambda i: AND(AT(L, i)[1][0][0] <= AT(L, i)[1][1][0], AT(L, i)[1][0][1] <= AT(L, i)[1][1][1])))

    def run(self, L):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.L = L
        ctx().ghost['ghost'] = g
        st = new_state(self, fonts={})
        st.text.font = Font(0, 0, 0)
        return self.outcome(lambda: self.mod(LAY + '.LTCharBlock').LTCharBlock(L, st.text, 'colour'))

    def ensures(self, out, L):
        if out[0] != 'ok':
            return [('no exception', False)]
        b = out[1]
        n = LEN(L)
        got = as_chars(b._objs)
        r = [('box: ' + k, EQ(getattr(b, k), f(L, n))) for k, f in zip(('x0', 'y0', 'x1', 'y1'), BOUNDS)]
        return r + [('the characters', EQ(got, L)), ('colour', b.color == 'colour')]


contracts.append(Block())


# ------------------------------------------------------------------ content streams
WIDTHS = {97: .5, 98: 1, 99: .25, 32: .25}


class RealFont(Font):
    def __init__(self, vertical=False, multibyte=False):
        Font.__init__(self, lambda c: -1 if vertical else WIDTHS.get(c, .75), 1.25, -.25, 1, None, vertical, multibyte)

    def char_disp(self, cid):
        return ((None, 880) if cid % 2 else (500, 800)) if self.vertical else 0

    def to_unichr(self, cid):
        return chr(cid)


NT = dict(Tc=1, Tw=1, Tz=1, TL=1, Ts=1, Td=2, TD=2, Tm=6, cm=6, q=0, Q=0)
NT.update({'T*': 0})


class Streams(Contract):
    """text objects of any operators"""
    name = 'text of content streams'
    target = [K + ':begin_text', K + ':end_text', K + ':move_text_x', K + ':move_text_y', K + ':nextline', K + ':add_char_blocks', K + ':add_dbquoted_char_blocks', TB + '.add_char_block', TD + ':decode_text_seq', LAY + '.LTCharBlock:LTCharBlock.__init__', C + ':process_command_stream']
    search_n = 4000

    def gen(self, rng):
        ops = []
        n = lambda k: tuple(rng.choice([0, 1, 2, -3, .5, 10, -1.25]) for _ in range(k))
        s = lambda: bytes(rng.choice(b'abc  z') for _ in range(rng.choice([0, 1, 1, 2, 3])))
        mat = lambda: rng.choice([n(6), (1, 0, 0, 1, 5, 7), (0, 1, -1, 0, 5, 5), (1, 1, -1, 1, 0, 3), (2, 0, 0, -2, 1, 1)])
        font = lambda: [('Tf', rng.choice('FFVM'), rng.choice([8, 1, 2.5, -4]))] + [('Tz', rng.choice([100, 50, 200]))] * (rng.random() < .3)
        if rng.random() < .5:
            ops.append(('cm',) + mat())
        ops += font()
        for _ in range(rng.randrange(1, 4)):
            ops.append(('BT',))
            for _ in range(rng.randrange(1, 9)):
                k = rng.randrange(11)
                if k < 2:
                    ops.append(('Tj', s()))
                elif k == 2:
                    ops.append(('TJ', tuple(rng.choice([s(), n(1)[0], 100, -250]) for _ in range(rng.randrange(5)))))
                elif k == 3:
                    ops.append(("'", s()))
                elif k == 4:
                    ops.append(('"',) + n(2) + (s(),))
                elif k == 5:
                    ops += font()
                elif k == 6:
                    ops.append(('Tm',) + mat())
                else:
                    o = rng.choice(['Tc', 'Tw', 'Tz', 'TL', 'Ts', 'Td', 'TD', 'T*'])
                    ops.append((o,) + n(NT[o]))
            ops.append(('ET',))
            if rng.random() < .3:
                ops.append(('cm',) + mat())
        return dict(ops=ops)

    def requires(self, ops):
        inside = False
        ok = lambda xs: all(type(v) in (int, float) and abs(v) <= 1000 and v * 4 == int(v * 4) for v in xs)
        if sum(o[:1] == ('cm',) for o in ops) > 4 or len(ops) < 2 or 'Tf' not in [o[0] for o in ops[:2] if o]:
            return False
        for o in ops:
            if type(o) is not tuple or not o:
                return False
            op, x = o[0], o[1:]
            if op in ('BT', 'ET'):
                good = not x and inside == (op == 'ET')
                inside = op == 'BT'
            elif op == 'Tf':
                good = len(x) == 2 and x[0] in ('F', 'V', 'M') and ok(x[1:])
            elif op in ('Tj', "'", '"', 'TJ'):
                good = inside and len(x) == (3 if op == '"' else 1) and ok(x[:-1])
                l = list(x[-1]) if op == 'TJ' and x and type(x[-1]) is tuple else list(x[-1:]) if op != 'TJ' else [None]
                good = good and all(type(e) is bytes and all(c in b'abc z' for c in e) or ok([e]) and op == 'TJ' for e in l if e is not None) and None not in l
            else:
                good = op in NT and op not in 'qQ' and len(x) == NT[op] and ok(x) and (op != 'cm' or not inside)
            if not good:
                return False
        return not inside

    def want(self, ops):
        m, r = Model(None, IDENT), []
        fonts = dict(F=RealFont(), V=RealFont(True, True), M=RealFont(False, True))
        for o in ops:
            op, x = o[0], o[1:]
            if op == 'BT':
                m.M, m.off, block = IDENT, (0, 0), []
                r.append(block)
            elif op == 'cm':
                m.ctm = mul(x, m.ctm)
            elif op == 'Tf':
                m.font, m.size = fonts[x[0]], x[1]
            elif op in ('Tc', 'Tw', 'Tz', 'TL', 'Ts'):
                setattr(m, op, x[0])
            elif op in ('Td', 'TD'):
                m.line(*x)
                if op == 'TD':
                    m.TL = -x[1]
            elif op == 'Tm':
                m.M, m.off = x, (0, 0)
            elif op != 'ET':
                if op == '"':
                    m.Tw, m.Tc = x[:2]
                if op in ('T*', "'", '"'):
                    m.line(0, -m.TL)
                for e in x[-1] if op == 'TJ' else x[-1:] if op != 'T*' else ():
                    if type(e) is bytes:
                        block += [(chr(c), m.glyph(c)) for c in e]
                    else:
                        m.move(e)
        return r

    def run(self, ops):
        PDFStream = self.mod('pdfmajor.parser.PDFStream').PDFStream
        out = []
        for o in ops:
            for a in o[1:]:
                out.append(b'/' + a.encode() if type(a) is str else b'(' + a + b')' if type(a) is bytes else b'[' + b' '.join(b'(' + e + b')' if type(e) is bytes else num(e) for e in a) + b']' if type(a) is tuple else num(a))
            out.append(o[0].encode())
        st = new_state(self, fonts=dict(F=RealFont(), V=RealFont(True, True), M=RealFont(False, True)))

        def go():
            r = []
            for b in self.mod(C).process_command_stream([PDFStream({}, b' '.join(out))], {}, st):
                cs = [(c.get_text(), (c.x0, c.y0, c.x1, c.y1)) for s in b for c in s]
                sub = [(s.x0, s.y0, s.x1, s.y1) for s in b]
                r.append((cs, sub, [len(list(s)) for s in b], (b.x0, b.y0, b.x1, b.y1)))
            return r
        return self.outcome(go)

    def ensures(self, out, ops):
        if out[0] != 'ok':
            return [('no exception', False)]
        want = self.want(ops)
        r = [('characters and where they are', close([x[0] for x in out[1]], want))]
        un = lambda bs: tuple(f(b[i] for b in bs) for f, i in ((min, 0), (min, 1), (max, 2), (max, 3))) if bs else (None,) * 4
        for cs, sub, ns, box in out[1]:
            i = 0
            for s, n in zip(sub, ns):
                r.append(('box of a block of characters', n > 0 and s == un([c[1] for c in cs[i:i + n]])))
                i += n
            r.append(('box of the text', box == un(sub)))
        return r

    def explain(self, out, **kw):
        return 'wanted %r' % (self.want(**kw),)


probes = [Streams()]
