"""Graphics state: q and Q, the operators that set parameters, colours, and what painting records."""
from vc.contract import *
from .interp import *

NUM = dict(w=1, J=1, j=1, M=1, i=1, Tc=1, Tw=1, Tz=1, TL=1, Tr=1, Ts=1)
FIELDS = ['w', 'J', 'j', 'M', 'i', 'Tc', 'Tw', 'Tz', 'TL', 'Tr', 'Ts', 'd', 'ri', 'cm', 'font', 'size', 'stroke', 'fill']
SPACES = {'G': 'DeviceGray', 'RG': 'DeviceRGB', 'K': 'DeviceCMYK'}
COMP = {'G': 1, 'RG': 3, 'K': 4}
IDENT = (1, 0, 0, 1, 0, 0)


def look(st):
    """every parameter of the graphics state, text parameters included, without the text position"""
    g, t = st.graphics, st.text
    return {'w': g.linewidth, 'J': g.linecap, 'j': g.linejoin, 'M': g.miterlimit, 'i': g.flatness, 'd': g.dash, 'ri': g.intent, 'cm': tuple(st.t_matrix),
            'Tc': t.charspace, 'Tw': t.wordspace, 'Tz': t.scaling, 'TL': t.leading, 'Tr': t.render, 'Ts': t.rise, 'font': t.font, 'size': t.fontsize,
            'stroke': (g.scolor.color_space, tuple(g.scolor.values)), 'fill': (g.ncolor.color_space, tuple(g.ncolor.values)), 'sspace': g.scolspace, 'nspace': g.ncolspace}


def same(a, b):
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and AND(*[same(x, y) for x, y in zip(a, b)])
    if V.isnum(a) and V.isnum(b):
        return EQ(a, b)
    return a is b


def all_same(pre, a, b):
    return [('%s: %s' % (pre, k), same(a[k], b[k])) for k in b]


def reals(p, n):
    return {'%s%d' % (p, i): TReal for i in range(n)}


def mul(m, n):
    """the matrix of m followed by n"""
    a, b, c, d, e, f = m
    A, B, C_, D, E, F = n
    return (a * A + b * C_, a * B + b * D, c * A + d * C_, c * B + d * D, e * A + f * C_ + E, e * B + f * D + F)


def nearest(r, x):
    """r is an integer nearest to x"""
    return AND(2 * (r - x) <= 1, 2 * (x - r) <= 1)


class Settings:
    """an arbitrary state, made by operators from fresh operands"""
    def __init__(self, con, p, vals):
        self.c, self.p, self.v = con, p, vals

    @staticmethod
    def inputs(p):
        r = {p + k: TReal for k in NUM}
        r.update({p + 'size': TReal, p + 'd1': TReal})
        for s in ('cm', 'S', 'N'):
            r.update(reals(p + s, 6))
        return r

    def get(self, k, n=None):
        return self.v[self.p + k] if n is None else [self.v['%s%s%d' % (self.p, k, i)] for i in range(n)]

    def colour(self, upper, kind):
        o = (lambda s: s) if upper else str.lower
        v = self.get('S' if upper else 'N', 6)
        if kind in COMP:
            return [(o(kind),) + tuple(v[:COMP[kind]])]
        n = int(kind)
        LIT = self.c.mod('pdfmajor.parser.PSStackParser').PSLiteral
        return [(o('CS'), LIT('N%d' % n)), (o('SC') if n % 2 else o('SCN'),) + tuple(v[:n])]

    def ops(self, stroke, fill, text=True):
        LIT = self.c.mod('pdfmajor.parser.PSStackParser').PSLiteral
        self.dash = ['dash', self.p]
        self.intent = LIT('I' + self.p)
        r = [(k, self.get(k)) for k in NUM]
        r += [('d', self.dash, self.get('d1')), ('ri', self.intent), ('cm',) + tuple(self.get('cm', 6)), ('Tf', LIT('F' + self.p), self.get('size'))]
        if stroke:
            r += self.colour(True, stroke)
        if fill:
            r += self.colour(False, fill)
        return r


def spaces(con):
    m = con.mod(ST)
    return {'N%d' % n: m.PDFColorSpace('Custom', n) for n in range(6)}


GRAPHICS = ['w', 'J', 'j', 'M', 'i', 'd', 'ri', 'stroke', 'fill', 'sspace', 'nspace']
KINDS = [None, 'G', 'RG', 'K', '0', '2', '5']


def walk(x, out, path):
    """mutable objects reachable from a state, fonts, colour spaces and the text position aside"""
    if id(x) in out or x is None or isinstance(x, (int, float, str, bytes, V.Sym)) or type(x).__name__ in ('PDFColorSpace', 'Face', 'PSLiteral') or path[-1:] == ('linematrix',):
        return
    if type(x) in (list, VList):
        out[id(x)] = (path, x)
    if type(x) in (list, VList, tuple):
        if type(x) is VList and not all(type(i) is int for i in range(0)):
            return
        for i, y in enumerate(x):
            walk(y, out, path + (i,))
    elif hasattr(x, '__dict__') and not isinstance(x, type):
        out[id(x)] = (path, x)
        for k, y in vars(x).items():
            walk(y, out, path + (k,))


class Restore(Contract):
    """whatever happens between q and the matching Q, Q gives back the state at q"""
    target = [K + ':save_state', K + ':restore_state', ST + '.PDFGraphicState:PDFGraphicState.copy', ST + '.PDFTextState:PDFTextState.copy', C + ':process_command_stream']
    internal = True
    budget_s = 400

    def __init__(self, which, known=False):
        self.which, self.known = which, known
        self.name = 'q and Q, %s' % which if not known else 'Q restores the graphics parameters'

    def inputs(self):
        return {**Settings.inputs('a'), **Settings.inputs('b'), **Settings.inputs('c')}

    def run(self, **vals):
        c = ctx()
        a, b, b2 = [Settings(self, p, vals) for p in 'abc']
        k = KINDS[c.decide(len(KINDS))]
        s0, f0 = (k, None) if self.which == 'stroking colour' else (None, k)
        k2 = KINDS[1 + c.decide(len(KINDS) - 1)]
        st = self.st = new_state(self, fonts={'Fa': Face(), 'Fb': Face(), 'Fc': Face()}, spaces=spaces(self))
        r = []
        r.append(drive(self, st, [('q',), ('Q',), ('Q',)] + a.ops(s0, f0)))
        self.at = [look(st)]
        r.append(drive(self, st, [('q',)]))
        self.at.append(look(st))
        r.append(drive(self, st, b.ops(k2, k2)))
        self.at.append(look(st))
        r.append(drive(self, st, [('q',)] + b2.ops(k, 'K') + [('Q',)]))
        self.at.append(look(st))
        self.free = []
        keep, now = {}, {}
        walk(st.gstack, keep, ())
        for k_ in ('graphics', 'text'):
            walk(getattr(st, k_), now, (k_,))
        self.shared = [now[i][0] for i in now if i in keep]
        r.append(drive(self, st, [('Q',)]))
        self.at.append(look(st))
        r.append(drive(self, st, [('Q',)]))
        self.at.append(look(st))
        return r

    def ensures(self, out, **vals):
        at = self.at
        if self.known:
            return all_same('restored', {k: at[4][k] for k in GRAPHICS}, {k: at[0][k] for k in GRAPHICS})
        kept = lambda d: {k: v for k, v in d.items() if k not in GRAPHICS}
        return [('no exception, nothing painted', all(x == ('ok', []) for x in out)), ('the saved state shares nothing that can change (%s)' % self.shared, not self.shared)] + \
            all_same('q changes nothing', at[1], at[0]) + all_same('inner pair', kept(at[3]), kept(at[2])) + all_same('restored', kept(at[4]), kept(at[0])) + \
            all_same('Q without q changes nothing', at[5], at[4]) + \
            [('the other parameters are those at q, or those before Q', OR(AND(*[same(at[4][k], at[0][k]) for k in GRAPHICS]), AND(*[same(at[4][k], at[3][k]) for k in GRAPHICS])))]


contracts = [Restore('stroking colour'), Restore('filling colour'), Restore('filling colour', True)]


# ------------------------------------------------------------------ every operator
class Op(Contract):
    """an operator sets its parameter and nothing else"""
    internal = True
    budget_s = 300
    target = [C + ':process_command_stream']

    def __init__(self, op, n, target, text=False):
        self.op, self.n = op, n
        self.name = 'operator ' + op
        self.target = [K + ':' + target, C + ':process_command_stream', ST + ':PDFStateStack.pop']

    def inputs(self):
        r = Settings.inputs('a')
        r.update(reals('x', self.n))
        return r

    def run(self, **vals):
        c = ctx()
        LIT = self.mod('pdfmajor.parser.PSStackParser').PSLiteral
        a = Settings(self, 'a', vals)
        colour = self.op.upper() in ('CS', 'SC', 'SCN', 'G', 'RG', 'K')
        kinds = KINDS if colour else ['RG']
        k = kinds[c.decide(len(kinds))]
        sp = self.sp = spaces(self)
        self.faces = {'Fa': Face(), 'Fx': Face()}
        st = new_state(self, fonts=self.faces, spaces=sp)
        first = drive(self, st, a.ops(k, k))
        x = [vals['x%d' % i] for i in range(self.n)]
        op = self.op
        args = list(x)
        self.dash, self.kind = ['dash'], k
        if op == 'd':
            args = [self.dash, x[0]]
        elif op == 'ri':
            args = [LIT('Perceptual')]
        elif op == 'Tf':
            args = [LIT('Fx'), x[0]]
        elif op.upper() == 'CS':
            m = self.mod(ST)
            sp.update({k: m.PREDEFINED_COLORSPACE[k] for k in m.PREDEFINED_COLORSPACE})
            names = ['N0', 'N3'] + [k for k in m.PREDEFINED_COLORSPACE]
            st.colorspace_map['Sep'] = sp['Sep'] = m.PDFColorSpace('Separation', 1)
            st.colorspace_map['Many'] = sp['Many'] = m.PDFColorSpace('DeviceN', 4)
            st.colorspace_map['Icc'] = sp['Icc'] = m.PDFColorSpace('ICCBased', 3)
            names += ['Sep', 'Many', 'Icc']
            self.cs = names[c.decide(len(names))]
            args = [LIT(self.cs)]
        elif op.upper() in ('SC', 'SCN'):
            n = {None: 1, 'G': 1, 'RG': 3, 'K': 4}.get(k)
            args = args[:int(k) if n is None else n]
        self.args = args
        self.before = look(st)
        self.out = (first, drive(self, st, [(op,) + tuple(args)]))
        return look(st)

    def ensures(self, after, **vals):
        x, op = self.args, self.op
        want = dict(self.before)
        up = op.upper() == op
        if op in NUM:
            want[op] = x[0]
            if op == 'TL':              # which sign it is kept with is not seen here
                want[op] = after[op] if V.truth(EQ(after[op], -x[0])) else x[0]
        elif op == 'd':
            want['d'] = tuple(x)
        elif op == 'ri':
            want['ri'] = x[0]
        elif op == 'cm':
            want['cm'] = mul(tuple(x), want['cm'])
        elif op == 'Tf':
            want['font'], want['size'] = self.faces['Fx'], x[1]
        r = []
        P = self.mod(ST).PREDEFINED_COLORSPACE
        which, sp = ('stroke', 'sspace') if up else ('fill', 'nspace')
        if op.upper() in COMP:
            got = after[which][1]
            s = P[SPACES[op.upper()]]
            if op.upper() == 'RG':
                r += [('components from 0 to 255', len(got) == 3 and AND(*[nearest(g, 255 * v) for g, v in zip(got, x)]))]
                x = got
            want[which], want[sp] = (s, tuple(x)), s
        elif op.upper() == 'CS':
            s = self.sp[self.cs]
            n = s.ncomponents
            init = {'Pattern': (), 'DeviceCMYK': (0, 0, 0, 1), 'Sep': (1,), 'Separation': (1,), 'Many': (1,) * 4}.get(self.cs, (0,) * n)
            want[which], want[sp] = (s, init), s
        elif op.upper() in ('SC', 'SCN'):
            want[which] = (want[sp], tuple(x))
        return r + [('no exception, nothing painted', all(o == ('ok', []) for o in self.out))] + all_same('after', after, want)


OPS = [('w', 1, 'set_line_width'), ('J', 1, 'set_linecap'), ('j', 1, 'set_linejoin'), ('M', 1, 'set_miterlimit'), ('i', 1, 'set_flatness'), ('Tc', 1, 'set_charspace'), ('Tw', 1, 'set_wordspace'),
       ('Tz', 1, 'set_textscale'), ('TL', 1, 'set_text_leading'), ('Tr', 1, 'set_text_rendering'), ('Ts', 1, 'set_textrise'), ('d', 1, 'set_dash'), ('ri', 0, 'set_intent'),
       ('cm', 6, 'concat_transition_matrix'), ('Tf', 1, 'set_font'), ('G', 1, 'set_stroke_gray'), ('g', 1, 'set_nonstroke_gray'), ('RG', 3, 'set_stroke_rgb'), ('rg', 3, 'set_nonstroke_rgb'),
       ('K', 4, 'set_stroke_cmyk'), ('k', 4, 'set_nonstroke_cmyk'), ('CS', 0, 'set_stroke_colorspace'), ('cs', 0, 'set_nonstroke_colorspace'), ('SC', 5, 'set_stroke_colorspace_custom'),
       ('SCN', 5, 'set_stroke_colorspace_custom'), ('sc', 5, 'set_nonstroke_colorspace_custom'), ('scn', 5, 'set_nonstroke_colorspace_custom')]
contracts += [Op(*o) for o in OPS]


# ------------------------------------------------------------------ painting
PAINT = ['S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*']


class Paint(Contract):
    """what is painted carries the line width and the colours of the moment, whatever comes later"""
    name = 'painting'
    internal = True
    target = [K + ':curve_complete_path', K + ':curve_complete_path_evenodd', K + ':curve_close_complete', K + ':curve_close_complete_evenodd', LAY + ':make_curve']

    def inputs(self):
        r = {**Settings.inputs('a'), **Settings.inputs('b')}
        r.update(reals('p', 6))
        return r

    def run(self, **vals):
        c = ctx()
        a, b = Settings(self, 'a', vals), Settings(self, 'b', vals)
        kinds = ['G', 'RG', '5']
        k = kinds[c.decide(3)]
        k2 = kinds[c.decide(3)]
        self.op = PAINT[c.decide(len(PAINT))]
        st = new_state(self, fonts={'Fa': Face(), 'Fb': Face(), 'Fc': Face()}, spaces=spaces(self))
        ops = [x for x in a.ops(k, k2) if x[0] != 'cm']
        drive(self, st, ops)
        self.before = look(st)
        p = [vals['p%d' % i] for i in range(6)]
        path = [('m', 0, 0), ('c',) + tuple(p)]
        out = drive(self, st, path + [(self.op,)])
        self.after = look(st)
        drive(self, st, b.ops(k2, k))
        return out

    def ensures(self, out, **vals):
        if out[0] != 'ok' or len(out[1]) != 1:
            return [('one item', False)]
        x, b = out[1][0], self.before
        return all_same('state', self.after, b) + [
            ('line width', EQ(x.linewidth, b['w'])), ('stroking colour', same((x.stroke.color_space, tuple(x.stroke.values)), b['stroke'])),
            ('filling colour', same((x.fill.color_space, tuple(x.fill.values)), b['fill'])), ('rule', x.evenodd is ('*' in self.op))]


contracts.append(Paint())


# ------------------------------------------------------------------ colour spaces of the resources
class Spaces(Contract):
    """the colour spaces that resources define"""
    name = 'colour spaces of resources'
    internal = True
    target = [C + '.utils:get_colorspace', C + '.utils:init_resources', C + ':prep_state']

    def inputs(self):
        return dict(n=TInt, names=TList(TInt))

    def run(self, n, names):
        m = self.mod(C)
        LIT = self.mod('pdfmajor.parser.PSStackParser').LIT
        icc = object()
        hooks.overrides = {'pdfmajor.parser.PDFStream.PDFStream:PDFStream.validated_stream': lambda cls, x: hooks.mkdict(('N', n)) if x is icc else None,
                           'pdfmajor.parser.PDFStream:PDFStream.validated_stream': lambda cls, x: hooks.mkdict(('N', n)) if x is icc else None}
        P = self.mod(ST).PREDEFINED_COLORSPACE
        cs = [('A%s' % k, LIT(k)) for k in P] + [('L%s' % k, LST(LIT(k), 1)) for k in P] + [('I', LST(LIT('ICCBased'), icc)), ('D', LST(LIT('DeviceN'), names, LIT('DeviceRGB'), 5))]
        res = hooks.mkdict(('ProcSet', LST(LIT('PDF'), LIT('Text'))), ('ColorSpace', hooks.mkdict(*cs)), ('Other', 1))

        def go():
            st = m.prep_state(m.PDFStateStack(), IDENT, res, hooks.mkdict())
            return st
        return self.outcome(go)

    def ensures(self, out, n, names):
        if out[0] != 'ok':
            return [('no exception', False)]
        st = out[1]
        P = self.mod(ST).PREDEFINED_COLORSPACE
        M = st.colorspace_map
        r = []
        for k in P:
            for q in ('', 'A', 'L'):
                r.append(('%s%s' % (q, k), M[q + k] is P[k]))
        return r + [('ICC profile', AND(M['I'].name == 'ICCBased', EQ(M['I'].ncomponents, n))), ('DeviceN', AND(M['D'].name == 'DeviceN', EQ(M['D'].ncomponents, LEN(names)))),
                    ('initial spaces', st.graphics.scolspace is P['DeviceGray'] and st.graphics.ncolspace is P['DeviceGray'])]


contracts.append(Spaces())


# ------------------------------------------------------------------ probe: content streams
NCOMP = {'DeviceGray': 1, 'DeviceRGB': 3, 'DeviceCMYK': 4, 'CalRGB': 3, 'Pattern': 1, 'Cs1': 3, 'Cs2': 2}
REAL = {'Cs1': 'ICCBased', 'Cs2': 'DeviceN'}


class Page:
    def __init__(self, mediabox, rotate, resources, contents):
        self.mediabox, self.rotate, self.resources, self.contents = mediabox, rotate, resources, contents


def num(x):
    return (b'%d' % x) if type(x) is int else ('%.3f' % x).encode()


def write_ops(ops):
    out = []
    for op in ops:
        for a in op[1:]:
            out.append(b'/' + a.encode() if type(a) is str else b'[' + b' '.join(num(x) for x in a) + b']' if type(a) in (list, tuple) else num(a))
        out.append(op[0].encode())
    return b' '.join(out)


class Model:
    """the graphics state after the standard; all: whether Q brings back the graphics parameters"""
    START = dict({k: None for k in 'JjMi'}, w=0, d=None, ri=None, cm=IDENT, Tc=0, Tw=0, Tz=100, Tr=0, Ts=0, stroke=(None, ()), fill=(None, ()), sspace='DeviceGray', nspace='DeviceGray')

    def __init__(self, all):
        self.all, self.s, self.stack, self.items = all, dict(self.START), [], []

    def do(self, op, *x):
        s = self.s
        up = op.upper() == op
        w, sp = ('stroke', 'sspace') if up else ('fill', 'nspace')
        if op == 'q':
            self.stack.append(dict(s))
        elif op == 'Q':
            if self.stack:
                o = self.stack.pop()
                self.s = o if self.all else {**o, **{k: s[k] for k in GRAPHICS}}
        elif op in NUM:
            s[op] = x[0]
        elif op == 'd':
            s['d'] = (list(x[0]), x[1])
        elif op == 'ri':
            s['ri'] = x[0]
        elif op == 'cm':
            s['cm'] = mul(x, s['cm'])
        elif op.upper() in COMP:
            s[sp] = SPACES[op.upper()]
            s[w] = (s[sp], tuple(round(v * 255) for v in x) if op.upper() == 'RG' else tuple(x))
        elif op.upper() == 'CS':
            s[sp] = x[0]
            n = NCOMP[x[0]]
            s[w] = (x[0], {'Pattern': (), 'DeviceCMYK': (0, 0, 0, 1), 'Cs2': (1, 1)}.get(x[0], (0,) * n))
        elif op.upper() in ('SC', 'SCN'):
            s[w] = (s[sp], tuple(x))
        else:
            pt = [(a * s['cm'][0] + b * s['cm'][2] + s['cm'][4], a * s['cm'][1] + b * s['cm'][3] + s['cm'][5]) for a, b in ((1, 2), (30, 50))]
            box = [min(p[0] for p in pt), min(p[1] for p in pt), max(p[0] for p in pt), max(p[1] for p in pt)]
            self.items.append((s['w'], s['stroke'], s['fill'], '*' in op, box if op not in ('s', 'b', 'b*') else None))


def close(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


class Streams(Contract):
    """content streams of any operators of the graphics state, nested to any depth"""
    name = 'graphics state of content streams'
    target = [K + ':save_state', K + ':restore_state', C + ':process_command_stream', 'pdfmajor.interpreter.PageInterpreter:PageInterpreter.__iter__']
    search_n = 3000

    def gen(self, rng):
        ops, sp = [], [('DeviceGray', 'DeviceGray')]
        n = lambda: rng.choice([0, 1, round(rng.uniform(-3, 3), 3), rng.randrange(-20, 20), .5])
        u = lambda: rng.choice([0, 1, round(rng.random(), 3)])
        deep = 0
        for _ in range(rng.randrange(1, 25)):
            k = rng.choice(['q', 'Q', 'S', 'S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'cm', 'num', 'num', 'col', 'col', 'col', 'space', 'space', 'd', 'ri'])
            if k == 'num':
                ops.append((rng.choice(['w', 'J', 'j', 'M', 'i', 'Tc', 'Tw', 'Tz', 'Tr', 'Ts']), n()))
            elif k == 'col':
                o = rng.choice(['G', 'RG', 'K'])
                ops.append((rng.choice([o, o.lower()]),) + tuple(u() for _ in range(COMP[o])))
            elif k == 'space':
                up = rng.random() < .5
                c = rng.choice(list(NCOMP))
                f = (lambda s: s) if up else str.lower
                ops.append((f('CS'), c))
                if rng.random() < .7:
                    ops.append((rng.choice([f('SC'), f('SCN')]),) + (('P1',) if c == 'Pattern' else tuple(u() for _ in range(NCOMP[c]))))
            elif k == 'd':
                ops.append(('d', tuple(rng.randrange(9) for _ in range(rng.randrange(3))), n()))
            elif k == 'ri':
                ops.append(('ri', rng.choice(['Perceptual', 'Saturation'])))
            elif k == 'cm':
                ops.append(('cm',) + rng.choice([tuple(rng.choice([0, 0, 1, 2, -1, .5, 3]) for _ in range(6)), (rng.choice([2, 1, -1, .5]), 0, 0, rng.choice([3, 1, -1]), 0, 0), (2, 0, 0, .5, 3, 4), (0, 1, -1, 0, 5, 5), (1, .25, -.5, 1, 0, 0), (1, 0, 0, 1, -7, 9)]))
            else:
                ops.append((k,))
        # now and then components without selecting the space again
        for i, o in enumerate(list(ops)):
            if rng.random() < .1:
                m = Model(True)
                m2 = Model(False)
                for p in ops[:i]:
                    m.do(*p)
                    m2.do(*p)
                if m.s['nspace'] == m2.s['nspace'] and m.s['nspace'] != 'Pattern':
                    ops.insert(i, ('sc',) + tuple(u() for _ in range(NCOMP[m.s['nspace']])))
                    break
        return dict(ops=ops)

    def requires(self, ops):
        m, m2 = Model(True), Model(False)
        num_ = lambda xs: all(type(v) in (int, float) and abs(v) < 1e5 for v in xs)
        for o in ops:
            if type(o) is not tuple or not o or type(o[0]) is not str:
                return False
            op, x = o[0], o[1:]
            if op in ('q', 'Q') or op in PAINT:
                ok = not x
            elif op in NUM and op != 'TL':
                ok = len(x) == 1 and num_(x)
            elif op == 'cm':
                ok = len(x) == 6 and num_(x)
            elif op == 'd':
                ok = len(x) == 2 and type(x[0]) is tuple and num_(x[0]) and num_(x[1:])
            elif op == 'ri':
                ok = len(x) == 1 and x[0] in ('Perceptual', 'Saturation')
            elif op.upper() in COMP and op in ('G', 'g', 'RG', 'rg', 'K', 'k'):
                ok = len(x) == COMP[op.upper()] and num_(x)
            elif op in ('CS', 'cs'):
                ok = len(x) == 1 and x[0] in NCOMP
            elif op in ('SC', 'SCN', 'sc', 'scn'):
                k = 'sspace' if op.upper() == op else 'nspace'
                ok = m.s[k] == m2.s[k] and (x == ('P1',) if m.s[k] == 'Pattern' else len(x) == NCOMP[m.s[k]] and num_(x))
            else:
                ok = False
            if not ok:
                return False
            m.do(*o)
            m2.do(*o)
        return True

    def run(self, ops):
        LIT = self.mod('pdfmajor.parser.PSStackParser').LIT
        PDFStream = self.mod('pdfmajor.parser.PDFStream').PDFStream
        data = write_ops([x for o in ops for x in ((('m', 1, 2), ('l', 30, 50), o) if o[0] in PAINT else (o,))])
        res = {'ColorSpace': {'Cs1': [LIT('ICCBased'), PDFStream({'N': 3}, b'')], 'Cs2': [LIT('DeviceN'), [LIT('A'), LIT('B')], LIT('DeviceRGB'), 0]}}
        page = Page([0, 0, 612, 792], 0, res, [PDFStream({}, data)])

        def go():
            p = self.mod('pdfmajor.interpreter').PageInterpreter(page, 0)
            items = []
            pl = lambda v: [getattr(x, 'name', x) for x in v]
            col = lambda c: (c.color_space and c.color_space.name, tuple(pl(c.values)))
            for x in list(p):
                items.append((x.linewidth, col(x.stroke), col(x.fill), x.evenodd, [x.x0, x.y0, x.x1, x.y1]))
            s = look(p.state)
            return items, {**{k: v for k, v in s.items() if k not in ('stroke', 'fill', 'sspace', 'nspace')}, 'ri': s['ri'] and s['ri'].name}
        return self.outcome(go)

    def ensures(self, out, ops):
        if out[0] != 'ok':
            return [('no exception', False)]
        items, s = out[1]
        ok = okt = False
        self.want = []
        for al in (True, False):
            m = Model(al)
            for o in ops:
                m.do(*o)
            want = [(w, (REAL.get(a[0], a[0]), a[1]), (REAL.get(b[0], b[0]), b[1]), e, bb) for w, a, b, e, bb in m.items]
            self.want.append(want)
            g = [x[:4] + ((None,) if want[i][4] is None else (x[4],)) for i, x in enumerate(items)] if len(items) == len(want) else items
            good = close(g, want)
            good2 = all(close(s[k], m.s[k]) for k in s if k in m.s)
            ok, okt = ok or good and good2, okt
        return [('what is painted, and the final state', ok)]

    def explain(self, out, **kw):
        return 'wanted %r' % (self.want[0],)


probes = [Streams()]
