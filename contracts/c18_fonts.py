"""Fonts: which characters the codes of a string are, and how wide."""
from vc.contract import *
from .interp import *
import z3

FN = ST + '.PDFTextState.PDFFont'
CD = 'pdfmajor.parser.cmapdb'
ED = 'pdfmajor.parser.EncodingDB'
U = 'pdfmajor.utils.generic'
Reals, Ints, Texts = TList(TReal), TList(TInt), TList(TStr)
Widths = TMap(TInt, TReal)


class Ghost:
    _vc_heap = True


def ghost(self):
    self.g = g = Ghost()
    ctx().ghost['ghost'] = g
    return g


# ------------------------------------------------------------------ widths of composite fonts
WKIND = TConst('int', 'list', 'other')
WE = TTuple(WKIND, TInt, Reals, tag='wentry')
OTHER = object()


def make_entry(v):
    k, n, l = v
    k = FORCE(k)
    return n if k == 'int' else l if k == 'list' else OTHER


Entry = TObj('wentry object', WE, make_entry, lambda v: None)
Entries = TList(Entry)


def entry(seq, i):
    k, n, l = ITEM(WE, seq, i)
    return (lambda s: V.mkbool(k == WKIND.unwrap(s))), TInt.wrap(n), Reals.wrap(l)


def pending_for(n):
    @spec_fn((Entries, TInt), Ints)
    def pending(seq, k):
        """numbers not yet used before entry k"""
        if V.truth(k <= 0):
            return LST()
        kind, x, l = entry(seq, k - 1)
        p = pending(seq, k - 1)
        return ITE(kind('list'), TYPED(Ints, LST()), ITE(kind('int'), ITE(LEN(p) == n - 1, TYPED(Ints, LST()), p + LST(x)), p))
    pending.spec.name = 'pending%d' % n
    return pending


pending3 = pending_for(3)


@spec_fn((Entries, TInt, TInt), TBool)
def has_width(seq, k, q):
    """the first k entries give a width for q"""
    if V.truth(k <= 0):
        return False
    kind, x, l = entry(seq, k - 1)
    p = pending3(seq, k - 1)
    c = AT(p, LEN(p) - 1)
    return OR(has_width(seq, k - 1, q), AND(kind('list'), LEN(p) > 0, c <= q, q < c + LEN(l)), AND(kind('int'), LEN(p) == 2, AT(p, 0) <= q, q <= AT(p, 1)))


@spec_fn((Entries, TInt, TInt), TReal)
def width(seq, k, q):
    """the width the first k entries give for q: the last one"""
    if V.truth(k <= 0):
        return 0.0
    kind, x, l = entry(seq, k - 1)
    p = pending3(seq, k - 1)
    c = AT(p, LEN(p) - 1)
    return ITE(AND(kind('list'), LEN(p) > 0, c <= q, q < c + LEN(l)), AT(l, q - c),
               ITE(AND(kind('int'), LEN(p) == 2, AT(p, 0) <= q, q <= AT(p, 1)), x + 0.0, width(seq, k - 1, q)))


class GetWidths(Contract):
    """the array W of a composite font, for an arbitrary character"""
    name = 'get_widths'
    target = [FN + '.util:get_widths']
    internal = True

    def now(v):
        return HASKEY(Widths, v.widths, v.ghost.q), VALKEY(Widths, v.widths, v.ghost.q)

    def outer(v):
        g = v.ghost
        h, w = GetWidths.now(v)
        return [('numbers not yet used', EQ(TYPED(Ints, v.r), pending3(g.seq, v._k))), ('at most two', LEN(v.r) <= 2),
                ('characters with a width so far', EQ(h, has_width(g.seq, v._k, g.q))), ('width so far', IMP(h, lambda: EQ(w, width(g.seq, v._k, g.q))))]

    def enter(v):
        v.ghost.h0, v.ghost.w0 = GetWidths.now(v)

    def inner(v):
        g = v.ghost
        h, w = GetWidths.now(v)
        c = AT(v.r, LEN(v.r) - 1)
        new = AND(c <= g.q, g.q < c + v._k)
        return [('characters with a width now', EQ(h, OR(g.h0, new))), ('width now', IMP(h, lambda: EQ(w, ITE(new, AT(v.v, g.q - c), g.w0))))]

    def span(v):
        g = v.ghost
        h, w = GetWidths.now(v)
        new = AND(v.char1 <= g.q, g.q < v.char1 + v._k)
        return [('characters with a width now', EQ(h, OR(g.h0, new))), ('width now', IMP(h, lambda: EQ(w, ITE(new, v.w + 0.0, g.w0))))]

    types = {'widths': Widths, 'r': Ints}
    loops = [LoopSpec(where='get_widths#0', inv=outer, types=types), LoopSpec(where='get_widths#1', inv=inner, entry=enter, types=types), LoopSpec(where='get_widths#2', inv=span, entry=enter, types=types)]

    def inputs(self):
        return dict(seq=Entries, q=TInt)

    def run(self, seq, q):
        g = ghost(self)
        g.seq, g.q = seq, q
        return self.outcome(self.mod(FN + '.util').get_widths, seq)

    def ensures(self, out, seq, q):
        if out[0] != 'ok':
            return [('no exception', False)]
        n = LEN(seq)
        h, w = HASKEY(Widths, out[1], q), VALKEY(Widths, out[1], q)
        return [('has a width', EQ(h, has_width(seq, n, q))), ('its width', IMP(h, lambda: EQ(w, width(seq, n, q))))]


def chunks(out, seq, n):
    """out: the elements of seq, n at a time"""
    return AND(LEN(out) == LEN(seq) // n, FORALL(LEN(out), lambda k: EQ(AT(out, k), tuple(AT(seq, n * k + j) for j in range(n)))))


class Choplist(Contract):
    """elements are arbitrary numbers: the code does not look at them"""
    target = [U + ':choplist']
    internal = True

    def __init__(self, n):
        self.n = n
        self.name = 'choplist of %d' % n
        self.out = TList(TTuple(*[TInt] * n, tag='chunk%d' % n))
        self.loops = [LoopSpec(where='choplist#0', inv=self.inv, types={'r': Ints})]

    def inv(self, v):
        g, n = v.ghost, self.n
        return [('chunks so far', AND(n * LEN(g.out) + LEN(v.r) == v._k, LEN(v.r) < n, FORALL(LEN(g.out), lambda k: EQ(AT(g.out, k), tuple(AT(g.seq, n * k + j) for j in range(n)))))),
                ('the rest', AND(*[IMP(LEN(v.r) > j, lambda: EQ(AT(v.r, j), AT(g.seq, v._k - LEN(v.r) + j))) for j in range(n - 1)]))]

    def inputs(self):
        return dict(seq=Ints)

    def run(self, seq):
        g = ghost(self)
        g.seq, g.out = seq, TYPED(self.out, LST())

        def go():
            for p in self.mod(U).choplist(self.n, seq):
                HAVE(LEN(p) == self.n, 'chunks')
                g.out = g.out + LST(tuple(AT(p, j) for j in range(self.n)))
        return self.outcome(go)

    def ensures(self, out, seq):
        return [('no exception', EQ(out, ('ok', None))), ('all chunks, in order', chunks(self.g.out, seq, self.n))]


# ------------------------------------------------------------------ vertical metrics
Metric = TTuple(TReal, TTuple(TReal, TReal, tag='disp'), tag='metric')
Metrics = TMap(TInt, Metric)
Triples = TList(TTuple(TReal, TReal, TReal, tag='rchunk3'))
pending5 = pending_for(5)


def in_list(seq, k, q):
    kind, x, l = entry(seq, k)
    p = pending5(seq, k)
    c = AT(p, LEN(p) - 1)
    return AND(kind('list'), LEN(p) > 0, c <= q, q < c + LEN(l) // 3)


def in_span(seq, k, q):
    kind, x, l = entry(seq, k)
    p = pending5(seq, k)
    return AND(kind('int'), LEN(p) == 4, AT(p, 0) <= q, q <= AT(p, 1))


@spec_fn((Entries, TInt, TInt), TBool)
def has_metric(seq, k, q):
    if V.truth(k <= 0):
        return False
    return OR(has_metric(seq, k - 1, q), in_list(seq, k - 1, q), in_span(seq, k - 1, q))


def metric_part(j):
    @spec_fn((Entries, TInt, TInt), TReal)
    def part(seq, k, q):
        """component j of the metric the first k entries give for q"""
        if V.truth(k <= 0):
            return 0.0
        kind, x, l = entry(seq, k - 1)
        p = pending5(seq, k - 1)
        c = AT(p, LEN(p) - 1)
        return ITE(in_list(seq, k - 1, q), AT(l, 3 * (q - c) + j), ITE(in_span(seq, k - 1, q), (AT(p, 2 + j) if j < 2 else x) + 0.0, part(seq, k - 1, q)))
    part.spec.name = 'metric%d' % j
    return part


PARTS = [metric_part(j) for j in range(3)]


def metric(seq, k, q):
    w, x, y = (p(seq, k, q) for p in PARTS)
    return (w, (x, y))


class GetWidths2(Contract):
    """the array W2 of a vertical font, for an arbitrary character"""
    name = 'get_widths2'
    target = [FN + '.util:get_widths2']
    internal = True

    def now(v):
        return HASKEY(Metrics, v.widths, v.ghost.q), VALKEY(Metrics, v.widths, v.ghost.q)

    def outer(v):
        g = v.ghost
        h, w = GetWidths2.now(v)
        return [('numbers not yet used', EQ(TYPED(Ints, v.r), pending5(g.seq, v._k))), ('at most four', LEN(v.r) <= 4),
                ('characters with a metric so far', EQ(h, has_metric(g.seq, v._k, g.q))), ('metric so far', IMP(h, lambda: EQ(w, metric(g.seq, v._k, g.q))))]

    def enter(v):
        v.ghost.h0, v.ghost.w0 = GetWidths2.now(v)

    def inner(v):
        g = v.ghost
        h, w = GetWidths2.now(v)
        c = AT(v.r, LEN(v.r) - 1)
        new = AND(c <= g.q, g.q < c + v._k)
        at = lambda j: AT(v.v, 3 * (g.q - c) + j)
        return [('characters with a metric now', EQ(h, OR(g.h0, new))), ('metric now', AND(IMP(AND(h, new), lambda: EQ(w, (at(0), (at(1), at(2))))), IMP(AND(h, NOT(new)), lambda: EQ(w, g.w0))))]

    def span(v):
        g = v.ghost
        h, w = GetWidths2.now(v)
        new = AND(v.char1 <= g.q, g.q < v.char1 + v._k)
        return [('characters with a metric now', EQ(h, OR(g.h0, new))), ('metric now', AND(IMP(AND(h, new), lambda: EQ(w, (v.w + 0.0, (v.vx + 0.0, v.vy + 0.0)))), IMP(AND(h, NOT(new)), lambda: EQ(w, g.w0))))]

    types = {'widths': Metrics, 'r': Ints}
    loops = [LoopSpec(where='get_widths2#0', inv=outer, types=types), LoopSpec(where='get_widths2#1', inv=inner, entry=enter, types=types), LoopSpec(where='get_widths2#2', inv=span, entry=enter, types=types)]

    def inputs(self):
        return dict(seq=Entries, q=TInt)

    def run(self, seq, q):
        g = ghost(self)
        g.seq, g.q = seq, q

        def chop(n, l):
            if n != 3:
                raise Unsupported('choplist of %r' % n)
            r = Triples.fresh('chunks')
            ctx().assume(chunks(r, l, 3))
            return r
        hooks.overrides = {U + ':choplist': chop}
        return self.outcome(self.mod(FN + '.util').get_widths2, seq)

    def ensures(self, out, seq, q):
        if out[0] != 'ok':
            return [('no exception', False)]
        n = LEN(seq)
        h, w = HASKEY(Metrics, out[1], q), VALKEY(Metrics, out[1], q)
        return [('has a metric', EQ(h, has_metric(seq, n, q))), ('its metric', IMP(h, lambda: EQ(w, metric(seq, n, q))))]


# ------------------------------------------------------------------ codes -> characters of a font
class Identity(Contract):
    """two bytes, one character; a stray byte at the end is none"""
    name = 'IdentityCMap.decode'
    target = [CD + ':IdentityCMap.decode']
    internal = True

    def inputs(self):
        return dict(code=TBytes)

    def run(self, code):
        return self.outcome(self.mod(CD).IdentityCMap(WMode=0).decode, code)

    def ensures(self, out, code):
        if out[0] != 'ok':
            return [('no exception', False)]
        r = out[1] if type(out[1]) is tuple else out[1].l
        n = LEN(code) // 2
        return [('number of characters', LEN(r) == n), ('characters', FORALL(n, lambda k: AT(TYPED(Ints, LST(*r) if type(r) is tuple else r), k) == 256 * AT(code, 2 * k) + AT(code, 2 * k + 1)))]


mapped = UF('code mapped', [TInt, TInt], TBool)
final = UF('code complete', [TInt, TInt], TBool)
target_cid = UF('cid of code', [TInt, TInt], TInt)
below = UF('codes below', [TInt, TInt], TInt)


class Node:
    """a table of an arbitrary character map: byte -> table or character"""
    _vc_heap = True

    def __init__(self, n):
        self.n = n

    @classmethod
    def _vc_havoc(cls, name):
        return cls(TInt.fresh(name))

    def __contains__(self, i):
        return V.truth(mapped(self.n, i))

    def __getitem__(self, i):
        return target_cid(self.n, i) if V.truth(final(self.n, i)) else Node(below(self.n, i))


@spec_fn((TBytes, TInt), TInt)
def table_after(code, k):
    """the table in which byte k is looked up"""
    if V.truth(k <= 0):
        return 0
    t, b = table_after(code, k - 1), AT(code, k - 1)
    return ITE(AND(mapped(t, b), NOT(final(t, b))), below(t, b), 0)


@spec_fn((TBytes, TInt), Ints)
def cids(code, k):
    """characters of the first k bytes"""
    if V.truth(k <= 0):
        return LST()
    t, b = table_after(code, k - 1), AT(code, k - 1)
    return cids(code, k - 1) + ITE(AND(mapped(t, b), final(t, b)), TYPED(Ints, LST(target_cid(t, b))), TYPED(Ints, LST()))


class Decode(Contract):
    """codes of any lengths: tables are followed byte by byte; a code that is not mapped is skipped"""
    name = 'CMap.decode'
    target = [CD + ':CMap.decode']
    internal = True
    loops = [LoopSpec(inv=lambda v: [('table', EQ(v.d.n, table_after(v.ghost.code, v._k))), ('characters so far', EQ(v.ghost.out, cids(v.ghost.code, v._k)))])]

    def inputs(self):
        return dict(code=TBytes)

    def run(self, code):
        g = ghost(self)
        g.code, g.out = code, TYPED(Ints, LST())
        m = self.mod(CD).CMap()
        m.code2cid = Node(0)

        def go():
            for c in m.decode(code):
                g.out = g.out + LST(c)
        return self.outcome(go)

    def ensures(self, out, code):
        return [('no exception', EQ(out, ('ok', None))), ('characters', EQ(self.g.out, cids(code, LEN(code))))]


# ------------------------------------------------------------------ character maps
OKIND = ('bytes', 'list', 'int')
Bytess = TList(TBytes)
OE = TTuple(TInt, TBytes, Bytess, TInt, tag='oentry')


def make_operand(v):
    k, b, l, n = v
    t = V.int_term(k)
    return Choice([(t == 0, b), (t == 1, l), (t == 2, n), (z3.Or(t < 0, t > 2), OTHER)])


Operand = TObj('operand', OE, make_operand, lambda v: None)
Operands = TList(Operand)


def operand(seq, i):
    k, b, l, n = ITEM(OE, seq, i)
    return (lambda s: V.mkbool(k == OKIND.index(s))), TBytes.wrap(b), Bytess.wrap(l), TInt.wrap(n)


number = UF('number of bytes', [TBytes], TInt)
pack4 = UF('four bytes of', [TInt], TBytes)
Codes = TMap(TInt, TBytes)
Back = TMap(TBytes, TInt)


def shifted(b, i):
    """b with the number in its last four bytes increased by i"""
    last = b[-4:]
    return b[:-4] + pack4(number(last) + i)[-LEN(last):]


@spec_fn((Operands, TInt, TInt), TBool)
def has_text(seq, k, q):
    """the first k ranges map q"""
    if V.truth(k <= 0):
        return False
    return OR(has_text(seq, k - 1, q), maps(seq, k - 1, q))


def maps(seq, k, q):
    (ks, s, *_), (ke, e, *_), (kc, c, l, _) = (operand(seq, 3 * k + j) for j in range(3))
    lo, hi = number(s), number(e)
    return AND(ks('bytes'), ke('bytes'), LEN(s) == LEN(e), lo <= q, q <= hi, IMP(kc('list'), q < lo + LEN(l)))


@spec_fn((Operands, TInt, TInt), TBytes)
def text(seq, k, q):
    """what the first k ranges map q to: the last one that does"""
    if V.truth(k <= 0):
        return b''
    _, s, *_ = operand(seq, 3 * k - 3)
    kc, c, l, _ = operand(seq, 3 * k - 1)
    d = q - number(s)
    return ITE(maps(seq, k - 1, q), ITE(kc('list'), AT(l, d), shifted(c, d)), text(seq, k - 1, q))


@spec_fn((Operands, TInt, TInt), TBool)
def has_char(seq, k, q):
    if V.truth(k <= 0):
        return False
    (ka, a, *_), (kb, b, *_) = operand(seq, 2 * k - 2), operand(seq, 2 * k - 1)
    return OR(has_char(seq, k - 1, q), AND(ka('bytes'), kb('bytes'), number(a) == q))


@spec_fn((Operands, TInt, TInt), TBytes)
def char_text(seq, k, q):
    if V.truth(k <= 0):
        return b''
    (ka, a, *_), (kb, b, *_) = operand(seq, 2 * k - 2), operand(seq, 2 * k - 1)
    return ITE(AND(ka('bytes'), kb('bytes'), number(a) == q), b, char_text(seq, k - 1, q))


class Recorder:
    """contract of the map being filled"""
    _vc_heap = True

    def __init__(self):
        self.codes = Codes.fresh('codes')
        self.back = Back.fresh('back')

    def add_cid2unichr(self, cid, code):
        if not isinstance(code, bytes):
            raise TypeError(code)
        self.codes[cid] = code

    def add_code2cid(self, code, cid):
        self.back[code] = cid


class Section(Contract):
    """the operands of one section of a ToUnicode map, for an arbitrary code"""
    internal = True

    def __init__(self, what, n):
        self.what, self.n = what, n
        self.name = 'end' + what
        self.target = [CD + ':CMapParser.do_keyword', 'pdfmajor.parser.PSStackParser:PSStackParser.popall']
        self.has, self.val = {'bfrange': (has_text, text), 'bfchar': (has_char, char_text)}[what]
        self.loops = [LoopSpec(where='do_keyword#' + k, inv=f, entry=e, types={'codes': Codes, '*.codes': Codes}) for k, f, e in self.specs()]

    def specs(self):
        if self.what == 'bfchar':
            return [('6', self.outer, None)]
        return [('3', self.outer, None), ('4', self.listed, self.enter), ('5', self.counted, self.enter)]

    def now(self, v):
        c = v.self.cmap.codes
        return HASKEY(Codes, c, v.ghost.q), VALKEY(Codes, c, v.ghost.q)

    def outer(self, v):
        g = v.ghost
        h, x = self.now(v)
        done = self.has(g.seq, v._k, g.q)
        return [('codes mapped so far', EQ(h, OR(g.h, done))), ('to', IMP(h, lambda: EQ(x, ITE(done, self.val(g.seq, v._k, g.q), g.x))))]

    def enter(self, v):
        v.ghost.h0, v.ghost.x0 = self.now(v)

    def listed(self, v):
        g = v.ghost
        h, x = self.now(v)
        new = AND(v.s1 <= g.q, g.q < v.s1 + v._k)
        return [('codes mapped now', EQ(h, OR(g.h0, new))), ('to now', AND(IMP(new, lambda: EQ(x, AT(v.code, g.q - v.s1))), IMP(AND(h, NOT(new)), lambda: EQ(x, g.x0))))]

    def counted(self, v):
        g = v.ghost
        h, x = self.now(v)
        new = AND(v.s1 <= g.q, g.q < v.s1 + v._k)
        return [('codes mapped now', EQ(h, OR(g.h0, new))), ('to now', AND(IMP(new, lambda: EQ(x, shifted(v.code, g.q - v.s1))), IMP(AND(h, NOT(new)), lambda: EQ(x, g.x0))))]

    def inputs(self):
        return dict(seq=Operands, q=TInt)

    def requires(self, seq, q):
        # well-formed: a range goes to a string or to an array
        if self.what == 'bfchar':
            return True
        def ok(k):
            kind, b, l, n = operand(seq, 3 * k + 2)
            return OR(kind('bytes'), kind('list'))
        return FORALL(LEN(seq) // 3, ok)

    def run(self, seq, q):
        g = ghost(self)
        m = self.mod(CD)
        g.seq, g.q = seq, q
        p = m.CMapParser.__new__(m.CMapParser)
        p._in_cmap, p.cmap = True, Recorder()
        p.context, p.curtype, p.results = LST(), None, LST()
        pairs = TList(TTuple(TInt, Operand, tag='placed')).fresh('stack')
        c = ctx()
        c.assume(LEN(pairs) == LEN(seq))
        pt, k = TTuple(TInt, Operand, tag='placed'), z3.Int('k_stk')
        e = TList(pt).th.idx(pairs.seq, k)
        c.axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < V.int_term(LEN(pairs))), pt.acc[1](e) == Operands.th.idx(seq.seq, k)), patterns=[e]))
        self.tok = m.KWD(b'end' + self.what.encode())
        p.curstack = pairs
        g.h, g.x = HASKEY(Codes, p.cmap.codes, q), VALKEY(Codes, p.cmap.codes, q)
        self.p = p

        def chop(n, l):
            ty = TList(TTuple(*[Operand] * n, tag='operands%d' % n))
            r = ty.fresh('chunks')
            c = ctx()
            c.assume(LEN(r) == LEN(l) // n)
            th, lt = ty.th, Operands.th
            k = z3.Int('k_chop')
            e = th.idx(r.seq, k)
            tt = TTuple(*[Operand] * n, tag='operands%d' % n)
            c.axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < V.int_term(LEN(r))), z3.And(*[tt.acc[j](e) == lt.idx(l.seq, n * k + j) for j in range(n)])), patterns=[e]))
            return r
        hooks.overrides = {U + ':choplist': chop, U + ':nunpack': lambda s, default=0: number(s), '_struct:pack': lambda f, n: pack4(n)}
        return self.outcome(p.do_keyword, 0, self.tok)

    def ensures(self, out, seq, q):
        g = self.g
        c = self.p.cmap.codes
        n = LEN(seq) // self.n
        h, x = HASKEY(Codes, c, q), VALKEY(Codes, c, q)
        done = self.has(seq, n, q)
        return [('no exception', EQ(out, ('ok', None))), ('codes mapped', EQ(h, OR(g.h, done))), ('to', IMP(h, lambda: EQ(x, ITE(done, self.val(seq, n, q), g.x))))]


class AddText(Contract):
    """one entry of a ToUnicode map"""
    internal = True
    target = [CD + ':FileUnicodeMap.add_cid2unichr', CD + ':UnicodeMap.get_unichr']

    def __init__(self, kind):
        self.kind = kind
        self.name = 'ToUnicode entry: ' + kind

    def inputs(self):
        return dict(cid=TInt, q=TInt, name=TStr, code=TBytes, n=TRange(0, 0x10ffff))

    def run(self, cid, q, name, code, n):
        m = self.mod(CD)
        u = m.FileUnicodeMap()
        u.cid2unichr = TexT.fresh('known so far')
        self.h, self.x = HASKEY(TexT, u.cid2unichr, q), VALKEY(TexT, u.cid2unichr, q)
        known = UF('glyph name known', [TStr], TBool)
        meaning = UF('text of glyph name', [TStr], TStr)
        v = {'bytes': code, 'number': n, 'glyph name': m.PSLiteral(name)}[self.kind]

        def name2unicode(x):
            if not V.truth(known(x)):
                raise KeyError(x)
            return meaning(x)
        hooks.overrides = {'pdfmajor.utils.encoding:name2unicode': name2unicode}
        self.want = {'bytes': lambda: models.decode(V.lift(code), 'UTF-16BE', 'ignore'), 'number': lambda: models.m_chr(n), 'glyph name': lambda: meaning(name)}[self.kind]()
        self.may = known(name) if self.kind == 'glyph name' else True

        def go():
            u.add_cid2unichr(cid, v)
            return HASKEY(TexT, u.cid2unichr, q), VALKEY(TexT, u.cid2unichr, q), u.get_unichr(cid)
        return self.outcome(go)

    def ensures(self, out, cid, q, **v):
        if out[0] != 'ok':
            return [('only an unknown glyph name is refused', AND(EQ(out[1], 'KeyError'), NOT(self.may)))]
        h, x, r = out[1]
        return [('has a text', EQ(h, OR(self.h, cid == q))), ('its text', IMP(h, lambda: EQ(x, ITE(cid == q, self.want, self.x)))), ('found again', EQ(r, self.want))]


TexT = TMap(TInt, TStr)
DE = TTuple(TInt, TInt, TStr, tag='dentry')


class Diff:
    """what makes the entries of a Differences array: numbers, names, others"""
    literal = None


Difference = TObj('difference', DE, lambda v: v[1] if V.truth(v[0] == 0) else Diff.literal(v[2]) if V.truth(v[0] == 1) else OTHER, lambda v: None)
Differences = TList(Difference)
named = UF('glyph name known', [TStr], TBool)
meaning = UF('text of glyph name', [TStr], TStr)


def difference(seq, i):
    k, n, s = ITEM(DE, seq, i)
    return V.mkbool(k == 0), V.mkbool(k == 1), TInt.wrap(n), TStr.wrap(s)


@spec_fn((Differences, TInt), TInt)
def next_code(seq, k):
    """the code of the next name after k entries"""
    if V.truth(k <= 0):
        return 0
    num, nam, n, s = difference(seq, k - 1)
    c = next_code(seq, k - 1)
    return ITE(num, n, ITE(nam, c + 1, c))


@spec_fn((Differences, TInt, TInt), TBool)
def has_difference(seq, k, q):
    if V.truth(k <= 0):
        return False
    num, nam, n, s = difference(seq, k - 1)
    return OR(has_difference(seq, k - 1, q), AND(nam, named(s), next_code(seq, k - 1) == q))


@spec_fn((Differences, TInt, TInt), TStr)
def difference_text(seq, k, q):
    if V.truth(k <= 0):
        return ''
    num, nam, n, s = difference(seq, k - 1)
    return ITE(AND(nam, named(s), next_code(seq, k - 1) == q), meaning(s), difference_text(seq, k - 1, q))


class Encoding(Contract):
    """an encoding with differences, for an arbitrary code; the named encoding itself stays as it is"""
    target = [ED + ':EncodingDB.get_encoding']
    internal = True

    def __init__(self, which):
        self.which = which
        self.name = 'encoding with differences from ' + which
        self.loops = [LoopSpec(inv=self.inv, types={'cid2unicode': TexT, '*': TexT})]

    def inv(self, v):
        g = v.ghost
        h, x = HASKEY(TexT, v.cid2unicode, g.q), VALKEY(TexT, v.cid2unicode, g.q)
        new = has_difference(g.seq, v._k, g.q)
        return [('next code', EQ(v.cid, next_code(g.seq, v._k))), ('codes so far', EQ(h, OR(g.h, new))), ('texts so far', IMP(h, lambda: EQ(x, ITE(new, difference_text(g.seq, v._k, g.q), g.x))))]

    def inputs(self):
        return dict(seq=Differences, q=TInt)

    def run(self, seq, q):
        g = ghost(self)
        m = self.mod(ED)
        Diff.literal = lambda s: m.PSLiteral(s)
        base = TexT.fresh('base')
        other = TexT.fresh('other')
        DB = m.EncodingDB
        g.seq, g.q, g.h, g.x = seq, q, HASKEY(TexT, base, q), VALKEY(TexT, base, q)
        saved = DB.encodings, DB.std2unicode
        DB.std2unicode = base if self.which == 'the standard one' else other
        DB.encodings = hooks.mkdict(('WinAnsiEncoding', other if self.which == 'the standard one' else base))

        def name2unicode(x):
            if not V.truth(named(x)):
                raise KeyError(x)
            return meaning(x)
        hooks.overrides = {'pdfmajor.utils.encoding:name2unicode': name2unicode}
        self.base = base
        try:
            return self.outcome(DB.get_encoding, 'Unknown' if self.which == 'the standard one' else 'WinAnsiEncoding', seq)
        finally:
            DB.encodings, DB.std2unicode = saved

    def ensures(self, out, seq, q):
        if out[0] != 'ok':
            return [('no exception', False)]
        g, n = self.g, LEN(seq)
        h, x = HASKEY(TexT, out[1], q), VALKEY(TexT, out[1], q)
        new = has_difference(seq, n, q)
        return [('codes', EQ(h, OR(g.h, new))), ('texts', IMP(h, lambda: EQ(x, ITE(new, difference_text(seq, n, q), g.x)))),
                ('the encoding itself is unchanged', AND(EQ(HASKEY(TexT, self.base, q), g.h), IMP(g.h, lambda: EQ(VALKEY(TexT, self.base, q), g.x))))]


class CharText(Contract):
    """text and width of one character: ToUnicode, else the encoding, else none; the own width, else that of the text, else the default"""
    internal = True
    target = [FN + '.PDFFont:PDFSimpleFont.to_unichr', FN + '.PDFFont:PDFFont.char_width', FN + '.fonts:PDFCIDFont.to_unichr', FN + '.fonts:PDFCIDFont.char_disp', FN + '.PDFFont:PDFFont.decode']

    def __init__(self, simple, tounicode, vertical=False):
        self.simple, self.tounicode, self.vertical = simple, tounicode, vertical
        self.name = 'character of a %s font%s%s' % ('simple' if simple else 'composite', ' with ToUnicode' if tounicode else '', ', vertical' if vertical else '')

    def inputs(self):
        return dict(cid=TInt, hscale=TReal, default=TReal, vx=TReal, vy=TReal)

    def run(self, cid, hscale, default, vx, vy):
        F = self.mod(FN + '.fonts')
        cls = F.PDFType1Font if self.simple else F.PDFCIDFont
        f = cls.__new__(cls)
        f.unicode_map = None
        if self.tounicode:
            f.unicode_map = self.mod(CD).FileUnicodeMap()
            self.tu = f.unicode_map.cid2unichr = TexT.fresh('ToUnicode')
        c = ctx()
        self.enc = TexT.fresh('encoding')
        if self.simple:
            f.cid2unicode = self.enc
        # a map by character, or (the standard fonts) by text
        self.bytext = self.simple and c.decide(2) == 0
        self.wt = TMap(TStr, TReal) if self.bytext else Widths
        self.widths = f.widths = self.wt.fresh('widths')
        f.hscale, f.default_width, f.vertical, f.cidcoding = hscale, default, self.vertical, 'A-B'
        self.dt = TMap(TInt, TTuple(TReal, TReal, tag='disp'))
        self.disps = f.disps = self.dt.fresh('disps')
        f.default_disp = (None, vy) if self.vertical else 0
        return self.outcome(f.to_unichr, cid), self.outcome(f.char_width, cid), self.outcome(f.char_disp, cid)

    def ensures(self, out, cid, hscale, default, vx, vy):
        (t, w, d) = out
        maps = ([self.tu] if self.tounicode else []) + ([self.enc] if self.simple else [])
        has = OR(*[HASKEY(TexT, m, cid) for m in maps]) if maps else False
        want = VALKEY(TexT, maps[-1], cid) if maps else ''
        if len(maps) == 2:
            want = ITE(HASKEY(TexT, maps[0], cid), VALKEY(TexT, maps[0], cid), want)
        r = [('text', AND(has, EQ(t[1], want)) if t[0] == 'ok' else AND(NOT(has), t[1] == 'UnicodeNotDefined'))]
        if w[0] != 'ok':
            return r + [('a width', False)]
        if self.bytext:
            own = AND(has, HASKEY(self.wt, self.widths, want))
            r.append(('width', EQ(w[1], ITE(own, VALKEY(self.wt, self.widths, want), default) * hscale)))
        else:
            r.append(('width', EQ(w[1], ITE(HASKEY(Widths, self.widths, cid), VALKEY(Widths, self.widths, cid), default) * hscale)))
        if not self.simple:
            if d[0] != 'ok':
                return r + [('a displacement', False)]
            h = HASKEY(self.dt, self.disps, cid)
            dv = VALKEY(self.dt, self.disps, cid)
            if self.vertical and d[1][0] is None:
                r.append(('default displacement', AND(NOT(h), EQ(d[1], (None, vy)))))
            elif not self.vertical and type(d[1]) is int:
                r.append(('no displacement', AND(NOT(h), d[1] == 0)))
            else:
                r.append(('displacement', AND(h, EQ(d[1], dv))))
        return r


contracts = [GetWidths(), Choplist(2), Choplist(3), GetWidths2(), Identity(), Decode(), Section('bfrange', 3), Section('bfchar', 2)] + [AddText(k) for k in ('bytes', 'number', 'glyph name')] + \
    [Encoding(w) for w in ('the standard one', 'a named one')] + [CharText(*a) for a in ((True, False), (True, True), (False, False), (False, True), (False, True, True))]


# ------------------------------------------------------------------ whole fonts, by example
STD = {i: chr(i) for i in range(32, 127)}
STD.update(zip(range(161, 176), '¡¢£⁄¥ƒ§¤\'“«‹›ﬁﬂ'))
STD.update({39: '’', 96: '‘', 177: '–', 178: '†', 179: '‡', 180: '·', 182: '¶', 183: '•', 184: '‚', 185: '„', 186: '”', 187: '»', 188: '…', 189: '‰', 191: '¿', 193: '`', 194: '´', 195: 'ˆ',
            196: '˜', 197: '¯', 198: '˘', 199: '˙', 200: '¨', 202: '˚', 203: '¸', 205: '˝', 206: '˛', 207: 'ˇ', 208: '—', 225: 'Æ', 227: 'ª', 232: 'Ł', 233: 'Ø', 234: 'Œ', 235: 'º', 241: 'æ',
            245: 'ı', 248: 'ł', 249: 'ø', 250: 'œ', 251: 'ß'})


def codec_table(codec, drop, **more):
    t = {}
    for i in range(32, 256):
        try:
            t[i] = bytes([i]).decode(codec)
        except UnicodeDecodeError:
            pass
    for i in drop:
        t.pop(i, None)
    t.update({int(k[1:]): v for k, v in more.items()})
    return t


TABLES = {'StandardEncoding': STD, 'WinAnsiEncoding': codec_table('cp1252', (127,), c160=' ', c173='-'),
          'MacRomanEncoding': codec_table('mac_roman', (127, 173, 176, 178, 179, 182, 183, 184, 185, 186, 189, 195, 197, 198, 215, 240), c202=' ', c219='¤')}
BULLETS = {'WinAnsiEncoding': (127, 129, 141, 143, 144, 157)}      # codes without a character may show a bullet
GLYPHS = {'A': 'A', 'b': 'b', 'space': ' ', 'eacute': 'é', 'Euro': '€', 'bullet': '•', 'one': '1', 'fi': 'ﬁ', 'uni0416': 'Ж', 'uni00410042': 'AB', 'u1F600': '\U0001f600', 'u00E9': 'é', 'a.alt': 'a',
          'f_i': 'fi', 'A.sc': 'A', 'uni0041_b.x': 'Ab', 'alpha': 'α', 'afii10017': 'А', 'Zcaron': 'Ž', '.notdef': None}          # None: the code keeps what it had


class FakeDoc:
    def __init__(self):
        self.objs = {}

    def getobj(self, k):
        return self.objs[k]


class Builder:
    """values of a specification, some of them indirect"""

    def __init__(self, case, refs):
        m = case.mod
        self.S, self.LIT = m('pdfmajor.parser.PDFStream'), m('pdfmajor.parser.PSStackParser').LIT
        self.doc, self.refs, self.n = FakeDoc(), refs, 0

    def value(self, v):
        if type(v) is tuple:
            v = [self.value(x) for x in v]
        elif type(v) is str:
            v = self.LIT(v)
        elif type(v) is dict:
            v = {k: self.value(x) for k, x in v.items()}
        elif callable(v):
            v = v()
        return self.maybe(v)

    def maybe(self, v):
        self.n += 1
        if self.refs and self.n % self.refs == 0:
            self.doc.objs[self.n] = v
            return self.S.PDFObjRef(self.doc, self.n, 0)
        return v

    def stream(self, data, **attrs):
        return self.S.PDFStream({k: self.value(v) for k, v in attrs.items()}, data)


def hexed(b):
    return b'<' + b.hex().encode() + b'>'


def utf16(t):
    return t.encode('UTF-16BE')


def map_source(sections, kind, wmode=None, use=None, header=True):
    """the source of a character map"""
    out = [b'/CIDInit /ProcSet findresource begin 12 dict begin begincmap'] if header else []
    if use:
        out.append(b'/%s usecmap' % use.encode())
    out.append(b'/CMapName /Some-Map def')
    if wmode is not None:
        out.append(b'/WMode %d def' % wmode)
    out.append(b'1 begincodespacerange <00> <ffff> endcodespacerange')
    for what, items in sections:
        out.append(b'%d begin%s%s' % (len(items), kind, what.encode()))
        for it in items:
            dest = it[-1]
            if kind == b'cid':
                d = b'%d' % dest
            elif type(dest) is tuple:
                d = b'[' + b' '.join(hexed(utf16(t)) for t in dest) + b']'
            else:
                d = hexed(utf16(dest))
            out.append(b' '.join([hexed(c) for c in it[:-1]] + [d]))
        out.append(b'end' + kind + what.encode())
    if header:
        out.append(b'endcmap CMapName currentdict /CMap defineresource pop end end')
    return b'\n'.join(out) + b'\n'


def unicode_entries(sections):
    """code -> text of a ToUnicode map"""
    r = {}
    for what, items in sections:
        for it in items:
            lo = int.from_bytes(it[0], 'big')
            if what == 'char':
                r[lo] = it[1]
                continue
            hi = int.from_bytes(it[1], 'big')
            for i in range(hi - lo + 1):
                if type(it[2]) is tuple:
                    if i < len(it[2]):
                        r[lo + i] = it[2][i]
                else:
                    last = ord(it[2][-1]) + i
                    r[lo + i] = it[2][:-1] + chr(last)
    return r


def code_entries(sections):
    r = {}
    for what, items in sections:
        for it in items:
            lo = int.from_bytes(it[0], 'big')
            hi = int.from_bytes(it[-2], 'big')
            for i in range(hi - lo + 1):
                r[(lo + i).to_bytes(len(it[0]), 'big')] = it[-1] + i
    return r


def ok_sections(sections, size, kind):
    if type(sections) is not tuple or len(sections) > 6:
        return False
    for s in sections:
        if type(s) is not tuple or len(s) != 2 or s[0] not in ('char', 'range') or type(s[1]) is not tuple or not s[1]:
            return False
        for it in s[1]:
            if type(it) is not tuple or len(it) != (2 if s[0] == 'char' else 3) or not all(type(c) is bytes and len(c) in size for c in it[:-1]):
                return False
            if s[0] == 'range' and (len(it[0]) != len(it[1]) or not it[0] <= it[1] or it[0][:-1] != it[1][:-1]):
                return False
            n = it[-2][-1] - it[0][-1]
            if kind == 'cid':
                if type(it[-1]) is not int or not 0 <= it[-1] <= 60000:
                    return False
            else:
                for t in it[-1] if type(it[-1]) is tuple and s[0] == 'range' else (it[-1],):
                    if type(t) is not str or not t or any(0xd800 <= ord(c) < 0xe000 for c in t):
                        return False
                if type(it[-1]) is str and not (ord(it[-1][-1]) < 0x10000 and n + ord(it[-1][-1]) < 0xd800 and n + (ord(it[-1][-1]) & 255) < 256 or n == 0 or ord(it[-1][-1]) >= 0x10000 and (ord(it[-1][-1]) & 1023) + n < 1024):
                    return False
    return True


def random_text(rng):
    return ''.join(rng.choice('aZ é€Жﬁ\u00ad中' + '\U0001f600') for _ in range(rng.choice([1, 1, 1, 2, 3])))


def random_unicode_map(rng, codes, size):
    r = []
    for _ in range(rng.randrange(1, 4)):
        items = []
        what = rng.choice(['char', 'range'])
        for _ in range(rng.randrange(1, 4)):
            c = rng.choice(codes)
            if what == 'char':
                items.append((c.to_bytes(size, 'big'), random_text(rng)))
            else:
                n = min(rng.choice([0, 1, 2, 5]), 255 - (c & 255))
                t = random_text(rng) if rng.random() < .6 else tuple(random_text(rng) for _ in range(rng.choice([n + 1, n + 1, n, 1]) or 1))
                items.append((c.to_bytes(size, 'big'), (c + n).to_bytes(size, 'big'), t))
        r.append((what, tuple(items)))
    return tuple(r)


numbers = lambda xs: all(type(x) in (int, float) and abs(x) < 5000 for x in xs)


class FontProbe(Contract):
    def fetch(self, font, codes):
        u = self.mod('pdfmajor.execptions').UnicodeNotDefined
        cids = list(font.decode(codes))
        r = []
        for c in cids:
            try:
                t = font.to_unichr(c)
            except u:
                t = None
            r.append((t, round(font.char_width(c), 9), font.char_disp(c)))
        return cids, r, font.is_multibyte(), font.is_vertical()

    def explain(self, out, **kw):
        return 'wanted %r' % (self.want(**kw),)


class SimpleFonts(FontProbe):
    name = 'simple fonts'
    target = [FN + ':get_font', FN + '.fonts:PDFType1Font.__init__', FN + '.fonts:PDFType3Font.__init__', FN + '.PDFFont:PDFSimpleFont.__init__', FN + '.PDFFont:PDFSimpleFont.to_unichr', FN + '.PDFFont:PDFFont.char_width', CD + ':CMapParser.do_keyword',
              CD + ':FileUnicodeMap.add_cid2unichr', ED + ':EncodingDB.get_encoding', 'pdfmajor.utils.encoding:name2unicode']
    search_n = 6000

    def gen(self, rng):
        enc = rng.choice([None, None, 'StandardEncoding', 'WinAnsiEncoding', 'MacRomanEncoding', 0, 0, 0])
        if enc == 0:
            d = []
            for _ in range(rng.randrange(1, 4)):
                d.append(rng.randrange(0, 250))
                d += [rng.choice(sorted(GLYPHS)) for _ in range(rng.randrange(4))]
            enc = (rng.choice([None, 'StandardEncoding', 'WinAnsiEncoding', 'MacRomanEncoding', 'MacExpertEncoding']), tuple(d))
        first = rng.choice([0, 1, 32, 65, 200])
        near = [x for x in (enc[1] if type(enc) is tuple else ()) if type(x) is int] + [first, 65]
        codes = [min(255, max(0, rng.choice(near) + rng.randrange(-1, 4))) if rng.random() < .8 else rng.randrange(256) for _ in range(rng.randrange(1, 8))]
        return dict(subtype=rng.choice(['Type1', 'TrueType', 'MMType1', 'Type3']), enc=enc, tounicode=random_unicode_map(rng, codes, 1) if rng.random() < .5 else None, first=first,
                    widths=tuple(rng.choice([0, 250, 500.5, 1000]) for _ in range(rng.randrange(0, 6))), missing=rng.choice([None, 0, 300]), scale=rng.choice([.001, .01, 1]), refs=rng.choice([0, 0, 1, 2, 3, 5]), codes=bytes(codes))

    def requires(self, subtype, enc, tounicode, first, widths, missing, scale, refs, codes):
        if subtype not in ('Type1', 'TrueType', 'MMType1', 'Type3') or type(first) is not int or not 0 <= first < 256 or not numbers(widths) or not (missing is None or numbers([missing])) or not refs >= 0 or not scale > 0:
            return False
        if tounicode is not None and not ok_sections(tounicode, (1,), 'bf'):
            return False
        if type(enc) is tuple:
            return len(enc) == 2 and (enc[0] in (None, 'MacExpertEncoding') or enc[0] in TABLES) and all(type(x) is int and 0 <= x < 256 or x in GLYPHS for x in enc[1])
        return enc is None or enc in TABLES

    def spec(self, b, subtype, enc, tounicode, first, widths, missing, scale, refs, codes):
        d = {'FontName': 'Some', 'Flags': 4, 'FontBBox': (0, -200, 1000, 800)}
        if missing is not None:
            d['MissingWidth'] = missing
        s = {'Type': 'Font', 'Subtype': subtype, 'BaseFont': 'Some', 'FirstChar': first, 'LastChar': first + len(widths), 'Widths': widths, 'FontDescriptor': d}
        if subtype == 'Type3':
            s.update(FontMatrix=(scale, 0, 0, scale, 0, 0), FontBBox=(0, -200, 1000, 800))
        s = {k: (b.LIT(v) if k in ('Type', 'Subtype') else b.value(v)) for k, v in s.items()}
        if type(enc) is tuple:
            e = {'Type': 'Encoding', 'Differences': enc[1]}
            if enc[0]:
                e['BaseEncoding'] = enc[0]
            s['Encoding'] = b.maybe({k: b.LIT(v) if type(v) is str else b.maybe([b.LIT(x) if type(x) is str else x for x in v]) for k, v in e.items()})
        elif enc:
            s['Encoding'] = b.value(enc)
        if tounicode is not None:
            s['ToUnicode'] = b.maybe(b.stream(map_source(tounicode, b'bf', header=first % 2 == 0)))
        return s

    def want(self, subtype, enc, tounicode, first, widths, missing, scale, refs, codes):
        base, diff = enc if type(enc) is tuple else (enc, ())
        t = dict(TABLES.get(base, STD))                 # the standard encoding in place of one without a table
        c = 0
        for x in diff:
            if type(x) is int:
                c = x
            else:
                if GLYPHS[x]:
                    t[c] = GLYPHS[x]
                c += 1
        if tounicode is not None:
            t.update(unicode_entries(tounicode))
        h = scale if subtype == 'Type3' else .001
        return list(codes), [(t.get(c), round((widths[c - first] if 0 <= c - first < len(widths) else missing or 0) * h, 9), 0) for c in codes], False, False

    def run(self, **kw):
        b = Builder(self, kw['refs'])

        def go():
            spec = self.spec(b, **kw)
            cache = {}
            G = self.mod(FN).get_font
            f = G(7, spec, cache)
            same = G(7, {}, cache) is f and G(None, spec, cache) is not f and G(8, spec, cache) is not f
            r = self.fetch(f, kw['codes'])
            plain = G(None, {'Type': b.LIT('Font'), 'Subtype': b.LIT('Type1'), 'BaseFont': b.LIT('Some')}, {})
            marks = [c for c in STD if plain.cid2unicode.get(c) != STD[c]]
            return r, same, marks
        return self.outcome(go)

    def ensures(self, out, **kw):
        if out[0] != 'ok':
            return [('no exception', False)]
        (cids, chars, mb, vert), same, marks = out[1]
        w = self.want(**kw)
        base = kw['enc'][0] if type(kw['enc']) is tuple else kw['enc']
        texts = all(g[0] == t[0] or t[0] is None and g[0] == '•' and c in BULLETS.get(base, ()) for g, t, c in zip(chars, w[1], w[0]))
        return [('codes', cids == w[0] and len(chars) == len(w[1])), ('characters', texts), ('widths', all(abs(g[1] - t[1]) < 1e-6 for g, t in zip(chars, w[1]))), ('one font per object', same), ('no other font changes', not marks), ('single bytes, horizontal', (mb, vert) == (False, False) and all(g[2] == 0 for g in chars))]


class CompositeFonts(FontProbe):
    name = 'composite fonts'
    target = [FN + ':get_font', FN + '.fonts:PDFCIDFont.__init__', FN + '.fonts:PDFCIDFont.to_unichr', FN + '.util:get_widths', FN + '.util:get_widths2', CD + ':CMapParser.do_keyword', CD + ':CMap.decode', CD + ':IdentityCMap.decode', CD + ':FileCMap.add_code2cid', CD + ':CMap.use_cmap',
              CD + ':CMapDB.get_cmap', CD + ':CMapDB.get_unicode_map']
    search_n = 6000

    def gen(self, rng):
        cids = [rng.choice([0, 1, 5, 65, 255, 256, 300, 700]) + rng.randrange(3) for _ in range(4)]
        k = rng.random()

        def code_map():
            secs = []
            for _ in range(rng.randrange(1, 4)):
                what, items = rng.choice(['char', 'range']), []
                for _ in range(rng.randrange(1, 4)):
                    a = bytes([rng.randrange(32, 60)]) if rng.random() < .4 else bytes([rng.choice([0x81, 0x82, 0xff]), rng.choice([0, 65, 250]) + rng.randrange(4)])
                    items.append((a, rng.choice(cids)) if what == 'char' else (a, a[:-1] + bytes([min(255, a[-1] + rng.randrange(4))]), rng.choice(cids)))
                secs.append((what, tuple(items)))
            return tuple(secs)
        if k < .4:
            enc = rng.choice(['Identity-H', 'Identity-V'])
            codes = b''.join(rng.choice(cids).to_bytes(2, 'big') for _ in range(rng.randrange(6))) + rng.choice([b'', b'', b'', b'\0'])
            base = ()
        else:
            base = code_map() if rng.random() < .5 else ()
            enc = (rng.choice(['embedded', 'embedded', 'predefined']), rng.choice([0, 1]) if base or rng.random() < .5 else None, code_map())
            pool = sorted(code_entries(enc[2] + base)) + [b'\x81', b'z', b'!']
            codes = b''.join(rng.choice(pool[:-3] if rng.random() < .9 else pool) for _ in range(rng.randrange(6)))

        def table(width):
            r = []
            for _ in range(rng.randrange(4)):
                c = rng.choice(cids)
                m = lambda: tuple(rng.choice([0, 250, 500.5, -1000]) for _ in range(width))
                if rng.random() < .5:
                    r += [c, sum((m() for _ in range(rng.randrange(4))), ())]
                else:
                    r += [c, c + rng.randrange(4)] + list(m())
            return tuple(r)
        return dict(enc=enc, base=base, tounicode=random_unicode_map(rng, [c for c in cids], 2) if rng.random() < .6 else None, system=rng.choice(['Adobe-Identity', 'Some-Order']),
                    W=table(1) if rng.random() < .7 else None, DW=rng.choice([None, 0, 600]), W2=table(3) if rng.random() < .7 else None, DW2=rng.choice([None, (700, -500)]), missing=rng.choice([None, 300]), refs=rng.choice([0, 0, 1, 2, 3, 5]), codes=codes)

    def ok_table(self, t, width):
        if t is None:
            return True
        i = 0
        while i < len(t):
            if type(t[i]) is not int or not 0 <= t[i] < 3000 or i + 1 >= len(t):
                return False
            if type(t[i + 1]) is tuple:
                if not numbers(t[i + 1]) or len(t[i + 1]) % width:
                    return False
                i += 2
            else:
                if len(t) < i + 2 + width or type(t[i + 1]) is not int or not 0 <= t[i + 1] - t[i] < 100 or not numbers(t[i + 2:i + 2 + width]):
                    return False
                i += 2 + width
        return True

    def requires(self, enc, base, tounicode, system, W, DW, W2, DW2, missing, refs, codes):
        if not self.ok_table(W, 1) or not self.ok_table(W2, 3) or not refs >= 0 or system not in ('Adobe-Identity', 'Some-Order') or tounicode is not None and not ok_sections(tounicode, (2,), 'bf'):
            return False
        if not all(x is None or numbers([x]) for x in (DW, missing)) or not (DW2 is None or len(DW2) == 2 and numbers(DW2)):
            return False
        if type(enc) is tuple:
            if len(enc) != 3 or enc[0] not in ('embedded', 'predefined') or enc[1] not in (None, 0, 1) or not ok_sections(enc[2], (1, 2), 'cid') or not (base == () or ok_sections(base, (1, 2), 'cid')):
                return False
            if enc[0] == 'predefined' and (base or enc[1] is None):
                return False
            cs = code_entries(enc[2] + base)
            return not any(a != b and b.startswith(a) for a in cs for b in cs)
        return enc in ('Identity-H', 'Identity-V') and base == ()

    def entries(self, t, width):
        r, i = {}, 0
        while i < len(t or ()):
            if type(t[i + 1]) is tuple:
                for j in range(0, len(t[i + 1]), width):
                    r[t[i] + j // width] = t[i + 1][j:j + width]
                i += 2
            else:
                for c in range(t[i], t[i + 1] + 1):
                    r[c] = t[i + 2:i + 2 + width]
                i += 2 + width
        return r

    def want(self, enc, base, tounicode, system, W, DW, W2, DW2, missing, refs, codes):
        if type(enc) is tuple:
            vert = enc[1] == 1
            table, cids, buf = code_entries(base), [], b''
            table.update(code_entries(enc[2]))
            for c in codes:
                buf += bytes([c])
                if buf in table:
                    cids.append(table[buf])
                    buf = b''
                elif not any(k.startswith(buf) for k in table):
                    buf = b''
        else:
            vert = enc == 'Identity-V'
            cids = [codes[i] * 256 + codes[i + 1] for i in range(0, len(codes) - 1, 2)]
        if tounicode is not None:
            t = unicode_entries(tounicode)
        elif system == 'Some-Order':
            t = {c: chr(c + (0x4e00 if not vert else 0x5e00)) for c in range(1000)}
        else:
            t = {}
        r = []
        w1, w2 = self.entries(W, 1), self.entries(W2, 3)
        for c in cids:
            if vert:
                vy, w = DW2 or (880, -1000)
                m = w2.get(c)
                r.append((t.get(c), (m[0] if m else w) * .001, tuple(m[1:]) if m else (None, vy)))
            else:
                r.append((t.get(c), (w1[c][0] if c in w1 else 1000 if DW is None else DW) * .001, 0))
        return cids, r, True, vert

    def run(self, **kw):
        import gzip, os, pickle, shutil, tempfile
        enc, base = kw['enc'], kw['base']
        b = Builder(self, kw['refs'])
        db = self.mod(CD).CMapDB
        scratch = tempfile.mkdtemp()
        old = os.environ.get('CMAP_PATH')

        def store(name, **data):
            with gzip.open(os.path.join(scratch, name + '.pickle.gz'), 'wb') as f:
                f.write(pickle.dumps(data))

        def tree(secs):
            r = {}
            for k, v in code_entries(secs).items():
                d = r
                for c in k[:-1]:
                    d = d.setdefault(c, {})
                d[k[-1]] = v
            return r

        def go():
            os.environ['CMAP_PATH'] = scratch
            db._cmap_cache.clear()
            db._umap_cache.clear()
            store('to-unicode-Some-Order', CID2UNICHR_H={c: chr(c + 0x4e00) for c in range(1000)}, CID2UNICHR_V={c: chr(c + 0x5e00) for c in range(1000)})
            store('Base-Map', CODE2CID=tree(base), IS_VERTICAL=False)
            if type(enc) is tuple and enc[0] == 'predefined':
                store('Own-Map', CODE2CID=tree(enc[2]), IS_VERTICAL=enc[1] == 1)
                e = b.value('Own-Map')
            elif type(enc) is tuple:
                e = b.maybe(b.stream(map_source(enc[2], b'cid', enc[1], 'Base-Map' if base else None), Type='CMap'))
            else:
                e = b.value(enc)
            reg, order = kw['system'].split('-')
            d = {'Type': 'Font', 'Subtype': 'CIDFontType2', 'BaseFont': 'Some', 'CIDSystemInfo': {'Registry': lambda: reg.encode(), 'Ordering': lambda: order.encode(), 'Supplement': 0},
                 'FontDescriptor': dict({'FontName': 'Some', 'Flags': 4}, **({} if kw['missing'] is None else {'MissingWidth': kw['missing']}))}
            for k in ('W', 'DW', 'W2', 'DW2'):
                if kw[k] is not None:
                    d[k] = kw[k]
            d = {k: (b.LIT(v) if k in ('Type', 'Subtype') else b.value(v)) for k, v in d.items()}
            s = {'Type': b.LIT('Font'), 'Subtype': b.LIT('Type0'), 'BaseFont': b.LIT('Some'), 'Encoding': e, 'DescendantFonts': b.maybe([b.maybe(d)])}
            if kw['tounicode'] is not None:
                s['ToUnicode'] = b.maybe(b.stream(map_source(kw['tounicode'], b'bf')))
            cache = {}
            G = self.mod(FN).get_font
            f = G(7, s, cache)
            same = G(7, {}, cache) is f and G(None, s, cache) is not f
            return self.fetch(f, kw['codes']), same
        try:
            return self.outcome(go)
        finally:
            db._cmap_cache.clear()
            db._umap_cache.clear()
            if old is None:
                os.environ.pop('CMAP_PATH', None)
            else:
                os.environ['CMAP_PATH'] = old
            shutil.rmtree(scratch)

    def ensures(self, out, **kw):
        if out[0] != 'ok':
            return [('no exception', False)]
        (cids, chars, mb, vert), same = out[1]
        w = self.want(**kw)
        if len(cids) != len(w[0]) or cids != w[0]:
            return [('codes of the string', False)]
        return [('characters', [c[0] for c in chars] == [c[0] for c in w[1]]), ('widths', all(abs(g[1] - t[1]) < 1e-6 for g, t in zip(chars, w[1]))), ('positions', [c[2] for c in chars] == [c[2] for c in w[1]]),
                ('writing mode', (mb, vert) == w[2:]), ('one font per object', same)]


class Tables(Contract):
    """every code of every named encoding"""
    name = 'named encodings'
    target = [ED + ':EncodingDB.get_encoding', ED + ':EncodingDB']
    search_n = 2200

    def gen(self, rng):
        return dict(name=rng.choice(sorted(TABLES)), code=rng.randrange(256))

    def requires(self, name, code):
        return name in TABLES and 0 <= code < 256

    def run(self, name, code):
        E = self.mod(ED).EncodingDB
        return self.outcome(lambda: (E.get_encoding(name).get(code), E.get_encoding('Other').get(code)))

    def ensures(self, out, name, code):
        if out[0] != 'ok':
            return [('no exception', False)]
        w = TABLES[name].get(code)
        return [('character', out[1][0] == w or w is None and out[1][0] == '•' and code in BULLETS.get(name, ())), ('standard for other names', out[1][1] == STD.get(code))]

    def explain(self, out, name, code):
        return 'wanted %r' % TABLES[name].get(code)


class TrueType(Contract):
    """characters of the glyphs of an embedded TrueType font"""
    name = 'characters of TrueType glyphs'
    target = [FN + '.TrueTypeFont:TrueTypeFont.__init__', FN + '.TrueTypeFont:TrueTypeFont.create_unicode_map', FN + '.fonts:PDFCIDFont.__init__']
    search_n = 3000

    def gen(self, rng):
        k = rng.random()
        if k < .25:
            sub = ('bytes', tuple((c, rng.randrange(1, 250)) for c in sorted(rng.sample(range(256), rng.randrange(1, 6)))))
        elif k < .75:
            segs, c = [], rng.randrange(1, 300)
            for _ in range(rng.randrange(1, 5)):
                n = rng.randrange(1, 5)
                segs.append((c, c + n - 1, rng.choice([rng.randrange(0, 50), -c + rng.randrange(1, 9), 0x7fff]), tuple(rng.randrange(1, 500) for _ in range(n)) if rng.random() < .5 else None))
                c += n + rng.choice([0, 1, 30, 20000])
            sub = ('segments', tuple(s for s in segs if s[1] < 0xd700))
        else:
            heads = []
            for hi in sorted(rng.sample(range(0x81, 0xd7), rng.randrange(0, 3))):
                heads.append((hi, rng.randrange(0x40, 0x70), rng.choice([0, 3, -2]), tuple(rng.choice([0, 10, 11, 300]) for _ in range(rng.randrange(1, 4)))))
            sub = ('mixed', ((0, rng.randrange(0x20, 0x40), 0, tuple(rng.choice([0, 5, 6]) for _ in range(rng.randrange(1, 4)))),) + tuple(heads))
        return dict(sub=sub, others=rng.randrange(3), extra=rng.random() < .3, whole=rng.random() < .5)

    def requires(self, sub, others, extra, whole):
        kind, d = sub
        if kind == 'bytes':
            return all(len(x) == 2 and 0 <= x[0] < 256 and 1 <= x[1] < 256 for x in d) and len({x[0] for x in d}) == len(d) and 0 <= others < 5
        if kind == 'segments':
            last = -1
            for lo, hi, delta, gl in d:
                if not last < lo <= hi < 0xd800 or not -0x8000 <= delta < 0x8000 or gl is not None and (len(gl) != hi - lo + 1 or not all(1 <= g < 65536 for g in gl)):
                    return False
                last = hi
            return 0 <= others < 5
        hs = [x[0] for x in d]
        return kind == 'mixed' and hs[:1] == [0] and all(0x81 <= h < 0xd7 for h in hs[1:]) and len(set(hs)) == len(hs) and 0 <= others < 5 and all(0x20 <= x[1] < 0x80 and len(x) == 4 and x[3] and len(x[3]) < 20 and -9 < x[2] < 9 and all(g == 0 or 9 < g < 65000 or x[0] == 0 and g > 0 for g in x[3]) for x in d)

    def subtable(self, kind, d):
        import struct
        if kind == 'bytes':
            g = dict(d)
            return struct.pack('>HHH256B', 0, 262, 0, *[g.get(c, 0) for c in range(256)])
        if kind == 'segments':
            d = d + ((0xffff, 0xffff, 1, None),)
            n = len(d)
            gl, ro = b'', []
            for i, (lo, hi, delta, g) in enumerate(d):
                ro.append(0 if g is None else 2 * (n - i) + len(gl))
                gl += b'' if g is None else struct.pack('>%dH' % len(g), *g)
            body = struct.pack('>HHHH', 2 * n, 0, 0, 0) + struct.pack('>%dH' % n, *[s[1] for s in d]) + b'\0\0' + struct.pack('>%dH' % n, *[s[0] for s in d]) + struct.pack('>%dh' % n, *[s[2] for s in d]) + struct.pack('>%dH' % n, *ro) + gl
            return struct.pack('>HHH', 4, 6 + len(body), 0) + body
        keys, n = [0] * 256, len(d)
        hdr = gl = b''
        for i, (hi, lo, delta, g) in enumerate(d):
            keys[hi] = 8 * i
            pos = len(hdr) + 6
            hdr += struct.pack('>HHhH', lo, len(g), delta, 8 * n + len(gl) - pos)
            gl += struct.pack('>%dH' % len(g), *g)
        body = struct.pack('>256H', *keys) + hdr + gl
        return struct.pack('>HHH', 2, 6 + len(body), 0) + body

    def glyphs(self, kind, d):
        r = {}
        if kind == 'bytes':
            r = dict(d)
        elif kind == 'segments':
            for lo, hi, delta, g in d:
                for c in range(lo, hi + 1):
                    r[c] = ((c if g is None else g[c - lo]) + delta) & 0xffff
        else:
            for hi, lo, delta, g in d:
                for i, x in enumerate(g):
                    r[hi * 256 + lo + i] = (x + delta) & 0xffff if x else 0
        t = {}
        for c, g in r.items():
            t.setdefault(g, set()).add(chr(c))
        t.pop(0, None)
        return t

    def run(self, sub, others, extra, whole):
        import io, struct
        body = self.subtable(*sub)
        subs = [body] + ([struct.pack('>HHH', 6, 10, 0) + b'\0\0\0\0'] if extra else [])
        cm, pos = struct.pack('>HH', 0, len(subs)), 4 + 8 * len(subs)
        for s in subs:
            cm += struct.pack('>HHL', 3, 1, pos)
            pos += len(s)
        cm += b''.join(subs)
        n = others + 1
        head, data, off = struct.pack('>4sHHHH', b'\0\1\0\0', n, 0, 0, 0), b'', 12 + 16 * n
        for i in range(n):
            tag, t = (b'cmap', cm) if i == others // 2 else (b'tab%d' % i, b'table' * (i + 1))
            head += struct.pack('>4sLLL', tag, 0, off + len(data), len(t))
            data += t
        want = self.glyphs(*sub)

        def go():
            T = self.mod(FN + '.TrueTypeFont').TrueTypeFont
            if not whole:
                u = T('Some', io.BytesIO(head + data)).create_unicode_map()
                get = u.get_unichr
            else:
                b = Builder(self, 0)
                s = {'Type': b.LIT('Font'), 'Subtype': b.LIT('CIDFontType2'), 'BaseFont': b.LIT('Some'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity'}, 'Encoding': b.LIT('Identity-H'),
                     'FontDescriptor': {'FontName': b.LIT('Some'), 'FontFile2': b.stream(head + data)}}
                get = self.mod(FN).get_font(None, s, {}).to_unichr
            r = {}
            for g in sorted(want) + [65000 - i for i in range(3)]:
                try:
                    r[g] = get(g)
                except (KeyError, self.mod('pdfmajor.execptions').UnicodeNotDefined):
                    r[g] = None
            return r
        return self.outcome(go)

    def ensures(self, out, sub, **kw):
        if out[0] != 'ok':
            return [('no exception', False)]
        want = self.glyphs(*sub)
        return [('glyph %d' % g, t in want[g] if g in want else t is None) for g, t in out[1].items()]

    def explain(self, out, sub, **kw):
        return 'wanted %r' % (self.glyphs(*sub),)


class FontProgram(Contract):
    """the encoding of a Type 1 font program, where the font has none"""
    name = 'encoding of a font program'
    target = [FN + '.fonts:PDFType1Font.__init__', FN + '.Type1FontHeaderParser:Type1FontHeaderParser.get_encoding', FN + '.Type1FontHeaderParser:Type1FontHeaderParser.do_keyword']
    search_n = 1500

    def gen(self, rng):
        own = tuple(sorted({rng.randrange(1, 256): rng.choice(sorted(GLYPHS)) for _ in range(rng.randrange(1, 6))}.items())) if rng.random() < .7 else None
        return dict(own=own, given=rng.choice([None, None, 'WinAnsiEncoding']), code=rng.choice([c for c, _ in own]) if own and rng.random() < .7 else rng.randrange(32, 256))

    def requires(self, own, given, code):
        return 0 <= code < 256 and given in (None, 'WinAnsiEncoding') and (own is None or any(GLYPHS.get(g) for _, g in own) and all(0 < c < 256 and g in GLYPHS for c, g in own) and len({c for c, _ in own}) == len(own))

    def run(self, own, given, code):
        text = b'%!PS-AdobeFont-1.0: Some 001.001\n11 dict begin\n/FontInfo 3 dict dup begin\n/version (001.001) readonly def\n/isFixedPitch false def\nend readonly def\n/FontName /Some def\n/PaintType 0 def\n'
        if own is None:
            text += b'/Encoding StandardEncoding def\n'
        else:
            text += b'/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} for\n' + b''.join(b'dup %d /%s put\n' % (c, g.encode()) for c, g in own) + b'readonly def\n'
        text += b'/FontBBox {0 -200 1000 800} readonly def\ncurrentdict end\ncurrentfile eexec\n'
        b = Builder(self, 0)
        s = {'Type': b.LIT('Font'), 'Subtype': b.LIT('Type1'), 'BaseFont': b.LIT('Some'), 'FontDescriptor': {'FontName': b.LIT('Some'), 'FontFile': b.stream(text + b'dup 66 /Euro put ' * 3, Length1=len(text), Length2=54, Length3=0)}}
        if given:
            s['Encoding'] = b.LIT(given)

        def go():
            try:
                return self.mod(FN).get_font(None, s, {}).to_unichr(code)
            except self.mod('pdfmajor.execptions').UnicodeNotDefined:
                return None
        return self.outcome(go)

    def ensures(self, out, own, given, code):
        if out[0] != 'ok':
            return [('no exception', False)]
        w = TABLES[given].get(code) if given else STD.get(code) if own is None else GLYPHS.get(dict(own).get(code))
        return [('character', out[1] == w or w is None and given and code in BULLETS[given])]

    def explain(self, out, own, given, code):
        return 'encoding %r, font program %r' % (given, own)


probes = [SimpleFonts(), CompositeFonts(), Tables(), TrueType(), FontProgram()]
