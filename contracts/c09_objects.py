"""Objects built from tokens: arrays, dictionaries, procedures, references, null, inline images."""
from vc.contract import *

S = 'pdfmajor.parser.PSStackParser'
C = 'pdfmajor.parser.PDFContentParser'
P = 'pdfmajor.parser.PDFParser'
Any = TAny()
Entry = TTuple(TInt, Any, tag='entry')
Stack = TList(Entry)
Kind = TConst(None, 'a', 'd', 'p', 'inline')
Frame = TTuple(TInt, Kind, Stack, tag='frame')
Frames = TList(Frame)
OPEN = {b'[': 'a', b'<<': 'd', b'{': 'p'}
CLOSE = {b']': 'a', b'>>': 'd', b'}': 'p'}


def entries(x):
    return TYPED(Stack, x)


def frames(x):
    return TYPED(Frames, x)


def values(st):
    """the objects of a stack, in order"""
    v = TList(Any).fresh('values')
    ctx().assume(LEN(v) == LEN(st))
    ctx().assume(FORALL(LEN(st), lambda k: EQ(AT(v, k), AT(st, k)[1])))
    return v


def inner_lists(x):
    """the lists inside the entries of a stack of the code (to compare them element by element)"""
    import z3
    out, seen = [], set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().name() == Any.name + '.list':
                out.append(TList(Any).wrap(t.arg(0)))
            for c in t.children():
                go(c)
    go(Stack.unwrap(x))
    return out


class Step(Contract):
    """one token from any state: nextobject run until it wants the next token"""
    internal = True
    bounded = None

    def __init__(self, cls, token):
        self.cls, self.token = cls, token
        self.name = '%s on %s' % (cls, token if isinstance(token, str) else token.decode())
        m = {'PDFContentParser': C, 'PDFParser': P, 'PDFStreamParser': P}[cls]
        self.m = m
        self.target = [S + ':PSStackParser.nextobject', S + ':PSStackParser.start_type', S + ':PSStackParser.end_type', S + ':PSStackParser.push',
                       m + ':%s.do_keyword' % cls]
        self.loops = [LoopSpec(where='nextobject#0', inv=None, unroll=True)]

    def inputs(self):
        r = dict(pos=TInt, stack=Stack, ctx_=Frames, kind=Kind, strict=TBool)
        if self.token == 'number':
            r['x'] = TInt
        if self.token == 'string':
            r['x'] = TBytes
        return r

    def requires(self, pos, stack, ctx_, kind, strict, **kw):
        return EQ(kind is None, LEN(ctx_) == 0) if type(kind) is not Choice else True

    def run(self, pos, stack, ctx_, kind, strict, x=None):
        Any.objs.clear()
        mod = self.mod(self.m)
        cls = getattr(mod, self.cls)
        p = cls.__new__(cls)
        p.streams, p.istream, p.doc = [], 0, None
        kind = FORCE(kind)
        tok = x if x is not None else mod.KWD(self.token) if isinstance(self.token, bytes) else mod.PDFStream and self.literal()
        p.context, p.curtype, p.curstack, p.results = ctx_.copy(), kind, stack.copy(), LST()
        todo = [(pos, tok)]

        def nexttoken():
            if not todo:
                raise mod.PSEOF('enough')
            return todo.pop()
        p.nexttoken = nexttoken
        self.p, self.tok, self.kind = p, tok, kind
        st = self.mod('pdfmajor.utils').settings
        old, st.STRICT = st.STRICT, FORCE(strict)
        try:
            return self.outcome(p.nextobject)
        finally:
            st.STRICT = old

    def literal(self):
        return self.mod(S).LIT('Name')

    def push(self, stack, e):
        return entries(stack) + entries(LST(e))

    def expected(self, pos, stack, ctx_, strict):
        """(frames, kind, stack) after the token, or None: refused"""
        t, kind = self.token, self.kind
        if t in OPEN:
            return ctx_ + frames(LST((pos, kind, stack))), OPEN[t], entries(LST())
        if t == b'BI' and self.cls == 'PDFContentParser':
            return ctx_ + frames(LST((pos, kind, stack))), 'inline', entries(LST())
        if t in CLOSE:
            if kind != CLOSE[t]:
                return None if ctx().branch(V.tob(strict)) else (ctx_, kind, stack)
            n = LEN(ctx_)
            (p0, k0, s0) = AT(ctx_, n - 1)
            return SL(ctx_, 0, n - 1), k0, self.push(s0, (p0, self.value(stack)))
        if t == b'null' and self.cls != 'PDFContentParser':
            return ctx_, kind, self.push(stack, (pos, None))
        return ctx_, kind, self.push(stack, (pos, self.tok))

    def value(self, stack):
        v = values(stack)
        for st in (self.p.curstack, entries(self.p.results), *self.got):
            EXT(v, *inner_lists(st))
        return v

    def ensures(self, out, pos, stack, ctx_, kind, strict, x=None):
        p = self.p
        self.got = [entries(LST(FORCE(out[1])))] if out[0] == 'ok' else []
        e = self.expected(pos, stack, ctx_, strict)
        if e is None:
            return [('refused when strict', out == ('exc', 'PSTypeError'))]
        f, k, s = e
        top = LEN(f) == 0
        if ctx().branch(V.tob(top)) and self.cls != 'PDFParser':
            # delivered at once
            if out[0] != 'ok':
                return [('a complete object is delivered', AND(out == ('exc', 'PSEOF'), LEN(s) == 0))]
            return [('a complete object is delivered', EQ(entries(LST(FORCE(out[1]))) + entries(p.results), s)),
                    ('nothing left behind', AND(LEN(p.curstack) == 0, LEN(p.context) == 0))]
        return [('more is wanted', out == ('exc', 'PSEOF')), ('open brackets', EQ(frames(p.context), f)), ('kind of the open bracket', EQ(p.curtype, k)),
                ('collected objects', EQ(entries(p.curstack), s)), ('no result yet', LEN(p.results) == 0)]


class Dictionary(Step):
    """the end of a dictionary with a given number of entries: keys in any order, some values null"""
    bounded = 'dictionaries of at most 3 entries (the open brackets around them arbitrary)'

    def __init__(self, cls, n, null=None, odd=False, token=b'>>'):
        Step.__init__(self, cls, token)
        self.n, self.null, self.odd = n, null, odd
        self.name = '%s %s with %d entries%s%s' % (cls, token.decode(), n, '' if null is None else ', number %d null' % null, ', one odd' if odd else '')

    def inputs(self):
        return dict(pos=TInt, ctx_=Frames, strict=TBool, vals=TTuple(*[Any] * 3), stack=None, kind='inline' if self.token == b'ID' else 'd')

    def requires(self, ctx_, **kw):
        return LEN(ctx_) >= 1

    def run(self, pos, stack, ctx_, kind, strict, vals):
        lit = self.mod(S).LIT
        self.items = []
        for k in range(self.n):
            self.items += [(3 * k, lit('K%d' % (k * 7 % 5))), (3 * k + 1, None if k == self.null else vals[k])]
        if self.odd:
            self.items += [(50, lit('Odd'))]
        self.want = {'K%d' % (k * 7 % 5): (None if k == self.null else vals[k]) for k in range(self.n) if k != self.null or self.token == b'ID'}
        self.asked = []
        return Step.run(self, pos, VList(self.items), ctx_, kind, strict)

    def ensures(self, out, pos, stack, ctx_, kind, strict, vals):
        p = self.p
        if self.odd:
            return [('refused', out == ('exc', 'PSSyntaxError'))]
        n = LEN(ctx_)
        (p0, k0, s0) = AT(ctx_, n - 1)
        if out[0] == 'ok':
            last = None
            r = FORCE(out[1])
            got = [r] + list(p.results.items or []) if p.results.el is None else None
        return [('no other exception', OR(out[0] == 'ok', out == ('exc', 'PSEOF'))), ('enclosing bracket again', AND(EQ(frames(p.context), SL(ctx_, 0, n - 1)), EQ(p.curtype, k0)))] + self.made(pos, s0, p0, out)

    def made(self, pos, s0, p0, out):
        return [('the dictionary joins the enclosing objects', EQ(self.all_(out), entries(s0) + entries(LST((p0, self.obj())))))]

    def all_(self, out):
        r = entries(LST(FORCE(out[1]))) + entries(self.p.results) if out[0] == 'ok' else entries(self.p.results)
        return r + entries(self.p.curstack)

    def obj(self):
        return self.find(lambda d: V.isinstance_(d, (dict, VDict)) and set(d.keys()) == set(self.want) and
                         all(d[k] is self.want[k] or ctx().entails(V.tob(EQ(d[k], self.want[k]))) for k in self.want), V.isinstance_)

    def find(self, ok, isd):
        """the object built by the code that is what was asked for (objects are known to the stack by identity)"""
        for _, o in Any.objs.values():
            try:
                if ok(o):
                    return o
            except Exception:
                pass
        return object()


class InlineDict(Dictionary):
    """ID: the dictionary collected since BI and the data that follows make an image"""
    def __init__(self, n, odd=False):
        Dictionary.__init__(self, 'PDFContentParser', n, odd=odd, token=b'ID')

    def run(self, pos, **kw):
        p = self.mod(C)
        self.data = TBytes.fresh('data')
        self.at = []
        hooks.overrides = dict(hooks.overrides)

        def data(parser, at, target=b'EI'):
            self.at.append(AND(at == pos + 3, target == b'EI'))
            return (at, self.data)
        hooks.overrides[C + ':PDFContentParser.get_inline_data'] = data
        return Dictionary.run(self, pos=pos, **kw)

    def ensures(self, out, pos, strict, ctx_, **kw):
        if self.odd:
            return [('refused when strict', IMP(strict, out == ('exc', 'PSTypeError'))), 
                    ('no image', len(self.at) == 0)]
        return Dictionary.ensures(self, out, pos=pos, strict=strict, ctx_=ctx_, **kw)

    def made(self, pos, s0, p0, out):
        mod = self.mod(C)

        def ok(o):
            return type(o) is mod.PDFStream and set(o.attrs.keys()) == set(self.want) and all(
                ctx().entails(V.tob(EQ(o.attrs[k], self.want[k]))) for k in self.want) and ctx().entails(V.tob(EQ(o.rawdata, self.data))) and o.decipher is None
        return [('image and EI join the enclosing objects', EQ(self.all_(out), entries(s0) + entries(LST((pos + 3, self.find(ok, None)), (pos + 3, mod.KWD(b'EI')))))),
                ('data after the keyword and one space', AND(*self.at))]


class Reference(Step):
    def __init__(self, cls):
        Step.__init__(self, cls, b'R')

    def inputs(self):
        return dict(pos=TInt, stack=Stack, ctx_=Frames, kind=Kind, strict=TBool, p1=TInt, a=TInt, p2=TInt, b=TInt)

    def requires(self, pos, stack, ctx_, kind, strict, **kw):
        # an object stream may not hold a bare reference as one of its objects
        return LEN(ctx_) >= 1 if self.cls == 'PDFStreamParser' else True

    def run(self, pos, stack, ctx_, kind, strict, p1, a, p2, b):
        hooks.overrides = dict(hooks.overrides)
        ref = z3fun('ref')
        hooks.overrides['pdfmajor.parser.PDFStream.PDFObjRef:PDFObjRef'] = lambda doc, objid, genno: ref(objid, doc is None)
        self.ref = ref
        return Step.run(self, pos, entries(stack) + entries(LST((p1, a), (p2, b))), ctx_, kind, strict)

    def ensures(self, out, pos, stack, ctx_, kind, strict, p1, a, p2, b):
        p = self.p
        return [('reference to the object', EQ(entries(p.curstack), self.push(stack, (pos, self.ref(a, True))))), ('more is wanted', out == ('exc', 'PSEOF')),
                ('brackets', AND(EQ(frames(p.context), ctx_), EQ(p.curtype, self.kind)))]


def z3fun(name):
    import z3
    f = z3.Function('any.' + name, z3.IntSort(), z3.BoolSort(), Any.sort)
    return lambda x, same: Any.wrap(f(V.int_term(x), z3.BoolVal(same)))


class Delivered(Step):
    """endobj, xref and startxref hand over what was collected"""
    def __init__(self, token, n):
        Step.__init__(self, 'PDFParser', token)
        self.n = n

    def inputs(self):
        return dict(pos=TInt, stack=Stack, ctx_=Frames, kind=Kind, strict=TBool)

    def requires(self, pos, stack, ctx_, kind, strict):
        return AND(LEN(stack) >= self.n, LEN(ctx_) == 0)

    def ensures(self, out, pos, stack, ctx_, kind, strict):
        p, n = self.p, LEN(stack)
        if out[0] != 'ok':
            return [('something is delivered', False)]
        return [('the last objects are delivered', EQ(entries(LST(FORCE(out[1]))) + entries(p.results), SL(stack, n - self.n, n))),
                ('the others stay', EQ(entries(p.curstack), SL(stack, 0, n - self.n)))]


# ------------------------------------------------------------------ inline images
@spec_fn((TBytes, TInt, TInt), TInt)
def end(F, p, i):
    """position after the white space that follows the first EI from p on, i characters of which are read; -1 if none"""
    if not symbolic():
        return None
    c = AT(F, p)
    nxt = ITE(i == 0, ITE(c == 69, 1, 0), ITE(i == 1, ITE(c == 73, 2, 0), ITE(OR(c == 32, AND(c >= 9, c <= 13)), 3, 0)))
    return ITE(i == 3, p, ITE(p >= LEN(F), -1, end(F, p + 1, nxt)))


class Skip(Lemma):
    name = 'bytes that are not E can be skipped at once'
    target = [C + ':PDFContentParser.get_inline_data']
    vars = dict(F=TBytes, p=TInt, q=TInt)

    def pre(self, F, p, q):
        return AND(0 <= p, p <= q, q <= LEN(F), FORALL(LEN(F), lambda k: IMP(AND(p <= k, k < q), AT(F, k) != 69)))

    def claim(self, F, p, q):
        return EQ(end(F, p, 0), end(F, q, 0))

    def measure(self, p, q, **kw):
        return q - p

    def proof(self, F, p, q):
        if p < q:
            self(F=F, p=p, q=q - 1)


skip = Skip()


class InlineData(Contract):
    name = 'inline image data'
    target = [C + ':PDFContentParser.get_inline_data']
    internal = True

    def inv(v):
        s, F = v.self, v.ghost.F
        cur = v.ghost.base + s.charpos
        # the bytes between the end of a run without E and the present position need the lemma
        return [('read so far', AND(0 <= v.i, v.i <= 3, v.ghost.pos + v.i <= cur, cur <= LEN(F), EQ(v.data, RSL(F, v.ghost.pos, cur)))),
                ('buffer', AND(0 <= s.charpos, s.charpos <= LEN(s.buf), 0 <= v.ghost.base, v.ghost.base + LEN(s.buf) <= LEN(F),
                               EQ(s.buf, RSL(F, v.ghost.base, v.ghost.base + LEN(s.buf))))),
                ('end of the data', EQ(end(F, v.ghost.pos, 0), end(F, cur, v.i)))]

    loops = [LoopSpec(where='get_inline_data#0', inv=inv)]

    def inputs(self):
        return dict(F=TBytes, pos=TInt)

    def requires(self, F, pos):
        return AND(0 <= pos, pos <= LEN(F))

    def run(self, F, pos):
        mod = self.mod(C)
        p = mod.PDFContentParser.__new__(mod.PDFContentParser)

        class Ghost:
            pass
        g = Ghost()
        g.F, g.pos, g.base = F, pos, pos
        p.buf, p.charpos = SL(F, pos, pos), 0

        def seek(at):
            HAVE(EQ(at, pos), 'reads from the given position')

        def fillbuf():
            c = ctx()
            if p.charpos < LEN(p.buf):
                pass
            else:
                cur = g.base + LEN(p.buf)
                if cur >= LEN(F):
                    raise mod.PSEOF('no more')
                n = TInt.fresh('n')
                c.assume(AND(n >= 1, cur + n <= LEN(F)))
                g.base, p.buf, p.charpos = cur, RSL(F, cur, cur + n), 0
            # what a search for E in this buffer can skip
            q = TInt.fresh('q')
            cur = g.base + p.charpos
            c.assume(AND(cur <= q, q <= g.base + LEN(p.buf), FORALL(LEN(F), lambda k: IMP(AND(cur <= k, k < q), AT(F, k) != 69)),
                         OR(q == g.base + LEN(p.buf), AT(F, q) == 69)))
            skip(F=F, p=cur, q=q)
            HAVE(IMP(q < g.base + LEN(p.buf), lambda: EQ(AT(p.buf, q - g.base), AT(F, q))), 'the buffer is a piece of the data')
            end(F, q, 0), end(F, cur, 1), end(F, cur, 2)
            return
        p.seek, p.fillbuf = seek, fillbuf
        ctx().ghost['ghost'] = g
        self.p, self.g = p, g
        return self.outcome(p.get_inline_data, pos)

    def ensures(self, out, F, pos):
        e = end(F, pos, 0)
        if out == ('exc', 'PSEOF'):
            return [('end of the data only without EI', e == -1)]
        if out[0] != 'ok':
            return [('no other exception', False)]
        r = FORCE(out[1])
        HAVE(EQ(e, end(F, self.g.base + self.p.charpos, 3)), 'stopped right after EI and white space')
        EXT(self.whole, SL(F, pos, e - 3))
        return [('the bytes before EI, without the line end', AND(e >= pos, EQ(r[1], _stripped(SL(F, pos, e - 3))))), ('position', r[0] == pos)]

    def re_sub(self, p, repl, s):
        import itertools
        ok = repl == b''
        for n in range(5):
            for t in itertools.product(b'x\r\n', repeat=n):
                t = bytes(t)
                w = t[:-2] if t.endswith(b'\r\n') else t[:-1] if t[-1:] in (b'\r', b'\n') else t
                ok = ok and p.sub(b'', t) == w
        ctx().prove(ok, self.name + ': one line end is stripped')
        self.whole = s
        return _stripped(s)


_stripped = UF('stripped', (TBytes,), TBytes)


contracts = [Step(c, t) for c in ('PDFContentParser', 'PDFParser', 'PDFStreamParser')
             for t in ['number', 'string', 'name', b'[', b']', b'<<', b'{', b'}', b'null', b'Do', b'BI']]
contracts += [Reference('PDFParser'), Reference('PDFStreamParser'), Delivered(b'endobj', 4), Delivered(b'xref', 1), Delivered(b'startxref', 1)]
contracts += [Dictionary(c, n, null) for c in ('PDFContentParser', 'PDFParser') for n, null in [(0, None), (1, None), (2, None), (3, None), (1, 0), (3, 1)]]
contracts += [Dictionary('PDFParser', 1, odd=True)]
contracts += [InlineDict(n) for n in range(4)] + [InlineDict(1, odd=True)]
contracts += [skip, InlineData()]


# ------------------------------------------------------------------ probes: written objects read back
NAMES = ['A', 'Type', 'K1', 'a b', 'x#', '(', 'é', 'Length']
SEPS = [b' ', b'\n', b'\r\n', b'\t', b'  ', b'%c\n', b'\0']


def gen_tree(rng, depth, refs):
    r = rng.random()
    if depth and r < .45:
        n = rng.choice([0, 1, 2, 3])
        if rng.random() < .5:
            return ('arr', [gen_tree(rng, depth - 1, refs) for _ in range(n)])
        return ('dict', [(rng.choice(NAMES), gen_tree(rng, depth - 1, refs)) for _ in range(n)])
    return rng.choice([('int', rng.randrange(-9, 1000)), ('real', rng.choice([0.5, -1.25, 100.0])), ('name', rng.choice(NAMES)),
                       ('str', bytes(rng.randrange(256) for _ in range(rng.randrange(4)))), ('hex', bytes(rng.randrange(256) for _ in range(rng.randrange(4)))),
                       ('bool', rng.random() < .5), ('null', 0)] + ([('ref', rng.randrange(1, 9))] * 3 if refs else []))


def good_tree(t):
    if not (isinstance(t, tuple) and len(t) == 2):
        return False
    k, v = t
    if k == 'arr':
        return isinstance(v, list) and all(good_tree(x) for x in v)
    if k == 'dict':
        return isinstance(v, list) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] and good_tree(x[1]) for x in v)
    if k == 'ref':
        return type(v) is int and v > 0
    return {'int': int, 'real': float, 'name': str, 'str': bytes, 'hex': bytes, 'bool': bool, 'null': int}.get(k) is type(v) and (k != 'name' or v != '')


def write_name(n):
    return b'/' + b''.join(bytes([c]) if chr(c).isalnum() and c < 128 else b'#%02x' % c for c in n.encode())


def pieces(t):
    """the tokens of a tree"""
    k, v = t
    if k == 'arr':
        return [b'['] + [p for x in v for p in pieces(x)] + [b']']
    if k == 'dict':
        return [b'<<'] + [p for n, x in v for p in [write_name(n)] + pieces(x)] + [b'>>']
    if k == 'str':
        return [b'(' + b''.join(b'\\%03o' % c if c in b'()\\\r' else bytes([c]) for c in v) + b')']
    if k == 'ref':
        return [b'%d' % v, b'0', b'R']
    return [{'int': lambda: b'%d' % v, 'real': lambda: repr(v).encode(), 'name': lambda: write_name(v), 'hex': lambda: b'<' + v.hex().encode() + b'>',
             'bool': lambda: b'true' if v else b'false', 'null': lambda: b'null'}[k]()]


def joined(toks, sep, tight):
    out = b''
    for k, t in enumerate(toks):
        if out and not (tight and (out[-1:] in b'[]<>()' or t[:1] in b'[]<>()/')):
            out += SEPS[(sep + k) % len(SEPS)]
        elif out and out[-1:] in b'<>' and t[:1] in b'<>':
            out += b' '
        out += t
    return out


class Trees(Contract):
    name = 'objects written and read back'
    target = [S + ':PSStackParser.nextobject', P + ':PDFParser.do_keyword', P + ':PDFStreamParser.do_keyword', C + ':PDFContentParser.do_keyword']
    search_n = 2500

    def gen(self, rng):
        how = rng.choice(['object', 'objstm', 'content'])
        n = 1 if how == 'object' else rng.randrange(0, 5)
        top = [gen_tree(rng, rng.randrange(4), how != 'content') for _ in range(n)]
        return dict(how=how, top=top, sep=rng.randrange(7), tight=rng.random() < .5, size=rng.choice([1, 3, 16, 4096]), strict=rng.random() < .3)

    def requires(self, how, top, sep, tight, size, strict):
        if how not in ('object', 'objstm', 'content') or size < 1 or not all(good_tree(t) for t in top):
            return False
        if how == 'objstm' and any(t[0] == 'ref' for t in top):
            return False
        return how != 'object' or len(top) == 1

    def expect(self, t, how):
        k, v = t
        LIT, KWD = self.mod(S).LIT, self.mod(S).KWD
        if k == 'arr':
            return [self.expect(x, how) for x in v]
        if k == 'dict':
            d = {}
            for n, x in v:
                if x[0] == 'null' and how != 'content':
                    continue
                d[n] = self.expect(x, how)
            return d
        if k == 'name':
            return ('is', LIT(v))
        if k == 'null':
            return ('is', KWD(b'null')) if how == 'content' else None
        return ('ref', v) if k == 'ref' else v

    def seen(self, x):
        n = type(x).__name__
        if n in ('PSLiteral', 'PSKeyword'):
            return ('is', x)
        if n == 'PDFObjRef':
            return ('ref', x.objid)
        if isinstance(x, list):
            return [self.seen(y) for y in x]
        if isinstance(x, dict):
            return {k: self.seen(y) for k, y in x.items()}
        return x

    def run(self, how, top, sep, tight, size, strict):
        Pm, Cm = self.mod(P), self.mod(C)
        text = joined([p for t in top for p in pieces(t)], sep, tight)
        st = self.mod('pdfmajor.utils').settings

        def go():
            if how == 'object':
                p = Pm.PDFParser(mkfile(b'junk 7 0 obj ' + text + b' endobj 8 0 obj (next) endobj'))
                p.BUFSIZ = size
                p.seek(5)
                for _ in range(3):
                    p.nexttoken()
                return [self.seen(p.nextobject()[1])]
            if how == 'objstm':
                p = Pm.PDFStreamParser(text)
            else:
                p = Cm.PDFContentParser([Cm.PDFStream({}, text), Cm.PDFStream({}, b'Tj')])
            p.BUFSIZ = size
            out = []
            try:
                while True:
                    out.append(self.seen(p.nextobject()[1]))
            except Cm.PSEOF:
                return out
        old, st.STRICT = st.STRICT, strict
        try:
            return self.outcome(go)
        finally:
            st.STRICT = old

    def ensures(self, out, how, top, **kw):
        want = [self.expect(t, how) for t in top]
        if how == 'content':
            want.append(('is', self.mod(S).KWD(b'Tj')))
        return [('the objects that were written', out[0] == 'ok' and ceq(out[1], want))]


class Images(Contract):
    name = 'inline images'
    target = [C + ':PDFContentParser.get_inline_data', C + ':PDFContentParser.do_keyword']
    search_n = 1500

    def gen(self, rng):
        return dict(entries_=[(rng.choice(NAMES), gen_tree(rng, 1, False)) for _ in range(rng.randrange(4))],
                    data=b''.join(rng.choice([b'E', b'I', b' ', b'\n', b'\r', b'EI', b'EE', b'\0', b'x', b'ID', b'Q', b')', b'%']) for _ in range(rng.randrange(9))),
                    nl=rng.choice([b'\n', b'\r\n', b'\r']), after=rng.choice([b'\n', b' ', b'\r\n', b'']), before=rng.choice([b'', b'q 1 0 0 1 0 0 cm ', b'(text) Tj\n']),
                    size=rng.choice([1, 2, 3, 5, 4096]))

    def corpus(self):
        for data in (b'abc\n', b'abc\r\n', b'abc\r', b'\n\n', b'', b'E', b'xEI', b'EEIx', b'E I '):
            for size in (1, 4, 4096):
                yield dict(entries_=[('W', ('int', 4)), ('F', ('arr', [('name', 'A85')]))], data=data, nl=b'\n', after=b' ', before=b'q ', size=size)

    def requires(self, entries_, data, nl, after, before, size):
        import re
        if size < 1 or nl not in (b'\n', b'\r\n', b'\r') or after not in (b'\n', b' ', b'\r\n', b'') or before not in (b'', b'q ', b'q 1 0 0 1 0 0 cm ', b'(text) Tj\n'):
            return False
        if not all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] and good_tree(x[1]) for x in entries_):
            return False
        # no EI of its own, and no doubt where the line end before EI begins
        return not re.search(rb'EI\s', data + nl) and not (data.endswith(b'\r') and nl == b'\n')

    def run(self, entries_, data, nl, after, before, size):
        Cm = self.mod(C)
        t = Trees()
        head = joined([b'BI'] + [p for n, x in entries_ for p in [write_name(n)] + pieces(x)] + [b'ID'], 0, False)
        streams = [Cm.PDFStream({}, before + head + b' ' + data + nl + b'EI' + after), Cm.PDFStream({}, b'(after) Q')]
        self.want = [('image', {n: t.expect(x, 'content') for n, x in entries_}, data), ('is', t.mod(S).KWD(b'EI')), b'after', ('is', t.mod(S).KWD(b'Q'))]

        def go():
            p = Cm.PDFContentParser(streams)
            p.BUFSIZ = size
            out = []
            try:
                while True:
                    x = p.nextobject()[1]
                    out.append(('image', t.seen(x.attrs), x.rawdata) if isinstance(x, Cm.PDFStream) else t.seen(x))
            except Cm.PSEOF:
                return out[-4:]
        return self.outcome(go)

    def ensures(self, out, **kw):
        return [('image and what follows it', out[0] == 'ok' and ceq(out[1], self.want))]


probes = [Trees(), Images()]
