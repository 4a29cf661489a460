"""Tokens of a PDF byte sequence: a function of the bytes alone, whatever the read chunks."""
from vc.contract import *

M = 'pdfmajor.parser.PSStackParser.PSBaseParser'
T_ = 'pdfmajor.parser.PSStackParser.types'
DOC = [TInt, TBytes]        # (cls of arguments below)
Tok = TTuple(TInt, TInt, TBytes, TStr, TInt, TReal)         # position, kind, raw bytes, name, integer, real
Toks = TList(Tok)
KW, NAME, BNAME, INT, REAL, STRING, TRUE, FALSE = range(8)


def tok(pos, kind, raw=b'', name='', i=0, r=0.0):
    return (pos, kind, raw, name, i, r)


def one(cond, t, rest):
    """the token t if cond, then rest"""
    return ITE(cond, cat(t, rest), rest) if symbolic() else ([t] if cond else []) + rest


def cat(t, rest):
    if not symbolic():
        return [t] + rest
    th = Toks.th
    import z3
    return Toks.wrap(th.concat(th.unit(Tok.unwrap(t)), Toks.unwrap(rest)))


def isin(c, s):
    return OR(*[c == x for x in s])


def ws(c):
    return OR(c == 32, AND(c >= 9, c <= 13), c == 0)


def eol(c):
    return OR(c == 10, c == 13)


def delim(c):
    return OR(ws(c), isin(c, b'#/%[]()<>{}'))


def digit(c):
    return AND(c >= 48, c <= 57)


def octd(c):
    return AND(c >= 48, c <= 55)


def hexd(c):
    return OR(digit(c), AND(c >= 65, c <= 70), AND(c >= 97, c <= 102))


def hexval(c):
    return ITE(c <= 57, c - 48, ITE(c <= 70, c - 55, c - 87))


def alpha(c):
    return OR(AND(c >= 65, c <= 90), AND(c >= 97, c <= 122))


ESC = [(ord('b'), 8), (ord('t'), 9), (ord('n'), 10), (ord('f'), 12), (ord('r'), 13), (40, 40), (41, 41), (92, 92)]


def esc(c):
    r = b''
    for a, b in ESC:
        r = ITE(c == a, bytes([b]), r)
    return r


# conversions of the token text (the interpreter's own, see the assumptions)
def isint(b):
    if symbolic():
        import z3
        return V.mkbool(z3.Function('bytes.isint10', V.BYTES.sort, z3.BoolSort())(TBytes.unwrap(b)))
    try:
        int(b)
        return True
    except ValueError:
        return False


def intval(b):
    if symbolic():
        import z3
        return V.SInt(z3.Function('bytes.int10', V.BYTES.sort, z3.IntSort())(TBytes.unwrap(b)))
    return int(b) if isint(b) else 0


def isfloat(b):
    if symbolic():
        import z3
        return V.mkbool(z3.Function('bytes.isfloat', V.BYTES.sort, z3.BoolSort())(TBytes.unwrap(b)))
    try:
        float(b)
        return True
    except ValueError:
        return False


def floatval(b):
    if symbolic():
        import z3
        return V.SReal(z3.Function('bytes.float', V.BYTES.sort, z3.RealSort())(TBytes.unwrap(b)))
    return float(b) if isfloat(b) else 0.0


def utf8ok(b):
    if symbolic():
        import z3
        return V.mkbool(z3.Function('decodable[utf-8]', V.BYTES.sort, z3.BoolSort())(TBytes.unwrap(b)))
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def utf8(b):
    if symbolic():
        import z3
        return TStr.wrap(z3.Function('decode[utf-8]', V.BYTES.sort, V.STR.sort)(TBytes.unwrap(b)))
    return b.decode()


def nametok(t, b):
    if symbolic():
        return ITE(utf8ok(b), tok(t, NAME, name=utf8(b)), tok(t, BNAME, b))
    return tok(t, NAME, name=utf8(b)) if utf8ok(b) else tok(t, BNAME, b)


def kwtok(t, b):
    if symbolic():
        return ITE(EQ(b, b'true'), tok(t, TRUE), ITE(EQ(b, b'false'), tok(t, FALSE), tok(t, KW, b)))
    return tok(t, TRUE) if b == b'true' else tok(t, FALSE) if b == b'false' else tok(t, KW, b)


def inttok(t, b):
    return tok(t, INT, i=intval(b))


def reals(t, b):
    return tok(t, REAL, r=floatval(b))


def none():
    return TYPED(Toks, LST()) if symbolic() else []


def IF(c, a, b):
    """lazy when run concretely"""
    if symbolic():
        return ITE(c, a(), b())
    return a() if c else b()


def CASES(*cs):
    """CASES((c1, f1), ..., f)"""
    if len(cs) == 1:
        return cs[0]()
    return IF(cs[0][0], cs[0][1], lambda: CASES(*cs[1:]))


# ------------------------------------------------------------------ the lexer, one byte at a time
# F: the bytes, p: position.  Result: the tokens that are completed from here on.  The end of a file acts like a line feed:
# the tokens of the file are main(file + line feed, 0).
@spec_fn((TBytes, TInt), Toks)
def main(F, p):
    if p >= LEN(F):
        return none()
    c = AT(F, p)
    q = p + 1
    return CASES((ws(c), lambda: main(F, q)),
                 (c == 37, lambda: comment(F, q)),
                 (c == 47, lambda: lit(b'', p, F, q)),
                 (OR(c == 43, c == 45, digit(c)), lambda: num(B1(c), p, F, q)),
                 (c == 46, lambda: flt(B1(c), p, F, q)),
                 (alpha(c), lambda: kw(B1(c), p, F, q)),
                 (c == 40, lambda: strg(b'', p, 1, F, q)),
                 (c == 60, lambda: wopen(p, F, q)),
                 (c == 62, lambda: wclose(p, F, q)),
                 lambda: cat(tok(p, KW, B1(c)), main(F, q)))


@spec_fn((TBytes, TInt), Toks)
def comment(F, p):
    if p >= LEN(F):
        return none()
    return IF(eol(AT(F, p)), lambda: main(F, p), lambda: comment(F, p + 1))


@spec_fn((TBytes, TInt, TBytes, TInt), Toks)
def lit(cur, t, F, p):
    if p >= LEN(F):
        return none()
    c = AT(F, p)
    return CASES((c == 35, lambda: lithex(cur, t, b'', F, p + 1)),
                 (delim(c), lambda: cat(nametok(t, cur), main(F, p))),
                 lambda: lit(cur + B1(c), t, F, p + 1))


def hexbyte(h):
    """one or two hex digits"""
    return B1(ITE(LEN(h) == 1, hexval(AT0(h, 0)), hexval(AT0(h, 0)) * 16 + hexval(AT0(h, 1))))


def AT0(h, k):
    return AT(h, k) if symbolic() or k < len(h) else 48


@spec_fn((TBytes, TInt, TBytes, TBytes, TInt), Toks)
def lithex(cur, t, h, F, p):
    cur2 = ITE(LEN(h) == 0, cur, cur + hexbyte(h))
    if p >= LEN(F):
        return none()
    c = AT(F, p)
    return IF(AND(hexd(c), LEN(h) < 2), lambda: lithex(cur, t, h + B1(c), F, p + 1), lambda: lit(cur2, t, F, p))


@spec_fn((TBytes, TInt, TBytes, TInt), Toks)
def num(cur, t, F, p):
    if p >= LEN(F):
        return none()
    c = AT(F, p)
    return CASES((digit(c), lambda: num(cur + B1(c), t, F, p + 1)),
                 (c == 46, lambda: flt(cur + B1(c), t, F, p + 1)),
                 lambda: one(isint(cur), inttok(t, cur), main(F, p)))


@spec_fn((TBytes, TInt, TBytes, TInt), Toks)
def flt(cur, t, F, p):
    if p >= LEN(F):
        return none()
    c = AT(F, p)
    return IF(digit(c), lambda: flt(cur + B1(c), t, F, p + 1), lambda: one(isfloat(cur), reals(t, cur), main(F, p)))


@spec_fn((TBytes, TInt, TBytes, TInt), Toks)
def kw(cur, t, F, p):
    if p >= LEN(F):
        return none()
    c = AT(F, p)
    return IF(delim(c), lambda: cat(kwtok(t, cur), main(F, p)), lambda: kw(cur + B1(c), t, F, p + 1))


@spec_fn((TBytes, TInt, TInt, TBytes, TInt), Toks)
def strg(cur, t, n, F, p):
    if p >= LEN(F):
        return none()
    c = AT(F, p)
    q = p + 1
    return CASES((c == 92, lambda: str1(cur, t, n, b'', F, q)),
                 (c == 40, lambda: strg(cur + B1(c), t, n + 1, F, q)),
                 (AND(c == 41, n == 1), lambda: cat(tok(t, STRING, cur), main(F, q))),
                 (c == 41, lambda: strg(cur + B1(c), t, n - 1, F, q)),
                 lambda: strg(cur + B1(c), t, n, F, q))


def octval(o):
    d = [AT0(o, k) - 48 for k in range(3)]
    return ITE(LEN(o) == 1, d[0], ITE(LEN(o) == 2, d[0] * 8 + d[1], d[0] * 64 + d[1] * 8 + d[2]))


@spec_fn((TBytes, TInt, TInt, TBytes, TBytes, TInt), Toks)
def str1(cur, t, n, o, F, p):
    if p >= LEN(F):
        return none()
    c = AT(F, p)
    return CASES((AND(octd(c), LEN(o) < 3), lambda: str1(cur, t, n, o + B1(c), F, p + 1)),
                 (LEN(o) > 0, lambda: strg(cur + B1(octval(o) % 256), t, n, F, p)),
                 (c == 13, lambda: strcr(cur, t, n, F, p + 1)),
                 lambda: strg(cur + esc(c), t, n, F, p + 1))


@spec_fn((TBytes, TInt, TInt, TBytes, TInt), Toks)
def strcr(cur, t, n, F, p):
    if p >= LEN(F):
        return none()
    return IF(AT(F, p) == 10, lambda: strg(cur, t, n, F, p + 1), lambda: strg(cur, t, n, F, p))


@spec_fn((TInt, TBytes, TInt), Toks)
def wopen(t, F, p):
    if p >= LEN(F):
        return none()
    return IF(AT(F, p) == 60, lambda: cat(tok(t, KW, b'<<'), main(F, p + 1)), lambda: hexs(b'', t, F, p))


@spec_fn((TInt, TBytes, TInt), Toks)
def wclose(t, F, p):
    if p >= LEN(F):
        return none()
    return IF(AT(F, p) == 62, lambda: cat(tok(t, KW, b'>>'), main(F, p + 1)), lambda: main(F, p))


@spec_fn((TBytes, TInt, TBytes, TInt), Toks)
def hexs(cur, t, F, p):
    if p >= LEN(F):
        return none()
    c = AT(F, p)
    return IF(OR(hexd(c), ws(c)), lambda: hexs(cur + B1(c), t, F, p + 1), lambda: cat(tok(t, STRING, unhex(cur)), main(F, p)))


_nosp, _pairs = UF('nosp', (TBytes,), TBytes), UF('hexpairs', (TBytes,), TBytes)


def unhex(b):
    """white space dropped, every two digits one byte, a single last digit a byte of its own"""
    if symbolic():
        return _pairs(_nosp(b))
    b = bytes(x for x in b if not ws(x))
    return bytes(int(b[k:k + 2], 16) for k in range(0, len(b), 2))


# ------------------------------------------------------------------ the parser states
STATES = dict(main='main', comment='comment', literal='lit', literal_hex='lithex', number='num', float='flt', keyword='kw',
              string='strg', string_1='str1', string_cr='strcr', wopen='wopen', wclose='wclose', hexstring='hexs')


def lex(state, cur, t, n, o, h, F, p):
    """tokens from a parser state on"""
    return {'main': lambda: main(F, p), 'comment': lambda: comment(F, p), 'literal': lambda: lit(cur, t, F, p),
            'literal_hex': lambda: lithex(cur, t, h, F, p), 'number': lambda: num(cur, t, F, p),
            'float': lambda: flt(cur, t, F, p), 'keyword': lambda: kw(cur, t, F, p), 'string': lambda: strg(cur, t, n, F, p),
            'string_1': lambda: str1(cur, t, n, o, F, p), 'string_cr': lambda: strcr(cur, t, n, F, p),
            'wopen': lambda: wopen(t, F, p), 'wclose': lambda: wclose(t, F, p), 'hexstring': lambda: hexs(cur, t, F, p)}[state]()


def wellformed(state, cur, n, o, h):
    """representation invariant of the state's registers"""
    if state == 'string_1':
        return AND(n >= 1, LEN(o) <= 3, IMP(LEN(o) >= 1, lambda: octd(AT(o, 0))), IMP(LEN(o) >= 2, lambda: octd(AT(o, 1))),
                   IMP(LEN(o) >= 3, lambda: octd(AT(o, 2))))
    if state == 'wopen':
        return LEN(cur) == 0
    if state == 'hexstring':
        return FORALL(LEN(cur), lambda k: OR(hexd(AT(cur, k)), ws(AT(cur, k))))
    if state in ('string', 'string_cr'):
        return n >= 1
    if state == 'literal_hex':
        return AND(LEN(h) <= 2, IMP(LEN(h) >= 1, lambda: hexd(AT(h, 0))), IMP(LEN(h) >= 2, lambda: hexd(AT(h, 1))))
    return True


def token(pos, obj):
    """a token of the code as specification value"""
    obj = FORCE(obj)
    if obj is True:
        return tok(pos, TRUE)
    if obj is False:
        return tok(pos, FALSE)
    n = type(obj).__name__
    if n == 'Sym_':
        return obj.tok(pos)
    if n in ('PSLiteral', 'PSKeyword'):
        x = obj.name
        if n == 'PSKeyword':
            return tok(pos, KW, x)
        return tok(pos, NAME, name=x) if isinstance(x, str) else tok(pos, BNAME, x)
    if V.isint(obj):
        return tok(pos, INT, i=obj)
    if V.isreal(obj):
        return tok(pos, REAL, r=obj)
    return tok(pos, STRING, obj)


class Sym_:
    """an interned symbol with a symbolic name"""
    def __init__(self, klass, name):
        self.klass, self.name_ = klass, name

    def tok(self, pos):
        if self.klass == 'PSKeyword':
            return tok(pos, KW, self.name_)
        return tok(pos, NAME, name=self.name_) if type(self.name_) in (str, V.SStr) else tok(pos, BNAME, self.name_)


class Munch(Lemma):
    """bytes that only accumulate can be taken at once"""
    state = None
    stop = None

    def __init__(self, state, stop):
        self.state, self.stop, self.name = state, stop, 'munch ' + state
        self.vars = dict(cur=TBytes, t=TInt, par=TInt, F=TBytes, bp=TInt, n=TInt, i=TInt, j=TInt)
        self.target = [M + ':PSBaseParser._parse_' + state]

    def clean(self, s, i, j):
        return FORALL(LEN(s), lambda k: IMP(AND(i <= k, k < j), NOT(self.stop(AT(s, k)))))

    def pre(self, cur, t, par, F, bp, n, i, j):
        s = RSL(F, bp, bp + n)
        return AND(0 <= bp, 0 <= i, i <= j, j <= n, bp + n <= LEN(F), self.clean(s, i, j))

    def claim(self, cur, t, par, F, bp, n, i, j):
        s = RSL(F, bp, bp + n)
        return EQ(lex(self.state, cur, t, par, None, None, F, bp + i), lex(self.state, cur + RSL(s, i, j), t, par, None, None, F, bp + j))

    def measure(self, j, i, **kw):
        return j - i

    def proof(self, cur, t, par, F, bp, n, i, j):
        if i < j:
            self(cur=cur, t=t, par=par, F=F, bp=bp, n=n, i=i, j=j - 1)
            s = RSL(F, bp, bp + n)
            HAVE(EQ(AT(s, j - 1), AT(F, bp + j - 1)))
            EXT(cur + RSL(s, i, j - 1) + B1(AT(F, bp + j - 1)), cur + RSL(s, i, j))


munch = {s: Munch(s, f) for s, f in dict(
    main=lambda c: NOT(ws(c)), comment=eol, literal=delim, number=lambda c: NOT(digit(c)), float=lambda c: NOT(digit(c)),
    keyword=delim, string=lambda c: OR(c == 40, c == 41, c == 92), hexstring=lambda c: NOT(OR(hexd(c), ws(c)))).items()}


class State(Contract):
    """one state function: what is still to come is the tokens it adds and what comes from its new state"""
    internal = True

    def __init__(self, state):
        self.state, self.name = state, 'state ' + state
        self.target = [M + ':PSBaseParser._parse_' + state, M + ':PSBaseParser._add_token']

    def inputs(self):
        return dict(F=TBytes, bp=TInt, n=TInt, i=TInt, cur=TBytes, t=TInt, paren=TInt, o=TBytes, h=TBytes)

    def requires(self, F, bp, n, i, cur, t, paren, o, h):
        return AND(0 <= bp, 0 <= i, i < n, bp + n <= LEN(F), wellformed(self.state, cur, paren, o, h))

    def run(self, F, bp, n, i, cur, t, paren, o, h):
        P = self.mod(M)
        hooks.overrides = {T_ + ':PSSymbolTable.intern': lambda tb, name: Sym_(tb.klass.__name__, name)}
        p = P.PSBaseParser(models.SFile(b'', 0))
        s = SL(F, bp, bp + n)
        p.bufpos, p.buf = bp, s
        p._curtoken, p._curtokenpos, p.paren, p.oct, p.hex = cur, t, paren, o, h
        f = getattr(p, '_parse_' + self.state)
        p._current_parse_func = f
        self.p, self.s = p, s
        return self.outcome(f, s, i)

    def ensures(self, out, F, bp, n, i, cur, t, paren, o, h):
        if out[0] != 'ok':
            return [('no exception', False)]
        p, j = self.p, FORCE(out[1])
        new = p._current_parse_func.__name__[len('_parse_'):]
        g = [('position in the buffer', AND(i <= j, j <= n)), ('registers', wellformed(new, p._curtoken, p.paren, p.oct, p.hex)),
             ('progress', OR(j > i, new != self.state))]
        if symbolic() and self.state in munch:
            m = munch[self.state]
            for q in (j, j - 1):
                if ctx().entails(V.tob(q >= i)) and ctx().entails(V.tob(m.clean(self.s, i, q))):
                    m(cur=cur, t=t, par=paren, F=F, bp=bp, n=n, i=i, j=q)
                    acc = cur + SL(self.s, i, q)
                    EXT(p._curtoken, acc, acc + B1(AT(F, bp + q)))
                    break
        bi = bp + i
        EXT(p._curtoken, cur, cur + B1(AT(F, bi)), cur + esc(AT(F, bi)), B1(AT(F, bp + j - 1)))
        EXT(p.oct, o, o + B1(AT(F, bi)))
        EXT(p.hex, h, h + B1(AT(F, bi)))
        for pos, obj in p._tokens:
            if type(obj) is Sym_ and type(obj.name_) not in (str, V.SStr):
                EXT(obj.name_, p._curtoken, B1(AT(F, bp + j - 1)), cur, b'true', b'false')
        rest = lex(new, p._curtoken, p._curtokenpos, p.paren, p.oct, p.hex, F, bp + j)
        for pos, obj in reversed(list(p._tokens)):
            rest = cat(token(pos, obj), rest)
        g.append(('what is still to come', EQ(lex(self.state, cur, t, paren, o, h, F, bp + i), rest)))
        return g

    def re_sub(self, p, repl, s):
        c = ctx()
        if repl == b'':
            t = models.char_class(p)
            c.prove(t is not None and [bool(x) for x in t] == [bool(ws(k)) for k in range(256)], self.name + ': white space is dropped')
            return _nosp(s)
        hx = b'0123456789abcdefABCDEF'
        pairs = all(p.match(bytes([a, b])).end() == (2 if a in hx and b in hx else 1) for a in range(256) if a != 10 for b in range(256))
        c.prove(pairs, self.name + ': digits are taken in pairs')
        for n in (1, 2):
            x = TBytes.fresh('digits')
            c.assume(AND(LEN(x) == n, *[hexd(AT(x, k)) for k in range(n)]))
            c.prove(EQ(hooks.call(repl, models.SMatch(x, 0, n)), hexbyte(x)), self.name + ': value of %d digits' % n)
        return _pairs(s)


# ------------------------------------------------------------------ reading in chunks
Tk = TTuple(TInt, TInt, tag='tk')
Tks = TList(Tk)
Lex = UF('lex', (TInt, TInt), Tks)      # tokens from an (abstract) lexer state on, at a position of the bytes


def tks(x):
    return TYPED(Tks, x)


class NextToken(Contract):
    """State functions by their contract (State above); G is the file and a line feed"""
    name = 'nexttoken'
    target = [M + ':PSBaseParser.nexttoken', M + ':PSBaseParser.fillbuf']
    internal = True

    def left(p, sig, pos):
        return tks(p._tokens) + Lex(sig, pos)

    def inv(v):
        p, g = v.self, v.ghost
        F, G = g.F, g.G
        return [('buffer is a piece of the file', AND(0 <= p.bufpos, 0 <= p.charpos, p.charpos <= LEN(p.buf), p.bufpos + LEN(p.buf) <= LEN(F),
                                                     EQ(p.buf, RSL(F, p.bufpos, p.bufpos + LEN(p.buf))), p.fp.pos == p.bufpos + LEN(p.buf))),
                ('position', p.abs_ == p.bufpos + p.charpos),
                ('nothing lost', EQ(NextToken.left(p, p.sig, p.abs_), g.all))]

    def inv2(v):
        p, g = v.self, v.ghost
        return [('at the end', AND(0 <= v.i, v.i <= 1, p.bufpos == LEN(g.F), p.abs_ == p.bufpos + v.i)),
                ('nothing lost', EQ(NextToken.left(p, p.sig, p.abs_), g.all))]

    loops = [LoopSpec(where='nexttoken#0', inv=inv), LoopSpec(where='nexttoken#1', inv=inv2)]

    def inputs(self):
        return dict(F=TBytes, bp=TInt, n=TInt, ch=TInt, sig=TInt, pend=Tks, size=TInt)

    def requires(self, F, bp, n, ch, sig, pend, size):
        return AND(0 <= bp, 0 <= ch, ch <= n, bp + n <= LEN(F), size >= 1)

    def run(self, F, bp, n, ch, sig, pend, size):
        P = self.mod(M)
        p = P.PSBaseParser(models.SFile(F, 0))
        G = F + b'\n'

        class Ghost:
            pass
        g = Ghost()
        g.F, g.G = F, G

        def step(s, i):
            c = ctx()
            HAVE(EQ(s, RSL(G, p.bufpos, p.bufpos + LEN(s))), 'the state function gets a piece of the data')
            HAVE(AND(i == p.abs_ - p.bufpos, 0 <= i, i < LEN(s)), 'from where the last one stopped')
            j, sig2 = TInt.fresh('j'), TInt.fresh('sig')
            new = Tks.fresh('new')
            c.assume(AND(i <= j, j <= LEN(s), LEN(new) <= 1))
            c.assume(EQ(Lex(p.sig, p.bufpos + i), new + Lex(sig2, p.bufpos + j)))
            p.sig, p.abs_ = sig2, p.bufpos + j
            old = p._tokens
            p._tokens = tks(old) + new
            HAVE(EQ(NextToken.left(p, sig2, p.abs_), tks(old) + (new + Lex(sig2, p.abs_))))
            return j
        p.BUFSIZ = size
        p.bufpos, p.buf, p.charpos = bp, SL(F, bp, bp + n), ch
        p.fp.pos = bp + n
        p._tokens = pend
        p.sig, p.abs_ = sig, bp + ch
        p._current_parse_func = step
        g.all = pend + Lex(sig, bp + ch)
        s = TInt.fresh('any')
        ctx().ghost['ghost'] = g
        self.p, self.g = p, g
        return self.outcome(p.nexttoken)

    def ensures(self, out, F, bp, n, ch, sig, pend, size):
        p, g = self.p, self.g
        ctx().assume(LEN(Lex(p.sig, LEN(g.G))) == 0)        # nothing comes from the end of the data
        if out == ('exc', 'PSEOF'):
            return [('end of file only when no token is left', LEN(g.all) == 0)]
        if out[0] != 'ok':
            return [('no other exception', False)]
        return [('the next token, the others kept', EQ(g.all, tks(LST(FORCE(out[1]))) + NextToken.left(p, p.sig, p.abs_)))]



# ------------------------------------------------------------------ probes: independent reading of the whole data at once
WS, DELIM, HEXD = b'\0\t\n\v\f\r ', b'\0\t\n\v\f\r #/%[]()<>{}', b'0123456789abcdefABCDEF'


def ref_tokens(data):
    """[(position, kind, value)]"""
    import re
    d = data + b'\n'
    out, p, n = [], 0, len(data) + 1

    def conv(f, x, kind, at):
        try:
            out.append((at, kind, f(x)))
        except ValueError:
            pass
    while p < n:
        c = d[p:p + 1]
        if c in WS:
            p += 1
        elif c == b'%':
            p = re.compile(rb'[\r\n]').search(d, p).start()
        elif c == b'/':
            q, cur = p + 1, b''
            while d[q:q + 1] not in DELIM or d[q:q + 1] == b'#':
                if d[q:q + 1] == b'#':
                    m = re.compile(rb'[0-9a-fA-F]{0,2}').match(d, q + 1)
                    cur += bytes([int(m.group(), 16)]) if m.group() else b''
                    q = m.end()
                else:
                    cur += d[q:q + 1]
                    q += 1
            try:
                cur = cur.decode('utf-8')
            except UnicodeDecodeError:
                pass
            out.append((p, 'name', cur))
            p = q
        elif c in b'+-0123456789':
            m = re.compile(rb'[-+0-9][0-9]*(\.[0-9]*)?').match(d, p)
            conv(float if m.group(1) else int, m.group(), 'num', p)
            p = m.end()
        elif c == b'.':
            m = re.compile(rb'\.[0-9]*').match(d, p)
            conv(float, m.group(), 'num', p)
            p = m.end()
        elif re.match(rb'[a-zA-Z]', c):
            q = p
            while d[q:q + 1] not in DELIM:
                q += 1
            w = d[p:q]
            out.append((p, 'bool', w == b'true') if w in (b'true', b'false') else (p, 'kw', w))
            p = q
        elif c == b'(':
            q, cur, depth = p + 1, b'', 1
            while q < n and depth:
                x = d[q:q + 1]
                if x == b'\\':
                    m = re.compile(rb'\\(?:([0-7]{1,3})|(\r\n|[^\0-\xff]|[\0-\xff])?)', re.S).match(d, q)
                    if m.group(1):
                        if m.end() == n:
                            q = n
                            break
                        cur += bytes([int(m.group(1), 8) % 256])
                    elif m.group(2):
                        cur += {b'b': b'\b', b't': b'\t', b'n': b'\n', b'f': b'\f', b'r': b'\r', b'(': b'(', b')': b')',
                                b'\\': b'\\'}.get(m.group(2), b'')
                    q = m.end()
                    continue
                depth += (x == b'(') - (x == b')')
                if depth:
                    cur += x
                q += 1
            if depth == 0:
                out.append((p, 'str', cur))
            p = q
        elif c == b'<' and d[p + 1:p + 2] == b'<':
            out.append((p, 'kw', b'<<'))
            p += 2
        elif c == b'<':
            q = p + 1
            while q < n and (d[q:q + 1] in HEXD or d[q:q + 1] in WS):
                q += 1
            if q < n:
                h = bytes(x for x in d[p + 1:q] if x not in WS)
                out.append((p, 'str', bytes(int(h[k:k + 2], 16) for k in range(0, len(h), 2))))
            p = q
        elif c == b'>':
            if d[p + 1:p + 2] == b'>':
                out.append((p, 'kw', b'>>'))
                p += 2
            else:
                p += 1
        else:
            out.append((p, 'kw', c))
            p += 1
    return out


PIECES = [b'/Name', b'/A#42c', b'/a#2', b'/#', b'/\xc3\xa9', b'/\xe9', b'/', b'12', b'-7', b'+3', b'1.5', b'.25', b'-.5', b'-', b'4.',
          b'true', b'false', b'null', b'BT', b"T*", b"'", b'"', b'(abc)', b'(a(b)c)', b'(\\(\\))', b'(\\101\\7\\12x)', b'(\\777)',
          b'(a\\\nb)', b'(a\\\r\nb)', b'(a\\\rb)', b'(\\q\\\\)', b'(\r\n)', b'()', b'<>', b'<48 65\n6c>', b'<4>', b'<486>', b'<<', b'>>',
          b'[', b']', b'{', b'}', b'% comment\n', b'%\r', b'% (x)', b' ', b'\n', b'\r\n', b'\0', b'\t\f', b'(', b')', b'<', b'>', b'\\', b'#',
          b'obj', b'R', b'stream', b'\xff', b'123456789012345678901234', b'0.000001', b'--1', b'1-2', b'*', b'$a']


def shown(tokens):
    out = []
    for pos, x in tokens:
        n = type(x).__name__
        out.append((pos, 'name' if n == 'PSLiteral' else 'kw' if n == 'PSKeyword' else 'bool' if isinstance(x, bool) else
                    'num' if isinstance(x, (int, float)) else 'str' if isinstance(x, bytes) else n,
                    x.name if n in ('PSLiteral', 'PSKeyword') else x))
    return out


def same(a, b):
    return [(p, k, type(v), v) for p, k, v in a] == [(p, k, type(v), v) for p, k, v in b]


class Tokens(Contract):
    """all tokens of the data for several read chunks, from several starting points"""
    name = 'tokens of a file'
    target = [M + ':PSBaseParser.nexttoken']
    search_n = 3000

    def gen(self, rng):
        r = rng.random()
        if r < .25:
            data = bytes(rng.choice(b'()\\<>/#%0123456789.-+aAeEfF \r\n\0trueb\xc3\xa9') for _ in range(rng.randrange(1, 24)))
        else:
            data = b''.join(rng.choice(PIECES) + rng.choice([b'', b'', b' ', b'\n']) for _ in range(rng.randrange(1, 9)))
            if r > .9:
                data = b' ' * rng.randrange(4080, 4100) + data
        return dict(data=data, size=rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 4095, 4096]), start=rng.choice([0, 0, rng.randrange(len(data) + 1)]))

    def corpus(self):
        for x in PIECES:
            for size in (1, 2, 4096):
                yield dict(data=x, size=size, start=0)
                yield dict(data=b'(a) ' + x + b'/b', size=size, start=4)

    def requires(self, data, size, start):
        return size >= 1 and 0 <= start <= len(data)

    def run(self, data, size, start):
        P = self.mod(M)

        def all_():
            p = P.PSBaseParser(mkfile(data))
            p.BUFSIZ = size
            out = []
            if start:                   # use it first, then go to the starting point
                try:
                    p.nexttoken()
                except P.PSEOF:
                    pass
                p.seek(start)
            while True:
                try:
                    out.append(p.nexttoken())
                except P.PSEOF:
                    break
            try:
                out.append((-1, p.nexttoken()))
            except P.PSEOF:
                pass
            return shown(out)
        return self.outcome(all_)

    def ensures(self, out, data, size, start):
        return [('the tokens of the bytes', out[0] == 'ok' and same(out[1], [(p + start, k, v) for p, k, v in ref_tokens(data[start:])]))]

    def explain(self, out, data, size, start):
        return 'expected %r' % ([(p + start, k, v) for p, k, v in ref_tokens(data[start:])],)


class ContentTokens(Contract):
    """the content streams of a page"""
    name = 'tokens of content streams'
    target = ['pdfmajor.parser.PDFContentParser:PDFContentParser.fillbuf', 'pdfmajor.parser.PDFContentParser:PDFContentParser.fillfp']
    search_n = 1500

    def gen(self, rng):
        return dict(streams=[b''.join(rng.choice(PIECES) + rng.choice([b'', b' ', b'\n']) for _ in range(rng.randrange(0, 6)))
                             for _ in range(rng.randrange(1, 5))], size=rng.choice([1, 2, 3, 7, 4096]))

    def corpus(self):
        for size in (1, 2, 4096):
            yield dict(streams=[b'1 2', b'3 m', b'', b'4 5 l'], size=size)
            yield dict(streams=[b'q', b'Q'], size=size)
            yield dict(streams=[b'(ab', b'c)'], size=size)
            yield dict(streams=[b'(abc) Tj'], size=size)
            yield dict(streams=[b'', b'', b'/N'], size=size)
            yield dict(streams=[], size=size)

    def requires(self, streams, size):
        return size >= 1

    def run(self, streams, size):
        C = self.mod('pdfmajor.parser.PDFContentParser')

        def all_():
            out = []
            try:
                p = C.PDFContentParser([C.PDFStream({}, s) for s in streams])
                p.BUFSIZ = size
                while True:
                    out.append(p.nexttoken())
            except C.PSEOF:
                pass
            return [(0, k, v) for _, k, v in shown(out)]
        return self.outcome(all_)

    def ensures(self, out, streams, size):
        return [('the tokens of the streams one after another', out[0] == 'ok' and same(out[1], [(0, k, v) for _, k, v in ref_tokens(b'\n'.join(streams))]))]

    def explain(self, out, streams, size):
        return 'expected %r' % (ref_tokens(b'\n'.join(streams)),)


class Lines(Contract):
    """lines forwards from a position, and backwards from the end"""
    name = 'lines of a file'
    target = [M + ':PSBaseParser.nextline', M + ':PSBaseParser.revreadlines']
    search_n = 1500

    def gen(self, rng):
        data = b''.join(rng.choice([b'\r', b'\n', b'\r\n', b'a', b'bc', b'', b'startxref']) for _ in range(rng.randrange(0, 12)))
        return dict(data=data, size=rng.choice([1, 2, 3, 4, 7, 4096]), start=rng.choice([0, rng.randrange(len(data) + 1)]))

    def requires(self, data, size, start):
        return size >= 1 and 0 <= start <= len(data)

    def run(self, data, size, start):
        P = self.mod(M)

        def all_():
            p = P.PSBaseParser(mkfile(data))
            p.BUFSIZ = size
            p.seek(start)
            fwd = []
            try:
                while True:
                    fwd.append(p.nextline())
            except P.PSEOF:
                pass
            return fwd, list(p.revreadlines())
        return self.outcome(all_)

    def ensures(self, out, data, size, start):
        import re
        if out[0] != 'ok':
            return [('no exception', False)]
        want = [(start + m.start(), m.group()) for m in re.finditer(rb'[^\r\n]*(\r\n|\r|\n)', data[start:])]
        if want and want[-1][1].endswith(b'\r') and out[1][0] == want[:-1]:
            want = want[:-1]            # a carriage return at the very end (a line feed might have followed)
        text, back = data, []
        while text:
            n = max(text.rfind(b'\r'), text.rfind(b'\n'))
            if n < 0:
                break
            back.append(text[n:])
            text = text[:n]
        return [('complete lines', out[1][0] == want), ('lines from the end', out[1][1] == back)]


probes = [Tokens(), ContentTokens(), Lines()]
contracts = [NextToken()] + list(munch.values()) + [State(s) for s in STATES]
