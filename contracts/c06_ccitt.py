"""CCITT Group 4 (ITU-T T.6) decoding: every function between the bit stream and the packed rows is under contract."""
from vc.contract import *
from . import t6_tables as T6

M = 'pdfmajor.parser.PDFStream.ccitt'
P = M + ':CCITTG4Parser.'
Bit = TInt
Line = TList(Bit)


@spec_fn((Line, TInt, TInt), TInt)
def nextchg(ref, x, color):
    """first changing element at or right of x, from `color` to the opposite colour; the line's width if none.
    Left of the line is an imaginary white (1) element."""
    if x >= LEN(ref):
        return LEN(ref)
    prev = AT(ref, x - 1) if x > 0 else 1
    if AND(EQ(prev, color), NOT(EQ(AT(ref, x), color))):
        return x
    return nextchg(ref, x + 1, color)


def clamp(x, lo, hi):
    return ITE(x < lo, lo, ITE(x > hi, hi, x))


def MAX(a, b):
    return ITE(a >= b, a, b)


def MIN(a, b):
    return ITE(a <= b, a, b)


def filled(new, old, a, b, c):
    """new = old with [a, b) set to c"""
    return AND(LEN(new) == LEN(old),
               FORALL(LEN(old), lambda k: EQ(AT(new, k), ITE(AND(k >= a, k < b), c, AT(old, k)))))


def parser(self, width, **kw):
    p = object.__new__(self.mod(M).CCITTFaxDecoder)
    p.width = width
    for k, v in kw.items():
        setattr(p, k, v)
    return p


class Geometry(Contract):
    """common shape of the three drawing operations"""
    internal = True

    def base(self, ref, cur, curpos, color):
        n = LEN(ref)
        return AND(n >= 1, LEN(cur) == n, curpos >= -1, curpos < n, color >= 0, color <= 1,
                   IMP(curpos < 0, color == 1),
                   FORALL(n, lambda k: IMP(k >= curpos, lambda: AT(cur, k) == 1)))

    def make(self, ref, cur, curpos, color):
        self.ref0, self.cur0 = ref.copy(), cur.copy()
        self.p = parser(self, LEN(ref), _refline=ref, _curline=cur, _curpos=curpos, _color=color, _y=3, bytealign=False,
                        reversed=False, _buf=b'', _pos=0, _state=None)
        return self.p

    def frame(self, out, curpos, color):
        p = self.p
        return [('no exception', EQ(out, ('ok', None))),
                ('current position', EQ(p._curpos, curpos)), ('colour', EQ(p._color, color)),
                ('frame: reference line, row number and output', EQ((p._refline, p._y, p._buf), (self.ref0, 3, b'')))]


def scan(v):
    s = v.self
    return [('scan', AND(v.x1 >= s._curpos + 1, v.x1 <= LEN(s._refline),
                         EQ(nextchg(s._refline, v.x1, s._color), nextchg(s._refline, s._curpos + 1, s._color))))]


class DoVertical(Geometry):
    name = '_do_vertical'
    target = [P + '_do_vertical']
    loops = [LoopSpec(where='_do_vertical#0', inv=scan)] + \
            [LoopSpec(where='_do_vertical#%d' % k,
                      inv=lambda v: [('filled so far', filled(v.self._curline, v._entry0, MAX(v.self._curpos, 0), v._cur,
                                                             v.self._color))]) for k in (1, 2)]

    def inputs(self):
        return dict(ref=Line, cur=Line, curpos=TInt, color=TInt, dx=TInt)

    def a1(self, ref, curpos, color, dx):
        return clamp(nextchg(ref, curpos + 1, color) + dx, 0, LEN(ref))

    def requires(self, ref, cur, curpos, color, dx):
        return AND(self.base(ref, cur, curpos, color), dx >= -3, dx <= 3,
                   self.a1(ref, curpos, color, dx) >= MAX(curpos, 0))

    def run(self, ref, cur, curpos, color, dx):
        p = self.make(ref, cur, curpos, color)
        ctx().ghost['_entry0'] = self.cur0
        return self.outcome(p._do_vertical, dx)

    def ensures(self, out, ref, cur, curpos, color, dx):
        a1 = self.a1(self.ref0, curpos, color, dx)
        return self.frame(out, a1, 1 - color) + [
            ('vertical mode: a0..b1+dx drawn in the current colour', filled(self.p._curline, self.cur0, MAX(curpos, 0), a1, color))]


def scan2(v):
    s = v.self
    b1 = nextchg(s._refline, s._curpos + 1, s._color)
    return [('scan', AND(v.x1 >= b1, b1 >= s._curpos + 1, v.x1 <= LEN(s._refline), IMP(b1 == 0, s._color == 1),
                         EQ(nextchg(s._refline, v.x1, 1 - s._color), nextchg(s._refline, b1, 1 - s._color))))]


class DoPass(Geometry):
    name = '_do_pass'
    target = [P + '_do_pass']
    loops = [LoopSpec(where='_do_pass#0', inv=scan), LoopSpec(where='_do_pass#1', inv=scan2),
             LoopSpec(where='_do_pass#2', inv=lambda v: [
                 ('filled so far', filled(v.self._curline, v._entry0, MAX(v.self._curpos, 0), v._cur, v.self._color))])]

    def inputs(self):
        return dict(ref=Line, cur=Line, curpos=TInt, color=TInt)

    def requires(self, ref, cur, curpos, color):
        return AND(self.base(ref, cur, curpos, color), FORALL(LEN(ref), lambda k: AND(AT(ref, k) >= 0, AT(ref, k) <= 1)))

    def run(self, ref, cur, curpos, color):
        p = self.make(ref, cur, curpos, color)
        ctx().ghost['_entry0'] = self.cur0
        return self.outcome(p._do_pass)

    def ensures(self, out, ref, cur, curpos, color):
        b1 = nextchg(self.ref0, curpos + 1, color)
        b2 = nextchg(self.ref0, b1, 1 - color)
        return self.frame(out, b2, color) + [
            ('pass mode: a0..b2 drawn in the current colour', filled(self.p._curline, self.cur0, MAX(curpos, 0), b2, color))]


def horiz_inv(first):
    def inv(v):
        s = v.self
        n = LEN(v._entry0)
        a0 = v._a0
        if first:
            return [('run so far', AND(v.x == a0 + v._k, v.x <= n, filled(s._curline, v._entry0, a0, v.x, s._color)))]
        m = MIN(n, a0 + v._n1)
        return [('run so far', AND(v.x == m + v._k, v.x <= n, LEN(s._curline) == n,
                                   FORALL(n, lambda k: EQ(AT(s._curline, k), two(k, a0, m, v.x, s._color, AT(v._entry0, k))))))]
    return inv


def two(k, a0, m, e, c, old):
    return ITE(AND(k >= a0, k < m), c, ITE(AND(k >= m, k < e), 1 - c, old))


class DoHorizontal(Geometry):
    name = '_do_horizontal'
    target = [P + '_do_horizontal']
    loops = [LoopSpec(where='_do_horizontal#0', inv=horiz_inv(True)), LoopSpec(where='_do_horizontal#1', inv=horiz_inv(False))]

    def inputs(self):
        return dict(ref=Line, cur=Line, curpos=TInt, color=TInt, n1=TInt, n2=TInt)

    def requires(self, ref, cur, curpos, color, n1, n2):
        return AND(self.base(ref, cur, curpos, color), n1 >= 0, n2 >= 0)

    def run(self, ref, cur, curpos, color, n1, n2):
        p = self.make(ref, cur, curpos, color)
        ctx().ghost.update(_entry0=self.cur0, _a0=MAX(curpos, 0), _n1=n1)
        return self.outcome(p._do_horizontal, n1, n2)

    def ensures(self, out, ref, cur, curpos, color, n1, n2):
        a0, n = MAX(curpos, 0), LEN(self.cur0)
        m = MIN(n, a0 + n1)
        e = MIN(n, m + n2)
        new = self.p._curline
        return self.frame(out, e, color) + [
            ('horizontal mode: a run of n1, then a run of n2 of the other colour',
             AND(LEN(new) == n, FORALL(n, lambda k: EQ(AT(new, k), two(k, a0, m, e, color, AT(self.cur0, k))))))]


class FlushLine(Contract):
    name = '_flush_line'
    target = [P + '_flush_line', P + '_reset_line']
    internal = True

    def inputs(self):
        return dict(ref=Line, cur=Line, curpos=TInt, color=TInt, y=TInt, bytealign=TBool)

    def requires(self, ref, cur, curpos, color, y, bytealign):
        return AND(LEN(ref) >= 1, LEN(cur) == LEN(ref))

    def run(self, ref, cur, curpos, color, y, bytealign):
        self.lines = []
        self.callees = {M + ':CCITTFaxDecoder.output_line': lambda p, y, bits: self.lines.append((y, bits.copy()))}
        hooks.overrides = dict(self.callees)
        self.cur0, self.ref0 = cur.copy(), ref.copy()
        self.w = LEN(ref)
        self.p = parser(self, LEN(ref), _refline=ref, _curline=cur, _curpos=curpos, _color=color, _y=y, bytealign=bytealign)
        return self.outcome(self.p._flush_line)

    def ensures(self, out, ref, cur, curpos, color, y, bytealign):
        p, w = self.p, self.w
        if curpos < w:
            return [('unfinished row: nothing happens', EQ((out, len(self.lines), p._curline, p._refline, p._curpos, p._color, p._y),
                                                           (('ok', None), 0, self.cur0, self.ref0, curpos, color, y)))]
        return [('finished row is output once', len(self.lines) == 1 and EQ(self.lines[0], (y, self.cur0))),
                ('row becomes the reference line; new row is white', AND(EQ(p._refline, self.cur0), LEN(p._curline) == w,
                                                                         FORALL(w, lambda k: AT(p._curline, k) == 1))),
                ('start of row', EQ((p._curpos, p._color, p._y), (-1, 1, y + 1))),
                ('the new row is not the reference line', p._curline is not p._refline),
                ('byte alignment skips the rest of the byte', EQ(bytealign, out[0] == 'exc' and out[1] == 'ByteSkip')),
                ('no other outcome', EQ(out, ('ok', None)) if not bytealign else EQ(out, ('exc', 'ByteSkip')))]


def packed(bits, rev, j, upto):
    """byte j of the packed row when only bits [0, upto) are drawn; most significant bit first"""
    s = 0
    for m in range(8):
        i = 8 * j + m
        b = AT(bits, i)
        v = ITE(rev, 1 - b, b)
        s = s + ITE(AND(i < upto, NOT(v == 0)), 2 ** (7 - m), 0)
    return s


class OutputLine(Contract):
    name = 'output_line'
    target = [M + ':CCITTFaxDecoder.output_line']
    internal = True
    loops = [LoopSpec(where='output_line#0', inv=lambda v: [
        ('packed so far', AND(LEN(v.bytes) == (LEN(v.bits) + 7) // 8,
                              FORALL(LEN(v.bytes), lambda j: EQ(AT(v.bytes, j), packed(v.bits, False, j, v._k)))))])]

    def inputs(self):
        return dict(bits=Line, rev=TBool, buf=TBytes, y=TInt)

    def requires(self, bits, rev, buf, y):
        return FORALL(LEN(bits), lambda k: AND(AT(bits, k) >= 0, AT(bits, k) <= 1))

    def run(self, bits, rev, buf, y):
        self.p = parser(self, LEN(bits), reversed=rev, _buf=buf)
        self.b0 = bits.copy()
        return self.outcome(self.p.output_line, y, bits)

    def ensures(self, out, bits, rev, buf, y):
        nb = (LEN(self.b0) + 7) // 8
        new = self.p._buf
        return [('no exception', EQ(out, ('ok', None))),
                ('earlier rows stay', AND(LEN(new) == LEN(buf) + nb, EQ(SL(new, 0, LEN(buf)), buf))),
                ('one packed row is appended',
                 FORALL(nb, lambda j: EQ(AT(SL(new, LEN(buf), None), j), packed(self.b0, rev, j, LEN(self.b0)))))]


MODES = [0, 1, -1, 2, -2, 3, -3, 'p', 'h', 'e', 'x1', 'x2', 'x3', 'x4', 'x5', 'x6', 'x7']


class ParseMode(Contract):
    name = '_parse_mode'
    target = [P + '_parse_mode']
    internal = True

    def inputs(self):
        return dict(mode=TConst(*MODES), color=TInt, skip=TBool)

    def requires(self, mode, color, skip):
        return AND(color >= 0, color <= 1)

    def run(self, mode, color, skip):
        self.calls = []
        ByteSkip = self.mod('pdfmajor.execptions').ByteSkip

        def flush(p):
            self.calls.append('flush')
            if V.truth(skip):
                raise ByteSkip
        self.callees = {P + '_do_pass': lambda p: self.calls.append('pass'),
                        P + '_do_vertical': lambda p, n: self.calls.append(('vertical', n)), P + '_flush_line': flush}
        hooks.overrides = dict(self.callees)
        self.p = parser(self, 8, _color=color, _n1=7, _n2=9)
        self.p._accept = self.p._parse_mode
        return self.outcome(self.p._parse_mode, mode)

    def ensures(self, out, mode, color, skip):
        p, C = self.p, self.mod(M).CCITTG4Parser
        m = concrete(FORCE(mode)) if symbolic() else mode
        acc = p._accept.__func__ if hasattr(p._accept, '__func__') else None
        if m == 'e':
            return [('EOFB ends the image', EQ(out, ('exc', 'EOFB')))]
        if m == 'h':
            return [('horizontal mode: first run code of the current colour, count 0',
                     AND(not self.calls, acc is C._parse_horiz1, EQ(p._n1, 0), EQ(p._color, color), out[0] == 'ok',
                         (out[1] is C.WHITE) if V.truth(color == 1) else (out[1] is C.BLACK)))]
        if isinstance(m, str) and m.startswith('x'):
            return [('extension codes are refused', EQ(out, ('exc', 'InvalidData')))]
        want = ['pass', 'flush'] if m == 'p' else [('vertical', m), 'flush']
        return [('operation, then end-of-row test', self.calls == want), ('stay in mode codes', AND(acc is C._parse_mode, EQ(p._color, color))),
                ('next state', EQ(skip, out[0] == 'exc') if out[0] == 'exc' else out[1] is C.MODE)]


class ParseHoriz(Contract):
    internal = True

    def inputs(self):
        return dict(n=TOpt(TInt), color=TInt, a=TInt, b=TInt)

    def requires(self, n, color, a, b):
        return AND(color >= 0, color <= 1, n is None or n >= 0, a >= 0, b >= 0)

    def run(self, n, color, a, b):
        self.calls = []
        p = self.p = parser(self, 8, _color=color, _n1=a, _n2=b)
        self.callees = {P + '_do_horizontal': lambda p, x, y: self.calls.append(('horizontal', x, y, p._color)),
                        P + '_flush_line': lambda p: self.calls.append('flush')}
        hooks.overrides = dict(self.callees)
        p._accept = getattr(p, self.fn)
        return self.outcome(getattr(p, self.fn), n)

    def table(self, color):
        C = self.mod(M).CCITTG4Parser
        return C.WHITE if V.truth(color == 1) else C.BLACK

    def ensures(self, out, n, color, a, b):
        p, C = self.p, self.mod(M).CCITTG4Parser
        if n is None:
            return [('unassigned code is refused', EQ(out, ('exc', 'InvalidData')))]
        acc = getattr(p._accept, '__func__', None)
        return [('no exception', out[0] == 'ok')] + self.post(out, n, color, a, b, p, C, acc)


class ParseHoriz1(ParseHoriz):
    name = '_parse_horiz1'
    fn = '_parse_horiz1'
    target = [P + '_parse_horiz1']

    def post(self, out, n, color, a, b, p, C, acc):
        r = [('first run length accumulates', EQ(p._n1, a + n)), ('nothing drawn yet', not self.calls)]
        if n < 64:
            return r + [('terminating code: second run, opposite colour, count 0',
                         AND(EQ(p._color, 1 - color), EQ(p._n2, 0), acc is C._parse_horiz2, out[1] is self.table(1 - color)))]
        return r + [('make-up code: same run continues', AND(EQ(p._color, color), acc is C._parse_horiz1, out[1] is self.table(color)))]


class ParseHoriz2(ParseHoriz):
    name = '_parse_horiz2'
    fn = '_parse_horiz2'
    target = [P + '_parse_horiz2']

    def post(self, out, n, color, a, b, p, C, acc):
        r = [('second run length accumulates', EQ(p._n2, b + n)), ('first run length kept', EQ(p._n1, a))]
        if n < 64:
            return r + [('terminating code: colour restored', EQ(p._color, 1 - color)),
                        ('both runs drawn in the restored colour, then end-of-row test',
                         len(self.calls) == 2 and self.calls[1] == 'flush' and EQ(self.calls[0], ('horizontal', a, b + n, 1 - color))),
                        ('back to mode codes', AND(acc is C._parse_mode, out[1] is C.MODE))]
        return r + [('make-up code: same run continues',
                     AND(not self.calls, EQ(p._color, color), acc is C._parse_horiz2, out[1] is self.table(color)))]


def codes_of(tree, prefix=''):
    out = {}
    for k in (0, 1):
        v = tree[k]
        if isinstance(v, list):
            out.update(codes_of(v, prefix + '01'[k]))
        elif v is not None:
            out[prefix + '01'[k]] = v
    return out


class Tables(Contract):
    name = 'code tables'
    target = [M + ':BitParser.add', M + ':CCITTG4Parser']
    internal = True

    def run(self):
        C = self.mod(M).CCITTG4Parser
        return {n: codes_of(getattr(C, n)) for n in ('MODE', 'WHITE', 'BLACK')}

    def ensures(self, out):
        r = []
        for n in ('MODE', 'WHITE', 'BLACK'):
            want = getattr(T6, n)
            got = {k: v for k, v in out[n].items() if v != 'u'}
            r.append(('%s codes are those of T.6' % n, got == {k: v for k, v in want.items() if v != 'u'}))
        return r


def nodes_of(tree):
    out = [tree]
    for k in (0, 1):
        if isinstance(tree[k], list):
            out += nodes_of(tree[k])
    return out


class ParseBit(Contract):
    """every inner node of every code tree, both bit values (complete case split)"""
    name = '_parse_bit'
    target = [M + ':BitParser._parse_bit']
    internal = True

    def inputs(self):
        return dict(x=TRange(0, 255), pos=TInt)

    def run(self, x, pos):
        C = self.mod(M).CCITTG4Parser
        one = V.truth(NOT(x == 0))
        res = []
        nxt = [None, None]
        for tree in (C.MODE, C.WHITE, C.BLACK):
            for node in nodes_of(tree):
                p = parser(self, 8, _state=node, _pos=pos)
                got = []
                p._accept = lambda v: (got.append(v), nxt)[1]
                o = self.outcome(p._parse_bit, x)
                child = node[1] if one else node[0]
                if isinstance(child, list):
                    ok = o[0] == 'ok' and p._state is child and not got
                else:
                    ok = o[0] == 'ok' and p._state is nxt and len(got) == 1 and got[0] is child
                res.append(AND(ok, EQ(p._pos, pos + 1)))
        return res

    def ensures(self, out, x, pos):
        return [('inner node: descend; leaf: hand its value to the acceptor', AND(*out)), ('nodes visited', len(out) > 200)]


Ev = z3.Function('ccitt.event', z3.IntSort(), z3.IntSort())


def event(n):
    return V.mkint(Ev(V.int_term(n)))


@spec_fn((TBytes, TInt, TInt), TList(TInt))
def trace(d, i, n):
    """bits fed from byte i on when n bits were fed before; event(n): after the n-th bit, 1 = skip to next byte, 2 = end"""
    if i >= LEN(d):
        return LST()
    b = AT(d, i)
    out = LST()
    for m in range(8):
        out = out + LST(b // 2 ** (7 - m) % 2)
        e = event(n + m)
        if e == 2:
            return out
        if e == 1:
            return out + trace(d, i + 1, n + m + 1)
    return out + trace(d, i + 1, n + 8)


class FeedBytes(Contract):
    name = 'feedbytes'
    target = [P + 'feedbytes', M + ':get_bytes']
    internal = True
    loops = [LoopSpec(where='get_bytes#0', types={'ghost.fed': TList(TInt), 'fed': TList(TInt)}, inv=lambda v: [
        ('bits fed so far ++ rest = all', EQ(v.fed + trace(v._data, v._k, LEN(v.fed)), trace(v._data, 0, 0)))])]

    def inputs(self):
        return dict(data=TBytes)

    def run(self, data):
        g = ctx().ghost
        g['fed'] = TYPED(TList(TInt), LST())
        g['_data'] = data
        EX = self.mod('pdfmajor.execptions')
        C = self.mod(M).CCITTG4Parser

        def bit(p, x):
            n = LEN(g['fed'])
            g['fed'] = g['fed'] + LST(ITE(x == 0, 0, 1))
            p._accept, p._state = 'busy', 'busy'
            e = event(n)
            if e == 1:
                raise EX.ByteSkip
            if e == 2:
                raise EX.EOFB
        self.callees = {M + ':BitParser._parse_bit': bit}
        hooks.overrides = dict(self.callees)
        self.p = parser(self, 8, _accept='start', _state='start')
        return self.outcome(self.p.feedbytes, data)

    def ensures(self, out, data):
        return [('no exception', EQ(out, ('ok', None))),
                ('bits are fed most significant first; ByteSkip drops the rest of the byte, EOFB the rest of the data',
                 EQ(ctx().ghost['fed'], trace(data, 0, 0)))]


class Restart_(Contract):
    """after ByteSkip the next byte starts with a mode code"""
    name = 'restart after byte skip'
    target = [P + 'feedbytes']
    internal = True

    def inputs(self):
        return dict(x=TRange(0, 255), y=TRange(0, 255), at=TRange(0, 7))

    def run(self, x, y, at):
        EX, C = self.mod('pdfmajor.execptions'), self.mod(M).CCITTG4Parser
        at = V.enum_int(at)
        log = []

        def bit(p, x):
            log.append((getattr(p._accept, '__func__', p._accept), p._state))
            p._accept, p._state = 'busy', 'busy'
            if len(log) == at + 1:
                raise EX.ByteSkip
        hooks.overrides = {M + ':BitParser._parse_bit': bit}
        p = parser(self, 8, _accept='start', _state='start')
        o = self.outcome(p.feedbytes, bytes_of(x, y))
        return o, log, at

    def ensures(self, out, x, y, at):
        o, log, at = out
        C = self.mod(M).CCITTG4Parser
        return [('resynchronised', o[0] == 'ok' and len(log) == at + 1 + 8 and log[at + 1][0] is C._parse_mode and log[at + 1][1] is C.MODE)]


def bytes_of(x, y):
    return B1(x) + B1(y)


class Params(Contract):
    name = 'ccittfaxdecode'
    target = [M + ':ccittfaxdecode', M + ':CCITTFaxDecoder.__init__', M + ':CCITTFaxDecoder.close', P + '__init__', P + 'reset']
    internal = True

    def inputs(self):
        return dict(data=TBytes, k=TOpt(TInt), cols=TOpt(TInt), align=TOpt(TBool), black=TOpt(TBool), result=TBytes)

    def requires(self, data, k, cols, align, black, result):
        return cols is None or cols >= 1

    def run(self, data, k, cols, align, black, result):
        d = {}
        for n, x in (('K', k), ('Columns', cols), ('EncodedByteAlign', align), ('BlackIs1', black)):
            if x is not None:
                d[n] = x
        self.seen = []

        def feed(p, data):
            self.seen.append((p, data, p.width, p._curline, p._refline, p._curpos, p._color, p._y, p._buf))
            p._buf = p._buf + result
        hooks.overrides = {P + 'feedbytes': feed}
        return self.outcome(self.mod(M).ccittfaxdecode, data, VDict_(d))

    def ensures(self, out, data, k, cols, align, black, result):
        C = self.mod(M).CCITTG4Parser
        if k is None or V.truth(NOT(k == -1)):
            return [('only K = -1 is supported', EQ(out, ('exc', 'ValueError')))]
        w = 1728 if cols is None else cols
        if not self.seen:
            return [('data is decoded', False)]
        p, dd, width, cur, ref, pos, color, y, buf = self.seen[0]
        return [('data is decoded', AND(len(self.seen) == 1, EQ(dd, data), EQ(out, ('ok', result)))),
                ('parameters', AND(EQ(width, w), TRU(p.bytealign, align), TRU(p.reversed, black))),
                ('initial state: white reference line, white row, start of row',
                 AND(LEN(cur) == w, LEN(ref) == w, FORALL(w, lambda k: AND(AT(cur, k) == 1, AT(ref, k) == 1)), cur is not ref,
                     EQ((pos, color, y, buf), (-1, 1, 0, b'')), p._accept.__func__ is C._parse_mode, p._state is C.MODE))]


def VDict_(d):
    return hooks.mkdict(*d.items()) if symbolic() else d


def TRU(got, want):
    if want is None:
        return got is None or EQ(got, False)
    return EQ(got, want)


# ------------------------------------------------------------------ whole decoder, concrete
def encode(rows, width, bytealign):
    """T.6 encoder; rows of 0 (black) / 1 (white)"""
    code = {n: {v: k for k, v in getattr(T6, n).items()} for n in ('MODE', 'WHITE', 'BLACK')}
    bits = ''
    ref = [1] * width

    def nxt(line, a0, color):
        x = a0 + 1
        while x < width:
            prev = line[x - 1] if x > 0 else 1
            if prev == color and line[x] != color:
                return x
            x += 1
        return width

    def runcode(n, color):
        t = code['WHITE' if color == 1 else 'BLACK']
        s = ''
        while n >= 2560:
            s += t[2560]
            n -= 2560
        if n >= 64:
            s += t[n // 64 * 64]
        return s + t[n % 64]

    def runend(line, x, color):
        while x < width and line[x] == color:
            x += 1
        return x
    for row in rows:
        a0, color = -1, 1
        while a0 < width:
            b1 = nxt(ref, a0, color)
            b2 = b1
            while b2 < width and not (b2 > b1 and ref[b2] == color):
                b2 += 1
            a1 = runend(row, max(a0, 0), color)
            if b2 < a1:
                bits += code['MODE']['p']
                a0 = b2
                continue
            if -3 <= a1 - b1 <= 3:
                bits += code['MODE'][a1 - b1]
                a0, color = a1, 1 - color
                if a0 >= width:
                    break
            else:
                a2 = runend(row, a1, 1 - color)
                bits += code['MODE']['h'] + runcode(a1 - max(a0, 0), color) + runcode(a2 - a1, 1 - color)
                a0 = a2
        if bytealign:
            bits += '0' * (-len(bits) % 8)
        ref = row
    bits += code['MODE']['e']
    bits += '0' * (-len(bits) % 8)
    return bytes(int(bits[k:k + 8], 2) for k in range(0, len(bits), 8))


class Whole(Contract):
    name = 'G4 image round trip'
    target = [M + ':ccittfaxdecode']
    shrinkable = False

    def gen(self, rng):
        w = rng.choice([1, 2, 3, 7, 8, 9, 16, 17, 30, 64, 65, 100, 200, 700, 2700])
        h = rng.choice([1, 2, 3, 4]) if w > 150 else rng.randrange(1, 7)
        rows = []
        for r in range(h):
            mode = rng.random()
            if rows and mode < .45:
                row = list(rows[-1])
                for _ in range(rng.choice([0, 1, 1, 2, 4])):
                    i = rng.randrange(w)
                    j = min(w, i + rng.choice([1, 1, 2, 3, 5]))
                    row[i:j] = [rng.randrange(2)] * (j - i)
            else:
                row, c = [], rng.randrange(2)
                while len(row) < w:
                    row += [c] * rng.choice([1, 1, 2, 3, 5, 20, 63, 64, 65, 130, 900, 2560])
                    c = 1 - c
                row = row[:w]
            rows.append(row)
        return dict(rows=rows, width=w, align=rng.random() < .25, black=rng.random() < .3,
                    explicit=rng.random() < .5, tail=bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 2]))))

    def run(self, rows, width, align, black, explicit, tail):
        par = {'K': -1, 'Columns': width}
        if align or explicit:
            par['EncodedByteAlign'] = align
        if black or explicit:
            par['BlackIs1'] = black
        return self.outcome(self.mod(M).ccittfaxdecode, encode(rows, width, align) + tail, par)

    def ensures(self, out, rows, width, align, black, explicit, tail):
        want = b''
        for r in rows:
            v = [1 - b for b in r] if black else r
            v = v + [0] * (-width % 8)
            want += bytes(sum(b << (7 - k) for k, b in enumerate(v[j:j + 8])) for j in range(0, len(v), 8))
        return [('decoded image = encoded image', out == ('ok', want))]


contracts = [Tables(), ParseBit(), FeedBytes(), Restart_(), DoVertical(), DoPass(), DoHorizontal(), FlushLine(), OutputLine(),
             ParseMode(), ParseHoriz1(), ParseHoriz2(), Params()]
probes = [Whole()]
