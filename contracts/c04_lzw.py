from vc.contract import *

M = 'pdfmajor.utils.lzw'
TTable = TList(TOpt(TBytes))


@spec_fn((TBytes, TInt, TInt, TInt), TInt)
def bits(d, q, r, n):
    """the n (9..12) bits that start at bit r (0 = most significant) of byte q"""
    def go(r, n):
        if n <= 8 - r:
            return AT(d, q) // 2 ** (8 - r - n) % 2 ** n
        if n <= 16 - r:
            return (AT(d, q) % 2 ** (8 - r)) * 2 ** (n + r - 8) + AT(d, q + 1) // 2 ** (16 - r - n)
        return (AT(d, q) % 2 ** (8 - r)) * 2 ** (n + r - 8) + AT(d, q + 1) * 2 ** (n + r - 16) + AT(d, q + 2) // 2 ** (24 - r - n)
    for rr in range(8):
        for nn in (9, 10, 11, 12):
            if AND(r == rr, n == nn):
                return go(rr, nn)
    return 0



@spec_fn((), TTable)
def init_table():
    """the 256 one-byte strings, and the two special codes"""
    return LST(*([bytes([k]) for k in range(256)] + [None, None]))


def INIT():
    return init_table.app() if symbolic() else init_table()


def EMPTY():
    return TYPED(TTable, LST())


def code_at(d, p, nb):
    return bits.app(d, p // 8, p % 8, nb) if symbolic() else bits(d, p // 8, p % 8, nb)


def has(tab, code):
    """code denotes a string of the table"""
    return AND(code >= 0, code < LEN(tab), lambda: isnot(AT(tab, code)))


def isnot(x):
    return NOT(EQ(x, None))


def ent(tab, code):
    return optbytes(AT(tab, code)) if symbolic() else tab[code]


def optbytes(x):
    x = FORCE(x)
    return x if x is not None else b''


def grow(n, nb):
    """code width once the table has n entries"""
    return ITE(n == 511, 10, ITE(n == 1023, 11, ITE(n == 2047, 12, nb)))


def wfstep(tab, prev, code):
    if LEN(prev) == 0:
        return has(tab, code)
    return AND(code >= 0, OR(code >= LEN(tab), lambda: has(tab, code)))


def step(tab, prev, nb, code):
    """(output, table, previous string, width) after an ordinary code; code <= len(tab)"""
    if LEN(prev) == 0:
        x = ent(tab, code)
        return x, tab, x, nb
    if code < LEN(tab):
        x = ent(tab, code)
    else:
        x = prev + SL(prev, 0, 1)
    return x, tab + LST(prev + SL(x, 0, 1)), x, grow(LEN(tab) + 1, nb)


@spec_fn((TBytes, TInt, TTable, TBytes, TInt), TBytes)
def lzw(d, p, tab, prev, nb):
    """output of the codes from bit p on; tab: table, prev: previous string, nb: code width"""
    if p + nb > 8 * LEN(d):
        return b''
    code = code_at(d, p, nb)
    if code == 257:
        return b''
    if code == 256:
        return lzw(d, p + nb, INIT(), b'', 9)
    if AND(LEN(prev) > 0, code > LEN(tab)):
        return b''
    x, t2, p2, n2 = step(tab, prev, nb, code)
    return x + lzw(d, p + nb, t2, p2, n2)


@spec_fn((TBytes, TInt, TTable, TBytes, TInt), TBool)
def wf(d, p, tab, prev, nb):
    """codes refer to strings of the table; the first code after a clear is in the table"""
    if p + nb > 8 * LEN(d):
        return True
    code = code_at(d, p, nb)
    if code == 257:
        return True
    if code == 256:
        return wf(d, p + nb, INIT(), b'', 9)
    if NOT(wfstep(tab, prev, code)):
        return False
    if AND(LEN(prev) > 0, code > LEN(tab)):
        return True
    x, t2, p2, n2 = step(tab, prev, nb, code)
    return wf(d, p + nb, t2, p2, n2)


def rep(dec):
    """bit reader: bpos bits of buff = last byte read are used up"""
    pos = fpos(dec.fp)
    d = dec.fp.data
    return AND(dec.bpos >= 0, dec.bpos <= 8, pos >= 0, pos <= LEN(d), OR(AND(pos == 0, dec.bpos == 8), AND(pos > 0, EQ(dec.buff, AT(d, pos - 1)))))


def bitpos(dec):
    return fpos(dec.fp) * 8 - 8 + dec.bpos


class ReadBits(Contract):
    name = 'LZWDecoder.readbits'
    target = [M + ':LZWDecoder.readbits']
    internal = True

    def inputs(self):
        return dict(data=TBytes, pos=TInt, buff=TInt, bpos=TInt, nbits=TInt)

    def requires(self, data, pos, buff, bpos, nbits):
        return AND(nbits >= 9, nbits <= 12, bpos >= 0, bpos <= 8, pos >= 0, pos <= LEN(data),
                   OR(AND(pos == 0, bpos == 8), AND(pos > 0, EQ(buff, AT(data, pos - 1)))))

    def run(self, data, pos, buff, bpos, nbits):
        dec = self.mod(M).LZWDecoder(mkfile(data, pos))
        dec.buff, dec.bpos = buff, V.enum_int(bpos)
        self.n = V.enum_int(nbits)
        self.dec = dec
        return self.outcome(dec.readbits, self.n)

    def ensures(self, out, data, pos, buff, bpos, nbits):
        p = pos * 8 - 8 + bpos
        b = V.enum_int(bpos)
        eof = p + nbits > 8 * LEN(data)
        r = [('EOF exactly when the bits are not there', EQ(eof, out[0] == 'exc')),
             ('EOF is reported as EOFError', out[0] == 'ok' or out[1] == 'EOFError')]
        if out[0] == 'ok':
            q, o = (pos, 0) if b == 8 else (pos - 1, b)
            r += [('value = the next bits', EQ(out[1], bits(data, q, o, self.n))),
                  ('bit position advances', bitpos(self.dec) == p + nbits),
                  ('reader invariant', rep(self.dec)),
                  ('0 <= value < 2**n', AND(out[1] >= 0, out[1] < 2 ** self.n))]
        return r


def readbits_contract(dec, n):
    """callee contract of readbits"""
    c = ctx()
    c.prove(AND(rep(dec), n >= 9, n <= 12), 'precondition of readbits')
    d = dec.fp.data
    p = bitpos(dec)
    if p + n > 8 * LEN(d):
        dec.bpos = TInt.fresh('bpos')
        dec.buff = TInt.fresh('buff')
        dec.fp.pos = TInt.fresh('pos')
        raise EOFError
    dec.bpos = TInt.fresh('bpos')
    dec.buff = TInt.fresh('buff')
    dec.fp.pos = TInt.fresh('pos')
    v = code_at(d, p, n)
    c.assume(AND(rep(dec), EQ(bitpos(dec), p + n), v >= 0, v < 4096))
    return v


class Feed(Contract):
    name = 'LZWDecoder.feed'
    target = [M + ':LZWDecoder.feed']
    internal = True

    def inputs(self):
        return dict(tab=TTable, prev=TBytes, nb=TInt, code=TInt)

    def requires(self, tab, prev, nb, code):
        return OR(code == 256, AND(NOT(code == 257), wfstep(tab, prev, code)))

    def run(self, tab, prev, nb, code):
        dec = self.mod(M).LZWDecoder(mkfile(b''))
        dec.table, dec.prevbuf, dec.nbits = tab + LST(), prev, nb
        self.dec = dec
        return self.outcome(dec.feed, code)

    def ensures(self, out, tab, prev, nb, code):
        d = self.dec
        now = (out[1], d.table, d.prevbuf, d.nbits) if out[0] == 'ok' else None
        if code == 256:
            return [('clear-table', EQ(now, (b'', init_table(), b'', 9)))]
        if AND(LEN(prev) > 0, code > LEN(tab)):
            return [('code beyond the table is corrupt data', EQ(out, ('exc', 'CorruptDataError')))]
        return [('string, table, previous string and width after a code', EQ(now, step(tab, prev, nb, code)))]


def feed_contract(dec, code):
    c = ctx()
    if code == 256:
        dec.table, dec.prevbuf, dec.nbits = INIT(), b'', 9
        return b''
    tab = dec.table if dec.table is not None else EMPTY()
    c.prove(AND(NOT(code == 257), NOT(EQ(dec.table, None)), wfstep(tab, dec.prevbuf, code)), 'precondition of feed')
    if AND(LEN(dec.prevbuf) > 0, code > LEN(tab)):
        from pdfmajor.utils.lzw import CorruptDataError
        raise CorruptDataError
    x, dec.table, dec.prevbuf, dec.nbits = step(tab, dec.prevbuf, dec.nbits, code)
    return x


def inv(v):
    s = v.self
    d = s.fp.data
    tab = s.table if s.table is not None else EMPTY()
    prev = s.prevbuf if s.prevbuf is not None else b''
    return [('bit reader', rep(s)),
            ('width', AND(s.nbits >= 9, s.nbits <= 12)),
            ('no previous string before the first clear code', OR(s.table is not None, LEN(prev) == 0)),
            ('rest well formed', wf(d, bitpos(s), tab, prev, s.nbits)),
            ('output so far ++ rest = whole', EQ(v.joined + lzw(d, bitpos(s), tab, prev, s.nbits), lzw(d, 0, EMPTY(), b'', 9)))]


class LZWDecode(Contract):
    name = 'lzwdecode'
    target = [M + ':lzwdecode', M + ':LZWDecoder.run', M + ':LZWDecoder.__init__']
    loops = [LoopSpec(where='run#0', inv=inv)]
    callees = {M + ':LZWDecoder.readbits': readbits_contract, M + ':LZWDecoder.feed': feed_contract}

    def inputs(self):
        return dict(data=TBytes)

    def requires(self, data):
        return wf(data, 0, EMPTY(), b'', 9)

    def run(self, data):
        return self.outcome(self.mod(M).lzwdecode, data)

    def ensures(self, out, data):
        return [('result = LZW decoding', EQ(out, ('ok', lzw(data, 0, EMPTY(), b'', 9))))]


def lzw_encode(codes):
    """codes -> bytes with the widths the decoder uses (early change); 'clear' resets"""
    acc, nb, n, width_, first = 0, 0, 258, 9, True
    for c in codes:
        acc, nb = acc << width_ | c, nb + width_
        if c == 256:
            n, width_, first = 258, 9, True
        elif c == 257:
            break
        elif first:
            first = False
        else:
            n += 1
            width_ = {511: 10, 1023: 11, 2047: 12}.get(n, width_)
    pad = -nb % 8
    return (acc << pad).to_bytes((nb + pad) // 8, 'big')


def gen_codes(rng, maxlen):
    codes, n, first = [256], 258, True
    alpha = rng.choice([2, 5, 256])
    for _ in range(rng.randrange(maxlen)):
        if rng.random() < .01 or n >= 4094:
            codes.append(256)
            n, first = 258, True
            continue
        r = rng.random()
        if first or r < .4 or n == 258:
            codes.append(rng.randrange(alpha))
        elif r < .55:
            codes.append(n)
        else:
            codes.append(rng.randrange(258, n))
        if first:
            first = False
        else:
            n += 1
    if rng.random() < .8:
        codes.append(257)
    return codes


def _gen(self, rng):
    d = lzw_encode(gen_codes(rng, rng.choice([3, 10, 40])))
    return dict(data=d + bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 3]))))


def _corpus(self):
    import random
    r = random.Random(4)
    out = [dict(data=lzw_encode([256, 65, 66, 258, 257]) + b'\r\nxx')]
    for n in (600, 1500, 3000, 4500):
        out.append(dict(data=lzw_encode(gen_codes(r, n) + [65, 66, 257]) + b'\n\n'))
    # all widths, no clear code in between
    codes = [256] + [k % 256 for k in range(3700)] + [258, 259, 300, 1000, 3000, 257]
    out.append(dict(data=lzw_encode(codes) + b'zz'))
    return out


LZWDecode.gen = _gen
LZWDecode.corpus = _corpus

contracts = [ReadBits(), Feed(), LZWDecode()]
