"""PDF stream filters: order, parameters, abbreviations, decryption first, predictors."""
from vc.contract import *

M = 'pdfmajor.parser.PDFStream'
U = 'pdfmajor.utils'
NAMES = [('FlateDecode', 'Fl'), ('LZWDecode', 'LZW'), ('ASCII85Decode', 'A85'), ('ASCIIHexDecode', 'AHx'),
         ('RunLengthDecode', 'RL'), ('CCITTFaxDecode', 'CCF'), ('DCTDecode', 'DCT')]
Params = TDict('decodeparms', Predictor=TInt, Colors=TInt, Columns=TInt, BitsPerComponent=TInt, K=TInt)
OptParams = TOpt(Params)


def lits():
    """the PSLiteral objects of the code under test"""
    import importlib, sys
    LIT = sys.modules['pdfmajor.parser.PSStackParser'].LIT
    return [LIT(n) for pair in NAMES for n in pair]


zok = UF('zok', (TBytes,), TBool)
zval = UF('zval', (TBytes,), TBytes)
dec = [None] + [UF('dec%d' % k, (TBytes,), TBytes) for k in range(1, 5)]
ccf = UF('ccf', (TBytes, OptParams), TBytes)
png = UF('png', (TInt, TInt, TInt, TBytes), TBytes)
decipher = UF('decipher', (TBytes,), TBytes)


def one_filter(code, pt, d):
    """code: index into the flat list of names; pt: term of the optional parameters"""
    is_ = lambda k: OR(code == 2 * k, code == 2 * k + 1)
    r = ITE(is_(0), ITE(zok(d), zval(d), b''), d)
    for k in range(1, 5):
        r = ITE(is_(k), dec[k](d), r)
    return ITE(is_(5), TBytes.wrap(ccf.decl(TBytes.unwrap(d), pt)), r)


def field(pt, name, default):
    """integer parameter of an optional parameter dictionary (term), or the default"""
    import z3
    o, pv = Params.fields[name], OptParams.val(pt)
    f = Params.acc[name](pv)
    return V.SInt(z3.If(o.isnone(f), z3.IntVal(default), o.val(f)))


def present(pt, name):
    import z3
    f = Params.acc[name](OptParams.val(pt))
    return V.mkbool(z3.And(z3.Not(OptParams.isnone(pt)), z3.Not(Params.fields[name].isnone(f))))


def predicted(pt, d):
    """pt: term of the optional parameter dictionary; predictor 1 (or none given) leaves the data alone"""
    return ITE(AND(present(pt, 'Predictor'), NOT(field(pt, 'Predictor', 1) == 1)),
               png(field(pt, 'Colors', 1), field(pt, 'Columns', 1), field(pt, 'BitsPerComponent', 8), d), d)


def elem():
    global _elem
    if _elem is None:
        _elem = TTuple(TConst(*lits()), OptParams)
    return _elem


_elem = None
_chain = {}


def chain(lst, i, d):
    """data after the filters from position i on have been applied to d"""
    if 'f' not in _chain:
        E = elem()

        def ff_chain(lst, i, d):
            if i >= LEN(lst):
                return d
            ft, pt = ITEM(E, lst, i)
            return chain(lst, i + 1, predicted(pt, one_filter(V.SInt(ft), pt, d)))
        ff_chain.__module__ = __name__
        _chain['f'] = spec_fn((TList(E), TInt, TBytes), TBytes)(ff_chain)
    return _chain['f'](lst, i, d)


def supported(lst):
    def ok(k):
        pt = ITEM(elem(), lst, k)[1]
        p = field(pt, 'Predictor', 1)
        return OR(NOT(present(pt, 'Predictor')), p == 1, p >= 10)
    return FORALL(LEN(lst), ok)


class Decode(Contract):
    name = 'decode'
    enc = False
    target = [M + ':PDFStream.decode', M + ':PDFStream.get_data']
    internal = True
    loops = [LoopSpec(where='decode#0', inv=lambda v: [
        ('remaining filters', EQ(chain(v.ghost_list, v._k, v.data), chain(v.ghost_list, 0, v.ghost_data)))])]

    def inputs(self):
        return dict(raw=TBytes, chain_=TList(elem()))

    def requires(self, raw, chain_):
        return supported(chain_)

    def run(self, raw, chain_):
        D = self.mod(M)
        self.calls = []

        def dech(objid, genno, data, attrs):
            self.calls.append((objid, genno, data, attrs))
            return decipher(data)
        attrs = hooks.mkdict(('Length', 1))
        s = D.PDFStream(attrs, raw, dech if self.enc else None)
        s.set_objid(7, 2)
        self.attrs = attrs
        d0 = decipher(raw) if self.enc else raw
        c = ctx()
        c.ghost['ghost_list'], c.ghost['ghost_data'] = chain_, d0
        import zlib

        def dz(data, *a):
            if V.truth(zok(data)):
                return zval(data)
            raise zlib.error('invalid')
        hooks.overrides = {
            M + ':PDFStream.get_filters': lambda st: chain_,
            'zlib:decompress': dz, U + '.lzw:lzwdecode': dec[1], U + '.ascii85:ascii85decode': dec[2], U + '.ascii85:asciihexdecode': dec[3],
            M + '.util:rldecode': dec[4], M + '.ccitt:ccittfaxdecode': ccf,
            U + '.generic:apply_png_predictor': lambda pred, colors, columns, bpc, data: png(colors, columns, bpc, data)}
        self.s = s
        return self.outcome(s.get_data), self.outcome(s.get_data)

    def ensures(self, out, raw, chain_):
        d0 = decipher(raw) if self.enc else raw
        return [('data = filters applied in order to the decrypted bytes', EQ(out[0], ('ok', chain(chain_, 0, d0)))),
                ('asking again gives the same data', EQ(out[1], out[0])),
                ('decryption once, first, with the identity of the object',
                 (len(self.calls) == 1 and EQ(self.calls[0][:3], (7, 2, raw)) and self.calls[0][3] is self.attrs) if self.enc else
                 len(self.calls) == 0)]


class DecodeEncrypted(Decode):
    name = 'decode with decryption'
    enc = True


class StubDoc:
    """document whose objects are given"""
    def __init__(self, objs):
        self.objs = objs

    def getobj(self, objid):
        return self.objs[objid]


class TRefTo(T):
    """indirect reference to a value"""
    def __init__(self, ty):
        self.ty, self.sort, self.name = ty, ty.sort, ty.name

    def wrap(self, t):
        import sys
        return sys.modules[M].PDFObjRef(StubDoc({5: self.ty.wrap(t)}), 5, 0)

    def domain(self, t):
        return self.ty.domain(t)


class DecodeIndirect(Decode):
    """every parameter dictionary is an indirect object"""
    name = 'decode with indirect parameters'

    def inputs(self):
        return dict(raw=TBytes, chain_=TList(TTuple(TConst(*lits()), TRefTo(OptParams))))



class DecodeRefused(Contract):
    name = 'unsupported filters'
    target = [M + ':PDFStream.decode']
    internal = True

    def inputs(self):
        LIT = self.mod('pdfmajor.parser.PSStackParser').LIT
        return dict(raw=TBytes, f=TConst(LIT('Crypt'), LIT('JBIG2Decode'), LIT('JPXDecode'), LIT('FlateDecode')), pred=TInt, par=TBool)

    def requires(self, raw, f, pred, par):
        return OR(f.name != 'FlateDecode', AND(par, NOT(pred == 1), pred < 10))

    def run(self, raw, f, pred, par):
        D = self.mod(M)
        s = D.PDFStream(hooks.mkdict(('Filter', f)), raw)
        p = hooks.mkdict(('Predictor', pred)) if V.truth(par) else None
        hooks.overrides = {M + ':PDFStream.get_filters': lambda st: VList([(f, p)]), 'zlib:decompress': zval}
        return self.outcome(s.get_data)

    def ensures(self, out, raw, f, pred, par):
        return [('refused with an exception', out == ('exc', 'PDFNotImplementedError'))]


_vals = {}


def fvals():
    """constants standing for filter entries: the literals, then references to them"""
    if 'v' not in _vals:
        import sys
        L = lits()[:3:2]       # two filters stand for all: get_filters never looks at the names
        doc = StubDoc(L)
        Ref = sys.modules[M].PDFObjRef
        _vals['v'] = TConst(*(L + [Ref(doc, k, 0) for k in range(len(L))]))
    return _vals['v']


def code(lst, k):
    ty = fvals()
    return V.SInt(TList(ty).th.index(lst.asterm(ty), V.int_term(k)))


class GetFilters(Contract):
    name = 'get_filters'
    target = [M + ':PDFStream.get_filters', M + ':PDFStream.get_any', M + '.util:resolve1', M + '.PDFObjRef:PDFObjRef.resolve']
    internal = True

    def inputs(self):
        return dict(fkey=TConst('Filter', 'F', 'none'), pkey=TConst('DecodeParms', 'DP', 'FDecodeParms', 'none'),
                    fshape=TConst('one', 'list', 'ref to list'), pshape=TConst('one', 'list', 'ref to list'),
                    f=fvals(), fs=TList(fvals()), p=OptParams, ps=TList(OptParams))

    def requires(self, fkey, pkey, fshape, pshape, f, fs, p, ps):
        if fshape != 'one' and pshape != 'one':
            return LEN(fs) == LEN(ps)
        return LEN(fs) >= 1 if fshape != 'one' else LEN(ps) == 1

    loops = [LoopSpec(where='get_filters#0', types={'_filters': None}, inv=lambda v: [
        ('resolved so far', AND(LEN(v._filters) == v._k,
                                FORALL(v._k, lambda j: code(TL(v._filters), j) == code(v.filters, j) % 2)))])]

    def run(self, fkey, pkey, fshape, pshape, f, fs, p, ps):
        D = self.mod(M)
        GetFilters.loops[0].types = {'_filters': TList(fvals())}
        attrs = [('Length', 3)]

        def put(key, shape, one, many):
            if key == 'none':
                return
            if shape == 'one':
                attrs.append((key, one))
            elif shape == 'list':
                attrs.append((key, many))
            else:
                attrs.append((key, D.PDFObjRef(StubDoc({9: many}), 9, 0)))
        put(fkey, fshape, f, fs)
        put(pkey, pshape, p, ps)
        s = D.PDFStream(hooks.mkdict(*attrs), b'raw')
        return self.outcome(s.get_filters)

    def ensures(self, out, fkey, pkey, fshape, pshape, f, fs, p, ps):
        if out[0] != 'ok':
            return [('no exception', False)]
        r = out[1]
        if fkey == 'none':
            return [('no filters', LEN(r) == 0)]
        if fshape != 'one' and V.truth(LEN(fs) == 0):
            return [('no filters', LEN(r) == 0)]
        n = 1 if fshape == 'one' else LEN(fs)
        if r.el is None:
            r = TYPED(TList(TTuple(fvals(), OptParams)), r)
        E = r.el
        same = E.ts[1].vals[0] if type(E.ts[1]) is TConst else False     # one object for every filter

        def item(k):
            ft, pt = ITEM(E, r, k)
            fc = V.SInt(fvals().unwrap(f)) if fshape == 'one' else code(fs, k)
            if same is not False:
                ok = EQ(same, p) if pkey != 'none' else not same
            elif E.ts[1] is not OptParams:      # plain dictionary
                ok = V.mkbool(OptParams.some(pt) == OptParams.unwrap(p))
            elif pkey == 'none':
                ok = OR(V.mkbool(OptParams.isnone(pt)), V.mkbool(OptParams.unwrap(hooks.mkdict()) == pt))
            elif pshape == 'one':
                ok = V.mkbool(pt == OptParams.unwrap(p))
            else:
                ok = V.mkbool(pt == TList(OptParams).th.index(ps.asterm(OptParams), V.int_term(k)))
            return AND(V.SInt(ft) == fc % 2, ok)
        return [('every filter in order, resolved, with its own parameters', AND(LEN(r) == n, FORALL(n, item)))]


def TL(l):
    return TYPED(TList(fvals()), l)


# ------------------------------------------------------------------ whole-stream probe with independent encoders
def e_flate(d):
    import zlib
    return zlib.compress(d)


def e_lzw(d):
    """LZW with early change, clear code first and whenever the table is full"""
    out, acc, nb = bytearray(), 0, 0

    def put(code, w):
        nonlocal acc, nb
        acc, nb = (acc << w) | code, nb + w
        while nb >= 8:
            out.append((acc >> (nb - 8)) & 255)
            nb -= 8
            acc &= (1 << nb) - 1
    table = {bytes([k]): k for k in range(256)}
    nxt, w, cur = 258, 9, b''
    put(256, 9)
    for x in d:
        y = cur + bytes([x])
        if y in table:
            cur = y
            continue
        put(table[cur], w)
        table[y] = nxt
        nxt += 1
        w = 9 if nxt < 512 else 10 if nxt < 1024 else 11 if nxt < 2048 else 12
        if nxt >= 4093:
            put(256, w)
            table = {bytes([k]): k for k in range(256)}
            nxt, w = 258, 9
        cur = bytes([x])
    if cur:
        put(table[cur], w)
        nxt += 1
        w = 9 if nxt < 512 else 10 if nxt < 1024 else 11 if nxt < 2048 else 12
    put(257, w)
    if nb:
        put(0, 8 - nb)
    return bytes(out)


def e_a85(d):
    out = b''
    for k in range(0, len(d), 4):
        g = d[k:k + 4]
        v = int.from_bytes(g + bytes(4 - len(g)), 'big')
        if v == 0 and len(g) == 4:
            out += b'z'
            continue
        t = bytes(33 + v // 85 ** (4 - j) % 85 for j in range(5))
        out += t[:len(g) + 1]
    return out + b'~>'


def e_ahx(d):
    return d.hex().upper().encode() + b'>'


def e_rl(d):
    out = b''
    k = 0
    while k < len(d):
        if k % 3 == 0:
            g = d[k:k + 1 + k % 5]
            out += bytes([len(g) - 1]) + g
            k += len(g)
        else:
            n = 1
            while k + n < len(d) and d[k + n] == d[k] and n < 128:
                n += 1
            out += (bytes([257 - n]) + d[k:k + 1]) if n > 1 else (b'\0' + d[k:k + 1])
            k += n
    return out + b'\x80'


ENC = {'FlateDecode': e_flate, 'LZWDecode': e_lzw, 'ASCII85Decode': e_a85, 'ASCIIHexDecode': e_ahx, 'RunLengthDecode': e_rl,
       'DCTDecode': lambda d: d}


def e_png(d, nb, bpp):
    """whole rows of nb bytes, filters up and sub in turn"""
    out, prev = b'', bytes(nb)
    for k in range(0, len(d), nb):
        r = d[k:k + nb]
        if k // nb % 2:
            out += b'\x02' + bytes((x - y) & 255 for x, y in zip(r, prev))
        else:
            out += b'\x01' + bytes((x - (r[j - bpp] if j >= bpp else 0)) & 255 for j, x in enumerate(r))
        prev = r
    return out


class StreamProbe(Contract):
    """streams written by independent encoders, through the public interface"""
    name = 'encoded streams'
    target = [M + ':PDFStream.get_data']
    search_n = 400

    def gen(self, rng):
        names = [n for n in NAMES if n[0] in ENC]
        n = rng.choice([0, 1, 1, 2, 2, 3])
        chain_ = []
        for _ in range(n):
            k = rng.randrange(len(names))
            par = None
            if names[k][0] in ('FlateDecode', 'LZWDecode') or rng.random() < .1:
                par = rng.choice([None, None, {'Predictor': 1}, {'Predictor': rng.choice([10, 12, 15]), 'Columns': rng.randrange(1, 6)},
                                  {'Predictor': 11, 'Columns': rng.randrange(1, 4), 'Colors': rng.randrange(1, 4), 'BitsPerComponent': 8}])
            chain_.append((names[k][rng.randrange(2)], par))
        shape = rng.choice(['list', 'list', 'one'])
        return dict(data=bytes(rng.choice([0, 65, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 4, 12, 60, 700]))),
                    chain_=chain_, shape=shape, fkey=rng.choice(['Filter', 'Filter', 'F']),
                    pkey=rng.choice(['DecodeParms', 'DecodeParms', 'DP', 'FDecodeParms']),
                    indirect=[rng.random() < .3 for _ in range(12)], key=rng.choice([None, None, rng.randrange(1, 256)]),
                    strict=rng.random() < .3)

    def corpus(self):
        base = dict(data=b'hello hello hello!', chain_=[], shape='one', fkey='Filter', pkey='DecodeParms', indirect=[False] * 12, key=None, strict=False)
        yield base
        for n in ENC:
            yield dict(base, chain_=[(n, None)])
            yield dict(base, chain_=[(n, {'Predictor': 12, 'Columns': 3})], key=90)
            yield dict(base, chain_=[('ASCIIHexDecode', None), (n, {'Predictor': 12, 'Columns': 3})], shape='list')
            yield dict(base, chain_=[(n, {'Predictor': 12, 'Columns': 3}), ('ASCII85Decode', None)], shape='list')

    def requires(self, data, chain_, shape, fkey, pkey, indirect, key, strict):
        if shape not in ('one', 'list') or not fkey or not pkey or not indirect:
            return False
        return shape == 'list' or len(chain_) <= 1

    def trimmed(self, data, chain_):
        """the data an encoder can be given: whole rows for the last predictor"""
        for f, p in chain_:
            if p and p['Predictor'] > 1:
                nb = p.get('Columns', 1) * p.get('Colors', 1)
                data = data[:len(data) // nb * nb]
        return data

    def encode(self, data, chain_):
        full = {b: a for a, b in NAMES}
        for f, p in reversed(chain_):
            if p and p['Predictor'] > 1:
                nb = p.get('Columns', 1) * p.get('Colors', 1)
                if len(data) % nb:
                    return None
                data = e_png(data, nb, p.get('Colors', 1))
            data = ENC[full.get(f, f)](data)
        return data

    def run(self, data, chain_, shape, fkey, pkey, indirect, key, strict):
        D = self.mod(M)
        LIT = self.mod('pdfmajor.parser.PSStackParser').LIT
        self.data = self.trimmed(data, chain_)
        raw = self.encode(self.data, chain_)
        if raw is None:
            return None
        objs = {}

        def maybe(k, x):
            if not indirect[k % len(indirect)]:
                return x
            objs[k] = x
            return D.PDFObjRef(StubDoc(objs), k, 0)
        attrs = {'Length': len(raw)}
        fs = [maybe(k + 1, LIT(f)) for k, (f, _) in enumerate(chain_)]
        ps = [maybe(k + 5, dict(p) if p else p) for k, (_, p) in enumerate(chain_)]
        if shape == 'one' and chain_:
            attrs[fkey] = fs[0]
            if chain_[0][1]:
                attrs[pkey] = ps[0]
        elif chain_:
            attrs[fkey] = maybe(10, fs)
            if any(p for _, p in chain_):
                attrs[pkey] = maybe(11, ps)
        before = repr(attrs)
        calls = []

        def dech(objid, genno, d, a):
            calls.append((objid, genno, d, a is attrs))
            return bytes(x ^ key for x in d)
        enc = bytes(x ^ key for x in raw) if key is not None else raw
        s = D.PDFStream(attrs, enc, dech if key is not None else None)
        s.set_objid(12, 3)
        S = self.mod('pdfmajor.parser.PDFStream').settings
        old, S.STRICT = S.STRICT, strict
        try:
            a, b = self.outcome(s.get_data), self.outcome(s.get_data)
        finally:
            S.STRICT = old
        return a, b, calls, [(12, 3, enc, True)] if key is not None else [], repr(attrs) == before

    def ensures(self, out, data, **kw):
        if out is None:
            return []
        return [('data is what was encoded', out[0] == ('ok', self.data)), ('asking again gives the same data', out[1] == out[0]),
                ('decryption once, with the identity of the object', out[2] == out[3]), ('dictionary untouched', out[4])]


class RefusedProbe(Contract):
    name = 'refused streams'
    target = [M + ':PDFStream.decode']

    def corpus(self):
        for f in ('Crypt', 'JBIG2Decode', 'JPXDecode', 'Nonsense'):
            yield dict(fs=[f], pred=None)
            yield dict(fs=['FlateDecode', f], pred=None)
        for p in (2, 3, 9):
            yield dict(fs=['FlateDecode'], pred=p)

    def run(self, fs, pred):
        import zlib
        D = self.mod(M)
        LIT = self.mod('pdfmajor.parser.PSStackParser').LIT
        attrs = {'Filter': [LIT(f) for f in fs]}
        if pred is not None:
            attrs['DecodeParms'] = [{'Predictor': pred} for f in fs]
        return self.outcome(D.PDFStream(attrs, zlib.compress(b'some data')).get_data)

    def ensures(self, out, fs, pred):
        return [('refused with an exception, never passed through undecoded', out == ('exc', 'PDFNotImplementedError'))]


probes = [StreamProbe(), RefusedProbe()]
contracts = [Decode(), DecodeEncrypted(), DecodeIndirect(), DecodeRefused(), GetFilters()]
