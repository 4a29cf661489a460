from vc.contract import *

M = 'pdfmajor.utils.generic'


def paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = ABS(p - a), ABS(p - b), ABS(p - c)
    return ITE(AND(pa <= pb, pa <= pc), a, ITE(pb <= pc, b, c))


def ABS(x):
    return ITE(x >= 0, x, -x)


def predict(ft, a, b, c):
    """PNG specification: filter types 0..4; a left, b above, c upper left"""
    return ITE(ft == 0, 0, ITE(ft == 1, a, ITE(ft == 2, b, ITE(ft == 3, (a + b) // 2, paeth(a, b, c)))))


@spec_fn((TInt, TInt, TBytes, TBytes, TInt), TBytes)
def recon(ft, bpp, prior, raw, j):
    """first j bytes of the reconstructed row"""
    if j <= 0:
        return b''
    done = recon(ft, bpp, prior, raw, j - 1)
    inpix = j - 1 >= bpp
    a = AT(done, j - 1 - bpp) if inpix else 0
    c = AT(prior, j - 1 - bpp) if inpix else 0
    return done + B1((predict(ft, a, AT(prior, j - 1), c) + AT(raw, j - 1)) % 256)


@spec_fn((TInt, TInt, TBytes, TInt, TBytes), TBytes)
def png(nb, bpp, d, i, prior):
    """rows from position i on"""
    if i >= LEN(d):
        return b''
    raw = SL(d, i + 1, i + 1 + nb)
    row = recon.app(AT(d, i), bpp, prior, raw, LEN(raw)) if symbolic() else recon(AT(d, i), bpp, prior, raw, LEN(raw))
    return row + png(nb, bpp, d, i + nb + 1, row)


@spec_fn((TInt, TBytes, TInt), TBool)
def rows_ok(nb, d, i):
    """filter types are 0..4 and every row is complete"""
    if i >= LEN(d):
        return True
    return AND(AT(d, i) <= 4, i + 1 + nb <= LEN(d), rows_ok(nb, d, i + nb + 1))


class ReconLen(Lemma):
    name = 'length of a reconstructed row'
    vars = dict(ft=TInt, bpp=TInt, prior=TBytes, raw=TBytes, j=TInt)

    def pre(self, ft, bpp, prior, raw, j):
        return j >= 0

    def claim(self, ft, bpp, prior, raw, j):
        return LEN(recon(ft, bpp, prior, raw, j)) == j

    def measure(self, ft, bpp, prior, raw, j):
        return j

    def proof(self, ft, bpp, prior, raw, j):
        if j > 0:
            self(ft=ft, bpp=bpp, prior=prior, raw=raw, j=j - 1)


class ReconNone(Lemma):
    name = 'filter type 0 is the identity'
    vars = dict(bpp=TInt, prior=TBytes, raw=TBytes, j=TInt)

    def pre(self, bpp, prior, raw, j):
        return j >= 0

    def claim(self, bpp, prior, raw, j):
        return IMP(j <= LEN(raw), EQ(recon(0, bpp, prior, raw, j), SL(raw, 0, j)))

    def measure(self, bpp, prior, raw, j):
        return j

    def proof(self, bpp, prior, raw, j):
        if j > 0:
            self(bpp=bpp, prior=prior, raw=raw, j=j - 1)


recon_len, recon_none = ReconLen(), ReconNone()


def row_inv(v):
    recon_len(ft=v.ft, bpp=v.bpp, prior=v.line0, raw=v.line1, j=v._k)
    return [('row prefix', EQ(v.line2, recon(v.ft, v.bpp, v.line0, v.line1, v._k)))]


def outer(v):
    recon_none(bpp=v.bpp, prior=v.line0, raw=SL(v.data, v._cur + 1, v._cur + 1 + v.nbytes), j=v.nbytes)
    return [('previous row', LEN(v.line0) == v.nbytes),
            ('rest well formed', rows_ok(v.nbytes, v.data, v._cur)),
            ('buf ++ rest = whole', EQ(v.buf + png(v.nbytes, v.bpp, v.data, v._cur, v.line0),
                                       png(v.nbytes, v.bpp, v.data, 0, REP(b'\0', v.nbytes))))]


class Png(Contract):
    name = 'apply_png_predictor'
    target = [M + ':apply_png_predictor', M + ':paeth']
    loops = [LoopSpec(where='apply_png_predictor#0', inv=outer)] + \
            [LoopSpec(where='apply_png_predictor#%d' % k, inv=row_inv) for k in (1, 2, 3, 4)]

    def inputs(self):
        return dict(pred=TInt, colors=TInt, columns=TInt, data=TBytes)

    def requires(self, pred, colors, columns, data):
        return AND(colors >= 1, columns >= 1, rows_ok(colors * columns, data, 0))

    def run(self, pred, colors, columns, data):
        return self.outcome(self.mod(M).apply_png_predictor, pred, colors, columns, 8, data)

    def ensures(self, out, pred, colors, columns, data):
        nb = colors * columns
        return [('result = reconstructed rows', EQ(out, ('ok', png(nb, colors, data, 0, REP(b'\0', nb)))))]

    def gen(self, rng):
        colors, columns = rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 2, 3, 5])
        n = colors * columns
        d = b''
        for _ in range(rng.randrange(5)):
            d += bytes([rng.randrange(5)]) + bytes(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(n))
        return dict(pred=rng.choice([10, 11, 12, 13, 14, 15]), colors=colors, columns=columns, data=d)


contracts = [recon_len, recon_none, Png()]
