from vc.contract import *

U = 'pdfmajor.parser.PDFStream.util'


@spec_fn((TBytes, TInt), TBytes)
def rl(d, i):
    """PDF 32000-1 7.4.5: bytes produced from position i on"""
    if i >= LEN(d):
        return b''
    n = AT(d, i)
    if n == 128:
        return b''
    if n < 128:
        return SL(d, i + 1, i + 2 + n) + rl(d, i + 2 + n)
    return REP(SL(d, i + 1, i + 2), 257 - n) + rl(d, i + 2)


@spec_fn((TBytes, TInt), TBool)
def wf(d, i):
    """every run that starts is complete"""
    if i >= LEN(d):
        return True
    n = AT(d, i)
    if n == 128:
        return True
    if n < 128:
        return AND(i + 2 + n <= LEN(d), wf(d, i + 2 + n))
    return AND(i + 2 <= LEN(d), wf(d, i + 2))


class RLDecode(Contract):
    name = 'rldecode'
    target = [U + ':rldecode']
    loops = [
        LoopSpec(where='rldecode#0', inv=lambda v: [
            ('0<=i', v.i >= 0),
            ('wf rest', wf(v.data, v.i)),
            ('decoded so far ++ rest = whole', EQ(v.decoded + rl(v.data, v.i), rl(v.data, 0)))]),
        LoopSpec(where='rldecode#1', inv=lambda v: [
            ('copied literal prefix', EQ(v.decoded, v._entry.decoded + SL(v.data, v.i + 1, v.i + 1 + v._k)))]),
    ]

    def inputs(self):
        return dict(data=TBytes)

    def requires(self, data):
        return wf(data, 0)

    def run(self, data):
        return self.outcome(self.mod(U).rldecode, data)

    def ensures(self, out, data):
        return [('result = RunLength decoding of the input', EQ(out, ('ok', rl(data, 0))))]

    def gen(self, rng):
        d = b''
        for _ in range(rng.randrange(5)):
            k = rng.choice([0, 1, 2, 126, 127, 129, 130, 254, 255, rng.randrange(256)])
            if k == 128:
                d += bytes([128]); continue
            d += bytes([k]) + bytes(rng.randrange(256) for _ in range(k + 1 if k < 128 else 1))
        if rng.random() < .5:
            d += b'\x80' + bytes(rng.randrange(256) for _ in range(rng.randrange(4)))
        return dict(data=d)


contracts = [RLDecode()]
