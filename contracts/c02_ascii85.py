from vc.contract import *

M = 'pdfmajor.utils.ascii85'


def is85(c):
    return AND(c >= 33, c <= 117)


def be32(b):
    return B1(b // 16777216) + B1(b // 65536 % 256) + B1(b // 256 % 256) + B1(b % 256)


def pad(n, b):
    """a final group of n < 5 digits is completed with 'u'"""
    if n == 1:
        return b * 52200625 + 52200624
    if n == 2:
        return b * 614125 + 614124
    if n == 3:
        return b * 7225 + 7224
    return b * 85 + 84


@spec_fn((TBytes, TInt, TInt, TInt), TBytes)
def a85(d, i, n, b):
    """bytes still to be produced from position i on, n digits with value b pending"""
    if i >= LEN(d):
        return b''
    c = AT(d, i)
    if is85(c):
        v = b * 85 + (c - 33)
        if n == 4:
            return be32(v) + a85(d, i + 1, 0, 0)
        return a85(d, i + 1, n + 1, v)
    if c == 122:
        return b'\0\0\0\0' + a85(d, i + 1, n, b)
    if c == 126:
        if n == 0:
            return b''
        return SL(be32(pad(n, b)), 0, n - 1)
    return a85(d, i + 1, n, b)


@spec_fn((TBytes, TInt, TInt, TInt), TBool)
def wf85(d, i, n, b):
    """no group exceeds 2**32-1, z only between groups, no one-digit group"""
    if i >= LEN(d):
        return True
    c = AT(d, i)
    if is85(c):
        v = b * 85 + (c - 33)
        if n == 4:
            return AND(v < 4294967296, wf85(d, i + 1, 0, 0))
        return wf85(d, i + 1, n + 1, v)
    if c == 122:
        return AND(n == 0, wf85(d, i + 1, n, b))
    if c == 126:
        return OR(n == 0, AND(n > 1, pad(n, b) < 4294967296))
    return wf85(d, i + 1, n, b)


class Ascii85(Contract):
    name = 'ascii85decode'
    target = [M + ':ascii85decode']
    loops = [
        LoopSpec(where='ascii85decode#0', inv=lambda v: [
            ('pending group', AND(v.n >= 0, v.n <= 4, v.b >= 0)),
            ('rest well formed', wf85(v.data, v._k, v.n, v.b)),
            ('out ++ rest = whole', EQ(v.out + a85(v.data, v._k, v.n, v.b), a85(v.data, 0, 0, 0)))]),
    ]

    def inputs(self):
        return dict(data=TBytes)

    def requires(self, data):
        return wf85(data, 0, 0, 0)

    def run(self, data):
        return self.outcome(self.mod(M).ascii85decode, data)

    def ensures(self, out, data):
        return [('result = ASCII85 decoding', EQ(out, ('ok', a85(data, 0, 0, 0))))]

    def gen(self, rng):
        d = b''
        for _ in range(rng.randrange(4)):
            r = rng.random()
            if r < .3:
                d += b'z'
            elif r < .8:
                v = rng.choice([0, 1, 2**32 - 1, rng.getrandbits(32)])
                d += bytes(v // 85**k % 85 + 33 for k in (4, 3, 2, 1, 0))
        if rng.random() < .8:
            n = rng.choice([0, 2, 3, 4])
            if n:
                v = rng.getrandbits(32)
                d += bytes(v // 85**k % 85 + 33 for k in (4, 3, 2, 1, 0))[:n]
            d += b'~>'
        if rng.random() < .3:
            d += bytes(rng.randrange(256) for _ in range(3))
        if rng.random() < .5:
            o = b''
            for x in d:
                o += bytes([x]) + (bytes([rng.choice([0, 9, 10, 13, 32, 118, 200])]) if rng.random() < .2 else b'')
            d = o
        return dict(data=d)


contracts = [Ascii85()]
