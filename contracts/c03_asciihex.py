from vc.contract import *

M = 'pdfmajor.utils.ascii85'


def ishex(c):
    return OR(AND(c >= 48, c <= 57), AND(c >= 65, c <= 70), AND(c >= 97, c <= 102))


def hexval(c):
    return ITE(c <= 57, c - 48, ITE(c <= 70, c - 55, c - 87))


@spec_fn((TBytes, TInt, TInt), TBytes)
def ahx(d, i, h):
    """bytes still to be produced from i on; h: value of the pending high digit, or -1"""
    if i >= LEN(d):
        return B1(h * 16) if h >= 0 else b''
    c = AT(d, i)
    if c == 62:
        return B1(h * 16) if h >= 0 else b''
    if NOT(ishex(c)):
        return ahx(d, i + 1, h)
    if h >= 0:
        return B1(h * 16 + hexval(c)) + ahx(d, i + 1, -1)
    return ahx(d, i + 1, hexval(c))


class AsciiHex(Contract):
    name = 'asciihexdecode'
    target = [M + ':asciihexdecode', M + ':asciihexdecode.decode']
    loops = [
        LoopSpec(where='asciihexdecode#0', inv=lambda v: [
            ('pending digit', AND(LEN(v.pair) <= 1, IMP(LEN(v.pair) == 1, lambda: ishex(AT(v.pair, 0))))),
            ('out ++ rest = whole', EQ(v.out + ahx(v.data, v._k, ITE(LEN(v.pair) == 0, -1, hexval(AT(v.pair, 0)))),
                                       ahx(v.data, 0, -1)))]),
    ]

    def inputs(self):
        return dict(data=TBytes)

    def run(self, data):
        return self.outcome(self.mod(M).asciihexdecode, data)

    def ensures(self, out, data):
        return [('result = ASCIIHex decoding', EQ(out, ('ok', ahx(data, 0, -1))))]

    def corpus(self):
        return [dict(data=x) for x in (b'6 1', b'61>62', b'6 1 7>', b'', b'>', b'7', b'6\n1\r\n62\t6', b'aAfF0099')]

    def gen(self, rng):
        return dict(data=bytes(rng.choice(b'0123456789abcdefABCDEF  \n\r\t\f\0') if rng.random() < .95 else
                               rng.choice(b'>gG/:@`\x7f\xff') for _ in range(rng.randrange(12))))


contracts = [AsciiHex()]
