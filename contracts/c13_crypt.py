"""Encrypted documents: keys from passwords, authentication, decryption of strings and streams."""
from vc.contract import *
from . import c09_objects as O
from .c11_lookup import write_tree
from .pdfwriter import Writer

H = 'pdfmajor.parser.PDFDocument.PDFSecurityHandler'
D = 'pdfmajor.parser.PDFDocument'
S = 'pdfmajor.parser.PDFStream'
PAD = bytes.fromhex('28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A')

# the primitives: arbitrary functions with the algebra of ciphers
md5f = UF('md5', (TBytes,), TBytes)
shaf = UF('sha256', (TBytes,), TBytes)
rc4f = UF('rc4', (TBytes, TBytes), TBytes)
aesenc = UF('aes_cbc_encrypt', (TBytes, TBytes, TBytes), TBytes)
aesdec = UF('aes_cbc_decrypt', (TBytes, TBytes, TBytes), TBytes)


def fact(x):
    ctx().assume(x)


def md5(x):
    r = md5f(x)
    fact(LEN(r) == 16)
    return r


def sha(x):
    r = shaf(x)
    fact(LEN(r) == 32)
    return r


def rc4(k, x):
    if V.isinstance_(x, V.SBytes) and V.isinstance_(k, V.SBytes) and x.t.decl().name() == 'uf.rc4' and x.t.arg(0).eq(k.t):
        return V.mkseq_bytes(x.t.arg(1))        # enciphering twice
    r = rc4f(k, x)
    fact(AND(LEN(r) == LEN(x), EQ(rc4f(k, r), x)))
    return r


def encrypted(k, iv, x):
    r = aesenc(k, iv, x)
    fact(AND(LEN(r) == LEN(x), EQ(aesdec(k, iv, r), x)))
    return r


def decrypted(k, iv, x):
    if V.isinstance_(x, V.SBytes) and x.t.decl().name() == 'uf.aes_cbc_encrypt' and x.t.arg(0).eq(TBytes.unwrap(k)) and x.t.arg(1).eq(TBytes.unwrap(iv)):
        return V.mkseq_bytes(x.t.arg(2))        # what was enciphered
    r = aesdec(k, iv, x)
    fact(LEN(r) == LEN(x))
    return r


le4 = UF('le4', (TInt,), TBytes)        # struct.pack('<L', x)


def pack(fmt, x):
    if fmt != '<L':
        raise Unsupported('pack ' + fmt)
    HAVE(AND(x >= 0, x < 2 ** 32), 'an unsigned 32 bit number')
    r = le4(x)
    fact(LEN(r) == 4)
    return r


class Hash:
    def __init__(self, f, data=b''):
        self.f, self.data = f, data

    def update(self, x):
        self.data = self.data + x

    def digest(self):
        return self.f(self.data)


class RC4:
    def __init__(self, key):
        self.key = key

    def encrypt(self, x):
        return rc4(self.key, x)
    decrypt = encrypt


class CBC:
    def __init__(self, key, iv):
        self.key, self.iv = key, iv

    def decrypt(self, x):
        HAVE(LEN(x) % 16 == 0, 'whole blocks')
        HAVE(LEN(self.iv) == 16, 'initialization vector')
        return decrypted(self.key, self.iv, x)


def new_aes(key, mode, *a, IV=None, iv=None):
    assert mode == 2 and not a
    return CBC(key, IV if IV is not None else iv)


primitives = {'_struct:pack': pack, '_hashlib:openssl_md5': lambda x=b'', **k: Hash(md5, x), 'Crypto.Hash.SHA256:new': lambda x=b'', **k: Hash(sha, b'' if x is None else x),
              'Crypto.Cipher.ARC4:new': lambda key, **k: RC4(key), 'Crypto.Cipher.AES:new': new_aes}


# ------------------------------------------------------------------ the algorithms of the standard (7.6.3, 7.6.4)
def le(x, n):
    """low n bytes of a number, least significant first"""
    r = pack('<L', x % 2 ** 32)
    return r if n == 4 else SL(r, 0, n)


def padded(pw):
    return SL(pw + PAD, 0, 32)


def xored(key, n, i):
    r = b''
    for k in range(n):
        r = r + B1(AT(key, k) ^ i)
    return r


def file_key(pw, O, P, ID, r, n, meta=True):
    """algorithm 2"""
    h = md5(padded(pw) + O + le(P, 4) + ID + (b'' if r < 4 or meta else b'\xff' * 4))
    for _ in range(50 if r >= 3 else 0):
        h = md5(SL(h, 0, n))
    return SL(h, 0, n)


def owner_key(pw, r, n):
    h = md5(padded(pw))
    for _ in range(50 if r >= 3 else 0):
        h = md5(h)
    return SL(h, 0, n)


def owner_entry(owner, user, r, n):
    """algorithm 3"""
    k = owner_key(owner, r, n)
    x = padded(user)
    for i in range(20 if r >= 3 else 1):
        x = rc4(xored(k, n, i) if r >= 3 else k, x)     # k ^ 0 = k
    return x


def user_from(owner, O, r, n):
    """algorithm 7: the user password in the owner entry"""
    k = owner_key(owner, r, n)
    for i in range(19 if r >= 3 else 0, -1, -1):
        O = rc4(xored(k, n, i) if r >= 3 else k, O)
    return O


def user_entry(k, ID, r, n):
    """algorithms 4 and 5 (the first 16 bytes of it)"""
    if r == 2:
        return rc4(k, PAD)
    x = rc4(k, md5(PAD + ID))
    for i in range(1, 20):
        x = rc4(xored(k, n, i), x)
    return x


def fits(k, U, ID, r, n):
    u = user_entry(k, ID, r, n)
    return EQ(u, U) if r == 2 else EQ(u, SL(U, 0, 16))


class Password:
    """a password: the bytes it stands for"""
    def __init__(self, b, codec):
        self.b, self.codec = b, codec

    def __bool__(self):
        return True

    def encode(self, codec):
        assert codec.replace('-', '').lower() == self.codec
        return self.b


CF = {'V2': 'RC4', 'AESV2': 'AES'}


def handler(self, r, n, O, U, P, ID, pw, method='V2', extra=()):
    m = self.mod(H)
    L = self.mod('pdfmajor.parser.PSStackParser').LIT
    pairs = [('Filter', L('Standard')), ('V', 1 if n == 5 and r == 2 else 2 if r == 3 else r), ('R', r), ('P', P), ('O', O), ('U', U)]
    if r == 3 and n != 5:
        pairs.append(('Length', 8 * n))
    if r >= 4:
        pairs += [('CF', hooks.mkdict(('StdCF', hooks.mkdict(('CFM', L(method)))))), ('StmF', L('StdCF')), ('StrF', L('StdCF'))]
    cls = m.PDFStandardSecurityHandler if r < 4 else m.PDFStandardSecurityHandlerV4 if r == 4 else m.PDFStandardSecurityHandlerV5
    hooks.overrides.update(primitives)
    return hooks.call(cls, VList([ID, b'second']), hooks.mkdict(*pairs, *extra), pw)


class Authenticate(Contract):
    """any password: the key it gives, or refusal"""
    target = [H + ':PDFStandardSecurityHandler.' + f for f in ('__init__', 'init', 'init_params', 'init_key', 'compute_u', 'compute_encryption_key', 'authenticate',
                                                                'authenticate_user_password', 'verify_encryption_key', 'authenticate_owner_password')] + [H + ':PDFStandardSecurityHandlerV4.init_params']
    internal = True

    def __init__(self, r, n, who, meta=True):
        self.r, self.n, self.who, self.meta = r, n, who, meta
        self.name = 'R%d, %d bit key, %s password%s' % (r, 8 * n, who, '' if meta else ', metadata in the clear')

    def inputs(self):
        if self.who == 'any':
            return dict(pw=TBytes, O=TBytes, U=TBytes, P=TInt, ID=TBytes)
        return dict(user=TBytes, owner=TBytes, P=TInt, ID=TBytes, tail=TBytes)

    def requires(self, P, tail=b'', U=None, **a):
        return AND(P >= -2 ** 31, P < 2 ** 32, LEN(tail) == 16)if self.who != 'any' else AND(P >= -2 ** 31, P < 2 ** 32)

    def run(self, P, ID, user=None, owner=None, tail=None, pw=None, O=None, U=None):
        r, n = self.r, self.n
        key = lambda pw, O: file_key(pw, O, P, ID, r, n, self.meta)
        if self.who == 'any':
            self.key = key(pw, O)
            self.fits = fits(self.key, U, ID, r, n)
            self.key2 = key(user_from(pw, O, r, n), O)
            self.fits2 = fits(self.key2, U, ID, r, n)
        else:
            O = owner_entry(owner, user, r, n)
            self.key = key(user, O)
            U = user_entry(self.key, ID, r, n) + (tail if r > 2 else b'')
            pw = user if self.who == 'user' else owner
            if self.who == 'owner':
                EQ(user_from(owner, O, r, n), padded(user))
                EQ(padded(padded(user)), padded(user))
                # the owner password does not happen to pass as a user password
                ctx().assume(OR(EQ(owner, user), NOT(fits(key(owner, O), U, ID, r, n))))
        return self.outcome(handler, self, r, n, O, U, P, ID, Password(pw, 'latin1'), extra=() if self.meta else [('EncryptMetadata', False)])

    def ensures(self, out, P, **a):
        if self.who == 'any':
            if V.truth(self.fits):
                k = self.key
            elif V.truth(self.fits2):
                k = self.key2
            else:
                return [('refused', out == ('exc', 'PDFPasswordIncorrect'))]
        else:
            k = self.key
        if out[0] != 'ok':
            return [('opens', False)]
        h = out[1]
        return [('the key of the file', EQ(h.key, k))]


class Permissions(Contract):
    name = 'permissions'
    target = [H + ':PDFStandardSecurityHandler.' + f for f in ('is_printable', 'is_modifiable', 'is_extractable')]
    internal = True

    def inputs(self):
        return dict(P=TInt)

    def run(self, P):
        m = self.mod(H)
        h = m.PDFStandardSecurityHandler.__new__(m.PDFStandardSecurityHandler)
        h.p = P
        return [self.outcome(f) for f in (h.is_printable, h.is_modifiable, h.is_extractable)]

    def ensures(self, out, P):
        return [('bits 3, 4 and 5', AND(*[EQ(o, ('ok', (P // b) % 2 == 1)) for o, b in zip(out, (4, 8, 16))]))]


# ------------------------------------------------------------------ deciphering
def opened(self, r, n, key, method='V2', extra=(), P=-4):
    """a handler whose authentication gave the key"""
    m = self.mod(H)
    hooks.overrides[H + ':PDFStandardSecurityHandler%s.authenticate' % ('V5' if r == 5 else '')] = lambda s, pw: key
    return handler(self, r, n, b'', b'', P, b'', Password(b'', 'any'), method, extra)


def object_key(key, objid, genno, salt=b''):
    n = LEN(key) + 5
    k = md5(key + le(objid, 3) + le(genno, 2) + salt)
    return SL(k, 0, ITE(n < 16, n, 16))


def pkcs(x):
    p = 16 - LEN(x) % 16
    return x + B1(p) * p


class Decrypt(Contract):
    """enciphered data become the data again, with the key of their object"""
    target = [H + ':PDFStandardSecurityHandler.' + f for f in ('decrypt', 'decrypt_rc4')] + [H + ':PDFStandardSecurityHandlerV4.' + f for f in
              ('decrypt', 'decrypt_identity', 'decrypt_aes128', 'decrypt_aes', 'get_cfm', 'init_params')] + [H + ':PDFStandardSecurityHandlerV5.' + f for f in ('get_cfm', 'decrypt_aes256', 'init_params')]
    internal = True

    def __init__(self, r, method, attrs='string', meta=True, other=False):
        self.r, self.method, self.attrs, self.meta = r, method, attrs, meta
        self.plain = method == 'Identity' or (attrs == 'Metadata' and not meta)
        self.name = 'R%d %s, %s%s' % (r, method, attrs, '' if meta else ', metadata in the clear')

    def inputs(self):
        return dict(key=TBytes, objid=TInt, genno=TInt, x=TBytes, iv=TBytes)

    def requires(self, key, objid, genno, x, iv):
        return AND(LEN(key) == (32 if self.r == 5 else 16) if self.r >= 4 else AND(LEN(key) >= 5, LEN(key) <= 16), objid >= 0, objid < 2 ** 32, genno >= 0, genno < 65536, LEN(iv) == 16)

    def run(self, key, objid, genno, x, iv):
        extra = [] if self.meta else [('EncryptMetadata', False)]
        if self.r == 5:
            extra += [('OE', b''), ('UE', b'')]
        L = self.mod('pdfmajor.parser.PSStackParser').LIT
        if self.method == 'Identity':
            extra += [('StmF', L('Identity')), ('StrF', L('Identity'))]
        h = opened(self, self.r, LEN(key), key, 'AESV3' if self.r == 5 else 'V2' if self.method == 'Identity' else self.method, extra)
        if self.plain:
            data = x
        elif self.method == 'V2':
            data = rc4(object_key(key, objid, genno), x)
        elif self.method == 'AESV2':
            data = iv + encrypted(object_key(key, objid, genno, b'sAlT'), iv, pkcs(x))
        else:
            data = iv + encrypted(key, iv, pkcs(x))
        attrs = None if self.attrs == 'string' else hooks.mkdict() if self.attrs == 'stream' else hooks.mkdict(('Type', L(self.attrs)))
        return self.outcome(h.decrypt, objid, genno, data, *([] if attrs is None else [attrs]))

    def ensures(self, out, x, **a):
        return [('the data', EQ(out, ('ok', x)))]


class AnyAES(Contract):
    """data that were not enciphered properly: no failure"""
    name = 'AES, any data'
    target = [H + ':PDFStandardSecurityHandlerV4.decrypt_aes']
    internal = True

    def inputs(self):
        return dict(key=TBytes, data=TBytes)

    def requires(self, key, data):
        return LEN(key) == 16

    def run(self, key, data):
        h = opened(self, 4, 16, key, 'AESV2')
        return self.outcome(h.decrypt, 3, 0, data)

    def ensures(self, out, data, key):
        n = LEN(data) // 16 * 16
        if out[0] != 'ok':
            return [('an answer', False)]
        if V.truth(n <= 16):
            return [('nothing', EQ(out[1], b''))]
        full = decrypted(object_key(key, 3, 0, b'sAlT'), SL(SL(data, 0, n), 0, 16), SL(SL(data, 0, n), 16))
        return [('deciphered blocks', EQ(out[1], SL(full, 0, LEN(out[1])))), ('at most one block of padding', AND(LEN(out[1]) <= n - 16, LEN(out[1]) >= n - 32))]


class V5(Contract):
    """revision 5: the file key is what the user or owner password unlocks"""
    target = [H + ':PDFStandardSecurityHandlerV5.' + f for f in ('authenticate', 'init_params')]
    internal = True

    def __init__(self, who):
        self.who = who
        self.name = 'R5, %s password' % who

    def inputs(self):
        d = dict(OE=TBytes, UE=TBytes, pw=TBytes)
        if self.who == 'any':
            return dict(d, O=TBytes, U=TBytes)
        return dict(pw=TBytes, us=TBytes, ut=TBytes, os=TBytes, ot=TBytes, key=TBytes, other=TBytes)

    def requires(self, **a):
        if self.who == 'any':
            return AND(LEN(a['O']) == 48, LEN(a['U']) == 48, LEN(a['OE']) == 32, LEN(a['UE']) == 32)
        return AND(LEN(a['us']) == 8, LEN(a['os']) == 8, LEN(a['ut']) == 8, LEN(a['ot']) == 8, LEN(a['key']) == 32, LEN(a['other']) == 32)

    def run(self, pw, O=None, U=None, OE=None, UE=None, us=None, os=None, ut=None, ot=None, key=None, other=None):
        z = b'\0' * 16
        p = SL(pw, 0, 127)
        if self.who == 'user':
            U = sha(p + us) + us + ut       # hash, validation salt, key salt
            UE = encrypted(sha(p + ut), z, key)
            O, OE = other + os + ot, other
            # the user password is not the owner's as well
            ctx().assume(NOT(EQ(sha(p + os + U), other)))
        elif self.who == 'owner':
            U, UE = other + us + ut, other
            O = sha(p + os + U) + os + ot
            OE = encrypted(sha(p + ot + U), z, key)
        self.h = None
        if self.who == 'any':
            if V.truth(EQ(sha(p + SL(O, 32, 40) + U), SL(O, 0, 32))):
                self.h = decrypted(sha(p + SL(O, 40, 48) + U), z, OE)
            elif V.truth(EQ(sha(p + SL(U, 32, 40)), SL(U, 0, 32))):
                self.h = decrypted(sha(p + SL(U, 40, 48)), z, UE)
        else:
            self.h = key
        return self.outcome(handler, self, 5, 32, O, U, -4, b'', Password(pw, 'utf8'), 'AESV3', [('OE', OE), ('UE', UE)])

    def ensures(self, out, **a):
        if self.h is None:
            return [('refused', out == ('exc', 'PDFPasswordIncorrect'))]
        if out[0] != 'ok':
            return [('opens', False)]
        return [('the key of the file', EQ(out[1].key, self.h))]


deep = UF('deciphered', (TInt, TInt, TInt), TInt)


class DecipherAll(Contract):
    """every string inside an object is deciphered, nothing else changes"""
    target = 'pdfmajor.parser.PDFStream.util:decipher_all'
    internal = True
    loops = [LoopSpec(where='decipher_all#0', inv=lambda v: [('entries replaced so far', EQ(v.x.n, v._k))])]

    def __init__(self, kind):
        self.kind = kind
        self.name = 'strings in ' + kind

    def inputs(self):
        return dict(objid=TInt, genno=TInt, b=TBytes, xs=TList(TInt))

    def run(self, objid, genno, b, xs):
        f = self.mod('pdfmajor.parser.PDFStream.util').decipher_all
        g = self

        class Key:
            def __init__(s, k):
                s.k = k

        class Items(models.SymIter):
            def length(s):
                return LEN(xs)

            def at(s, k):
                return (Key(k), AT(xs, k))

        class SymDict:
            _vc_heap = True

            def __init__(s):
                s.n = 0

            @property
            def __class__(s):
                return dict

            def items(s):
                return Items()

            def __setitem__(s, k, v):
                HAVE(AND(EQ(k.k, s.n), EQ(v, deep(objid, genno, AT(xs, k.k)))), 'the entry deciphered')
                s.n = s.n + 1

        class Ref:
            pass
        x = self.x = {'a string': b, 'a list': xs + LST(), 'a dictionary': SymDict(), 'a number': 12, 'a name': self.mod('pdfmajor.parser.PSStackParser').LIT('x'),
                      'a stream': self.mod('pdfmajor.parser.PDFStream').PDFStream(hooks.mkdict(), b'raw'), 'text': 'abc', 'null': None}[self.kind]
        self.first = True

        def rec(dec, o, n, y):
            if g.first:
                g.first = False
                return hooks.callee(dec, o, n, y)
            return deep(o, n, y)
        hooks.overrides['pdfmajor.parser.PDFStream.util:decipher_all'] = rec
        return self.outcome(f, lambda o, n, y: rc4(le(o, 4) + le(n, 4), y), objid, genno, x)

    def requires(self, objid, genno, **a):
        return AND(objid >= 0, objid < 2 ** 32, genno >= 0, genno < 65536)

    def ensures(self, out, objid, genno, b, xs):
        if out[0] != 'ok':
            return [('an object', False)]
        if self.kind == 'a string':
            return [('deciphered', EQ(out[1], rc4(le(objid, 4) + le(genno, 4), b)))]
        if self.kind == 'a list':
            return [('every element', AND(LEN(out[1]) == LEN(xs), FORALL(LEN(xs), lambda k: EQ(AT(out[1], k), deep(objid, genno, AT(xs, k))))))]
        if self.kind == 'a dictionary':
            return [('the dictionary', out[1] is self.x), ('every entry', EQ(self.x.n, LEN(xs)))]
        return [('unchanged', out[1] is self.x)]


class Open(Contract):
    """opening an encrypted document: its handler, permissions and deciphering; refusal of what is not supported"""
    target = [D + ':PDFDocument._initialize_password', H + ':PDFStandardSecurityHandler.__init__', H + ':PDFStandardSecurityHandler.init', H + ':PDFStandardSecurityHandler.init_key']
    internal = True

    def __init__(self, v, filter='Standard'):
        self.v, self.filter = v, filter
        self.name = 'opening, %s handler, %s' % (filter, 'any version' if v is None else 'version %d' % v)

    def inputs(self):
        return dict(v=TInt, r=TInt, P=TInt, key=TBytes, right=TBool)

    def requires(self, v, P, **a):
        return AND(*[v != k for k in (1, 2, 4, 5)] if self.v is None else [])

    def run(self, v, r, P, key, right):
        m = self.mod(H)
        L = self.mod('pdfmajor.parser.PSStackParser').LIT
        self.v1 = v if self.v is None else self.v
        param = hooks.mkdict(('Filter', L(self.filter)), ('V', self.v1), ('R', r), ('P', P), ('O', b''), ('U', b''), ('OE', b''), ('UE', b''),
                             ('CF', hooks.mkdict(('StdCF', hooks.mkdict(('CFM', L('AESV3' if self.v == 5 else 'AESV2')))))), ('StmF', L('StdCF')), ('StrF', L('StdCF')))
        self.pws = []

        def auth(s, pw):
            self.pws.append(pw)
            return key if V.truth(right) else None
        for k in ('', 'V5'):
            hooks.overrides[H + ':PDFStandardSecurityHandler%s.authenticate' % k] = auth
            hooks.overrides[H + ':PDFStandardSecurityHandler%s.decrypt' % ('V4' if k else '')] = lambda s, *a: (s, a)
        doc = self.doc = self.mod(D).PDFDocument.__new__(self.mod(D).PDFDocument)

        class P:
            fallback = True
        doc._parser = P()
        doc.decipher = None
        doc.is_printable = doc.is_modifiable = doc.is_extractable = True
        doc.encryption = (VList([b'id', b'id']), param)
        return self.outcome(doc._initialize_password, 'secret')

    def ensures(self, out, v, r, P, key, right):
        d = self.doc
        if self.v is None or self.filter != 'Standard':
            return [('refused', out == ('exc', 'PDFEncryptionError'))]
        ok = OR(*[r == k for k in ((4,) if self.v == 4 else (5,) if self.v == 5 else (2, 3))])
        if not V.truth(ok):
            return [('refused', out == ('exc', 'PDFEncryptionError'))]
        if not V.truth(right):
            return [('wrong password', out == ('exc', 'PDFPasswordIncorrect'))]
        if out[0] != 'ok':
            return [('opens', False)]
        h, args = hooks.call(d.decipher, 7, 0, b'x')
        return [('the password given', self.pws == ['secret']), ('deciphers with the key', EQ(h.key, key)), ('permissions', AND(*[EQ(x, (P // b) % 2 == 1) for x, b in
                ((d.is_printable, 4), (d.is_modifiable, 8), (d.is_extractable, 16))])), ('exact stream lengths', d._parser.fallback is False)]


class Unsupported_(Contract):
    """crypt filters that are not supported are refused"""
    target = [H + ':PDFStandardSecurityHandlerV4.init_params', H + ':PDFStandardSecurityHandlerV4.get_cfm', H + ':PDFStandardSecurityHandlerV5.get_cfm']
    internal = True

    def __init__(self, r, cfm, stm='StdCF', str_='StdCF'):
        self.r, self.cfm, self.stm, self.str_ = r, cfm, stm, str_
        self.name = 'R%d, method %s for streams %s, strings %s' % (r, cfm, stm, str_)

    def inputs(self):
        return dict(key=TBytes)

    def run(self, key):
        L = self.mod('pdfmajor.parser.PSStackParser').LIT
        return self.outcome(opened, self, self.r, 16, key, self.cfm, [('StmF', L(self.stm)), ('StrF', L(self.str_)), ('OE', b''), ('UE', b'')])

    def ensures(self, out, key):
        return [('refused', out == ('exc', 'PDFEncryptionError'))]


contracts = [Authenticate(r, n, w) for r, n in ((2, 5), (3, 5), (3, 16), (3, 9), (4, 16)) for w in ('any', 'user', 'owner')] + [Permissions(), Authenticate(4, 16, 'user', False)]
contracts += [Decrypt(2, 'V2'), Decrypt(3, 'V2', 'stream'), Decrypt(4, 'V2'), Decrypt(4, 'AESV2'), Decrypt(4, 'AESV2', 'stream'), Decrypt(4, 'Identity'), Decrypt(4, 'AESV2', 'Metadata'), Decrypt(4, 'AESV2', 'Metadata', False),
              Decrypt(4, 'AESV2', 'XObject', False), Decrypt(4, 'V2', 'string', False), Decrypt(5, 'AESV3'), Decrypt(5, 'AESV3', 'stream'), AnyAES(), V5('any'), V5('user'), V5('owner')]
contracts += [DecipherAll(k) for k in ('a string', 'a list', 'a dictionary', 'a number', 'a name', 'a stream', 'text', 'null')]
contracts += [Open(v) for v in (None, 1, 2, 4, 5)] + [Open(2, 'Adobe.PubSec'), Unsupported_(4, 'None'), Unsupported_(4, 'AESV3'), Unsupported_(5, 'AESV2'), Unsupported_(4, 'V2', 'StdCF', 'Identity'), Unsupported_(4, 'V2', 'Other', 'Other')]


# ------------------------------------------------------------------ whole encrypted documents
def rc4_(k, x):
    """the cipher itself"""
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + k[i % len(k)]) % 256
        s[i], s[j] = s[j], s[i]
    out, i, j = bytearray(), 0, 0
    for c in x:
        i = (i + 1) % 256
        j = (j + s[i]) % 256
        s[i], s[j] = s[j], s[i]
        out.append(c ^ s[(s[i] + s[j]) % 256])
    return bytes(out)


def aes_(k, iv, x):
    from Crypto.Cipher import AES
    a, out = AES.new(k, AES.MODE_ECB), b''
    for i in range(0, len(x), 16):
        iv = a.encrypt(bytes(p ^ q for p, q in zip(x[i:i + 16], iv)))
        out += iv
    return out


class Crypt:
    """enciphers a document according to the standard"""
    def __init__(self, v, r, n, method, user, owner, P, ID, meta, salt):
        import hashlib
        self.r, self.method, self.meta, self.salt = r, method, meta, salt
        self.md5 = md5 = lambda x: hashlib.md5(x).digest()
        sha = lambda x: hashlib.sha256(x).digest()
        d = '/Filter /Standard /V %d /R %d /P %d ' % (v, r, P)
        if r == 5:
            u, o = user.encode()[:127], owner.encode()[:127]
            self.key = sha(salt)
            U = sha(u + salt[:8]) + salt[:8] + salt[8:16]
            UE = aes_(sha(u + salt[8:16]), bytes(16), self.key)
            O = sha(o + salt[4:12] + U) + salt[4:12] + salt[2:10]
            OE = aes_(sha(o + salt[2:10] + U), bytes(16), self.key)
            d += '/OE <%s> /UE <%s> /Perms <%s> ' % (OE.hex(), UE.hex(), salt.hex())
        else:
            u, o = user.encode('latin-1'), owner.encode('latin-1')
            pad = lambda p: (p + PAD)[:32]
            many = 50 if r >= 3 else 0
            k = md5(pad(o or u))
            for _ in range(many):
                k = md5(k)
            O = pad(u)
            for i in range(20 if r >= 3 else 1):
                O = rc4_(bytes(c ^ i for c in k[:n]), O)
            k = md5(pad(u) + O + (P % 2 ** 32).to_bytes(4, 'little') + ID + (b'\xff' * 4 if r >= 4 and not meta else b''))
            for _ in range(many):
                k = md5(k[:n])
            self.key = k[:n]
            if r == 2:
                U = rc4_(self.key, PAD)
            else:
                U = md5(PAD + ID)
                for i in range(20):
                    U = rc4_(bytes(c ^ i for c in self.key), U)
                U += salt[:16]
        d += '/O <%s> /U <%s> ' % (O.hex(), U.hex())
        if v == 2:
            d += '/Length %d ' % (8 * n)
        if v >= 4:
            d += '/Length %d /EncryptMetadata %s ' % (8 * n, str(meta).lower())
            if method != 'Identity':
                d += '/CF << /StdCF << /CFM /%s /AuthEvent /DocOpen /Length %d >> >> /StmF /StdCF /StrF /StdCF ' % (method, n)
            else:
                d += '/CF << /Other << /CFM /%s >> >> ' % ('AESV3' if v == 5 else 'V2') + ('/StmF /Identity /StrF /Identity' if salt[0] % 2 else '')
        self.dict = ('<< ' + d + '>>').encode()

    def __call__(self, i, g, x):
        tail = i.to_bytes(4, 'little')[:3] + g.to_bytes(2, 'little')
        if self.method == 'Identity':
            return x
        if self.method == 'V2':
            k = self.md5(self.key + tail)
            return rc4_(k[:min(len(self.key) + 5, 16)], x)
        k = self.key if self.r == 5 else self.md5(self.key + tail + b'sAlT')[:min(len(self.key) + 5, 16)]
        p = 16 - len(x) % 16
        iv = self.md5(self.salt + x)
        return iv + aes_(k, iv, x + bytes([p]) * p)

    def tree(self, i, g, t):
        k, v = t
        if k == 'arr':
            return (k, [self.tree(i, g, x) for x in v])
        if k == 'dict':
            return (k, [(n, self.tree(i, g, x)) for n, x in v])
        return (k, self(i, g, v)) if k in ('str', 'hex') else t


WORDS = ['', 'user', 'owner', 'p\xe4ss', 'x' * 40, 'Zo\xeb \u0416']


class Documents(Contract):
    """encrypted documents open with the user and the owner password and give the objects that were enciphered"""
    name = 'encrypted documents'
    target = [D + ':PDFDocument.__init__', D + ':PDFDocument._initialize_password', D + ':PDFDocument.getobj', S + ':PDFStream.decode', 'pdfmajor.parser.PDFParser:PDFParser.do_keyword',
              D + '.PDFXRef:PDFXRefFallback.load']
    search_n = 700

    def gen(self, rng):
        v, r, n, ms = rng.choice([(1, 2, 5, ['V2']), (2, 3, 5, ['V2']), (2, 3, 16, ['V2']), (2, 3, rng.randrange(6, 16), ['V2']), (4, 4, 16, ['V2', 'AESV2', 'AESV2', 'Identity']), (5, 5, 32, ['AESV3', 'AESV3', 'Identity'])])
        words = WORDS if v == 5 else WORDS[:-1]
        objs = {}
        for i in rng.sample(range(2, 70), rng.randrange(1, 6)):
            how = rng.choice(['plain', 'plain', 'stream', 'stream', 'packed', 'meta'])
            objs[i] = (how, O.gen_tree(rng, rng.randrange(3), False), bytes(rng.choice([rng.randrange(256), 1, 16]) for _ in range(rng.choice([0, 1, 5, 15, 16, 17, 40]))))
        return dict(v=v, r=r, n=n, method=rng.choice(ms), user=rng.choice(words), owner=rng.choice(words), give=rng.choice(words + [None]), P=rng.choice([-4, -44, rng.randrange(-2 ** 31, 2 ** 31), rng.randrange(2 ** 31, 2 ** 32)]),
                    ID=bytes(rng.randrange(256) for _ in range(rng.choice([0, 16, 16]))), meta=rng.random() < .6, salt=bytes(rng.randrange(256) for _ in range(16)), objs=objs,
                    gens={i: rng.choice([0, 0, 1, 65535]) for i in objs}, direct=rng.random() < .5, table=rng.random() < .5, caching=rng.random() < .7)

    def requires(self, v, r, n, method, user, owner, give, P, ID, meta, salt, objs, gens, direct, table, caching):
        if (v, r) not in ((1, 2), (2, 3), (4, 4), (5, 5)) or method not in {1: ['V2'], 2: ['V2'], 4: ['V2', 'AESV2', 'Identity'], 5: ['AESV3', 'Identity']}[v]:
            return False
        if n not in {1: [5], 2: range(5, 17), 4: [16], 5: [32]}[v] or len(salt) != 16 or not -2 ** 31 <= P < 2 ** 32 or set(gens) != set(objs):
            return False
        if v < 5 and any(ord(c) > 255 for p in (user, owner, give or '') for c in p):
            return False
        return all(2 <= i < 70 and 0 <= gens[i] < 65536 and how in ('plain', 'stream', 'packed', 'meta') and O.good_tree(t) and type(x) is bytes for i, (how, t, x) in objs.items())

    def run(self, v, r, n, method, user, owner, give, P, ID, meta, salt, objs, gens, direct, table, caching):
        import zlib
        c = Crypt(v, r, n, method, user, owner, P, ID, meta, salt)
        w = Writer()
        entries = {1: ('n', w.add(1, 0, b'<< /Type /Catalog >>'), 0)}
        inner = {}
        pk = [i for i in objs if objs[i][0] == 'packed']
        for i, (how, t, x) in objs.items():
            g = gens[i]
            if how == 'plain':
                body = write_tree(c.tree(i, g, t))
            elif how == 'packed':
                inner[i] = ('c', 80, pk.index(i))
                continue
            else:
                z = how == 'stream' and len(x) % 2
                data = zlib.compress(x) if z else x
                plain = how == 'meta' and not meta and v >= 4
                body = w.stream(b'/K ' + write_tree(c.tree(i, g, t)) + (b' /Filter /FlateDecode ' if z else b'') + (b' /Type /Metadata' if how == 'meta' else b''), data if plain else c(i, g, data))
            entries[i] = ('n', w.add(i, g, body), g)
        if pk:
            bodies = [write_tree(objs[i][1]) for i in pk]
            head = b' '.join(b'%d %d' % (i, sum(len(b) + 1 for b in bodies[:k])) for k, i in enumerate(pk)) + b' '
            body = head + b' '.join(bodies)
            z = len(body) % 3
            entries[80] = ('n', w.add(80, 0, w.stream(b'/Type /ObjStm /N %d /First %d%s' % (len(pk), len(head), b' /Filter /FlateDecode' if z else b''), c(80, 0, zlib.compress(body) if z else body))), 0)
        enc = c.dict
        if not direct:
            entries[81] = ('n', w.add(81, 0, enc), 0)
            enc = b'81 0 R'
        tr = b'/Root 1 0 R /Encrypt ' + enc + b' /ID [<%s> <%s>]' % (ID.hex().encode(), b'00')
        if table:
            q = w.xrefstream(82, inner, b'', None, True, 'flate') if pk else None
            at = w.table(entries, tr + b' /Size 99' + (b' /XRefStm %d' % q if q is not None else b''))
        else:
            at = w.xrefstream(82, {**entries, **inner}, tr, None, True, 'flate')
        data = self.data = w.finish(at)
        t = O.Trees()

        def go():
            doc = self.mod(D).PDFDocument(self.mod('pdfmajor.parser.PDFParser').PDFParser(mkfile(data)), *([] if give == '' and len(salt) % 2 else [give]), caching=caching)
            out = [doc.is_printable, doc.is_modifiable, doc.is_extractable]
            for i in objs:
                x = doc.getobj(i)
                out.append((t.seen(x.attrs.get('K')), x.get_data()) if type(x).__name__ == 'PDFStream' else t.seen(x))
            return out
        return self.outcome(go)

    def ensures(self, out, v, r, user, owner, give, P, objs, **kw):
        t = O.Trees()
        codec = 'utf-8' if r == 5 else 'latin-1'
        cut = lambda p: p.encode(codec)[:127 if r == 5 else 32]
        # an empty owner password stands for the user password; a password is told apart only up to the padding
        passes = [cut(user), cut(owner or user)] if r < 5 else [cut(user), cut(owner)]
        if cut(give or '') not in passes:
            return [('wrong password', out == ('exc', 'PDFPasswordIncorrect'))]
        self.want = want = [bool(P & 4), bool(P & 8), bool(P & 16)]
        for i, (how, tr, x) in objs.items():
            e = t.expect(tr, 'object')
            want.append((e, x) if how in ('stream', 'meta') else e)
        return [('opens', out[0] == 'ok'), ('the objects', out[0] != 'ok' or ceq(out[1], want))]

    def explain(self, out, **kw):
        return 'wanted %r; file %r' % (getattr(self, 'want', None), self.data)


probes = [Documents()]
