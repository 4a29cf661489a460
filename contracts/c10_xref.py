"""Cross-reference sections: text tables, cross-reference streams, order of the sections."""
from vc.contract import *

M = 'pdfmajor.parser.PDFDocument.PDFXRef'
D = 'pdfmajor.parser.PDFDocument'
U = 'pdfmajor.utils.generic'
Range = TTuple(TInt, TInt, tag='xrange')
Ranges = TList(Range)
Ints = TList(TInt)
be = UF('be', (TBytes,), TInt)          # value of a big-endian field (NUnpack below)
is_empty = lambda s: EQ(LEN(s), 0)


def be_value(s, n):
    r = 0
    for k in range(n):
        r = r * 256 + AT(s, k)
    return r


class NUnpack(Contract):
    name = 'nunpack'
    target = [U + ':nunpack']
    level = 'proof'

    def __init__(self, n):
        self.n = n
        self.name = 'nunpack of %d bytes' % n

    def inputs(self):
        return dict(s=TBytes, default=TInt)

    def requires(self, s, default):
        return EQ(LEN(s), self.n)

    def gen(self, rng):
        return dict(s=bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(self.n)), default=rng.randrange(-2, 9))

    def run(self, s, default):
        return self.outcome(self.mod(U).nunpack, s, default)

    def ensures(self, out, s, default):
        return [('big-endian value, or the default for no bytes', EQ(out, ('ok', be_value(s, self.n) if self.n else default)))]


def nunpack_contract(s, default=0):
    """the fields read are of at most 8 bytes"""
    ctx().prove(LEN(s) <= 8, 'precondition of nunpack')
    ctx().ghost.setdefault('_args', []).append(s)
    return ITE(EQ(LEN(s), 0), default, be(s))


def xref_streams(self, R, data, w1, w2, w3):
    x = self.mod(M).PDFXRefStream()
    x.ranges, x.data, x.fl1, x.fl2, x.fl3, x.entlen = R, data, w1, w2, w3, w1 + w2 + w3
    return x


def widths_ok(w1, w2, w3):
    return AND(0 <= w1, w1 <= 8, 0 <= w2, w2 <= 8, 0 <= w3, w3 <= 8)


def row(data, w1, w2, w3, k):
    """the fields of entry k"""
    e = k * (w1 + w2 + w3)
    return SL(data, e, e + w1), SL(data, e + w1, e + w1 + w2), SL(data, e + w1 + w2, e + w1 + w2 + w3)


def val(s, default):
    return ITE(EQ(LEN(s), 0), default, be(s))


@spec_fn((Ranges, TInt, TInt), TInt)
def total(R, k, base):
    """entries before subsection k"""
    if k <= 0:
        return base
    return total(R, k - 1, base) + AT(R, k - 1)[1]


@spec_fn((Ranges, TInt, TInt, TInt), TInt)
def rowno(R, k, base, objid):
    """row of an object number, looking from subsection k on (base rows before it); -1: not there"""
    if k >= LEN(R):
        return -1
    s, n = AT(R, k)
    if AND(s <= objid, objid < s + n):
        return base + (objid - s)
    return rowno(R, k + 1, base + n, objid)


def sizes_ok(R):
    return FORALL(LEN(R), lambda k: AT(R, k)[1] >= 0)


class GetPos(Contract):
    name = 'PDFXRefStream.get_pos'
    target = [M + ':PDFXRefStream.get_pos']
    internal = True
    callees = {U + ':nunpack': nunpack_contract}
    loops = [LoopSpec(where='get_pos#0', inv=lambda v: [
        ('rows before this subsection', AND(v.index >= 0, EQ(rowno(v.ghost_R, v._k, v.index, v.objid), rowno(v.ghost_R, 0, 0, v.objid))))])]

    def inputs(self):
        return dict(R=Ranges, data=TBytes, w1=TInt, w2=TInt, w3=TInt, objid=TInt)

    def requires(self, R, data, w1, w2, w3, objid):
        return AND(widths_ok(w1, w2, w3), sizes_ok(R))

    def run(self, R, data, w1, w2, w3, objid):
        ctx().ghost['ghost_R'] = R
        self.k = rowno(R, 0, 0, objid)
        # the table has all the rows its subsections announce
        w = w1 + w2 + w3
        if NOT(self.k == -1):
            ctx().assume(AND(self.k >= 0, self.k * w + w <= LEN(data)))
            HAVE(self.k * w >= 0)
        return self.outcome(xref_streams(self, R, data, w1, w2, w3).get_pos, objid)

    def ensures(self, out, R, data, w1, w2, w3, objid):
        if self.k == -1:
            return [('no entry', EQ(out, ('exc', 'KeyError')))]
        a, b, c = row(data, w1, w2, w3, self.k)
        for s in ctx().ghost.get('_args', ()):
            EXT(s, a, b, c)
        t = val(a, 1)
        if t == 1:
            return [('offset and generation', EQ(out, ('ok', (None, val(b, 0), val(c, 0)))))]
        if t == 2:
            return [('object stream and index', EQ(out, ('ok', (val(b, 0), val(c, 0), 0))))]
        return [('free or unknown', EQ(out, ('exc', 'KeyError')))]


def used(data, w1, w, k):
    e = k * w
    return OR(val(SL(data, e, e + w1), 1) == 1, val(SL(data, e, e + w1), 1) == 2)


@spec_fn((TBytes, TInt, TInt, TInt, TInt, TInt), Ints)
def inuse(data, w1, w, start, base, k):
    """object numbers of the entries in use among the first k rows of a subsection"""
    if k <= 0:
        return TYPED(Ints, LST())
    return inuse(data, w1, w, start, base, k - 1) + ITE(used(data, w1, w, base + k - 1), TYPED(Ints, LST(start + (k - 1))), TYPED(Ints, LST()))


@spec_fn((Ranges, TBytes, TInt, TInt, TInt), Ints)
def all_inuse(R, data, w1, w, k):
    if k <= 0:
        return TYPED(Ints, LST())
    s, n = AT(R, k - 1)
    return all_inuse(R, data, w1, w, k - 1) + inuse(data, w1, w, s, total(R, k - 1, 0), n)


class GetObjids(Contract):
    name = 'PDFXRefStream.get_objids'
    target = [M + ':PDFXRefStream.get_objids']
    internal = True
    callees = {U + ':nunpack': nunpack_contract}

    def outer(v):
        g = v.ghost
        return [('rows before this subsection', AND(v.index >= 0, EQ(v.index, total(g.R, v._k, 0)))),
                ('reported so far', EQ(g.out, all_inuse(g.R, g.data, g.w1, g.w, v._k)))]

    def inner(v):
        g = v.ghost
        e = (v.index + v._k - 1) * g.w
        if v._k >= 1:
            HAVE(e >= 0)
        for s in ctx().ghost.get('_args', ()):
            EXT(s, SL(g.data, e, e + g.w1))
        return [('reported so far', EQ(g.out, v.ghost.out0 + inuse(g.data, g.w1, g.w, v.start, v.index, v._k)))]

    loops = [LoopSpec(where='get_objids#0', inv=outer),
             LoopSpec(where='get_objids#1', inv=inner, entry=lambda v: setattr(v.ghost, 'out0', v.ghost.out + LST()))]

    def inputs(self):
        return dict(R=Ranges, data=TBytes, w1=TInt, w2=TInt, w3=TInt)

    def requires(self, R, data, w1, w2, w3):
        return AND(widths_ok(w1, w2, w3), sizes_ok(R))

    def run(self, R, data, w1, w2, w3):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.R, g.data, g.w1, g.w, g.out = R, data, w1, w1 + w2 + w3, TYPED(Ints, LST())
        g.out0 = TYPED(Ints, LST())
        ctx().ghost['ghost'] = g
        x = xref_streams(self, R, data, w1, w2, w3)

        def go():
            for i in x.get_objids():
                g.out = g.out + LST(i)
        self.g = g
        return self.outcome(go)

    def ensures(self, out, R, data, w1, w2, w3):
        g = self.g
        return [('exactly the objects in use, in order', AND(EQ(out, ('ok', None)), EQ(g.out, all_inuse(R, data, w1, g.w, LEN(R)))))]


class Choplist(Contract):
    name = 'choplist'
    target = [U + ':choplist']
    internal = True

    def inv(v):
        g = v.ghost
        return [('pairs so far', AND(2 * LEN(g.out) + LEN(v.r) == v._k, LEN(v.r) <= 1,
                                     FORALL(LEN(g.out), lambda k: EQ(AT(g.out, k), (AT(g.seq, 2 * k), AT(g.seq, 2 * k + 1)))))),
                ('the one left', IMP(LEN(v.r) == 1, lambda: EQ(AT(v.r, 0), AT(g.seq, v._k - 1))))]

    loops = [LoopSpec(where='choplist#0', inv=inv, types={'r': Ints})]

    def inputs(self):
        return dict(seq=Ints)

    def run(self, seq):
        class Ghost:
            _vc_heap = True
        g = self.g = Ghost()
        g.seq, g.out = seq, TYPED(Ranges, LST())
        ctx().ghost['ghost'] = g

        def go():
            for p in self.mod(U).choplist(2, seq):
                HAVE(LEN(p) == 2, 'pairs')
                g.out = g.out + LST((AT(p, 0), AT(p, 1)))
        return self.outcome(go)

    def ensures(self, out, seq):
        g = self.g
        return [('no exception', EQ(out, ('ok', None))), ('all pairs, in order', is_pairs(g.out, seq))]


def is_pairs(R, seq):
    return AND(LEN(R) == LEN(seq) // 2, FORALL(LEN(R), lambda k: EQ(AT(R, k), (AT(seq, 2 * k), AT(seq, 2 * k + 1)))))


def choplist_contract(n, seq):
    if n != 2:
        raise Unsupported('choplist of %r' % (n,))
    if type(seq) is tuple:
        return VList([(seq[k], seq[k + 1]) for k in range(0, len(seq) - 1, 2)])
    R = Ranges.fresh('pairs')
    ctx().assume(is_pairs(R, seq))
    return R


class StreamLoad(Contract):
    """the stream dictionary -> subsections and field widths"""
    name = 'PDFXRefStream.load'
    target = [M + ':PDFXRefStream.load', M + ':PDFXRefStream.__init__', M + ':PDFXRefStream.get_trailer']
    internal = True

    def __init__(self, index):
        self.index = index
        self.name = 'PDFXRefStream.load %s' % ('with Index' if index else 'without Index')

    def inputs(self):
        r = dict(size=TInt, w=TTuple(TInt, TInt, TInt), data=TBytes)
        if self.index:
            r['index'] = Ints
        return r

    def run(self, size, w, data, index=None):
        m = self.mod(M)
        keys = [('Type', m.LITERAL_XREF), ('Size', size), ('W', VList(list(w)))] + ([('Index', index)] if self.index else [])
        stream = m.PDFStream(hooks.mkdict(*keys), b'raw')
        toks = [(0, 7), (2, 0), (4, m.KWD(b'obj'))]

        class Source:
            def nexttoken(s):
                return toks.pop(0)

            def nextobject(s):
                return (8, stream)
        self.stream = stream
        hooks.overrides = {U + ':choplist': choplist_contract, 'pdfmajor.parser.PDFStream:PDFStream.get_data': lambda st: data}
        self.x = m.PDFXRefStream()
        return self.outcome(self.x.load, Source())

    def ensures(self, out, size, w, data, index=None):
        x = self.x
        if self.index and NOT(LEN(index) % 2 == 0):
            return [('refused', EQ(out, ('exc', 'PDFSyntaxError')))]
        if self.index:
            want = Ranges.fresh('want')
            ctx().assume(is_pairs(want, index))
        else:
            want = TYPED(Ranges, LST((0, size)))
        return [('loads', EQ(out, ('ok', None))), ('subsections', EQ(TYPED(Ranges, x.ranges), want)), ('field widths', EQ((x.fl1, x.fl2, x.fl3), w)),
                ('row width', EQ(x.entlen, w[0] + w[1] + w[2])), ('rows', EQ(x.data, data)), ('trailer', x.get_trailer() is self.stream.attrs)]


# ------------------------------------------------------------------ text tables
Entry = TTuple(TInt, TInt, TBytes, tag='tabentry')
Entries = TList(Entry)
Pos3 = TTuple(TInt, TInt, TInt, tag='tabpos')
Table = TList(Pos3)


@spec_fn((Entries, TInt, TInt), Table)
def table(E, start, k):
    """(object number, offset, generation) of the entries in use among the first k"""
    if k <= 0:
        return TYPED(Table, LST())
    p, g, use = AT(E, k - 1)
    return table(E, start, k - 1) + ITE(EQ(use, b'n'), TYPED(Table, LST((start + (k - 1), p, g))), TYPED(Table, LST()))


class Num:
    """a field of digits: int() gives the number"""
    def __init__(self, n):
        self.n = n

    def _vc_int(self):
        return self.n

    @classmethod
    def _vc_havoc(cls, name):
        return cls(TInt.fresh(name))


class Fields:
    def __init__(self, xs):
        self.xs = xs

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __getitem__(self, k):
        return self.xs[k]

    @classmethod
    def _vc_havoc(cls, name):
        return cls([Num._vc_havoc(name), Num._vc_havoc(name)] + ([TBytes.fresh(name)] if ctx().decide(2) else []))


class Line:
    """a line of a table, already split"""
    def __init__(self, fields):
        self.fields = fields

    @classmethod
    def _vc_havoc(cls, name):
        return cls(Fields._vc_havoc(name))

    def strip(self):
        return self

    def split(self, sep):
        if sep != b' ':
            raise Unsupported('split')
        return self.fields

    def startswith(self, x):
        return False


class TableLoad(Contract):
    """one subsection, from any table read so far: then the trailer"""
    name = 'PDFXRef.load'
    target = [M + ':PDFXRef.load', M + ':PDFXRef.load_trailer']
    internal = True

    def inv(v):
        g = v.ghost
        return [('entries so far', EQ(g.out, g.before + table(g.E, g.start, v._k))), ('lines so far', g.line == v._k)]
    loops = [LoopSpec(where='load#0', inv=None, unroll=True), LoopSpec(where='load#1', inv=inv)]

    def inputs(self):
        return dict(start=TInt, E=Entries, before=Table)

    def run(self, start, E, before):
        m = self.mod(M)

        class Ghost:
            _vc_heap = True
        g = self.g = Ghost()
        g.E, g.start, g.before, g.out, g.line = E, start, before, before + LST(), 0
        g.phase = 0
        ctx().ghost['ghost'] = g
        trailer = {'Size': 3}
        self.seeks = seeks = []

        class Offsets:
            def __setitem__(s, k, pos):
                HAVE(pos[0] is None)
                g.out = g.out + LST((k, pos[1], pos[2]))

        class Source:
            def nextline(s):
                g.phase = g.phase + 1 if type(g.phase) is int and g.phase < 2 else g.phase
                if type(g.phase) is int and g.phase == 1 and type(g.line) is int:
                    return (10, Line(Fields([Num(start), Num(LEN(E))])))
                if g.line < LEN(E):
                    g.line = g.line + 1
                    p, gen, use = AT(E, g.line - 1)
                    return (11, Line(Fields([Num(p), Num(gen), use])))
                return (77, b'trailer\n')

            def seek(s, pos):
                seeks.append(pos)

            def nexttoken(s):
                return (77, m.KWD(b'trailer'))

            def nextobject(s):
                return (85, hooks.mkdict(('Size', 3)))
        x = self.x = m.PDFXRef()
        x.offsets = Offsets()
        return self.outcome(x.load, Source())

    def ensures(self, out, start, E, before):
        return [('loads', EQ(out, ('ok', None))), ('every entry in use, numbered from the start of the subsection', EQ(self.g.out, before + table(E, start, LEN(E)))),
                ('the trailer follows', self.seeks == [77]), ('trailer', EQ(self.x.trailer['Size'], 3))]


# ------------------------------------------------------------------ order of the sections
Any = TAny()
Secs = TList(Any)
chain_from = UF('sections', (TInt,), Secs)        # the sections from a position on: newest first


class ReadFrom(Contract):
    """this section, then what XRefStm points at, then what Prev points at (the recursive calls by this contract)"""
    name = 'read_xref_from'
    target = [D + ':PDFDocument.read_xref_from']
    internal = True

    def __init__(self, kind):
        self.kind = kind
        self.name = 'read_xref_from %s' % kind

    def inputs(self):
        return dict(start=TInt, before=Secs, stm=TOpt(TInt), prev=TOpt(TInt))

    def run(self, start, before, stm, prev):
        Any.objs.clear()
        d, m = self.mod(D), self.mod(M)
        log = self.log = []
        keys = [(k, x) for k, x in (('XRefStm', FORCE(stm)), ('Prev', FORCE(prev))) if x is not None]
        self.want = [x for _, x in keys]
        trailer = hooks.mkdict(*keys)
        tok = {'stream': 7, 'table': m.KWD(b'xref'), 'bare table': m.KWD(b'0bj'), 'nothing': None}[self.kind]

        class Source:
            KEYWORD_XREF = m.KWD(b'xref')

            def seek(s, p):
                log.append(('seek', p))

            def reset(s):
                log.append('reset')

            def nexttoken(s):
                if tok is None:
                    raise d.PSEOF('x')
                return (start + 1, tok)

            def nextline(s):
                log.append('line')
        self.secs = []

        def load(x, parser):
            x.trailer = trailer
            log.append('load ' + type(x).__name__)
            self.secs.append(x)
        hooks.overrides = {M + ':PDFXRefStream.load': load, M + ':PDFXRef.load': load,
                           D + ':PDFDocument.read_xref_from': lambda s, parser, pos, xrefs: xrefs.extend(chain_from(pos))}
        doc = d.PDFDocument.__new__(d.PDFDocument)
        self.xrefs = before.copy()
        try:
            doc.read_xref_from(Source(), start, self.xrefs)
        except d.PDFNoValidXRef:
            return 'invalid'
        return 'ok'

    def ensures(self, out, start, before, stm, prev):
        if self.kind == 'nothing':
            return [('not valid', out == 'invalid'), ('nothing added', EQ(self.xrefs, before))]
        cls = 'PDFXRefStream' if self.kind == 'stream' else 'PDFXRef'
        want = before + TYPED(Secs, LST(*self.secs))
        for p in self.want:
            want = want + chain_from(p)
        at = [('seek', start), 'reset']
        if self.kind == 'stream':
            at += [('seek', start + 1), 'reset']
        if self.kind == 'table':
            at += ['line']
        return [('succeeds', out == 'ok'), ('one section of the right kind, from the right place', EQ(tuple(self.log), tuple(at + ['load ' + cls]))),
                ('newest first, hybrid streams before older sections', EQ(self.xrefs, want))]


contracts = [NUnpack(n) for n in range(9)] + [GetPos(), GetObjids(), Choplist(), StreamLoad(False), StreamLoad(True), TableLoad()]
contracts += [ReadFrom(k) for k in ('stream', 'table', 'bare table', 'nothing')]
# ------------------------------------------------------------------ probes: written sections read back
class Sections(Contract):
    name = 'sections of a file'
    target = [D + ':PDFDocument.find_xref', D + ':PDFDocument.read_xref_from', M + ':PDFXRef.load', M + ':PDFXRefStream.load']
    search_n = 1500

    def gen(self, rng):
        secs = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            kind = rng.choice(['table', 'stream', 'hybrid'])
            n = rng.choice([3, 8, 300])
            ids = rng.sample(range(n), min(n, rng.randrange(0, 6))) + ([k for k in range(3)] if rng.random() < .6 else [])
            big = rng.choice([200, 70000, 2 ** 31, 9999999999])
            def ent(c):
                r = rng.random()
                if r < .25:
                    return ('f', rng.randrange(n), rng.choice([0, 1, 65535]))
                if c and r < .55:
                    return ('c', rng.randrange(1, 400), rng.choice([0, 1, 300]))
                return ('n', rng.randrange(big), rng.choice([0, 0, 0, 3, 65535]))
            s = dict(kind=kind, entries={i: ent(kind == 'stream') for i in ids}, stm={}, W=[rng.choice([0, 1, 2]), rng.randrange(1, 9), rng.randrange(0, 6)],
                     coding=rng.choice(['none', 'flate', 'png']), joined=rng.random() < .7)
            if kind == 'hybrid':
                s['stm'] = {i: ent(True) for i in rng.sample(range(n), min(n, 3))}
            secs.append(s)
        return dict(secs=secs, nl=rng.choice([b'\n', b'\r\n', b'\r']), eol=rng.choice([b' \n', b'\r\n', b' \r', b'\n']), size=rng.choice([7, 64, 4096, 4096]))

    def requires(self, secs, nl, eol, size):
        if nl not in (b'\n', b'\r\n', b'\r') or eol not in (b' \n', b'\r\n', b' \r', b'\n') or size < 1 or not secs:
            return False
        for s in secs:
            if s['kind'] not in ('table', 'stream', 'hybrid') or s['coding'] not in ('none', 'flate', 'png') or len(s['W']) != 3 or not all(0 <= w <= 8 for w in s['W']):
                return False
            for e, c in ((s['entries'], s['kind'] == 'stream'), (s['stm'], True)):
                for i, v in e.items():
                    if type(i) is not int or i < 0 or v[0] not in ('nfc' if c else 'nf') or not (0 <= v[1] <= 9999999999 and 0 <= v[2] <= 65535):
                        return False
        return True

    def run(self, secs, nl, eol, size):
        from contracts.pdfwriter import Writer
        w = Writer()
        w.buf += b'1 0 obj\n(' + b'x' * 40 + b')\nendobj\n'
        prev, want = None, []
        for s in secs:
            tr = b'/Root << /Type /Catalog >>' + (b' /Prev %d' % prev if prev else b'')
            if s['kind'] == 'stream':
                prev = w.xrefstream(901, s['entries'], tr, s['W'], s['joined'], s['coding'], nl)
                want = [s['entries']] + want
            else:
                q = w.xrefstream(902, s['stm'], b'', s['W'], s['joined'], s['coding'], nl) if s['kind'] == 'hybrid' else None
                prev = w.table(s['entries'], tr + b' /Size 400' + (b' /XRefStm %d' % q if q is not None else b''), eol, nl, s['joined'])
                want = [s['entries']] + ([s['stm']] if q is not None else []) + want
            w.finish(prev, nl)
        data = bytes(w.buf)
        self.want = want
        mod = self.mod(D)

        def go():
            p = self.mod('pdfmajor.parser.PDFParser').PDFParser(mkfile(data))
            p.BUFSIZ = size
            doc = mod.PDFDocument(p, fallback=False)
            out = []
            for x in doc.xrefs:
                d = {}
                for i in list(range(0, 12)) + sorted({i for s in want for i in s}) + [10 ** 6]:
                    try:
                        d[i] = x.get_pos(i)
                    except KeyError:
                        pass
                out.append((sorted(x.get_objids()), d))
            return out
        return self.outcome(go)

    def ensures(self, out, **kw):
        want = []
        for e in self.want:
            d = {i: (None, a, b) if k == 'n' else (a, b, 0) for i, (k, a, b) in e.items() if k != 'f'}
            want.append((sorted(d), d))
        return [('the entries that were written, newest section first', out == ('ok', want))]

    def explain(self, out, **kw):
        return 'written %r' % (self.want,)


probes = [Sections()]
