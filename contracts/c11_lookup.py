"""Indirect objects: which section answers, object streams, caching, stream extents, recovery by scanning."""
from vc.contract import *

D = 'pdfmajor.parser.PDFDocument'
X = D + '.PDFXRef'
P = 'pdfmajor.parser.PDFParser'
S = 'pdfmajor.parser.PDFStream'
Any = TAny()

found = UF('found', (TInt, TInt), TBool)            # section, object number: has it an entry in use?
packed = UF('packed', (TInt, TInt), TBool)          # ... in an object stream?
strm = UF('strm', (TInt, TInt), TInt)
where = UF('where', (TInt, TInt), TInt)
gen_ = UF('gen', (TInt, TInt), TInt)
parses = UF('parses', (TInt, TInt), TBool)          # position, object number: an object of that number is there
parsed = UF('parsed', (TInt, TInt), TInt)           # its value
unpacks = UF('unpacks', (TInt, TInt, TInt), TBool)  # object stream (value), index, object number
unpacked = UF('unpacked', (TInt, TInt, TInt), TInt)
isstream = UF('isstream', (TInt,), TBool)
deciphered = UF('deciphered', (TInt, TInt, TInt), TInt)
lookup = UF('lookup', (TInt,), TInt)                # value of another object number (contract of getobj)


class Sec:
    """a cross-reference section"""
    def __init__(self, id):
        self.id = id

    def get_pos(self, objid):
        if not found(self.id, objid):
            raise KeyError(objid)
        return (strm(self.id, objid) if packed(self.id, objid) else None, where(self.id, objid), gen_(self.id, objid))

    @classmethod
    def _vc_havoc(cls, name):
        return cls(TInt.fresh(name))


TSec = TObj('section', TInt, Sec, lambda v: v.id if type(v) is Sec else None)
Secs = TList(TSec)


def answers(s, objid):
    """the section has the object, and it can be read"""
    p = packed(s, objid)
    return AND(found(s, objid), ITE(p, unpacks(lookup(strm(s, objid)), where(s, objid), objid), parses(where(s, objid), objid)))


def answer(s, objid, enc):
    v = parsed(where(s, objid), objid)
    if enc:
        v = deciphered(objid, gen_(s, objid), v)
    return ITE(packed(s, objid), unpacked(lookup(strm(s, objid)), where(s, objid), objid), v)


@spec_fn((Secs, TInt, TInt), TInt)
def newest(R, k, objid):
    """the first section from k on that answers; -1: none"""
    if k >= LEN(R):
        return -1
    if answers(AT(R, k).id, objid):
        return k
    return newest(R, k + 1, objid)


class Got(Exception):
    pass


class GetObj(Contract):
    name = 'getobj'
    target = [D + ':PDFDocument.getobj']
    internal = True
    loops = [LoopSpec(where='getobj#0', inv=lambda v: [('sections tried so far do not answer', EQ(newest(v.ghost.R, v._k, v.objid), newest(v.ghost.R, 0, v.objid)))])]

    def __init__(self, enc, caching):
        self.enc, self.caching = enc, caching
        self.name = 'getobj%s%s' % (', encrypted' if enc else '', ', caching' if caching else '')

    def inputs(self):
        return dict(R=Secs, objid=TInt, cached=TBool, cv=TInt, cg=TInt)

    def requires(self, R, objid, cached, cv, cg):
        return LEN(R) > 0

    def run(self, R, objid, cached, cv, cg):
        d = self.mod(D)

        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.R = R
        ctx().ghost['ghost'] = g
        doc = d.PDFDocument.__new__(d.PDFDocument)
        doc.xrefs, doc.caching, doc._parsed_objs = R, self.caching, {}
        Stream = d.PDFStream
        self.id_set, self.stored = [], []

        class Val:
            def __init__(s, v):
                s.v = v

            @classmethod
            def _vc_havoc(cls, name):
                return cls(TInt.fresh(name))

        class Attrs:
            def __init__(s):
                s.done = []

        class StreamVal(Stream):
            def __init__(s, v):
                s.v, s.attrs = v, Attrs()

            def set_objid(s, o, gn):
                s.ident = (o, gn)

            @classmethod
            def _vc_havoc(cls, name):
                return cls(TInt.fresh(name))

        def value(v):
            return StreamVal(v) if isstream(v) else Val(v)
        self.StreamVal = StreamVal

        class Cache:
            def __contains__(s, k):
                HAVE(EQ(k, objid))
                return V.truth(cached)

            def __getitem__(s, k):
                HAVE(EQ(k, objid))
                return (value(cv), cg)

            def __setitem__(s, k, x):
                self.stored.append((k, x))
        doc._cached_objs = Cache()
        doc.decipher = 'decipher' if self.enc else None

        def parse(s, pos, o):
            if not parses(pos, o):
                raise d.PDFSyntaxError('x')
            return value(parsed(pos, o))

        def unpack(s, stream, index, o):
            if not unpacks(stream.v, index, o):
                raise d.PDFSyntaxError('x')
            return value(unpacked(stream.v, index, o))
        def decipher_all(dec, o, gn, v):
            if type(v) is Attrs:
                v.done.append((o, gn))
                return v
            return value(deciphered(o, gn, v.v))
        hooks.overrides = {D + ':PDFDocument._getobj_parse': parse, D + ':PDFDocument._getobj_objstm': unpack,
                           D + ':PDFDocument.getobj': lambda s, o: Val(lookup(o)),
                           S + ':PDFStream.validated_stream': lambda *a: a[-1],
                           S + '.util:decipher_all': decipher_all}
        try:
            return ('ok', doc.getobj(objid))
        except (d.PDFObjectNotFound, d.ParserError) as e:
            return ('exc', type(e).__name__)

    def ensures(self, out, R, objid, cached, cv, cg):
        if objid == 0:
            return [('no object 0', out == ('exc', 'PDFObjectNotFound'))]
        if cached:
            return [('the object seen before', AND(out[0] == 'ok', lambda: EQ(out[1].v, cv))), ('not stored again', self.stored == [])]
        k = newest(R, 0, objid)
        if k == -1:
            return [('no such object', out == ('exc', 'PDFObjectNotFound')), ('nothing stored', self.stored == [])]
        if out[0] != 'ok':
            return [('found', False)]
        s = AT(R, k).id
        g = ITE(packed(s, objid), gen_(s, objid), gen_(s, objid))
        r = [('the newest section that has it answers', EQ(out[1].v, answer(s, objid, self.enc)))]
        if type(out[1]) is self.StreamVal:
            r.append(('the stream knows its own number', EQ(out[1].ident, (objid, g))))
            done = out[1].attrs.done
            if self.enc and not V.truth(packed(s, objid)):
                r.append(('the strings of its dictionary are deciphered', len(done) == 1 and EQ(done[0], (objid, g))))
            else:
                r.append(('its dictionary is left alone', done == []))
        if self.caching:
            r.append(('remembered under its number', len(self.stored) == 1 and AND(EQ(self.stored[0][0], objid), self.stored[0][1][0] is out[1])))
        else:
            r.append(('nothing stored', self.stored == []))
        return r


class ObjStm(Contract):
    """index'th object of an object stream: n pairs of numbers come first"""
    name = '_getobj_objstm'
    target = [D + ':PDFDocument._getobj_objstm', D + ':PDFDocument._get_objects']
    internal = True
    loops = [LoopSpec(where='_get_objects#0', types={'objs': TList(Any)}, inv=lambda v: [
        ('objects so far', AND(v.ghost.k <= LEN(v.ghost.all), EQ(v.objs, SL(v.ghost.all, 0, v.ghost.k)))), ('position', v.ghost.k >= 0)])]

    def __init__(self, seen):
        self.seen = seen
        self.name = '_getobj_objstm' + (' (read before)' if seen else '')

    def inputs(self):
        return dict(all=TList(Any), n=TInt, index=TInt, caching=TBool)

    def requires(self, all, n, index, caching):
        return AND(n >= 0, index >= 0)

    def run(self, all, n, index, caching):
        Any.objs.clear()
        d = self.mod(D)

        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.all, g.k = all, 0
        ctx().ghost['ghost'] = g
        doc = d.PDFDocument.__new__(d.PDFDocument)
        doc.caching = FORCE(caching)
        if type(doc.caching) is not bool:
            doc.caching = V.truth(doc.caching)
        doc._parsed_objs = hooks.mkdict((7, (all, n))) if self.seen else hooks.mkdict()
        stream = d.PDFStream(hooks.mkdict(('Type', d.LITERAL_OBJSTM), ('N', n)), b'raw')
        stream.set_objid(7, 0)

        def nextobject(p):
            if g.k >= LEN(all):
                raise d.PSEOF('x')
            g.k = g.k + 1
            return (0, AT(all, g.k - 1))
        hooks.overrides = {'pdfmajor.parser.PSStackParser:PSStackParser.nextobject': nextobject, S + ':PDFStream.get_data': lambda s: b'data'}
        self.doc = doc
        return self.outcome(doc._getobj_objstm, stream, index, 12)

    def ensures(self, out, all, n, index, caching):
        i = 2 * n + index
        if i >= LEN(all):
            return [('no such index', out == ('exc', 'PDFSyntaxError'))]
        r = [('object number `index` after the pairs', EQ(out, ('ok', AT(all, i))))]
        po = self.doc._parsed_objs
        if self.doc.caching or self.seen:
            r.append(('kept', EQ(po[7], (all, n))))
        else:
            r.append(('not kept', NOT(hooks.contains(7, po))))
        return r


class Parse(Contract):
    """objid genno obj value"""
    name = '_getobj_parse'
    target = [D + ':PDFDocument._getobj_parse']
    internal = True
    loops = [LoopSpec(where='_getobj_parse#0', inv=None, unroll=True)]

    def inputs(self):
        return dict(pos=TInt, objid=TInt, there=TInt, genno=TInt, isobj=TBool)

    def requires(self, pos, objid, there, genno, isobj):
        return OR(EQ(objid, there), isobj)

    def run(self, pos, objid, there, genno, isobj):
        d = self.mod(D)
        doc = d.PDFDocument.__new__(d.PDFDocument)
        log = self.log = []
        toks = [(0, there), (1, genno), (2, d.KWD(b'obj') if V.truth(isobj) else d.KWD(b'endobj'))]
        self.val = object()

        class Source:
            def seek(s, p):
                log.append(p)

            def nexttoken(s):
                return toks.pop(0)

            def nextobject(s):
                return (9, self.val)
        doc._parser = Source()
        return self.outcome(doc._getobj_parse, pos, objid)

    def ensures(self, out, pos, objid, there, genno, isobj):
        if AND(EQ(objid, there), isobj):
            return [('the value at that position', out[0] == 'ok' and out[1] is self.val), ('read from there', EQ(tuple(self.log), (pos,)))]
        return [('refused', out == ('exc', 'PDFSyntaxError'))]



# ------------------------------------------------------------------ extent of a stream
linelen = UF('linelen', (TBytes, TInt), TInt)
ends_there = UF('ends_there', (TBytes, TInt), TBool)      # 'endstream' follows (is_endstream)
END = b'endstream'


def line_ok(F, q):
    return AND(linelen(F, q) >= 1, q + linelen(F, q) <= LEN(F))


@spec_fn((TBytes, TInt), TInt)
def endpos(F, q):
    """where the first line from q on with endstream has it; the end of the data if none has"""
    if q >= LEN(F):
        return q
    line = RSL(F, q, q + linelen(F, q))
    i = hooks.call(line.find, END)
    if i >= 0:
        return q + i
    return endpos(F, q + linelen(F, q))


class StreamExtent(Contract):
    name = 'stream'
    target = [P + ':PDFParser.do_keyword']
    internal = True
    loops = [LoopSpec(where='do_keyword#0', types={'*.data': TBytes, 'data': TBytes}, inv=lambda v: [
        ('position', AND(v.ghost.q == v.ghost.b + v.objlen, v.ghost.q <= LEN(v.ghost.F), v.objlen >= v.ghost.L)),
        ('data', EQ(TYPED(TBytes, v.data), RSL(v.ghost.F, v.ghost.b, v.ghost.b + (v.ghost.L if v.ghost.exact else v.objlen)))),
        ('the end', EQ(endpos(v.ghost.F, v.ghost.q), endpos(v.ghost.F, v.ghost.b + v.ghost.L)))])]

    def __init__(self, fallback, length):
        self.fallback, self.length = fallback, length
        self.name = 'stream, %s, %s' % ('recovering' if fallback else 'exact', 'Length' if length else 'no Length')

    def inputs(self):
        return dict(F=TBytes, pos=TInt, L=TInt)

    def requires(self, F, pos, L):
        return AND(pos >= 0, pos < LEN(F), line_ok(F, pos), L >= 0, IMP(self.length, pos + linelen(F, pos) + L <= LEN(F)))

    def run(self, F, pos, L):
        m = self.mod(P)

        class Ghost:
            _vc_heap = True
        g = self.g = Ghost()
        g.F, g.q, g.b = F, pos, pos + linelen(F, pos)
        g.exact = (self.length and (not self.fallback or V.truth(ends_there(F, g.b + L)))) or not self.fallback
        g.L = L if self.length and g.exact else 0
        ctx().ghost['ghost'] = g
        p = m.PDFParser.__new__(m.PDFParser)
        p.fp, p.fallback = mkfile(F), self.fallback
        p.context, p.curtype, p.results = VList([]), None, VList([])
        dic = self.dic = hooks.mkdict(*([('Length', L)] if self.length else []))
        p.curstack = VList([(3, dic)])

        class Doc:
            decipher = None
        p.doc = Doc()

        def seek(s, q):
            g.q = q

        def nextline(s):
            if g.q >= LEN(F):
                raise m.PSEOF('x')
            ctx().assume(line_ok(F, g.q))
            q, g.q = g.q, g.q + linelen(F, g.q)
            return (q, RSL(F, q, g.q))
        base = 'pdfmajor.parser.PSStackParser'
        hooks.overrides = {base + ':PSStackParser.seek': seek, base + '.PSBaseParser:PSBaseParser.seek': seek, base + '.PSBaseParser:PSBaseParser.nextline': nextline,
                           P + ':PDFParser.is_endstream': lambda s, q: ends_there(F, q)}
        self.p = p
        return self.outcome(p.do_keyword, pos, p.KEYWORD_STREAM)

    def ensures(self, out, F, pos, L):
        g, p = self.g, self.p
        if out != ('ok', None) or len(p.curstack) != 1:
            return [('one stream object', False)]
        x = p.curstack[0][1]
        end = endpos(F, g.b + g.L)
        return [('dictionary', x.attrs is self.dic), ('its bytes', EQ(x.rawdata, RSL(F, g.b, g.b + g.L if g.exact else end))),
                ('reading goes on at endstream', EQ(g.q, end))]


contracts = [GetObj(e, c) for e in (False, True) for c in (False, True)] + [ObjStm(False), ObjStm(True), Parse()]
contracts += [StreamExtent(f, l) for f in (False, True) for l in (False, True)]


# ------------------------------------------------------------------ probes: documents written and looked up
from . import c09_objects as O
from .pdfwriter import Writer
BITS = [b'endstream', b'endobj', b'\n3 0 obj\n', b'trailer', b'startxref\n', b'\n', b'\r\n', b'x', b'\0\xff', b'stream\n', b' ', b'(', b'<<']


def write_tree(t, sep=0, tight=False):
    return O.joined(O.pieces(t), sep, tight)


class Documents(Contract):
    """revisions of a document; every object is the one of the newest revision that has it"""
    name = 'objects of a document'
    target = [D + ':PDFDocument.getobj', D + ':PDFDocument.__init__', X + ':PDFXRefFallback.load', P + ':PDFParser.do_keyword']
    search_n = 900

    def gen(self, rng):
        revs = []
        damaged = rng.random() < .35
        for k in range(1 if damaged else rng.choice([1, 1, 2, 3])):
            ids = sorted(rng.sample(range(2, 9), rng.randrange(1, 6)))
            objs = {}
            for i in ids:
                how = rng.choice(['plain', 'plain', 'stream', 'packed', 'open'])
                if how == 'open':
                    objs[i] = (how, b''.join(rng.choice([b'x', b'\n', b'\r\n', b'endobj', b' ', b'end', b'\0']) for _ in range(rng.randrange(5))))
                elif how == 'stream':
                    objs[i] = ('stream', b''.join(rng.choice(BITS) for _ in range(rng.randrange(6))))
                else:
                    objs[i] = (how, O.gen_tree(rng, rng.randrange(3), True))
                    if objs[i][1][0] == 'ref':
                        objs[i] = (how, ('arr', [objs[i][1]]))
            revs.append(dict(kind=rng.choice(['table', 'stream', 'hybrid']) if not damaged else 'table', objs=objs, gens={i: rng.choice([0, 0, 2]) for i in ids}))
        ask = [rng.randrange(0, 12) for _ in range(rng.randrange(1, 12))]
        return dict(revs=revs, ask=ask, caching=rng.random() < .5, nl=rng.choice([b'\n', b'\r\n', b'\r']), damage=rng.randrange(0, 900) if damaged else -1,
                    size=rng.choice([16, 4096, 4096]), strict=rng.random() < .2 and not damaged)

    def requires(self, revs, ask, caching, nl, damage, size, strict):
        if not revs or nl not in (b'\n', b'\r\n', b'\r') or size < 1 or damage >= 0 and (len(revs) != 1 or strict):
            return False
        for r in revs:
            if r['kind'] not in ('table', 'stream', 'hybrid') or damage >= 0 and r['kind'] != 'table' or set(r['gens']) != set(r['objs']):
                return False
            if not all(0 <= g <= 65535 for g in r['gens'].values()):
                return False
            for i, (how, v) in r['objs'].items():
                if not 2 <= i < 90 or how not in ('plain', 'packed', 'stream', 'open') or how == 'open' and b'endstream' in v or (type(v) is not bytes if how in ('stream', 'open') else not O.good_tree(v)) or v[:1] == ('ref',):
                    return False
        return all(0 <= i < 90 for i in ask)

    def build(self, revs, nl, damage):
        w = Writer()
        cat = w.add(1, 0, b'<< /Type /Catalog >>', nl)
        prev, newest = None, {1: ('plain', ('dict', [('Type', ('name', 'Catalog'))]), 0)}
        for n, r in enumerate(revs):
            entries, inner = ({1: ('n', cat, 0)} if n == 0 else {}), {}
            stmid = 90 + n
            pk = [i for i, (how, _) in r['objs'].items() if how == 'packed']
            for i, (how, v) in r['objs'].items():
                g = r['gens'][i] if how != 'packed' else 0
                newest[i] = (how, v, g)
                if how == 'plain':
                    entries[i] = ('n', w.add(i, g, write_tree(v, n), nl), g)
                elif how == 'stream':
                    entries[i] = ('n', w.add(i, g, w.stream(b'/K %d' % i, v, nl), nl), g)
                elif how == 'open':
                    entries[i] = ('n', w.add(i, g, w.stream(b'/K %d' % i, v, nl if i % 2 else b'', False).replace(b'>>stream', b'>>\nstream\n', 1) if not i % 2 else w.stream(b'/K %d' % i, v, nl, False), nl), g)
                    newest[i] = ('open', v + (nl if i % 2 else b''), g)
                else:
                    inner[i] = ('c', stmid, pk.index(i))
            if pk:
                bodies = [write_tree(r['objs'][i][1]) for i in pk]
                offs = [sum(len(b) + 1 for b in bodies[:k]) for k in range(len(pk))]
                head = b' '.join(b'%d %d' % x for x in zip(pk, offs)) + b' '
                body = head + b' '.join(bodies)
                entries[stmid] = ('n', w.add(stmid, 0, w.stream(b'/Type /ObjStm /N %d /First %d' % (len(pk), len(head)), body, nl), nl), 0)
            tr = b'/Root 1 0 R' + (b' /Prev %d' % prev if prev else b'')
            if r['kind'] == 'stream':
                prev = w.xrefstream(80 + n, {**entries, **inner}, tr, None, True, 'none', nl)
            else:
                q = w.xrefstream(80 + n, inner, b'', None, True, 'flate', nl) if pk and damage < 0 else None
                prev = w.table(entries, tr + b' /Size 99' + (b' /XRefStm %d' % q if q is not None else b''), b' \n', nl)
            self.good = prev
            self.before = w.pos()
            w.finish(prev, nl)
        data = bytes(w.buf)
        if damage >= 0:
            self.at = at = damage % (len(data) + 20)
            data = data[:self.before] + b'startxref' + nl + b'%d' % at + nl + b'%%EOF' + nl
        return data, newest

    def run(self, revs, ask, caching, nl, damage, size, strict):
        data, self.newest = self.build(revs, nl, damage)
        self.data = data
        st = self.mod('pdfmajor.utils').settings
        t = O.Trees()

        def go():
            p = self.mod(P).PDFParser(mkfile(data))
            p.BUFSIZ = size
            doc = self.mod(D).PDFDocument(p, caching=caching)
            out = []
            for i in [1] + ask:
                try:
                    x = doc.getobj(i)
                except self.mod(D).PDFObjectNotFound:
                    out.append('none')
                    continue
                if type(x).__name__ == 'PDFStream':
                    out.append((dict(x.attrs), x.rawdata, x.objid, x.genno))
                else:
                    out.append(t.seen(x))
                if caching and doc.getobj(i) is not x:
                    out.append('another object the second time')
            return out
        old, st.STRICT = st.STRICT, strict
        try:
            return self.outcome(go)
        finally:
            st.STRICT = old

    def ensures(self, out, revs, ask, **kw):
        t = O.Trees()
        want = []
        for i in [1] + ask:
            if i not in self.newest:
                want.append('none')
                continue
            how, v, g = self.newest[i]
            want.append(({'K': i, 'Length': len(v)}, v, i, g) if how == 'stream' else ({'K': i}, v, i, g) if how == 'open' else t.expect(v, 'object'))
        self.want = want
        return [('the newest version of every object', out[0] == 'ok' and ceq(out[1], want))]

    def explain(self, out, **kw):
        return 'wanted %r; file %r' % (self.want, self.data)


probes = [Documents()]
