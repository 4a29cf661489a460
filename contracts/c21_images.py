"""Saved images: the file of an image holds its samples."""
import io, os, struct, tempfile, zlib
from vc.contract import *
from .interp import *

BW = 'pdfmajor.BMPWriter'
IM = LAY + '.LTImage'
COMPONENTS = {1: 1, 8: 1, 24: 3}


def little(b, at, n):
    """the little-endian number of n bytes at a position"""
    return sum(AT(b, at + i) * 256 ** i for i in range(n))


def linesize(bits, w):
    """bytes of a line of a bitmap: whole groups of four"""
    return ((w * bits + 7) // 8 + 3) // 4 * 4


# ------------------------------------------------------------------ files
def bitmap(data):
    """a bitmap file, by the book: (bits, palette, rows from the top)"""
    assert data[:2] == b'BM'
    size, off = struct.unpack('<I4xI', data[2:14])
    n, w, h, planes, bits, compression, _, _, _, used, _ = struct.unpack('<IiiHHIIIIII', data[14:54])
    assert n == 40 and planes == 1 and compression == 0 and h > 0 and w > 0 and size == len(data), 'header'
    colours = 2 ** bits if bits < 24 else 0
    assert used in (0, colours) and off == 54 + 4 * colours
    palette = [data[54 + 4 * i:57 + 4 * i] for i in range(colours)]
    step = (w * bits + 31) // 32 * 4
    assert len(data) == off + step * h
    rows = []
    for y in range(h):
        r = data[off + step * (h - 1 - y):][:step]
        if bits == 1:
            rows.append([palette[r[x // 8] >> 7 - x % 8 & 1] for x in range(w)])
        elif bits == 8:
            rows.append([palette[v] for v in r[:w]])
        else:
            rows.append([r[3 * x:3 * x + 3] for x in range(w)])
    # blue, green, red
    return [[tuple(p[::-1]) for p in r] for r in rows]


def pixels(data, w, h, bits, gray):
    """red, green and blue of the samples, lines beginning with a byte; samples beyond the end of the data are 0"""
    step = (w + 7) // 8 if bits == 1 else w if gray else 3 * w
    data = data[:step * h].ljust(step * h, b'\0')
    rows = [data[y * step:(y + 1) * step] for y in range(h)]
    if bits == 1:
        return [[((r[x // 8] >> 7 - x % 8 & 1) * 255,) * 3 for x in range(w)] for r in rows]
    return [[(v,) * 3 for v in r] if gray else [tuple(r[3 * x:3 * x + 3]) for x in range(w)] for r in rows]


class Doc:
    """indirect objects"""
    def __init__(self):
        self.objs = {}

    def getobj(self, n):
        return self.objs[n]


SPACES = [None, 'DeviceGray', 'G', 'DeviceRGB', 'RGB', 'DeviceCMYK', 'CMYK', ('DeviceGray',), ('DeviceRGB',), ('ICCBased',), ('Indexed',), 'Pattern']
GRAY, COLOUR = ('DeviceGray', 'G', ('DeviceGray',)), ('DeviceRGB', 'RGB', ('DeviceRGB',))


class Images(Contract):
    """the file saved of an image: JPEG data as they are, bitmaps with the samples, else the decoded data"""
    name = 'saved images'
    target = [IM + ':LTImage.save_image', IM + ':LTImage.__init__', BW + ':BMPWriter.write_all', BW + ':BMPWriter.write_line', BW + ':BMPWriter.__init__']
    search_n = 2500

    def gen(self, rng):
        w, h = rng.choice([1, 2, 3, 5, 8, 9, 16, 33]), rng.choice([1, 2, 3, 7])
        bits = rng.choice([1, 1, 8, 8, 8, 8, None, 2, 4, 16])
        space = rng.choice(SPACES)
        n = h * max(1, (w * (3 if space in COLOUR else 4 if space in ('CMYK', 'DeviceCMYK') else 1) * (bits or 1) + 7) // 8)
        data = bytes(rng.choice([0, 255, 1, 0x80, 0x5a, rng.randrange(256)]) for _ in range(max(0, n + rng.choice([0, 0, 0, 0, -1, 3]))))
        filters = tuple(rng.choice(['Flate', 'A85', 'AHx']) for _ in range(rng.choice([0, 0, 1, 2])))
        if rng.random() < .2:
            filters += ('DCT',)
        keys = rng.choice(['short', 'long'])
        return dict(w=w, h=h, bits=bits, space=space, data=data, filters=filters, short=keys == 'short', indirect=tuple(k for k in 'whbcf' if rng.random() < .15),
                    single=rng.random() < .5, secret=rng.random() < .2, file_name=rng.choice([None, 'x', 'a.b']), times=rng.choice([1, 1, 2]), look=rng.random() < .2, box=(0, 0, rng.choice([1, 20.5, 300]), rng.choice([1, 7.25, 200])))

    def requires(self, w, h, bits, space, data, filters, short, indirect, single, secret, file_name, times, look, box):
        return (1 <= w <= 100 and 1 <= h <= 50 and bits in (None, 1, 2, 4, 8, 16) and space in SPACES and all(f in ('Flate', 'A85', 'AHx', 'DCT') for f in filters) and 'DCT' not in filters[:-1]
                and (not filters or filters[-1] != 'DCT' or space not in ('DeviceCMYK', 'CMYK')) and not (bits in (None, 1) and (space in COLOUR or space in ('CMYK', 'DeviceCMYK')) and filters[-1:] != ('DCT',))
                and all(k in 'whbcf' for k in indirect) and (file_name is None or file_name in ('x', 'a.b')) and 1 <= times <= 3 and len(box) == 4 and box[0] < box[2] and box[1] < box[3])

    def stream(self, w, h, bits, space, data, filters, short, indirect, single, secret, **_):
        import base64
        m = self.mod('pdfmajor.parser.PDFStream')
        LIT = self.mod('pdfmajor.parser.PSStackParser').LIT
        doc = Doc()

        def put(k, v):
            if k in indirect:
                doc.objs[len(doc.objs) + 1] = v
                return m.PDFObjRef(doc, len(doc.objs), 0)
            return v
        for f in reversed(filters):
            data = zlib.compress(data) if f == 'Flate' else base64.a85encode(data) + b'~>' if f == 'A85' else data.hex().encode() + b'>' if f == 'AHx' else data
        lit = lambda f: LIT({'Flate': ('Fl', 'FlateDecode'), 'A85': ('A85', 'ASCII85Decode'), 'AHx': ('AHx', 'ASCIIHexDecode'), 'DCT': ('DCT', 'DCTDecode')}[f][not short])
        key = lambda a, b: a if short else b
        attrs = {key('W', 'Width'): put('w', w), key('H', 'Height'): put('h', h)}
        if bits is not None:
            attrs[key('BPC', 'BitsPerComponent')] = put('b', bits)
        if space is not None:
            attrs[key('CS', 'ColorSpace')] = put('c', [LIT(space[0]), 7] if type(space) is tuple and space[0] in ('ICCBased', 'Indexed') else [LIT(space[0])] if type(space) is tuple else LIT(space))
        if filters:
            attrs[key('F', 'Filter')] = put('f', lit(filters[0]) if len(filters) == 1 and single else [lit(f) for f in filters])
        s = m.PDFStream(attrs, data[::-1] if secret else data, (lambda objid, genno, d, attrs=None: d[::-1]) if secret else None)
        s.set_objid(3, 0)
        return s

    def run(self, w, h, bits, space, data, filters, short, indirect, single, secret, file_name, times, look, box):
        s = self.stream(w, h, bits, space, data, filters, short, indirect, single, secret)
        d = tempfile.mkdtemp()

        def go():
            i = self.mod(LAY).LTImage('im', s, self.mod('pdfmajor.utils').Bbox(*box))
            r = [i.srcsize, i.bits]
            if look:
                s.get_data()
            for _ in range(times):
                p = i.save_image(d, file_name)
                with open(p, 'rb') as f:
                    r.append((os.path.dirname(p) == d, os.path.basename(p), f.read()))
            return r
        try:
            return self.outcome(go)
        finally:
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            os.rmdir(d)

    def ensures(self, out, w, h, bits, space, data, filters, short, indirect, single, secret, file_name, times, look, box):
        if out[0] != 'ok':
            return [('no exception', False)]
        size, b = out[1][:2]
        r = [('size', size == (w, h)), ('bits', b == (bits or 1))]
        for here, name, got in out[1][2:]:
            stem, ext = os.path.splitext(name)
            r.append(('where', here and stem.startswith(file_name or 'im')))
            gray = space in GRAY or (bits or 1) == 1
            if filters[-1:] == ('DCT',):
                r += [('a JPEG file', ext == '.jpg'), ('its data', got == data)]
            elif (bits or 1) == 1 or bits == 8 and (gray or space in COLOUR):
                try:
                    rows = bitmap(got)
                except Exception as e:
                    return r + [('a bitmap (%s)' % e, False)]
                r += [('a bitmap file', ext == '.bmp'), ('the size in the name', stem.endswith('.w%dh%d' % (w, h))), ('the samples', rows == pixels(data, w, h, bits or 1, gray))]
            else:
                r += [('a data file', ext == '.img'), ('the layout in the name', stem.endswith('.b%dw%dh%d' % (bits, w, h))), ('the data', got == data)]
        return r


probes = [Images()]


# ------------------------------------------------------------------ proofs
class Sink:
    """a file: what was written, where"""
    _vc_heap = True

    def __init__(self, data=b''):
        self.data = data            # up to the last piece that is not constant
        self.tail = b''
        self.pos = None
        self.seeks = []

    def write(self, x):
        if self.pos is not None:
            self.seeks.append((self.pos, x))
        elif type(x) is bytes:
            self.tail += x
        else:
            self.data = self.data + self.tail + x
            self.tail = b''

    def seek(self, p, whence=0):
        self.pos = p

    def tell(self):
        return LEN(self.data) + len(self.tail) if self.pos is None else self.pos


class Header(Contract):
    """the header of a bitmap of any size"""
    internal = True
    budget_s = 200
    target = [BW + ':BMPWriter.__init__', BW + ':align32']

    def __init__(self, bits):
        self.bits = bits
        self.name = 'header of a bitmap of %d bits' % bits

    def inputs(self):
        return dict(w=TInt, h=TInt)

    def requires(self, w, h):
        return AND(w >= 1, h >= 1, w < 2 ** 20, h < 2 ** 20, linesize(self.bits, w) * h < 2 ** 31 - 2000)

    def run(self, w, h):
        self.f = Sink()
        return self.outcome(lambda: self.mod(BW).BMPWriter(self.f, self.bits, w, h))

    def ensures(self, out, w, h):
        if out[0] != 'ok':
            return [('no exception', False)]
        f, o = self.f, out[1]
        colours = {1: 2, 8: 256, 24: 0}[self.bits]
        start = 54 + 4 * colours
        ls = linesize(self.bits, w)
        HAVE(EQ(o.linesize, ls), 'bytes of a line')
        total = start + o.linesize * h

        def at(i):
            if type(f.data) is bytes:
                return (f.data + f.tail)[i]
            return AT(f.data, i) if i < 54 else f.tail[i - 54]

        def number(i, n, v):
            """the little-endian number of n bytes at a position"""
            return AND(0 <= v, v < 256 ** n, *[EQ(at(i + k), v // 256 ** k % 256 if k < n - 1 else v // 256 ** k) for k in range(n)])
        HAVE(EQ(LEN(f.data) + len(f.tail), start), 'length')
        if type(f.data) is not bytes:
            HAVE(EQ(LEN(f.data), 54), 'length of the header')
        return [('magic', AND(EQ(at(0), 66), EQ(at(1), 77))), ('size of the file', number(2, 4, total)), ('start of the data', number(10, 4, start)), ('size of the header', number(14, 4, 40)),
                ('width', number(18, 4, w)), ('height', number(22, 4, h)), ('planes', number(26, 2, 1)), ('bits', number(28, 2, self.bits)), ('no compression', number(30, 4, 0)),
                ('first byte', EQ(o.pos0, start)), ('end', EQ(o.pos1, total))] + [('colours', AND(*[EQ(at(54 + 4 * i + j), i * 255 // (colours - 1)) for i in range(colours) for j in range(3)]))]


class WriteLine(Contract):
    """a line of a bitmap is complete and where the line belongs, from the bottom"""
    internal = True
    name = 'a line of a bitmap'
    target = [BW + ':BMPWriter.write_line']

    def inputs(self):
        return dict(bits=TInt, y=TInt, h=TInt, ls=TInt, start=TInt, data=TBytes)

    def requires(self, bits, y, h, ls, start, data):
        return AND(0 <= y, y < h, ls >= 1, LEN(data) <= ls, start >= 0)

    def run(self, bits, y, h, ls, start, data):
        m = self.mod(BW)
        f = Sink()
        f.pos = start
        o = m.BMPWriter.__new__(m.BMPWriter)
        o.fp, o.bits, o.height, o.linesize, o.datasize, o.pos0, o.pos1 = f, bits, h, ls, ls * h, start, start + ls * h
        r = self.outcome(lambda: o.write_line(y, data))
        return (r[0], f.seeks if r[0] == 'ok' else r[1])

    def ensures(self, out, bits, y, h, ls, start, data):
        if out[0] != 'ok':
            return [('no exception', False)]
        if len(out[1]) != 1:
            return [('one piece', False)]
        (p, d), = out[1]
        return [('where the line begins', EQ(p, start + ls * h - (y + 1) * ls)), ('a whole line', EQ(LEN(d), ls)), ('begins with the data', EQ(SL(d, None, LEN(data)), data)), ('the rest is 0', FORALL(ls - LEN(data), lambda i: EQ(AT(d, LEN(data) + i), 0)))]


class Third:
    """every third byte of a line from a place"""
    def __init__(self, at, k, n):
        self.at, self.k, self.n = at, k, n


class Bmp:
    """a bitmap being written"""


class Line:
    """a line as a bytearray: byte p is at(p)"""
    _vc_heap = True

    def __init__(self, s):
        self.s = s
        self.moved = {}

    def at(self, p):
        r = AT(self.s, p)
        for k, t in self.moved.items():
            r = ITE(EQ(p % 3, k), t.at(p - k + t.k), r)
        return r

    def __getitem__(self, i):
        if type(i) is slice and i.step == 3 and i.stop is None and i.start in (None, 0, 1, 2):
            s = self.s
            assert not self.moved
            return Third(lambda p: AT(s, p), i.start or 0, LEN(s))
        raise Unsupported('item of a bytearray')

    def __setitem__(self, i, t):
        if type(i) is slice and i.step == 3 and i.stop is None and i.start in (None, 0, 1, 2) and type(t) is Third:
            k = i.start or 0
            # as many bytes as there are
            HAVE(EQ((t.n - t.k + 2) // 3, (LEN(self.s) - k + 2) // 3), 'as many bytes are put in a line as taken')
            self.moved[k] = t
            return
        raise Unsupported('store into a bytearray')


class WriteAll(Contract):
    """every line of a bitmap is written once, with the samples of that line, blue first, 0 where there is no data"""
    internal = True
    budget_s = 300
    target = [BW + ':BMPWriter.write_all']

    def inv(v):
        g = v.ghost
        return [('lines so far', EQ(g.n, v._k)), ('place in the data', EQ(v.i, v._k * g.step))]

    loops = [LoopSpec(where='write_all#0', inv=inv)]

    def __init__(self, bits):
        self.bits = bits
        self.name = 'lines of a bitmap of %d bits' % bits

    def inputs(self):
        return dict(w=TInt, h=TInt, data=TBytes, p=TInt)

    def step(self, w):
        return (w + 7) // 8 if self.bits == 1 else w if self.bits == 8 else w * 3

    def requires(self, w, h, data, p):
        return AND(w >= 1, h >= 1, 0 <= p, p < self.step(w))

    def run(self, w, h, data, p):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        step = self.step(w)
        g.n, g.step = 0, step
        ctx().ghost['ghost'] = g
        m = self.mod(BW)

        class Stream:
            def get_data(self):
                return data

        def init(fp, bits, width, height):
            HAVE(AND(EQ(bits, self.bits), EQ(width, w), EQ(height, h)), 'header')
            o = Bmp()
            o.write_line = line
            return o

        def line(y, row):
            HAVE(AND(EQ(y, g.n), 0 <= y, y < h), 'lines in order')
            at = y * step + (p + 2 - p % 3 * 2 if self.bits == 24 else p)
            got = row.at(p) if type(row) is Line else AT(row, p)
            n = LEN(row.s) if type(row) is Line else LEN(row)
            HAVE(EQ(n, step), 'length of a line')
            HAVE(EQ(got, ITE(at < LEN(data), AT(data, at), 0)), 'byte of a line')
            g.n = g.n + 1
        hooks.overrides = {**hooks.overrides, BW + ':BMPWriter': init, 'builtins:bytearray': Line}
        BMP = m.BMPWriter
        r = self.outcome(lambda: hooks.call(BMP.write_all, 'fp', Stream(), self.bits, w, h, step))
        return (r[0], g.n if r[0] == 'ok' else r[1])

    def ensures(self, out, w, h, data, p):
        if out[0] != 'ok':
            return [('no exception', False)]
        return [('every line', EQ(out[1], h))]


class Save(Contract):
    """which file is saved of an image of any size and depth, and what is written to it"""
    internal = True
    target = [IM + ':LTImage.save_image', IM + ':LTImage.__init__']

    def __init__(self, jpeg, space, named):
        self.jpeg, self.space, self.named = jpeg, space, named
        self.name = 'saving an image (%s, %s%s)' % ('JPEG' if jpeg else 'not JPEG', space, ', named' if named else '')

    def inputs(self):
        return dict(w=TInt, h=TInt, bits=TInt, data=TBytes)

    def requires(self, w, h, bits, data):
        return AND(w >= 1, h >= 1, bits >= 1)

    def run(self, w, h, bits, data):
        m = self.mod('pdfmajor.parser.PDFStream')
        LIT = self.mod('pdfmajor.parser.PSStackParser').LIT
        self.wrote, self.opened, self.closed = [], [], []

        class Stream:
            def get_any(self, names, default=None):
                return {'W': w, 'Width': w, 'H': h, 'Height': h, 'BPC': bits, 'BitsPerComponent': bits, 'CS': space, 'ColorSpace': space}.get(names[0], default)

            def get_filters(self):
                return [(LIT('FlateDecode'), None), (LIT('DCTDecode'), None)] if jpeg else [(LIT('FlateDecode'), None)]

            def get_data(self):
                return data
        space, jpeg, me = self.space and LIT(self.space), self.jpeg, self
        stream = Stream()

        class File:
            def write(self, x):
                me.wrote.append(('data', x))

            def __enter__(self):
                return self

            def __exit__(self, *a):
                me.closed.append(True)

        def opened(path, mode='r'):
            self.opened.append((path, mode))
            return File()
        hooks.overrides = {**hooks.overrides, '_io:open': opened, 'io:open': opened, 'posixpath:join': lambda *a: a, BW + ':BMPWriter.write_all': lambda *a: self.wrote.append(('bitmap',) + a[-6:])}
        self.stream = stream
        return self.outcome(lambda: hooks.call(self.mod(LAY).LTImage, 'im', stream, self.mod('pdfmajor.utils').Bbox(0, 0, 1, 1)).save_image('dir', 'x' if self.named else None))

    def ensures(self, out, w, h, bits, data):
        if out[0] != 'ok':
            return [('no exception', False)]
        if len(self.opened) != 1:
            return [('one file', False)]
        path, mode = self.opened[0]
        r = [('closed', len(self.closed) == 1), ('to be written', mode == 'wb'), ('its path is given back', out[1] is path or EQ(out[1], path)), ('in the directory', type(path) is not tuple or path[0] == 'dir')]
        kind = lambda k, *a: len(self.wrote) == 1 and self.wrote[0][0] == k and AND(*[EQ(x, y) for x, y in zip(self.wrote[0][1:], a)])
        gray, rgb = self.space in ('DeviceGray', 'G'), self.space in ('DeviceRGB', 'RGB')
        bitmap = lambda b, n: len(self.wrote) == 1 and self.wrote[0][0] == 'bitmap' and self.wrote[0][2] is self.stream and AND(*[EQ(x, y) for x, y in zip(self.wrote[0][3:], (b, w, h, n))])
        if self.jpeg:
            return r + [('the data', kind('data', data))]
        deep = bitmap(8, w) if gray else bitmap(24, 3 * w) if rgb else kind('data', data)
        return r + [('a bitmap of 1 bit', IMP(EQ(bits, 1), bitmap(1, (w + 7) // 8))), ('a bitmap of 8 or 24 bits', IMP(EQ(bits, 8), deep)), ('the data', IMP(AND(NOT(EQ(bits, 1)), NOT(EQ(bits, 8))), kind('data', data)))]


contracts = [Header(b) for b in (1, 8, 24)] + [WriteLine()] + [WriteAll(b) for b in (1, 8, 24)] + [Save(j, s, n) for j, s, n in ((True, 'DeviceRGB', True), (False, 'DeviceGray', False), (False, 'G', True), (False, 'DeviceRGB', True), (False, 'RGB', False), (False, 'DeviceCMYK', True), (False, 'Pattern', True))]
