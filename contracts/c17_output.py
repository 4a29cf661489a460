"""Data output: JSON, YAML, XML and text carry every page, item and value."""
import json, os, tempfile
from vc.contract import *
from .interp import *

CV = 'pdfmajor.converters'
FORMATS = ('json', 'yaml', 'xml', 'text')

# ------------------------------------------------------------------ whole documents
KINDS = ('LTCurve', 'LTRect', 'LTLine', 'LTHorizontalLine', 'LTVerticalLine')
METHODS = dict(m=1, l=1, c=3, v=2, y=2, h=0)
NAMES = dict(m='MOVE_TO', l='LINE_TO', c='CURVE_BOTH_TO', v='CURVE_NEXT_TO', y='CURVE_FIRST_TO', h='CLOSE_PATH')


class DocFont(Face):
    font_weight = None
    italic_angle = 0

    def __init__(self, descriptor):
        self.descriptor = descriptor
        self.fontname = descriptor.get('face', 'face')


class Stream:
    def get_any(self, names, default=None):
        return default


def build(mod, spec):
    """the item described by spec, of the real classes"""
    L, S, U = mod(LAY), mod(ST), mod('pdfmajor.utils')
    kind = spec[0]
    if kind in KINDS:
        _, box, stroke, fill, paths = spec
        pts = lambda ps: [mod(ST + '.Curves').CurvePoint((1, 0, 0, 1, 0, 0), *p) for p in ps]
        return getattr(L, kind)(linewidth=1, paths=[S.CurvePath(S.CurvePath.METHOD(k), *pts(ps)) for k, ps in paths], bbox=U.Bbox(*box), stroke=colour(mod, stroke), fill=colour(mod, fill), evenodd=False)
    if kind == 'x':
        x = L.LTXObject('x', U.Bbox(*spec[1]), None, {}, (1, 0, 0, 1, 0, 0))
        for c in spec[2]:
            x.add(build(mod, c))
        return x
    if kind == 'img':
        return L.LTImage(spec[2], Stream(), U.Bbox(*spec[1]))
    _, box, blocks = spec
    t = L.LTTextBlock(*box)
    for chars, col, desc in blocks:
        state = mod(ST + '.PDFTextState').PDFTextState()
        state.font = DocFont(dict(desc))
        t.add(L.LTCharBlock([(c, ((b[0], b[1]), (b[2], b[3]))) for c, b in chars], state, colour(mod, col)))
    return t


def colour(mod, c):
    S = mod(ST)
    LIT = mod('pdfmajor.parser.PSStackParser').PSLiteral
    if c is None:
        return S.PDFColor(None)
    name, vals = c
    return S.PDFColor(S.PDFColorSpace(name, len(vals)), *[LIT(v[1:]) if type(v) is str else v for v in vals])


class Page:
    """a page of given items"""
    def __init__(self, num, w, h, items):
        self.page_num, self.width, self.height, self.items = num, w, h, items

    def __iter__(self):
        return iter(self.items)


def num_of(x):
    return None if x is None or x in ('None', 'null', '') else float(x)


def box_of(d):
    return tuple(num_of(d[k]) for k in ('x0', 'y0', 'x1', 'y1'))


def colour_of(d, k):
    return (d[k]['type'], tuple(str(v) for v in d[k]['value'])) if d.get(k) is not None else None


OWN = ('size', 'x0', 'x1', 'y0', 'y1', 'color', 'text', 'color-type', 'color-values')


def from_tree(d):
    """the item a JSON or YAML object describes"""
    t = d['type']
    if t in ('curve', 'rect', 'line'):
        return (t, box_of(d), colour_of(d, 'stroke'), colour_of(d, 'fill'), tuple((p['type'], tuple((num_of(q['x']), num_of(q['y'])) for q in p['points'])) for p in d.get('paths', ())))
    if t == 'xobject':
        return (t, box_of(d), tuple(from_tree(c) for c in d['children']))
    if t == 'img':
        return (t, box_of(d), str(d['src']))
    assert t == 'text-block', t
    return (t, box_of(d), tuple((b['text'], box_of(b), num_of(b['size']), colour_of(b, 'color'), tuple((str(k), str(v)) for k, v in b.items() if k not in OWN)) for b in d['char_blocks']))


def from_xml(e):
    a = e.attrib
    col = lambda p: (a[p + '-type'], tuple(a[p + '-values'].split(',')) if a[p + '-values'] else ()) if p + '-type' in a else None
    if e.tag in ('curve', 'rect', 'line'):
        return (e.tag, box_of(a), col('stroke'), col('fill'), tuple((p.attrib['type'], tuple((num_of(q.attrib['x']), num_of(q.attrib['y'])) for q in p)) for p in e))
    if e.tag == 'xobject':
        return ('xobject', box_of(a), tuple(from_xml(c) for c in e))
    if e.tag == 'img':
        return ('img', box_of(a), a['src'])
    assert e.tag == 'text-block'
    return (e.tag, box_of(a), tuple((tuple((c.text or '', box_of(c.attrib)) for c in b), box_of(b.attrib), num_of(b.attrib['size']), (lambda a: (a['color-type'], tuple(a['color-values'].split(',')) if a['color-values'] else ()) if 'color-type' in a else None)(b.attrib), tuple((k, v) for k, v in b.attrib.items() if k not in OWN)) for b in e))


def xml_text(s):
    """what XML can carry of a text"""
    return ''.join(c if c in '\t\n\r' or ' ' <= c < '\ud800' or '\ue000' <= c < '\ufffe' or c > '\uffff' else '\ufffd' for c in s)


class Documents(Contract):
    """a converted document, read back, has the pages and items of the document"""
    name = 'converted documents'
    target = [CV + ':convert_file'] + [CV + '.%s:convert_to_%s' % (f, f) for f in FORMATS] + [CV + '.json:' + f for f in ('render_page', 'render', 'place_text_block', 'place_char_block', 'place_curve')] + [CV + '.yaml:' + f for f in ('render_page', 'render', 'place_text_block', 'place_char_block', 'place_curve')] + [CV + '.xml:' + f for f in ('render_page', 'place_text_block', 'place_char_block', 'place_char', 'place_curve')] + [CV + '.writers.json:JSONMakerObject', CV + '.writers.json:JSONMakerArray', CV + '.writers.yaml:YAMLMakerObject', CV + '.writers.yaml:YAMLMakerArray', CV + '.writers.xml:XMLMaker']
    search_n = 1200

    def gen(self, rng):
        n = lambda: rng.choice([0, 1, -2, 10, .5, 100.25, -7.125, 300])
        box = lambda: (n(), n(), n(), n())
        txt = lambda: rng.choice(['a', 'b', ' ', 'fi', '"', '\\', '&', '<', '>', "'", '\n', '\t', '\r', '\x00', '\x1b', '\x7f', '\x85', '\xe9', '\u2028', '\u4e2d', '\U0001f600', '', ':', '#', '- ', '{', '&amp;', '1', 'true', '\ud800', '\ufffe', '\\u0041', ']]>'])
        name = lambda: rng.choice(['DeviceRGB', 'DeviceGray', 'CS0', 'A&B', 'x: y', 'a"b', "it's", '#1', 'a,b'][:8])
        col = lambda: None if rng.random() < .3 else (name(), tuple(rng.choice([0, 1, .5, '/P0', '/a&b', "/a'b"]) for _ in range(rng.randrange(4))))
        desc = lambda: tuple({rng.choice(['FontName', 'Flags', 'Type', 'FontFile2', 'FontBBox', 'StemV', 'ItalicAngle', 'text', 'x0', 'size', 'Size', 'a"b', 'k: v', 'C<d', 'X#1', 'CharSet', b'\xe9']): rng.choice([0, 32, -12.5, 'Arial', 'A"B', 'a: b', '[1]', 'x<y&z', '\\', '', "it's", '\x01', 'true', '- x']) for _ in range(rng.randrange(4))}.items())

        def item(depth):
            k = rng.randrange(5 if depth else 4)
            if k == 0:
                kind = rng.choice(KINDS + ('LTCurve',) * 3)
                return (kind, box(), col(), col(), tuple((m, tuple((n(), n()) for _ in range(METHODS[m]))) for m in (rng.choice('mlcvyh') for _ in range(rng.randrange(4)))))
            if k == 1:
                return ('img', box(), '140' + str(rng.randrange(9)))
            if k == 4:
                return ('x', box(), tuple(item(depth - 1) for _ in range(rng.randrange(3))))
            blocks = tuple((tuple((txt(), (lambda b: (min(b[0], b[2]), min(b[1], b[3]), max(b[0], b[2]), max(b[1], b[3])))(box())) for _ in range(rng.randrange(1, 5))), col(), desc()) for _ in range(rng.choice([0, 1, 1, 2])))
            return ('text', box() if blocks else (None,) * 4, blocks)
        pages = tuple((n(), n(), tuple(item(2) for _ in range(rng.randrange(4)))) for _ in range(rng.randrange(1, 3)))
        return dict(fmt=rng.choice(FORMATS), pages=pages, codec=rng.choice(['utf-8', 'utf-8', 'ascii', 'latin-1']))

    def requires(self, fmt, pages, codec='utf-8'):
        number = lambda x: type(x) in (int, float) and abs(x) < 1e6 and (x == 0 or abs(x) >= .01)
        box = lambda b: len(b) == 4 and all(number(x) for x in b)
        text = lambda s: type(s) is str
        col = lambda c: c is None or len(c) == 2 and text(c[0]) and c[0] and all(number(v) or text(v) and v[:1] == '/' and ',' not in v for v in c[1])

        def item(s):
            if type(s) is not tuple or not s:
                return False
            if s[0] in KINDS:
                return len(s) == 5 and box(s[1]) and col(s[2]) and col(s[3]) and all(k in METHODS and len(ps) == METHODS[k] and all(len(p) == 2 and all(number(x) for x in p) for p in ps) for k, ps in s[4])
            if s[0] == 'x':
                return len(s) == 3 and box(s[1]) and all(item(c) for c in s[2])
            if s[0] == 'img':
                return len(s) == 3 and box(s[1]) and text(s[2]) and s[2].isdigit()
            return s[0] == 'text' and len(s) == 3 and (box(s[1]) if s[2] else s[1] == (None,) * 4) and all(
                len(b) == 3 and b[0] and all(len(c) == 2 and text(c[0]) and box(c[1]) and c[1][0] <= c[1][2] and c[1][1] <= c[1][3] for c in b[0]) and col(b[1]) and len(dict(b[2])) == len(b[2]) and all((text(k) or type(k) is bytes) and k and k != 'color' and (text(v) or number(v)) for k, v in b[2]) for b in s[2])
        return fmt in FORMATS and codec in ('utf-8', 'ascii', 'latin-1') and len(pages) > 0 and all(len(p) == 3 and number(p[0]) and number(p[1]) and all(item(i) for i in p[2]) for p in pages)

    def run(self, fmt, pages, codec='utf-8'):
        PI = self.mod('pdfmajor.interpreter').PDFInterpreter
        real = PI.__iter__
        fd, path = tempfile.mkstemp('.' + fmt)
        os.close(fd)
        PI.__iter__ = lambda s: iter([Page(i, w, h, [build(self.mod, c) for c in items]) for i, (w, h, items) in enumerate(pages)])
        try:
            r = self.outcome(lambda: self.mod(CV).convert_file('in.pdf', path, out_type=fmt, codec=codec))
            with open(path, 'rb') as f:
                return r if r[0] != 'ok' else ('ok', f.read())
        finally:
            PI.__iter__ = real
            os.remove(path)

    # -- expected
    def want(self, fmt, pages, codec='utf-8'):
        norm = lambda b: b if b[0] is None else (min(b[0], b[2]), min(b[1], b[3]), max(b[0], b[2]), max(b[1], b[3]))
        st = lambda s: xml_text(s) if fmt == 'xml' else s

        def col(c):
            if c is None:
                return None
            vals = tuple(st(v[1:] if type(v) is str else str(v)) for v in c[1])
            return (st(c[0]), vals)

        def item(s):
            k = s[0]
            if k in KINDS:
                t = 'curve' if k == 'LTCurve' else 'rect' if k == 'LTRect' else 'line'
                return (t, norm(s[1]), col(s[2]), col(s[3]), tuple((NAMES[m], ps) for m, ps in s[4]) if t == 'curve' else ())
            if k == 'x':
                return ('xobject', norm(s[1]), tuple(item(c) for c in s[2]))
            if k == 'img':
                return ('img', norm(s[1]), s[2])
            blocks = []
            for chars, c, desc in s[2]:
                bs = [b for _, b in chars]
                b = tuple(g(x for b in bs for x in (b[i], b[i + 2])) for i, g in ((0, min), (1, min), (0, max), (1, max)))
                text = tuple((st(t), norm(x)) for t, x in chars) if fmt == 'xml' else ''.join(t for t, _ in chars)
                blocks.append((text, b, b[3] - b[1], col(c), tuple((str(k), str(v)) for k, v in desc if k != 'Type' and 'FontFile' not in str(k) and k not in OWN)))
            return ('text-block', norm(s[1]), tuple(blocks))
        return [(w, h, tuple(item(c) for c in items)) for w, h, items in pages]

    def text(self, items):
        return ''.join(''.join(t for b in s[2] for t, _ in b[0]) if s[0] == 'text' else self.text(s[2]) if s[0] == 'x' else '' for s in items)

    def ensures(self, out, fmt, pages, codec='utf-8'):
        if out[0] != 'ok':
            return [('no exception', False)]
        if fmt == 'text':
            want = ''.join('========== [ page %d ] ==========\n%s\n' % (i, self.text(p[2])) for i, p in enumerate(pages))
            return [('text', out[1] == want.encode(codec, 'replace'))]
        try:
            if fmt == 'xml':
                from xml.etree import ElementTree
                root = ElementTree.fromstring(out[1])
                ps = [p.attrib for p in root]
                got = [(num_of(p.attrib['width']), num_of(p.attrib['height']), tuple(from_xml(c) for c in p)) for p in root]
            else:
                if fmt == 'yaml':
                    import yaml
                    ps = yaml.safe_load(out[1])['pages']
                else:
                    ps = json.loads(out[1])['pages']
                got = [(num_of(p['width']), num_of(p['height']), tuple(from_tree(c) for c in p['children'])) for p in ps]
        except Exception as e:
            self.err = '%s: %s' % (type(e).__name__, e)
            return [('well-formed', False)]
        self.err = got
        want = self.want(fmt, pages)
        if fmt == 'xml':
            # names of the entries of a descriptor are rewritten; XML has no place for some of them
            want, got = ([(w, h, strip(c)) for w, h, c in x] for x in (want, got))
        return [('page numbers', [int(p['id']) for p in ps] == list(range(len(pages)))), ('pages and items', got == want)]

    def explain(self, out, **kw):
        return 'got %r\nwanted %r\noutput %r' % (getattr(self, 'err', None), self.want(**kw), out)


def strip(items):
    """without the descriptors"""
    return tuple((t[0], t[1], strip(t[2])) if t[0] == 'xobject' else (t[0], t[1], tuple(b[:4] for b in t[2])) if t[0] == 'text-block' else t for t in items)


class Options(Contract):
    """the options of a conversion reach the interpreter, whatever the format"""
    name = 'options of a conversion'
    target = [CV + ':convert_file'] + [CV + '.%s:convert_to_%s' % (f, f) for f in FORMATS + ('html',)]
    search_n = 200

    def gen(self, rng):
        o = {}
        for k, vs in (('maxpages', (0, 1, 7)), ('password', ('', 'pw', None)), ('caching', (True, False)), ('check_extractable', (True, False)), ('pagenos', ((0, 2), None)), ('ignore_bad_chars', (True, False))):
            if rng.random() < .5:
                o[k] = rng.choice(vs)
        return dict(fmt=rng.choice(FORMATS + ('html',)), options=o, way=rng.choice(['file', 'function']))

    def requires(self, fmt, options, way):
        return fmt in FORMATS + ('html',) and way in ('file', 'function')

    def run(self, fmt, options, way):
        import inspect
        PI = self.mod('pdfmajor.interpreter').PDFInterpreter
        init, it, got = PI.__init__, PI.__iter__, []

        def made(s, *a, **k):
            b = inspect.signature(init).bind(s, *a, **k)
            b.apply_defaults()
            got.append(dict(b.arguments))
        PI.__init__, PI.__iter__ = made, lambda s: iter([])
        d = tempfile.mkdtemp()
        try:
            path = os.path.join(d, 'out.' + fmt)
            if way == 'file':
                r = self.outcome(lambda: self.mod(CV).convert_file('in.pdf', path, out_type=fmt, **options))
            else:
                r = self.outcome(lambda: getattr(self.mod(CV), 'convert_to_' + fmt)('in.pdf', path, **options))
            return (r[0], got if r[0] == 'ok' else r[1])
        finally:
            PI.__init__, PI.__iter__ = init, it
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            os.rmdir(d)

    def ensures(self, out, fmt, options, way):
        if out[0] != 'ok':
            return [('no exception', False)]
        want = dict(dict(maxpages=0, password=None, caching=True, check_extractable=True, pagenos=None, ignore_bad_chars=False), **options)
        return [('one interpreter', len(out[1]) == 1), ('of the file', out[1][0]['input_file_path'] == 'in.pdf')] + [(k, out[1][0][k] == v) for k, v in want.items()]


class JsonFiles(Contract):
    """a tree of objects, lists, texts and numbers written member by member is read back the same"""
    name = 'JSON written by member'
    target = [CV + '.writers.json:JSONMaker', CV + '.writers.json:JSONMakerObject', CV + '.writers.json:JSONMakerArray']
    search_n = 1500

    def gen(self, rng):
        text = lambda: rng.choice(['a', 'b', '', '"', '\\', '\n', '\xe9', '\U0001f600', '{', ',', 'x y'])

        def tree(d):
            k = rng.randrange(6 if d else 3)
            if k == 0:
                return rng.choice([0, 1, -2, 1.5, 300])
            if k < 3:
                return text()
            if k < 5:
                return ('object', tuple({text(): tree(d - 1) for _ in range(rng.randrange(4))}.items()), k == 4 and rng.random() < .3)
            return ('array', tuple(tree(d - 1) for _ in range(rng.randrange(4))))
        return dict(tree=('object', tuple({text(): tree(3) for _ in range(rng.randrange(5))}.items()), False), codec=rng.choice(['utf-8', 'ascii', 'latin-1']))

    def requires(self, tree, codec):
        def good(t):
            if type(t) is tuple:
                if len(t) == 3 and t[0] == 'object':
                    return type(t[2]) is bool and len(dict(t[1])) == len(t[1]) and all(len(p) == 2 and type(p[0]) is str and good(p[1]) for p in t[1])
                return len(t) == 2 and t[0] == 'array' and all(good(x) for x in t[1])
            return type(t) in (str, int, float)
        return codec in ('utf-8', 'ascii', 'latin-1') and type(tree) is tuple and len(tree) == 3 and not tree[2] and good(tree)

    def plain(self, t):
        if type(t) is not tuple:
            return t
        return {k: self.plain(v) for k, v in t[1]} if t[0] == 'object' else [self.plain(v) for v in t[1]]

    def run(self, tree, codec):
        def put(o, key, t):
            if type(t) is not tuple:
                (o.string if type(t) is str else o.number)(*key, t)
            elif t[0] == 'array':
                with o.array(*key) as a:
                    for x in t[1]:
                        put(a, (), x)
            elif t[2]:
                o.place_object(*key, self.plain(t))
            else:
                with o.object(*key) as c:
                    for k, x in t[1]:
                        put(c, (k,), x)
        fd, path = tempfile.mkstemp('.json')
        os.close(fd)

        def go():
            with self.mod(CV + '.writers.json').JSONMaker(path, codec=codec) as o:
                for k, x in tree[1]:
                    put(o, (k,), x)
            with open(path, 'rb') as f:
                return json.loads(f.read().decode(codec))
        try:
            return self.outcome(go)
        finally:
            os.remove(path)

    def ensures(self, out, tree, codec):
        return [('read back', out == ('ok', self.plain(tree)))]


probes = [Documents(), Options(), JsonFiles()]
contracts = []


# ------------------------------------------------------------------ what the converters write, for items of any values and number
class Item:
    def __init__(self, t):
        self.t = t


TItem = TObj('item', TInt, Item, lambda o: o.t if type(o) is Item else None)
Items = TList(TItem)


class Char:
    """a character is its text"""
    def __init__(self, t):
        self.t = t

    def get_text(self):
        return self.t


TChar = TObj('char', TStr, Char, lambda o: o.t if type(o) is Char else None)
Texts = TList(TChar)
PAIR = TTuple(TReal, TReal)


class Point:
    def __init__(self, t):
        self.t = t
        self.x, self.y = t


def entries(o, *keys):
    """the values of a dict with exactly these keys, in any order"""
    if type(o).__name__ != 'VDict' or o.base is not None:
        return None
    d = {k: v for k, v in o.items()}
    return tuple(d[k] for k in keys) if set(d) == set(keys) else None


TPoint = TObj('point', PAIR, Point, lambda o: o.t if type(o) is Point else entries(o, 'x', 'y'))
SegT = TTuple(TStr, TList(TPoint))


class Name:
    def __init__(self, name):
        self.name = name


class Seg:
    """a segment of a path: of any method, with any points"""
    def __init__(self, t):
        self.t = t
        self.method = Name(t[0])

    @property
    def points(self):
        ctx().ghost['ghost'].seg = self.t[1]
        return self.t[1]


TSeg = TObj('segment', SegT, Seg, lambda o: o.t if type(o) is Seg else entries(o, 'type', 'points'))
Segs = TList(TSeg)


class Holder:
    """an item of the layout: named values, and a list of parts"""
    def __init__(self, parts=None, **kw):
        self.parts = parts
        for k, v in kw.items():
            setattr(self, k, v)

    def __iter__(self):
        return hooks.call(iter, self.parts)


class Node:
    """an object or element being written: its fields, and the lists of what is in it"""
    _vc_heap = True

    def __init__(self):
        self.fields, self.whole = [], None
        self.keys = set()

    def put(self, key, val):
        self.fields.append((key, val))

    # a JSON object, a YAML object
    number = string = write = place_object = lambda self, key, val: self.put(key, val)

    def array(self, key):
        a = Array()
        self.put(key, a)
        ctx().ghost['ghost'].array = a
        return Entered(a, lambda: None)


class Array:
    _vc_heap = True

    def __init__(self):
        self.items = LST()

    def add(self, x):
        self.items = self.items + LST(x)

    def object(self):
        n = Node()
        return Entered(n, lambda: self.add(n.whole))

    place_object = add


class Entered:
    def __init__(self, x, leave):
        self.x, self.leave = x, leave

    def __enter__(self):
        return self.x

    def __exit__(self, *e):
        self.leave()


def parts_inv(v):
    return [('the parts so far, in order', EQ(v.ghost.array.items, v.ghost.L[:v._k]))]


class Children(Contract):
    """an object lists its parts, all of them, in order"""
    internal = True
    budget_s = 200

    def __init__(self, fmt, fn, key, part, fields):
        self.fmt, self.fn, self.key, self.part, self.fields = fmt, fn, key, part, fields
        self.name = '%s of %s' % (fn, fmt)
        self.target = [CV + '.%s:%s' % (fmt, fn)]
        self.loops = [LoopSpec(inv=parts_inv, types={'*.items': Items})]

    def inputs(self):
        return dict(L=Items, **{f: TReal for f in self.fields})

    def item(self, L, f):
        m = self.mod(LAY)
        if self.fn == 'render':
            x = m.LTXObject('x', self.mod('pdfmajor.utils').Bbox(0, 0, 1, 1), None, {}, None)
            for k, v in f.items():
                setattr(x.bbox, k, v)
            x._objs = L
            return x
        return Holder(L, **f)

    def run(self, L, **f):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.L = L
        ctx().ghost['ghost'] = g
        m = self.mod(CV + '.' + self.fmt)
        top = Node()
        it = self.item(L, f)
        real = getattr(m, self.fn)

        def part(node, x):
            if x is it:
                return real(node, x)
            node.whole = x
        hooks.overrides = {**hooks.overrides, CV + '.%s:%s' % (self.fmt, self.part): part}
        r = self.outcome(lambda: real(top, it))
        return (r[0], top if r[0] == 'ok' else r[1])

    def ensures(self, out, L, **f):
        if out[0] != 'ok':
            return [('no exception', False)]
        d = dict(out[1].fields)
        r = [(k, EQ(d.get('id' if k == 'page_num' else k), f[k])) for k in f]
        return r + [('every part, in order', EQ(d[self.key].items, L)), ('nothing twice', len(d) == len(out[1].fields))]


BOXED = ('x0', 'y0', 'x1', 'y1')


QUOTED = UF('the text as a scalar of YAML', (TStr,), TStr)


class CharBlock(Contract):
    """a block of characters: its text is that of all its characters; descriptor entries are added, and replace nothing"""
    internal = True

    def __init__(self, fmt):
        self.fmt = fmt
        self.name = 'place_char_block of ' + fmt
        self.target = [CV + '.%s:place_char_block' % fmt, CV + '.%s:normalize_color_values' % fmt]

    def inputs(self):
        return dict(L=Texts, size=TReal, space=TStr, v0=TReal, v1=TReal, key=TStr, val=TStr, **{f: TReal for f in BOXED})

    def run(self, L, size, space, v0, v1, key, val, **f):
        m = self.mod(CV + '.' + self.fmt)
        col = Holder(color_space=Name(space), values=(v0, v1))
        desc = hooks.mkdict((key, val), ('Type', 'x'), ('FontFile2', 'y'))
        it = Holder(L, size=size, color=col, font=Holder(descriptor=desc), **f)
        top = Node()
        hooks.overrides = {**hooks.overrides, CV + '.writers.yaml:quoted': QUOTED}
        r = self.outcome(lambda: m.place_char_block(top, it))
        return (r[0], top.fields if r[0] == 'ok' else r[1])

    def requires(self, key, **_):
        return AND(*[key != k for k in ('Type', 'FontFile2')])

    def ensures(self, out, L, size, space, v0, v1, key, val, **f):
        if out[0] != 'ok':
            return [('no exception', False)]
        fs = out[1]
        # the first entry of a name is the one that stays
        names = [k for k, _ in fs]
        d = dict(reversed(fs[:7]))
        q = QUOTED if self.fmt == 'yaml' else (lambda x: x)
        own = ('size', 'color', 'text') + BOXED
        r = [('own entries come first', AND(*[EQ(a, b) for a, b in zip(sorted(names[:7]), sorted(own))]))]
        if set(names[:7]) != set(own):
            return r
        STR = lambda x: hooks.call(str, x)
        vals = [STR(v0), STR(v1)]
        r += [(k, EQ(d[k], v)) for k, v in dict(f, size=size).items()]
        r += [('text', EQ(d['text'], q(hooks.call(''.join, TList(TStr).wrap(Texts.unwrap(L)))))), ('colour space', EQ(d['color']['type'], q(space)))]
        if self.fmt == 'json':
            r += [('colour', EQ(d['color']['value'][0], vals[0])), ('colour', EQ(d['color']['value'][1], vals[1])), ('components', LEN(d['color']['value']) == 2)]
        r += [('entries of the descriptor', len(names) <= 8)]
        if len(names) == 8:
            r += [('entry of the descriptor', AND(EQ(names[7], q(key)), EQ(fs[7][1], q(val))))]
        return r


class Curve(Contract):
    """a curve: its box, its colours, its segments with all their points"""
    internal = True
    budget_s = 200

    def __init__(self, fmt, kind):
        self.fmt, self.kind = fmt, kind
        self.name = 'place_curve of %s: %s' % (fmt, kind)
        self.target = [CV + '.%s:place_curve' % fmt]
        self.loops = [LoopSpec(inv=parts_inv, types={'*.items': Segs})] if kind == 'LTCurve' else []

    def inputs(self):
        return dict(L=Segs, stroke=TStr, fill=TStr, s0=TReal, s1=TReal, **{f: TReal for f in BOXED})

    def run(self, L, stroke, fill, s0, s1, **f):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.L = L
        ctx().ghost['ghost'] = g
        ctx().ghost['object types'] = (TPoint, TSeg)
        U = self.mod('pdfmajor.utils')
        C = lambda n, v: Holder(color_space=Name(n), values=v)
        it = getattr(self.mod(LAY), self.kind)(linewidth=1, paths=L, bbox=U.Bbox(0, 0, 1, 1), stroke=C(stroke, (s0, s1)), fill=C(fill, (s1,)), evenodd=False)
        for k, v in f.items():
            setattr(it.bbox, k, v)
        top = Node()
        hooks.overrides = {**hooks.overrides, CV + '.writers.yaml:quoted': QUOTED}
        r = self.outcome(lambda: self.mod(CV + '.' + self.fmt).render(top, it))
        return (r[0], top.fields if r[0] == 'ok' else r[1])

    def ensures(self, out, L, stroke, fill, s0, s1, **f):
        if out[0] != 'ok':
            return [('no exception', False)]
        fs = out[1]
        d = dict(fs)
        q = QUOTED if self.fmt == 'yaml' else (lambda x: x)
        STR = lambda x: hooks.call(str, x)
        curve = self.kind == 'LTCurve'
        if len(d) != len(fs) or set(d) != {'type', 'stroke', 'fill'} | set(BOXED) | ({'paths'} if curve else set()):
            return [('its entries', False)]
        r = [(k, EQ(d[k], v)) for k, v in f.items()] + [('type', d['type'] == {'LTCurve': 'curve', 'LTRect': 'rect'}.get(self.kind, 'line'))]
        r += [('colour space: ' + k, EQ(d[k]['type'], q(v))) for k, v in (('stroke', stroke), ('fill', fill))]
        if self.fmt == 'json':
            r += [('components: ' + k, AND(LEN(d[k]['value']) == len(v), *[EQ(d[k]['value'][i], STR(x)) for i, x in enumerate(v)])) for k, v in (('stroke', (s0, s1)), ('fill', (s1,)))]
        if curve:
            r.append(('segments and points, in order', EQ(d['paths'].items, L)))
        return r


for fmt in ('json', 'yaml'):
    contracts.append(CharBlock(fmt))
    contracts += [Curve(fmt, k) for k in ('LTCurve', 'LTRect', 'LTHorizontalLine')]
    contracts += [Children(fmt, 'render_page', 'children', 'render', ('page_num', 'width', 'height')),
                  Children(fmt, 'render', 'children', 'render', BOXED),
                  Children(fmt, 'place_text_block', 'char_blocks', 'place_char_block', BOXED)]


# ------------------------------------------------------------------ XML
class Xml:
    """the elements being written: what is inside the innermost one"""
    _vc_heap = True

    def __init__(self):
        self.codec = 'utf-8'
        self.array = Array()
        self.top = self.array
        ctx().ghost['ghost'].array = self.array

    def elm(self, tag, attrs=None, **kw):
        outer, self.array = self.array, Array()
        inside = self.array
        ctx().ghost['ghost'].array = inside
        n = Node()
        n.tag, n.attrs, n.inside = tag, attrs, inside
        if ctx().ghost['ghost'].mark == tag:
            ctx().ghost['ghost'].marked = n

        def leave():
            self.array = outer
            ctx().ghost['ghost'].array = outer
            outer.add(self.closed(n))
        return Entered(n, leave)

    def closed(self, n):
        return n

    def singleton(self, tag, attrs=None):
        with self.elm(tag, attrs):
            pass

    def write(self, text, **kw):
        self.array.add(Item(text) if False else text)


class XmlPart(Contract):
    """an element has its parts inside it, all of them, in order"""
    internal = True
    budget_s = 200

    def __init__(self, fn, tag, part, attrs, nested=False):
        self.fn, self.tag, self.part, self.attrs, self.nested = fn, tag, part, attrs, nested
        self.name = '%s of xml' % tag
        self.target = [CV + '.xml:' + fn]
        self.loops = [LoopSpec(inv=parts_inv, types={'*.items': Items})]

    def inputs(self):
        return dict(L=Items, **{f: TReal for f in self.attrs})

    def run(self, L, **f):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.L, g.mark = L, self.tag
        ctx().ghost['ghost'] = g
        m = self.mod(CV + '.xml')
        out = Xml()
        if self.nested:
            it = self.mod(LAY).LTXObject('x', self.mod('pdfmajor.utils').Bbox(0, 0, 1, 1), None, {}, None)
            for k, v in f.items():
                setattr(it.bbox, k, v)
            it._objs = L
            top = Holder([it], page_num=1, width=2, height=3)
        else:
            it = top = Holder(L, **f)
            if self.fn == 'place_char_block':
                it.color = Holder(color_space=None)
                it.font = Holder(descriptor={'Type': 'x', 'FontFile3': 'y', 'Size': 'z', 'X0': 'z', 'a b': 'c', 'StemV': 80})

        def part(*a):
            if a[-1] is it:
                return hooks.callee(*a)
            out.array.add(a[-1])
        hooks.overrides = {**hooks.overrides, CV + '.xml:' + self.part: part}
        r = self.outcome(lambda: getattr(m, self.fn)(out, top))
        return (r[0], g.marked if r[0] == 'ok' else r[1])

    def ensures(self, out, L, **f):
        if out[0] != 'ok':
            return [('no exception', False)]
        n = out[1]
        d = n.attrs
        r = [(k, EQ(d.get('id' if k == 'page_num' else k), v)) for k, v in f.items()]
        if self.fn == 'place_char_block':
            r += [('descriptor', d.get('stem-v') == 80), ('attributes', set(d.keys()) == set(f) | {'stem-v'})]
        return r + [('every part, in order', EQ(n.inside.items, L))]


contracts += [XmlPart('render_page', 'page', 'render_page.<locals>.render', ('page_num', 'width', 'height')),
              XmlPart('render_page', 'xobject', 'render_page.<locals>.render', BOXED, True),
              XmlPart('place_text_block', 'text-block', 'place_char_block', BOXED),
              XmlPart('place_char_block', 'char-block', 'place_char', BOXED + ('size',))]


ESCAPED = UF('the text as character data of XML', (TStr,), TStr)


class XmlChar(Contract):
    """a character of XML: its box, its text"""
    name = 'char of xml'
    internal = True
    target = [CV + '.xml:place_char']

    def inputs(self):
        return dict(text=TStr, **{f: TReal for f in BOXED})

    def run(self, text, **f):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.mark = 'char'
        ctx().ghost['ghost'] = g
        m = self.mod(CV + '.xml')
        out = Xml()
        hooks.overrides = {**hooks.overrides, 'xml.sax.saxutils:escape': lambda t, e: ESCAPED(t) if dict(e.items()) == {'\r': '&#13;'} else t}
        r = self.outcome(lambda: m.place_char(out, Holder(get_text=lambda: text, **f)))
        return (r[0], g.marked if r[0] == 'ok' else r[1])

    def ensures(self, out, text, **f):
        if out[0] != 'ok':
            return [('no exception', False)]
        n = out[1]
        return [(k, EQ(n.attrs[k], v)) for k, v in f.items()] + [('one text', LEN(n.inside.items) == 1), ('the text', EQ(n.inside.items[0], ESCAPED(text)))]


class XmlCurve(Contract):
    """a curve of XML: its box, its colours, its segments with all their points"""
    internal = True
    budget_s = 200

    def outer(v):
        return [('segments so far, in order', EQ(v.ghost.curve.items, v.ghost.L[:v._k]))]

    def inner(v):
        return [('points so far, in order', EQ(v.ghost.array.items, v.ghost.seg[:v._k]))] + XmlCurve.kept(v)

    def kept(v):
        return [('segments before', EQ(v.ghost.curve.items, v.ghost.before))]

    def entry(v):
        g = v.ghost
        g.before = g.curve.items + LST()

    def __init__(self, kind):
        self.kind = kind
        self.name = '%s of xml' % kind
        self.target = [CV + '.xml:place_curve', CV + '.xml:get_color', CV + '.xml:normalize_color_values']
        self.loops = [LoopSpec(inv=XmlCurve.outer, types={'*.items': Segs}), LoopSpec(inv=XmlCurve.inner, entry=XmlCurve.entry, types={'*curve.items': Segs, '*.items': TList(TPoint)})] if kind == 'LTCurve' else []

    def inputs(self):
        return dict(L=Segs, stroke=TStr, fill=TStr, s0=TReal, s1=TReal, **{f: TReal for f in BOXED})

    def run(self, L, stroke, fill, s0, s1, **f):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.L, g.mark = L, {'LTCurve': 'curve', 'LTRect': 'rect'}.get(self.kind, 'line')
        ctx().ghost['ghost'] = g
        ctx().ghost['object types'] = (TPoint, TSeg)
        U = self.mod('pdfmajor.utils')
        C = lambda n, v: Holder(color_space=Name(n), values=v)
        it = getattr(self.mod(LAY), self.kind)(linewidth=1, paths=L, bbox=U.Bbox(0, 0, 1, 1), stroke=C(stroke, (s0, s1)), fill=C(fill, (s1,)), evenodd=False)
        for k, v in f.items():
            setattr(it.bbox, k, v)
        out = CurveXml()
        r = self.outcome(lambda: self.mod(CV + '.xml').place_curve(out, it))
        return (r[0], g.marked if r[0] == 'ok' else r[1])

    def ensures(self, out, L, stroke, fill, s0, s1, **f):
        if out[0] != 'ok':
            return [('no exception', False)]
        n = out[1]
        STR = lambda x: hooks.call(str, x)
        d = n.attrs
        r = [(k, EQ(d[k], v)) for k, v in f.items()]
        r += [('stroke', AND(EQ(d['stroke-type'], stroke), EQ(d['stroke-values'], STR(s0) + ',' + STR(s1)))), ('fill', AND(EQ(d['fill-type'], fill), EQ(d['fill-values'], STR(s1))))]
        if self.kind == 'LTCurve':
            r.append(('segments and points, in order', EQ(n.inside.items, L)))
        return r


class CurveXml(Xml):
    _vc_heap = True

    def elm(self, tag, attrs=None, **kw):
        r = Xml.elm(self, tag, attrs, **kw)
        g = ctx().ghost['ghost']
        if tag == g.mark:
            g.curve = self.array
        return r

    def closed(self, n):
        if n.tag == 'path':
            return Seg((n.attrs['type'], n.inside.items))
        if n.tag == 'point':
            return Point((n.attrs['x'], n.attrs['y']))
        return n


contracts += [XmlChar()] + [XmlCurve(k) for k in ('LTCurve', 'LTRect', 'LTVerticalLine')]


# ------------------------------------------------------------------ the text written
JTEXT = {TStr: UF('JSON text of a text', (TStr,), TStr), TReal: UF('JSON text of a number', (TReal,), TStr), TItem: UF('JSON text of an object', (TItem,), TStr)}


def jtext(x, **kw):
    for t, f in JTEXT.items():
        if t.unwrap(x) is not None and not (t is TReal and type(x).__name__ == 'SStr'):
            return f(x)


class Out:
    """a file: what has been written"""
    _vc_heap = True

    def __init__(self):
        self.text = ''

    def write(self, t):
        self.text = self.text + t


class KeysOf:
    """some number of names, none of them the one to be written"""
    _vc_heap = True

    def __init__(self, n):
        self.n = n

    def __contains__(self, k):
        return False

    def add(self, k):
        self.n = self.n + 1

    def __len__(self):
        raise TypeError

    def size(self):
        return self.n


def length(x):
    return x.n if type(x) is KeysOf else hooks.models.m_len(x)


class JsonMember(Contract):
    """a member of an object or array: separated from the one before, named, its value in JSON"""
    internal = True

    def __init__(self, where, kind):
        self.where, self.kind = where, kind
        cls = 'JSONMaker' + where
        self.name = '%s in a JSON %s' % (kind, where.lower())
        self.target = [CV + '.writers.json:%s.%s' % (cls, f) for f in (kind, 'write_prop', 'write', 'write_raw')]

    def inputs(self):
        return dict(n=TInt, depth=TInt, key=TStr, val={'number': TReal, 'string': TStr, 'place_object': TItem}.get(self.kind, TStr))

    def requires(self, n, depth, **_):
        return AND(n >= 0, depth >= 1)

    def run(self, n, depth, key, val):
        m = self.mod(CV + '.writers.json')
        out = Out()
        o = getattr(m, 'JSONMaker' + self.where)(out, codec=None, levels_deep=depth)
        if self.where == 'Object':
            o.keys = KeysOf(n)
        else:
            o.childrencount = n
        hooks.overrides = {**hooks.overrides, 'json:dumps': jtext}
        args = (key,) if self.where == 'Object' else ()
        seen = []

        def go():
            f = getattr(o, self.kind)
            if self.kind in ('object', 'array'):
                with f(*args) as c:
                    seen.append((c.levels_deep, c.keys if self.kind == 'object' else c.childrencount, type(c).__name__))
                    out.write(val)
            else:
                f(*args, val)
        with LenOf():
            r = self.outcome(go)
        return (r[0], (out.text, o.keys.n if self.where == 'Object' else o.childrencount, seen, o.levels_deep) if r[0] == 'ok' else r[1])

    def ensures(self, out, n, depth, key, val):
        if out[0] != 'ok':
            return [('no exception', False)]
        text, count, seen, after = out[1]
        ind = lambda d: hooks.models.V.lift('  ') * d
        want = ITE(n == 0, '\n', ',\n') + ind(depth)
        if self.where == 'Object':
            want = want + jtext(key) + ': '
        if self.kind in ('object', 'array'):
            a, b = '{}' if self.kind == 'object' else '[]'
            want = want + a + val + '\n' + ind(depth) + b
            (d, k, name), = seen
            r = [('inside', AND(EQ(d, depth + 1), len(k) == 0 if self.kind == 'object' else k == 0, name == 'JSONMaker' + self.kind.capitalize()))]
        else:
            want, r = want + jtext(val), []
        return r + [('what is written', EQ(text, want)), ('one more member', EQ(count, n + 1)), ('depth', EQ(after, depth))]


class LenOf:
    def __enter__(self):
        self.old = hooks.models.TABLE[len]
        hooks.models.TABLE[len] = lambda x: x.n if type(x) is KeysOf else self.old(x)

    def __exit__(self, *e):
        hooks.models.TABLE[len] = self.old


contracts += [JsonMember(w, k) for w in ('Object', 'Array') for k in ('number', 'string', 'place_object', 'object', 'array')]


ATTR = UF('the text as a value of an XML attribute', (TStr,), TStr)
CARRIED = UF('what XML can carry of a text', (TStr,), TStr)


class XmlElement(Contract):
    """an element of XML: its start tag with every attribute quoted, what is in it, its end tag"""
    internal = True

    def __init__(self, single):
        self.single = single
        self.name = 'XML element' + (' without content' if single else '')
        self.target = [CV + '.writers.xml:XMLMaker.elm', CV + '.writers.xml:XMLMaker.write', CV + '.writers.xml:XMLMaker.singleton']

    def inputs(self):
        return dict(depth=TInt, a=TStr, b=TReal, inside=TStr)

    def requires(self, depth, **_):
        return depth >= 0

    def run(self, depth, a, b, inside):
        m = self.mod(CV + '.writers.xml')
        o = m.XMLMaker('x', codec=None)
        out = o.outfile = Out()
        o._XMLMaker__levels_deep = depth
        hooks.overrides = {**hooks.overrides, 'xml.sax.saxutils:quoteattr': lambda t, e: ATTR(t) if dict(e.items()) == {'\t': '&#9;', '\n': '&#10;', '\r': '&#13;'} else t}
        seen = []

        def go():
            if self.single:
                return o.singleton('tag', hooks.mkdict(('a', a), ('b', b)))
            with o.elm('tag', hooks.mkdict(('a', a), ('b', b))):
                seen.append(o._XMLMaker__levels_deep)
                out.write(inside)
        r = self.outcome(go)
        return (r[0], (out.text, seen, o._XMLMaker__levels_deep) if r[0] == 'ok' else r[1])

    def ensures(self, out, depth, a, b, inside):
        if out[0] != 'ok':
            return [('no exception', False)]
        text, seen, after = out[1]
        ind = lambda d: hooks.models.V.lift(' ') * d
        start = ind(depth) + '<tag a=' + ATTR(a) + ' b=' + ATTR(hooks.call(str, b))
        want = start + ' />\n' if self.single else start + '>\n' + inside + ind(depth) + '</tag>\n'
        return [('what is written', EQ(text, want)), ('depth', EQ(after, depth))] + [('depth inside', EQ(d, depth + 1)) for d in seen]


class YamlMember(Contract):
    """a member of an object or list of YAML, on a line of its own at the depth of its parent"""
    internal = True

    def __init__(self, where, kind, first):
        self.where, self.kind, self.first = where, kind, first
        self.name = '%s%s in a YAML %s' % ('first ' if first else '', kind, where)
        self.target = [CV + '.writers.yaml:YAMLMaker%s.%s' % ('Array' if where == 'list' else 'Object', f) for f in (kind, '_write')]

    def inputs(self):
        return dict(n=TInt, depth=TInt, key=TStr, val=TStr)

    def requires(self, n, depth, **_):
        return AND(n == 0 if self.first else n >= 1, depth >= 0)

    def run(self, n, depth, key, val):
        m = self.mod(CV + '.writers.yaml')
        out = Out()
        o = m.YAMLMakerArray(out, None, depth) if self.where == 'list' else m.YAMLMakerObject(out, None, depth, parent_is_array=self.where == 'object of a list')
        if self.where == 'list':
            o.childrencount = n
        else:
            o.keys = KeysOf(n)
        args = () if self.where == 'list' else (key,)
        seen = []

        def go():
            f = getattr(o, self.kind)
            if self.kind in ('object', 'array'):
                with f(*args) as c:
                    seen.append((c.levels_deep, c.keys if self.kind == 'object' else c.childrencount, type(c).__name__, getattr(c, 'parent_is_array', None)))
                    if self.kind == 'array':
                        c.childrencount = 1
                    out.write(val)
            else:
                f(*args, val)
        with LenOf():
            r = self.outcome(go)
        return (r[0], (out.text, o.childrencount if self.where == 'list' else o.keys.n, seen, o.levels_deep) if r[0] == 'ok' else r[1])

    def ensures(self, out, n, depth, key, val):
        if out[0] != 'ok':
            return [('no exception', False)]
        text, count, seen, after = out[1]
        ind = lambda d: hooks.models.V.lift('  ') * d
        lead = ('' if self.first else '\n') + (ind(depth) if not (self.first and self.where == 'object of a list') else '')
        if self.where == 'list':
            want = lead + '- ' + val
        else:
            want = lead + key + (': ' if self.kind == 'write' else ':\n') + val
        r = []
        for d, k, name, inlist in seen:
            r += [('inside', AND(EQ(d, depth + 1), len(k) == 0 if self.kind == 'object' else k == 0, name == 'YAMLMaker' + self.kind.capitalize())), ('what it is in', inlist in (None, self.where == 'list'))]
        return r + [('what is written', EQ(text, want)), ('one more member', EQ(count, n + 1)), ('depth', EQ(after, depth))]


contracts += [XmlElement(s) for s in (False, True)] + [YamlMember(w, k, f) for w in ('object', 'object of a list', 'list') for k in ('write', 'object', 'array') for f in (False, True)
                                                     if not (w == 'list' and k == 'array') and not (f and k != 'write' and w != 'list')]
