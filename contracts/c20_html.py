"""HTML output: every page, item, text, colour and path, readable by any HTML parser."""
import html as H, re
from html.parser import HTMLParser
from vc.contract import *
from .interp import *
from .c17_output import CV, KINDS, METHODS, Documents, Holder, Out, Stream
from .c15_paths import Kind

VOID = ('meta', 'img', 'path')


# ------------------------------------------------------------------ whole documents
class Tree(HTMLParser):
    """elements of a document: [tag, attributes, children and texts]"""
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.top = ['', {}, []]
        self.open = [self.top]

    def handle_starttag(self, tag, attrs):
        assert len(dict(attrs)) == len(attrs), 'attribute twice'
        e = [tag, dict(attrs), []]
        self.open[-1][2].append(e)
        if tag not in VOID:
            self.open.append(e)

    def handle_startendtag(self, tag, attrs):
        assert tag in VOID, 'empty ' + tag
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        assert self.open.pop()[0] == tag, 'nesting of ' + tag

    def handle_data(self, data):
        inside = self.open[-1][2]
        if inside and type(inside[-1]) is str:
            inside[-1] += data
        else:
            inside.append(data)


def parse(text):
    t = Tree()
    t.feed(text)
    t.close()
    assert t.open == [t.top], 'elements left open'
    return t.top


def kids(e):
    """the elements in an element, which has no text of its own"""
    assert not any(c.strip() for c in e[2] if type(c) is str), 'text in ' + e[0]
    return [c for c in e[2] if type(c) is not str]


def css(e):
    return {k.strip(): v.strip() for k, _, v in (d.partition(':') for d in e[1].get('style', '').split(';') if d.strip())}


def px(s):
    return float(s[:-2] if s.endswith('px') else s)


def pos(e, *keys):
    d = css(e)
    return tuple(px(d[k]) for k in keys)


def rgb(s):
    """a colour of CSS: opacity of black, or the three components, or else its text"""
    m = re.fullmatch(r'rgba\(0,0,0,([^,]*)\)', s or '')
    if m:
        return ('opacity', float(m[1]))
    m = re.fullmatch(r'rgb\(([^,]*)%,([^,]*)%,([^,]*)%\)', s or '')
    return ('rgb',) + tuple(float(v) / 100 for v in m.groups()) if m else s


def css_color(c):
    """what CSS can say of a colour of the document"""
    if c is None:
        return None
    v = c[1]
    if not all(type(x) in (int, float) for x in v) or len(v) not in (1, 3, 4):
        return 'any'
    if len(v) == 1:
        return ('opacity', 1 - v[0])
    return ('rgb',) + tuple(v if len(v) == 3 else (1 - min(1, x + v[3]) for x in v[:3]))


def outline(d):
    """the segments of the path data of an SVG path"""
    out = []
    for cmd, args in re.findall(r'([A-DF-Za-df-z])([^A-DF-Za-df-z]*)', d):
        n = [float(x) for x in args.replace(',', ' ').split()]
        assert len(n) % 2 == 0
        out.append((cmd, tuple(zip(n[::2], n[1::2]))))
    assert ''.join(re.findall(r'[A-DF-Za-df-z][^A-DF-Za-df-z]*', d)) == d.strip() or not d.strip() or d.endswith(' ')
    return tuple(out)


def drawn(paths):
    """segments as moves, lines, curves with two control points, closings"""
    out, start, at = [], None, None
    for k, ps in paths:
        ps = tuple(ps)
        if k == 'h':
            out.append(('Z', ()))
            at = start
            continue
        out.append((k.upper() if k in 'mlc' else 'C', (at,) + ps if k == 'v' else ps + ps[-1:] if k == 'y' else ps))
        at = ps[-1]
        if k == 'm':
            start = at
    return tuple(out)


def near(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return b == 'any' and (a is None or isinstance(a, str)) or a == b


def ordered(b):
    return (min(b[0], b[2]), min(b[1], b[3]), max(b[0], b[2]), max(b[1], b[3]))


class HtmlDocuments(Documents):
    """a document converted to HTML, parsed, has the pages, items, texts, colours and paths of the document"""
    name = 'documents converted to HTML'
    target = [CV + ':convert_file', CV + '.html:convert_to_html', CV + '.html:render_page', CV + '.html:render_curve', CV + '.html:create_svg_path', CV + '.html:get_color', CV + '.writers.html:HTMLMaker']
    search_n = 1200

    def gen(self, rng):
        d = Documents.gen(self, rng)

        def item(s):
            if s[0] in KINDS:
                k = [('m', (rng.choice([(0, 0), (5, 1), (-2.5, 10)]),))] * bool(s[4])
                return s[:4] + (tuple(k) + s[4],)
            if s[0] == 'x':
                return s[:2] + (tuple(item(c) for c in s[2]),)
            if s[0] == 'text' and s[2]:
                return s[:2] + (tuple((b[0], b[1], tuple(p for p in b[2] if p[0] != 'face') + (('face', rng.choice(['face', 'A"B', "it's", 'a<b>', 'x&amp;y'])),)) for b in s[2]),)
            return s
        return dict(d, fmt='html', pages=tuple((w, h, tuple(item(i) for i in items)) for w, h, items in d['pages']))

    def requires(self, fmt, pages, codec='utf-8'):
        if fmt != 'html' or not Documents.requires(self, 'json', pages, codec):
            return False
        col = lambda c: c is None or len(c[1]) > 0 and ';' not in repr(c) and all(type(x) is str or 0 <= x <= 1 for x in c[1])

        def item(s):
            if s[0] in KINDS:
                return col(s[2]) and col(s[3]) and (not s[4] or s[4][0][0] == 'm')
            if s[0] == 'x':
                return all(item(c) for c in s[2])
            return s[0] != 'text' or all(col(b[1]) and not any(c in str(dict(b[2]).get('face', '')) for c in ';:\n') for b in s[2])
        return all(item(i) for p in pages for i in p[2])

    def seen(self, e):
        """the item that an element shows"""
        a = e[1]
        k = a.get('class')
        if e[0] == 'svg':
            assert k == 'curve'
            p, = kids(e)
            assert p[0] == 'path'
            x, y, w, h = pos(e, 'left', 'top', 'width', 'height')
            box = tuple(float(v) for v in a['viewbox'].split())
            assert px(a['width']) == max(w, 1) and px(a['height']) == max(h, 1)
            return ('curve', (x, y, w, h), rgb(p[1].get('stroke')), rgb(p[1].get('fill')), box, outline(p[1]['d']))
        if e[0] == 'div':
            assert k == 'xobject'
            return ('xobject', pos(e, 'left', 'bottom', 'width', 'height'), tuple(self.seen(c) for c in kids(e)))
        if e[0] == 'img':
            return ('img', px(a['width']), px(a['height']), a['src'])
        assert e[0] == 'span' and k == 'text-block'
        return ('text', tuple(self.block(b) for b in kids(e)))

    def block(self, e):
        assert e[0] == 'span' and e[1]['class'] == 'char-block'
        d = css(e)
        assert d['position'] == 'absolute'
        chars = []
        for c in kids(e):
            assert c[0] == 'span' and c[1]['class'] == 'char' and not any(type(x) is list for x in c[2])
            chars.append((''.join(c[2]).strip(' \n'), pos(c, 'width', 'height')))
        return (tuple(chars), pos(e, 'left', 'bottom', 'width', 'height', 'font-size'), d['font-family'], None if d['color'] == 'black' else rgb(d['color']))

    def wanted(self, fmt, pages, codec='utf-8'):
        def st(s):
            """what HTML in the codec can carry of a text"""
            r = ''
            for c in s:
                try:
                    c.encode(codec)
                    r += c
                except UnicodeEncodeError:
                    r += H.unescape('&#%d;' % ord(c))
            return r.strip(' \n')

        def item(s, height):
            if s[0] == 'x':
                b = ordered(s[1])
                return ('xobject', (b[0], b[1], b[2] - b[0], b[3] - b[1]), tuple(item(c, height) for c in s[2]))
            if s[0] == 'img':
                b = ordered(s[1])
                return ('img', b[2] - b[0], b[3] - b[1], s[2])
            if s[0] == 'text':
                r = []
                for chars, c, desc in s[2]:
                    bs = [b for _, b in chars]
                    b = tuple(g(x for q in bs for x in (q[i], q[i + 2])) for i, g in ((0, min), (1, min), (0, max), (1, max)))
                    r.append((tuple((st(t), (q[2] - q[0], q[3] - q[1])) for t, q in chars), (b[0], b[1], b[2] - b[0], b[3] - b[1], b[3] - b[1]), st(dict(desc).get('face', 'face')), css_color(c)))
                return ('text', tuple(r))
            b = ordered(s[1])
            w, h = b[2] - b[0], b[3] - b[1]
            # points as fractions of the height, from the top
            sx, sy = ((w / h) / max(w, .01), 1 / h) if h else (1 / max(w, .01), 1)
            return ('curve', (b[0], height - b[3], w, h), css_color(s[2]), css_color(s[3]), (0, 0, w / h if h else 1, 1), tuple((k, tuple(((x - b[0]) * sx, (b[3] - y) * sy) for x, y in ps)) for k, ps in drawn(s[4])))
        return [(w, h, tuple(item(c, h) for c in items)) for w, h, items in pages]

    def ensures(self, out, fmt, pages, codec='utf-8'):
        if out[0] != 'ok':
            return [('no exception', False)]
        try:
            top = parse(out[1].decode(codec))
            root, = kids(top)
            head, body = kids(root)
            charset = [e[1].get('charset') for e in kids(head) if e[0] == 'meta']
            ps = kids(body)
            assert [root[0], head[0], body[0]] == ['html', 'head', 'body'] and all(p[0] == 'div' and p[1]['class'] == 'page' for p in ps)
            got = [pos(p, 'width', 'height') + (tuple(self.seen(c) for c in kids(p)),) for p in ps]
        except Exception as e:
            self.err = '%s: %s' % (type(e).__name__, e)
            return [('well-formed', False)]
        self.err = got
        return [('page ids', [p[1]['id'] for p in ps] == ['page-%d' % i for i in range(len(pages))]), ('encoding', charset == [codec]), ('pages and items', near(got, self.wanted(fmt, pages, codec)))]

    def explain(self, out, **kw):
        return 'got %r\nwanted %r\noutput %r' % (getattr(self, 'err', None), self.wanted(**kw), out)


probes = [HtmlDocuments()]
contracts = []


# ------------------------------------------------------------------ elements
ESC = UF('the text as character data of HTML', (TStr,), TStr)


class HtmlElement(Contract):
    """an element of HTML: its start tag with every attribute and style escaped, what is in it, its end tag"""
    internal = True

    def __init__(self, single, styled):
        self.single, self.styled = single, styled
        self.name = 'HTML element' + (' without content' if single else '') + (' with style' if styled else '')
        self.target = [CV + '.writers.html:HTMLMaker.elm', CV + '.writers.html:HTMLMaker.write', CV + '.writers.html:HTMLMaker.singleton']

    def inputs(self):
        return dict(depth=TInt, a=TStr, b=TReal, s=TStr, inside=TStr)

    def requires(self, depth, **_):
        return depth >= 0

    def run(self, depth, a, b, s, inside):
        m = self.mod(CV + '.writers.html')
        o = m.HTMLMaker('x', codec=None)
        out = o.outfile = Out()
        o._HTMLMaker__levels_deep = depth

        def escape(t, quote=True):
            given.append(t)
            return ESC(t) if quote else t
        hooks.overrides = {**hooks.overrides, 'html:escape': escape}
        given = []
        attrs = hooks.mkdict(('a', a), ('b', b))
        style = hooks.mkdict(('color', s), ('left', b)) if self.styled else None
        seen = []

        def go():
            if self.single:
                return o.singleton('tag', attrs, style)
            with o.elm('tag', attrs, style):
                seen.append(o._HTMLMaker__levels_deep)
                out.write(inside)
        r = self.outcome(go)
        return (r[0], (out.text, seen, o._HTMLMaker__levels_deep, len(attrs), given) if r[0] == 'ok' else r[1])

    def ensures(self, out, depth, a, b, s, inside):
        if out[0] != 'ok':
            return [('no exception', False)]
        text, seen, after, n, given = out[1]
        L = hooks.models.V.lift
        num = hooks.call(str, b)
        start = L(' ') * depth + '<tag a="' + ESC(a) + '" b="' + ESC(num) + '"'
        if self.styled:
            style = 'color: ' + s + ';left: ' + num
            if not given:
                return [('escaped', False)]
            HAVE(EQ(given[-1], style), 'the style')
            start = start + ' style="' + ESC(given[-1]) + '"'
        want = start + ' />\n' if self.single else start + '>\n' + inside + L(' ') * depth + '</tag>\n'
        return [('what is written', EQ(text, want)), ('depth', EQ(after, depth)), ('attributes given', n == 2)] + [('depth inside', EQ(d, depth + 1)) for d in seen]


contracts += [HtmlElement(a, b) for a in (False, True) for b in (False, True)]


# ------------------------------------------------------------------ paths
XY = TTuple(TReal, TReal, tag='xy')
SEG = TTuple(TInt, TReal, TReal, TReal, TReal, TReal, TReal, tag='svg segment')
Segs = TList(SEG)
NPT = (1, 1, 3, 2, 2, 0)


class Pt:
    def __init__(self, x, y):
        self.x, self.y = x, y


TPt = TObj('svg point', XY, lambda t: Pt(t[0], t[1]), lambda o: (o.x, o.y) if type(o) is Pt else None)


class Seg:
    """a segment of kind t[0] with points from t[1:]"""
    def __init__(self, t):
        self.t = t
        self.method = Kind(t[0])

    @property
    def points(self):
        k = 5
        for i in range(5):
            if V.truth(EQ(self.t[0], i)):
                k = i
                break
        return tuple(Pt(self.t[1 + 2 * i], self.t[2 + 2 * i]) for i in range(NPT[k]))


TSeg = TObj('svg segment object', SEG, Seg, lambda o: o.t if type(o) is Seg else None)


def stop(s, a):
    """coordinate a of the point where a segment ends, for one that has points"""
    return ITE(s[0] <= 1, s[1 + a], ITE(EQ(s[0], 2), s[5 + a], s[3 + a]))


def _coord(a):
    def starts(S, k):
        """coordinate of the start of the subpath after k segments"""
        if k <= 0:
            return 0
        s = AT(S, k - 1)
        return ITE(EQ(s[0], 0), s[1 + a], starts(S, k - 1))
    starts.__name__ = 'start%d' % a
    starts = spec_fn((Segs, TInt), TReal)(starts)

    def point(S, k):
        """coordinate of the current point after k segments"""
        if k <= 0:
            return 0
        s = AT(S, k - 1)
        return ITE(EQ(s[0], 5), starts(S, k - 1), stop(s, a))
    point.__name__ = 'point%d' % a
    return starts, spec_fn((Segs, TInt), TReal)(point)


(startx, pointx), (starty, pointy) = _coord(0), _coord(1)


@spec_fn((Segs, TInt, TReal, TReal, TReal, TReal), TStr)
def svg(S, k, x0, top, sx, sy):
    """path data of the first k segments"""
    if k <= 0:
        return ''
    s = AT(S, k - 1)
    STR = lambda v: hooks.call(str, v) if symbolic() else str(v)
    P = lambda i: STR((s[1 + 2 * i] - x0) * sx) + ' ' + STR((top - s[2 + 2 * i]) * sy)
    C = STR((pointx(S, k - 1) - x0) * sx) + ' ' + STR((top - pointy(S, k - 1)) * sy)
    before = svg(S, k - 1, x0, top, sx, sy)
    return before + ITE(EQ(s[0], 0), 'M' + P(0) + ' ', ITE(EQ(s[0], 1), 'L' + P(0) + ' ', ITE(EQ(s[0], 2), 'C' + P(0) + ' ' + P(1) + ' ' + P(2) + ' ', ITE(EQ(s[0], 3), 'C' + C + ' ' + P(0) + ' ' + P(1) + ' ', ITE(EQ(s[0], 4), 'C' + P(0) + ' ' + P(1) + ' ' + P(1) + ' ', 'Z')))))


class Path(Contract):
    """the path data of a curve: every segment, at the points of the curve, on a view box that has the shape of the curve"""
    name = 'create_svg_path'
    internal = True
    budget_s = 400
    target = [CV + '.html:create_svg_path']

    def inv(v):
        g, k = v.ghost, v._k
        r = [('the path so far', EQ(v.path, svg(g.S, k, g.x0, g.top, g.sx, g.sy)))]
        for name, p, fx, fy in (('current point', v.point, pointx, pointy), ('start of the subpath', v.start, startx, starty)):
            if p is None:
                r.append((name + ' before the first segment', EQ(k, 0)))
            else:
                r.append((name, AND(EQ(p.x, fx(g.S, k)), EQ(p.y, fy(g.S, k)))))
        return r

    loops = [LoopSpec(where='create_svg_path#0', inv=inv, types=dict(path=TStr, point=TOpt(TPt), start=TOpt(TPt)))]

    def inputs(self):
        return dict(S=Segs, x0=TReal, y0=TReal, w=TReal, h=TReal)

    def requires(self, S, x0, y0, w, h):
        return AND(w >= 0, h >= 0, FORALL(LEN(S), lambda i: AND(AT(S, i)[0] >= 0, AT(S, i)[0] <= 5)), OR(EQ(LEN(S), 0), lambda: EQ(AT(S, 0)[0], 0)))

    def scale(self, w, h):
        """the factors from page to view box: the height of the box is 1, its shape that of the curve"""
        least = w if V.truth(w >= .01) else .01
        return ((w / h) / least, 1.0 / h) if V.truth(h > 0) else (1.0 / least, 1.0)

    def run(self, S, x0, y0, w, h):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.S, g.x0, g.top = S, x0, y0 + h
        g.sx, g.sy = self.scale(w, h)
        self.g = g
        ctx().ghost['ghost'] = g
        it = Holder(TList(TSeg).wrap(Segs.unwrap(S)), x0=x0, y0=y0, x1=x0 + w, y1=y0 + h, width=w, height=h)
        it.paths = it.parts
        return self.outcome(lambda: self.mod(CV + '.html').create_svg_path(it))

    def ensures(self, out, S, x0, y0, w, h):
        if out[0] != 'ok':
            return [('no exception', False)]
        path, attrs = out[1]
        g = self.g
        STR = lambda v: hooks.call(str, v)
        r = [('the whole path', EQ(path, svg(S, LEN(S), g.x0, g.top, g.sx, g.sy)))]
        flat = V.truth(h <= 0)
        r.append(('view box', EQ(attrs['viewBox'], '0 0 1 1' if flat else '0 0 ' + STR(w / h) + ' 1')))
        if not flat:
            r.append(('height of the view box', EQ(g.sy * h, 1)))
            if V.truth(w >= .01):
                r.append(('same scale both ways', EQ(g.sx, g.sy)))
        for k, d in (('width', w), ('height', h)):
            r.append((k + ' on the page', EQ(attrs[k], '1px' if not V.truth(d > 1) else STR(d) + 'px')))
        return r


contracts.append(Path())


# ------------------------------------------------------------------ items of any number
from .c17_output import Xml, XmlPart, parts_inv, Items, BOXED, LAY

STYLE = dict(page=('width', 'height'), xobject=('width', 'height'), block=('left', 'bottom', 'width', 'height'))


class HtmlXml(Xml):
    """the elements being written"""
    _vc_heap = True

    def elm(self, tag, attrs=None, css=None, **kw):
        if attrs is not None and 'class' in attrs.keys():
            tag = attrs['class']
        r = Xml.elm(self, tag, attrs, **kw)
        r.x.css = css
        return r


class HtmlPart(Contract):
    """an element of HTML has its parts inside it, all of them, in order"""
    internal = True
    budget_s = 200

    def __init__(self, kind):
        self.kind = kind
        self.name = '%s of HTML' % kind
        self.target = [CV + '.html:render_page', CV + '.html:render_page.<locals>.render']
        self.loops = [LoopSpec(inv=parts_inv, types={'*.items': Items})]

    def inputs(self):
        return dict(L=Items, num=TInt, w=TReal, h=TReal, x0=TReal, y0=TReal, size=TReal, text=TStr, face=TStr, src=TStr)

    def run(self, L, num, w, h, x0, y0, size, text, face, src):
        class Ghost:
            _vc_heap = True
        g = Ghost()
        g.L, g.mark = L, self.kind
        ctx().ghost['ghost'] = g
        m, lay, U = self.mod(CV + '.html'), self.mod(LAY), self.mod('pdfmajor.utils')
        out = HtmlXml()
        box = U.Bbox(0, 0, 1, 1)
        for k, v in dict(x0=x0, y0=y0, x1=x0 + w, y1=y0 + h).items():
            setattr(box, k, v)
        font = Holder(fontname=face, font_weight=400, italic_angle=0, is_vertical=lambda: False)
        state = Holder(font=font)
        color = Holder(color_space=None, values=())
        it = None
        if self.kind == 'page':
            top = Holder(L, page_num=num, width=w, height=h)
        else:
            if self.kind == 'xobject':
                it = lay.LTXObject('x', box, None, {}, None)
                it._objs = L
            elif self.kind == 'text-block':
                it = lay.LTTextBlock(0, 0, 1, 1)
                it._objs = L
            elif self.kind == 'char-block':
                it = lay.LTCharBlock([('a', ((0, 0), (1, 1)))], state, color)
                it._objs, it.size, it.bbox = L, size, box
            elif self.kind == 'char':
                it = lay.LTChar(box, text, state, color)
            else:
                it = lay.LTImage(src, Stream(), box)
            top = Holder([it], page_num=1, width=2, height=3)

        def part(*a):
            if a[0] is it:
                return hooks.callee(*a)
            out.array.add(a[0])
        hooks.overrides = {**hooks.overrides, CV + '.html:render_page.<locals>.render': part, 'html:escape': lambda t, quote=True: ESC(t)}
        r = self.outcome(lambda: m.render_page(out, top))
        return (r[0], (getattr(g, 'marked', None), out.top.items) if r[0] == 'ok' else r[1])

    def ensures(self, out, L, num, w, h, x0, y0, size, text, face, src):
        if out[0] != 'ok':
            return [('no exception', False)]
        n, top = out[1]
        if n is None:
            return [('the element', False)]
        STR = lambda v: hooks.call(str, v)
        r = []
        d = n.css if n.css is not None else {}
        want = {}
        if self.kind in ('page', 'xobject', 'char', 'char-block'):
            want.update(width=w, height=h)
        if self.kind == 'char-block':
            want.update({'font-size': size, 'left': x0, 'bottom': y0})
            r.append(('font', EQ(d['font-family'], face)))
            r.append(('colour', EQ(d['color'], 'black')))
        for k, v in want.items():
            x = d[k]
            r.append((k, OR(EQ(x, STR(v) + 'px'), EQ(x, STR(v)) if k in ('left', 'bottom') else False)))
        if self.kind == 'page':
            r.append(('id', EQ(n.attrs['id'], 'page-' + STR(num))))
        if self.kind == 'char':
            return r + [('the text', AND(EQ(LEN(n.inside.items), 1), lambda: EQ(n.inside.items[0], ESC(text))))]
        if self.kind == 'img':
            return r + [('source', EQ(n.attrs['src'], src)), ('nothing inside', EQ(LEN(n.inside.items), 0))] + [(k, EQ(n.attrs[k], STR(v) + 'px')) for k, v in (('width', w), ('height', h))]
        return r + [('every part, in order', EQ(n.inside.items, L))]


contracts += [HtmlPart(k) for k in ('page', 'xobject', 'text-block', 'char-block', 'char', 'img')]


class Colour(Contract):
    """colours of one, three and four components, and no colour, in CSS"""
    internal = True
    target = [CV + '.html:get_color']

    def __init__(self, n):
        self.n = n
        self.name = 'CSS colour of %s components' % n

    def inputs(self):
        return {'v%d' % i: TReal for i in range(self.n)}

    def requires(self, **v):
        return AND(*[AND(0 <= x, x <= 1) for x in v.values()]) if v else True

    def run(self, **v):
        S = self.mod(ST)
        m = self.mod(CV + '.html')
        if not self.n:
            return self.outcome(lambda: (m.get_color(S.PDFColor(None)), m.get_color(S.PDFColor(None), default='black')))
        return self.outcome(lambda: m.get_color(S.PDFColor(S.PDFColorSpace('space', self.n), *v.values())))

    def ensures(self, out, **v):
        if out[0] != 'ok':
            return [('no exception', False)]
        if not self.n:
            return [('default', out[1] == ('', 'black'))]
        STR = lambda x: hooks.call(str, x)
        x = list(v.values())
        if self.n == 1:
            return [('opacity of black', EQ(out[1], 'rgba(0,0,0,' + STR(1 - x[0]) + ')'))]
        ways = [(100 * a,) for a in x[:3]]
        if self.n == 4:
            # nothing left of a component: 0, or 0.0
            ways = [(100 * (1 - (a + x[3])),) if V.truth(a + x[3] < 1) else (0, V.lift(0.0)) for a in x[:3]]
        return [('percentages', OR(*[EQ(out[1], 'rgb(' + STR(a) + '%,' + STR(b) + '%,' + STR(c) + '%)') for a in ways[0] for b in ways[1] for c in ways[2]]))]


contracts += [Colour(n) for n in (0, 1, 3, 4)]
