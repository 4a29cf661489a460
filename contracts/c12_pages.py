"""Pages of a document: the page tree, inherited attributes, the fallback, selection of pages."""
from vc.contract import *

P = 'pdfmajor.parser.PDFPage'
PP = 'pdfmajor.parser.PDFParser'
S = 'pdfmajor.parser.PDFStream'
D = 'pdfmajor.parser.PDFDocument'
I = 'pdfmajor.interpreter'
KEYS = ['Resources', 'MediaBox', 'CropBox', 'Rotate']
Env = (TInt,) * 4                                   # value of each inheritable attribute, -1: none
PageT = TTuple(TInt, *Env, tag='pagerec')           # object number and inheritable attributes
PagesT = TList(PageT)
subtree = UF('subtree', (TInt,) + Env, PagesT)      # pages below a node, given what its parent hands down (contract of search)


class Ref:
    """a reference to a node"""
    def __init__(self, objid):
        self.objid = objid

    @classmethod
    def _vc_havoc(cls, name):
        return cls(TInt.fresh(name))


TKid = TObj('kid', TInt, Ref, lambda v: v.objid if type(v) is Ref else None)
Kids = TList(TKid)


@spec_fn((Kids, TInt) + Env, PagesT)
def below(K, k, a, b, c, d):
    """pages below the first k kids"""
    if k <= 0:
        return TYPED(PagesT, LST())
    return below(K, k - 1, a, b, c, d) + subtree(AT(K, k - 1).objid, a, b, c, d)


class Ghost:
    _vc_heap = True


def env_of(tree):
    """the inheritable attributes of an attribute dictionary"""
    return tuple(tree[k] if hooks.contains(k, tree) else -1 for k in KEYS)


class Node(Contract):
    name = 'create_pages.search'
    target = [P + ':PDFPage.create_pages']
    internal = True
    budget_s = 300
    loops = [LoopSpec(where='search#1', inv=lambda v: [('pages so far', EQ(v.ghost.out, below(v.ghost.kids, v._k, *v.ghost.env)))]),
             LoopSpec(where='search#2', entry=lambda v: setattr(v.ghost, 'out0', v.ghost.out + LST()),
                      inv=lambda v: [('pages of this kid so far', EQ(v.ghost.out, v.ghost.out0 + SL(v.ghost.kidpages, 0, v._k)))])]

    def __init__(self, kind, byid):
        self.kind, self.byid = kind, byid
        self.name = 'create_pages.search: %s%s' % (kind, ' given by number' if byid else '')

    def inputs(self):
        r = dict(kids=Kids, objid=TInt)
        for k in KEYS:
            r['own' + k] = TInt
            r['up' + k] = TInt
        return r

    def requires(self, **a):
        return AND(*[a[x + k] >= 0 for k in KEYS for x in ('own', 'up')])

    def run(self, kids, objid, **a):
        m = self.mod(P)
        g = self.g = Ghost()
        g.kids, g.out, g.out0 = kids, TYPED(PagesT, LST()), TYPED(PagesT, LST())
        g.kidpages = TYPED(PagesT, LST())
        ctx().ghost['ghost'] = g
        own, up = {}, {}
        c = ctx()
        for k in KEYS:
            if (self.byid or self.kind == 'pages') and k != 'Rotate':
                if k != 'CropBox':
                    (own if k == 'MediaBox' else up)[k] = a[('own' if k == 'MediaBox' else 'up') + k]
                continue
            if c.decide(2):
                own[k] = a['own' + k]
            if c.decide(2):
                up[k] = a['up' + k]
        g.env = tuple(own.get(k, up.get(k, -1)) for k in KEYS)
        tkey, tval = {'Pages': ('Type', m.LITERAL_PAGES), 'Page': ('Type', m.LITERAL_PAGE), 'pages': ('type', m.LITERAL_PAGES), 'page': ('type', m.LITERAL_PAGE),
                      'other': ('Type', object()), 'none': ('Kind', 0), 'no kids': ('Type', m.LITERAL_PAGES)}[self.kind]
        pairs = [(tkey, tval), ('Annots', 5)] + list(own.items())
        if self.kind != 'no kids':
            pairs.append(('Kids', kids))
        node = self.node = hooks.mkdict(*pairs)
        self.before = list(node.ps)
        parent = hooks.mkdict(('Type', m.LITERAL_PAGES), ('Kids', LST()), ('B', 7), ('Annots', 6), ('Count', 1), *up.items())
        first = []

        def search(o, par):
            if not first:
                first.append(1)
                return hooks.callee(objid if self.byid else Ref(objid), parent)
            HAVE(EQ(env_of(par), g.env), 'kids get the attributes of their ancestors')
            g.kidpages = subtree(o.objid, *g.env)
            return AsPairs(g.kidpages)

        class AsPairs(models.SymIter):
            """(number, attributes) of each page of a kid"""
            def __init__(s, pages):
                s.p = pages

            def length(s):
                return LEN(s.p)

            def at(s, k):
                x = AT(s.p, k)
                return (x[0], x)

        class Doc:
            catalog = hooks.mkdict(('Pages', Ref(objid)))
            xrefs = VList([])

            def getobj(s, o):
                HAVE(EQ(o, objid), 'asks for the node')
                return node

        def dict_value(x):
            if x is node:
                return node
            HAVE(EQ(x.objid, objid), 'asks for the node')
            return node

        def page(doc, oid, tree):
            if type(tree) is VDict:
                if hooks.contains('Annots', tree):
                    HAVE(EQ(tree['Annots'], 5), 'attributes that are not inheritable are its own')
                for k in ('B', 'Count'):
                    HAVE(NOT(hooks.contains(k, tree)), 'attributes that are not inheritable are its own')
                tree = (oid,) + env_of(tree)
            g.out = g.out + TYPED(PagesT, LST(tree))
            return tree
        hooks.overrides = {P + ':PDFPage.create_pages.<locals>.search': search, P + ':PDFPage': page, S + '.util:dict_value': dict_value,
                           S + '.util:list_value': lambda x: x}

        def go():
            for x in m.PDFPage.create_pages(Doc()):
                pass
        return self.outcome(go)

    def ensures(self, out, kids, objid, **a):
        g = self.g
        r = [('no exception', out == ('ok', None)), ('the node itself is unchanged', len(self.node.ps) == len(self.before) and
              all(x[0] == y[0] and x[1] is y[1] for x, y in zip(self.node.ps, self.before)))]
        if self.kind in ('Pages', 'pages'):
            want = below(kids, LEN(kids), *g.env)
        elif self.kind in ('Page', 'page'):
            want = TYPED(PagesT, LST((objid,) + g.env))
        else:
            want = TYPED(PagesT, LST())
        return r + [('its pages, in order, with the attributes of their nearest ancestor that has them', EQ(g.out, want))]


# ------------------------------------------------------------------ the document as a whole
ids_of = UF('ids_of', (TInt,), TList(TInt))         # object numbers of a section
is_page = UF('is_page', (TInt,), TBool)             # the object exists and is a page
exists = UF('exists', (TInt,), TBool)
Ints = TList(TInt)
ST = TTuple(Ints, TIntSet, tag='listed')


class Sect:
    def __init__(self, id):
        self.id = id

    def get_objids(self):
        return ids_of(self.id)

    @classmethod
    def _vc_havoc(cls, name):
        return cls(TInt.fresh(name))


TSect = TObj('pagesection', TInt, Sect, lambda v: v.id if type(v) is Sect else None)
Sects = TList(TSect)


@spec_fn((Ints, TInt, TIntSet), TIntSet)
def met(L, n, V):
    """V with the first n of L"""
    if n <= 0:
        return V
    return SETADD(met(L, n - 1, V), AT(L, n - 1))


@spec_fn((Ints, TInt, TIntSet), Ints)
def new_pages(L, n, V):
    """pages among the first n of L, each once, without those in V"""
    if n <= 0:
        return TYPED(Ints, LST())
    x = AT(L, n - 1)
    return new_pages(L, n - 1, V) + ITE(AND(exists(x), is_page(x), NOT(SETHAS(met(L, n - 1, V), x))), TYPED(Ints, LST(x)), TYPED(Ints, LST()))


@spec_fn((Sects, TInt), TIntSet)
def all_met(R, k):
    if k <= 0:
        return SETNONE(TIntSet)
    L = ids_of(AT(R, k - 1).id)
    return met(L, LEN(L), all_met(R, k - 1))


@spec_fn((Sects, TInt), Ints)
def all_pages(R, k):
    """every page object of the first k sections, once"""
    if k <= 0:
        return TYPED(Ints, LST())
    L = ids_of(AT(R, k - 1).id)
    return all_pages(R, k - 1) + new_pages(L, LEN(L), all_met(R, k - 1))


class Outer(Contract):
    name = 'create_pages'
    target = [P + ':PDFPage.create_pages']
    internal = True

    def has(v):
        # the set of numbers met, whatever local holds it
        s = [x for x in v._d.values() if type(x) is models.VSet]
        return TYPED(TIntSet, s[0].els) if s else SETNONE(TIntSet)

    loops = [LoopSpec(where='create_pages#0', inv=lambda v: [('pages so far', EQ(v.ghost.out, SL(v.ghost.tree, 0, v._k))), ('any', EQ(v.pages, v._k > 0))]),
             LoopSpec(where='create_pages#1', types={'*.els': TIntSet}, inv=lambda v, has=has: [
                 ('numbers met', EQ(has(v), all_met(v.ghost.R, v._k))),
                 ('pages so far', EQ(v.ghost.out, all_pages(v.ghost.R, v._k)))]),
             LoopSpec(where='create_pages#2', types={'*.els': TIntSet}, entry=lambda v, has=has: (setattr(v.ghost, 'out0', v.ghost.out + LST()), setattr(v.ghost, 'V0', has(v))), inv=lambda v, has=has: [
                 ('numbers met', EQ(has(v), met(v.ghost.L, v._k, v.ghost.V0))),
                 ('pages so far', EQ(v.ghost.out, v.ghost.out0 + new_pages(v.ghost.L, v._k, v.ghost.V0)))])]

    def __init__(self, root):
        self.root = root
        self.name = 'create_pages, %s' % ('page tree' if root else 'no page tree')

    def inputs(self):
        return dict(tree=Ints, R=Sects)

    def run(self, tree, R):
        m = self.mod(P)
        g = self.g = Ghost()
        g.out, g.out0, g.tree, g.R = TYPED(Ints, LST()), TYPED(Ints, LST()), tree, R
        g.L, g.V0 = TYPED(Ints, LST()), SETNONE(TIntSet)
        ctx().ghost['ghost'] = g

        class Pairs(models.SymIter):
            def length(s):
                return LEN(tree)

            def at(s, k):
                return (AT(tree, k), 'attrs')

        def page(doc, oid, attrs):
            g.out = g.out + LST(oid)
            return oid

        class Doc:
            catalog = hooks.mkdict(*([('Pages', 'root')] if self.root else []))
            xrefs = R

            def getobj(s, o):
                if not exists(o):
                    raise m.PDFObjectNotFound(o)
                return hooks.mkdict(('Type', m.LITERAL_PAGE)) if is_page(o) else hooks.mkdict(('Type', m.LITERAL_PAGES))

        class Sect_(Sect):
            pass

        def get_objids(s):
            g.L = ids_of(s.id)
            return g.L
        old, Sect.get_objids = Sect.get_objids, get_objids
        hooks.overrides = {P + ':PDFPage.create_pages.<locals>.search': lambda o, par: Pairs(), P + ':PDFPage': page}

        def go():
            for x in m.PDFPage.create_pages(Doc()):
                pass
        try:
            return self.outcome(go)
        finally:
            Sect.get_objids = old

    def ensures(self, out, tree, R):
        g = self.g
        r = [('no exception', out == ('ok', None))]
        if self.root and LEN(tree) > 0:
            return r + [('the pages of the tree', EQ(g.out, tree))]
        return r + [('every page object, once, by section', EQ(g.out, all_pages(R, LEN(R))))]


# ------------------------------------------------------------------ one page
class PageInit(Contract):
    name = 'PDFPage'
    target = [P + ':PDFPage.__init__']
    internal = True

    def __init__(self, contents):
        self.contents = contents
        self.name = 'PDFPage, Contents %s' % contents

    def inputs(self):
        return dict(rot=TInt, streams=TList(TInt), crop=TBool, rotated=TBool, res=TBool)

    def run(self, rot, streams, crop, rotated, res):
        m = self.mod(P)
        t = self.t = {k: object() for k in ('MediaBox', 'CropBox', 'Resources', 'Annots', 'B', 'LastModified')}
        refs = {object(): v for v in t.values()}
        ref = {id(v): k for k, v in refs.items()}
        self.one = object()
        val = {'array': streams, 'one stream': self.one}.get(self.contents)
        rval = object()
        pairs = [('Type', m.LITERAL_PAGE), ('MediaBox', ref[id(t['MediaBox'])]), ('Annots', t['Annots']), ('B', t['B']), ('LastModified', ref[id(t['LastModified'])])]
        if V.truth(crop):
            pairs.append(('CropBox', ref[id(t['CropBox'])]))
        if V.truth(res):
            pairs.append(('Resources', ref[id(t['Resources'])]))
        if V.truth(rotated):
            pairs.append(('Rotate', rot))
        if val is not None:
            pairs.append(('Contents', rval))
        attrs = self.attrs = hooks.mkdict(*pairs)

        def resolve1(x, default=None):
            if x is rval:
                return val
            for k, v in refs.items():
                if x is k:
                    return v
            return x
        hooks.overrides = {S + '.util:resolve1': resolve1}
        self.doc = object()
        return self.outcome(m.PDFPage, self.doc, 5, attrs)

    def ensures(self, out, rot, streams, crop, rotated, res):
        if out[0] != 'ok':
            return [('accepted', False)]
        p, t = out[1], self.t
        r = [('document, number, attributes', p.doc is self.doc and p.pageid == 5 and p.attrs is self.attrs),
             ('media box', p.mediabox is t['MediaBox']), ('crop box', p.cropbox is (t['CropBox'] if V.truth(crop) else t['MediaBox'])),
             ('resources', p.resources is t['Resources'] if V.truth(res) else LEN(p.resources) == 0), ('annotations and beads', p.annots is t['Annots'] and p.beads is t['B']),
             ('last modification', p.lastmod is t['LastModified']),
             ('rotation between 0 and 359', EQ(p.rotate, rot % 360 if V.truth(rotated) else 0))]
        if self.contents == 'array':
            return r + [('content streams', p.contents is streams)]
        if self.contents == 'one stream':
            return r + [('content streams', len(p.contents) == 1 and p.contents[0] is self.one)]
        return r + [('no content', len(p.contents) == 0)]


# ------------------------------------------------------------------ selection
chosen = UF('chosen', (TInt,), TBool)


@spec_fn((Ints, TInt), Ints)
def picked(L, n):
    if n <= 0:
        return TYPED(Ints, LST())
    return picked(L, n - 1) + ITE(chosen(n - 1), TYPED(Ints, LST(AT(L, n - 1))), TYPED(Ints, LST()))


class Select(Contract):
    """page numbers, or the first so many pages"""
    name = 'get_pages'
    target = [P + ':PDFPage.get_pages']
    internal = True
    loops = [LoopSpec(where='get_pages#0', inv=lambda v: [
        ('pages so far', EQ(v.ghost.out, picked(v.ghost.L, v._k) if v.ghost.some else SL(v.ghost.L, 0, v._k))),
        ('not yet enough', IMP(NOT(v.maxpages == 0), v._k < v.maxpages))])]

    def __init__(self, some, extract):
        self.some, self.extract = some, extract
        self.name = 'get_pages, %s%s' % ('given pages' if some else 'first pages', '' if extract is None else ', extraction %s' % extract)

    def inputs(self):
        return dict(L=Ints, maxpages=TInt, check=TBool)

    def requires(self, L, maxpages, check):
        return AND(maxpages >= 0, IMP(self.some, maxpages == 0))

    def run(self, L, maxpages, check):
        m = self.mod(P)
        g = self.g = Ghost()
        g.out, g.L, g.some = TYPED(Ints, LST()), L, self.some
        ctx().ghost['ghost'] = g
        made = self.made = []

        class Nos:
            def __bool__(s):
                return True

            def __contains__(s, n):
                return V.truth(chosen(n))
        okay = self.extract != 'forbidden'

        class Doc:
            is_extractable = okay

        def document(parser, password='', caching=True, fallback=True):
            made.append((parser, password, caching))
            return Doc()
        hooks.overrides = {PP + ':PDFParser': lambda fp: ('parser', fp), D + ':PDFDocument': document, P + ':PDFPage.create_pages': lambda c, d: L}
        check = True if self.extract is None else V.truth(check)
        self.checked = check

        def go():
            for x in m.PDFPage.get_pages('file', pagenos=Nos() if self.some else None, maxpages=maxpages, password='pw', caching='c', check_extractable=check):
                g.out = g.out + LST(x)
        return self.outcome(go)

    def ensures(self, out, L, maxpages, check):
        g = self.g
        r = [('document opened with the password', self.made == [(('parser', 'file'), 'pw', 'c')])]
        if self.extract == 'forbidden' and self.checked:
            return r + [('refused', out == ('exc', 'PDFTextExtractionNotAllowed')), ('nothing delivered', LEN(g.out) == 0)]
        r.append(('no exception', out == ('ok', None)))
        if self.some:
            return r + [('exactly the pages asked for, in order', EQ(g.out, picked(L, LEN(L))))]
        if maxpages == 0:
            return r + [('all pages', EQ(g.out, L))]
        n = ITE(maxpages < LEN(L), maxpages, LEN(L))
        return r + [('the first pages', EQ(g.out, SL(L, 0, n)))]


contracts = [Node(k, False) for k in ('Pages', 'Page', 'other', 'none', 'no kids', 'pages', 'page')] + [Node('Pages', True), Node('Page', True), Outer(True), Outer(False)]
contracts += [PageInit(k) for k in ('array', 'one stream', 'missing')] + [Select(False, None), Select(True, None), Select(False, 'forbidden'), Select(True, 'forbidden'), Select(False, 'allowed')]


class Iterate(Contract):
    """iterating over the pages: stop anywhere, start again"""
    name = 'PDFInterpreter'
    target = [I + ':PDFInterpreter.__init__', I + ':PDFInterpreter.__iter__']
    internal = True
    same = lambda v: [('pages so far', IMP(v.ghost.live, EQ(v.ghost.out, SL(v.ghost.L, 0, v._k)))), ('not yet to stop', NOT(AND(v.ghost.stop >= 1, v.ghost.stop <= v._k)))]
    loops = [LoopSpec(where='__load_pages#0', types={'loaded': Ints}, inv=lambda v, same=same: same(v) + [('pages kept', EQ(v.loaded, SL(v.ghost.L, 0, v._k)))]),
             LoopSpec(where='__iter__#0', inv=same)]

    def __init__(self, preload):
        self.preload = preload
        self.name = 'PDFInterpreter%s' % (', preloaded' if preload else '')

    def inputs(self):
        return dict(L=Ints, stop=TInt)

    def run(self, L, stop):
        m = self.mod(I)
        g = Ghost()
        g.L, g.out, g.live, g.stop = L, TYPED(Ints, LST()), False, -1
        ctx().ghost['ghost'] = g

        class File:
            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False

            def read(s):
                return b'file'
        hooks.overrides = {'io:open': lambda *a: File(), '_io:open': lambda *a: File(), P + ':PDFPage.get_pages': lambda c, f, **k: self.asked.append(k) or L,
                           I + '.PageInterpreter:PageInterpreter': lambda page, *a, **k: page, 'pdfmajor.utils:set_log_level': lambda n: None,
                           'pdfmajor.utils.logging:set_log_level': lambda n: None}
        self.asked = []
        box = []

        def make():
            box.append(m.PDFInterpreter('name', maxpages=3, pagenos='nos', password='pw', caching='c', check_extractable='x', preload=self.preload))
        r = [self.outcome(make)]
        if not box:
            return r

        def go(stop):
            g.out, g.live, g.stop = TYPED(Ints, LST()), True, stop
            for x in box[0]:
                g.out = g.out + LST(x)
                if V.truth(LEN(g.out) == stop):
                    break
        for s in (stop, -1, -1):
            r += [self.outcome(go, s), g.out]
        return r

    def ensures(self, out, L, stop):
        if LEN(L) == 0:
            none = ('exc', 'EmptyDocumentError')
            return [('no pages', out[0] == none if self.preload else out[1] == none and out[3] == none)]
        k = dict(maxpages=3, pagenos='nos', password='pw', caching='c', check_extractable='x')
        return [('accepted', len(out) == 7 and all(out[i] == ('ok', None) for i in (0, 1, 3, 5))),
                ('pages selected as asked', all(a == k for a in self.asked)),
                ('the first pages', EQ(out[2], SL(L, 0, stop) if V.truth(AND(stop >= 1, stop <= LEN(L))) else L)),
                ('all pages after a stop', EQ(out[4], L)), ('all pages again', EQ(out[6], L))]


contracts += [Iterate(False), Iterate(True)]


# ------------------------------------------------------------------ probe: documents with random page trees
from .pdfwriter import Writer


ROT = [0, -450, 90, -90, 0, 630, 180, -180, 360]


def gen_node(rng, depth):
    own = {k: rng.randrange(1, 5) for k in KEYS if rng.random() < .35}
    if depth and rng.random() < .6:
        return ('node', own, [gen_node(rng, depth - 1) for _ in range(rng.randrange(0, 4))])
    return ('page', own, rng.choice([0, 1, 2]))


class Tree(Contract):
    """documents with any page tree: the pages, their attributes, their selection, looked at repeatedly"""
    name = 'pages of a document'
    target = [P + ':PDFPage.create_pages', P + ':PDFPage.get_pages', P + ':PDFPage.__init__', I + ':PDFInterpreter.__iter__']
    search_n = 500

    def gen(self, rng):
        linked, again, pagenos = rng.random() < .8, rng.randrange(3), sorted(rng.sample(range(8), rng.randrange(0, 4))) if rng.random() < .4 else []
        if again and not linked:
            pagenos = []
        return dict(tree=('node', {'MediaBox': 1}, [gen_node(rng, rng.randrange(3)) for _ in range(rng.randrange(0, 4))]), linked=linked,
                    again=again, maxpages=rng.choice([0, 1, 2, 3, 9]) if not pagenos and (linked or not again) else 0, pagenos=pagenos, caching=rng.random() < .5,
                    look=rng.choice([0, 1, 2, 99]))

    def requires(self, tree, linked, again, maxpages, pagenos, caching, look):
        def good(t):
            return (type(t) is tuple and len(t) == 3 and t[0] in ('node', 'page') and set(t[1]) <= set(KEYS) and all(type(v) is int and 1 <= v < 9 for v in t[1].values())
                    and (all(good(x) for x in t[2]) if t[0] == 'node' else t[2] in (0, 1, 2)))
        return good(tree) and (linked or not again or not maxpages and not pagenos) and tree[0] == 'node' and 'MediaBox' in tree[1] and maxpages >= 0 and not (maxpages and pagenos) and all(p >= 0 for p in pagenos) and 0 <= again < 4 and look >= 0

    def build(self, tree, linked, again):
        w = Writer()
        bodies, pages = {1: b'<< /Type /Catalog %s>>' % (b'/Pages 2 0 R ' if linked else b'')}, []
        num = [1]
        text = {'Resources': lambda v: b'<< /X %d >>' % v, 'MediaBox': lambda v: b'[0 0 %d 10]' % v, 'CropBox': lambda v: b'[0 0 %d 5]' % v, 'Rotate': lambda v: b'%d' % ROT[v]}

        def put(t, env, parent):
            num[0] += 1
            me = num[0]
            env = {**env, **t[1]}
            attrs = b''.join(b'/%s %s ' % (k.encode(), text[k](v)) for k, v in t[1].items())
            if t[0] == 'node':
                kids = [put(x, env, me) for x in t[2]]
                bodies[me] = b'<< /Type /Pages /Count %d /Kids [%s] %s%s>>' % (len(kids), b' '.join(b'%d 0 R' % k for k in kids), attrs, b'/Parent %d 0 R ' % parent if parent else b'')
            else:
                if not linked and 'MediaBox' not in t[1]:
                    attrs += b'/MediaBox [0 0 1 10] '
                    env = {**env, 'MediaBox': 1}
                bodies[me] = b'<< /Type /Page /N %d /Contents %s %s>>' % (me, [b'[]', b'[900 0 R 901 0 R]', b'900 0 R'][t[2]], attrs)
                e = env if linked else {**t[1], 'MediaBox': env['MediaBox'] if 'MediaBox' not in t[1] else t[1]['MediaBox']}
                pages.append((me, [0, 2, 1][t[2]], e))
            return me
        put(tree, {}, None)
        bodies[900] = w.stream(b'/K 1', b'1 1 8 8 re f')
        bodies[901] = w.stream(b'/K 2', b'1 1 8 8 re S')
        prev = None
        for k in range(again + 1):
            mine = {i: b for i, b in bodies.items() if k == 0 or i % (k + 1) == 0}
            ent = {i: ('n', w.add(i, 0, b), 0) for i, b in mine.items()}
            prev = w.table(ent, b'/Root 1 0 R /Size 999' + (b' /Prev %d' % prev if prev else b''))
            w.finish(prev)
        pages.sort() if not linked else None
        return bytes(w.buf), pages

    def run(self, tree, linked, again, maxpages, pagenos, caching, look):
        import tempfile, os
        data, self.pages = self.build(tree, linked, again)
        m = self.mod(P)

        def go():
            first = [(p.pageid, len(p.contents), p.resources, p.mediabox, p.cropbox, p.rotate)
                     for p in m.PDFPage.get_pages(mkfile(data), pagenos=pagenos, maxpages=maxpages, caching=caching)]
            fd, path = tempfile.mkstemp(suffix='.pdf')
            try:
                os.write(fd, data)
                os.close(fd)
                it = self.mod(I).PDFInterpreter(path, maxpages=maxpages, pagenos=pagenos, caching=caching, password='')
                seen, items = [], []
                for k in range(3):
                    n = 0
                    try:
                        for page in it:
                            n += 1
                            if k == 0 and n >= look:
                                break
                        items.append([(page.page.pageid, len(list(page))) for page in it] if k == 2 else None)
                    except self.mod('pdfmajor.execptions').EmptyDocumentError:
                        n = -1
                    seen.append(n)
            finally:
                os.remove(path)
            return first, seen[1:], items[-1] if items else None
        return self.outcome(go)

    def ensures(self, out, tree, linked, again, maxpages, pagenos, caching, look):
        want = []
        for n, (me, k, e) in enumerate(self.pages):
            if pagenos and n not in pagenos or maxpages and n >= maxpages:
                continue
            mb = [0, 0, e['MediaBox'], 10]
            want.append((me, k, {'X': e['Resources']} if 'Resources' in e else {}, mb, [0, 0, e['CropBox'], 5] if 'CropBox' in e else mb, ROT[e['Rotate']] % 360 if 'Rotate' in e else 0))
        self.want = want
        r = [('opens', out[0] == 'ok')]
        if out[0] != 'ok':
            return r
        got = out[1][0] if linked else sorted(out[1][0], key=lambda x: x[0])
        n = len(want) or -1
        return [('every page once, in order, with its attributes', ceq(got, want)),
                ('as many every time', out[1][1] == [n, n]),
                ('pages stay readable', n == -1 or (out[1][2] if linked else sorted(out[1][2])) == [x[:2] for x in want])]

    def explain(self, out, **kw):
        return 'wanted %r' % (self.want,)


probes = [Tree()]
