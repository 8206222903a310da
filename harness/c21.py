"""C21: JSON and XML import keep every node and value."""
import io
import json
import os
import shutil
import tempfile
import xml.dom.minidom as minidom
from symx import model as M
try:
    from symx import engine as E
except ImportError:        # the replay interpreter has no solver
    E = None

COVERS = ('json', 'xml', 'merged', 'text-only', 'converted', 'not-converted', 'path', 'attribute')
BOUNDS = {
    'quick': 'documents to nesting depth 3 with up to three nodes per level (about 60 JSON and 60 XML shapes); all key, tag and attribute names with every coincidence the formats allow, all values',
    'thorough': 'two further nodes per level'}
ASSUMPTIONS = ['the standard json and xml parsers are exact (their trees carry marked strings that are replaced by symbolic values)',
               'numeric texts are 30 spellings next to the symbolic integers', 'texts are non-empty and have no surrounding white space beyond the padding of the shape', 'lists in JSON documents contain objects, or lists of such']

TABLE = {}


def sub(s):
    return TABLE.get(s, s)


class Padded:
    """Text with white space around it: usable only after stripping."""
    def __init__(self, v):
        self.v = v

    def strip(self, *a):
        return self.v


# ---- int(text), float(text) of symbolic texts ---------------------------------------------------------
class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.base)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls.base)

    def __call__(cls, x=0, *a):
        k = KIND.get(id(x))
        if k is None:
            if type(x) is E.SymOpq:
                raise ValueError('not a number')
            return cls.base(x, *a)
        if k[1] == 'int':
            return k[2]
        if k[1] == 'float' and cls.base is float:
            return k[2]
        raise ValueError('not such a number')


KIND = {}


class SymInt_(metaclass=_Meta):
    base = int


class SymFloat_(metaclass=_Meta):
    base = float


FILES = {}


def setup(L, symbolic):
    if not symbolic:
        return
    E.SymOpq.__len__ = lambda self: 3       # not empty; nothing here depends on more than that
    decode = json.JSONDecoder.decode

    def walk(x):
        if isinstance(x, dict):
            return {sub(k): walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return sub(x) if isinstance(x, str) else x
    json.JSONDecoder.decode = lambda self, s, *a: walk(decode(self, s, *a))

    def fix(doc):
        for n in list(doc.childNodes):
            fix_node(n)
        return doc

    def fix_node(n):
        if n.nodeType == n.ELEMENT_NODE:
            n.tagName = n.nodeName = sub(n.tagName)
            n.__class__ = Elem
        elif n.nodeType == n.TEXT_NODE:
            t = n.data.strip()
            v = sub(t)
            if v is not t:
                n._data = Padded(v) if n.data != t else v
                n.__class__ = Text
        for c in list(n.childNodes or ()):
            fix_node(c)
    parse, parse_string = minidom.parse, minidom.parseString
    minidom.parse = lambda *a, **k: fix(parse(*a, **k))
    minidom.parseString = lambda *a, **k: fix(parse_string(*a, **k))

    def fake_open(path, *a, **k):
        return io.StringIO(FILES[path])
    for m in (L.import_export_json, L.import_export_xml):
        m.__dict__['open'] = fake_open
    for m in (L.import_export_xml, L.import_export_util):
        m.__dict__['int'] = SymInt_
        m.__dict__['float'] = SymFloat_


class Attrs:
    """The attributes of an element, with marked names and values replaced."""
    def __init__(self, real):
        self.real = real

    def items(self):
        return [(sub(k), sub(v)) for k, v in self.real.items()]

    def keys(self):
        return [k for k, _ in self.items()]

    def values(self):
        return [v for v in self.real.values()]

    def __len__(self):
        return len(self.real)

    @property
    def length(self):
        return len(self.real)

    def item(self, i):
        return self.real.item(i)


class Elem(minidom.Element):
    @property
    def attributes(self):
        return Attrs(minidom.Element._get_attributes(self))

    def hasAttributes(self):
        return bool(self._attrs)


class Text(minidom.Text):
    @property
    def data(self):
        return self._data


class Doc:
    """Builds the text of a document; in symbolic mode names and values are marks."""
    def __init__(self, ctx):
        self.ctx = ctx
        TABLE.clear()
        KIND.clear()
        self.keep = []

    def mark(self, v):
        if not self.ctx.symbolic:
            return str(v)
        m = 'zz%dzz' % len(TABLE)
        TABLE[m] = v
        self.keep.append(v)
        return m


def run(ctx, p, fn, text, **kw):
    if not p.get('path'):
        return fn(io.StringIO(text), **kw)
    ctx.cover('path')
    if ctx.symbolic:
        FILES['doc'] = text
        return fn('doc', **kw)
    d = tempfile.mkdtemp(prefix='verif-c21-')
    try:
        f = os.path.join(d, 'doc')
        with open(f, 'w', encoding='utf-8') as o:
            o.write(text)
        return fn(f, **kw)
    finally:
        shutil.rmtree(d)


# ---- JSON --------------------------------------------------------------------------------------------
# shape: 's' text, 'i' any integer (marked), 'k' other constants, {'O': [shapes]} object, {'L': [shapes]} list
CONST = [1, 2.5, True, False, 0, -3, 1e300, '']


def jdoc(ctx, doc, name, sh):
    """-> (JSON tree with marks, reference tree)"""
    if sh == 's':
        v = ctx.opq(name)
        return doc.mark(v), v
    if sh == 'k':
        v = CONST[ctx.choice(name, len(CONST))]
        return v, v
    if 'L' in sh:
        xs = [jdoc(ctx, doc, '%s.%d' % (name, i), s) for i, s in enumerate(sh['L'])]
        return [x for x, _ in xs], ['L'] + [y for _, y in xs]
    ks, a, b = [], {}, ['O']
    for i, s in enumerate(sh['O']):
        k = ctx.opq('%s.k%d' % (name, i))
        for o in ks:
            ctx.assume(k != o)      # keys within an object are distinct
        ks.append(k)
        x, y = jdoc(ctx, doc, '%s.%d' % (name, i), s)
        a[doc.mark(k)] = x
        b.append((k, y))
    return a, b


def jrel(t):
    """Reference: the couplets of a tree."""
    if t[0] == 'L':
        return frozenset(jrel(x) for x in t[1:])
    out = []
    for k, v in t[1:]:
        if isinstance(v, list) and v[0] == 'L':
            out += [('C', ('A', k), jrel(x)) for x in v[1:]]
        elif isinstance(v, list):
            out.append(('C', ('A', k), jrel(v)))
        else:
            out.append(('C', ('A', k), M.atom(v)))
    return frozenset(out)


def h_json(ctx):
    L, p = ctx.L, ctx.p
    doc = Doc(ctx)
    a, t = jdoc(ctx, doc, 'd', p['shape'])
    r = run(ctx, p, L.import_export_json.import_json, json.dumps(a))
    ctx.cover('json')
    want = jrel(t)
    if len(want) < len(t) - 1:
        ctx.cover('merged')
    ctx.same(r, want, 'JSON import')
    types(ctx, r, t)
    ctx.sound(r, 'JSON import')


def types(ctx, r, t):
    """Atoms hold values of the types in the document."""
    have = []

    def col(o):
        if o.is_atom:
            have.append(o.value)
        elif o.is_couplet:
            col(o.left)
            col(o.right)
        else:
            for e in o.data:
                col(e)
    col(r)

    def vals(x):
        if isinstance(x, list):
            for y in x[1:]:
                yield from vals(y[1] if isinstance(y, tuple) else y)
        else:
            yield x
    for v in vals(t):
        ctx.check(any(type(h) is type(v) and bool(h == v) for h in have), 'a value changed its type')


# ---- XML ---------------------------------------------------------------------------------------------
# shape: ['E', [attributes], [children]]; children: element | 't' text | 'i' integer text | 'f' float text | ' ' blank; attribute: 't' | 'i'
NUMERIC = ('0', '7', '-0', '+5', '007', '0.5', '.5', '5.', '-0.0', '1e3', '1E-3', '1_0', '0x10', 'inf', '-Infinity', '1e400', '0b1', '1 2', '1,5', '12a', 'e3', '--1', '1.2.3', 'True', '1j',
           '123456789012345678901234567890', '0.1234567890123456789', '\u0663', '\u00bd')


def text(ctx, doc, name, kind, conv):
    """-> (document text, value expected)"""
    if kind == 'n':
        s = NUMERIC[ctx.choice(name, len(NUMERIC))]
        if not conv:
            return s, s
        try:
            return s, int(s)
        except ValueError:
            pass
        try:
            return s, float(s)
        except ValueError:
            return s, s
    if kind == 't':
        v = ctx.opq(name)
        if not ctx.symbolic:
            return v, v
        return doc.mark(v), v
    if kind == 'i':
        n = ctx.val(name)
        if not ctx.symbolic:
            return str(n), (n if conv else str(n))
        s = E.SymOpq(n.e)           # the text that spells the number
        KIND[id(s)] = (s, 'int', n)
        return doc.mark(s), (n if conv else s)
    x = (1.5, -2.25, 1e10)[ctx.choice(name, 3)]
    if not ctx.symbolic:
        return repr(x), (x if conv else repr(x))
    s = repr(x)
    return s, (x if conv else s)


def xdoc(ctx, doc, name, sh, conv, pad):
    """-> (XML text, couplet expected)"""
    tag = ctx.opq(name + '.t')
    attrs, names, cps = '', [], []
    for i, a in enumerate(sh[1]):
        n = ctx.opq('%s.n%d' % (name, i))
        for o in names:
            ctx.assume(n != o)
        names.append(n)
        s, v = text(ctx, doc, '%s.a%d' % (name, i), a, conv)
        attrs += ' %s="%s"' % (doc.mark(n), s)
        cps.append(('C', ('A', n), M.atom(v)))
        ctx.cover('attribute')
    body = ''
    for i, c in enumerate(sh[2]):
        nm = '%s.%d' % (name, i)
        if c == ' ':
            body += '\n  '
        elif isinstance(c, list):
            s, e = xdoc(ctx, doc, nm, c, conv, pad)
            body += s
            cps.append(e)
        else:
            s, v = text(ctx, doc, nm, c, conv)
            if conv:
                ctx.cover('not-converted' if c == 't' else 'converted')
            body += ('\n ' + s + '\t ') if pad else s
            cps.append(('C', ('A', '$'), M.atom(v)))
    rel = frozenset(cps)
    texts = [e for e in rel if e[1] == ('A', '$')]
    if len(rel) == 1 and texts:
        ctx.cover('text-only')
        right = texts[0][2]
    else:
        right = rel
    if len(rel) < len(cps):
        ctx.cover('merged')
    m = doc.mark(tag)
    return '<%s%s>%s</%s>' % (m, attrs, body, m), ('C', ('A', tag), right)


def h_xml(ctx):
    L, p = ctx.L, ctx.p
    doc = Doc(ctx)
    conv = p.get('conv', False)
    s, e = xdoc(ctx, doc, 'd', p['shape'], conv, p.get('pad'))
    kw = {'convert_numerics': True} if conv else {}
    r = run(ctx, p, L.import_export_xml.import_xml, s, **kw)
    ctx.cover('xml')
    ctx.same(r, frozenset([e]), 'XML import')
    ctx.sound(r, 'XML import')
    if p.get('again'):
        doc2 = Doc(ctx)
        s2, e2 = xdoc(ctx, doc2, 'd2', p['again'], conv, p.get('pad'))
        r2 = run(ctx, p, L.import_export_xml.import_xml, s2, **kw)
        ctx.same(r2, frozenset([e2]), 'second XML import')
        ctx.same(r, frozenset([e]), 'first XML import, later')


def O(*s):
    return {'O': list(s)}


def Li(*s):
    return {'L': list(s)}


def cases(tier):
    big = tier == 'thorough'
    js = [O(), O('s'), O('s', 's'), O('s', 's', 's'), O('k'), O('k', 'k'), O(O()), O(O('s')), O(O('s'), O('s')), O('s', O('s')), O(O('s', 's')), O(O('s'), 's', 'k'), O(Li()), O(Li(O())),
          O(Li(O('s'))), O(Li(O('s'), O('s'))), O(Li(O('s'), O('s'), O('s'))), O(Li(O('s', 's'), O('s'))), O(Li(O('s'), O('s')), 's'), O(Li(O('s')), Li(O('s'))), O(Li(O('s'), O('s')), O('s')),
          O(O(O('s'))), O(O(O('s'), 's')), O(O(Li(O('s'), O('s')))), O(Li(O(Li(O('s'), O('s'))))), O(Li(O(O('s')), O(O('s')))), O(Li(O('k'), O('k'))), O(O('k'), O('k')),
          O(Li(Li(O('s')))), O(Li(Li(O('s'), O('s')))), O(Li(Li(O('s')), Li(O('s')))), O(Li(Li(), O('s'))), Li(), Li(O('s')), Li(O('s'), O('s')), Li(O('s', 's'), O('s')), Li(O(O('s')), O('s')),
          Li(Li(O('s')), O('s')), Li(Li(O('s'), O('s'))), Li(O(Li(O('s'), O('s')))), Li(O(), O('s')), Li(O('s'), O('s'), O('s'))]
    if big:
        js += [O('s', 's', 's', 's'), O(Li(O('s', 's'), O('s', 's'))), Li(O('s', 's'), O('s', 's')), O(O('s', 's'), O('s', 's')), O(Li(O('s'), O('s'), O('s'), O('s'))), O(Li(O('s'), O('s')), Li(O('s'), O('s')))]
    for s in js:
        for path in (False, True):
            yield h_json, dict(shape=s, path=path)

    def e(attrs, *children):
        return ['E', list(attrs), list(children)]
    xs = [e(''), e('', 't'), e('', 'i'), e('', 'f'), e('t'), e('i'), e('tt'), e('ti'), e('t', 't'), e('i', 't'), e('t', 'i'), e('', ' ', e('', 't'), ' '), e('', e('')), e('', e('', 't')),
          e('', e('', 't'), e('', 't')), e('', e('', 'i'), e('', 'i')), e('', e('', 'i'), e('', 't')), e('', e('', 't'), e('', 't'), e('', 't')), e('', e('', e('', 't'))), e('', e('t')),
          e('', e('t'), e('t')), e('t', e('', 't')), e('t', e('t', 't')), e('', 't', e('', 't')), e('', 't', e('')), e('', e('', 't'), 't'), e('', 't', e('', 't'), 't'), e('', 't', e('t'), 'i'),
          e('', e('', e('', 't')), e('', e('', 't'))), e('', e('', e('', 't'), e('', 't'))), e('', e('', e('', 't'), e('', 't')), e('', 't')), e('t', e('', e('', 't')), e('', 't')),
          e('', e('', ' '), e('')), e('', e('t', 't'), e('t', 't')), e('', e('', 'f'), e('', 'i')), e('', e('', e('', e('', 't')))), e('tt', e('', 't')), e('ii', 'i')]
    if big:
        xs += [e('', *[e('', 't')] * 4), e('', e('tt', 't'), e('t', 't')), e('', e('', e('', 't'), e('', 't')), e('', e('', 't'), e('', 't'))), e('tt', 't', e('', 't'), 't'), e('', e('t', e('', 't')), e('t', e('', 't')))]
    for s in xs:
        for conv in (False, True):
            yield h_xml, dict(shape=s, conv=conv)
            yield h_xml, dict(shape=s, conv=conv, path=True, pad=True)
    for s in (e('', 'n'), e('n'), e('n', 'n'), e('', e('', 'n'), e('n')), e('t', 'n')):
        for conv in (False, True):
            yield h_xml, dict(shape=s, conv=conv), 900
    for a, b in ((e('', e('', 't')), e('', 't')), (e('t', 't'), e('t')), (e('', e('', 'i')), e('i', e('', 't')))):
        for conv in (False, True):
            yield h_xml, dict(shape=a, again=b, conv=conv)
