"""C26: LaTeX, HTML and text renderings show every element."""
import contextlib
import html.parser
import io
import itertools
from harness import c02

COVERS = ('set', 'multiset', 'couplet', 'short', 'cut text', 'order', 'page', 'container', 'listing', 'undefined')
BOUNDS = {
    'quick': 'objects of up to 5 leaves and nesting depth 3, every order of construction, integer and text values symbolic (every order of values and texts); '
             'short form with limits 1 and 2; pages of up to 2 objects over 8 constant texts with special characters',
    'thorough': 'objects of up to 6 leaves, short form with limits 1 to 3'}
ASSUMPTIONS = c02.ASSUMPTIONS + ['texts of atoms contain no LaTeX control sequences (the renderer does not escape them); listings are read for lines shorter than the line limit']
LONG = 'abcdefghijklmnopq'
texts, build, text_of = c02.texts, c02.build, c02.text_of


def setup(L, symbolic):
    c02.setup(L, symbolic)


# ---- reading LaTeX ----------------------------------------------------------------------------------
class Reader:
    def __init__(self, text):
        self.t, self.i = text, 0

    def space(self):
        while True:
            for s in ('\\ ', '\\\\', '\\>', '\\;', ' ', '\n', '\t', '\\quad', '\\qquad'):
                if self.t.startswith(s, self.i):
                    self.i += len(s)
                    break
            else:
                return

    def at(self, s):
        self.space()
        return self.t.startswith(s, self.i)

    def take(self, s):
        self.space()
        if self.t.startswith(s, self.i):
            self.i += len(s)
            return True
        return False

    def need(self, s):
        if not self.take(s):
            raise ValueError('%r expected at %d in %r' % (s, self.i, self.t))

    def number(self):
        self.space()
        j = self.i
        while self.t[j:j + 1].isdigit():
            j += 1
        n, self.i = int(self.t[self.i:j]), j
        return n

    def group(self, close):
        """A rendered object inside brackets and colors."""
        r = self.obj()
        self.need(close)
        return r

    def part(self):
        if self.take('\\left('):
            return self.group('\\right)')
        if self.take('('):
            return self.group(')')
        if self.take('\\color{'):
            self.i = self.t.index('}', self.i) + 1
            self.need('{')
            return self.group('}')
        if self.take('{\\mapsto}'):
            raise ValueError('part expected')
        if self.take('{'):
            return self.group('}')
        if self.take('\\mbox{'):
            j = self.t.index('}', self.i)
            s, self.i = self.t[self.i:j], j + 1
            return 'A', s
        if self.take('\\left\\{'):
            return self.items('S', '\\right\\}')
        if self.take('\\left['):
            return self.items('M', '\\right]')
        raise ValueError('unexpected %r' % self.t[self.i:])

    def obj(self):
        left = self.part()
        if self.take('{\\mapsto}'):
            return 'C', left, self.part()
        return left

    def items(self, kind, close):
        out, rest = [], 0
        array = self.take('\\begin{array}{l}')
        end = '\\end{array}' if array else close
        while not self.at(end):
            if self.take('\\text{...}'):
                self.need('(')
                rest = self.number()
                self.need(')')
                break
            e = self.obj()
            if kind == 'M':
                self.need(':')
                e = e, self.number()
            out.append(e)
            if not self.take(','):
                break
        self.need(end)
        if array:
            self.need(close)
        return kind, out, rest


def read(text):
    r = Reader(str.__str__(text))
    o = r.obj()
    r.space()
    if r.i != len(r.t):
        raise ValueError('more text: %r' % r.t[r.i:])
    return o


def expected(o, limit):
    if o.is_atom:
        s = str(o)
        if limit and len(s) > 13:
            s = s[:10] + '...'
        return 'A', s
    if o.is_couplet:
        return 'C', expected(o.left, limit), expected(o.right, limit)
    if o.is_set:
        es = [(e, None) for e in sorted(o.data)]
    else:
        es = sorted(o.data.items(), key=lambda p: p[0])
    rest = 0
    if limit and len(es) > limit + 1:
        rest, es = len(es) - limit, es[:limit]
    return 'S' if o.is_set else 'M', [expected(e, limit) if n is None else (expected(e, limit), n) for e, n in es], rest


def alike(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return bool(text_of(a) == text_of(b))
    return a == b


def shown(ctx, text, x, limit, what):
    try:
        got = read(text)
    except ValueError as exc:
        ctx.check(False, '%s: not readable: %s' % (what, exc))
        return
    ctx.check(alike(got, expected(x, limit)), '%s: shows other elements' % what)


def make(ctx, p):
    """The same object twice, constructed in different orders."""
    L = ctx.L
    es = [build(ctx, 'e%d' % i, s) for i, s in enumerate(p['items'])]
    if p['kind'] == 'one':
        return es[0], es[0]
    perms = list(itertools.permutations(range(len(es))))
    fs = [es[i] for i in perms[ctx.choice('perm', len(perms))]]
    if p['kind'] == 'set':
        x, y = L.mo.Set(es), L.mo.Set(fs)
    else:
        k = es[:1] * p.get('times', 0)
        x, y = L.mo.Multiset(k + es), L.mo.Multiset(fs + k)
    w = p.get('wrap')
    if w == 'left':
        x, y = L.mo.Couplet(x, L.mo.Atom('k')), L.mo.Couplet(y, L.mo.Atom('k'))
    elif w == 'right':
        x, y = L.mo.Couplet(L.mo.Atom('k'), x), L.mo.Couplet(L.mo.Atom('k'), y)
    elif w == 'set':
        k = L.mo.Couplet(L.mo.Atom('k'), L.mo.Atom('l'))
        x, y = L.mo.Set(x, k), L.mo.Set(k, y)
    return x, y


def h_latex(ctx):
    L, p = ctx.L, ctx.p
    texts(ctx)
    x, y = make(ctx, p)
    lp = L.util_latexprinter
    limit = p['limit']
    lp.Config.colorize_output = p['color']
    lp.Config.short_set_len = limit or 4
    try:
        a, b = (lp.math_object_to_latex(o, short=bool(limit)) for o in (x, y))
    finally:
        lp.Config.colorize_output, lp.Config.short_set_len = True, 4
    ctx.cover('set' if x.is_set else 'multiset' if x.is_multiset else 'couplet' if x.is_couplet else 'atom')
    if limit:
        ctx.cover('short')
        if LONG in p['items'] or '=' + LONG in p['items']:
            ctx.cover('cut text')
    ctx.cover('order')
    ctx.check(bool(text_of(a) == text_of(b)), 'the LaTeX form depends on the order of construction')
    shown(ctx, a, x, limit, 'LaTeX')


def atoms_of(o, n=1, out=None):
    out = [] if out is None else out
    if o.is_atom:
        out += [o] * n
    elif o.is_couplet:
        atoms_of(o.left, n, out)
        atoms_of(o.right, n, out)
    elif o.is_set:
        for e in o.data:
            atoms_of(e, n, out)
    else:
        for e, k in o.data.items():
            atoms_of(e, n * k, out)
    return out


def h_listing(ctx):
    """Every atom in the readable listing, as often as it occurs."""
    L, p = ctx.L, ctx.p
    texts(ctx)
    x, _ = make(ctx, p)
    f = str if p['brief'] else repr
    text = str.__str__(L.util_mathobjectprinter.mo_to_str(x, abbreviated=p['brief'], max_line_len=500))
    ctx.cover('listing')
    for s in sorted((str.__str__(f(a)) for a in atoms_of(x)), key=len, reverse=True):
        i = text.find(s)
        ctx.check(i >= 0, 'an element is missing in the listing')
        if i < 0:
            return
        text = text[:i] + text[i + len(s):]
    words = 'Couplet Set Multiset left right'.split()
    for w in () if p['brief'] else words:
        text = text.replace(w, '')
    ctx.check(not any(c.isalnum() or ord(c) >= c02.FIRST for c in text), 'the listing shows something else')


# ---- HTML -------------------------------------------------------------------------------------------
class Page(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.texts, self.open, self.tags = {}, [], []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        if tag == 'br':
            self.handle_data('\n')
        else:
            self.open.append((tag, dict(attrs).get('id')))
        ident = dict(attrs).get('id')
        if ident:
            self.texts.setdefault(ident, []).append('')

    def handle_endtag(self, tag):
        while tag != 'br' and self.open and self.open.pop()[0] != tag:
            pass

    def handle_data(self, data):
        for _, ident in self.open:
            if ident:
                self.texts[ident][-1] += data


SPECIAL = ['t', 'a<b', 'a>b & c', '"q"', "it's", '&amp;', '{0}{x}', '<script>x</script>']


def h_page(ctx):
    L, p = ctx.L, ctx.p
    texts(ctx)
    H, latex = L.util_html, L.util_latexprinter.math_object_to_latex
    title = SPECIAL[ctx.choice('title', len(SPECIAL))]
    s = SPECIAL[ctx.choice('text', len(SPECIAL))]
    xs = [build(ctx, 'x%d' % i, k) for i, k in enumerate(p['items'])]
    if p.get('special'):
        xs.append(L.mo.Set(L.mo.Couplet(s, 'v'), s))
    ctx.check(Page('<p id="q">' + H.as_html_handle_basic_parameter(s) + '</p>').texts['q'][0] == s, 'escaped text')
    ds = H.build_descriptors_from_math_obj(xs)
    ctx.check(len(ds) == len(xs) and all(d.data_algebra_construct is x and alike(d.input_title, str(x)) for d, x in zip(ds, xs)), 'descriptors')
    ds = [H.DataAlgebraHtmlDescriptor(str(x), x, s) for x in xs]
    if p.get('text'):
        ds.append(H.DataAlgebraHtmlDescriptor(s, s, title))
    page = Page(H.math_object_as_html(title, ds))
    t = page.texts
    n = len(xs) + bool(p.get('text'))
    ctx.cover('page')
    ctx.check(t.get('page_title') == [title], 'page title')
    ctx.check('script' not in page.tags[5:], 'text becomes markup')
    ctx.check(len(t.get('input_title', ())) == len(t.get('description_brief', ())) == len(t.get('data_algebra_construct', ())) == n, 'number of objects on the page') if n else None
    for d, a, b, c in zip(ds, t.get('input_title', ()), t.get('description_brief', ()), t.get('data_algebra_construct', ())):
        x = d.data_algebra_construct
        ctx.check(alike(a, d.input_title), 'object title')
        ctx.check(b == d.description_brief, 'object description')
        ctx.check(alike(c, s if x is s else '$$' + latex(x) + '$$'), 'object')
    own = H.math_object_as_html(title, ds, 'H{page_title}.', 'F', '[{input_title}|{description_brief}|{data_algebra_construct}]')
    ctx.check(own.startswith('H' + H.as_html_handle_basic_parameter(title) + '.') and own.endswith('F'), 'own templates')
    if xs:
        ctx.cover('container')
        c = Page('<p id="q">' + H.as_html_handle_data_algebra(xs + [s]) + '</p>').texts['q'][0]
        pos = -1
        for x in xs:
            i = c.find(str.__str__(latex(x)), pos + 1)
            ctx.check(i > pos, 'objects of a container')
            pos = i
        ctx.check(c.rstrip().endswith(s), 'texts in a container')
        with contextlib.redirect_stdout(io.StringIO()):
            w = Page(H.create_simple_web_page(xs[0]))
        ctx.check(alike(w.texts.get('dataAlgebraArea'), [str(xs[0])]), 'simple page: object')
        ctx.check(str.__str__(latex(xs[0])) in w.texts.get('latexArea', [''])[0], 'simple page: LaTeX')
    ctx.check(H.as_html_handle_data_algebra(7) == '7', 'other values')
    ctx.check('undef' in latex(L.U), 'undefined')
    ctx.cover('undefined')


def cases(tier):
    big = tier == 'thorough'
    C, CB, S1, S2, M1 = ['C', 'a', 'a'], ['C', 'b', 'a'], ['S', 'a'], ['S', 'a', 'a'], ['M', ['a', [1, 2, 12]]]
    one = ['a', 'b', '=' + LONG, C, ['C', C, 'a'], ['C', 'a', C], ['C', S1, S1], ['C', M1, ['C', 'b', C]], ['S'], ['M'], ['C', ['S'], ['M']]]
    pools = [['a'], ['a', 'b'], ['a', 'a'], ['a', 'a', 'b'], [C, 'a'], [C, C, 'a'], [C, 'a', 'b', C], [S1, 'a'], [S1, C, 'a'], [S2, S1], [M1, S1], [['S'], 'a'], ['=' + LONG, 'a'],
             [C, CB, C], ['a', 'a', 'a', 'a'], [['S', S1], C], [['C', 'a', S1], C], [['M'], M1, C], ['a', C, CB, ['C', 'a', '=k']]]
    if big:
        pools += [['a', 'b', C, CB, 'a'], [S2, S2, C], [['S', C, 'a'], ['S', C]], [M1, M1, 'a']]
    limits = (None, 1, 2) + ((3,) if big else ())
    for limit in limits:
        for color in ((True, False) if not limit else (bool(limit % 2),)):
            for s in one:
                yield h_latex, dict(kind='one', items=[s], limit=limit, color=color), 2
            for items in pools:
                n = 4 ** len(items)
                yield h_latex, dict(kind='set', items=items, limit=limit, color=color), n
                yield h_latex, dict(kind='multiset', items=items, limit=limit, color=color, times=1), n
                if len(items) < 4:
                    for w in ('left', 'right', 'set'):
                        yield h_latex, dict(kind='set' if w != 'set' else 'multiset', items=items, limit=limit, color=color, wrap=w), n
                        if not limit:
                            yield h_latex, dict(kind='multiset', items=items, limit=limit, color=color, wrap=w, times=2), n
    for brief in (True, False):
        for s in one:
            yield h_listing, dict(kind='one', items=[s], brief=brief), 2
        for items in pools:
            if '=' + LONG not in items:
                yield h_listing, dict(kind='set', items=items, brief=brief), 4 ** len(items)
                yield h_listing, dict(kind='multiset', items=items, brief=brief, times=1), 4 ** len(items)
    for items in ([], ['a'], [C, S1], [M1]):
        for special in (False, True):
            for t in (False, True):
                yield h_page, dict(items=items, special=special, text=t), 9
