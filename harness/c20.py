"""C20: CSV import and export preserve rows."""
import csv
import io
import os
import shutil
import tempfile
from symx import model as M
try:
    from symx import engine as E
except ImportError:        # the replay interpreter has no solver
    E = None

COVERS = ('import', 'missing', 'typed', 'index', 'merged', 'counted', 'regular', 'not-regular', 'export', 'refused', 'sorted', 'round-trip', 'path', 'constant')
BOUNDS = {
    'quick': 'tables of up to 3 columns and 3 rows, every pattern of empty and missing cells, all cell texts and their coincidences, up to 2 skipped lines; '
             'clans and multiclans of up to 3 relations over up to 3 columns, multiplicities up to 3; every sound combination of remembered properties',
    'thorough': 'up to 4 rows, two imports in a row'}
ASSUMPTIONS = ['the standard csv module splits and joins lines exactly (its reader and writer objects are replaced by ones that move symbolic cells; '
               'DictReader and DictWriter run as they are)', 'type conversions are arbitrary functions of the cell text']


# ---- files whose lines carry symbolic cells ----------------------------------------------------------
class Line:
    def __init__(self, cells):
        self.cells = list(cells)


class File:
    def __init__(self, lines=()):
        self.lines = list(lines)
        self.i = 0
        self.closed = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.lines):
            raise StopIteration
        self.i += 1
        return self.lines[self.i - 1]

    def readline(self):
        return next(self, '')

    def readlines(self):
        return list(self)

    def write(self, line):
        self.lines.append(line)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True


class Reader:
    def __init__(self, f, *a, **k):
        self.f = iter(f)
        self.line_num = 0

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.f)
        self.line_num += 1
        return list(x.cells) if isinstance(x, Line) else [c for c in x.rstrip('\r\n').split(',') if x.strip()]


class Writer:
    def __init__(self, f, *a, **k):
        self.f = f

    def writerow(self, row):
        self.f.write(Line(['' if c is None else c for c in row]))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


FILES = {}


def setup(L, symbolic):
    if not symbolic:
        return
    csv.reader, csv.writer = Reader, Writer

    def fake_open(path, mode='r', *a, **k):
        if 'w' in mode:
            FILES[path] = File()
        f = FILES[path]
        f.i = 0
        return f
    for m in (L.import_export_csv, L.util_miscellaneous, L.import_export_util):
        m.__dict__['open'] = fake_open


class Place:
    """A file that can be handed to the library, in the form asked for (object or path)."""
    def __init__(self, ctx, path=False):
        self.ctx, self.path = ctx, path
        self.dir = None
        if ctx.symbolic:
            self.f = File()
            if path:
                FILES['x.csv'] = self.f
        elif path:
            self.dir = tempfile.mkdtemp(prefix='verif-c20-')
        else:
            self.f = io.StringIO(newline='')

    def arg(self):
        if self.ctx.symbolic:
            return 'x.csv' if self.path else self.f
        return os.path.join(self.dir, 'x.csv') if self.path else self.f

    def put(self, rows):
        if self.ctx.symbolic:
            self.f.lines = [Line(r) for r in rows]
            return
        out = io.StringIO(newline='')
        w = csv.writer(out)
        for r in rows:
            if r:
                w.writerow(r)
            else:
                out.write('\r\n')
        if self.path:
            with open(self.arg(), 'w', encoding='utf-8', newline='') as f:
                f.write(out.getvalue())
        else:
            self.f = io.StringIO(out.getvalue(), newline='')

    def rows(self):
        """What was written."""
        if self.ctx.symbolic:
            f = FILES['x.csv'] if self.path else self.f
            return [x.cells if isinstance(x, Line) else x for x in f.lines]
        if self.path:
            if not os.path.exists(self.arg()):
                return []
            with open(self.arg(), encoding='utf-8', newline='') as f:
                return list(csv.reader(f))
        return list(csv.reader(io.StringIO(self.f.getvalue(), newline='')))

    def rewind(self):
        if not self.path:
            if self.ctx.symbolic:
                self.f.i = 0
            else:
                self.f.seek(0)

    def done(self):
        if self.dir:
            shutil.rmtree(self.dir)


def conv(ctx, name):
    f = ctx.fun(name)
    if ctx.symbolic:
        return lambda s: f(E.SymInt(s.e)) if type(s) is not str else f(-1000 - CONST.index(s))
    return lambda s: f(int(s[1:]) if s not in CONST else ctx._map(-1000 - CONST.index(s)))


# cells that are white space, or look like something else
CONST = ('  ', ' x', 'x ', '0', 'None', 'a,b', '"', 'l\nm', "'")


# ---- import ------------------------------------------------------------------------------------------
def table(ctx, name, p):
    """Rows of cells: '' or a text; short rows where asked for."""
    rows = []
    n = len(p['cols'])
    for i in range(p['rows']):
        k = n
        if p.get('short') and i == p['short'][0]:
            k = p['short'][1]
        r = []
        for j in range(k):
            full = i * n + j in p['full'] if isinstance(p.get('full'), list) else (True if p.get('full') else bool(ctx.bool('%s.e%d.%d' % (name, i, j))))
            if full and i * n + j in p.get('const', ()):
                ctx.cover('constant')
                r.append(CONST[ctx.choice('%s.k%d.%d' % (name, i, j), len(CONST))])
                continue
            r.append(ctx.opq('%s.%d.%d' % (name, i, j)) if full else '')
        rows.append(r)
    return rows


def expected(ctx, p, rows, types):
    out, i = [], 0
    for r in rows:
        if not r:
            continue
        d = []
        for c, x in zip(p['cols'], r):
            if type(x) is str and x == '':
                ctx.cover('missing')
                continue
            d.append((c, types[c](x) if c in types else x))
        if p.get('index'):
            ctx.cover('index')
            d = [x for x in d if x[0] != p['index']] + [(p['index'], i)]
        i += 1
        out.append(frozenset(('C', ('A', c), M.atom(x)) for c, x in d))
    return out


def run_import(ctx, p, name):
    L = ctx.L
    rows = table(ctx, name, p)
    types = {c: conv(ctx, 'conv' + c) for c in p.get('types', ())}
    if p.get('types'):
        ctx.cover('typed')
    want = expected(ctx, p, rows, types)
    pl = Place(ctx, p.get('path'))
    try:
        head = [] if p.get('columns') else [p['cols']]
        pl.put([['junk', 'x']] * p.get('skip', 0) + head + rows)
        kw = {}
        if p.get('types'):
            kw['types'] = dict(types, other=None)
        if p.get('skip'):
            kw['skip_rows'] = p['skip']
        if p.get('index'):
            kw['index_column'] = p['index']
            ctx.cover('index')
        if p.get('dup'):
            kw['has_dup_rows'] = True
        if p.get('columns'):
            kw['columns'] = list(p['cols'])
        if p.get('path'):
            ctx.cover('path')
        return L.import_export_csv.import_csv(pl.arg(), **kw), want
    finally:
        pl.done()


def verify(ctx, p, r, want, msg):
    ctx.cover('import')
    if p.get('dup'):
        ctx.cover('counted')
        ctx.check(r.is_multiset, msg + ': no multiclan')
        ms = M.MS([(w, 1) for w in want])
        ctx.same(r, ms, msg)
    else:
        ctx.check(r.is_set, msg + ': no clan')
        s = frozenset(want)
        if len(s) < len(want):
            ctx.cover('merged')
        ctx.same(r, s, msg)
    k = ctx.known(r, 'regular')
    ctx.cover('regular' if k == M.IS else 'not-regular')
    ctx.sound(r, msg)


def h_import(ctx):
    p = ctx.p
    r, want = run_import(ctx, p, 't')
    verify(ctx, p, r, want, 'import')
    if p.get('again'):
        q = dict(p, **p['again'])
        r2, want2 = run_import(ctx, q, 'u')
        verify(ctx, q, r2, want2, 'second import')
        verify(ctx, p, r, want, 'first import, later')


# ---- export ------------------------------------------------------------------------------------------
def build(ctx, p):
    mk = [['S'] + [['C', '=' + c, p.get('leaf', 'b')] for c in cols] for cols in p['rels']]
    if p.get('mult'):
        return ctx.build('o', ['M'] + [[s, [1, p['mult']]] for s in mk])
    return ctx.build('o', ['S'] + mk)


def plain_rows(ctx, o, cols):
    """The rows expected for ``cols``: one per relation (and multiplicity)."""
    d = M.den(o)
    out = []
    for rel, n in (d.items() if o.is_multiset else [(r, 1) for r in d]):
        row = []
        for c in cols:
            xs = [e[2][1] for e in rel if e[1] == ('A', c)]
            row.append(xs[0] if len(xs) == 1 else '')
        n = ctx.eng.concretize(n.e) if ctx.symbolic and not isinstance(n, int) else n
        if ctx.symbolic and type(n) is not int:
            n = n.__index__()
        out += [row] * n
    return out


def rows_match(xs, ys):
    rest = list(ys)
    if len(xs) != len(ys):
        return False
    for x in xs:
        for i, y in enumerate(rest):
            if len(x) == len(y) and all(bool(a == b) for a, b in zip(x, y)):
                del rest[i]
                break
        else:
            return False
    return True


def h_export(ctx):
    L, p = ctx.L, ctx.p
    ex = L.import_export_csv
    o = build(ctx, p)
    v = M.view(o)
    ctx.lazies(p, ('o', o))
    pl = Place(ctx, p.get('path'))
    try:
        kw = {}
        cols = p.get('cols')
        if cols is not None:
            kw['ordered_lefts'] = list(cols)
        rank = None
        if p.get('sort'):
            f = conv(ctx, 'rank')

            def rank(rel):
                for e in rel:
                    if e.left.value == p['sort']:
                        return f(e.right.value)
            kw['sort_key'] = rank
        ok = ex.export_csv(o, pl.arg(), **kw)
        if cols is None:
            # all columns, if the same in every row
            regular = all(sorted(set(c)) == sorted(set(p['rels'][0])) for c in p['rels']) and \
                all(len({e[1][1] for e in r}) == len(r) for r in (M.den(o).keys() if o.is_multiset else M.den(o)))
            if not regular:
                ctx.cover('refused')
                ctx.check(ok is False, 'an irregular clan without columns is not refused')
                ctx.check(pl.rows() == [], 'refused, but something is written')
                return
            cols = sorted(set(p['rels'][0]))
        ctx.check(ok is True, 'not exported')
        ctx.cover('export')
        got = pl.rows()
        ctx.check(len(got) > 0 and len(got[0]) == len(cols) and all(bool(a == b) for a, b in zip(got[0], cols)), 'header')
        want = plain_rows(ctx, o, cols)
        ctx.check(rows_match(got[1:], want), 'rows')
        if rank is not None:
            ctx.cover('sorted')
            i = cols.index(p['sort'])
            ks = [f(r[i]) for r in got[1:]]
            for a, b in zip(ks, ks[1:]):
                ctx.check(a <= b, 'rows are not sorted')
        if p.get('back'):
            pl.rewind()
            r = ex.import_csv(pl.arg(), has_dup_rows=o.is_multiset)
            ctx.cover('round-trip')
            ctx.check(M.veq(M.view(r), v), 'importing the exported rows gives other data')
            ctx.sound(r, 'import')
        ctx.check(M.veq(M.view(o), v), 'the export changed its input')
        ctx.sound(o, 'operand')
    finally:
        pl.done()


def h_refuse(ctx):
    """Anything that is not an absolute clan or multiclan is refused."""
    L, p = ctx.L, ctx.p
    o = ctx.build('o', p['shape'])
    ctx.lazies(p, *([('o', o)] if o.is_set or o.is_multiset else []))
    pl = Place(ctx)
    ok = L.import_export_csv.export_csv(o, pl.arg(), ordered_lefts=['A'])
    ctx.cover('refused')
    ctx.check(ok is False and pl.rows() == [], 'not refused')


def cases(tier):
    big = tier == 'thorough'
    A, AB, ABC = ['A'], ['A', 'B'], ['A', 'B', 'C']
    for path in (False, True):
        for dup in (False, True):
            for cols, rows in ((A, 0), (A, 1), (A, 2), (A, 3), (AB, 1), (AB, 2), (ABC, 1)):
                yield h_import, dict(cols=cols, rows=rows, dup=dup, path=path), 4 ** (len(cols) * rows)
            yield h_import, dict(cols=AB, rows=2, dup=dup, path=path, columns=True), 99
            yield h_import, dict(cols=AB, rows=2, dup=dup, path=path, skip=1), 99
            yield h_import, dict(cols=AB, rows=2, dup=dup, path=path, skip=2, columns=True), 99
            yield h_import, dict(cols=AB, rows=2, dup=dup, path=path, types=['A']), 99
            yield h_import, dict(cols=AB, rows=2, dup=dup, path=path, types=['B', 'A'], columns=True), 99
            for s in ((0, 1), (1, 1), (0, 0), (1, 0)):
                yield h_import, dict(cols=AB, rows=2, dup=dup, path=path, short=s), 99
                yield h_import, dict(cols=AB, rows=2, dup=dup, path=path, short=s, columns=True, types=['A']), 99
        for cols, rows in ((A, 2), (AB, 2), (A, 3)):
            yield h_import, dict(cols=cols, rows=rows, index='idx', path=path), 99
            yield h_import, dict(cols=cols, rows=rows, index='idx', path=path, types=['A'], skip=1), 99
            yield h_import, dict(cols=cols, rows=rows, index='A', path=path), 99
            yield h_import, dict(cols=cols, rows=rows, index='idx', path=path, short=(0, 0)), 99
    for dup in (False, True):
        for types in ([], ['A'], ['A', 'B']):
            yield h_import, dict(cols=AB, rows=2, dup=dup, full=True, const=[0, 3], types=types), 99
            yield h_import, dict(cols=AB, rows=1, dup=dup, const=[0, 1], types=types, columns=True), 99
            yield h_import, dict(cols=A, rows=2, dup=dup, const=[0, 1], types=types[:1], path=True), 99
        yield h_import, dict(cols=ABC, rows=2, dup=dup), 4 ** 6
        yield h_import, dict(cols=AB, rows=3, dup=dup), 4 ** 6
        yield h_import, dict(cols=AB, rows=3, dup=dup, full=True, types=['B']), 4 ** 5
        yield h_import, dict(cols=AB, rows=4, dup=dup, full=True), 4 ** 6
        yield h_import, dict(cols=ABC, rows=3, dup=dup, full=[0, 1, 3, 4, 6, 7]), 4 ** 6
        yield h_import, dict(cols=A, rows=1, dup=dup, again=dict(cols=AB)), 99
        yield h_import, dict(cols=AB, rows=1, dup=dup, again=dict(cols=A, dup=not dup)), 99
        yield h_import, dict(cols=AB, rows=1, dup=dup, again=dict(cols=['B', 'A'], types=['A'])), 99
        yield h_import, dict(cols=A, rows=2, dup=dup, again=dict(cols=A, rows=1)), 99
        if big:
            yield h_import, dict(cols=ABC, rows=3, dup=dup), 4 ** 9
            yield h_import, dict(cols=AB, rows=4, dup=dup), 4 ** 8
            yield h_import, dict(cols=AB, rows=2, dup=dup, again=dict(rows=2, dup=not dup)), 4 ** 8
    G = [None, ['relation', 'clan', 'multiclan'], ['absolute', 'functional'], ['regular', 'right_regular'], ['right_functional', 'reflexive', 'symmetric', 'transitive']]
    for mult in (0, 3):
        for rels in ([A], [A, A], [AB, AB], [AB, A], [A, ['B']], [AB, []], [[]], [[], A], [AB, AB, A], [['A', 'A'], A], [['A', 'A', 'B'], AB], [ABC, AB], [['B', 'A'], ABC], [['B', 'A'], ['B', 'A']], [ABC, ABC]):
            if mult and len(rels) > 2:
                continue
            every = sorted({c for r in rels for c in r})
            single = all(len(set(r)) == len(r) for r in rels)
            for g in G if len(rels) < 3 else G[:2]:
                for cols in (None, every, every[::-1], every[:1], every[1:] + ['Z']):
                    if cols == [] or cols == [] or (cols is not None and g is not None and cols != every and len(every) > 1):
                        continue
                    yield h_export, dict(rels=rels, mult=mult, cols=cols, lazy=g, deep=g is not None and len(rels) < 3,
                                         back=bool(every) and single and (cols is None or sorted(cols) == every)), 30
        for path in (True,):
            yield h_export, dict(rels=[AB, AB], mult=mult, path=path, back=True), 30
            yield h_export, dict(rels=[AB, A], mult=mult, path=path, back=True, cols=['B', 'A']), 30
            yield h_export, dict(rels=[AB, A], mult=mult, path=path), 30
        for rels in ([A, A], [AB, AB], [AB, A], [A, A, A]):
            for cols in (None, sorted({c for r in rels for c in r})):
                yield h_export, dict(rels=rels, mult=mult and 2, sort='A', cols=cols), 30
        if big:
            yield h_export, dict(rels=[AB, AB, AB], mult=mult, back=True), 999
            yield h_export, dict(rels=[ABC, ABC, AB], mult=mult, cols=ABC, back=True), 999
    CP = ['C', '=A', 'b']
    for s in ('a', CP, ['S', CP], ['S', 'a'], ['S', ['S', CP], CP], ['S', ['S', ['C', '=A', CP]]], ['S', ['S', ['C', '=A', ['S', 'a']]]], ['M', [CP, 1]], ['M', [['S', CP], 1], [CP, 1]],
              ['S', ['S', ['S', CP]]], ['M', [['S', ['C', '=A', ['S']]], 2]], ['S', ['M', [CP, 1]]], ['S', ['S', CP], ['S', 'a']]):
        for g in G:
            yield h_refuse, dict(shape=s, lazy=g, deep=True), 9
