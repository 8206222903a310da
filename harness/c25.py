"""C25: RDF graph import and table export keep every statement and value."""
import csv
import io
import itertools
import json
import os
import shutil
import tempfile
from symx import model as M
try:
    from symx import engine as E
except ImportError:        # the replay interpreter has no solver
    E = None

REAL_RDFLIB = True
COVERS = ('import', 'merged', 'blank', 'literal', 'guess', 'csv', 'json', 'undefined', 'special', 'same-row', 'empty', 'path')
BOUNDS = {
    'quick': 'graphs of up to 3 statements (IRIs, literal texts and integers symbolic; up to 2 blank nodes; 7 constant literals); tables of up to 3 rows and 3 columns, every choice of defined cells, '
             'texts and integers symbolic, 13 constants with separators, quotes, line breaks and other special characters',
    'thorough': 'graphs of up to 4 statements, tables of up to 4 rows'}
ASSUMPTIONS = ['rdflib parses statements exactly (its graph is filled with symbolic terms; on replay it reads the real text)',
               'rows of an exported table are functions from columns to values']

URI = 'http://e/'


# ---- symbolic rdflib terms --------------------------------------------------------------------------
def term_classes(L):
    rdflib = __import__('rdflib')

    class SymURI(rdflib.URIRef):
        def __new__(cls, v):
            o = str.__new__(cls, 'uri:' + str(v))
            o.v = v
            return o

        def __hash__(self):
            return 0

        def __eq__(self, o):
            return self.v == o.v if type(o) is SymURI else False

        def __ne__(self, o):
            return self.v != o.v if type(o) is SymURI else True

    class SymLit(rdflib.Literal):
        def __new__(cls, v):
            o = str.__new__(cls, 'lit:' + str(v))
            o.v = v
            return o
        __hash__ = SymURI.__hash__

        def __eq__(self, o):
            return self is o or (type(o) is SymLit and type(self.v) is type(o.v) and self.v == o.v)

        def __ne__(self, o):
            return not self.__eq__(o)

        def toPython(self):
            return self.v
        value = property(toPython)
    return SymURI, SymLit


DOCS = {}
FORMAT = []


def setup(L, symbolic):
    import logging
    logging.getLogger('rdflib').setLevel(logging.ERROR)
    if not symbolic:
        return
    rdflib = __import__('rdflib')
    L.SymURI, L.SymLit = term_classes(L)

    def parse(self, source=None, publicID=None, format=None, location=None, file=None, data=None, **kw):
        src = source if source is not None else location if location is not None else file if file is not None else data
        if hasattr(src, 'read'):
            src = src.read()
        FORMAT.append(format)
        for t in DOCS[src]:
            self.add(t)
        return self
    rdflib.Graph.parse = parse
    r = L.import_export_rdf
    real_open = open
    r.__dict__['open'] = lambda p, *a, **k: io.StringIO(p) if p in DOCS else real_open(p, *a, **k)


def lits():
    rdflib = __import__('rdflib')
    X = rdflib.XSD
    Lt = rdflib.Literal
    return [(Lt('true', datatype=X.boolean), True, '"true"^^<%s>' % X.boolean), (Lt('1.5', datatype=X.double), 1.5, '"1.5"^^<%s>' % X.double),
            (Lt('007', datatype=X.integer), 7, '"007"^^<%s>' % X.integer), (Lt('', None), '', '""'), (Lt('x y\\', lang='en'), 'x y\\', '"x y\\\\"@en'),
            (Lt('http://e/s'), 'http://e/s', '"http://e/s"'), (Lt('7', datatype=X.string), '7', '"7"^^<%s>' % X.string)]


def term(ctx, name, k):
    """-> (rdflib term for the symbolic graph, denoted value or a blank node label, N-Triples text)"""
    rdflib = __import__('rdflib')
    if k == 'u':
        v = ctx.opq(name)
        if ctx.symbolic:
            t = ctx.L.SymURI(v)
            return t, ('A', t), ''
        return None, ('A', rdflib.URIRef(URI + v)), '<%s%s>' % (URI, v)
    if k == 'b':
        i = ctx.choice(name, 2)
        ctx.cover('blank')
        return rdflib.BNode('b%d' % i), ('blank', i), '_:b%d' % i
    ctx.cover('literal')
    if k == 's':
        v = ctx.opq(name)
        return (ctx.L.SymLit(v) if ctx.symbolic else None), ('A', v), '"%s"' % v
    if k == 'i':
        v = ctx.val(name)
        return (ctx.L.SymLit(v) if ctx.symbolic else None), ('A', v), '"%s"^^<%s>' % (v, rdflib.XSD.integer)
    ls = lits()
    t, v, s = ls[ctx.choice(name, len(ls))]
    return t, ('A', v), s


def h_import(ctx):
    L, p = ctx.L, ctx.p
    rdflib = __import__('rdflib')
    real, want, text = [], [], ''
    for i, kinds in enumerate(p['triples']):
        ts = [term(ctx, '%s%d' % (n, i), k) for n, k in zip('spo', kinds)]
        real.append(tuple(t[0] for t in ts))
        want.append([t[1] for t in ts])
        text += '%s %s %s .\n' % tuple(t[2] for t in ts)
    ext, fmt = p.get('ext'), p.get('format')
    kw = {'rdf_format': fmt} if fmt else {}
    if ctx.symbolic:
        DOCS.clear()
        del FORMAT[:]
        name = 'doc' + (ext or '')
        DOCS[name] = real
        r = L.import_export_rdf.import_graph(name if ext is not None else io.StringIO(name), **kw)
        if ext in ('.ttl', '.nt', '.n3', '.rdf', '.xml') and not fmt:
            ctx.cover('guess')
            ctx.check(FORMAT == [{'.ttl': 'turtle', '.nt': 'nt', '.n3': 'n3', '.rdf': 'xml', '.xml': 'xml'}[ext]], 'format')
        else:
            ctx.check(FORMAT == [fmt or 'turtle'], 'format')
    elif ext is not None:
        d = tempfile.mkdtemp(prefix='verif-c25-')
        try:
            f = os.path.join(d, 'doc' + ext)
            with open(f, 'w', encoding='utf-8') as o:
                if ext in ('.rdf', '.xml'):
                    g = rdflib.Graph()
                    g.parse(data=text, format='nt')
                    o.write(g.serialize(format='xml'))
                else:
                    o.write(text)
            r = L.import_export_rdf.import_graph(f, **kw)
        finally:
            shutil.rmtree(d)
    else:
        r = L.import_export_rdf.import_graph(io.StringIO(text), **kw)
    ctx.cover('import')
    # blank nodes have become IRIs of their own
    labels = sorted({d[1] for t in want for d in t if d[0] == 'blank'})
    known = [d[1] for t in want for d in t if d[0] == 'A']
    fresh = []
    for t in r.data:
        for c in t.data:
            v = c.right.value
            ctx.check(not isinstance(v, rdflib.BNode), 'a blank node is left')
            if isinstance(v, rdflib.URIRef) and not (ctx.symbolic and type(v) is L.SymURI) and not (not ctx.symbolic and v in known) and not any(v is f or str(v) == str(f) for f in fresh):
                fresh.append(v)
    ctx.check(len(fresh) == len(labels), '%d IRIs for %d blank nodes' % (len(fresh), len(labels)))
    v = M.view(r)
    ok = False
    for perm in itertools.permutations(fresh):
        m = dict(zip(labels, perm))
        den = frozenset(frozenset(('C', ('A', n), d if d[0] == 'A' else ('A', m[d[1]])) for n, d in zip('spo', t)) for t in want)
        if len(den) < len(want):
            ctx.cover('merged')
        ok = M.disj([ok, M.veq(v, M.d_view(den))])
    ctx.check(ok, 'imported graph')
    for t in r.data:
        for c in t.data:
            ctx.check(any(type(c.right.value) is type(k) for k in known + fresh), 'type of a value')
    ctx.check(r.cardinality == len(r.data) and (len(r.data) == 0 or L.util_rdf.is_absolute_graph(r)), 'not an absolute graph')
    ctx.sound(r, 'imported graph')


# ---- export -----------------------------------------------------------------------------------------
SPECIAL = ['', '"', '\\', 'a"b', '\n', 'x, y', ', ', '""', "'", '\u00e9\u2028', '\t\x01', '{"', ' ']


class Out:
    """A file object that collects what is written."""
    def __init__(self):
        self.t = []

    def write(self, s):
        self.t.append(s)


def read_csv(text):
    """Rows of (text or None): quoted fields, the empty unquoted field is undefined."""
    rows, row, i, n = [], [], 0, len(text)
    while i < n:
        while i < n and text[i] == ' ':
            i += 1
        if i < n and text[i] == '"':
            out = ''
            i += 1
            while True:
                if i >= n:
                    raise ValueError('field is not closed')
                if text[i] == '"':
                    if text[i + 1:i + 2] == '"':
                        out += '"'
                        i += 2
                        continue
                    i += 1
                    break
                out += text[i]
                i += 1
            row.append(out)
        else:
            row.append(None)
        if i >= n:
            raise ValueError('line is not closed')
        if text[i] == '\n':
            rows.append(row)
            row = []
        elif text[i] != ',':
            raise ValueError('unexpected %r' % text[i])
        i += 1
        if i >= n and row:
            raise ValueError('line is not closed')
    return rows


def cell(ctx, name, k, table):
    """-> (value in the atom, its text, kind in JSON, datatype in JSON)"""
    rdflib = __import__('rdflib')
    X = rdflib.XSD
    if k == 'b' or k == 'a':
        v = ctx.opq(name) if k == 'b' else ctx.val(name)
        table[str(v)] = v
        return v, (v if ctx.symbolic else str(v)), 'literal', (None if k == 'b' else str(X.integer))
    if k == 'k':
        ctx.cover('special')
        v = SPECIAL[ctx.choice(name, len(SPECIAL))]
        return v, v, 'literal', None
    if k == 'u':
        v = rdflib.URIRef(URI + ('x', 'y"', 'z\\')[ctx.choice(name, 3)])
        return v, str(v), 'uri', None
    if k == 'n':
        v = rdflib.BNode(('b0', 'b1')[ctx.choice(name, 2)])
        return v, str(v), 'bnode', None
    v, d = [(1.5, X.double), (True, X.boolean), (0, X.integer)][ctx.choice(name, 3)]
    return v, str(v), 'literal', str(d)


def h_export(ctx):
    L, p = ctx.L, ctx.p
    mo = L.mo
    names = p['names']
    table, rows, dens = {}, [], {}
    for i, ks in enumerate(p['rows']):
        cps, want = [], {}
        for n, k in zip(names + ['extra'], ks):
            if k == '-' or (k[-1] == '?' and ctx.bool('u%s%d' % (n, i))):
                ctx.cover('undefined')
                continue
            v, t, kind, dt = cell(ctx, 'x%s%d' % (n, i), k[0], table)
            cps.append(mo.Couplet(n, mo.Atom(v)))
            if n in p['lefts']:
                want[str(n)] = (t, kind, dt)
        rel = mo.Set(cps)
        for r, _ in rows:
            if r == rel:
                ctx.cover('same-row')
                break
        else:
            rows.append((rel, want))
    clan = mo.Set([r for r, _ in rows])
    v0 = M.view(clan)
    ctx.lazies(p, ('clan', clan))
    if not rows:
        ctx.cover('empty')
    out = Out()
    fmt = p['fmt']
    kw = {} if fmt == 'csv' and p.get('default') else {'out_format': fmt}
    lefts = mo.Set(p['lefts'])
    if p.get('path') and not ctx.symbolic:
        d = tempfile.mkdtemp(prefix='verif-c25-')
        try:
            f = os.path.join(d, 'out')
            L.import_export_rdf.export_table(f, lefts, clan, **kw)
            with open(f, newline='', encoding='utf-8') as o:
                text = o.read()
        finally:
            shutil.rmtree(d)
    else:
        if p.get('path'):
            ctx.cover('path')
        L.import_export_rdf.export_table(out, lefts, clan, **kw)
        text = ''.join(out.t)
    cols = [str(c) for c in sorted(p['lefts'])]
    sub = lambda s: table.get(s, s) if ctx.symbolic else s
    try:
        if fmt == 'csv':
            got = read_csv(text)
            head, body = got[0], [{c: sub(x) for c, x in zip(cols, r) if x is not None} for r in got[1:]]
            ctx.check(all(len(r) == len(cols) for r in got), 'number of fields')
            exp = [{c: t[0] for c, t in w.items()} for _, w in rows]
            ctx.cover('csv')
        else:
            doc = json.loads(text)
            ctx.check(set(doc) == {'head', 'results'} and set(doc['head']) == {'vars'} and set(doc['results']) == {'bindings'}, 'members of the document')
            head = doc['head']['vars']
            body = []
            for b in doc['results']['bindings']:
                row = {}
                for c, x in b.items():
                    ctx.check(set(x) <= {'type', 'value', 'datatype'}, 'members of a value')
                    row[c] = sub(x['value']), x['type'], x.get('datatype')
                body.append(row)
            exp = [w for _, w in rows]
            ctx.cover('json')
    except ValueError as e:
        ctx.check(False, 'the output is malformed: %s' % e)
        return
    ctx.check(head == cols, 'header')
    ctx.check(len(body) == len(exp), 'number of rows')
    rest = list(exp)
    for row in body:
        for i, w in enumerate(rest):
            if set(w) == set(row) and all(bool(row[c] == w[c]) for c in w):
                del rest[i]
                break
        else:
            ctx.check(False, 'the row %r is not in the table' % (row,))
            return
    ctx.check(M.veq(M.view(clan), v0), 'the table changed')
    ctx.sound(clan, 'table')


def cases(tier):
    big = tier == 'thorough'
    for ts in ([], ['uuu'], ['uus'], ['uui'], ['uuk'], ['buu'], ['bub'], ['uuu', 'uuu'], ['uus', 'uus'], ['uui', 'uui'], ['uus', 'uui'], ['uuk', 'uuk'], ['bus', 'bus'], ['uub', 'buu'],
               ['bub', 'bui'], ['uuu', 'uus', 'uui'], ['uuu', 'uuu', 'uuu'], ['bui', 'bui', 'uub']) + ((['uuu'] * 4, ['uui'] * 3, ['bus', 'bus', 'bub', 'uub']) if big else ()):
        w = 9 ** len(ts)
        yield h_import, dict(triples=ts), w
        if len(ts) < 3:
            for fmt in ('nt', 'turtle', 'n3'):
                yield h_import, dict(triples=ts, format=fmt), w
            for ext in ('.nt', '.ttl', '.n3', '', '.txt', '.rdf'):
                if ext != '.rdf' or ts == ['uuu']:
                    yield h_import, dict(triples=ts, ext=ext), w
            yield h_import, dict(triples=ts, ext='.n3', format='nt'), w
    N = ['a', 'b', 'c']
    for fmt in ('csv', 'json'):
        for names, lefts, rows in (
                (['a'], ['a'], [['b']]), (['a'], ['a'], [['k']]), (['a'], ['a'], [['a']]), (['a'], ['a'], [['u']]), (['a'], ['a'], [['n']]), (['a'], ['a'], [['t']]), (['a'], ['a'], []), (N, N, []),
                (['b', 'a'], ['a', 'b'], [['b', 'b']]), (['b', 'a'], ['b', 'a'], [['b?', 'b?']]), (['a', 'b'], ['b', 'a'], [['k', 'k?']]), (['a', 'b'], ['a'], [['b', 'b']]), (['a', 'b'], ['a', 'c'], [['b?', 'b']]),
                (N, N, [['b?', 'b?', 'b?']]), (N, N, [['b?', 'a?', 'k?']]), (N, N, [['u?', 'n?', 't?']]), (['a'], ['a'], [['b'], ['b']]), (['a'], ['a'], [['b?'], ['b?']]), (['a'], ['a'], [['b'], ['a']]),
                (['a', 'b'], ['a', 'b'], [['b?', 'b?'], ['b?', 'b?']]), (['a', 'b'], ['a'], [['b', 'b'], ['b', 'b']]), (['a', 'b'], ['b'], [['b', 'a?'], ['b', 'a?']]),
                (['a'], ['a'], [['b'], ['b'], ['b']]), (['a', 'b'], ['a', 'b'], [['b', 'b?'], ['a', 'b?'], ['b', 'b']]), (['?x', '_:b0'], ['?x', '_:b0'], [['b', 'b?'], ['b?', 'b']]),
                (['a', 'b"', '\\'], ['\\', 'b"', 'a'], [['b', 'b?', 'b?']]), (['x, y', 'x'], ['x', 'x, y'], [['b?', 'k?']]),
                (["b'", 'a', '"'], ['a', "b'", '"'], [['b?', 'b', 'b?']]), ([10, 9, 100], [9, 10, 100], [['b?', 'b', 'b?']])):
            yield h_export, dict(names=names, lefts=lefts, rows=rows, fmt=fmt, path=len(rows) > 1 and len(names) > 1, default=len(names) > 1), 5 ** len(rows) * 5 ** len(names)
        for g in (['relation', 'clan'], ['absolute'], ['functional', 'regular'], ['right_functional', 'right_regular']):
            for rows in ([['b', 'b']], [['b', 'b?'], ['b', 'b']], [['b'], ['b']]):
                yield h_export, dict(names=['a', 'b'], lefts=['a', 'b'], rows=rows, fmt=fmt, lazy=g, known=['clan'] if g[0] != 'relation' else []), 99
        if big:
            yield h_export, dict(names=N, lefts=N, rows=[['b?', 'b?', 'b?'], ['b?', 'b?', 'b?']], fmt=fmt), 999
            yield h_export, dict(names=['a', 'b'], lefts=['a', 'b'], rows=[['b', 'b?']] * 4, fmt=fmt), 999
            yield h_export, dict(names=N, lefts=N, rows=[['k?', 'k?', 'k?']], fmt=fmt), 999
