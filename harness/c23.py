"""C23: remembered property states are independent and written once."""
from symx import model as M
try:
    import z3
    from symx import engine as E
except ImportError:        # the replay interpreter has no solver
    E = None

COVERS = ('written', 'refused', 'again', 'implied', 'read', 'layout')
BOUNDS = {
    'quick': 'one recording (of any of the 11 properties, any of the four states) from every combination of previously recorded states of all properties, on an empty and a non-empty set and multiset, '
             'a couplet and an atom: by induction histories of any length; all contents of the flag word',
    'thorough': 'same'}
ASSUMPTIONS = ['assertions are enabled', 'the C layer of ctypes stores bit-fields at the offsets and widths it reports']
KINDS = {'atom': 'a', 'couplet': ['C', 'a', 'a'], 'set': ['S', 'a'], 'relation': ['S', ['C', 'a', 'a']], 'clan': ['S', ['S', ['C', 'a', 'a']]], 'empty': ['S'],
         'multiset': ['M', ['a', 1]], 'multiclan': ['M', [['S', ['C', 'a', 'a']], 1]], 'emptym': ['M']}
KINDF = ('atom', 'couplet', 'set', 'multiset')


class Rec:
    """The flag record with its real accessors over symbolic storage."""
    def __init__(self, cls):
        real = type(cls().f)
        self.f = type('Bits', (), {k: v for k, v in vars(real).items() if not k.startswith('__') and type(v).__name__ in ('property', 'staticmethod', 'function', 'classmethod', 'list')})()

    @property
    def asint(self):
        return 0


def prior(ctx, o, kind):
    """Gives ``o`` any combination of recorded states; returns them."""
    L = ctx.L
    Flags = L.flags.Flags
    st = {f: ctx.int('s.' + f, 0, 3) for f in M.FIELDS}
    kinds = {f: getattr(o._flags.f, f) for f in KINDF}
    if ctx.symbolic and hasattr(Flags, '_fields_'):
        r = Rec(Flags)
    else:
        r = Flags()
    for f in M.FIELDS:
        if ctx.symbolic:
            setattr(r.f, '_' + f, st[f])
        else:
            setattr(r.f, f, st[f])
    for f in KINDF:
        setattr(r.f, '_' + f if ctx.symbolic else f, kinds[f])
    o._flags = r
    return st


def spec(st, field, v, empty):
    """-> (formula: refused, {property: state afterwards})"""
    bad, w = [], {}
    if field in ('relation', 'clan', 'multiclan', 'absolute'):
        bad.append(v == 3)
    on = v == 1

    def put(g, x, cond=True):
        bad.append(M.conj([cond, M.neg(st[g] == 0), M.neg(st[g] == x)]))
        w.setdefault(g, []).append((cond, x))
    if field == 'relation' and not empty:
        bad.append(M.conj([on, M.disj([st['clan'] == 1, st['multiclan'] == 1])]))
        for g, x in (('clan', 2), ('multiclan', 2), ('regular', 3), ('right_regular', 3)):
            put(g, x, on)
    if field == 'clan' and not empty:
        bad.append(M.conj([on, M.disj([st['relation'] == 1, st['multiclan'] == 1])]))
        put('relation', 2, on)
    if field == 'regular':
        put('functional', 1, on)
    if field == 'right_regular':
        put('right_functional', 1, on)
    put(field, v)
    return M.disj(bad), w


def h_write(ctx):
    p = ctx.p
    o = ctx.build('o', KINDS[p['kind']])
    st = prior(ctx, o, p['kind'])
    v = ctx.int('v', 0, 3)
    field = p['field']
    no, w = spec(st, field, v, o.is_empty)
    try:
        r = getattr(o, 'cache_' + field)(v)
        ok = True
        ctx.check(r is o, 'cache_%s returns something else' % field)
    except Exception:
        ok = False
    ctx.check(M.neg(no) if ok else no, 'recording is %s' % ('accepted' if ok else 'refused'))
    ctx.cover('written' if ok else 'refused')
    for g in M.FIELDS:
        now = getattr(o, 'cached_' + g)
        if not ok:
            # a refused recording does not change what was known
            ctx.check(M.imp(M.neg(st[g] == 0), now == st[g]), 'a refused recording of %s changed %s' % (field, g))
            continue
        if g not in w:
            ctx.check(now == st[g], 'recording %s changed %s' % (field, g))
            continue
        ctx.cover('implied')
        conds = [c for c, _ in w[g]]
        ctx.check(M.conj([M.imp(c, now == x) for c, x in w[g]] + [M.disj(conds + [now == st[g]])]), '%s after recording %s' % (g, field))
    for g in KINDF:
        ctx.check(getattr(o, 'is_' + g) is (KINDS[p['kind']][0] == {'couplet': 'C', 'set': 'S', 'multiset': 'M', 'atom': 'a'}[g]), 'is_%s' % g)
    if ok:
        # and once more
        ctx.cover('again')
        now = {g: getattr(o, 'cached_' + g) for g in M.FIELDS}
        try:
            getattr(o, 'cache_' + field)(v)
        except Exception:
            ctx.check(False, 'recording %s again is refused' % field)
        for g in M.FIELDS:
            ctx.check(getattr(o, 'cached_' + g) == now[g], 'recording %s again changed %s' % (field, g))


def h_read(ctx):
    p = ctx.p
    o = ctx.build('o', KINDS[p['kind']])
    st = prior(ctx, o, p['kind'])
    for g in M.FIELDS:
        ctx.cover('read')
        ctx.check(getattr(o, 'cached_' + g) == st[g], 'cached_' + g)
        ctx.check(M.iff(getattr(o, 'cached_is_' + g), st[g] == 1), 'cached_is_' + g)
        ctx.check(M.iff(getattr(o, 'cached_is_not_' + g), st[g] == 2), 'cached_is_not_' + g)
    for g in M.FIELDS:
        ctx.check(getattr(o, 'cached_' + g) == st[g], 'reading changed ' + g)
    CS = ctx.L.CS
    ctx.check(len({CS.UNKNOWN, CS.IS, CS.IS_NOT, CS.N_A}) == 4 and CS.from_bool(True) == CS.IS and CS.from_bool(False) == CS.IS_NOT, 'states')
    x = ctx.int('x', 0, 3)
    ctx.check(M.iff(bool(CS.is_bool(x)), M.disj([x == 1, x == 2])), 'is_bool')


def h_layout(ctx):
    """Bit-level: writing one field of the record leaves the others alone; the word as a whole carries all of them."""
    L, p = ctx.L, ctx.p
    Flags = L.flags.Flags
    bits = type(Flags().f)
    names = [n for n, *_ in bits._fields_]
    i = '_' + p['field']
    ctx.cover('layout')
    ctx.check(i in names, 'no such field')
    if ctx.symbolic:
        width = Flags.asint.size * 8
        w = z3.Int2BV(ctx.int('w', 0, 2 ** width - 1).e, width)
        x = ctx.int('v', 0, 3)

        def pos(n):
            d = getattr(bits, n)
            return d.offset * 8 + (d.size & 0xffff), d.size >> 16

        def get(word, n):
            lo, k = pos(n)
            return z3.Extract(lo + k - 1, lo, word)
        ctx.check(all(sum(pos(n)) <= width for n in names), 'the record does not fit the word')
        lo, k = pos(i)
        mask = z3.BitVecVal(((1 << k) - 1) << lo, width)
        new = (w & ~mask) | (z3.ZeroExt(width - 2, z3.Int2BV(x.e, 2)) << lo)
        for n in names:
            have = get(new, n)
            if n == i:
                ctx.check(E.SymBool(z3.BV2Int(have) == x.e), 'state is cut off')
            else:
                ctx.check(E.SymBool(have == get(w, n)), 'writing %s changes %s' % (i, n))
    else:
        w, x = ctx.int('w', 0), ctx.int('v', 0, 3)
        f = Flags(asint=w)
        before = {n: getattr(f.f, n) for n in names}
        setattr(f.f, i, x)
        for n in names:
            ctx.check(getattr(f.f, n) == (x if n == i else before[n]), 'writing %s changes %s' % (i, n))
        g = Flags(asint=f.asint)
        for n in names:
            ctx.check(getattr(f.f, n) == getattr(g.f, n), 'the copy differs in ' + n)


def h_copy(ctx):
    """A record set up through the accessors and copied as a word reads the same."""
    L, p = ctx.L, ctx.p
    Flags = L.flags.Flags
    a = Flags()
    bg = ctx.choice('bg', 2)
    st = {}
    for n in M.FIELDS + KINDF:
        st[n] = ctx.choice(n, 4) if n in p['fields'] else (0, 3)[bg]
        setattr(a.f, n, st[n])
    b = Flags(asint=a.asint)
    c = Flags()
    c.asint = b.asint
    for n in M.FIELDS + KINDF:
        for r in (a, b, c):
            ctx.check(getattr(r.f, n) == st[n], 'state of %s' % n)


def cases(tier):
    for kind in KINDS:
        yield h_read, dict(kind=kind)
        for f in M.FIELDS:
            yield h_write, dict(kind=kind, field=f)
    for f in M.FIELDS + KINDF:
        yield h_layout, dict(field=f)
    fs = M.FIELDS + KINDF
    for i, f in enumerate(fs):
        for g in fs[i + 1:]:
            yield h_copy, dict(fields=[f, g])
