"""Reference semantics over plain data.  Shared by the symbolic and the concrete mode.

``den`` maps a MathObject to plain Python data:
  Atom -> ('A', value)   Couplet -> ('C', l, r)   Set -> frozenset(...)   Multiset -> MS
Equality of denotations is ordinary Python equality; on symbolic values it forks through the engine.
"""
FIELDS = ('relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional',
          'reflexive', 'symmetric', 'transitive', 'regular', 'right_regular')
UNKNOWN, IS, IS_NOT, N_A = 0, 1, 2, 3
NAMES = {0: 'UNKNOWN', 1: 'IS', 2: 'IS_NOT', 3: 'N_A'}


ODD = (bool, float, complex)


class MS:
    """Plain multiset: dict element -> multiplicity (multiplicity may be symbolic)."""
    def __init__(self, items=()):
        self.d = {}
        for k, v in (items.items() if isinstance(items, dict) else items):
            if k in self.d:
                self.d[k] = self.d[k] + v
            else:
                self.d[k] = v

    def __hash__(self):
        return hash('MS')

    def __eq__(self, other):
        if not isinstance(other, MS) or len(self.d) != len(other.d):
            return False
        for k, v in self.d.items():
            if k not in other.d or not (other.d[k] == v):
                return False
        return True

    def __ne__(self, other):
        return not self == other

    def get(self, k):
        return self.d.get(k, 0)

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def __repr__(self):
        return 'MS(%r)' % self.d


def atom(v):
    """Denotation of the atom of a value: numbers of different types are different atoms: 1, 1.0 and True."""
    return ('A', v, type(v).__name__) if type(v) in ODD else ('A', v)


def den(o):
    if o.is_atom:
        return atom(o.value)
    if o.is_couplet:
        return ('C', den(o.left), den(o.right))
    if o.is_set:
        return frozenset(den(e) for e in o.data)
    if o.is_multiset:
        return MS([(den(k), v) for k, v in o.data.items()])
    raise TypeError('not a MathObject: %r' % (o,))


def is_c(d):
    return isinstance(d, tuple) and d[0] == 'C'


def is_a(d):
    return isinstance(d, tuple) and d[0] == 'A'


def d_relation(d):
    return isinstance(d, frozenset) and all(is_c(e) for e in d)


def d_clan(d):
    return isinstance(d, frozenset) and all(d_relation(e) for e in d)


def d_multiclan(d):
    return isinstance(d, MS) and all(d_relation(e) for e in d.keys())


def elems(d):
    return d.keys() if isinstance(d, MS) else d


def rlefts(r):
    return frozenset(c[1] for c in r)


def rrights(r):
    return frozenset(c[2] for c in r)


def functional(r):
    return len(rlefts(r)) == len(r)


def right_functional(r):
    return len(rrights(r)) == len(r)


def reflexive(r):
    return all(bool(c[1] == c[2]) for c in r)


def symmetric(r):
    return all(('C', c[2], c[1]) in r for c in r)


def transitive(r):
    return all(('C', c[1], e[2]) in r for c in r for e in r if c[2] == e[1])


def regular(rs):
    rs = list(rs)
    if not rs:
        return True
    return all(functional(r) for r in rs) and all(rlefts(r) == rlefts(rs[0]) for r in rs)


def right_regular(rs):
    rs = list(rs)
    if not rs:
        return True
    return all(right_functional(r) for r in rs) and all(rrights(r) == rrights(rs[0]) for r in rs)


REL = {'functional': functional, 'right_functional': right_functional, 'reflexive': reflexive,
       'symmetric': symmetric, 'transitive': transitive}
CLAN = {'regular': regular, 'right_regular': right_regular}


# ---- the same notions as formulas ----------------------------------------------------------------
# A view is a nested structure without hashing: ('A', v) | ('C', l, r) | ('S', [..]) | ('M', [..]) with
# the elements in no particular order and possibly repeated.  Formulas over views never fork: on
# symbolic values they build one solver term, on plain values they are plain bools.

def neg(x):
    return (not x) if isinstance(x, bool) else ~x


def conj(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is not True:
            r = x if r is True else r & x
    return r


def disj(xs):
    r = False
    for x in xs:
        if x is True:
            return True
        if x is not False:
            r = x if r is False else r | x
    return r


def imp(a, b):
    return disj([neg(a), b])


def iff(a, b):
    return conj([imp(a, b), imp(b, a)])


def view(o):
    if o.is_atom:
        return ('A', o.value)
    if o.is_couplet:
        return ('C', view(o.left), view(o.right))
    if o.is_set:
        return ('S', [view(e) for e in o.data])
    return ('M', [view(e) for e in o.data], list(o.data.values()))


def d_view(d):
    """View of a denotation."""
    if isinstance(d, frozenset):
        return ('S', [d_view(e) for e in d])
    if isinstance(d, MS):
        return ('M', [d_view(e) for e in d.keys()], list(d.d.values()))
    if d[0] == 'C':
        return ('C', d_view(d[1]), d_view(d[2]))
    return d


def veq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'A':
        if type(a[1]) is not type(b[1]) and (type(a[1]) in ODD or type(b[1]) in ODD):
            return False
        return a[1] == b[1]
    if a[0] == 'C':
        return conj([veq(a[1], b[1]), veq(a[2], b[2])])
    if a[0] == 'S':
        return conj([vsub(a, b), vsub(b, a)])
    one = [disj([conj([veq(x, y), m == n]) for y, n in zip(b[1], b[2])]) for x, m in zip(a[1], a[2])]
    two = [disj([conj([veq(x, y), m == n]) for y, n in zip(b[1], b[2])]) for x, m in zip(b[1], b[2])]
    return conj(one + two) if len(a[1]) == len(b[1]) else False


def vin(x, s):
    return disj([veq(x, y) for y in s[1]])


def vsub(a, b):
    return conj([vin(x, b) for x in a[1]])


def v_rel(v):
    return v[0] == 'S' and all(e[0] == 'C' for e in v[1])


def v_clan(v):
    return v[0] == 'S' and all(v_rel(e) for e in v[1])


def v_mclan(v):
    return v[0] == 'M' and all(v_rel(e) for e in v[1])


def v_pclan(v):
    """Member of a power set of sets of clans (nested at any depth)."""
    return v[0] == 'S' and bool(v[1]) and all(v_clan(e) or v_pclan(e) for e in v[1])


def v_lefts(v, side):
    """Set of all lefts (side 1) or rights (side 2) of a relation, clan or nested set of clans."""
    out = []
    for e in v[1]:
        out += [e[side]] if e[0] == 'C' else v_lefts(e, side)[1]
    return ('S', out)


def v_func(r, side):
    return conj([imp(veq(c[side], e[side]), veq(c, e)) for i, c in enumerate(r[1]) for e in r[1][:i]])


def v_refl(r):
    return conj([veq(c[1], c[2]) for c in r[1]])


def v_symm(r):
    return conj([vin(('C', c[2], c[1]), r) for c in r[1]])


def v_trans(r):
    return conj([imp(veq(c[2], e[1]), vin(('C', c[1], e[2]), r)) for c in r[1] for e in r[1]])


VREL = {'functional': lambda r: v_func(r, 1), 'right_functional': lambda r: v_func(r, 2),
        'reflexive': v_refl, 'symmetric': v_symm, 'transitive': v_trans}
SIDE = {'regular': 1, 'right_regular': 2}


def v_regular(v, side):
    es = v[1]
    own = [v_regular(e, side) for e in es] if not (v_clan(v) or v_mclan(v)) else [v_func(e, side) for e in es]
    return conj(own + [veq(v_lefts(e, side), v_lefts(es[0], side)) for e in es[1:]])


def v_absolute(v):
    if v[0] == 'A':
        return True
    if v[0] == 'C':
        return v[1][0] == 'A' and v[2][0] == 'A'
    if v_rel(v) or v_clan(v) or v_mclan(v):
        return all(v_absolute(e) for e in v[1])
    return all(e[0] == 'A' for e in v[1])


def v_prop(v, field):
    """The property as a formula, or None where it is not applicable."""
    if field == 'relation':
        return v_rel(v)
    if field == 'clan':
        return v_clan(v)
    if field == 'multiclan':
        return v_mclan(v)
    if field == 'absolute':
        return v_absolute(v)
    if v[0] == 'C':
        return veq(v[1], v[2]) if field == 'reflexive' else None
    if v[0] == 'A':
        return None
    if field in VREL:
        if v_rel(v):
            return VREL[field](v)
        if v_clan(v) or v_mclan(v) or v_pclan(v):
            return conj([v_prop(e, field) for e in v[1]])
        return None
    if v[0] == 'S' and v[1] and v_rel(v):
        return None
    if v_clan(v) or v_mclan(v) or v_pclan(v):
        return v_regular(v, SIDE[field])
    return None


def state(v, field):
    """The true cache state of ``field`` (forks on a symbolic formula)."""
    f = v_prop(v, field)
    if f is None:
        return N_A
    return IS if f else IS_NOT


def state_is(v, field, value):
    """Formula: the (known) cache state ``value`` of ``field`` is the true one."""
    f = v_prop(v, field)
    if f is None:
        return value == N_A
    return f if value == IS else (neg(f) if value == IS_NOT else False)
