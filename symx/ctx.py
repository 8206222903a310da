"""Harness context: the same harness source runs symbolically (CPython + z3) and concretely (the
project's own interpreter, unmodified code, values from a solver model)."""
import ast
from . import model as M

# values of different types that Python takes for equal, or that look the same
LOOKALIKES = (1, 1.0, True, '1')

RELF = ('functional', 'right_functional', 'reflexive', 'symmetric', 'transitive')
CLANF = RELF + ('regular', 'right_regular')


class CheckFailed(Exception):
    """Concrete mode: the property does not hold for these inputs."""


class Skip(BaseException):
    """The inputs are outside the harness' assumptions (concrete mode)."""


class Base:
    symbolic = False

    def __init__(self, lib, params):
        self.L = lib
        self.p = params or {}
        self.findings_hit = set()
        self.covered = set()

    # -- values -----------------------------------------------------------------------------------
    def atom(self, name):
        return self.L.mo.Atom(self.val(name))

    def batom(self, name):
        return self.L.mo.Atom(self.opq(name))

    def build(self, name, shape):
        """Build a MathObject of a given shape with symbolic leaves.

        'a': atom with symbolic integer; 'b': atom with symbolic opaque string; 'n': atom(None-free
        constant); 'd': atom with a symbolic integer different from all other 'd'; 'k': one of LOOKALIKES;
        '@name': atom with the symbolic integer of that name;
        '=text': that text; '#literal': that constant; ('C', l, r); ('S', e...); ('M', (e, mult)...) where mult is an int, or a tuple
        (lo, hi) for a symbolic multiplicity (hi None: unbounded)."""
        mo = self.L.mo
        if shape == 'a':
            return self.atom(name)
        if shape == 'b':
            return self.batom(name)
        if shape == 'd':
            return mo.Atom(self.distinct(name))
        if isinstance(shape, str) and shape.startswith('@'):
            return mo.Atom(self.val(shape))
        if shape == 'k':
            return mo.Atom(self.const(LOOKALIKES[self.choice(name, len(LOOKALIKES))]))
        if isinstance(shape, str) and shape.startswith('='):
            return mo.Atom(shape[1:])
        if isinstance(shape, str) and shape.startswith('#'):
            return mo.Atom(self.const(ast.literal_eval(shape[1:])))
        k = shape[0]
        if k == 'C':
            return mo.Couplet(self.build(name + '.l', shape[1]), self.build(name + '.r', shape[2]))
        if k == 'S':
            return mo.Set([self.build('%s.%d' % (name, i), s) for i, s in enumerate(shape[1:])],
                          direct_load=True)
        if k == 'M':
            import collections
            cnt = collections.Counter()
            for i, (s, m) in enumerate(shape[1:]):
                e = self.build('%s.%d' % (name, i), s)
                if isinstance(m, (tuple, list)):
                    m = self.int('%s.%d#' % (name, i), m[0], m[1])
                cnt[e] = cnt[e] + m if e in cnt else m
            return mo.Multiset(cnt, direct_load=True)
        raise ValueError(shape)

    def const(self, v):
        return v

    def distinct(self, name):
        """A symbolic integer that is different from all other ones made here."""
        ds = self.__dict__.setdefault('_distinct', {})
        if name not in ds:
            x = self.val(name)
            self.assume(M.conj([M.neg(x == y) for y in ds.values()]))
            ds[name] = x
        return ds[name]

    # -- checks -----------------------------------------------------------------------------------
    def eq(self, a, b, msg):
        """Denotational equality of two plain values (forks as needed)."""
        self.check(a == b, msg)

    def same(self, obj, den, msg):
        """``obj`` (a MathObject or Undef) denotes ``den`` (plain data, or None for undefined)."""
        L = self.L
        if den is None:
            self.check(obj is L.U, msg + ': expected undefined')
            return
        if obj is L.U:
            self.check(False, msg + ': undefined, expected a value')
            return
        self.check(M.veq(M.view(obj), M.d_view(den)), msg)

    def cover(self, label):
        self.covered.add(label)

    def sound(self, obj, msg, fields=None, deep=True):
        """Every cached property state of ``obj`` that is known is the true state."""
        if obj is self.L.U or not hasattr(obj, '_flags'):
            return
        v = M.view(obj)
        for f in (fields or M.FIELDS):
            known = self.known(obj, f)
            if known == M.UNKNOWN:
                continue
            self.check(M.state_is(v, f, known), '%s: cached %s is %s but that is not the truth'
                       % (msg, f, M.NAMES.get(known, known)))
        if deep:
            if obj.is_couplet:
                self.sound(obj.left, msg + '/left', fields)
                self.sound(obj.right, msg + '/right', fields)
            elif obj.is_set or obj.is_multiset:
                for e in obj.data:
                    self.sound(e, msg + '/element', fields)

    def known(self, obj, f):
        return getattr(obj, 'cached_' + f)

    def lazies(self, p, *pairs):
        """Cache states of operands: every sound combination for the fields in p['lazy'] (True: all),
        the fields in p['known'] known."""
        for name, obj in pairs:
            if p.get('known'):
                self.set_known(obj, p['known'], p.get('deep'))
            if p.get('lazy'):
                self.lazy(obj, name, p['lazy'] if isinstance(p['lazy'], list) else None, p.get('deep'))

    def set_known(self, obj, fields, deep=False):
        if not obj.is_atom and not obj.is_couplet:
            v = M.view(obj)
            for f in fields:
                if getattr(obj, 'cached_' + f) == M.UNKNOWN:
                    getattr(obj, 'cache_' + f)(M.state(v, f))
        if deep:
            for e in children(obj):
                self.set_known(e, fields, deep)
        return obj


def children(obj):
    if obj.is_couplet:
        return [obj.left, obj.right]
    if obj.is_set or obj.is_multiset:
        return list(obj.data)
    return []


# Caching one field through the public interface also caches others: field -> fields that imply it.
IMPLIED_BY = {'clan': ('relation',), 'multiclan': ('relation',), 'regular': ('relation',),
              'right_regular': ('relation',), 'relation': ('clan',), 'functional': ('regular',),
              'right_functional': ('right_regular',)}


class Concrete(Base):
    symbolic = False

    def __init__(self, lib, params, values, rename=0):
        super().__init__(lib, params)
        self.v = values.get('vars', {})
        self.funs = values.get('funs', {})
        self.rename = rename

    def _map(self, x):
        r = self.rename
        if r == 0:
            return x
        if r in (24, 25):  # all values get the same hash: int hashes are taken modulo 2**61 - 1
            return x * (2 ** 61 - 1) + 3 * (r - 24)
        mult = (1, 7, 13, 101, 1009, 65537, 2 ** 31 - 1, 31, 3, 17)[r % 10]
        sgn = -1 if (r // 10) % 2 else 1
        return sgn * (x * mult + r * 5)

    def val(self, name):
        return self._map(self.v.get(name, 0))

    def opq(self, name):
        x = self.v.get(name, 0)
        if isinstance(x, str):
            return x
        return 's%d' % self._map(x)

    def int(self, name, lo=None, hi=None):
        x = self.v.get(name)
        if x is None:
            x = lo if lo is not None else (hi if hi is not None else 0)
        return x

    def bool(self, name):
        return bool(self.v.get(name, False))

    def choice(self, name, n):
        return min(self.v.get(name, 0), n - 1)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def ite(self, cond, a, b):
        """Integer ``a`` if ``cond`` else ``b``, without forking in symbolic mode."""
        return a if cond else b

    def check(self, cond, msg):
        if not cond:
            raise CheckFailed(msg)

    def lazy(self, obj, name, fields=None, deep=False):
        v = M.view(obj)
        for f in (fields or M.FIELDS):
            if getattr(obj, 'cached_' + f) == M.UNKNOWN and self.v.get('k!%s!%s' % (name, f), False):
                getattr(obj, 'cache_' + f)(M.state(v, f))
        if deep:
            for i, e in enumerate(children(obj)):
                if not e.is_atom:
                    self.lazy(e, '%s.%d' % (name, i), fields, deep)
        return obj

    def fun(self, name, sort='val'):
        table = {tuple(a): r for a, r in self.funs.get(name, [])}

        def call(*args):
            key = tuple(self._unmap(a) for a in args)
            r = table.get(key)
            if sort == 'bool':
                return bool(r)
            return self._map(r if r is not None else 0)
        return call

    def _unmap(self, y):
        r = self.rename
        if r == 0:
            return y
        if r in (24, 25):
            return (y - 3 * (r - 24)) // (2 ** 61 - 1)
        mult = (1, 7, 13, 101, 1009, 65537, 2 ** 31 - 1, 31, 3, 17)[r % 10]
        sgn = -1 if (r // 10) % 2 else 1
        return (sgn * y - r * 5) // mult

    def finding(self, fid, listed):
        return False
