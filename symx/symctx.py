"""Symbolic harness context."""
import z3
from . import engine as E
from . import model as M
from .ctx import Base, IMPLIED_BY, children


class LazyF:
    """Stands in for the flag record of an operand: each field is either UNKNOWN or its true value,
    decided by a solver variable when the code first reads (or writes) it."""
    def __init__(self, owner):
        object.__setattr__(self, '_o', owner)

    def __getattr__(self, n):
        o = object.__getattribute__(self, '_o')
        if n in o.pending:
            o.resolve(n)
        return getattr(o.real.f, n)

    def __setattr__(self, n, v):
        o = object.__getattribute__(self, '_o')
        if n in o.pending:
            o.resolve(n)
        setattr(o.real.f, n, v)


class LazyFlags:
    def __init__(self, real, obj, pending):
        self.real = real
        self.obj = obj
        self.view = M.view(obj)
        self.empty = obj.is_empty
        self.pending = pending      # field -> solver variable
        self.f = LazyF(self)

    def resolve(self, n):
        var = self.pending.pop(n)
        # a field whose caching (through the public interface) also caches this one comes first
        for d in IMPLIED_BY.get(n, ()):
            if d in self.pending and (d not in ('relation', 'clan') or
                                      (not self.empty and M.v_prop(self.view, d) is True)):
                self.resolve(d)
        if getattr(self.real.f, n) == M.UNKNOWN and bool(E.SymBool(var)):
            t = M.state(self.view, n)
            if getattr(self.real.f, n) == M.UNKNOWN:
                getattr(self.obj, 'cache_' + n)(t)

    @property
    def asint(self):
        for n in list(self.pending):
            if n in self.pending:
                self.resolve(n)
        return self.real.asint

    @asint.setter
    def asint(self, v):
        self.pending.clear()
        self.real.asint = v


class Symbolic(Base):
    symbolic = True

    def __init__(self, lib, params, eng, findings=()):
        super().__init__(lib, params)
        self.eng = eng
        self.vars = {}
        self.funcs = {}
        self.calls = {}
        self.listed = findings

    def _var(self, name, kind):
        v = self.vars.get(name)
        if v is None:
            v = (z3.Bool(name) if kind == 'bool' else z3.Int(name), kind)
            self.vars[name] = v
        return v[0]

    def const(self, v):
        # integers are of the same kind as the symbolic ones
        return E.SymInt(z3.IntVal(v)) if type(v) is int else v

    def val(self, name):
        return E.SymInt(self._var(name, 'val'))

    def opq(self, name):
        return E.SymOpq(self._var(name, 'opq'))

    def int(self, name, lo=None, hi=None):
        new = name not in self.vars
        x = E.SymInt(self._var(name, 'int'))
        if new:
            if lo is not None:
                self.eng.assume(E.SymBool(x.e >= lo))
            if hi is not None:
                self.eng.assume(E.SymBool(x.e <= hi))
        return x

    def bool(self, name):
        return E.SymBool(self._var(name, 'bool'))

    def choice(self, name, n):
        if n == 1:
            return 0
        return self.eng.concretize(self.int(name, 0, n - 1).e, n)

    def assume(self, cond):
        self.eng.assume(E.to_bool(cond) if E.is_sym(cond) else cond)

    def ite(self, cond, a, b):
        if cond is True or cond is False:
            return a if cond else b
        return E.SymInt(z3.simplify(z3.If(E.to_bool(cond), E.SymInt._co(a), E.SymInt._co(b))))

    def check(self, cond, msg):
        if cond is True:
            self.eng.proved()
            return
        if not E.is_sym(cond):
            cond = bool(cond)
        elif type(cond) is E.SymInt:
            cond = E.SymBool(cond.e != 0)
        self.eng.prove(cond, msg)

    def lazy(self, obj, name, fields=None, deep=False):
        fl = getattr(obj, '_flags', None)
        if type(fl) is not LazyFlags:
            pend = {}
            for f in (fields or M.FIELDS):
                if getattr(obj, 'cached_' + f) == M.UNKNOWN:
                    pend[f] = self._var('k!%s!%s' % (name, f), 'bool')
            if fl is not None and hasattr(fl, 'f'):
                obj._flags = LazyFlags(fl, obj, pend)
            else:
                # flag storage was reworked: decide the states up front, through the public interface
                v = M.view(obj)
                for f, var in pend.items():
                    if bool(E.SymBool(var)) and getattr(obj, 'cached_' + f) == M.UNKNOWN:
                        getattr(obj, 'cache_' + f)(M.state(v, f))
        if deep:
            for i, e in enumerate(children(obj)):
                if not e.is_atom:
                    self.lazy(e, '%s.%d' % (name, i), fields, deep)
        return obj

    def known(self, obj, f):
        # a state that no code has looked at yet is sound by construction
        fl = getattr(obj, '_flags', None)
        if type(fl) is LazyFlags and f in fl.pending:
            return M.UNKNOWN
        return getattr(obj, 'cached_' + f)

    def fun(self, name, sort='val'):
        calls = self.calls.setdefault(name, [])

        def call(*args):
            es = [E.SymInt._co(a) for a in args]
            key = (name, len(es))
            f = self.funcs.get(key)
            if f is None:
                rng = z3.BoolSort() if sort == 'bool' else z3.IntSort()
                f = z3.Function(name, *([z3.IntSort()] * len(es)), rng)
                self.funcs[key] = f
            app = f(*es)
            calls.append((es, app, sort))
            return E.SymBool(app) if sort == 'bool' else E.SymInt(app)
        return call

    def finding(self, fid, listed=True):
        """True if the finding ``fid`` is listed in the committed known-findings file; the caller has
        established that the current path is the specific failing input of that finding."""
        if fid in self.listed:
            self.findings_hit.add(fid)
            return True
        return False

    def values(self, mdl):
        def num(e):
            return mdl.eval(e, model_completion=True).as_long()
        out = {}
        for n, (e, kind) in self.vars.items():
            if kind == 'bool':
                out[n] = z3.is_true(mdl.eval(e, model_completion=True))
            else:
                out[n] = num(e)
        funs = {}
        for n, cs in self.calls.items():
            rows = []
            for es, app, sort in cs:
                r = z3.is_true(mdl.eval(app, model_completion=True)) if sort == 'bool' else num(app)
                row = [[num(e) for e in es], r]
                if row not in rows:
                    rows.append(row)
            funs[n] = rows
        return {'vars': out, 'funs': funs}
