"""Forking symbolic executor for real Python code (z3 back end).

The code under test is ordinary Python, run by the interpreter.  Symbolic inputs are instances of
:class:`SymInt` (a z3 ``Int`` term, unbounded like Python's ``int``) and :class:`SymBool` (a z3
``Bool`` term).  When the code under test needs a truth value of a symbolic term, ``SymBool.__bool__``
asks the engine, which consults the solver for the feasibility of both outcomes under the current
path condition and forks when both are feasible.  Paths are enumerated depth-first by re-execution
with a decision prefix; the solver keeps one scope per decision, so the prefix is never re-solved.
A path ends when the harness returns; assertions made along a path are decided by the solver for
*all* values that follow the path (``pc and not P`` unsatisfiable).
"""
import itertools
import time
import z3


class StopPath(BaseException):
    """Abandon the current path (an assumption is infeasible).  BaseException on purpose."""


class Inconclusive(BaseException):
    """The solver answered unknown, or a limit was exceeded.  Never reported as success."""


class PropertyViolated(BaseException):
    """An assertion is violable on this path; carries the model."""
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


_cur = None      # the engine that is executing a path right now


def engine():
    return _cur


# ------------------------------------------------------------------------------------------------

TRUE_ID = z3.BoolVal(True).get_id()
FALSE_ID = z3.BoolVal(False).get_id()
_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)      # keep them alive


class SymBool:
    __slots__ = ('e', 'i')

    def __init__(self, e, i=None):
        self.e = e
        self.i = i

    def __bool__(self):
        if self.i is None:
            self.i = self.e.get_id()
        return _cur.branch(self.e, self.i)

    def __hash__(self):
        return 0

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return SymBool(self.e == other.e)
        if other is True:
            return self
        if other is False:
            return SymBool(z3.Not(self.e))
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else SymBool(z3.Not(r.e))

    def __and__(self, other):
        return SymBool(z3.And(self.e, to_bool(other)))
    __rand__ = __and__

    def __or__(self, other):
        return SymBool(z3.Or(self.e, to_bool(other)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def to_bool(v):
    if isinstance(v, SymBool):
        return v.e
    if v is True or v is False:
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    return z3.BoolVal(bool(v))


_eq_memo = {}


class SymInt:
    """A symbolic integer.  ``isinstance(x, int)`` holds through ``__class__``; ``type(x)`` is this
    class for every symbolic integer, so type comparisons between symbolic integers agree."""
    __slots__ = ('e', 'tok', 'i')

    def __init__(self, e, tok=None):
        self.e = e
        self.tok = tok
        self.i = e.get_id()

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return 0

    @staticmethod
    def _co(o):
        if type(o) is SymInt:
            return o.e
        if type(o) is bool:
            return z3.IntVal(1 if o else 0)
        if isinstance(o, int):
            return z3.IntVal(int(o))
        if type(o) is float and o == o and o not in (float('inf'), float('-inf')):
            return z3.RealVal(repr(o)) if o != int(o) else z3.IntVal(int(o))
        return None

    @staticmethod
    def _inf(o):
        """+1 / -1 for the float infinities, 0 otherwise."""
        if type(o) is float:
            return 1 if o == float('inf') else (-1 if o == float('-inf') else 0)
        return 0

    def __eq__(self, o):
        if type(o) is SymInt:
            ia, ib = self.i, o.i
            if ia == ib:
                return True
            key = (ia, ib) if ia < ib else (ib, ia)
            r = _eq_memo.get(key)
            if r is None:
                a, b = self.e, o.e
                f = a == b if ia < ib else b == a
                r = (SymBool(f, f.get_id()), f.get_id(), a, b)
                _eq_memo[key] = r
            hit = _cur.known.get(r[1])      # already decided on this path
            return r[0] if hit is None else hit[0]
        if self._inf(o):
            return False
        oe = self._co(o)
        if oe is None:
            return NotImplemented
        return SymBool(self.e == oe)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if r is True or r is False:
            return not r
        return SymBool(z3.Not(r.e))

    def __lt__(self, o):
        inf = self._inf(o)
        if inf:
            return True if inf > 0 else False
        oe = self._co(o)
        return NotImplemented if oe is None else SymBool(self.e < oe)

    def __le__(self, o):
        inf = self._inf(o)
        if inf:
            return True if inf > 0 else False
        oe = self._co(o)
        return NotImplemented if oe is None else SymBool(self.e <= oe)

    def __gt__(self, o):
        inf = self._inf(o)
        if inf:
            return False if inf > 0 else True
        oe = self._co(o)
        return NotImplemented if oe is None else SymBool(self.e > oe)

    def __ge__(self, o):
        inf = self._inf(o)
        if inf:
            return False if inf > 0 else True
        oe = self._co(o)
        return NotImplemented if oe is None else SymBool(self.e >= oe)

    def __add__(self, o):
        if self._inf(o):
            return o
        oe = self._co(o)
        return NotImplemented if oe is None else SymInt(z3.simplify(self.e + oe))
    __radd__ = __add__

    def __sub__(self, o):
        oe = self._co(o)
        return NotImplemented if oe is None else SymInt(z3.simplify(self.e - oe))

    def __rsub__(self, o):
        oe = self._co(o)
        return NotImplemented if oe is None else SymInt(z3.simplify(oe - self.e))

    def __mul__(self, o):
        oe = self._co(o)
        return NotImplemented if oe is None else SymInt(z3.simplify(self.e * oe))
    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        oe = self._co(o)
        if oe is None:
            return NotImplemented
        if self._co(o) is not None and bool(SymInt(oe) == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        # z3 div rounds so that the remainder is non-negative; Python floors.
        if bool(SymBool(oe > 0)):
            return SymInt(self.e / oe)
        return SymInt(z3.If(self.e % oe == 0, self.e / oe, self.e / oe - 1))

    def __mod__(self, o):
        oe = self._co(o)
        if oe is None:
            return NotImplemented
        if bool(SymInt(oe) == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if bool(SymBool(oe > 0)):
            return SymInt(self.e % oe)
        return SymInt(z3.If(self.e % oe == 0, 0, self.e % oe + oe))

    def __bool__(self):
        return _cur.branch(self.e != 0)

    def __index__(self):
        return _cur.concretize(self.e)
    __int__ = __index__

    def __trunc__(self):
        return self.__index__()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return self.tok if self.tok is not None else '<%s>' % (self.e,)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class SymOpq:
    """A symbolic opaque string (not empty, no white space around it): supports equality only.
    Never equal to a :class:`SymInt`."""
    __slots__ = ('e', 'tok')

    def __init__(self, e, tok=None):
        self.e = e
        self.tok = tok

    @property
    def __class__(self):
        return str

    def strip(self, *a):
        return self
    lstrip = rstrip = strip

    def __len__(self):
        return 2

    def isspace(self):
        return False

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if type(o) is not SymOpq:
            return NotImplemented
        return SymInt.__eq__(SymInt(self.e), SymInt(o.e))

    def __ne__(self, o):
        if type(o) is not SymOpq:
            return NotImplemented
        return SymInt.__ne__(SymInt(self.e), SymInt(o.e))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return self.tok if self.tok is not None else '<%s>' % (self.e,)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def is_sym(v):
    return type(v) is SymInt or type(v) is SymBool


# ------------------------------------------------------------------------------------------------

class Engine:
    def __init__(self, deadline=None, max_paths=None, max_branches=20000, solver_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_timeout_ms)
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_branches = max_branches
        # statistics
        self.paths = 0
        self.completed = 0
        self.stopped = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.q_sat = 0
        self.q_unsat = 0
        self.solver_s = 0.0
        self.checks = 0
        self.obligations = 0
        self.decided_concrete = 0
        self.truncated = 0
        self.max_values = 6          # concrete values explored where code needs a concrete number
        self.max_magnitude = 200
        # path state
        self.prefix = []
        self.trace = []
        self.model = None
        self.known = {}
        self.keep = []
        self.path_vars = {}
        self.levels = 0

    # -- solver -----------------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        if r == z3.sat:
            self.q_sat += 1
            return True
        if r == z3.unsat:
            self.q_unsat += 1
            return False
        raise Inconclusive('solver unknown: ' + self.solver.reason_unknown())

    def _model(self):
        if self.model is None:
            if not self._check():
                raise StopPath()
            self.model = self.solver.model()
        return self.model

    # -- decisions --------------------------------------------------------------------------------
    def branch(self, cond, key=None):
        """Truth value of ``cond`` on this path; forks if both outcomes are feasible."""
        if key is None:
            key = cond.get_id()
        hit = self.known.get(key)
        if hit is not None:
            return hit[0]
        if key == TRUE_ID:
            return True
        if key == FALSE_ID:
            return False
        if z3.is_not(cond):
            return not self.branch(cond.arg(0))
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive('deadline')
        self.branches += 1
        if len(self.trace) > self.max_branches:
            raise Inconclusive('branch limit')
        i = len(self.trace)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            self.trace.append((kind, val))
            if kind == 'fork' and i >= self.levels - 0:
                # the flipped decision at the end of the prefix: its scope must be asserted
                self._push(cond if val else z3.Not(cond))
                self.model = None
            self.known[key] = (val, cond)
            return val
        m = self._model()
        val = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if val else cond
        self._pushraw()
        self.solver.add(other)
        feasible_other = self._check()
        self._popraw()
        if feasible_other:
            self.forks += 1
            # take the True side first if it is the model's side; either order is fine
            self.trace.append(('fork', val))
            self.pending.append(i)
            self._push(cond if val else z3.Not(cond))
        else:
            self.trace.append(('forced', val))
            self._push(None)
        self.known[key] = (val, cond)
        return val

    # Scope bookkeeping: one solver scope per decision index.
    def _push(self, cond):
        self.solver.push()
        self.levels += 1
        if cond is not None:
            self.solver.add(cond)

    def _pushraw(self):
        self.solver.push()

    def _popraw(self):
        self.solver.pop()

    def concretize(self, e, limit=None):
        """Fork over the concrete values of ``e``: all of them, or the first few (counted as truncated)."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            n += 1
            i = len(self.trace)
            if i < len(self.prefix):
                # replay: the value is stored in the decision
                kind, (val, taken) = self.prefix[i]
                self.trace.append((kind, (val, taken)))
                if kind == 'cfork' and i >= self.levels:
                    self._push(e == val if taken else e != val)
                    self.model = None
                if taken:
                    return val
                continue
            if n > (limit or self.max_values):
                self.truncated += 1
                raise StopPath()
            m = self._model()
            val = m.eval(e, model_completion=True).as_long()
            if not -1 <= val <= 1:
                for small in (1, 0, 2, 3, 4, 5, 6):
                    if small == val:
                        break
                    if self._check(e == small):
                        self.model = None
                        val = small
                        break
            if abs(val) > self.max_magnitude:
                self.truncated += 1
                raise StopPath()
            self.branches += 1
            self._pushraw()
            self.solver.add(e != val)
            other = self._check()
            self._popraw()
            if other:
                self.forks += 1
                self.trace.append(('cfork', (val, True)))
                self.pending.append(i)
                self._push(e == val)
            else:
                self.trace.append(('cforced', (val, True)))
                self._push(None)
            return val

    def assume(self, cond):
        c = to_bool(cond)
        if z3.is_true(c):
            return
        i = len(self.trace)
        if i < len(self.prefix):
            self.trace.append(self.prefix[i])
            if i >= self.levels:
                self._push(c)
                self.model = None
            return
        self.trace.append(('assume', None))
        self._push(c)
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return
        self.model = None
        if not self._check():
            raise StopPath()
        self.model = self.solver.model()

    def proved(self):
        """An assertion that the path condition already decided."""
        if len(self.trace) >= len(self.prefix):
            self.checks += 1
            self.decided_concrete += 1

    def prove(self, cond, msg):
        """Assert that ``cond`` holds for all values on this path."""
        if len(self.trace) < len(self.prefix):
            # already discharged when the shared prefix was first explored
            return
        self.checks += 1
        c = to_bool(cond)
        i = c.get_id()
        if i == TRUE_ID:
            self.decided_concrete += 1
            return
        hit = self.known.get(i)
        if hit is not None and hit[0]:
            self.decided_concrete += 1
            return
        self.obligations += 1
        self._pushraw()
        self.solver.add(z3.Not(c))
        bad = self._check()
        if bad:
            self.model = self.solver.model()
            self._popraw()
            raise PropertyViolated(msg)
        self._popraw()

    # -- exploration ------------------------------------------------------------------------------
    def explore(self, run_path):
        """Call ``run_path()`` once per path.  Yields nothing; ``run_path`` returns normally when the
        path is complete, raises :class:`PropertyViolated` for a violation (propagated)."""
        global _cur
        _cur = self
        self.prefix = []
        self.pending = []     # indices (in trace) of decisions whose other side is unexplored
        try:
            while True:
                if self.deadline is not None and time.time() > self.deadline:
                    raise Inconclusive('deadline')
                if self.max_paths is not None and self.paths >= self.max_paths:
                    raise Inconclusive('path limit')
                self.trace = []
                self.known = {}
                self.model = None
                self.paths += 1
                try:
                    run_path()
                    self.completed += 1
                except StopPath:
                    self.stopped += 1
                if not self.pending:
                    return
                i = self.pending.pop()
                # pop scopes i..end, flip decision i
                while self.levels > i:
                    self.solver.pop()
                    self.levels -= 1
                kind, val = self.trace[i]
                if kind == 'fork':
                    flipped = ('fork', not val)
                else:
                    flipped = ('cfork', (val[0], False))
                self.prefix = self.trace[:i] + [flipped]
        finally:
            _cur = None
