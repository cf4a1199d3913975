"""
symx.core -- path-complete symbolic execution of real Python code with z3.

The code under test runs unmodified in CPython.  Its inputs, instants, faults
and scheduling decisions are proxies around z3 terms (SymInt, SymReal,
SymBool).  Every time the real code asks for the truth value of a symbolic
condition the engine asks the solver which sides are satisfiable under the
current path condition, follows one and records the other as a prefix to be
re-executed later.  Assertions are discharged by asking the solver for a model
of (path condition AND NOT assertion).

Three modes:
  * "sym"  -- symbolic exploration
  * "conc" -- the same harness on plain Python values taken from a model
              (replay of a counterexample / validation of an explored path)
  * None   -- inactive
"""
import json
import math
import os
import struct
import sys
import time as _rt_time
from fractions import Fraction

import z3

_perf = _rt_time.perf_counter


class PathEnd(BaseException):
    """Base of the exceptions which steer the exploration."""


class Infeasible(PathEnd):
    """an assumption cannot hold on this path"""


class Violation(PathEnd):
    def __init__(self, label, detail=""):
        super().__init__(label, detail)
        self.label = label
        self.detail = detail


class Inconclusive(PathEnd):
    """solver said unknown / bound exceeded / nondeterminism"""


class DeadSymbol(PathEnd):
    """symbol used after its path ended (finalizers)"""


class Hang(PathEnd):
    """nothing can make progress any more"""


# --------------------------------------------------------------------------
# values
#
# Numbers are linear expressions over named variables (canonical, in Python);
# non linear operations either introduce a defined integer variable (floor) or
# case-split.  Conditions are canonical atoms  L <= 0, L < 0, L == 0  with a
# positive leading coefficient, or boolean variables, or and/or over those.
# z3 terms are built from the canonical form on demand.

_INF = float("inf")
_TERMS = {}          # canonical key -> z3 BoolRef
_CONSTS = {}         # (name, kind) -> z3 const


def _const(name, kind):
    k = (name, kind)
    v = _CONSTS.get(k)
    if v is None:
        if kind == "int":
            v = z3.Int(name)
        elif kind == "real":
            v = z3.Real(name)
        else:
            v = z3.Bool(name)
        _CONSTS[k] = v
    return v


def _num(f):
    if isinstance(f, int):
        return z3.IntVal(f)
    return z3.Q(f.numerator, f.denominator)


def _lin_term(terms, const):
    """terms: tuple of ((name, kind), coef)"""
    if all(k[1] == "int" for k, _ in terms) and const.denominator == 1 and \
            all(c.denominator == 1 for _, c in terms):
        parts = []
        for k, c in terms:
            v = _const(*k)
            parts.append(v if c == 1 else z3.IntVal(c.numerator) * v)
        if const:
            parts.append(z3.IntVal(const.numerator))
    else:
        parts = []
        for k, c in terms:
            v = _const(*k)
            if k[1] == "int":
                v = z3.ToReal(v)
            parts.append(v if c == 1 else
                         z3.Q(c.numerator, c.denominator) * v)
        if const:
            parts.append(z3.Q(const.numerator, const.denominator))
    r = parts[0]
    for p in parts[1:]:
        r = r + p
    return r


def term_of(key):
    """z3 term of a canonical condition"""
    t = _TERMS.get(key)
    if t is not None:
        return t
    op = key[0]
    if op == "not":
        t = z3.Not(term_of(key[1]))
    elif op == "var":
        t = _const(key[1], "bool")
    elif op == "and":
        t = z3.And(*[term_of(k) for k in key[1]])
    elif op == "or":
        t = z3.Or(*[term_of(k) for k in key[1]])
    elif op == "iff":
        t = term_of(key[1]) == term_of(key[2])
    elif op == "true":
        t = z3.BoolVal(True)
    elif op == "false":
        t = z3.BoolVal(False)
    else:
        # move the constant to the right: sum <op> -const
        lhs = _lin_term(key[1], 0)
        c = -key[2]
        rhs = (z3.IntVal(c.numerator) if lhs.is_int() and c.denominator == 1
               else z3.Q(c.numerator, c.denominator))
        if op == "le":
            t = lhs <= rhs
        elif op == "lt":
            t = lhs < rhs
        else:
            t = lhs == rhs
    if len(_TERMS) > 60000:
        _TERMS.clear()
    _TERMS[key] = t
    return t


class SymBase:
    __slots__ = ("pid",)

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __reduce__(self):
        raise TypeError("symbolic value cannot be pickled")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _neg_key(k):
    if k[0] == "not":
        return k[1]
    if k == ("true",):
        return ("false",)
    if k == ("false",):
        return ("true",)
    return ("not", k)


class SymBool(SymBase):
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key
        self.pid = ENGINE.pid

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ENGINE.branch(self)

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return SymBool(_neg_key(self.key))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(("iff", self.key, o.key))
        if type(o) is bool:
            return self if o else ~self
        if isinstance(o, (int, float)):
            return int(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def __hash__(self):
        return 0

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__


def boolkey(v):
    if isinstance(v, SymBase):
        if type(v) is SymBool:
            return v.key
        r = v != 0
        return boolkey(r)
    return ("true",) if v else ("false",)


def _as_fraction(o):
    t = type(o)
    if t is int:
        return o
    if t is float:
        if o != o or o == _INF or o == -_INF:
            return None
        i = int(o)
        return i if i == o else Fraction(o)
    if t is Fraction:
        return o
    if t is bool:
        return int(o)
    if isinstance(o, SymBase):
        return None
    if isinstance(o, int):
        return int(o)
    if isinstance(o, float):
        return _as_fraction(float(o))
    return None


def _div(a, b):
    f = Fraction(a) / b
    return f.numerator if f.denominator == 1 else f


def _inv(a):
    return _div(1, a)


_EMPTY = {}


class SymNum(SymBase):
    """terms: dict (name, kind) -> Fraction; const: Fraction"""
    __slots__ = ("terms", "const")
    _int = False

    def __init__(self, terms, const):
        self.terms = terms
        self.const = const
        self.pid = ENGINE.pid

    @staticmethod
    def make(terms, const, is_int):
        if not terms:
            if is_int and const.denominator == 1:
                return int(const)
            if is_int:
                return const
            f = float(const)
            if f == const:
                return f
            return const
        return (SymInt if is_int else SymReal)(terms, const)

    def _parts(self, o):
        """(terms, const, is_int) of an operand or None"""
        t = type(o)
        if t is SymInt or t is SymReal:
            return o.terms, o.const, o._int
        if t is SymBool:
            return _EMPTY, int(o), True
        f = _as_fraction(o)
        if f is None:
            return None
        return _EMPTY, f, isinstance(o, int)

    def _addsub(self, o, sign):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        ot, oc, oi = p
        if not ot:
            return SymNum.make(self.terms, self.const + sign * oc,
                               self._int and oi)
        terms = dict(self.terms)
        for k, c in ot.items():
            v = terms.get(k, 0) + sign * c
            if v:
                terms[k] = v
            else:
                terms.pop(k, None)
        return SymNum.make(terms, self.const + sign * oc, self._int and oi)

    def __add__(self, o):
        if type(o) is float and o in (_INF, -_INF):
            return o
        return self._addsub(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is float and o in (_INF, -_INF):
            return -o
        return self._addsub(o, -1)

    def __rsub__(self, o):
        if type(o) is float and o in (_INF, -_INF):
            return o
        r = self._addsub(o, -1)
        return r if r is NotImplemented else -r

    def _scale(self, f, is_int):
        if not f:
            return 0 if is_int else 0.0
        return SymNum.make({k: c * f for k, c in self.terms.items()},
                           self.const * f, is_int)

    def __mul__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        ot, oc, oi = p
        if ot:
            # symbolic * symbolic: case-split an integer operand
            if self._int:
                return int(self) * o
            if oi:
                return self * int(o)
            ENGINE.fail_path(Inconclusive("non linear product"))
        return self._scale(oc, self._int and oi)
    __rmul__ = __mul__

    def __neg__(self):
        return self._scale(-1, self._int)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __truediv__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        ot, oc, oi = p
        if ot:
            if oi:
                o = int(o)
                oc = o
            elif self._int:
                return int(self) / o
            else:
                ENGINE.fail_path(Inconclusive("non linear quotient"))
        if not oc:
            raise ZeroDivisionError("division by zero")
        return self._scale(_inv(oc), False)

    def __rtruediv__(self, o):
        if self._int:
            return o / int(self)
        if _as_fraction(o) == 0:
            return 0.0
        ENGINE.fail_path(Inconclusive("non linear quotient"))

    def floor(self):
        if self._int:
            return self
        return ENGINE.define_floor(self)

    def __floordiv__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        ot, oc, oi = p
        if ot:
            if not oi:
                ENGINE.fail_path(Inconclusive("non linear quotient"))
            oc = int(o)
        if not oc:
            raise ZeroDivisionError("integer division or modulo by zero")
        x = self._scale(_inv(oc), False)
        q = x.floor() if isinstance(x, SymBase) else x // 1
        if self._int and oi:
            return q
        return q * 1.0

    def __mod__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        if p[0]:
            if not p[2]:
                ENGINE.fail_path(Inconclusive("non linear modulo"))
            o = int(o)
        return self - (self // o) * o

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        return o % int(self)

    def _cmp(self, o, op):
        """op: lt le eq -- returns bool or SymBool"""
        d = self._addsub(o, -1)
        if d is NotImplemented:
            return d
        if not isinstance(d, SymBase):
            return d < 0 if op == "lt" else d <= 0 if op == "le" else d == 0
        items = sorted(d.terms.items())
        lead = items[0][1]
        const = d.const
        if lead == -1:
            items = tuple([(k, -c) for k, c in items])
            const = -const
        elif lead != 1:
            items = tuple([(k, _div(c, lead)) for k, c in items])
            const = _div(const, lead)
        else:
            items = tuple(items)
        if op == "eq":
            return SymBool(("eq", items, const))
        if lead > 0:
            return SymBool((op, items, const))
        # -L < 0  <=>  not (L <= 0)
        return SymBool(("not", ("le" if op == "lt" else "lt", items, const)))

    def __lt__(self, o):
        if type(o) is float and o in (_INF, -_INF):
            return o > 0
        return self._cmp(o, "lt")

    def __le__(self, o):
        if type(o) is float and o in (_INF, -_INF):
            return o > 0
        return self._cmp(o, "le")

    def __gt__(self, o):
        if type(o) is float and o in (_INF, -_INF):
            return o < 0
        r = self._cmp(o, "le")
        return r if r is NotImplemented else Not(r)

    def __ge__(self, o):
        if type(o) is float and o in (_INF, -_INF):
            return o < 0
        r = self._cmp(o, "lt")
        return r if r is NotImplemented else Not(r)

    def __eq__(self, o):
        if type(o) is float and o in (_INF, -_INF):
            return False
        if self is o:
            return True
        return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)


class SymInt(SymNum):
    __slots__ = ()
    _int = True

    @property
    def __class__(self):
        return int

    def __index__(self):
        return ENGINE.concretize(self)

    __int__ = __index__

    def __float__(self):
        return float(ENGINE.concretize(self))

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self
    __ceil__ = __trunc__ = __floor__

    def __pow__(self, o):
        return int(self) ** o

    def __rpow__(self, o):
        return o ** int(self)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        return int(self) & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)
    __ror__ = __or__

    def bit_length(self):
        return int(self).bit_length()

    def to_bytes(self, *a, **k):
        return int(self).to_bytes(*a, **k)

    @property
    def real(self):
        return self


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class symbolic_int(int, metaclass=_IntMeta):
    """stand-in for the ``int`` builtin in a module under test: int(x) of a
    symbolic number stays symbolic instead of being case-split"""

    def __new__(cls, v=0, *a):
        if isinstance(v, SymNum) and not a:
            return v if v._int else v.__trunc__()
        return int(v, *a)


class Pow2:
    """a * 2**e + c, with a symbolic (or concrete) exponent e, a > 0"""

    __hash__ = None

    def __init__(self, e, a=1, c=0):
        self.e, self.a, self.c = e, a, c

    def __add__(self, o):
        return Pow2(self.e, self.a, self.c + o)
    __radd__ = __add__

    def __sub__(self, o):
        return Pow2(self.e, self.a, self.c - o)

    def __mul__(self, o):
        if not o > 0:
            return NotImplemented
        return Pow2(self.e, self.a * o, self.c * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1 / o)

    def _exps(self, o):
        """a pair which compares as the values do"""
        if isinstance(o, Pow2):
            if o.c != self.c:
                ENGINE.fail_path(Inconclusive("powers of two do not compare"))
            k = math.log2(self.a / o.a)
            return (self.e + k if k else self.e), o.e
        if isinstance(o, SymBase):
            ENGINE.fail_path(Inconclusive("powers of two do not compare"))
        x = (o - self.c) / self.a
        if x <= 0:
            return 1, 0
        k = math.log2(x)
        if abs(k - round(k)) < 1e-9:
            k = round(k)
        if not isinstance(self.e, SymBase) and abs(self.e - k) < 1e-9:
            return 0, 0
        return self.e, k

    def __lt__(self, o):
        a, b = self._exps(o)
        return a < b

    def __le__(self, o):
        a, b = self._exps(o)
        return a <= b

    def __gt__(self, o):
        a, b = self._exps(o)
        return a > b

    def __ge__(self, o):
        a, b = self._exps(o)
        return a >= b

    def __eq__(self, o):
        a, b = self._exps(o)
        return a == b


class SymReal(SymNum):
    __slots__ = ()
    _int = False

    def __rpow__(self, o):
        if o == 2:
            return Pow2(self)
        return NotImplemented

    @property
    def __class__(self):
        return float

    def __int__(self):
        return int(self.__trunc__())

    def __trunc__(self):
        if self >= 0:
            return self.floor()
        return -((-self).floor())

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())

    def __round__(self, n=None):
        ENGINE.fail_path(Inconclusive("round() of a symbolic real"))

    def __float__(self):
        ENGINE.fail_path(Inconclusive("float() of a symbolic real"))

    def is_integer(self):
        return self == self.floor()


# --------------------------------------------------------------------------

class Stats:
    FIELDS = (
        "paths", "forks", "decisions", "queries", "q_sat", "q_unsat",
        "q_unknown", "solver_s", "assertions", "trivial_assertions",
        "infeasible", "validated", "steps", "wall_s", "val_mismatch",
        "pruned", "states",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


_OPS = {
    "le": lambda v: v <= 0,
    "lt": lambda v: v < 0,
    "eq": lambda v: v == 0,
}


class Engine:
    def __init__(self):
        self.mode = None
        self.pid = 0
        self.stats = Stats()
        self.query_timeout = 4000

    # -- path life cycle ---------------------------------------------------
    def begin(self, mode, prefix=(), values=None):
        self.mode = mode
        self.pid += 1
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.cache = {}
        self.names = {}
        self.vars = {}          # name -> kind   (sym) | value (conc)
        self.values = values or {}
        self.events = []
        self.covered = set()
        self.abort = None
        self._model = {} if not prefix else None
        self.steps = 0
        self.notes = {}
        self.serial = 0
        self.floors = {}
        self.solver = None
        self.path_solver_s = 0.0
        if mode == "sym":
            self.solver = z3.SimpleSolver()
            self.solver.set("timeout", self.query_timeout)

    def end(self):
        self.mode = None
        self.solver = None
        self._model = None

    def next_serial(self):
        self.serial += 1
        return self.serial

    # -- solver --------------------------------------------------------------
    def _check(self):
        t = _perf()
        self.last_solver = self.solver
        r = self.solver.check()
        if r == z3.unknown:
            r = self._check_again()
        t = _perf() - t
        self.path_solver_s += t
        self.stats.solver_s += t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.q_sat += 1
        elif r == z3.unsat:
            self.stats.q_unsat += 1
        else:
            self.stats.q_unknown += 1
            self.fail_path(Inconclusive(
                "solver: unknown (%s)" % self.solver.reason_unknown()))
        return r

    def _check_again(self):
        """the incremental solver sometimes diverges: other strategies"""
        for i, ms in enumerate((5000, 10000, 20000)):
            s = z3.Solver() if i % 2 == 0 else z3.SimpleSolver()
            s.set("timeout", ms)
            s.set("random_seed", 17 + i)
            s.add(self.solver.assertions())
            r = s.check()
            if r != z3.unknown:
                self.last_solver = s
                return r
        return z3.unknown

    def _check_with(self, key):
        self.solver.push()
        try:
            self.solver.add(term_of(key))
            r = self._check()
            m = self._read_model() if r == z3.sat else None
        finally:
            self.solver.pop()
        return r, m

    def _read_model(self, zm=None):
        zm = zm or self.last_solver.model()
        out = {}
        for name, kind in self.vars.items():
            x = zm.eval(_const(name, kind), model_completion=False)
            if kind == "bool":
                if z3.is_true(x):
                    out[name] = True
                elif z3.is_false(x):
                    out[name] = False
            elif z3.is_int_value(x):
                out[name] = x.as_long()
            elif z3.is_rational_value(x):
                out[name] = Fraction(x.numerator_as_long(),
                                     x.denominator_as_long())
            elif z3.is_algebraic_value(x):
                x = x.approx(20)
                out[name] = Fraction(x.numerator_as_long(),
                                     x.denominator_as_long())
        return out

    def model(self):
        if self._model is None:
            r = self._check()
            if r != z3.sat:
                self.fail_path(Infeasible("path condition unsat"))
            self._model = self._read_model()
        return self._model

    def eval_key(self, key, m):
        op = key[0]
        if op == "not":
            return not self.eval_key(key[1], m)
        if op == "var":
            return m.get(key[1], False)
        if op == "and":
            return all(self.eval_key(k, m) for k in key[1])
        if op == "or":
            return any(self.eval_key(k, m) for k in key[1])
        if op == "iff":
            return self.eval_key(key[1], m) == self.eval_key(key[2], m)
        if op == "true":
            return True
        if op == "false":
            return False
        v = key[2]
        for (name, _), c in key[1]:
            x = m.get(name)
            if x:
                v = v + c * x
        return _OPS[op](v)

    def eval_num(self, n, m):
        v = n.const
        for (name, _), c in n.terms.items():
            v += c * m.get(name, 0)
        return v

    def add(self, key):
        self.solver.add(term_of(key))

    def fail_path(self, exc):
        """abort the current path; sticky, because asyncio tasks and broad
        ``except`` clauses swallow exceptions"""
        if self.abort is None:
            self.abort = exc
        raise exc

    def alive(self, sym=None):
        if self.abort is not None:
            raise self.abort
        if self.mode != "sym" or (sym is not None and sym.pid != self.pid):
            raise DeadSymbol("symbol outside of its path")

    # -- branching -------------------------------------------------------------
    def known(self, key):
        """value of a condition already decided on this path"""
        op = key[0]
        if op == "not":
            v = self.known(key[1])
            return None if v is None else not v
        if op == "true":
            return True
        if op == "false":
            return False
        c = self.cache
        v = c.get(key)
        if v is not None:
            return v
        if op == "le":
            if c.get(("lt",) + key[1:]) or c.get(("eq",) + key[1:]):
                return True
            if c.get(("lt",) + key[1:]) is False and \
                    c.get(("eq",) + key[1:]) is False:
                return False
        elif op == "lt":
            if c.get(("le",) + key[1:]) is False or c.get(
                    ("eq",) + key[1:]):
                return False
            if c.get(("le",) + key[1:]) and c.get(
                    ("eq",) + key[1:]) is False:
                return True
        elif op == "eq":
            le, lt = c.get(("le",) + key[1:]), c.get(("lt",) + key[1:])
            if lt or le is False:
                return False
            if le and lt is False:
                return True
        elif op == "and":
            vs = [self.known(k) for k in key[1]]
            if any(v is False for v in vs):
                return False
            if all(vs):
                return True
        elif op == "or":
            vs = [self.known(k) for k in key[1]]
            if any(vs):
                return True
            if all(v is False for v in vs):
                return False
        return None

    def branch(self, sym):
        self.alive(sym)
        key = sym.key
        neg = False
        if key[0] == "not":
            key = key[1]
            neg = True
        hit = self.known(key)
        if hit is not None:
            return hit != neg
        self.stats.decisions += 1
        i = self.pos
        h = hash(key) & 0xffffffff
        if i < len(self.prefix):
            code, ph = self.prefix[i]
            if ph != h or code == 9:
                self.fail_path(Inconclusive(
                    "nondeterministic re-execution at decision %d: %s" % (
                        i, str(key)[:300])))
            val = bool(code & 1)
            if code & 2:
                self.add(key if val else _neg_key(key))
                self._model = None
        else:
            m = self.model()
            val = self.eval_key(key, m)
            r, m2 = self._check_with(_neg_key(key) if val else key)
            if r == z3.sat:
                code = 2 | val
                self.pending.append(
                    tuple(self.decisions) + (((2 | (not val)), h),))
                self.add(key if val else _neg_key(key))
                self.stats.forks += 1
            else:
                code = int(val)
        self.decisions.append((code, h))
        self.pos = i + 1
        self.cache[key] = val
        return val != neg

    def concretize(self, sym, limit=300):
        """case-split an integer expression over all its feasible values"""
        self.alive(sym)
        n = 0
        while True:
            i = self.pos
            if i < len(self.prefix):
                code, v = self.prefix[i]
                if code != 9:
                    self.fail_path(Inconclusive(
                        "nondeterministic concretization"))
            else:
                v = self.eval_num(sym, self.model())
                if v.denominator != 1:
                    self.fail_path(Inconclusive("model is not integral"))
                v = int(v)
            self.decisions.append((9, v))
            self.pos = i + 1
            c = sym == v
            if c is True or (c is not False and self.branch(c)):
                return v
            n += 1
            if n > limit:
                self.fail_path(Inconclusive("concretization limit"))

    # -- symbol creation ---------------------------------------------------------
    def fresh_name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else "%s#%d" % (name, k)

    def new(self, name, kind, lo, hi, strict=False):
        """kind: int | real | bool"""
        if self.abort is not None:
            raise self.abort
        name = self.fresh_name(name)
        if self.mode == "conc":
            if name in self.values:
                v = self.values[name]
                self.vars[name] = v
                return v
            self.notes.setdefault("missing", []).append(name)
            if kind == "bool":
                return False
            if kind == "int":
                return lo if lo is not None else 0
            return float(lo) + bool(strict) if lo is not None else 0.0
        if self.mode != "sym":
            raise DeadSymbol("no active path")
        self.vars[name] = kind
        if kind == "bool":
            return SymBool(("var", name))
        cls = SymInt if kind == "int" else SymReal
        v = cls({(name, kind): 1}, 0)
        # the variable is fresh: any value within its bounds extends the model
        d = 0
        if lo is not None:
            self.add((v > lo if strict else v >= lo).key)
            if lo > d or (lo == d and strict):
                d = lo + (1 if strict else 0)
        if hi is not None:
            self.add((v <= hi).key)
            if d > hi:
                d = hi if not strict or lo is None or hi > lo else hi
                if strict and lo is not None and hi <= lo + 1:
                    d = (Fraction(lo) + Fraction(hi)) / 2
        if self._model is not None:
            self._model[name] = d
        return v

    def define_floor(self, x):
        """the integer q with q <= x < q + 1"""
        key = (tuple(sorted(x.terms.items())), x.const)
        q = self.floors.get(key)
        if q is not None:
            return q
        name = self.fresh_name("floor")
        self.vars[name] = "int"
        q = SymInt({(name, "int"): 1}, 0)
        self.add((q <= x).key)
        self.add((x < q + 1).key)
        if self._model is not None:
            v = self.eval_num(x, self._model)
            self._model[name] = v.numerator // v.denominator
        self.floors[key] = q
        return q

    def assume(self, cond):
        if self.abort is not None:
            raise self.abort
        if isinstance(cond, SymBase):
            self.alive(cond)
            key = boolkey(cond)
            k = self.known(key)
            if k:
                return
            if key[0] == "not":
                self.cache[key[1]] = False
            else:
                self.cache[key] = True
            self.add(key)
            if self._model is not None and self.eval_key(key, self._model):
                return
            self._model = None
            if self.pos >= len(self.prefix):
                if self._check() != z3.sat:
                    self.fail_path(Infeasible("assumption"))
                self._model = self._read_model()
        elif not cond:
            self.fail_path(Infeasible("assumption"))

    # -- assertions ------------------------------------------------------------
    def check(self, cond, label, detail=""):
        if self.abort is not None:
            raise self.abort
        self.stats.assertions += 1
        if isinstance(cond, SymBase):
            self.alive(cond)
            key = boolkey(cond)
            if self.known(key):
                return
            if self.pos < len(self.prefix):
                # already discharged by the execution which forked this prefix
                self._note(key)
                return
            nkey = _neg_key(key)
            if self._model is not None and self.eval_key(nkey, self._model):
                self.add(nkey)
                self.fail_path(Violation(label, detail))
            r, m = self._check_with(nkey)
            if r == z3.sat:
                self.add(nkey)
                self._model = m
                self.fail_path(Violation(label, detail))
            self._note(key)
        elif not cond:
            if self.mode == "sym":
                self.model()
            self.fail_path(Violation(label, detail))
        else:
            self.stats.trivial_assertions += 1

    def _note(self, key):
        """a condition implied by the path condition"""
        if key[0] == "not":
            self.cache[key[1]] = False
        else:
            self.cache[key] = True

    def cover(self, label):
        self.covered.add(label)

    def event(self, *a):
        self.events.append(a)

    # -- models ------------------------------------------------------------------
    def concrete_model(self):
        """values for all the symbols; reals restricted to dyadic rationals
        (exactly representable, with exact sums) whenever possible"""
        reals = [_const(n, k) for n, k in self.vars.items() if k == "real"]
        exact = True
        s = self.solver
        m = None
        if reals:
            for den, ms in ((8, 100), (1024, 500), (1 << 20, 2000)):
                s.push()
                s.set("timeout", ms)
                for i, v in enumerate(reals):
                    s.add(v * den == z3.ToReal(_const("__dy%d" % i, "int")))
                    s.add(v < 1 << 20, v > -(1 << 20))
                try:
                    self.stats.queries += 1
                    self.last_solver = s
                    if s.check() == z3.sat:
                        m = self._read_model()
                except z3.Z3Exception:
                    pass
                s.pop()
                if m is not None:
                    break
            else:
                exact = False
            s.set("timeout", self.query_timeout)
        if m is None:
            if self._check() != z3.sat:
                return None, False
            m = self._read_model()
        out = {}
        for name, kind in self.vars.items():
            x = m.get(name, 0)
            if kind == "bool":
                out[name] = bool(x)
            elif kind == "int":
                out[name] = int(x)
            else:
                out[name] = float(x)
        self._cmodel = m
        return out, exact

    def eval_in(self, m, v):
        if isinstance(v, SymBase):
            if type(v) is SymBool:
                return self.eval_key(v.key, m)
            return self.eval_num(v, m)
        if isinstance(v, tuple):
            return tuple(self.eval_in(m, i) for i in v)
        return v


ENGINE = Engine()


# --------------------------------------------------------------------------
# harness API

def sym_int(name, lo=None, hi=None):
    return ENGINE.new(name, "int", lo, hi)


def sym_real(name, lo=None, hi=None, strict=False):
    """strict: the lower bound is exclusive"""
    return ENGINE.new(name, "real", lo, hi, strict)


def sym_bool(name):
    return ENGINE.new(name, "bool", None, None)


def choose(name, n):
    """a symbolic integer in [0, n), case-split at once"""
    if n <= 1:
        return 0
    v = ENGINE.new(name, "int", 0, n - 1)
    if ENGINE.mode == "conc":
        return v
    for i in range(n - 1):
        if v == i:
            return i
    return n - 1


def pick(name, seq):
    seq = list(seq)
    return seq[choose(name, len(seq))]


def assume(cond):
    ENGINE.assume(cond)


def check(cond, label, detail=""):
    ENGINE.check(cond, label, detail)


def fail(label, detail=""):
    ENGINE.check(False, label, detail)


def cover(label):
    ENGINE.cover(label)


def event(*a):
    ENGINE.event(*a)


def _nary(op, unit, a):
    keys = []
    for i in a:
        if isinstance(i, SymBase):
            k = boolkey(i)
        else:
            if bool(i) == unit:
                continue
            return not unit
        if k == ("true",) or k == ("false",):
            if (k == ("true",)) == unit:
                continue
            return not unit
        keys.append(k)
    if not keys:
        return unit
    if len(keys) == 1:
        return SymBool(keys[0])
    return SymBool((op, tuple(keys)))


def And(*a):
    return _nary("and", True, a)


def Or(*a):
    return _nary("or", False, a)


def Not(a):
    if isinstance(a, SymBase):
        return SymBool(_neg_key(boolkey(a)))
    return not a


def Implies(a, b):
    return Or(Not(a), b)


def smin(a, *more):
    for b in more:
        a = a if a <= b else b
    return a


def smax(a, *more):
    for b in more:
        a = a if a >= b else b
    return a


def is_sym(v):
    return isinstance(v, SymBase)


def _fraction_defers():
    """a Fraction leaves operations with a symbolic number to that one"""
    def defer(orig):
        def method(a, b):
            if isinstance(b, SymBase):
                return NotImplemented
            return orig(a, b)
        return method
    for op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "lt", "le",
               "gt", "ge", "eq"):
        name = "__%s__" % op
        setattr(Fraction, name, defer(getattr(Fraction, name)))


_fraction_defers()
