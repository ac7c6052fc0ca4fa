"""Symbolic execution of the real Python code over exact real arithmetic.

Inputs are :class:`Sym` numbers: rational functions of base variables that
also carry their value at a rational witness point.  CPython runs the real
functions; every comparison of symbolic numbers is answered with the truth at
the witness and recorded as a constraint on the sign of a polynomial.  After a
run, each recorded constraint is negated in turn (keeping the ones before it)
and handed to z3: a model is the witness of another path, ``unsat`` proves that
there is no such path.  When the work list is empty, every real-valued input
satisfying the precondition has been covered by some explored path, and the
postcondition (evaluated on the same symbolic values, hence constant along a
path) holds on all of them.  ``unknown`` leaves the obligation undischarged.
"""

import signal
import time
from fractions import Fraction as Q
from math import gcd
from numbers import Number

import z3


class Unsupported(Exception):
    """The code left the subset that the engine understands"""


class Skip(BaseException):
    """Precondition is false on this path"""


class Abort(BaseException):
    """Time or path budget of the contract is over"""


# ------------------------------------------------------------- polynomials
# dict: monomial (sorted tuple of variable indices) -> nonzero int/Fraction


def p_const(c):
    return {(): c} if c else {}


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else -c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)) if m and n else m or n
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_key(a):
    """Canonical form up to positive/negative scaling: (key, flipped)"""
    items = sorted(a.items())
    den = 1
    for _, c in items:
        if isinstance(c, Q):
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    ints = []
    for m, c in items:
        v = int(c * den)
        ints.append((m, v))
        g = gcd(g, v)
    flip = ints[-1][1] < 0
    g = -g if flip else g
    return tuple((m, v // g) for m, v in ints), flip


ALL = frozenset((-1, 0, 1))


def p_divide(a, f):
    """Exact quotient of integer polynomials or None (f is primitive)"""
    lf = max(f, key=_order)
    cf = f[lf]
    a = dict(a)
    q = {}
    while a:
        la = max(a, key=_order)
        m = _quotient(la, lf)
        if m is None:
            return None
        c, r = divmod(a[la], cf)
        if r:
            return None
        q[m] = c
        for n, d in f.items():
            k = tuple(sorted(m + n)) if m and n else m or n
            v = a.get(k, 0) - c * d
            if v:
                a[k] = v
            else:
                del a[k]
    return q


def _order(m):
    return len(m), m


def _quotient(m, n):
    """Monomial m / n or None"""
    if not n:
        return m
    rest = list(m)
    for i in n:
        if i not in rest:
            return None
        rest.remove(i)
    return tuple(rest)


def p_lift(p, factors_):
    """Product with factors [(key, exponent)]"""
    for f, e in factors_:
        f = dict(f)
        for _ in range(e):
            p = p_mul(p, f)
    return p


class Sym:
    """A real number num / (c * den)

    num is an integer polynomial, c a positive integer, den a product of
    powers of irreducible polynomials that are not zero on the path.  Numbers
    are interned, operations on them are memoized.
    """

    __slots__ = ('num', 'c', 'den', 'id', 'key', 'flip', 'split')

    def __init__(self):
        raise Unsupported('construction of a symbolic number')

    @staticmethod
    def of(num, c, den):
        k = (tuple(sorted(num.items())), c, den)
        r = _INTERN.get(k)
        if r is None:
            r = _INTERN[k] = object.__new__(Sym)
            r.num = num
            r.c = c
            r.den = den
            r.id = len(_INTERN)
            r.key = None
        return r

    @staticmethod
    def lift(o):
        if o.__class__ is Sym:
            return o
        try:
            return _LIFTED[o]
        except (KeyError, TypeError):
            pass
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, float):
            o = Q(o)
        n = getattr(o, 'numerator', None)
        d = getattr(o, 'denominator', None)
        if n is None or d is None or not isinstance(o, Number):
            return None
        r = _LIFTED[o] = Sym.of(p_const(int(n)), int(d), ())
        return r

    @staticmethod
    def make(num, c, den, cancel):
        """Reduced number; only the factors ``cancel`` of den may cancel"""
        if not num:
            return Sym.of({}, 1, ())
        if cancel:
            res = []
            for f, e in den:
                if f in cancel:
                    fd = dict(f)
                    while e:
                        q = p_divide(num, fd)
                        if q is None:
                            break
                        num = q
                        e -= 1
                if e:
                    res.append((f, e))
            den = tuple(res)
        if c != 1:
            g = gcd(c, *num.values())
            if g != 1:
                c //= g
                num = {m: x // g for m, x in num.items()}
        return Sym.of(num, c, den)

    # arithmetic
    @staticmethod
    def _sum(x, y, s):
        a, b = x.num, y.num
        if x.den == y.den:
            den = x.den
            common = {f for f, _ in den} if den else None
        else:
            da, db = dict(x.den), dict(y.den)
            common = {f for f in da if f in db}
            den = dict(da)
            for f, e in db.items():
                if den.get(f, 0) < e:
                    den[f] = e
            a = p_lift(a, [(f, e - da.get(f, 0)) for f, e in den.items()])
            b = p_lift(b, [(f, e - db.get(f, 0)) for f, e in den.items()])
            den = tuple(sorted(den.items()))
        if x.c == y.c:
            c = x.c
        else:
            g = gcd(x.c, y.c)
            ka, kb = y.c // g, x.c // g
            c = x.c * ka
            if ka != 1:
                a = {m: v * ka for m, v in a.items()}
            if kb != 1:
                b = {m: v * kb for m, v in b.items()}
        return Sym.make(p_add(a, b, s), c, den, common)

    def __add__(self, o):
        if o.__class__ is not Sym:
            o = Sym.lift(o)
            if o is None:
                return NotImplemented
        k = (self.id, o.id) if self.id < o.id else (o.id, self.id)
        r = _ADD.get(k)
        if r is None:
            r = _ADD[k] = Sym._sum(self, o, 1)
        return r

    __radd__ = __add__

    def __sub__(self, o):
        if o.__class__ is not Sym:
            o = Sym.lift(o)
            if o is None:
                return NotImplemented
        k = (self.id, o.id)
        r = _SUB.get(k)
        if r is None:
            r = _SUB[k] = Sym._sum(self, o, -1)
        return r

    def __rsub__(self, o):
        o = Sym.lift(o)
        return NotImplemented if o is None else o.__sub__(self)

    def __mul__(self, o):
        if o.__class__ is not Sym:
            o = Sym.lift(o)
            if o is None:
                return NotImplemented
        k = (self.id, o.id) if self.id < o.id else (o.id, self.id)
        r = _MUL.get(k)
        if r is None:
            r = _MUL[k] = Sym._product(self, o)
        return r

    __rmul__ = __mul__

    @staticmethod
    def _product(x, y):
        if not x.num or not y.num:
            return Sym.of({}, 1, ())
        a, b = x.num, y.num
        da, db = x.den, y.den
        if da or db:
            if da and len(b) > 1:
                b, da = _cancel(b, da)
            if db and len(a) > 1:
                a, db = _cancel(a, db)
            if not da or not db:
                den = da or db
            else:
                den = dict(da)
                for f, e in db:
                    den[f] = den.get(f, 0) + e
                den = tuple(sorted(den.items()))
        else:
            den = ()
        return Sym.make(p_mul(a, b), x.c * y.c, den, None)

    def inverse(self):
        if CTX.decide_number(self, ZERO):
            raise ZeroDivisionError('division by symbolic zero')
        r = _INVERSE.get(self.id)
        if r is None:
            r = _INVERSE[self.id] = self._inverse()
        return r

    def _inverse(self):
        num = p_lift({(): self.c}, self.den)
        if len(self.num) == 1 and () in self.num:
            c = self.num[()]
            den = ()
        else:
            key, flip = p_key(self.num)
            some = next(iter(self.num))
            c = self.num[some] // dict(key)[some]
            split = factors(key)
            if split is None:
                den = ((key, 1),)
            else:
                sign, parts = split
                den = dict(_multiplicities(key, parts))
                # content of a primitive key is one
                c *= sign
                den = tuple(sorted(den.items()))
        if c < 0:
            c = -c
            num = p_neg(num)
        return Sym.make(num, c, den, None)

    def __truediv__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = Sym.lift(o)
        return NotImplemented if o is None else o.__truediv__(self)

    def __neg__(self):
        return _ZERO - self

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __pow__(self, k):
        if not isinstance(k, int) or k < 0:
            raise Unsupported('power')
        r = Sym.lift(1)
        for _ in range(k):
            r = r * self
        return r

    # comparisons
    def _cmp(self, o, want):
        if o is self:
            return 0 in want
        o = self.__sub__(o)
        if o is NotImplemented:
            return o
        return CTX.decide_number(o, want)

    def __lt__(self, o):
        return self._cmp(o, NEGATIVE)

    def __le__(self, o):
        return self._cmp(o, NOT_POSITIVE)

    def __gt__(self, o):
        return self._cmp(o, POSITIVE)

    def __ge__(self, o):
        return self._cmp(o, NOT_NEGATIVE)

    def __eq__(self, o):
        return self._cmp(o, ZERO)

    def __ne__(self, o):
        return self._cmp(o, NOT_ZERO)

    def __bool__(self):
        return CTX.decide_number(self, NOT_ZERO)

    def __hash__(self):
        # value-based: equal exactly for equal numbers of this path
        cs = CTX.hashed
        for i, o in enumerate(cs):
            if self == o:
                return 1000003 * (i + 1)
        cs.append(self)
        return 1000003 * len(cs)

    def value(self):
        """Value at the witness of the current path"""
        v = evaluate(self.num.items(), CTX.witness) / self.c
        for f, e in self.den:
            v /= evaluate(f, CTX.witness) ** e
        return v

    def __repr__(self):
        if CTX is None:
            return '<symbolic>'
        return f'<{self.value()}>'

    __str__ = __repr__

    def _no(self, *_):
        raise Unsupported('operation on a symbolic number')

    __int__ = __float__ = __index__ = __floor__ = __ceil__ = __round__ = _no
    __floordiv__ = __mod__ = __divmod__ = __trunc__ = __rmod__ = _no
    __rfloordiv__ = __rpow__ = _no
    numerator = property(_no)
    denominator = property(_no)


_INTERN = {}
_LIFTED = {}
_ADD = {}
_SUB = {}
_MUL = {}
_INVERSE = {}
_ZERO = Sym.lift(0)
CTX = None


class Concrete:
    """Same interface with plain numbers: replays a witness on real code"""

    symbolic = False

    def __init__(self, witness):
        self.witness = witness
        self.n = 0

    def real(self):
        i = self.n
        self.n += 1
        v = self.witness.get(i, Q(0))
        return v.numerator if v.denominator == 1 else v

    @staticmethod
    def lift(v):
        return v

    def flag(self):
        return self.real() > 0

    def assume(self, truth):
        if not truth:
            raise Skip


class Run:
    """One path"""

    symbolic = True

    def __init__(self, witness):
        self.witness = witness
        self.n = 0
        self.table = {}
        self.trail = []
        self.hashed = []
        self.actual = {}

    def real(self):
        i = self.n
        self.n += 1
        v = self.witness.get(i, Q(DEFAULTS[i % len(DEFAULTS)]))
        self.witness[i] = v
        return Sym.of({(i,): 1}, 1, ())

    @staticmethod
    def lift(v):
        return Sym.lift(v)

    def flag(self):
        """An arbitrary boolean"""
        return self.real() > 0

    def assume(self, truth):
        if not truth:
            raise Skip

    def decide_number(self, s, want):
        key = s.key
        if key is None:
            if not s.num:
                key = s.key = ()
                s.flip = False
            elif len(s.num) == 1 and () in s.num:
                key = s.key = (s.num[()],)
                s.flip = s.num[()] < 0
            else:
                key, flip = p_key(s.num)
                s.key = key
                s.flip = flip
                s.split = factors(key)
        if len(key) < 2:
            if not key:
                return 0 in want
            if not isinstance(key[0], tuple):
                if want in ZERO_TESTS:
                    return 0 not in want
                return self._flipped(s, want, s.flip)
        zero_only = want in ZERO_TESTS
        if not zero_only:
            flip = s.flip
            for f, e in s.den:
                if e % 2 and not self._decide(f, POSITIVE):
                    flip = not flip
            if flip:
                want = NEGATED[want]
        if s.split is None or key in self.table:
            return self._decide(key, want)
        # sign of a product: signs of its irreducible factors
        sign, parts = s.split
        for f, odd in parts:
            if self._decide(f, ZERO):
                return 0 in want
            if odd and not zero_only and not self._decide(f, POSITIVE):
                sign = -sign
        if zero_only:
            return 0 not in want
        return sign in want

    def _flipped(self, s, want, flip):
        """Comparison of constant / den with zero"""
        for f, e in s.den:
            if e % 2 and not self._decide(f, POSITIVE):
                flip = not flip
        return (-1 if flip else 1) in want

    def _actual(self, key):
        r = self.actual.get(key)
        if r is None:
            v = evaluate(key, self.witness)
            r = self.actual[key] = (v > 0) - (v < 0)
        return r

    def _decide(self, key, want):
        allowed = self.table.get(key, ALL)
        yes = allowed & want
        if not yes:
            return False
        if yes == allowed:
            return True
        actual = self._actual(key)
        chosen = yes if actual in want else allowed - yes
        if actual not in allowed:
            raise AssertionError('witness does not satisfy the path')
        self.table[key] = chosen
        self.trail.append((key, allowed, chosen))
        return chosen is yes


NEGATED = {
    frozenset(x): frozenset(-y for y in x)
    for x in ((-1,), (0,), (1,), (-1, 0), (0, 1), (-1, 1))
}
ZERO = frozenset((0,))
POSITIVE = frozenset((1,))
NEGATIVE = frozenset((-1,))
NOT_POSITIVE = frozenset((-1, 0))
NOT_NEGATIVE = frozenset((0, 1))
NOT_ZERO = frozenset((-1, 1))
ZERO_TESTS = frozenset((ZERO, NOT_ZERO))
_FACTORS = {}
_RINGS = {}


def factors(key):
    """None if irreducible, else (sign, [(factor key, odd multiplicity)])

    The factorization is checked by multiplication.
    """
    try:
        return _FACTORS[key]
    except KeyError:
        pass
    res = None
    if len(key) > 1 or len(key[0][0]) > 1:
        if max(len(m) for m, _ in key) > 1:
            res = _factor(key)
    _FACTORS[key] = res
    return res


def _cancel(num, den):
    res = []
    for f, e in den:
        fd = dict(f)
        while e:
            q = p_divide(num, fd)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            res.append((f, e))
    return num, tuple(res)


_MULT = {}


def _multiplicities(key, parts):
    if key not in _MULT:
        res = []
        rest = dict(key)
        for f, _ in parts:
            fd = dict(f)
            e = 0
            while True:
                q = p_divide(rest, fd)
                if q is None:
                    break
                rest = q
                e += 1
            res.append((f, e))
        assert len(rest) == 1 and abs(rest.get((), 0)) == 1, rest
        _MULT[key] = res
    return _MULT[key]


def _factor(key):
    from sympy import ZZ, ring

    used = sorted({i for m, _ in key for i in m})
    n = len(used)
    if n not in _RINGS:
        _RINGS[n] = ring([f'x{i}' for i in range(n)], ZZ)[0]
    pos = {v: i for i, v in enumerate(used)}
    d = {}
    for m, c in key:
        e = [0] * n
        for i in m:
            e[pos[i]] += 1
        d[tuple(e)] = c
    const, parts = _RINGS[n].from_dict(d).factor_list()
    if len(parts) == 1 and parts[0][1] == 1 and abs(const) == 1:
        return None
    sign = 1 if const > 0 else -1
    res = []
    product = {(): int(const)}
    for f, mult in parts:
        q = {}
        for e, c in f.to_dict().items():
            m = tuple(v for i, v in enumerate(used) for _ in range(e[i]))
            q[m] = int(c)
        for _ in range(mult):
            product = p_mul(product, q)
        k, flip = p_key(q)
        if flip and mult % 2:
            sign = -sign
        res.append((k, mult % 2 == 1))
    if product != dict(key):
        return None
    res.sort(key=lambda x: (max(len(m) for m, _ in x[0]), len(x[0]), x[0]))
    return sign, res


DEFAULTS = [Q(x, 7) for x in (3, 29, -17, 5, 41, -11, 23, 2, -37, 13, 31, -5)]


# ------------------------------------------------------------------ solver
class Solver:
    def __init__(self, timeout_ms=4000):
        self.timeout_ms = timeout_ms
        self.seconds = 0.0
        self.queries = 0
        self.vars = {}
        self.cache = {}
        self.by = {}
        self.atoms = {}

    def var(self, i):
        v = self.vars.get(i)
        if v is None:
            v = self.vars[i] = z3.Real(f'v{i}')
        return v

    def expr(self, key):
        e = self.cache.get(key)
        if e is None:
            terms = []
            for m, c in key:
                t = z3.IntVal(c) if not m else None
                if m:
                    fs = [self.var(i) for i in m]
                    if c != 1:
                        fs.insert(0, z3.RealVal(c))
                    t = fs[0]
                    for f in fs[1:]:
                        t = t * f
                terms.append(t)
            e = terms[0]
            for t in terms[1:]:
                e = e + t
            self.cache[key] = e
        return e

    def constraint(self, key, allowed):
        k = (key, allowed)
        r = self.atoms.get(k)
        if r is None:
            r = self.atoms[k] = self._constraint(key, allowed)
        return r

    def _constraint(self, key, allowed):
        e = self.expr(key)
        n = len(allowed)
        if n == 1:
            (s,) = allowed
            return e == 0 if s == 0 else (e > 0 if s > 0 else e < 0)
        if n == 2:
            if 0 not in allowed:
                return e != 0
            return e >= 0 if 1 in allowed else e <= 0
        return z3.BoolVal(n == 3)

    def _check(self, cs, kind, timeout):
        t = time.time()
        s = (
            z3.Solver() if kind == 'z3-default'
            else z3.SolverFor('QF_NRA') if kind == 'z3-nra'
            else z3.Tactic(kind).solver()
        )
        s.set('timeout', int(timeout))
        ref = s.ctx.ref()
        for c in cs:
            z3.Z3_solver_assert(ref, s.solver, c.ast)
        r = s.check()
        self.seconds += time.time() - t
        self.queries += 1
        return r, s

    def alternatives(self, trail, bound, deadline):
        """Yields (index, verdict, witness) for every untaken branch"""
        merged = {}
        inc = None
        ref = None
        for i, (key, allowed, chosen) in enumerate(trail):
            if i >= bound:
                if time.time() > deadline:
                    yield i, 'timeout', None
                    return
                other = allowed - chosen
                linear = is_linear(key) and merged is not None
                if other == ZERO and no_rational_root(key):
                    self._count('no rational root')
                    yield i, 'unsat', None
                elif inc is not False and linear:
                    if inc is None:
                        inc = z3.Solver()
                        inc.set('timeout', int(self.timeout_ms))
                        ref = inc.ctx.ref()
                        for k, a in merged.items():
                            z3.Z3_solver_assert(
                                ref, inc.solver, self.constraint(k, a).ast
                            )
                    yield (i, *self._incremental(inc, ref, merged, key, other))
                else:
                    inc = False
                    cs = dict(merged)
                    cs[key] = other
                    yield (i, *self.solve(list(cs.items())))
            merged[key] = chosen
            if not is_linear(key):
                inc = False
            elif inc:
                z3.Z3_solver_assert(
                    ref, inc.solver, self.constraint(key, chosen).ast
                )

    def _incremental(self, inc, ref, merged, key, other):
        t = time.time()
        inc.push()
        z3.Z3_solver_assert(ref, inc.solver, self.constraint(key, other).ast)
        r = inc.check()
        res = None
        if r == z3.unsat:
            self._count('z3-linear unsat')
            res = 'unsat', None
        elif r == z3.sat:
            cs = dict(merged)
            cs[key] = other
            m = inc.model()
            w = {}
            for i in {i for k in cs for mon, _ in k for i in mon}:
                v = m.eval(self.var(i), model_completion=True)
                w[i] = Q(v.numerator_as_long(), v.denominator_as_long())
            if holds(cs.items(), w):
                self._count('z3-linear model')
                res = 'sat', w
        inc.pop()
        self.seconds += time.time() - t
        return res or ('unknown', None)

    def solve(self, constraints):
        """('sat', witness) | ('unsat', None) | ('unknown', None)"""
        for k, a in constraints:
            if a == ZERO and no_rational_root(k):
                self._count('no rational root')
                return 'unsat', None
        cs = [self.constraint(k, a) for k, a in constraints]
        n = len(cs)
        linear = all(len(m) <= 1 for k, _ in constraints for m, _ in k)
        kinds = ['z3-default'] if linear else ['z3-nra', 'z3-default']
        for kind in kinds:
            r, s = self._check(cs, kind, self.timeout_ms)
            if r == z3.unsat:
                self._count(kind + ' unsat')
                return 'unsat', None
            if r == z3.sat:
                w = self._rational(s.model(), cs, constraints, n)
                if w is not None:
                    self._count(kind + ' model')
                    return 'sat', w
        if no_rational_solution(constraints):
            self._count('no rational root')
            return 'unsat', None
        return 'unknown', None

    def _rational(self, model, cs, constraints, n):
        used = sorted({i for k, _ in constraints for m, _ in k for i in m})
        w = {}
        bad = []
        for i in used:
            v = model.eval(self.var(i), model_completion=True)
            if z3.is_rational_value(v):
                w[i] = Q(v.numerator_as_long(), v.denominator_as_long())
            else:
                bad.append((i, v))
        if not bad:
            return w if holds(constraints, w) else None
        # algebraic witness: fix coordinates one by one at rationals nearby
        extra = []
        order = [i for i, _ in bad]
        for i, v in bad:
            if not z3.is_algebraic_value(v):
                return None
        r = self._on_conic(constraints, w, dict(bad))
        if r is not None:
            return r
        for i in order:
            ok = False
            r, s = self._check(cs + extra, 'z3-nra', self.timeout_ms)
            if r != z3.sat:
                return None
            v = s.model().eval(self.var(i), model_completion=True)
            if z3.is_rational_value(v):
                cands = [Q(v.numerator_as_long(), v.denominator_as_long())]
            else:
                a = v.approx(12)
                x = Q(a.numerator_as_long(), a.denominator_as_long())
                cands = [x.limit_denominator(d) for d in (1, 3, 10, 1000)]
                cands += [x]
            for x in cands:
                c = self.var(i) == z3.RealVal(f'{x.numerator}/{x.denominator}')
                r, s2 = self._check(cs + extra + [c], 'z3-nra', 1500)
                if r == z3.sat:
                    extra.append(c)
                    ok = True
                    break
            if not ok:
                return None
        r, s = self._check(cs + extra, 'z3-nra', self.timeout_ms)
        if r != z3.sat:
            return None
        m = s.model()
        w = {}
        for i in used:
            v = m.eval(self.var(i), model_completion=True)
            if not z3.is_rational_value(v):
                return None
            w[i] = Q(v.numerator_as_long(), v.denominator_as_long())
        return w if holds(constraints, w) else None

    @staticmethod
    def _on_conic(constraints, fixed, bad):
        """Rational point near an algebraic one on a conic

        Secants through a small rational point of the conic meet it in
        another rational point.
        """
        equalities = [
            k for k, a in constraints
            if a == ZERO and any(x in m for m, _ in k for x in bad)
        ]
        if len(equalities) != 1:
            return None
        pair = {x for m, _ in equalities[0] for x in m}
        if len(pair) > 2:
            pair = set(bad)
        if len(pair) != 2 or not set(bad) <= pair:
            return None
        i, j = sorted(pair)
        co = {}
        for m, c in equalities[0]:
            t = Q(c)
            e = [0, 0]
            for x in m:
                if x == i:
                    e[0] += 1
                elif x == j:
                    e[1] += 1
                else:
                    t *= fixed[x]
            if sum(e) > 2:
                return None
            co[tuple(e)] = co.get(tuple(e), 0) + t
        cs = [co.get(e, 0) for e in (
            (2, 0), (1, 1), (0, 2), (1, 0), (0, 1), (0, 0)
        )]
        a, b, c, d, e, f = cs

        def approx(x):
            if x not in bad:
                return fixed[x]
            y = bad[x].approx(30)
            return Q(y.numerator_as_long(), y.denominator_as_long())

        x1, y1 = approx(i), approx(j)
        found = 0
        for x0, y0 in _GRID:
            if a * x0 * x0 + b * x0 * y0 + c * y0 * y0 + d * x0 + e * y0 + f:
                continue
            found += 1
            if found > 4:
                break
            if x1 == x0:
                continue
            for limit in (1, 4, 50, 10**4, 10**9):
                k = ((y1 - y0) / (x1 - x0)).limit_denominator(limit)
                # (x0 + t, y0 + k t)
                den = a + b * k + c * k * k
                if den == 0:
                    continue
                t = -(
                    2 * a * x0 + b * (y0 + k * x0) + 2 * c * k * y0 + d
                    + e * k
                ) / den
                w = dict(fixed)
                w[i] = x0 + t
                w[j] = y0 + k * t
                if holds(constraints, w):
                    return w
        return None

    def _count(self, kind):
        self.by[kind] = self.by.get(kind, 0) + 1

_GRID = sorted(
    ((Q(x), Q(y)) for x in range(-10, 11) for y in range(-10, 11)),
    key=lambda p: (abs(p[0]) + abs(p[1]), p),
)


def is_linear(key):
    r = _LINEAR.get(key)
    if r is None:
        r = _LINEAR[key] = all(len(m) < 2 for m, _ in key)
    return r


_LINEAR = {}


def no_rational_root(key):
    """Inputs are rational: univariate irreducible of degree > 1"""
    r = _ROOTLESS.get(key)
    if r is None:
        used = {i for m, _ in key for i in m}
        r = _ROOTLESS[key] = (
            len(used) == 1
            and max(len(m) for m, _ in key) > 1
            and factors(key) is None
        )
    return r


_ROOTLESS = {}


def no_rational_solution(constraints):
    """Linear equalities leave an equality without rational roots"""
    equalities = [dict(k) for k, a in constraints if a == ZERO]
    for _ in range(len(equalities)):
        for p in equalities:
            if p and all(len(m) < 2 for m in p) and any(p):
                break
        else:
            return False
        x = next(m for m in p if m)[0]
        # x = -rest / c
        c = p[(x,)]
        value = {m: Q(-v) / c for m, v in p.items() if m != (x,)}
        rest = []
        for q in equalities:
            if q is p:
                continue
            r = {}
            for m, v in q.items():
                t = {tuple(i for i in m if i != x): Q(v)}
                for _ in range(m.count(x)):
                    t = p_mul(t, value)
                r = p_add(r, t)
            if r:
                key, _ = p_key(r)
                if len(key) == 1 and key[0][0] == ():
                    return True
                if no_rational_root(key):
                    return True
                rest.append(dict(key))
        equalities = rest
    return False


def evaluate(key, w):
    t = Q(0)
    for m, c in key:
        v = Q(c)
        for i in m:
            v *= w[i]
        t += v
    return t


def holds(constraints, w):
    for key, allowed in constraints:
        t = evaluate(key, w)
        if ((t > 0) - (t < 0)) not in allowed:
            return False
    return True


# -------------------------------------------------------------- exploration
STATS = ('paths', 'skipped', 'obligations', 'discharged', 'replayed')


def explore_items(body, items, solver, soft_s, hard_s):
    """Explore work items depth first

    ``body(ctx)`` returns None when the postcondition holds and a text
    otherwise; it raises :class:`Skip` (through ``ctx.assume``) when the
    precondition is false.  Each path end and each excluded alternative is one
    obligation.  Returns (stats, unknowns, failures, leftover items).
    """
    global CTX
    stats = dict.fromkeys(STATS, 0)
    unknown = []
    failures = []
    work = list(items)
    t0 = time.time()
    while work:
        spent = time.time() - t0
        if spent > soft_s and stats['paths']:
            break
        witness, bound = work.pop()
        run = Run(dict(witness))
        CTX = run
        outcome = None
        skipped = False
        try:
            outcome = limited(PATH_CPU_S, body, run)
        except Skip:
            skipped = True
        except Unsupported as e:
            outcome = ('unsupported', str(e))
        except TimeUp:
            outcome = ('unsupported', 'time limit of a symbolic path')
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            outcome = ('crash', describe(e))
        finally:
            CTX = None
        stats['paths'] += 1
        if skipped:
            stats['skipped'] += 1
        else:
            stats['obligations'] += 1
            if outcome is None:
                stats['discharged'] += 1
            elif outcome[0] == 'unsupported':
                unknown.append(f'unsupported: {outcome[1]}')
            # the same input on plain numbers must agree
            again = concrete(body, run.witness)
            stats['replayed'] += 1
            if again is not None:
                if not isinstance(again, Raised) or again.library:
                    kind = getattr(again, 'kind', None)
                    failures.append((
                        ''.join(again), dict(run.witness), kind,
                        getattr(again, 'input', None),
                    ))
                    return stats, unknown, failures, work
                unknown.append(f'checker: {again.text}')
            elif outcome is not None and outcome[0] != 'unsupported':
                unknown.append(f'not reproduced: {outcome}'[:300])
        for i, verdict, w in solver.alternatives(run.trail, bound, t0 + hard_s):
            if verdict == 'sat':
                full = dict(run.witness)
                full.update(w)
                work.append((full, i + 1))
                continue
            stats['obligations'] += 1
            if verdict == 'unsat':
                stats['discharged'] += 1
            elif verdict == 'timeout':
                unknown.append('time limit of a path')
            else:
                unknown.append('solver: unknown')
    return stats, unknown, failures, work


def describe(e):
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    where = f'{tb[-1].filename}:{tb[-1].lineno}' if tb else ''
    return f'{type(e).__name__}: {e} at {where}'[:300]


class TimeUp(BaseException):
    """CPU time of one execution is over"""


PATH_CPU_S = 20


def limited(seconds, f, *args):
    def alarm(*_):
        raise TimeUp

    old = signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        return f(*args)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def concrete(body, witness):
    """Outcome of the contract on plain rational numbers"""
    try:
        return limited(PATH_CPU_S, body, Concrete(witness))
    except (Skip, Unsupported):
        return None
    except TimeUp:
        return f'still running after {PATH_CPU_S} s of CPU time'
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa: BLE001
        return Raised(e)


class Refuted(str):
    """A violation together with an input on which the library fails"""

    def __new__(cls, text, input_):
        self = super().__new__(cls, text)
        self.input = input_
        return self


class Raised(str):
    """An exception that left the contract on plain numbers"""

    def __new__(cls, e):
        import traceback

        from . import bounded

        self = super().__new__(cls, f'raised {describe(e)}')
        self.library = bounded.in_library(e.__traceback__)
        self.kind = type(e).__name__
        self.text = ''.join(traceback.format_exception(e))[-3000:]
        return self


class Result:
    pass


def explore(body, budget_s=60.0, timeout_ms=4000):
    """Single-process exploration (for development)"""
    solver = Solver(timeout_ms)
    t0 = time.time()
    stats, unknown, failures, left = explore_items(
        body, [({}, 0)], solver, budget_s, budget_s * 2
    )
    res = Result()
    res.__dict__.update(stats)
    res.undischarged = unknown + [f'{len(left)} left'] * bool(left)
    res.failures = failures
    res.complete = not res.undischarged and not failures
    res.solver_s = solver.seconds
    res.backends = dict(solver.by)
    res.wall_s = time.time() - t0
    return res


# ---------------------------------------------------------- library patching
class symbolic_numbers:
    """Let library constructors keep symbolic numbers as they are

    Rebinds every module-level name in rene._exact that refers to
    rithm's Fraction to a constructor that is the identity on Sym.
    """

    def __enter__(self):
        import sys

        from rithm.fraction import Fraction

        def make(*args):
            if CTX is not None and len(args) == 1:
                r = Sym.lift(args[0])
                if r is not None:
                    return r
            return Fraction(*args)

        make.vf_number = True
        self.saved = []
        for name, mod in list(sys.modules.items()):
            if name == 'rene' or name.startswith('rene.'):
                for k, v in list(vars(mod).items()):
                    if v is Fraction:
                        self.saved.append((mod, k, v))
                        setattr(mod, k, make)
        return self

    def __exit__(self, *exc):
        for mod, k, v in self.saved:
            setattr(mod, k, v)
