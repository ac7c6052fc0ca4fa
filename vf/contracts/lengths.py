"""Sequences of any length.

Vertices, segments, holes and polygons are opaque sequences whose length is an
unknown integer; indices are linear integer terms over it.  The real functions
run on them: every question they ask (``len``, an index, whether two slices
are equal) is answered by z3, and where both answers are possible both are
followed.  ``len``, ``range``, ``min``, ``tuple``, ``hash`` and ``frozenset``
are given by their meaning.

Nothing here raises an alarm by itself: a case in which the postcondition
cannot be shown is looked for with real geometries of the sizes of z3's model,
and without a failing one the contract counts as not discharged.
"""

import builtins
import collections.abc
import contextlib
import itertools
import operator
import sys

import z3

from .. import bridge
from ..engine import Refuted, Skip, Unsupported
from .common import Contract, exhaustive


class World:
    def __init__(self, choices):
        self.choices = choices
        self.solver = z3.Solver()
        self.solver.set('timeout', 5000)
        self.names = itertools.count()
        self.facts = []
        self.points = []

    def fresh(self, name):
        return z3.Int(f'{name}{next(self.names)}')

    def assume(self, e):
        self.solver.add(e)
        if self.solver.check() == z3.unsat:
            raise Skip

    def possible(self, e):
        r = self.solver.check(e)
        if r == z3.unknown:
            raise Unsupported('z3 gives up on an index')
        return r == z3.sat

    def proved(self, e):
        return not self.possible(z3.Not(e))

    def decide(self, e):
        if z3.is_true(z3.simplify(e)):
            return True
        yes, no = self.possible(e), self.possible(z3.Not(e))
        if not yes and not no:
            raise Skip
        if yes and no:
            truth = self.choices.flag()
            self.solver.add(e if truth else z3.Not(e))
            return truth
        return yes

    def value(self, e):
        if self.solver.check() != z3.sat:
            raise Unsupported('no model')
        return self.solver.model().eval(e, model_completion=True).as_long()


def term(v):
    if isinstance(v, N):
        return v.e
    if type(v) is int:
        return z3.IntVal(v)
    return None


class Unknown(Unsupported, TypeError):
    """Not a number known to the interpreter (who asks for a hint only)"""


class N:
    """An unknown integer"""

    __hash__ = None

    def __init__(self, world, e):
        self.w, self.e = world, e

    def _do(op, swap=False):  # noqa: N805
        def f(self, other):
            o = term(other)
            if o is None:
                return NotImplemented
            return N(self.w, op(o, self.e) if swap else op(self.e, o))

        return f

    __add__, __radd__ = _do(operator.add), _do(operator.add, True)
    __sub__, __rsub__ = _do(operator.sub), _do(operator.sub, True)

    def _ask(op):  # noqa: N805
        def f(self, other):
            o = term(other)
            if o is None:
                return NotImplemented
            return self.w.decide(op(self.e, o))

        return f

    __lt__, __le__ = _ask(operator.lt), _ask(operator.le)
    __gt__, __ge__ = _ask(operator.gt), _ask(operator.ge)
    __eq__, __ne__ = _ask(operator.eq), _ask(operator.ne)

    def __neg__(self):
        return N(self.w, -self.e)

    def __bool__(self):
        return self.w.decide(self.e != 0)

    def __mod__(self, other):
        o = term(other)
        if o is None:
            return NotImplemented
        w = self.w
        if not w.proved(o > 0):
            raise Unsupported('remainder of a division')
        for k in (0, 1, -1):
            if w.decide(z3.And(self.e >= k * o, self.e < (k + 1) * o)):
                return N(w, self.e - k * o)
        raise Unsupported('remainder of a division')

    def __format__(self, spec):
        return '<length>'

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unknown('an unknown number is needed')


class Ring:
    """``length`` different values in a cycle, given from ``start`` on"""

    def __init__(self, length, start=0, direction=1):
        self.n, self.start, self.d = length, start, direction

    def at(self, t):
        return self.start + self.d * t


class E:
    """An element: the one at a place of the cycle"""

    __hash__ = None

    def __init__(self, seq, t):
        self.w, self.key, self.at = seq.w, seq.key, seq.ring.at(t)
        self.n, self.index = seq.ring.n, t

    def is_at(self, place):
        return self.w.proved(z3.Or(*(
            self.at - place == q * self.n for q in range(-3, 4)
        )))

    def __eq__(self, other):
        if type(other) is not E or other.key != self.key:
            raise Unsupported('comparison of elements')
        return self.w.decide(z3.Or(*(
            self.at - other.at == q * self.n for q in range(-3, 4)
        )))

    def __bool__(self):
        raise Unsupported('truth of an element')


class Block:
    """All the elements of a sequence in a row"""

    __hash__ = None

    def __init__(self, seq):
        self.seq = seq

    def _no(self, *_):
        raise Unsupported('use of an element of a sequence of any length')

    __eq__ = __ne__ = __bool__ = __getattr__ = _no


class Seq:
    """Elements ``first``, ``first + step``, ... of a ring"""

    __hash__ = None

    def __init__(self, world, key, ring, first=None, count=None, step=1,
                 how='given'):
        self.w, self.key, self.ring = world, key, ring
        self.first = z3.IntVal(0) if first is None else first
        self.count = ring.n if count is None else count
        self.step, self.how = step, how

    def copy(self, how):
        return Seq(self.w, self.key, self.ring, self.first, self.count,
                   self.step, how)

    def place(self, t):
        return self.first + self.step * t

    def element(self, t):
        return E(self, self.place(t))

    def __len__(self):
        return N(self.w, self.count)

    def __getitem__(self, item):
        w = self.w
        if type(item) is slice:
            step = 1 if item.step is None else item.step
            if type(step) is N:
                step = step.__index__()
            if step not in (1, -1):
                raise Unsupported('step of a slice')
            c = self.count

            def bound(v, default, low, high):
                if v is None:
                    return default
                v = term(v)
                if v is None:
                    raise Unsupported('bound of a slice')
                if w.decide(v < 0):
                    v = v + c
                if w.decide(v < low):
                    return z3.IntVal(low)
                return high if w.decide(v > high) else v

            if step == 1:
                a = bound(item.start, z3.IntVal(0), 0, c)
                b = bound(item.stop, c, 0, c)
            else:
                a = bound(item.start, c - 1, -1, c - 1)
                b = bound(item.stop, z3.IntVal(-1), -1, c - 1)
            count = z3.simplify(step * (b - a))
            if not w.decide(count > 0):
                count = z3.IntVal(0)
            return Seq(w, self.key, self.ring,
                       z3.simplify(self.place(a)), count, self.step * step,
                       'slice')
        t = term(item)
        if t is None:
            raise TypeError('indices must be integers or slices')
        if w.decide(t < 0):
            t = t + self.count
        if not w.decide(z3.And(t >= 0, t < self.count)):
            raise IndexError('index out of range')
        return self.element(t)

    def index(self, value, start=0, stop=None, /):
        w = self.w
        if stop is not None or type(start) is not int or start:
            raise Unsupported('index from a place')
        if type(value) is not E:
            raise Unsupported('index of a value')
        if value.key == self.key:
            k = w.fresh('k')
            w.assume(z3.And(
                k >= 0, k < self.count,
                z3.Or(*(
                    self.ring.at(self.place(k)) - value.at == q * value.n
                    for q in range(-3, 4)
                )),
            ))
            return N(w, k)
        if self.key != 'right' or self.how == 'slice':
            raise Unsupported('index of a value')
        p = position(value.at)
        w.points.append(value.at)
        if w.decide(p < 0):
            raise ValueError('not in sequence')
        return N(w, p)

    def __iter__(self):
        if self.w.decide(self.count > 0):
            yield Block(self)

    def __eq__(self, other):
        if isinstance(other, Seq) and {self.key, other.key} == {
            'left', 'right'
        }:
            a, b = self, other
            if a.key == 'right':
                a, b = b, a
            return matching(a, b)
        raise Unsupported('comparison of sequences')

    def __ne__(self, other):
        return not self == other

    def _no(self, *_):
        raise Unsupported('use of a sequence of any length')

    __bool__ = __contains__ = __reversed__ = count_ = _no


# position of an element of the left ring in the right one, -1 if not there
position = z3.Function('position', z3.IntSort(), z3.IntSort())


def matching(a, b):
    """Are slices of the left and the right ring equal?"""
    w = a.w
    if not w.decide(a.count == b.count):
        return False
    if not w.decide(a.count > 0):
        return True

    # element j of the left ring stands at t with place(t) = j
    def other(j):
        return b.place(a.step * (j - a.first))

    def inside(j):
        t = a.step * (j - a.first)
        return z3.And(t >= 0, t < a.count)

    if w.choices.flag():
        w.facts.append((inside, other))
        instantiate(w, w.points)
        return True
    j = w.fresh('j')
    w.solver.add(inside(j), position(j) != other(j))
    w.points.append(j)
    instantiate(w, [j])
    if not w.possible(z3.BoolVal(True)):
        raise Skip
    return False


def instantiate(w, points):
    for j in points:
        for inside, other in w.facts:
            w.solver.add(z3.Implies(inside(j), position(j) == other(j)))


# -------------------------------------------------------- meaning of builtins
class Range:
    __hash__ = None

    def __init__(self, w, low, high):
        self.w, self.low, self.high = w, low, high

    def __iter__(self):
        return Loop(self)

    def item(self, g):
        return N(self.w, g)


class Loop:
    """One item that stands for all of them"""

    def __init__(self, rng):
        self.rng = rng
        self.state = 0

    def __iter__(self):
        return self

    def __next__(self):
        r = self.rng
        w = r.w
        if self.state == 0:
            frame = sys._getframe(1)
            if frame.f_globals.get('__name__') != __name__:
                _only_maps(frame)
            self.state = 2
            if w.decide(r.low < r.high):
                self.state = 1
                g = w.fresh('g')
                w.solver.add(g >= r.low, g < r.high)
                w.generic = (g, r.low, r.high)
                return r.item(g)
        if self.state == 1:
            w.generic = None
            self.state = 2
        raise StopIteration


def _only_maps(frame):
    """The loop is a comprehension: nothing is carried over"""
    import ast
    import dis
    import linecache

    pos = None
    for i in dis.get_instructions(frame.f_code):
        if i.offset == frame.f_lasti:
            pos = i.positions
    lines = linecache.getlines(frame.f_code.co_filename)
    if pos is None or not lines:
        raise Unsupported('unknown loop')
    tree = ast.parse(''.join(lines))
    for node in ast.walk(tree):
        if isinstance(node, (ast.ListComp, ast.GeneratorExp)):
            (first, *others) = node.generators
            if any(
                (x.lineno, x.end_lineno, x.col_offset, x.end_col_offset)
                == tuple(pos) for x in (node, first.iter)
            ):
                if others or first.ifs:
                    break
                if any(
                    isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield,
                                   ast.Lambda))
                    for x in ast.walk(node)
                ):
                    break
                return
    raise Unsupported('loop over numbers up to an unknown one')


class Set:
    """Elements of a sequence in any order, each once"""

    def __init__(self, seq):
        self.w, self.key = seq.w, seq.key
        w = seq.w
        # nothing is left out
        if not (
            w.proved(seq.count == seq.ring.n)
            and w.proved(z3.Or(
                z3.And(seq.first == 0, seq.step == 1),
                z3.And(seq.first == seq.ring.n - 1, seq.step == -1),
            ))
        ):
            raise Unsupported('set of some elements')

    def __eq__(self, other):
        if type(other) is not Set:
            raise Unsupported('comparison of a set')
        return self.key == other.key or self.w.equal(self, other)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        raise Unsupported('hash of a set')


class Hash:
    __hash__ = None

    def __init__(self, of):
        self.of = of


def stored(v):
    """Sequence of a view"""
    for s in getattr(type(v), '__slots__', ()):
        x = getattr(v, s, None)
        if isinstance(x, Seq) and not s.startswith('__'):
            return x
    return None


def opaque(v):
    return isinstance(v, (N, E, Block, Seq, Range, Set, Hash, Part)) or (
        type(v).__module__.startswith('rene') and stored(v) is not None
    )


def _items(v):
    return [*v] if isinstance(v, (list, tuple)) else []


def meaning():
    def length(v):
        if isinstance(v, Seq) or type(v).__module__.startswith('rene'):
            return type(v).__len__(v)
        if any(map(opaque, _items(v))):
            raise Unsupported('length of a list of blocks')
        return builtins.len(v)

    def rng(*args):
        if any(isinstance(a, N) for a in args):
            low, high = (0, *args) if builtins.len(args) == 1 else args[:2]
            if builtins.len(args) > 2:
                raise Unsupported('range with a step')
            w = next(a.w for a in args if isinstance(a, N))
            return Range(w, term(low), term(high))
        return builtins.range(*args)

    def least(*args, **kwargs):
        (v, *rest) = args
        if not isinstance(v, Range):
            if isinstance(v, Seq) or opaque(v):
                raise Unsupported('least of a sequence')
            return builtins.min(*args, **kwargs)
        if rest or set(kwargs) != {'key'}:
            raise Unsupported('least number')
        w = v.w
        t = w.fresh('t')
        w.assume(z3.And(t >= v.low, t < v.high))
        x = kwargs['key'](N(w, t))
        if not isinstance(x, E):
            raise Unsupported('least of something else')
        whole = z3.And(v.low == 0, v.high == x.n)
        if not w.proved(whole):
            raise Unsupported('least of some')
        w.assume(z3.Or(*(
            x.at - w.least == q * x.n for q in builtins.range(-3, 4)
        )))
        return N(w, t)

    def fixed(v=()):
        if isinstance(v, Seq):
            return v.copy('tuple')
        return builtins.tuple(v)

    def hashed(v):
        if opaque(v):
            x = stored(v)
            return Hash(v if x is None else x)
        if isinstance(v, (list, tuple)) and any(map(opaque, v)):
            return Hash(v)
        return builtins.hash(v)

    def items(v=()):
        x = v if isinstance(v, Seq) else stored(v)
        return builtins.frozenset(v) if x is None else Set(x)

    return {
        'len': length, 'range': rng, 'min': least, 'tuple': fixed,
        'hash': hashed, 'frozenset': items,
    }


@contextlib.contextmanager
def given(cls=None, **context):
    """Builtins by their meaning, some of the context by contracts"""
    mods = [
        m for k, m in sys.modules.items()
        if k.split('.')[0] == 'rene' and m is not None
    ]
    table = meaning()
    saved = []
    for m in mods:
        for k, v in table.items():
            if k not in m.__dict__:
                saved.append((m, k))
                setattr(m, k, v)
    views = [
        v for m in mods for v in m.__dict__.values()
        if isinstance(v, type) and v.__module__ == 'rene.exact'
        and issubclass(v, collections.abc.Sequence)
        and '__iter__' not in v.__dict__
        and v.__iter__ is collections.abc.Sequence.__iter__
    ]
    for v in set(views):
        # inherited: items from the first one on
        v.__iter__ = _iterate
    old = None
    if cls is not None:
        old = cls._context
        cls._context = _Context(old, context)
    try:
        yield
    finally:
        for m, k in saved:
            delattr(m, k)
        for v in set(views):
            del v.__iter__
        if cls is not None:
            cls._context = old


def _iterate(view):
    x = stored(view)
    if x is None:
        return collections.abc.Sequence.__iter__(view)
    return iter(x)


class _Context:
    def __init__(self, real, changes):
        self._real, self._changes = real, changes

    def __getattr__(self, name):
        if name in self._changes:
            return self._changes[name]
        return getattr(self._real, name)


def some_length(w, low):
    n = z3.Int('n')
    w.assume(n >= low)
    return n


def bare(cls, **slots):
    """An object with nothing but the given sequences"""
    x = object.__new__(cls)
    for k, v in slots.items():
        if '_' + k not in getattr(cls, '__slots__', ()):
            raise Unsupported('storage is not a slot of the geometry')
        setattr(x, '_' + k, v)
    return x


def confirmed(text, search, *args):
    """The text with a real input on which the library fails"""
    found = search(*args)
    if found is None:
        raise Unsupported(f'{text}, but no failing input'[:200])
    bad, input_ = found
    return Refuted(f'{bad} ({text})', input_)


def cases(body, search):
    """All cases; what the contract does not cover is tried out"""
    run = exhaustive(body)

    def tried(c):
        try:
            return run(c)
        except (Unsupported, IndexError, ValueError) as e:
            if isinstance(e, Unsupported) and 'no failing' in str(e):
                raise
            found = search(7)
            if found is None:
                raise Unsupported(str(e)) from e
            return Refuted(*found)

    tried.__doc__ = run.__doc__
    return tried


# ------------------------------------------------------------------ contours
def convex(n):
    """Vertices of a convex polygon"""
    return tuple((i, i * i) for i in range(n))


def _variants(n):
    vs = convex(n)
    for k in range(n):
        for rev in (False, True):
            w = vs[k:] + vs[:k]
            yield w[::-1] if rev else w


def _sizes(n):
    return [m for m in (3, 4, 5, n) if 3 <= m <= 60]


def bad_equality(n):
    from rene.exact import Contour, Point

    def ring(vs):
        return Contour([Point(*v) for v in vs])

    for m in _sizes(n):
        x = ring(convex(m))
        for v in _variants(m):
            y = ring(v)
            if x != y or y != x:
                return 'equal contours differ', repr((x, y))
            for i in range(1, m):
                u = list(v)
                u[i], u[i - 1] = u[i - 1], u[i]
                if m > 3 and (x == ring(u) or ring(u) == x):
                    return 'different contours are equal', repr((x, ring(u)))
                u = list(v)
                u[i] = (-1, i)
                if x == ring(u) or ring(u) == x:
                    return 'different contours are equal', repr((x, ring(u)))
        for k in range(m):
            longer = list(x.vertices)
            longer.insert(k, Point(-1, -1))
            y = Contour(longer)
            if x == y or y == x:
                return 'different contours are equal', repr((x, y))
    return None


def contour_equality(c):
    """two contours of any number of different vertices are equal exactly if
    the vertices follow each other in a cycle, in either direction"""
    from rene.exact import Contour

    w = World(c)
    n = some_length(w, 3)
    m = z3.Int('m')
    w.assume(m >= 3)
    left = Seq(w, 'left', Ring(n))
    right = Seq(w, 'right', Ring(m))
    zero = z3.IntVal(0)
    w.points.append(zero)
    k = position(zero)
    w.assume(z3.And(k >= -1, k < m))
    x, y = bare(Contour, vertices=left), bare(Contour, vertices=right)
    with given():
        got = Contour.__eq__(x, y)

    def follows(j, sign):
        p = k + sign * j
        return z3.If(p >= n, p - n, z3.If(p < 0, p + n, p))

    if got is True:
        ok = w.proved(z3.And(n == m, k >= 0))
        if ok:
            j = w.fresh('j')
            w.solver.add(j >= 0, j < n)
            instantiate(w, [j])
            ok = any(
                w.proved(position(j) == follows(j, s)) for s in (1, -1)
            )
        text = 'equal contours, but not in the same cycle'
    elif got is False:
        ok = w.proved(z3.Or(n != m, k < 0, z3.And(*(
            z3.Or(*(
                z3.And(p >= 0, p < n, position(p) != follows(p, s))
                for p in w.points
            ))
            for s in (1, -1)
        ))))
        text = 'contours in the same cycle, but not equal'
    else:
        raise Unsupported('neither equal nor different')
    return None if ok else confirmed(text, bad_equality, w.value(n))


def bad_hash(n):
    from rene.exact import Contour, Point

    for m in _sizes(n):
        x = Contour([Point(*v) for v in convex(m)])
        for v in _variants(m):
            y = Contour([Point(*p) for p in v])
            if hash(x) != hash(y):
                return 'equal contours with different hashes', repr((x, y))
            if y.orientation is not gen_orientation(v):
                return 'orientation of a contour', repr(y)
    return None


def gen_orientation(vs):
    from rene.enums import Orientation

    a = sum(
        p[0] * q[1] - p[1] * q[0] for p, q in zip(vs, vs[1:] + vs[:1])
    )
    return (
        Orientation.COUNTERCLOCKWISE if a > 0 else Orientation.CLOCKWISE
    )


def cycles(w, n, count, *directions):
    """A cycle and views of it from any vertex"""
    w.least = z3.Int('least')
    w.assume(z3.And(w.least >= 0, w.least < n))
    yield Ring(n)
    for i in range(count - 1):
        r = z3.Int(f'start{i}')
        w.assume(z3.And(r >= 0, r < n))
        d = directions[i] if directions else 1 if w.choices.flag() else -1
        yield Ring(n, r, d)


def orienteer(w, turn):
    """Knows the turn at the least vertex of the cycle"""
    from rene.enums import Orientation

    opposite = {
        Orientation.CLOCKWISE: Orientation.COUNTERCLOCKWISE,
        Orientation.COUNTERCLOCKWISE: Orientation.CLOCKWISE,
    }

    def orient(a, b, c, /):
        for x, y, z, back in (
            (a, b, c, False), (b, c, a, False), (c, a, b, False),
            (c, b, a, True), (b, a, c, True), (a, c, b, True),
        ):
            if (
                x.is_at(w.least - 1) and y.is_at(w.least)
                and z.is_at(w.least + 1)
            ):
                return opposite[turn] if back else turn
        raise Unsupported('turn at another vertex')

    return orient


def some_turn(c):
    from rene.enums import Orientation

    return (
        Orientation.CLOCKWISE if c.flag() else Orientation.COUNTERCLOCKWISE
    )


def canonical(w, h, n):
    """Place of the first vertex and direction of a hashed cycle"""
    if not isinstance(h, Hash):
        raise Unsupported('hash of something else')
    v = h.of
    parts = [v] if not isinstance(v, (list, tuple)) else list(v)
    at, d, total = None, None, z3.IntVal(0)
    # blocks of one element tell no direction
    blocks = []
    for p in parts:
        if isinstance(p, Block):
            p = p.seq
        if isinstance(p, E):
            blocks.append((p.at, z3.IntVal(1), 0))
        elif isinstance(p, Seq):
            if w.decide(p.count > 0):
                one = w.decide(p.count == 1)
                blocks.append((
                    p.ring.at(p.first), p.count,
                    0 if one else p.ring.d * p.step,
                ))
        else:
            raise Unsupported('hash of something else')
    if not blocks:
        raise Unsupported('hash of nothing')
    at = blocks[0][0]
    for want in (1, -1):
        total = z3.IntVal(0)
        for place, count, d in blocks:
            if d not in (0, want):
                break
            if not w.proved(z3.Or(*(
                place - (at + want * total) == q * n for q in range(-3, 4)
            ))):
                break
            total = total + count
        else:
            if w.proved(total == n):
                return at, want
    return None


def contour_hash(turn, direction):
    def body(c):
        from rene.enums import Orientation
        from rene.exact import Contour

        w = World(c)
        n = some_length(w, 3)
        got = []
        for ring in cycles(w, n, 2, direction):
            x = bare(Contour, vertices=Seq(w, 'cycle', ring))
            with given(
                Contour, orient=orienteer(w, getattr(Orientation, turn))
            ):
                got.append(canonical(w, Contour.__hash__(x), n))
        if None in got:
            return confirmed(
                'vertices are not a cycle', bad_hash, w.value(n)
            )
        (a, d), (b, e) = got
        if d == e and w.proved(z3.Or(*(
            a - b == q * n for q in range(-3, 4)
        ))):
            return None
        return confirmed('hash of the same cycle', bad_hash, w.value(n))

    body.__doc__ = (
        f'a {turn} contour of any number of vertices has the same hash when'
        f' given from another vertex on, direction {direction}'
    )
    return body


def contour_turn(c):
    """Contour.orientation with any number of vertices is the turn at the
    least vertex"""
    from rene.enums import Orientation
    from rene.exact import Contour

    w = World(c)
    n = some_length(w, 3)
    turn = some_turn(c)
    _, ring = cycles(w, n, 2)
    x = bare(Contour, vertices=Seq(w, 'cycle', ring))
    with given(Contour, orient=orienteer(w, turn)):
        got = x.orientation
    same = got is turn
    if got not in (Orientation.CLOCKWISE, Orientation.COUNTERCLOCKWISE):
        raise Unsupported('no orientation')
    if same is (ring.d == 1):
        return None
    return confirmed('orientation', bad_hash, w.value(n))


# ---------------------------------------------------------------- the others
class Part:
    """A part known by its equality only"""

    __hash__ = None

    def __init__(self, w, key):
        self.w, self.key = w, key

    def __eq__(self, other):
        if type(other) is not Part:
            raise Unsupported('comparison of a part')
        return self.key == other.key or self.w.equal(self, other)

    def __ne__(self, other):
        return not self == other


def bad_compound(*_):
    from rene.exact import Contour, Point, Segment  # noqa: F401

    def box(i, holes=()):
        o = 20 * i
        return (
            ((o, 0), (o + 9, 0), (o + 9, 9), (o, 9)),
            tuple(
                ((o + 2 * h + 1, 1), (o + 2 * h + 2, 1), (o + 2 * h + 1, 2))
                for h in holes
            ),
        )

    def seg(i):
        return ((i, 0), (i + 1, 5))

    for kind, parts in (
        ('M', [seg(i) for i in range(5)]),
        ('PS', [box(0), box(1), box(2), box(3), box(3, (0, 1)), box(0, (1,))]),
        ('P', [0, 1, 2, 3]),
    ):
        made = {}
        low = 2 if kind != 'P' else 0
        for size in range(low, 4):
            for chosen in itertools.permutations(parts, size):
                g = (
                    ('M', chosen) if kind == 'M'
                    else ('PS', chosen) if kind == 'PS'
                    else ('P', box(0, chosen))
                )
                if kind == 'PS':
                    g = ('MP', chosen)
                made[chosen] = bridge.to_rene(g)
        for a, b in itertools.product(made, repeat=2):
            want = len(a) == len(b) and set(a) == set(b)
            x, y = made[a], made[b]
            if (x == y) is not want:
                return f'equality, expected {want}', repr((x, y))
            if want and hash(x) != hash(y):
                return 'hashes of equal geometries', repr((x, y))
    b = bridge.to_rene(('P', box(0, (1,))))
    d = bridge.to_rene(('P', box(1, (1,))))
    if b == d:
        return 'polygons with different borders are equal', repr((b, d))
    return None


def compound(name, attribute):
    def body(c):
        import rene.exact

        cls = getattr(rene.exact, name)
        w = World(c)
        n, m = some_length(w, 2 if name != 'Polygon' else 0), z3.Int('m')
        w.assume(m >= 0)
        left = Seq(w, 'left', Ring(n))
        right = Seq(w, 'right', Ring(m))
        known = {}

        def equal(a, b):
            k = type(a).__name__
            if k not in known:
                known[k] = c.flag()
                if k == 'Set' and known[k]:
                    # parts of a geometry differ
                    w.assume(n == m)
            return known[k]

        w.equal = equal
        slots = [{attribute: s} for s in (left, right)]
        if name == 'Polygon':
            for s, k in zip(slots, ('left', 'right')):
                s['border'] = Part(w, k)
        x, y = (bare(cls, **s) for s in slots)
        with given():
            got = cls.__eq__(x, y)
            h = cls.__hash__(x)
        if got is True:
            ok = known.get('Set') is True and (
                name != 'Polygon' or known.get('Part') is True
            )
        elif got is False:
            ok = False in known.values() or w.proved(n != m)
        else:
            raise Unsupported('neither equal nor different')
        if not ok:
            return confirmed(f'equality is {got} with {known}', bad_compound)
        if not isinstance(h, Hash):
            raise Unsupported('hash of something else')
        parts = h.of if isinstance(h.of, tuple) else (h.of,)
        if not all(isinstance(p, (Set, Part)) for p in parts):
            return confirmed('hash of an order', bad_compound)
        return None

    body.__doc__ = (
        f'{name}: equality and hash with any number of {attribute} depend on'
        ' the parts, not on their order'
    )
    return body


def different_types(c):
    """geometries of different types and other values are never equal"""
    import rene.exact as e

    o, p, q = e.Point(0, 0), e.Point(3, 0), e.Point(0, 3)
    k = e.Contour([o, p, q])
    s = e.Segment(o, p)
    values = [
        o, s, e.Box(0, 1, 0, 1), e.Empty(), k, e.Multisegment([s, s]),
        e.Polygon(k, []),
        e.Multipolygon([e.Polygon(k, []), e.Polygon(k, [])]),
        k.vertices, k.segments, e.Multisegment([s, s]).segments,
        e.Polygon(k, []).holes,
        e.Multipolygon([e.Polygon(k, []), e.Polygon(k, [])]).polygons,
    ]

    class Other:
        def __eq__(self, other):
            return 'asked'

        __hash__ = None

    others = [None, 0, 'x', (), [], (0, 0), object()]
    for a, b in itertools.permutations(values, 2):
        if a == b or not a != b:
            return Refuted('values of different types are equal',
                           repr((a, b)))
    for a in values:
        for b in others:
            if a == b or b == a or not a != b:
                return Refuted('equal to a value of another type',
                               repr((a, b)))
        if (a == Other()) != 'asked':
            return Refuted('the other side of == is not asked', repr(a))
    return None


def boxes(c):
    """boxes are equal exactly if all sides are; equal ones have equal
    hashes; all empty geometries are equal"""
    from rene.exact import Box, Empty

    a, b = (tuple(c.real() for _ in range(4)) for _ in range(2))
    want = all(u == v for u, v in zip(a, b))
    x, y = Box(*a), Box(*b)
    if (x == y) is not want or (x != y) is want:
        return f'equality of boxes is not {want}'
    if want and hash(x) != hash(y):
        return 'equal boxes with different hashes'
    if Empty() != Empty() or hash(Empty()) != hash(Empty()):
        return 'empty geometries differ'
    return None


def p07():
    E_ = 'rene.exact.'
    res = [
        Contract('any_contours', [E_ + 'Contour.__eq__'],
                 cases(contour_equality, bad_equality), public=False),
        Contract('different_types', [E_ + 'Contour.__eq__'], different_types,
                 public=False),
        Contract('boxes', [E_ + 'Box.__eq__', E_ + 'Box.__hash__',
                           E_ + 'Empty.__eq__'], boxes),
    ]
    for turn, d in itertools.product(
        ('CLOCKWISE', 'COUNTERCLOCKWISE'), (1, -1)
    ):
        res.append(Contract(
            f'any_contour_hash_{turn.lower()}_{"same" if d > 0 else "back"}',
            [E_ + 'Contour.__hash__', 'rene._utils.to_arg_min',
             'rene._utils.to_contour_orientation'],
            cases(contour_hash(turn, d), bad_hash), public=False,
        ))
    for name, attribute in (
        ('Multisegment', 'segments'), ('Polygon', 'holes'),
        ('Multipolygon', 'polygons'),
    ):
        res.append(Contract(
            f'any_{name.lower()}',
            [f'{E_}{name}.__eq__', f'{E_}{name}.__hash__'],
            cases(compound(name, attribute), bad_compound), public=False,
        ))
    return res


# -------------------------------------------------------------- construction
class Edge:
    """A segment known by its ends only"""

    def __init__(self, start, end, /):
        if not (isinstance(start, E) and isinstance(end, E)):
            raise Unsupported('ends of a segment')
        self.start, self.end = start, end
        self.generic = getattr(start.w, 'generic', None)


def chained(w, edges, n, start, d):
    """Edges from each vertex to the next one, beginning with ``start``"""
    t = z3.IntVal(0)
    for e in edges:
        if not isinstance(e, Edge):
            raise Unsupported('another segment')
        if e.generic is None:
            k, count = t, 1
        else:
            g, low, high = e.generic
            # item g - low of these
            k, count = t + g - low, high - low
        if not (e.start.is_at(start + d * k)
                and e.end.is_at(start + d * (k + 1))):
            return False
        t = t + count
    return w.proved(t == n)


def bad_construction(n):
    from rene.exact import Contour, Multipolygon, Multisegment, Point, Polygon
    from rene.exact import Segment

    def rejected(cls, items):
        try:
            cls(items)
        except ValueError:
            return True
        return False

    for m in (0, 1, 2, 3, 4, 5, *([n] if 5 < n < 200 else [])):
        ps = [Point(*v) for v in convex(m)]
        ss = [Segment(p, Point(-1, -1)) for p in ps]
        if rejected(Contour, ps) is not (m < 3):
            return 'contour with too few vertices', repr(ps)
        if rejected(Multisegment, ss) is not (m < 2):
            return 'multisegment with too few segments', repr(ss)
        if m >= 3:
            given_ = list(ps)
            c = Contour(given_)
            given_.reverse()
            edges = [(a, b) for a, b in zip(ps, ps[1:] + ps[:1])]
            if list(c.vertices) != ps:
                return 'vertices of a contour', repr(ps)
            if [(s.start, s.end) for s in c.segments] != edges:
                return 'segments of a contour', repr(ps)
        if m >= 2:
            given_ = list(ss)
            x = Multisegment(given_)
            given_.reverse()
            if [(s.start, s.end) for s in x.segments] != [
                (s.start, s.end) for s in ss
            ]:
                return 'segments of a multisegment', repr(ss)
        rings = [
            Contour([Point(i, 0), Point(i + 1, 0), Point(i, 1)])
            for i in range(m)
        ]
        border = Contour([Point(-1, -1), Point(999, -1), Point(-1, 999)])
        given_ = list(rings)
        p = Polygon(border, given_)
        given_.reverse()
        if p.border is not border or [*p.holes] != rings:
            return 'parts of a polygon', repr(rings)
        ps = [Polygon(r, []) for r in rings]
        if rejected(Multipolygon, ps) is not (m < 2):
            return 'multipolygon with too few polygons', repr(ps)
        if m >= 2:
            given_ = list(ps)
            x = Multipolygon(given_)
            given_.reverse()
            if [*x.polygons] != ps:
                return 'polygons of a multipolygon', repr(ps)
    return None


def construction(name, attribute, least):
    def body(c):
        import rene.exact

        cls = getattr(rene.exact, name)
        w = World(c)
        n = some_length(w, 0)
        source = Seq(w, 'left', Ring(n))
        border = Part(w, 'border')
        args = (border, source) if name == 'Polygon' else (source,)
        with given(cls, segment_cls=Edge):
            try:
                x = cls(*args)
            except ValueError:
                x = None
            if x is not None:
                raw = [
                    getattr(v, s) for v in (
                        getattr(x, attribute),
                        *((x.segments,) if name == 'Contour' else ()),
                    ) for s in type(v).__slots__
                    if not s.startswith('__')
                ]
                kept = name != 'Polygon' or x.border is border
        if x is None:
            if w.proved(n < least):
                return None
            return confirmed('rejected', bad_construction, w.value(n))
        if not w.proved(n >= least):
            w.solver.add(n < least)
            return confirmed('accepted', bad_construction, w.value(n))
        v = raw[0]
        if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], Block):
            v = v[0].seq.copy('tuple')
        if not isinstance(v, Seq):
            raise Unsupported('storage')
        if v.how == 'given':
            return confirmed('not copied', bad_construction, w.value(n))
        same = w.proved(z3.And(v.count == n, v.first == 0)) and v.step == 1
        if same and name == 'Contour':
            if not isinstance(raw[1], tuple):
                raise Unsupported('storage of segments')
            same = chained(w, raw[1], n, 0, 1)
        if not (same and kept):
            return confirmed('other parts', bad_construction, w.value(n))
        return None

    body.__doc__ = (
        f'{name}: any number of {attribute} below {least} is rejected with'
        ' ValueError, else a copy is kept in order'
    )
    return body


def fixed_values(c):
    """geometry types and their views cannot be subclassed, components cannot
    be assigned, views iterate like any sequence"""
    import rene.exact as e

    o, p, q = e.Point(0, 0), e.Point(3, 0), e.Point(0, 3)
    k, s = e.Contour([o, p, q]), e.Segment(o, p)
    m = e.Multisegment([s, s])
    r = e.Polygon(k, [k])
    u = e.Multipolygon([r, r])
    views = [k.vertices, k.segments, m.segments, r.holes, u.polygons]
    for x in (o, s, k, m, r, u, e.Empty(), e.Box(0, 1, 0, 1), *views):
        try:
            type('X', (type(x),), {})
        except TypeError:
            pass
        else:
            return Refuted('type can be subclassed', type(x).__qualname__)
    for x, names in (
        (o, 'x y'), (s, 'start end bounding_box'),
        (k, 'vertices segments orientation bounding_box'),
        (m, 'segments bounding_box'), (r, 'border holes bounding_box'),
        (u, 'polygons bounding_box'),
        (e.Box(0, 1, 0, 1), 'min_x max_x min_y max_y'),
    ):
        for name in names.split():
            for act in (
                lambda: setattr(x, name, getattr(x, name)),  # noqa: B023
                lambda: delattr(x, name),  # noqa: B023
            ):
                try:
                    act()
                except AttributeError:
                    pass
                else:
                    return Refuted(
                        'component can be assigned',
                        f'{type(x).__qualname__}.{name}',
                    )
    for v in views:
        cls = type(v)
        for name in ('__setitem__', '__delitem__', '__iadd__', 'append',
                     'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
                     'reverse'):
            if hasattr(cls, name):
                return Refuted('view can be changed', cls.__qualname__)
        try:
            cls((), None)
        except (ValueError, TypeError):
            pass
        else:
            return Refuted('view can be made', cls.__qualname__)
        for name in ('__iter__', '__contains__', '__reversed__'):
            if getattr(cls, name) is not getattr(
                collections.abc.Sequence, name
            ):
                raise Unsupported('views do not iterate by their items')
    return None


def p11():
    res = [Contract(
        'fixed_values', ['rene.exact.Contour'], fixed_values, public=False,
    )]
    for name, attribute, least in (
        ('Contour', 'vertices', 3), ('Multisegment', 'segments', 2),
        ('Polygon', 'holes', 0), ('Multipolygon', 'polygons', 2),
    ):
        res.append(Contract(
            f'any_{name.lower()}', [f'rene.exact.{name}.__new__'] + (
                ['rene._utils.to_contour_segments'] * (name == 'Contour')
            ), cases(construction(name, attribute, least), bad_construction),
            public=False,
        ))
    return res


# --------------------------------------------------------------------- edges
def covered(w, records, n):
    """Is every place of the cycle that of some of the records?"""
    j = w.fresh('j')
    w.solver.push()
    w.solver.add(j >= 0, j < n)
    some = []
    for at, generic in records:
        for q in range(-3, 4):
            if generic is None:
                some.append(at == j + q * n)
            else:
                g, low, high = generic
                zero, one = (
                    z3.substitute(at, (g, z3.IntVal(v))) for v in (0, 1)
                )
                k = z3.simplify(one - zero)
                if not z3.is_int_value(k) or abs(k.as_long()) != 1:
                    raise Unsupported('place of an item')
                h = k * (j + q * n - zero)
                some.append(z3.And(h >= low, h < high))
    res = w.proved(z3.Or(*some))
    w.solver.pop()
    return res


def all_edges(w, edges, n, d):
    """Edges of the cycle, each once, in direction d"""
    records, total = [], z3.IntVal(0)
    for e in edges:
        if not isinstance(e, Edge):
            raise Unsupported('another segment')
        if not e.end.is_at(e.start.at + d):
            return False
        records.append((e.start.at, e.generic))
        total = total + (
            1 if e.generic is None else e.generic[2] - e.generic[1]
        )
    return w.proved(total == n) and covered(w, records, n)


class Edges(Range):
    """Edges of a contour"""

    def __init__(self, seq):
        super().__init__(seq.w, z3.IntVal(0), seq.count)
        self.seq = seq

    def item(self, g):
        s = self.seq
        return Edge(E(s, g), E(s, g + 1))


def bad_edges(n):
    from rene._relating.utils import contour_to_oriented_segments
    from rene._utils import rotate_sequence, to_oriented_segments
    from rene.enums import Orientation
    from rene.exact import Contour, Point, Segment

    for m in _sizes(n):
        vs = convex(m)
        for v in _variants(m):
            ps = [Point(*p) for p in v]
            c = Contour(ps)
            if rotate_sequence(ps) != [ps[0], *ps[:0:-1]]:
                return 'rotated sequence', repr(ps)
            for o, d in (
                (Orientation.COUNTERCLOCKWISE, 1),
                (Orientation.CLOCKWISE, -1),
            ):
                want = {
                    (vs[i], vs[(i + d) % m]) for i in range(m)
                }
                for got in (
                    to_oriented_segments(
                        ps, o, Contour._context.orient, Segment
                    ), contour_to_oriented_segments(c, o),
                ):
                    es = [
                        (
                            (s.start.x, s.start.y), (s.end.x, s.end.y)
                        ) for s in got
                    ]
                    if len(es) != m or set(es) != want:
                        return f'edges {o.name}', repr(c)
    return None


def rotation(c):
    """rotate_sequence goes the other way round from the same element"""
    from rene import _utils

    w = World(c)
    n = some_length(w, 1)
    with given():
        got = _utils.rotate_sequence(Seq(w, 'cycle', Ring(n)))
    if not isinstance(got, (list, tuple)):
        raise Unsupported('rotated sequence')
    at = canonical(w, Hash(got), n)
    if at is not None and w.proved(at[0] == 0) and (
        at[1] == -1 or w.proved(n <= 2)
    ):
        return None
    return confirmed('another order', bad_edges, w.value(n))


def oriented(c):
    """to_oriented_segments: all edges of a contour of any number of vertices
    in the wanted direction, relying on the contract of rotate_sequence"""
    from rene import _utils

    w = World(c)
    n = some_length(w, 3)
    turn, target = some_turn(c), some_turn(c)
    _, ring = cycles(w, n, 2)

    def rotated(seq):
        if not isinstance(seq, Seq) or seq.how == 'slice':
            raise Unsupported('rotation of a part')
        r = seq.ring
        return Seq(w, 'cycle', Ring(n, r.start, -r.d), how='rotated')

    old = _utils.rotate_sequence
    _utils.rotate_sequence = rotated
    try:
        with given():
            got = _utils.to_oriented_segments(
                Seq(w, 'cycle', ring), target, orienteer(w, turn), Edge
            )
            got = list(got)
    finally:
        _utils.rotate_sequence = old
    if all_edges(w, got, n, 1 if turn is target else -1):
        return None
    return confirmed('other edges', bad_edges, w.value(n))


def oriented_edges(c):
    """contour_to_oriented_segments: all edges of a contour of any number of
    vertices in the wanted direction"""
    from rene._relating.utils import contour_to_oriented_segments

    w = World(c)
    n = some_length(w, 3)
    turn, target = some_turn(c), some_turn(c)
    seq = Seq(w, 'cycle', Ring(n))

    class Ring_:
        orientation, segments = turn, Edges(seq)

    with given():
        got = [e for e in contour_to_oriented_segments(Ring_, target)]
    if all_edges(w, got, n, 1 if turn is target else -1):
        return None
    return confirmed('other edges', bad_edges, w.value(n))


def polygon_edges(count):
    def body(c):
        import itertools as it

        from rene._relating import utils as relating
        from rene import _utils
        from rene.enums import Orientation

        box = object()

        class Box:
            def __init__(self, far):
                self.far = far

            def disjoint_with(self, other, /):
                if other is not box:
                    raise Unsupported('another box')
                return self.far

        class Hole:
            def __init__(self, far):
                self.far = far
                self.bounding_box = Box(far)
                self.vertices = self

        class Whole:
            border = Hole(False)
            holes = [Hole(c.flag()) for _ in range(count)]

        def some(ring, orientation, *_):
            return [(ring, orientation)] * 2

        old = relating.contour_to_oriented_segments
        relating.contour_to_oriented_segments = some
        try:
            near = list(relating.polygon_to_segments(Whole, box))
        finally:
            relating.contour_to_oriented_segments = old
        old = _utils.to_oriented_segments
        _utils.to_oriented_segments = some
        try:
            every = list(
                _utils.polygon_to_correctly_oriented_segments(
                    Whole, None, None
                )
            )
        finally:
            _utils.to_oriented_segments = old
        for got, all_ in ((near, False), (every, True)):
            for ring, o in it.chain(
                [(Whole.border, Orientation.COUNTERCLOCKWISE)],
                ((h, Orientation.CLOCKWISE) for h in Whole.holes),
            ):
                k = got.count((ring, o))
                if k != 2 and (all_ or not ring.far or k):
                    raise Unsupported('edges of a polygon')
                got = [x for x in got if x != (ring, o)]
            if got:
                raise Unsupported('edges of a polygon')
        return None

    body.__doc__ = (
        f'edges of polygons with {count} holes: border counterclockwise,'
        ' holes clockwise, none left out but far ones'
    )
    return body


def bad_turns(n):
    from rene._utils import are_contour_vertices_non_degenerate
    from rene.exact import Contour, Point

    orient = Contour._context.orient
    for m in _sizes(n):
        for v in _variants(m):
            ps = [Point(*p) for p in v]
            if not are_contour_vertices_non_degenerate(ps, orient):
                return 'collinear vertices', repr(ps)
            for i in range(m):
                us = list(ps)
                a, b = us[i - 1], us[i]
                us.insert(i, Point((a.x + b.x) / 2, (a.y + b.y) / 2))
                for xs in (us, us[1:] + us[:1]):
                    if are_contour_vertices_non_degenerate(xs, orient):
                        return 'no collinear vertices', repr(xs)
    return None


def turns(c):
    """are_contour_vertices_non_degenerate: no vertex of any number of them is
    on the line of its neighbours"""
    from rene._utils import are_contour_vertices_non_degenerate
    from rene.enums import Orientation

    w = World(c)
    n = some_length(w, 3)
    _, ring = cycles(w, n, 2)
    records = []
    quantifier = []

    def orient(a, b, d, /):
        mid = None
        for x, y, z in itertools.permutations((a, b, d)):
            if x.is_at(y.at - 1) and z.is_at(y.at + 1):
                mid = y
        if mid is None:
            raise Unsupported('turn of other vertices')
        generic = getattr(w, 'generic', None)
        if generic is not None and quantifier != ['all']:
            raise Unsupported('loop over vertices')
        collinear = c.flag()
        records.append((mid.at, generic, collinear))
        return (
            Orientation.COLLINEAR if collinear
            else Orientation.COUNTERCLOCKWISE
        )

    def every(items):
        quantifier.append('all')
        try:
            return builtins.all(items)
        finally:
            quantifier.pop()

    from rene import _utils

    if 'all' in _utils.__dict__:
        raise Unsupported('another all')
    _utils.all = every
    try:
        with given():
            got = are_contour_vertices_non_degenerate(
                Seq(w, 'cycle', ring), orient
            )
    finally:
        del _utils.all
    plain = [(at, g) for at, g, collinear in records if not collinear]
    if got is False:
        ok = len(plain) < len(records)
    elif got is True:
        ok = len(plain) == len(records) and (
            bool(plain) and w.proved(n == 3) or covered(w, plain, n)
        )
    else:
        raise Unsupported('neither true nor false')
    return None if ok else confirmed('turns', bad_turns, w.value(n))


def oriented_contracts():
    return [
        Contract('any_rotated', ['rene._utils.rotate_sequence'],
                 cases(rotation, bad_edges), public=False),
        Contract('any_oriented', [
            'rene._utils.to_oriented_segments',
            'rene._utils.to_contour_segments',
            'rene._utils.to_contour_orientation', 'rene._utils.to_arg_min',
        ], cases(oriented, bad_edges), public=False),
    ] + [polygon_contract(k) for k in (0, 1, 2, 3)]


def polygon_contract(k):
    return Contract(
        f'polygon_edges_{k}',
        ['rene._utils.polygon_to_correctly_oriented_segments',
         'rene._relating.utils.polygon_to_segments'],
        exhaustive(polygon_edges(k)), kind='shape', public=False,
    )


p14 = p15 = p16 = p17 = p18 = oriented_contracts


def p13():
    return [
        Contract('any_oriented_edges',
                 ['rene._relating.utils.contour_to_oriented_segments'],
                 cases(oriented_edges, bad_edges), public=False),
        *[polygon_contract(k) for k in (0, 1, 2, 3)],
    ]


def p19():
    return [
        Contract('any_turns',
                 ['rene._utils.are_contour_vertices_non_degenerate'],
                 cases(turns, bad_turns), public=False),
    ]


def p01():
    return [
        Contract('any_contour_turn',
                 ['rene.exact.Contour.orientation', 'rene._utils.to_arg_min',
                  'rene._utils.to_contour_orientation'],
                 cases(contour_turn, bad_hash), public=False),
    ]
