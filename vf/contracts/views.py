"""Sequence views hand everything over to the stored sequence.

The storage is replaced by an opaque object: it stands for a tuple of any
length and answers each request with a value named after the request.
"""

from ..engine import Refuted, Unsupported
from .common import Contract

TYPES = (
    ('_contour', 'Contour', 'vertices'),
    ('_contour', 'Contour', 'segments'),
    ('_multisegment', 'Multisegment', 'segments'),
    ('_polygon', 'Polygon', 'holes'),
    ('_multipolygon', 'Multipolygon', 'polygons'),
)


class Token:
    """Value of an uninterpreted function"""

    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        raise Unsupported('comparison of opaque values')

    __hash__ = None

    def __bool__(self):
        raise Unsupported('truth of an opaque value')


class Storage(Token):
    """A tuple of any length"""

    LENGTH, HASH = 918273645, 192837465

    def __len__(self):
        return self.LENGTH

    def __hash__(self):
        return self.HASH

    def __bool__(self):
        raise Unsupported('truth of a sequence')

    def __eq__(self, other):
        if not isinstance(other, Storage):
            raise Unsupported('comparison of a sequence')
        return Token(('eq', *sorted((self.key, other.key))))

    def __ne__(self, other):
        if not isinstance(other, Storage):
            raise Unsupported('comparison of a sequence')
        return Token(('ne', *sorted((self.key, other.key))))

    def count(self, value, /):
        return Token(('count', self.key, value))

    def index(self, value, start=0, stop=None, /):
        # like tuple.index, which knows no None
        if start is None:
            return Token('error')
        if type(stop) is int and stop >= self.LENGTH:
            stop = None
        return Token(('index', self.key, value, start, stop))

    def __getitem__(self, item):
        if type(item) is slice:
            step = 1 if item.step is None else item.step
            return Storage((
                'slice', self.key, item.start, item.stop, step,
            ))
        return Token(('item', self.key, item))

    def __iter__(self):
        raise Unsupported('iteration over a sequence')

    __contains__ = __reversed__ = __iter__


def _same(a, b):
    if isinstance(a, Token) and isinstance(b, Token):
        return type(a) is type(b) and _same(a.key, b.key)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(_same, a, b))
    if a is b:
        return True
    if a is None or b is None or isinstance(a, (Token, tuple)) or isinstance(
        b, (Token, tuple)
    ):
        return False
    return bool(a == b)


def _slots(cls):
    return [
        s for k in cls.__mro__ for s in (
            (k.__dict__.get('__slots__', ()),)
            if isinstance(k.__dict__.get('__slots__', ()), str)
            else k.__dict__.get('__slots__', ())
        )
    ]


def _sample(owner):
    from rene.exact import (
        Contour, Multipolygon, Multisegment, Point, Polygon, Segment,
    )

    c = Contour([Point(0, 0), Point(1, 0), Point(0, 1)])
    s = Segment(Point(0, 0), Point(1, 0))
    return {
        'Contour': lambda: c,
        'Multisegment': lambda: Multisegment([s, s]),
        'Polygon': lambda: Polygon(c, [c]),
        'Multipolygon': lambda: Multipolygon([Polygon(c, []), Polygon(c, [])]),
    }[owner]()


def _view(owner, attribute, storage):
    real = getattr(_sample(owner), attribute)
    cls = type(real)
    (slot,) = _slots(cls)
    if not isinstance(getattr(real, slot), tuple):
        raise Unsupported('views do not store a tuple')
    res = object.__new__(cls)
    setattr(res, slot, storage)
    return res, slot


def _failing(owner):
    """A geometry whose views are not those of a tuple"""
    from .. import misc_spec

    def triangle(k):
        return (3 * k, 0), (3 * k + 1, 0), (3 * k, 1)

    def square(k):
        return (9 * k, 0), (9 * k + 8, 0), (9 * k + 8, 8), (9 * k, 8)

    def edge(k):
        return (k, 0), (k, k + 1)

    for n in range(2, 7):
        g = {
            'Contour': ('C', tuple((i, i * i) for i in range(n + 1))),
            'Multisegment': ('M', tuple(edge(k) for k in range(n))),
            'Polygon': ('P', (
                ((-1, -1), (99, -1), (99, 99), (-1, 99)),
                tuple(triangle(k) for k in range(n - 2)),
            )),
            'Multipolygon': ('MP', tuple(
                (square(k), ()) for k in range(n)
            )),
        }[owner]
        try:
            bad = misc_spec.check_views((g,))
        except Exception as e:
            bad = f'{type(e).__name__}: {e}'
        if bad:
            return Refuted(f'{bad} ({g})'[:400], repr(g))
    return None


def access(owner, attribute):
    def body(c):
        base = ('x',)
        view, slot = _view(owner, attribute, Storage(base))
        value = Token(('value',))

        def some():
            return c.real() if c.flag() else None

        k = c.real()
        if k <= 0:
            if k < -2:
                got, want = len(view), Storage.LENGTH
            elif k < -1:
                got, want = hash(view), Storage.HASH
            else:
                got, want = view.count(value), Token(('count', base, value))
        elif k <= 1:
            start, stop = c.real(), some()
            if c.flag():
                got = view.index(value, start, stop)
                want = Token(('index', base, value, start, stop))
            elif c.flag():
                got = view.index(value, start)
                want = Token(('index', base, value, start, None))
            else:
                got = view.index(value)
                want = Token(('index', base, value, 0, None))
        elif k <= 2:
            item = c.real()
            got, want = view[item], Token(('item', base, item))
        elif k <= 3:
            a, b, s = some(), some(), some()
            got = view[slice(a, b, s)]
            if type(got) is not type(view):
                return f'slice of a view is {type(got).__name__}'
            got = getattr(got, slot)
            want = Storage(('slice', base, a, b, 1 if s is None else s))
        else:
            other, _ = _view(owner, attribute, Storage(('y',)))
            got = type(view).__eq__(view, other)
            want = Token(('eq', base, ('y',)))
        if _same(got, want):
            return None
        text = (
            f'{getattr(got, "key", got)} instead of'
            f' {getattr(want, "key", want)}'
        )[:400]
        found = _failing(owner)
        if found is None:
            raise Unsupported(text)
        return found

    body.__doc__ = (
        f'len, hash, ==, count, index, items and slices of'
        f' {owner}.{attribute} are those of the stored tuple of any length'
    )
    return body


def exposed(owner, attribute):
    """The attribute is a view on the very tuple kept by the geometry"""

    def body(c):
        x = _sample(owner)
        a = getattr(x, attribute)
        (slot,) = _slots(type(a))
        stored = getattr(a, slot)
        if not isinstance(stored, tuple):
            raise Unsupported('views do not store a tuple')
        names = [
            s for s in _slots(type(x)) if getattr(x, s, None) is stored
        ]
        if len(names) != 1:
            raise Unsupported('storage is not a slot of the geometry')
        y = object.__new__(type(x))
        storage = Storage(('x',))
        setattr(y, names[0], storage)
        got = getattr(getattr(y, attribute), slot)
        if got is storage:
            return None
        found = _failing(owner)
        if found is None:
            raise Unsupported(f'{attribute} shows another tuple')
        return found

    body.__doc__ = f'{owner}.{attribute} is a view on the stored tuple'
    return body


def p11():
    res = []
    for module, owner, attribute in TYPES:
        name = f'rene._exact.{module[1:]}.{owner}.{attribute}'
        res += [
            Contract(f'view_{owner}_{attribute}', [name],
                     access(owner, attribute), public=False),
            Contract(f'exposed_{owner}_{attribute}', [name],
                     exposed(owner, attribute), public=False),
        ]
    return res
