"""Symbolic inputs of contracts."""

from fractions import Fraction as Q

from .. import gen, oracle as o
from ..engine import Skip
from ..prove import Contract

__all__ = [
    'Contract', 'Q', 'gen', 'o', 'point', 'points', 'segment', 'moved',
    'scaled', 'permuted_ring', 'with_vertex',
]


def point(c):
    return (c.real(), c.real())


def points(c, n):
    return tuple(point(c) for _ in range(n))


def segment(c):
    """Any segment of two different points"""
    p, q = points(c, 2)
    c.assume(not (p[0] == q[0] and p[1] == q[1]))
    return (p, q)


def moved(g, dx, dy):
    return gen.transform(g, lambda p: (p[0] + dx, p[1] + dy))


def scaled(g, k, dx=0, dy=0):
    return gen.transform(g, lambda p: (p[0] * k + dx, p[1] * k + dy))


def permuted_ring(vs, k, reverse):
    vs = tuple(vs)
    vs = vs[k:] + vs[:k]
    return vs[::-1] if reverse else vs


def with_vertex(g, old, new):
    """The geometry with one vertex replaced wherever it occurs"""
    return gen.transform(g, lambda p: new if p == old else p)


class _Choices:
    """All booleans in turn, depth first"""

    symbolic = True

    def __init__(self):
        self.path = []
        self.k = 0

    def flag(self):
        if self.k == len(self.path):
            self.path.append(False)
        self.k += 1
        return self.path[self.k - 1]

    def assume(self, value):
        if not value:
            raise Skip

    def next(self):
        while self.path and self.path[-1]:
            self.path.pop()
        if self.path:
            self.path[-1] = True
        return bool(self.path)


def exhaustive(body):
    """Contract whose only inputs are booleans: every case is run"""

    def run(c):
        choices = _Choices()
        while True:
            choices.k = 0
            try:
                text = body(choices)
            except Skip:
                text = None
            if text:
                return f'{text} (case {choices.path[:choices.k]})'
            del choices.path[choices.k:]
            if not choices.next():
                return None

    run.__doc__ = body.__doc__
    return run
