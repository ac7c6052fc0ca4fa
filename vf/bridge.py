"""Conversion between neutral data (oracle) and the real rene objects."""

from fractions import Fraction as Q


def to_rene(g):
    from rene import exact as e

    P = e.Point

    def pt(p):
        return P(p[0], p[1])

    def ring(vs):
        return e.Contour([pt(v) for v in vs])

    def seg(s):
        return e.Segment(pt(s[0]), pt(s[1]))

    k = g[0]
    if k == 'E':
        return e.Empty()
    if k == 'S':
        return seg(g[1])
    if k == 'C':
        return ring(g[1])
    if k == 'M':
        return e.Multisegment([seg(s) for s in g[1]])
    if k == 'P':
        return e.Polygon(ring(g[1][0]), [ring(h) for h in g[1][1]])
    if k == 'MP':
        return e.Multipolygon(
            [e.Polygon(ring(b), [ring(h) for h in hs]) for b, hs in g[1]]
        )
    raise ValueError(k)


def q(v):
    if hasattr(v, 'num'):
        return v  # symbolic
    n, d = int(v.numerator), int(v.denominator)
    return n if d == 1 else Q(n, d)


def from_point(p):
    return (q(p.x), q(p.y))


def from_rene(o):
    n = type(o).__name__

    def ring(c):
        return tuple(from_point(v) for v in c.vertices)

    def seg(s):
        return (from_point(s.start), from_point(s.end))

    if n == 'Empty':
        return ('E',)
    if n == 'Segment':
        return ('S', seg(o))
    if n == 'Contour':
        return ('C', ring(o))
    if n == 'Multisegment':
        return ('M', tuple(seg(s) for s in o.segments))
    if n == 'Polygon':
        return ('P', (ring(o.border), tuple(ring(h) for h in o.holes)))
    if n == 'Multipolygon':
        return (
            'MP',
            tuple(
                (ring(p.border), tuple(ring(h) for h in p.holes))
                for p in o.polygons
            ),
        )
    raise ValueError(n)
