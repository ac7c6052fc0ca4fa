"""Oracle-side postconditions for basic observations of single geometries."""

import itertools

from . import bridge, gen, oracle as o
from .tri_spec import LOC, canon_ring, probe_points


def canon(g):
    """A form equal for two geometries iff they are the same geometry"""
    k = g[0]
    if k == 'E':
        return g
    if k == 'S':
        return (k, tuple(sorted(g[1])))
    if k == 'C':
        return (k, canon_ring(g[1]))
    if k == 'M':
        return (k, frozenset(tuple(sorted(s)) for s in g[1]))

    def poly(p):
        return (canon_ring(p[0]), frozenset(canon_ring(h) for h in p[1]))

    if k == 'P':
        return (k, poly(g[1]))
    return (k, frozenset(poly(p) for p in g[1]))


def variant(rng, g):
    """Another description of the same geometry"""
    k = g[0]

    def ring(vs):
        i = rng.randrange(len(vs))
        vs = vs[i:] + vs[:i]
        return vs[::-1] if rng.random() < 0.5 else vs

    def seg(s):
        return s[::-1] if rng.random() < 0.5 else s

    def shuffled(xs):
        xs = list(xs)
        rng.shuffle(xs)
        return tuple(xs)

    def poly(p):
        return (ring(p[0]), shuffled(ring(h) for h in p[1]))

    if k == 'E':
        return g
    if k == 'S':
        return (k, seg(g[1]))
    if k == 'C':
        return (k, ring(g[1]))
    if k == 'M':
        return (k, shuffled(seg(s) for s in g[1]))
    if k == 'P':
        return (k, poly(g[1]))
    return (k, shuffled(poly(p) for p in g[1]))


def perturbed(rng, g, gn):
    """A near miss of ``g`` (may still be equal to it)"""
    k = g[0]
    if k in 'SC':
        vs = list(g[1])
        i, j = rng.randrange(len(vs)), rng.randrange(len(vs))
        if rng.random() < 0.5:
            vs[i] = gn.point()
        else:
            vs[i], vs[j] = vs[j], vs[i]
        if len(set(vs)) != len(vs):
            return None
        if k == 'C' and not gen.ring_is_simple(vs):
            return None
        return (k, tuple(vs))
    if k == 'M':
        ss = list(g[1])
        i = rng.randrange(len(ss))
        ss[i] = (ss[i][0], gn.point())
        if ss[i][0] == ss[i][1]:
            return None
        return (k, tuple(ss))
    if k == 'P':
        b, hs = g[1]
        if hs and rng.random() < 0.5:
            return (k, (b, hs[1:]))
        c = perturbed(rng, ('C', b), gn)
        return None if c is None else (k, (c[1], hs))
    if k == 'MP':
        ps = list(g[1])
        i = rng.randrange(len(ps))
        p = perturbed(rng, ('P', ps[i]), gn)
        if p is None:
            return None
        ps[i] = p[1]
        return (k, tuple(ps))
    return None


def check_eq_hash(case):
    g, same, other = case
    a, b = bridge.to_rene(g), bridge.to_rene(same)
    if not (a == b and b == a) or a != b:
        return f'{same} is not equal'
    if hash(a) != hash(b):
        return 'equal geometries with different hashes'
    if not a == bridge.to_rene(g):
        return 'not equal to a copy of itself'
    if other is not None:
        c = bridge.to_rene(other)
        want = canon(g) == canon(other)
        if (a == c) is not want or (c == a) is not want:
            return f'equality with {other} is {a == c}, expected {want}'
        if (a != c) is want:
            return '!= is not the negation of =='
        if want and hash(a) != hash(c):
            return 'equal geometries with different hashes'
    for x in (None, 0, 'x', object()):
        if a == x or not a != x:
            return f'equal to {x!r}'
    return None


def check_box(g):
    r = bridge.to_rene(g)
    pts = [p for s in o.edges_of(g) for p in s]
    want = (
        min(p[0] for p in pts),
        max(p[0] for p in pts),
        min(p[1] for p in pts),
        max(p[1] for p in pts),
    )

    def tup(b):
        return tuple(bridge.q(v) for v in (b.min_x, b.max_x, b.min_y, b.max_y))

    if tup(r.bounding_box) != want:
        return f'bounding box {tup(r.bounding_box)}, expected {want}'
    if not r.bounding_box.is_valid():
        return 'bounding box is not valid'
    return None


def check_locate(g):
    from rene import exact as e

    r = bridge.to_rene(g)
    for p in probe_points(g):
        want = LOC[o.locate(g, p)]
        q = e.Point(*p)
        got = r.locate(q).name
        if got != want:
            return f'locate({p}) is {got}, expected {want}'
        if (q in r) is not (want != 'EXTERIOR'):
            return f'{p} in geometry is {q in r}'
    return None


def check_valid(g):
    r = bridge.to_rene(g)
    if g[0] == 'C':
        want = gen.ring_is_simple(g[1])
    else:
        want = all(
            gen.seg_rel_simple(s, t) in (None, 'touch')
            for s, t in itertools.combinations(g[1], 2)
        )
    got = r.is_valid()
    if got is not want:
        return f'is_valid() is {got}, expected {want}'
    return None


def check_orientation(g):
    a = o.signed_area2(g[1])
    want = 'COUNTERCLOCKWISE' if a > 0 else 'CLOCKWISE'
    got = bridge.to_rene(g).orientation.name
    return None if got == want else f'orientation {got}, expected {want}'


def check_orientations(case):
    made = [(g, bridge.to_rene(g)) for g in case]
    for g, x in made + made:
        want = (
            'COUNTERCLOCKWISE' if o.signed_area2(g[1]) > 0 else 'CLOCKWISE'
        )
        got = x.orientation.name
        if got != want:
            return f'orientation of {g} is {got}, expected {want}'[:600]
    return None
