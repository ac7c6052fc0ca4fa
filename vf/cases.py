"""Richer seeded case generators on top of :mod:`gen`."""

from fractions import Fraction as Q

from . import gen, oracle as o
from .gen import Gen


def affine(rng):
    """A random invertible affine point map (identity half of the time)"""
    k = rng.random()
    if k < 0.45:
        return None
    if k < 0.6:
        dx, dy = rng.randint(-9, 2), rng.randint(-9, 2)
        return lambda p: (p[0] + dx, p[1] + dy)
    if k < 0.7:
        return lambda p: (p[1], p[0])
    if k < 0.78:
        return lambda p: (-p[0], p[1])
    if k < 0.86:
        # beyond the range or the precision of floating point numbers
        f = rng.choice((10**400, Q(1, 10**400), 1, Q(1, 10**30)))
        d = 0 if f != 1 else 10**30
        return lambda p: (p[0] * f + d, p[1] * f - d)
    while True:
        big = rng.random() < 0.3
        m = 10**9 if big else 5
        a, b, c, d = (Q(rng.randint(-m, m), rng.randint(1, m)) for _ in 'abcd')
        if a * d - b * c:
            break
    e, f = Q(rng.randint(-7, 7), 3), Q(rng.randint(-7, 7), 2)

    def norm(v):
        return int(v) if v.denominator == 1 else v

    return lambda p: (
        norm(a * p[0] + b * p[1] + e),
        norm(c * p[0] + d * p[1] + f),
    )


def mapped(rng, *gs):
    f = affine(rng)
    if f is None:
        return gs
    return tuple(gen.transform(g, f, True) for g in gs)


def _ring(shape, c, r):
    x, y = c
    if shape == 'square':
        return ((x - r, y - r), (x + r, y - r), (x + r, y + r), (x - r, y + r))
    if shape == 'diamond':
        return ((x - r, y), (x, y - r), (x + r, y), (x, y + r))
    if shape == 'triangle':
        return ((x - r, y - r), (x + r, y - r), (x, y + r))
    return (
        (x - r, y - r + 1),
        (x, y - r),
        (x + r, y - 1),
        (x + r - 1, y + r),
        (x - r + 1, y + r),
    )


SHAPES = ('square', 'diamond', 'triangle', 'blob')


def _inside(inner, outer):
    oe = o.ring_edges(outer)
    return all(o.locate_in_edges(oe, v) == 1 for v in inner) and not any(
        o.meet(s, t) for s in o.ring_edges(inner) for t in oe
    )


def nested(rng, depth=None):
    """Rings inside of rings: holes with islands with holes ..."""
    depth = depth or rng.randint(1, 4)
    c = (rng.randint(6, 9), rng.randint(6, 9))
    r = rng.randint(6, 8)
    rings = [_ring(rng.choice(SHAPES), c, r)]
    while len(rings) < depth and r > 1:
        r -= rng.randint(1, 2)
        if r < 1:
            break
        for _ in range(4):
            cc = (c[0] + rng.randint(-1, 1), c[1] + rng.randint(-1, 1))
            cand = _ring(rng.choice(SHAPES), cc, r)
            if gen.ring_is_simple(cand) and _inside(cand, rings[-1]):
                rings.append(cand)
                break
    polys = []
    for i in range(0, len(rings), 2):
        border = gen.orient_ring(rings[i])
        holes = tuple(
            gen.orient_ring(h, False) for h in rings[i + 1 : i + 2]
        )
        polys.append((border, holes))
    rng.shuffle(polys)
    if len(polys) == 1:
        return ('P', polys[0])
    return ('MP', tuple(polys))


def cells(rng, size=None):
    """Scattered small rings, many at once: long sweeps, many components"""
    n = size or rng.randint(2, 4)
    step = rng.choice((2, 3))
    polys = []
    for i in range(n):
        for j in range(n):
            if rng.random() < 0.35:
                continue
            x, y = i * step, j * step
            h = step - 1 if rng.random() < 0.8 else step
            k = rng.random()
            if k < 0.5:
                b = ((x, y), (x + h, y), (x + h, y + h), (x, y + h))
            elif k < 0.75:
                b = ((x, y), (x + h, y), (x, y + h))
            else:
                b = ((x, y), (x + h, y), (x + h, y + h))
            p = (b, ())
            if all(_cells_apart(p, q) for q in polys):
                polys.append(p)
    if len(polys) < 2:
        return cells(rng, size)
    return ('MP', tuple(polys))


def _cells_apart(p, q):
    for s in o.ring_edges(p[0]):
        for t in o.ring_edges(q[0]):
            if o.meet(s, t) is not None:
                return False
    return True


def comb(rng):
    """A contour with teeth: many collinear and parallel edges"""
    n = rng.randint(2, 4)
    h = rng.randint(1, 4)
    vs = [(0, 0), (4 * n - 2, 0)]
    for i in reversed(range(n)):
        t = h + rng.randint(0, 2)
        vs += [(4 * i + 2, t), (4 * i, t)]
        if i:
            b = rng.randint(0, h - 1) if h > 1 else 0
            b = max(b, 1) if rng.random() < 0.8 and h > 1 else b
            if b == 0:
                b = Q(1, 2)
            vs += [(4 * i, b), (4 * i - 2, b)]
    vs = Gen._drop_collinear(vs)
    return tuple(vs)


def grid_lines(rng):
    """Multisegment made of unit pieces of a grid"""
    n = rng.randint(2, 4)
    segs = []
    for i in range(n):
        for j in range(n):
            for d in ((1, 0), (0, 1)):
                if rng.random() < 0.4:
                    s = ((i, j), (i + d[0], j + d[1]))
                    segs.append(s if rng.random() < 0.5 else s[::-1])
    if len(segs) < 2:
        return grid_lines(rng)
    rng.shuffle(segs)
    return ('M', tuple(segs[:12]))


def star_lines(rng):
    """Multisegment of segments leaving common points in many directions"""
    segs = []
    c = (rng.randint(1, 3), rng.randint(1, 3))
    for _ in range(rng.randint(2, 6)):
        q = (rng.randint(0, 4), rng.randint(0, 4))
        if q == c:
            continue
        s = (c, q) if rng.random() < 0.5 else (q, c)
        if all(gen.seg_rel_simple(s, t) in (None, 'touch') for t in segs):
            segs.append(s)
    if len(segs) < 2:
        return star_lines(rng)
    return ('M', tuple(segs))


def reversed_rings(rng, g):
    """Random orientation of rings of polygons"""
    if g[0] not in o.SHAPED or rng.random() < 0.7:
        return g

    def ring(vs):
        return tuple(reversed(vs)) if rng.random() < 0.5 else vs

    def poly(p):
        return (ring(p[0]), tuple(ring(h) for h in p[1]))

    if g[0] == 'P':
        return ('P', poly(g[1]))
    return ('MP', tuple(poly(p) for p in g[1]))


def special(rng, kind):
    if kind == 'M':
        return rng.choice((grid_lines, star_lines))(rng)
    if kind == 'C':
        vs = comb(rng)
        return ('C', vs[::-1] if rng.random() < 0.5 else vs)
    if kind == 'P':
        k = rng.random()
        if k < 0.5:
            g = nested(rng, 2)
        elif k < 0.75:
            g = ('P', (gen.orient_ring(comb(rng)), ()))
        else:
            g = ('P', (nested(rng, 1)[1][0], ()))
        return g
    if kind == 'MP':
        g = cells(rng) if rng.random() < 0.4 else nested(rng, 4)
        return g if g[0] == 'MP' else cells(rng)
    if kind == 'S':
        n = 14
        while True:
            p = (rng.randint(-1, n), rng.randint(-1, n))
            q = (rng.randint(-1, n), rng.randint(-1, n))
            if p != q:
                return ('S', (p, q))
    raise ValueError(kind)


def make(rng, kind, size=None, touching=None, tees=None, rings=True):
    if kind == 'E':
        return ('E',)
    if size is None:
        size = rng.choice((3, 3, 4, 5, 6))
    if touching is None:
        touching = rng.random() < 0.5
    if tees is None:
        tees = touching and rng.random() < 0.5
    if rng.random() < 0.15:
        g = special(rng, kind)
    else:
        g = Gen(rng, size, touching, tees).of_kind(kind)
    return reversed_rings(rng, g) if rings else g


def parts_of(rng, g):
    """A geometry sharing edges with ``g``, to make overlaps likely"""
    es = o.edges_of(g)
    res = []
    for _ in range(rng.randint(1, 3)):
        p, q = rng.choice(es)
        k = rng.random()
        if k < 0.3:
            s = (p, q)
        elif k < 0.5:
            s = (p, _mid(p, q))
        elif k < 0.7:
            s = (p, _along(p, q, 2))
        elif k < 0.85:
            s = (_along(p, q, -1), _mid(p, q))
        else:
            r = rng.choice(rng.choice(es))
            s = (_mid(p, q), r)
        if s[0] == s[1]:
            continue
        if rng.random() < 0.5:
            s = s[::-1]
        if all(gen.seg_rel_simple(s, t) in (None, 'touch') for t in res):
            res.append(s)
    if not res:
        return ('S', rng.choice(es))
    if len(res) == 1:
        return ('S', res[0])
    return ('M', tuple(res))


def _along(p, q, t):
    return (p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t)


def _mid(p, q):
    def half(v):
        return v // 2 if isinstance(v, int) and v % 2 == 0 else Q(v, 2)

    return (half(p[0] + q[0]), half(p[1] + q[1]))


def sub_shape(rng, g):
    """A shaped geometry sharing rings with the shaped ``g``"""
    polys = [g[1]] if g[0] == 'P' else list(g[1])
    border, holes = rng.choice(polys)
    k = rng.random()
    if holes and k < 0.3:
        return ('P', (gen.orient_ring(rng.choice(holes)), ()))
    if holes and k < 0.6:
        return ('P', (border, ()))
    if k < 0.8:
        n = len(border)
        if n > 3:
            i = rng.randrange(n)
            vs = tuple(border[:i] + border[i + 1 :])
            if gen.ring_is_simple(vs):
                return ('P', (gen.orient_ring(vs), ()))
        return ('P', (border, holes))
    es = o.ring_edges(border)
    i = rng.randrange(len(es))
    p, q = es[i]
    m = _mid(p, q)
    d = (rng.randint(-2, 2), rng.randint(-2, 2))
    apex = (m[0] + d[0], m[1] + d[1])
    if o.cross(p, q, apex) == 0:
        return ('P', (border, ()))
    return ('P', (gen.orient_ring((p, q, apex)), ()))


CELL_RINGS = (
    ((0, 0), (3, 0), (0, 3)),
    ((0, 0), (4, 0), (4, 4), (0, 4)),
    ((1, 1), (3, 1), (2, 3)),
    ((0, 2), (2, 0), (4, 2), (2, 4)),
    ((0, 0), (9, 0), (9, 9), (0, 9)),
)


def scattered(rng, kind, cells_):
    """Parts in cells far apart: bounding boxes tell little"""
    from .valid import valid

    def shift(c, p):
        return (10 * c[0] + p[0], 10 * c[1] + p[1])

    def point(c):
        return shift(c, (rng.randint(0, 4), rng.randint(0, 4)))

    def polygon(c):
        ring = tuple(shift(c, p) for p in rng.choice(CELL_RINGS))
        if len(ring) == 4 and ring[1][0] - ring[0][0] == 9 and (
            rng.random() < 0.5
        ):
            hole = ((1, 1), (1, 7), (7, 7), (7, 1))
            return ring, (tuple(shift(c, p) for p in hole),)
        return ring, ()

    for _ in range(60):
        cs = list(cells_)
        rng.shuffle(cs)
        if kind == 'S':
            g = ('S', (point(cs[0]), point(cs[rng.randrange(len(cs))])))
        elif kind == 'C':
            g = ('C', tuple(point(c) for c in (cs * 3)[:3]))
        elif kind == 'P':
            if rng.random() < 0.4:
                g = ('P', (tuple(point(c) for c in (cs * 3)[:3]), ()))
            else:
                g = ('P', polygon(cs[0]))
        elif kind == 'M':
            segs = []
            for c in cs:
                for _ in range(rng.choice((1, 1, 2))):
                    d = c if rng.random() < 0.85 else rng.choice(cs)
                    segs.append((point(c), point(d)))
            g = ('M', tuple(segs))
        else:
            g = ('MP', tuple(polygon(c) for c in cs))
        if valid(g):
            return g
    return None


def scattered_pair(rng, ka, kb):
    n = rng.choice((2, 3, 4))
    every = [(i, j) for i in range(n) for j in range(n)]
    ca = rng.sample(every, rng.randint(2, min(4, len(every))))
    cb = [
        rng.choice(ca) if rng.random() < 0.4 else rng.choice(every)
        for _ in range(4)
    ]
    cb = list(dict.fromkeys(cb))
    if len(cb) < 2:
        cb.append(rng.choice([c for c in every if c not in cb]))
    a, b = scattered(rng, ka, ca), scattered(rng, kb, cb)
    if a is None or b is None:
        return None
    if ka == 'M' and kb in 'MS' and rng.random() < 0.3:
        b2 = parts_of(rng, a)
        if b2[0] == kb:
            b = b2
    elif kb == 'M' and ka in 'MS' and rng.random() < 0.3:
        a2 = parts_of(rng, b)
        if a2[0] == ka:
            a = a2
    return mapped(rng, a, b)


def _hull(gs):
    pts = [p for g in gs for e in o.edges_of(g) for p in e]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return min(xs), min(ys), max(xs), max(ys)


def _variant(rng, parts, linear):
    """The same parts, fewer of them, or (segments) cut into pieces"""
    parts = list(parts)
    k = rng.random()
    if k < 0.45:
        parts = rng.sample(parts, rng.randint(1, len(parts)))
    elif linear and k < 0.8:
        res = []
        for p, q in parts:
            if rng.random() < 0.5:
                m = _mid(p, q)
                res += [(p, m), (m, q)]
            else:
                res.append((p, q))
        if rng.random() < 0.3:
            res.pop(rng.randrange(len(res)))
        parts = res or parts
    return parts


def _outlier(rng, hull, kind):
    x0, y0, x1, y1 = hull
    w = rng.choice((1, 1, 2))

    def at(lo, hi):
        k = rng.random()
        if k < 0.3:
            return lo - rng.choice((1, 2, 4, 7)) - w
        if k < 0.6:
            return hi + rng.choice((1, 2, 4, 7))
        v = rng.randint(int(lo) - 1, int(hi) + 1)
        return v

    x, y = at(x0, x1), at(y0, y1)
    if kind == 'M':
        d = rng.choice(((w, 0), (0, w), (w, w), (-w, w)))
        seg = ((x, y), (x + d[0], y + d[1]))
        return seg if rng.random() < 0.5 else seg[::-1]
    return ((x, y), (x + w, y), (x, y + w)), ()


def outlying_pair(rng, ka, kb):
    """
    Operands made of the same parts (all, some, subdivided) next to further
    parts around them, which bounding boxes and sweeps may leave out
    """
    from .valid import valid

    def parts(kind, g):
        if kind == 'M':
            es = list(o.edges_of(g))
            return es
        return [g[1]] if g[0] == 'P' else list(g[1])

    def build(kind, base, hull):
        if kind in 'CSP':
            if kind == 'S':
                return ('S', rng.choice(list(o.edges_of(base))))
            if base[0] in o.SHAPED:
                poly = rng.choice(parts('MP', base))
                return ('P', poly) if kind == 'P' else ('C', poly[0])
            return base if base[0] == kind else make(rng, kind, 3)
        core = _variant(rng, parts(kind, base), kind == 'M')
        for _ in range(rng.choice((0, 1, 1, 2, 2, 3))):
            for _ in range(6):
                more = core + [_outlier(rng, hull, kind)]
                if len(more) > 1 and valid((kind, tuple(more))):
                    core = more
                    break
        if len(core) == 1:
            return None
        rng.shuffle(core)
        g = (kind, tuple(core))
        return g if valid(g) else None

    for _ in range(30):
        if 'P' in ka + kb:
            base = make(
                rng,
                rng.choice(('P', 'MP', 'MP') if 'MP' in (ka, kb) else ('P',)),
                rng.choice((3, 4)), tees=False, rings=False,
            )
        elif 'C' in (ka, kb):
            base = make(rng, 'C', rng.choice((3, 4)), tees=False)
        else:
            n = rng.choice((1, 2, 2, 3))
            if n == 1 or rng.random() < 0.5:
                step = rng.choice(((1, 0), (0, 2), (2, 2), (2, -2)))
                xs = sorted(rng.sample(range(5), min(5, 2 * n)))
                pts = [(step[0] * x, step[1] * x) for x in xs]
                base = ('M', tuple(zip(pts[::2], pts[1::2])))
            else:
                base = make(rng, 'M', rng.choice((2, 3)), tees=False)
        if base[0] == 'E' or not o.edges_of(base):
            continue
        hull = _hull([base])
        a, b = build(ka, base, hull), build(kb, base, hull)
        if a is not None and b is not None:
            return mapped(rng, a, b)
    return None


def _saw(rng, lo, hi, ys, side):
    """Ring weaving along the x axis, closed far above or below of it"""
    k = min(rng.choice((2, 3, 4, 5)), hi - lo + 1)
    xs = sorted(rng.sample(range(lo, hi + 1), k))
    chain = [(x, rng.choice(ys)) for x in xs]
    top = side * (3 + 2 * (hi - lo))
    ring = [*chain, (rng.randint(lo, hi), top)]
    kept = []
    for i, p in enumerate(ring):
        q, r = ring[i - 1], ring[(i + 1) % len(ring)]
        if o.cross(q, p, r) != 0:
            kept.append(p)
    if len(kept) < 3 or not gen.ring_is_simple(kept):
        return None
    i = rng.randrange(len(kept))
    kept = kept[i:] + kept[:i]
    return tuple(kept[::-1] if rng.random() < 0.5 else kept)


def on_line(rng, kind, n=6):
    """Geometry with many events along the x axis"""
    from .valid import valid

    ys = rng.choice(((0, 1), (0, -1), (-1, 0, 1), (-1, 0, 0, 1)))
    if kind == 'S':
        i, j = rng.sample(range(-1, n + 2), 2)
        if rng.random() < 0.1:
            return ('S', ((i, rng.choice((-1, 0))), (j, rng.choice((0, 1)))))
        return ('S', ((i, 0), (j, 0)))
    if kind == 'C':
        ring = _saw(rng, 0, n, ys, rng.choice((-1, 1)))
        return None if ring is None else ('C', ring)
    if kind == 'P':
        ring = _saw(rng, 0, n, ys, rng.choice((-1, 1)))
        if ring is None:
            return None
        if rng.random() < 0.3:
            h = 5 + 2 * n
            box = ((-3, -h), (n + 3, -h), (n + 3, h), (-3, h))
            return ('P', (box, (ring,)))
        return ('P', (ring, ()))
    if kind == 'MP':
        parts = []
        m = rng.randint(2, n - 2)
        for lo, hi, ys, side in rng.choice((
            ((0, n, (0, 0, 1), 1), (0, n, (0, 0, -1), -1)),
            ((0, m, ys, 1), (m, n, ys, 1)),
            ((0, m, ys, -1), (m, n, ys, 1)),
            ((0, m, (0, 1), 1), (m, n, (0, -1), -1), (0, m, (0, -1), -1)),
        )):
            ring = _saw(rng, lo, hi, ys, side)
            if ring is not None:
                parts.append((ring, ()))
        rng.shuffle(parts)
        g = ('MP', tuple(parts))
        return g if len(parts) > 1 and valid(g) else None
    segs = []
    mode = rng.choice(('pieces', 'twigs', 'both'))
    cuts = [0]
    if mode != 'twigs':
        cuts = sorted(rng.sample(range(n + 1), rng.choice((2, 3, 4, 5, 6))))
    keep = rng.choice((0.5, 0.8, 1))
    for i, j in zip(cuts, cuts[1:]):
        if rng.random() < keep:
            segs.append(((i, 0), (j, 0)))
    ends = rng.sample(range(n + 1), rng.choice((1, 2, 2, 3)))
    for _ in range(
        {'pieces': 0, 'twigs': rng.choice((2, 3, 4, 5, 6, 8)),
         'both': rng.choice((1, 2, 4))}[mode]
    ):
        x = rng.choice(ends)
        twig = ((x, 0), (x + rng.choice((-1, 0, 0, 1)), rng.choice((-1, 1))))
        if rng.random() < 0.05:
            twig = ((x, -1), (x, 1))
        more = [*segs, twig]
        if twig not in segs and (
            len(more) < 2 or valid(('M', tuple(more)))
        ):
            segs = more
    if len(segs) < 2:
        return None
    rng.shuffle(segs)
    g = ('M', tuple(
        s[::-1] if rng.random() < 0.5 else s for s in segs
    ))
    return g if valid(g) else None


def line_pair(rng, ka, kb):
    """Operands which meet many times along one line"""
    a = b = None
    for _ in range(40):
        a = a or on_line(rng, ka)
        b = b or on_line(rng, kb)
        if a and b:
            break
    else:
        return None
    if {'S', 'M'} == {ka, kb} and rng.random() < 0.6:
        # the segment spans what is on the line
        m = a if ka == 'M' else b
        xs = [p[0] for s in m[1] for p in s if p[1] == 0]
        if len(set(xs)) > 1:
            d = rng.choice((0, 0, 1))
            g = ('S', ((min(xs) - d, 0), (max(xs) + d, 0)))
            a, b = (m, g) if ka == 'M' else (g, m)
    return mapped(rng, a, b)


def pair(rng, ka, kb):
    """Two geometries of the given kinds, often sharing parts"""
    k = rng.random()
    if k < 0.35:
        res = (scattered_pair if k < 0.17 else outlying_pair)(rng, ka, kb)
        if res is not None:
            return res
    tees = None
    if rng.random() < 0.12:
        a = special(rng, ka)
        b = special(rng, kb)
    else:
        size = rng.choice((2, 3, 3, 4, 5, 6)) if 'P' not in ka + kb else (
            rng.choice((3, 3, 4, 5, 6))
        )
        a = make(rng, ka, size, tees=tees)
        b = make(rng, kb, size, tees=tees)
    k = rng.random()
    if k < 0.25 and kb in 'SM' and a[0] != 'E':
        b = parts_of(rng, a)
    elif k < 0.25 and kb == 'P' and a[0] in o.SHAPED:
        b = sub_shape(rng, a)
    elif k < 0.2 and kb == 'C' and a[0] in o.SHAPED:
        p = a[1] if a[0] == 'P' else rng.choice(a[1])
        b = ('C', rng.choice((p[0], *p[1])))
    elif k < 0.2 and ka in 'SM' and b[0] != 'E':
        a = parts_of(rng, b)
    if rng.random() < 0.03 and a[0] == kb == ka:
        b = a
    return mapped(rng, a, b)


def point_set(rng):
    n = rng.choice((3, 4, 5, 6, 7, 8, 10, 13))
    size = rng.choice((2, 3, 4, 6, 10, 30))
    pts = [
        (rng.randint(0, size), rng.randint(0, size)) for _ in range(n)
    ]
    k = rng.random()
    if k < 0.1:
        c = rng.randint(0, size)
        pts = [(c, p[1]) for p in pts[:-1]] + [pts[-1]]
    elif k < 0.2:
        # cocircular
        base = [(5, 0), (4, 3), (3, 4), (0, 5)]
        full = [
            (sx * x, sy * y) for x, y in base for sx in (1, -1)
            for sy in (1, -1)
        ]
        pts = rng.sample(sorted(set(full)), rng.randint(4, 10)) + pts[:2]
    f = affine(rng)
    if f is not None:
        pts = [f(p) for p in pts]
    if rng.random() < 0.2:
        pts.append(rng.choice(pts))
    rng.shuffle(pts)
    return tuple(pts)


def has_tee(g):
    es = o.edges_of(g)
    return any(
        p not in t and o.on_segment(*t, p) for s in es for t in es for p in s
    )


def star_ring(rng, n, size, k=1):
    """A spiky star-shaped ring on a grid stretched along a skew direction"""
    while True:
        pts = set()
        while len(pts) < n:
            pts.add((rng.randint(0, size), rng.randint(0, size)))
        c = (Q(size, 2) + Q(1, 97), Q(size, 2) + Q(1, 173))
        dirs = [((p[0] - c[0], p[1] - c[1]), p) for p in sorted(pts)]
        vs = [p for _, p in o.angle_key_sort(dirs)]
        if k != 1:
            vs = [(p[0] * k + p[1], p[1]) for p in vs]
        vs = Gen._drop_collinear(vs)
        if gen.ring_is_simple(vs):
            return tuple(vs)


def big_polygon(rng):
    """Polygons with many vertices, thin angles and sometimes holes"""
    n = rng.choice((8, 12, 16, 16, 20))
    k = rng.choice((1, 3, 3, 8))
    border = gen.orient_ring(star_ring(rng, n, rng.choice((8, 12, 20, 40)), k))
    holes = []
    for _ in range(rng.choice((0, 0, 1, 2, 3))):
        p = rng.choice(border)
        q = rng.choice(border)
        r = rng.choice(border)
        tri = [
            tuple(
                Q(s[i] * 4 + a * 3 + b, 8) for i in (0, 1)
                for a, b in ((t[i], u[i]),)
            )
            for s, t, u in ((p, q, r), (q, r, p), (r, p, q))
        ]
        tri = tuple(
            tuple(int(v) if v.denominator == 1 else v for v in w) for w in tri
        )
        if o.cross(*tri) == 0:
            continue
        tri = gen.orient_ring(tri, False)
        if Gen(rng)._hole_ok(border, holes, tri):
            holes.append(tri)
    return ('P', (border, tuple(holes)))


def big_lines(rng):
    """Non-crossing multisegments with many segments"""
    size = rng.choice((6, 10, 20))
    k = rng.choice((1, 1, 3))
    segs = []
    n = rng.choice((6, 9, 12, 16))
    for _ in range(200):
        if len(segs) == n:
            break
        p = (rng.randint(0, size), rng.randint(0, size))
        if segs and rng.random() < 0.35:
            p = rng.choice(rng.choice(segs))
        r = rng.choice((2, 4, size))
        q = (
            min(size, max(0, p[0] + rng.randint(-r, r))),
            min(size, max(0, p[1] + rng.randint(-r, r))),
        )
        if p != q and all(
            gen.seg_rel_simple((p, q), t) in (None, 'touch') for t in segs
        ):
            segs.append((p, q))
    if len(segs) < 2:
        return big_lines(rng)
    return ('M', tuple(
        tuple((p[0] * k + p[1], p[1]) if k != 1 else p for p in s)
        for s in segs
    ))


def big_points(rng):
    n = rng.choice((10, 16, 24, 32))
    size = rng.choice((5, 9, 20, 100))
    k = rng.choice((1, 1, 3, 8))
    pts = [(rng.randint(0, size), rng.randint(0, size)) for _ in range(n)]
    if k != 1:
        pts = [(p[0] * k + p[1], p[1]) for p in pts]
    rng.shuffle(pts)
    return tuple(pts)
