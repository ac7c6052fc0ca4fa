"""Seeded generators of valid small-grid geometries (neutral data, see oracle)"""

import random
from fractions import Fraction as Q
from itertools import combinations

from . import oracle as o


def seg_rel_simple(s, t):
    """How two segments meet

    None, 'touch' (common end point), 'tee' (end point of one strictly inside
    of the other), 'cross' or 'overlap'
    """
    r = o.meet(s, t)
    if r is None:
        return None
    if r[0] == 'seg':
        return 'overlap'
    p = r[1]
    if p in s and p in t:
        return 'touch'
    if p in s or p in t:
        return 'tee'
    return 'cross'


def ring_is_simple(vs):
    n = len(vs)
    if n < 3 or any(p == q for p, q in combinations(vs, 2)):
        return False
    for i in range(n):
        if o.cross(vs[i - 2], vs[i - 1], vs[i]) == 0:
            return False
    es = o.ring_edges(vs)
    for i in range(n):
        for j in range(i + 1, n):
            r = o.meet(es[i], es[j])
            if r is None:
                continue
            if r[0] == 'seg':
                return False
            if j == i + 1 or (i == 0 and j == n - 1):
                if n == 3 or r[1] in es[i] and r[1] in es[j]:
                    continue
            return False
    return True


def orient_ring(vs, ccw=True):
    return tuple(vs) if (o.signed_area2(vs) > 0) == ccw else tuple(
        reversed(vs)
    )


class Gen:
    def __init__(self, rng, size=4, touching=False, tees=False):
        self.r = rng
        self.size = size
        # may rings of polygonal geometries touch each other in points ...
        self.touching = touching
        # ... which are not vertices of both?
        self.tees = tees

    def point(self):
        r = self.r
        return (r.randint(0, self.size), r.randint(0, self.size))

    def segment(self):
        while True:
            p, q = self.point(), self.point()
            if p != q:
                return ('S', (p, q))

    def ring(self, k=None, lo=None, hi=None):
        r = self.r
        lo = (0, 0) if lo is None else lo
        hi = (self.size, self.size) if hi is None else hi
        while True:
            n = k or r.choice([3, 3, 4, 4, 4, 5, 6, 7])
            vs = [
                (r.randint(lo[0], hi[0]), r.randint(lo[1], hi[1]))
                for _ in range(n)
            ]
            if len(set(vs)) != n:
                continue
            if n > 4:
                # star-shaped shuffle around a random centre raises yield
                c = (
                    Q(sum(v[0] for v in vs), n),
                    Q(sum(v[1] for v in vs), n),
                )
                if r.random() < 0.8:
                    dirs = [((v[0] - c[0], v[1] - c[1]), v) for v in vs]
                    if any(d == (0, 0) for d, _ in dirs):
                        continue
                    vs = [v for _, v in o.angle_key_sort(dirs)]
            vs = self._drop_collinear(vs)
            if ring_is_simple(vs):
                if r.random() < 0.5:
                    k0 = r.randrange(len(vs))
                    vs = vs[k0:] + vs[:k0]
                return tuple(vs)

    @staticmethod
    def _drop_collinear(vs):
        changed = True
        while changed and len(vs) > 3:
            changed = False
            for i in range(len(vs)):
                if o.cross(vs[i - 2], vs[i - 1], vs[i]) == 0:
                    vs = [v for j, v in enumerate(vs) if j != (i - 1) % len(vs)]
                    changed = True
                    break
        return vs

    def contour(self):
        vs = self.ring()
        if self.r.random() < 0.5:
            vs = tuple(reversed(vs))
        return ('C', vs)

    def multisegment(self, n=None):
        r = self.r
        n = n or r.choice([2, 2, 3, 3, 4, 5])
        res = []
        tries = 0
        while len(res) < n and tries < 200:
            tries += 1
            s = self.segment()[1]
            if res and r.random() < 0.4:
                # reuse an end point
                e = r.choice(r.choice(res))
                q = self.point()
                if q == e:
                    continue
                s = (e, q)
            if all(seg_rel_simple(s, t) in (None, 'touch') for t in res):
                res.append(s)
        if len(res) < 2:
            return self.multisegment()
        return ('M', tuple(res))

    def _polygon(self, holes=None):
        r = self.r
        while True:
            border = orient_ring(self.ring())
            nh = (
                holes
                if holes is not None
                else r.choice([0, 0, 0, 1, 1, 2])
            )
            if nh and abs(o.signed_area2(border)) < 8:
                continue
            hs = []
            tries = 0
            while len(hs) < nh and tries < 60:
                tries += 1
                h = orient_ring(self.ring(k=r.choice([3, 3, 4])), False)
                if self._hole_ok(border, hs, h):
                    hs.append(h)
            if len(hs) == nh:
                return (border, tuple(hs))

    def _hole_ok(self, border, hs, h):
        be = o.ring_edges(border)
        he = o.ring_edges(h)
        touches = 0
        for s in he:
            for t in be:
                rel = seg_rel_simple(s, t)
                if rel in ('cross', 'overlap'):
                    return False
                if rel == 'tee' and not self.tees:
                    return False
                if rel in ('touch', 'tee'):
                    if not self.touching:
                        return False
                    touches += 1
        if touches:
            pts = {
                o.meet(s, t)[1]
                for s in he
                for t in be
                if o.meet(s, t) is not None
            }
            if len(pts) > 1:
                return False
        mid = self._inner_point(h)
        if o.locate_in_edges(be, mid) != 1:
            return False
        if any(o.locate_in_edges(be, v) == -1 for v in h):
            return False
        for g in hs:
            ge = o.ring_edges(g)
            pts = set()
            for s in he:
                for t in ge:
                    rel = seg_rel_simple(s, t)
                    if rel in ('cross', 'overlap'):
                        return False
                    if rel == 'tee' and not self.tees:
                        return False
                    if rel in ('touch', 'tee'):
                        if not self.touching:
                            return False
                        pts.add(o.meet(s, t)[1])
            if len(pts) > 1:
                return False
            if pts:
                # chains of touching rings could disconnect the interior
                return False
            if o.locate_in_edges(ge, mid) != -1 or o.locate_in_edges(
                he, self._inner_point(g)
            ) != -1:
                return False
        return True

    @staticmethod
    def _inner_point(vs):
        es = o.ring_edges(vs)
        n = len(vs)
        for i in range(n):
            a, b, c = vs[i - 2], vs[i - 1], vs[i]
            m = (
                Q(a[0] + b[0] + c[0], 3),
                Q(a[1] + b[1] + c[1], 3),
            )
            if o.locate_in_edges(es, m) == 1:
                return m
        for i in range(n):
            for j in range(n):
                m = (Q(vs[i][0] + vs[j][0], 2), Q(vs[i][1] + vs[j][1], 2))
                if o.locate_in_edges(es, m) == 1:
                    return m
        raise ValueError(vs)

    def polygon(self, holes=None):
        return ('P', self._polygon(holes))

    def multipolygon(self, n=None):
        r = self.r
        n = n or r.choice([2, 2, 2, 3])
        while True:
            res = []
            tries = 0
            while len(res) < n and tries < 40:
                tries += 1
                p = self._polygon(
                    None if r.random() < 0.2 else 0
                )
                if all(self._apart(p, q) for q in res):
                    res.append(p)
            if len(res) >= 2:
                return ('MP', tuple(res))

    def _apart(self, p, q):
        for s in o.polygon_edges(p):
            for t in o.polygon_edges(q):
                rel = seg_rel_simple(s, t)
                if rel in ('cross', 'overlap'):
                    return False
                if rel in ('touch', 'tee') and not self.touching:
                    return False
                if rel == 'tee' and not self.tees:
                    return False
        if any(
            o.locate_in_edges(o.polygon_edges(q), v) == 1 for v in p[0]
        ) or any(o.locate_in_edges(o.polygon_edges(p), v) == 1 for v in q[0]):
            return False
        try:
            a = o.Arrangement([('P', p), ('P', q)])
        except ValueError:
            return False
        return (True, True) not in a.faces

    def of_kind(self, k):
        return {
            'E': lambda: ('E',),
            'S': self.segment,
            'C': self.contour,
            'M': self.multisegment,
            'P': self.polygon,
            'MP': self.multipolygon,
        }[k]()


def transform(g, f, flips=False):
    """Apply a point map; ``flips`` re-orients polygon rings afterwards"""
    k = g[0]

    def ring(vs, ccw):
        vs = tuple(f(v) for v in vs)
        return orient_ring(vs, ccw) if flips else vs

    if k == 'E':
        return g
    if k == 'S':
        return (k, (f(g[1][0]), f(g[1][1])))
    if k == 'C':
        return (k, tuple(f(v) for v in g[1]))
    if k == 'M':
        return (k, tuple((f(p), f(q)) for p, q in g[1]))
    if k == 'P':
        b, hs = g[1]
        return (k, (ring(b, True), tuple(ring(h, False) for h in hs)))
    return (
        k,
        tuple(
            (ring(b, True), tuple(ring(h, False) for h in hs))
            for b, hs in g[1]
        ),
    )


def swap_xy(g):
    return transform(g, lambda p: (p[1], p[0]), True)
