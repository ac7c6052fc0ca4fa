"""Planar arrangement over symbolic coordinates.

Same interface as :class:`vf.oracle.Arrangement`, but every decision is a sign
of an orientation-like polynomial of the input, so that the oracle splits the
input space along (nearly) the same surfaces as a sweep does.
"""

from fractions import Fraction as Q


class SymbolicArrangement:
    def __init__(self, geometries):
        from . import oracle as o

        self.gs = gs = list(geometries)
        n = len(gs)
        self.segs = segs = [
            (e[0], e[1], i) for i, g in enumerate(gs) for e in o.edges_of(g)
        ]
        k = len(segs)
        self.parent = []
        self.points = []
        # orient every segment along its main axis
        self.axis = []
        self.lists = []
        norm = []
        for p, q, i in segs:
            if p[0] == q[0]:
                axis = 1
                if q[1] < p[1]:
                    p, q = q, p
            else:
                axis = 0
                if q[0] < p[0]:
                    p, q = q, p
            self.axis.append(axis)
            norm.append((p, q, i))
        self.segs = segs = norm
        ends = {}
        for s, (p, q, i) in enumerate(segs):
            ids = []
            for pt in (p, q):
                # vertices shared by identity of coordinates (rings)
                key = tuple(id(v) for v in pt)
                if key not in ends:
                    ends[key] = self._new(pt)
                ids.append(ends[key])
            self.lists.append(ids)
        for i in range(k):
            for j in range(i + 1, k):
                self._meet(i, j)
        pieces = {}
        for s in range(k):
            ids = self._dedupe(self.lists[s])
            for a, b in zip(ids, ids[1:]):
                key = (a, b) if a < b else (b, a)
                rec = pieces.setdefault(key, ([0] * n, a, b, s, set()))
                rec[0][segs[s][2]] += 1
                rec[4].add(s)
        self.faces = {(False,) * n}
        self.edges = []
        shaped = [g[0] in o.SHAPED for g in gs]
        for (on, a, b, s, members) in pieces.values():
            pa, pb = self.points[a], self.points[b]
            mid = ((pa[0] + pb[0]) * Q(1, 2), (pa[1] + pb[1]) * Q(1, 2))
            side0 = []
            side1 = []
            for g in range(n):
                if not shaped[g]:
                    side0.append(False)
                    side1.append(False)
                    continue
                up = self._parity(pa, pb, self.axis[s], g, members)
                side1.append(up)
                side0.append(up != (on[g] % 2 == 1))
            side0, side1 = tuple(side0), tuple(side1)
            self.edges.append((mid, tuple(on), side0, side1))
            self.faces.add(side0)
            self.faces.add(side1)
        self.vertices = [
            self.points[r]
            for r in sorted({self._find(i) for i in range(len(self.points))})
        ]

    @staticmethod
    def unshear(p):
        return p

    def _new(self, p):
        self.points.append(p)
        self.parent.append(len(self.parent))
        return len(self.parent) - 1

    def _find(self, i):
        while self.parent[i] != i:
            i = self.parent[i]
        return i

    def _dedupe(self, ids):
        res = []
        for i in ids:
            i = self._find(i)
            if not res or res[-1] != i:
                res.append(i)
        return res

    def _insert(self, s, i):
        """Put a point of a segment into its place along the segment"""
        ids = self.lists[s]
        i = self._find(i)
        ax = self.axis[s]
        v = self.points[i][ax]
        for k, j in enumerate(ids):
            j = self._find(j)
            if i == j:
                return
            w = self.points[j][ax]
            if v < w:
                ids.insert(k, i)
                return
            if v == w:
                a, b = (i, j) if i < j else (j, i)
                self.parent[b] = a
                return
        ids.append(i)

    def _meet(self, i, j):
        (a, b, _), (c, d, _) = self.segs[i], self.segs[j]
        ia, ib = self.lists[i][0], self.lists[i][-1]
        ic, id_ = self.lists[j][0], self.lists[j][-1]
        ia, ib, ic, id_ = map(self._find, (ia, ib, ic, id_))
        d1x, d1y = b[0] - a[0], b[1] - a[1]
        d2x, d2y = d[0] - c[0], d[1] - c[1]
        den = d1x * d2y - d1y * d2x
        if {ia, ib} & {ic, id_}:
            # neighbours in a ring: common end point, maybe overlapping
            if len({ia, ib, ic, id_}) == 2 or den == 0:
                self._collinear(i, j)
            return
        if den == 0:
            if self._cross(a, b, c) == 0:
                self._collinear(i, j)
            return
        # signed areas of c, d against ab and of a, b against cd
        sc, sd = self._cross(a, b, c), self._cross(a, b, d)
        zc, zd = self._sign(sc), self._sign(sd)
        if zc * zd > 0:
            return
        sa, sb = self._cross(c, d, a), self._cross(c, d, b)
        za, zb = self._sign(sa), self._sign(sb)
        if za * zb > 0:
            return
        if zc == 0 and (za == 0 or zb == 0):
            e = ia if za == 0 else ib
            self._union(e, ic)
            self._insert(i, ic)
            self._insert(j, e)
        elif zd == 0 and (za == 0 or zb == 0):
            e = ia if za == 0 else ib
            self._union(e, id_)
            self._insert(i, id_)
            self._insert(j, e)
        elif zc == 0:
            self._insert(i, ic)
        elif zd == 0:
            self._insert(i, id_)
        elif za == 0:
            self._insert(j, ia)
        elif zb == 0:
            self._insert(j, ib)
        else:
            u = (Q(sa) if isinstance(sa, int) else sa) / (sa - sb)
            p = self._new((a[0] + d1x * u, a[1] + d1y * u))
            self._insert(i, p)
            self._insert(j, p)

    def _union(self, i, j):
        i, j = self._find(i), self._find(j)
        if i != j:
            self.parent[max(i, j)] = min(i, j)

    def _collinear(self, i, j):
        ax = self.axis[i]
        for s, t in ((i, j), (j, i)):
            lo = self.points[self._find(self.lists[s][0])]
            hi = self.points[self._find(self.lists[s][-1])]
            for e in (self.lists[t][0], self.lists[t][-1]):
                p = self.points[self._find(e)]
                if lo[ax] <= p[ax] and p[ax] <= hi[ax]:
                    self._insert(s, e)

    @staticmethod
    def _cross(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    @staticmethod
    def _sign(v):
        return (v > 0) - (v < 0)

    def _parity(self, a, b, axis, g, members):
        """Is the side of piece ab towards greater values inside of g?

        Looks from the point right after ``a`` along the piece in the
        direction of growth of the other coordinate.
        """
        u, v = axis, 1 - axis
        inside = False
        for s, (p, q, i) in enumerate(self.segs):
            if i != g or s in members:
                continue
            if self.axis[s] != axis and axis == 0:
                continue  # vertical edge against a vertical line
            lo, hi = p, q
            if axis == 1:
                if p[1] == q[1]:
                    continue
                if p[1] > q[1]:
                    lo, hi = q, p
            if not lo[u] <= a[u] or not a[u] < hi[u]:
                continue
            c = (hi[u] - lo[u]) * (a[v] - lo[v]) - (hi[v] - lo[v]) * (
                a[u] - lo[u]
            )
            c = self._sign(c)  # > 0: point is beyond the edge
            if c == 0:
                c = self._sign(
                    (hi[u] - lo[u]) * (b[v] - a[v])
                    - (hi[v] - lo[v]) * (b[u] - a[u])
                )
            if c < 0:
                inside = not inside
        return inside
