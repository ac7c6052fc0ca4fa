"""Well-formedness (the preconditions) of neutral geometries in cases."""

from itertools import combinations

from . import gen, oracle as o

KINDS = {'E', 'S', 'C', 'M', 'P', 'MP'}


def is_geometry(g):
    return (
        isinstance(g, tuple)
        and bool(g)
        and isinstance(g[0], str)
        and g[0] in KINDS
    )


def _polygon(p):
    if len(p) != 2 or not all(map(gen.ring_is_simple, (p[0], *p[1]))):
        return False
    g = gen.Gen(None, touching=True, tees=True)
    border = gen.orient_ring(p[0])
    hs = []
    for h in p[1]:
        if not g._hole_ok(border, hs, h):
            return False
        hs.append(h)
    return True


def _points_ok(g):
    return all(len(p) == 2 and len(q) == 2 for p, q in o.edges_of(g))


def valid(g):
    k = g[0]
    try:
        if k == 'E':
            return len(g) == 1
        if len(g) != 2:
            return False
        if k == 'S':
            return len(g[1]) == 2 and g[1][0] != g[1][1] and _points_ok(g)
        if k == 'C':
            return len(g[1]) >= 3 and gen.ring_is_simple(g[1])
        if k == 'M':
            return (
                len(g[1]) >= 2
                and _points_ok(g)
                and all(s[0] != s[1] for s in g[1])
                and all(
                    gen.seg_rel_simple(s, t) in (None, 'touch')
                    for s, t in combinations(g[1], 2)
                )
            )
        if k == 'P':
            return _polygon(g[1])
        gg = gen.Gen(None, touching=True, tees=True)
        return (
            len(g[1]) >= 2
            and all(_polygon(p) for p in g[1])
            and all(gg._apart(p, q) for p, q in combinations(g[1], 2))
        )
    except (ValueError, IndexError, TypeError, ZeroDivisionError):
        return False


def is_case(case, like=None):
    """A tuple made of geometries and scalars, every geometry valid"""
    parts = (case,) if is_geometry(case) else case
    if not isinstance(parts, tuple):
        return False
    if not any(is_geometry(p) for p in parts):
        return False
    if like is not None:
        ref = (like,) if is_geometry(like) else like
        if len(ref) != len(parts):
            return False
        for r, p in zip(ref, parts):
            if is_geometry(r) != is_geometry(p) or (
                is_geometry(r) and r[0] != p[0]
            ):
                return False
            if not is_geometry(r) and r != p:
                return False
        tees = any(_tee(r) for r in ref if is_geometry(r))
        if not tees and any(_tee(p) for p in parts if is_geometry(p)):
            return False
    return all(valid(p) for p in parts if is_geometry(p))


def _tee(g):
    from .cases import has_tee

    return has_tee(g)
