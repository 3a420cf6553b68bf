"""Reference renderer shared by P08 and P10.

Computes, by inclusion-exclusion over exactly clipped polygons, which part of
each cell of each component grid is covered by the last of a list of shapes.
"""
import itertools

import numpy as np


def cells(edges, comp, periodic=(False,) * 3):
    """Cell boundaries [(lo, hi)...] along each axis of a component grid.

    The value of component `comp` sits at the Yee position of E (shifted by
    half a cell along its own axis) and stands for the box around it: bounded
    by the grid lines along its own axis, and by the cell centres otherwise.
    """
    out = []
    for a in range(3):
        e = edges[a]
        d = [e[i + 1] - e[i] for i in range(len(e) - 1)]
        if a == comp:
            out.append([(e[i], e[i + 1]) for i in range(len(d))])
        else:
            ghost = d[0] if periodic[a] else d[-1]
            lo = [e[0] - ghost / 2] + [e[i] + d[i] / 2 for i in range(len(d))]
            out.append([(lo[i], lo[i + 1]) for i in range(len(d))])
    return out


def clip_convex(subject, clip):
    """Sutherland-Hodgman clip of a polygon by a convex one."""
    s = 0
    for i in range(len(clip)):
        a, b = clip[i - 1], clip[i]
        s += a[0] * b[1] - b[0] * a[1]
    if s < 0:
        clip = clip[::-1]
    p = subject
    for i in range(len(clip)):
        a, b = clip[i - 1], clip[i]
        ex, ey = b[0] - a[0], b[1] - a[1]
        if ex == 0 and ey == 0:
            continue
        out = []
        for k in range(len(p)):
            u, v = p[k - 1], p[k]
            fu = ex * (u[1] - a[1]) - ey * (u[0] - a[0])
            fv = ex * (v[1] - a[1]) - ey * (v[0] - a[0])
            if (fu >= 0) != (fv >= 0):
                t = fu / (fu - fv)
                out.append((u[0] + t * (v[0] - u[0]), u[1] + t * (v[1] - u[1])))
            if fv >= 0:
                out.append(v)
        p = out
        if not p:
            return []
    return p


def area(p):
    s = 0
    for i in range(len(p)):
        s += p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1]
    return abs(s) / 2


def rect(x0, x1, y0, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


class Shape:
    """A polygon extruded along ext, with one value per component."""

    def __init__(self, poly, z, eps, convex=True, box=None):
        self.poly, self.z, self.convex, self.box = poly, z, convex, box
        self.eps = list(eps) if isinstance(eps, (list, tuple)) else [eps] * 3


def box_shape(ext, lo, hi, eps):
    pl = [a for a in range(3) if a != ext]
    return Shape(rect(lo[pl[0]], hi[pl[0]], lo[pl[1]], hi[pl[1]]),
                 (lo[ext], hi[ext]), eps, box=(lo, hi))


def overlap(shapes, ext, cell):
    """Volume of the intersection of the shapes and the cell / cell volume."""
    if all(s.box is not None for s in shapes):
        # Only boxes: the intersection is a box.
        v = 1
        for a in range(3):
            lo = max([cell[a][0]] + [s.box[0][a] for s in shapes])
            hi = min([cell[a][1]] + [s.box[1][a] for s in shapes])
            if hi <= lo:
                return 0
            v *= (hi - lo) / (cell[a][1] - cell[a][0])
        return v
    pl = [a for a in range(3) if a != ext]
    z0 = max([cell[ext][0]] + [s.z[0] for s in shapes])
    z1 = min([cell[ext][1]] + [s.z[1] for s in shapes])
    if z1 <= z0:
        return 0
    order = sorted(shapes, key=lambda s: s.convex)
    p = order[0].poly
    for s in order[1:]:
        p = clip_convex(p, s.poly)
        if not p:
            return 0
    (x0, x1), (y0, y1) = cell[pl[0]], cell[pl[1]]
    p = clip_convex(p, rect(x0, x1, y0, y1))
    if not p:
        return 0
    return (area(p) / ((x1 - x0) * (y1 - y0)) * (z1 - z0) /
            (cell[ext][1] - cell[ext][0]))


def reference(edges, ext, shapes, initial, periodic=(False,) * 3):
    n = [len(e) - 1 for e in edges]
    out = np.zeros([3] + n, dtype=complex)
    for c in range(3):
        cs = cells(edges, c, periodic)
        for idx in itertools.product(*[range(k) for k in n]):
            cell = [cs[a][idx[a]] for a in range(3)]
            val = 0
            covered = 0
            # What is visible of shape i is what no later shape overlaps.
            for i, s in enumerate(shapes):
                vis = 0
                later = shapes[i + 1:]
                base = overlap([s], ext, cell)
                if base == 0:
                    continue
                for r in range(len(later) + 1):
                    for sub in itertools.combinations(later, r):
                        vis += (-1)**r * overlap([s] + list(sub), ext, cell)
                val += s.eps[c] * vis
                covered += vis
            out[(c,) + idx] = val + initial[c][idx] * (1 - covered)
    return out
