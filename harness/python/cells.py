"""Reference model of the cells: the counterpart of model.hh (explicit vertex lists, no index arithmetic)."""
import functools
import itertools
from fractions import Fraction

NAMED = {"vertex": (0, 0), "line": (1, 0), "triangle": (2, 0), "quadrilateral": (2, 2), "tetrahedron": (3, 0),
         "pyramid": (3, 2), "prism": (3, 4), "hexahedron": (3, 6)}


def canonical(dim, word):
    return word & ~1 & ((1 << dim) - 1)


class Cell:
    """corners: 0/1 coordinates; faces[c]: list of (dim, word, vertex numbers)"""

    def __init__(self, dim, word):
        self.dim, self.word = dim, word
        self.faces = [[] for _ in range(dim + 1)]
        if dim == 0:
            self.corners = [()]
            self.faces[0].append((0, 0, (0,)))
            return
        b = cell(dim - 1, word & ((1 << (dim - 1)) - 1))
        n = len(b.corners)
        prism = dim > 1 and (word >> (dim - 1)) & 1
        if prism:
            self.corners = [x + (0,) for x in b.corners] + [x + (1,) for x in b.corners]
        else:
            self.corners = [x + (0,) for x in b.corners] + [(0,) * (dim - 1) + (1,)]
        for k in range(dim + 1):
            f = self.faces[k]
            if prism:
                if k < dim:
                    f += [(d + 1, w | (1 << d), v + tuple(i + n for i in v)) for d, w, v in b.faces[k]]
                if k >= 1:
                    f += b.faces[k - 1]
                    f += [(d, w, tuple(i + n for i in v)) for d, w, v in b.faces[k - 1]]
            else:
                if k >= 1:
                    f += b.faces[k - 1]
                if k < dim:
                    f += [(d + 1, w, v + (n,)) for d, w, v in b.faces[k]]
                else:
                    f.append((0, 0, (n,)))

    def size(self, c):
        return len(self.faces[c])

    def subentities(self, i, c, cc):
        """numbers of the codimension cc faces of face (i, c), in the order of that face's own cell"""
        d, w, v = self.faces[c][i]
        r = []
        for _, _, lv in cell(d, w).faces[cc - c]:
            vs = frozenset(v[j] for j in lv)
            r.append(next(k for k, f in enumerate(self.faces[cc]) if frozenset(f[2]) == vs))
        return r

    def barycentre(self, i, c):
        v = self.faces[c][i][2]
        return [sum(Fraction(self.corners[j][k]) for j in v) / len(v) for k in range(self.dim)]

    def volume(self):
        r = Fraction(1)
        for k in range(self.dim):
            if not (self.word >> k) & 1:
                r /= k + 1
        return r

    def normal(self, i):
        """outer normal whose length is the measure of the facet relative to its own reference cell"""
        d, w, v = self.faces[1][i]
        own = cell(d, w).corners
        at = {x: self.corners[v[j]] for j, x in enumerate(own)}
        origin = at[(0,) * d]
        edges = []
        for k in range(d):
            e = at[tuple(int(j == k) for j in range(d))]
            edges.append([a - b for a, b in zip(e, origin)])
        n = []
        for k in range(self.dim):
            n.append(determinant([[int(j == k) for j in range(self.dim)]] + edges))
        inner = self.barycentre(0, 0)
        if sum(a * (b - c) for a, b, c in zip(n, origin, inner)) < 0:
            n = [-a for a in n]
        return n

    def inside(self, x, s=1):
        for k in range(self.dim - 1, -1, -1):
            if x[k] < 0 or x[k] > s:
                return False
            if k > 0 and not (self.word >> k) & 1:
                s -= x[k]
        return True

    def lattice(self, n):
        return [tuple(Fraction(k, n) for k in x) for x in itertools.product(range(n + 1), repeat=self.dim)
                if self.inside(x, n)]


@functools.lru_cache(None)
def _cell(dim, word):
    return Cell(dim, word)


def cell(dim, word):
    return _cell(dim, canonical(dim, word))


def words(dim):
    return [w for w in range(1 << dim) if w == canonical(dim, w)]


def determinant(m):
    n = len(m)
    if n == 0:
        return 1
    return sum((-1) ** j * m[0][j] * determinant([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n) if m[0][j])


def moment(dim, word, powers):
    """exact integral of a monomial over the cell"""
    r, s = Fraction(1), 0
    for k in range(dim):
        p = powers[k]
        if k == 0 or (word >> k) & 1:
            f = Fraction(1, p + 1)
            s_new = s + p
            if k == 0:
                s_new = p
        else:
            # int z^p (1-z)^(s+k) dz, s the degree of the factors below, k their dimension
            q = s + k
            f = Fraction(1)
            for j in range(1, q + 1):
                f *= Fraction(j, p + j)
            f /= p + q + 1
            s_new = s + p
        r *= f
        s = s_new
    return r


def interpolate(dim, word, corners, x):
    """corner interpolating map: value and derivative rows d/dx_k"""
    n = len(corners[0])
    if dim == 0:
        return list(corners[0]), []
    below = word & ((1 << (dim - 1)) - 1)
    nb = len(cell(dim - 1, below).corners)
    z = x[dim - 1]
    if dim == 1 or (word >> (dim - 1)) & 1:
        a, da = interpolate(dim - 1, below, corners[:nb], x[:-1])
        b, db = interpolate(dim - 1, below, corners[nb:], x[:-1])
        value = [(1 - z) * p + z * q for p, q in zip(a, b)]
        jac = [[(1 - z) * p + z * q for p, q in zip(r, s)] for r, s in zip(da, db)] + [[q - p for p, q in zip(a, b)]]
        return value, jac
    u = [c / (1 - z) if z != 1 else Fraction(0) for c in x[:-1]]
    a, da = interpolate(dim - 1, below, corners[:nb], u)
    tip = corners[nb]
    value = [(1 - z) * p + z * q for p, q in zip(a, tip)]
    dz = [tip[i] - a[i] + sum(da[k][i] * u[k] for k in range(dim - 1)) for i in range(n)]
    return value, da + [dz]
