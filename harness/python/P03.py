"""Multilinear geometries as seen from Python."""
import itertools
import math
import harness
from cells import cell, determinant, interpolate, words
from fractions import Fraction

DIMENSIONS = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]


def matrices(cdim):
    """invertible integer matrices, one with negative determinant"""
    return {1: [[[2]], [[-1]]], 2: [[[1, 0], [0, 1]], [[1, 2], [2, -1]]],
            3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 2, 0], [0, -1, 2], [2, 0, 1]]]}[cdim]


def image(dim, cdim, word, matrix, moved):
    """corners of an affine image in which some corners are displaced"""
    corners = []
    for k, x in enumerate(cell(dim, word).corners):
        y = list(x) + [0] * (cdim - dim)
        z = [Fraction(sum(matrix[i][j] * y[j] for j in range(cdim)) + i - 1) * Fraction(11, 10) for i in range(cdim)]
        if k in moved:
            z = [c + Fraction((k + i) % 3 - 1, 7) + Fraction(1, 15) for i, c in enumerate(z)]
        corners.append(z)
    return corners


def tip(dim, word, x):
    """points where a non-affine image of a cone has no derivative"""
    s = Fraction(1)
    for k in range(dim - 1, 0, -1):
        if not (word >> k) & 1:
            s -= x[k]
            if s == 0:
                return True
    return False


def is_affine(dim, cdim, word, corners):
    own = cell(dim, word).corners
    at = {x: c for x, c in zip(own, corners)}
    origin = at[(0,) * dim]
    edges = [[a - b for a, b in zip(at[tuple(int(j == k) for j in range(dim))], origin)] for k in range(dim)]
    return all(c == [origin[i] + sum(x[k] * edges[k][i] for k in range(dim)) for i in range(cdim)] for x, c in at.items())


def gram(jac):
    return determinant([[sum(a * b for a, b in zip(r, s)) for s in jac] for r in jac])


def check(ex, geo, ml, dim, cdim, word, corners, n):
    t = geo.GeometryType("general(%d, %d)" % (word, dim))
    m = cell(dim, word)
    cls = getattr(ml, "MultiLinearGeometry_%d_%d" % (dim, cdim))
    args = [[float(c) for c in x] for x in corners]
    own = list(args)
    g = cls(t, args)
    args[0] = [77.0] * cdim         # the list still belongs to the caller
    affine = is_affine(dim, cdim, word, corners)
    tol = 1e-12
    ex.expect(g.type == t, "type %s" % g.type)
    ex.equal(g.corners, len(corners), "number of corners")
    ex.equal(g.affine, affine, "affine")
    for i, x in enumerate(own):
        ex.near(g.corner(i), x, tol, "corner %d" % i)
    ex.near(cls(corners=own, type=t).corner(0), own[0], tol, "corner of a geometry built by keywords")
    centre = m.barycentre(0, 0)
    value, jac = interpolate(dim, word, corners, centre)
    ex.near(g.center, value, tol, "center")
    if affine:
        ex.near(g.volume, math.sqrt(gram(jac)) * float(m.volume()), 1e-11, "volume")
    for x in m.lattice(n):
        value, jac = interpolate(dim, word, corners, x)
        at = [float(c) for c in x]
        ex.near(g.toGlobal(at), value, tol, "image of %s" % at)
        ex.near(g.toLocal([float(c) for c in value]), at, 1e-7, "preimage of the image of %s" % at) if not tip(dim, word, x) or affine else None
        if tip(dim, word, x) and not affine:
            continue
        ex.near(g.jacobianTransposed(at), jac, tol, "derivative at %s" % at)
        ex.near(g.integrationElement(at), math.sqrt(gram(jac)), 1e-11, "integration element at %s" % at)
        inverse = [list(r) for r in g.jacobianInverseTransposed(at)]
        ex.equal((len(inverse), len(inverse[0])), (cdim, dim), "shape of the inverse")
        for i in range(dim):
            for j in range(dim):
                ex.near(sum(float(jac[i][k]) * float(inverse[k][j]) for k in range(cdim)), float(i == j), 1e-11, "entry %d %d of derivative times inverse at %s" % (i, j, at))
        if dim < cdim:      # the columns are tangential
            gr = [[sum(a * b for a, b in zip(r, s)) for s in jac] for r in jac]
            for j in range(dim):
                c = [sum(jac[a][k] * cofactor(gr, a, j) for a in range(dim)) / determinant(gr) for k in range(cdim)]
                ex.near([r[j] for r in inverse], c, 1e-11, "column %d of the pseudo inverse at %s" % (j, at))


def cofactor(m, i, j):
    return (-1) ** (i + j) * determinant([r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i])


def main(ex, geo, ml):
    for dim, cdim in DIMENSIONS:
        for w in words(dim):
            k = len(cell(dim, w).corners)
            most = k
            n = {1: 16, 2: 8, 3: 4}[dim] * (2 if ex.thorough else 1)
            for q, a in enumerate(matrices(cdim)):
                for moved in itertools.chain.from_iterable(itertools.combinations(range(k), r) for r in range(most + 1)):
                    for other in ((0, 1) if not moved else (0,)):
                        ex.run("%d/%d in %d, matrix %d, moved %s, spelling %d" % (w, dim, cdim, q, moved, other),
                               check, ex, geo, ml, dim, cdim, w | other, image(dim, cdim, w, a, moved), n)


harness.start(main, "multilinear")
