"""Geometry types and reference elements as seen from Python."""
import itertools
import harness
from cells import NAMED, canonical, cell, words


class Entity:
    """anything with an attribute 'type'"""
    def __init__(self, type):
        self.type = type


def predicates(dim, word):
    simplex = word == 0
    cube = word == canonical(dim, (1 << dim) - 1)
    r = {"isSimplex": simplex, "isCube": cube, "isNone": False, "isVertex": dim == 0, "isLine": dim == 1}
    for name in ("triangle", "quadrilateral", "tetrahedron", "pyramid", "prism", "hexahedron"):
        r["is" + name.capitalize()] = (dim, word) == NAMED[name]
    return r


def routes(geo, dim, word):
    """all ways to obtain a type in Python"""
    r = []
    for w in sorted({word, word | 1} if dim > 0 else {word}):
        r.append(geo.GeometryType("general(%d, %d)" % (w, dim)))
        r.append(geo.GeometryType("general( %d,%d )" % (w, dim)))
    if word == 0:
        r += [geo.simplex(dim), geo.GeometryType("simplex(%d)" % dim)]
    if word == canonical(dim, (1 << dim) - 1):
        r += [geo.cube(dim), geo.GeometryType("cube(%d)" % dim)]
    for name, t in NAMED.items():
        if t == (dim, word):
            r += [getattr(geo, name), geo.GeometryType(name)]
    return r


def nones(geo, dim):
    return [geo.none(dim), geo.GeometryType("none(%d)" % dim), geo.GeometryType("none( %d )" % dim)]


def check_type(ex, geo, dim, word):
    for t in routes(geo, dim, word):
        ex.equal(t.dim, dim, "dim")
        ex.equal(t.dimension, dim, "dimension")
        for name, value in predicates(dim, word).items():
            ex.equal(getattr(t, name), value, name)
        back = geo.GeometryType(str(t))
        ex.expect(back == t and not back != t and hash(back) == hash(t), "%s does not read back" % t)


def check_none(ex, geo, dim):
    for t in nones(geo, dim):
        ex.equal(t.dim, dim, "dim")
        ex.equal(t.isNone, True, "isNone")
        ex.equal(t.isSimplex or t.isCube or t.isTriangle or t.isQuadrilateral or t.isTetrahedron or t.isPyramid
                 or t.isPrism or t.isHexahedron, False, "shape of none")
        ex.expect(geo.GeometryType(str(t)) == t, "%s does not read back" % t)


def check_pairs(ex, geo, a, types):
    """equality, hashes and use as key, against all other types"""
    for b, route in types.items():
        for s in types[a]:
            table = {s: "here"}
            for t in route:
                ex.equal(s == t, a == b, "%s == %s" % (s, t))
                ex.equal(s != t, a != b, "%s != %s" % (s, t))
                ex.equal(table.get(t), "here" if a == b else None, "looking %s up where %s is stored" % (t, s))
                if a == b:
                    ex.equal(hash(s), hash(t), "hash of %s" % (s,))


def is_type(geo, t, dim, word):
    return t == geo.GeometryType("general(%d, %d)" % (word, dim))


def check_element(ex, geo, ref, dim, word, errors=True):
    m = cell(dim, word)
    tol = 1e-14
    ex.equal(ref.dimension, dim, "dimension")
    ex.near(ref.volume, m.volume(), tol, "volume")
    ex.near(ref.center, m.barycentre(0, 0), tol, "center")
    ex.near(ref.corners, m.corners, tol, "corners")
    ex.expect(isinstance(ref.corners, tuple), "corners is no tuple")
    for c in range(dim + 1):
        n = m.size(c)
        ex.equal(ref.size(c), n, "size(%d)" % c)
        ex.equal(ref.size(codim=c), n, "size(codim=%d)" % c)
        types, positions = ref.types(codim=c), ref.positions(codim=c)
        ex.equal((len(types), len(positions)), (n, n), "number of types and positions of codimension %d" % c)
        for i, (d, w, v) in enumerate(m.faces[c]):
            at = "(%d, %d)" % (i, c)
            for t in (types[i], ref.type(i, c), ref.type((i, c)), ref.type(codim=c, index=i), ref.type(subentity=(i, c))):
                ex.expect(is_type(geo, t, d, w), "type of %s is %s" % (at, t))
            b = m.barycentre(i, c)
            for x in (positions[i], ref.position(i, c), ref.position((i, c)), ref.position(codim=c, index=i), ref.position(subentity=(i, c))):
                ex.near(x, b, tol, "position of %s" % at)
            for cc in range(c, dim + 1):
                sub = m.subentities(i, c, cc)
                ex.equal(ref.size(i, c, cc), len(sub), "size%s of codimension %d" % (at, cc))
                ex.equal(ref.size((i, c), cc), len(sub), "size(%s, %d)" % (at, cc))
                ex.equal(ref.size(codim=cc, subentity=(i, c)), len(sub), "size(codim=%d, subentity=%s)" % (cc, at))
                ex.equal(ref.subEntities(i, c, cc), tuple(sub), "subEntities%s of codimension %d" % (at, cc))
                ex.equal(ref.subEntities((i, c), cc), tuple(sub), "subEntities(%s, %d)" % (at, cc))
                ex.equal(ref.subEntities(codim=cc, subentity=(i, c)), tuple(sub), "subEntities(codim=%d, subentity=%s)" % (cc, at))
                for ii, k in enumerate(sub):
                    ex.equal(ref.subEntity(i, c, ii, cc), k, "subEntity%s, %d, %d" % (at, ii, cc))
                    ex.equal(ref.subEntity((i, c), (ii, cc)), k, "subEntity(%s, (%d, %d))" % (at, ii, cc))
    if dim > 0:
        normals = ref.integrationOuterNormals
        ex.equal(len(normals), m.size(1), "number of outer normals")
        for i in range(m.size(1)):
            ex.near(ref.integrationOuterNormal(index=i), m.normal(i), 1e-13, "outer normal of facet %d" % i)
            ex.near(normals[i], m.normal(i), 1e-13, "entry %d of the outer normals" % i)
    if errors:
        check_errors(ex, ref, m)


def check_errors(ex, ref, m):
    """every argument one or two steps out of range is refused"""
    dim = m.dim
    bad = ValueError
    codims = list(range(-2, dim + 3))
    for c in codims:
        if not 0 <= c <= dim:
            for f in (ref.size, ref.types, ref.positions):
                ex.refused(bad, lambda: f(c), "codimension %d" % c)
        n = m.size(c) if 0 <= c <= dim else 1
        for i in [-2, -1] + list(range(n)) + [n, n + 1]:
            valid = 0 <= c <= dim and 0 <= i < n
            if not valid:
                for f in (ref.type, ref.position):
                    ex.refused(bad, lambda: f(i, c), "(%d, %d)" % (i, c))
                    ex.refused(bad, lambda: f((i, c)), "((%d, %d))" % (i, c))
            for cc in codims:
                inner = valid and c <= cc <= dim
                if not inner:
                    ex.refused(bad, lambda: ref.size(i, c, cc), "size(%d, %d, %d)" % (i, c, cc))
                    ex.refused(bad, lambda: ref.size((i, c), cc), "size((%d, %d), %d)" % (i, c, cc))
                    ex.refused(bad, lambda: ref.subEntities(i, c, cc), "subEntities(%d, %d, %d)" % (i, c, cc))
                    ex.refused(bad, lambda: ref.subEntities((i, c), cc), "subEntities((%d, %d), %d)" % (i, c, cc))
                k = len(m.subentities(i, c, cc)) if inner else 1
                for ii in [-2, -1, k, k + 1] if inner else [0]:
                    ex.refused(bad, lambda: ref.subEntity(i, c, ii, cc), "subEntity(%d, %d, %d, %d)" % (i, c, ii, cc))
                    ex.refused(bad, lambda: ref.subEntity((i, c), (ii, cc)), "subEntity((%d, %d), (%d, %d))" % (i, c, ii, cc))
    if dim > 0:
        n = m.size(1)
        for i in (-2, -1, n, n + 1):
            ex.refused(bad, lambda: ref.integrationOuterNormal(i), "outer normal %d" % i)


def brief(ref):
    """what identifies a reference element"""
    if ref is None:
        return None
    d = ref.dimension
    return (d, ref.size(d), tuple(tuple(float(x) for x in c) for c in ref.corners), ref.volume)


def expected(t):
    if t is None:
        return None
    m = cell(*t)
    return (m.dim, len(m.corners), tuple(tuple(float(x) for x in c) for c in m.corners), float(m.volume()))


def check_history(ex, geo, requests, history):
    """a history of requests in a fresh table of elements: every answer as if it had come first"""
    harness.forget(geo._referenceelements, "_duneReferenceElements")
    answers = []
    for k in history:
        make, t = requests[k]
        ref = geo.referenceElement(make(geo))
        got = brief(ref)
        ex.transitions += 1
        if got is None or t is None:
            ok = got is t is None
        else:
            want = expected(t)
            ok = got[:3] == want[:3] and abs(got[3] - want[3]) <= 1e-14
        if not ok:
            ex.fail("request %d of %s: got %s, model %s" % (len(answers), history, got, expected(t)))
        answers.append((ref, got))
        ex.outcome(got)
    for ref, got in answers:
        ex.expect(brief(ref) == got, "an element handed out before has changed")


def main(ex, geo):
    top = 12 if ex.thorough else 10
    for d in range(top + 1):
        for w in words(d):
            ex.run("type %d/%d" % (w, d), check_type, ex, geo, d, w)
        ex.run("none/%d" % d, check_none, ex, geo, d)
    top = 8 if ex.thorough else 7
    types = {(d, w): routes(geo, d, w) for d in range(top + 1) for w in words(d)}
    types.update({(d, None): nones(geo, d) for d in range(top + 1)})
    for a in types:
        ex.run("pairs with %s" % (a,), check_pairs, ex, geo, a, types)
    for d in range(5):
        for w in words(d):
            for k, t in enumerate(routes(geo, d, w)):
                ex.run("element %d/%d route %d" % (w, d, k), lambda: check_element(ex, geo, geo.referenceElement(t), d, w, k == 0))
            ex.run("element of an entity %d/%d" % (w, d), lambda: check_element(ex, geo, geo.referenceElement(Entity(routes(geo, d, w)[0])), d, w, False))
        ex.run("element of none/%d" % d, lambda: ex.expect(geo.referenceElement(geo.none(d)) is None, "there is an element for none(%d)" % d))
    requests = [(lambda g, s=s: g.GeometryType(s), t) for s, t in
                [("vertex", (0, 0)), ("line", (1, 0)), ("triangle", (2, 0)), ("quadrilateral", (2, 2)), ("general(3,2)", (2, 2)),
                 ("none(2)", None), ("pyramid", (3, 2)), ("prism", (3, 4)), ("general(5, 3)", (3, 4)), ("none(3)", None),
                 ("simplex(4)", (4, 0)), ("general(10,4)", (4, 10)), ("cube(4)", (4, 14))]]
    requests += [(lambda g: Entity(g.prism), (3, 4)), (lambda g: Entity(g.cube(2)), (2, 2)), (lambda g: Entity(g.none(1)), None)]
    for n in range(1, 5):
        for h in itertools.product(range(len(requests)), repeat=n):
            ex.run("history %s" % (h,), check_history, ex, geo, requests, h)
    if ex.thorough:
        for h in itertools.product(range(2, 12), repeat=5):
            ex.run("history %s" % (h,), check_history, ex, geo, requests, h)


harness.start(main)
