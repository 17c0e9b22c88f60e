"""Quadrature rules as seen from Python."""
import gc
import itertools
import harness
import numpy
from cells import moment, words


def type_of(geo, dim, word, other=False):
    return geo.GeometryType("general(%d, %d)" % (word | (1 if other and dim > 0 else 0), dim))


def monomials(dim, degree):
    for p in itertools.product(range(degree + 1), repeat=dim):
        if sum(p) <= degree:
            yield p


def content(rule):
    return [([float(c) for c in q.position], float(q.weight)) for q in rule]


def consistent(ex, geo, rule, t, order, what):
    """iteration, arrays and attributes describe one rule; returns its content"""
    dim = t.dim
    ex.expect(rule.type == t, "%s: type %s" % (what, rule.type))
    ex.expect(rule.order >= order, "%s: order %s" % (what, rule.order))
    points = content(rule)
    x, w = rule.get()
    ex.equal((x.shape, w.shape), ((dim, len(points)), (len(points),)), "%s: shapes of the arrays" % what)
    ok = ex.near([[x[k][i] for k in range(dim)] for i in range(len(points))], [p for p, _ in points], 0, "%s: array of the points" % what)
    ok = ex.near(w, [w for _, w in points], 0, "%s: array of the weights" % what) and ok
    return points


def check_rule(ex, geo, dim, word, order, degree):
    t = type_of(geo, dim, word)
    rule = geo.quadratureRule(t, order)
    points = consistent(ex, geo, rule, t, order, "rule")
    ex.expect(len(points) > 0, "empty rule")
    for p in monomials(dim, min(order, degree)):
        value = sum(w * float(numpy.prod([c ** k for c, k in zip(x, p)])) for x, w in points)
        ex.near(value, moment(dim, word, p), 1e-12, "integral of %s" % (p,))
    # the same rule by every other route
    for k, r in enumerate((geo.quadratureRules(order)(t), geo.quadratureRules(order)(Element(geo, dim, word)), geo.quadratureRule(Element(geo, dim, word), order),
                           geo.quadratureRule(type_of(geo, dim, word, True), order), geo.module(dim).rule(t, order))):
        ex.near([p for p, _ in content(r)], [p for p, _ in points], 0, "points by route %d" % k)
        ex.near([w for _, w in content(r)], [w for _, w in points], 0, "weights by route %d" % k)
    # arrays belong to the caller
    x, w = rule.get()
    for a in (x, w):
        if a.flags.writeable:
            a[...] = 77
    ex.expect(content(rule) == points and content(geo.module(dim).rule(t, order)) == points, "the rule changed with the arrays handed out")
    x, w = rule.get()
    ex.near(w, [w for _, w in points], 0, "weights after writing into an array")


def check_lifetime(ex, geo, dim, word, order):
    """points, arrays and iterators may outlive every reference to the rule"""
    t = type_of(geo, dim, word)
    want = content(geo.quadratureRule(t, order))
    rule = geo.module(dim).rule(t, order)
    arrays, it, first = rule.get(), iter(rule), next(iter(rule))
    del rule
    gc.collect()
    rest = [geo.module(dim).rule(t, o) for o in range(order + 2)]   # reuse the memory
    del rest
    noise = [bytearray(b"\xff" * (8 * k)) for k in range(1, 400)]
    ex.equal(content(it), want, "points of an iterator that outlived its rule")
    ex.equal(([float(c) for c in first.position], float(first.weight)), want[0], "point that outlived its rule")
    ex.near(arrays[1], [w for _, w in want], 0, "array that outlived its rule")
    ex.equal(content(geo.module(dim).rule(t, order)), want, "points of a temporary rule")
    del noise


class Map:
    """integration element of an affine or multilinear image; also accepts arrays of points"""
    def __init__(self, kind, dim):
        self.kind, self.dim = kind, dim

    def integrationElement(self, x):
        if self.kind == 0:
            return 2.0 + 0.0 * (x[0] if self.dim else 0)
        r = 1.0
        for k in range(self.dim):
            r = r + (k + 1) * x[k]
        return r

    def polynomial(self):
        """the same as a list of (coefficient, powers)"""
        zero = (0,) * self.dim
        if self.kind == 0:
            return [(2, zero)]
        return [(1, zero)] + [(k + 1, tuple(int(j == k) for j in range(self.dim))) for k in range(self.dim)]


class Element:
    """what the grid interface hands to the integration: either with a geometry or being one"""
    def __init__(self, geo, dim, word, kind=1, nested=False, other=False):
        self.type = type_of(geo, dim, word, other)
        if nested:
            self.geometry = Map(kind, dim)
        else:
            self.integrationElement = Map(kind, dim).integrationElement
        self.map = Map(kind, dim)


def check_integral(ex, geo, dim, word, order, kind, nested):
    e = Element(geo, dim, word, kind, nested)
    degree = max(0, order - (1 if kind else 0))
    vector, exact = [], []
    for p in monomials(dim, degree if dim <= 2 else min(degree, 3)):
        if kind and order == 0:
            continue
        def f(entity, x, p=p):
            ex.expect(entity is e, "the function was handed another entity")
            r = 1.0 + 0.0 * x[0] if dim else numpy.ones(1)
            for k in range(dim):
                r = r * x[k] ** p[k]
            return r
        want = sum(c * moment(dim, word, [a + b for a, b in zip(p, q)]) for c, q in e.map.polynomial())
        got = [geo.integrate(geo.quadratureRules(order), e, f), geo.quadratureRule(e, order).apply(e, f)]
        for k, g in enumerate(got):
            ex.near(numpy.ravel(g), [want], 1e-11, "integral of %s, route %d" % (p, k))
        vector.append(f)
        exact.append(want)
    if vector:
        g = geo.integrate(geo.quadratureRules(order), e, lambda entity, x: numpy.array([f(entity, x) for f in vector]))
        ex.near(g, exact, 1e-11, "integral of a vector valued function")


def check_point(ex, geo, dim, position, weight):
    q = geo.module(dim).QuadraturePoint(list(position), weight)
    ex.near(q.position, position, 0, "position")
    ex.near(q.weight, weight, 0, "weight")
    q = geo.module(dim).QuadraturePoint(weight=weight, position=list(position))
    ex.near(q.position, position, 0, "position by keyword")
    ex.near(q.weight, weight, 0, "weight by keyword")


def check_limit(ex, geo, dim, word):
    t = type_of(geo, dim, word)
    for order in (1000, 100000, 2 ** 31 - 1):
        def f():
            return geo.quadratureRule(t, order)
        ex.refused(Exception, f, "order %d" % order)
    ex.expect(len(content(geo.quadratureRule(t, 2))) > 0, "no rule after a refused request")


def check_history(ex, geo, requests, first, history):
    """a history of requests in a fresh table of rules: every answer as if it had come first"""
    harness.forget(geo, "_duneQuadratureRules")
    answers = []
    for k in history:
        t, order, route = requests[k]
        r = geo.quadratureRule(t, order) if route == 0 else geo.quadratureRules(order)(t)
        got = content(r)
        ex.equal(got, first[k], "request %s of history %s" % (len(answers), history))
        ex.expect(r.type == (t.type if route == 1 and hasattr(t, "type") else t), "type of request %s of history %s" % (len(answers), history))
        ex.expect(hasattr(r, "apply"), "no apply")
        answers.append((r, got))
    for r, got in answers:
        ex.expect(content(r) == got, "a rule handed out before has changed")


def main(ex, geo):
    top = [2, 61, 60, 40, 8] if ex.thorough else [2, 61, 40, 20, 5]
    monomial = [0, 61, 30, 10, 5] if ex.thorough else [0, 61, 20, 8, 3]
    for dim in range(5):
        for w in words(dim):
            for order in range(top[dim] + 1):
                ex.run("rule %d/%d order %d" % (w, dim, order), check_rule, ex, geo, dim, w, order, monomial[dim])
            for order in range(min(6, top[dim]) + 1):
                ex.run("lifetime %d/%d order %d" % (w, dim, order), check_lifetime, ex, geo, dim, w, order)
                for kind in (0, 1):
                    for nested in (False, True):
                        ex.run("integral %d/%d order %d map %d %d" % (w, dim, order, kind, nested), check_integral, ex, geo, dim, w, order, kind, nested)
            if dim > 0:
                ex.run("limit %d/%d" % (w, dim), check_limit, ex, geo, dim, w)
        for position in itertools.product((0.0, 0.25, -3.5), repeat=dim):
            for weight in (0.0, 1.5, -2.0):
                ex.run("point %s %s" % (position, weight), check_point, ex, geo, dim, position, weight)
    requests = [(geo.line, 1, 0), (geo.line, 2, 0), (geo.triangle, 2, 0), (geo.triangle, 3, 1), (geo.quadrilateral, 2, 0), (geo.GeometryType("general(3,2)"), 2, 1),
                (geo.prism, 2, 0), (geo.pyramid, 2, 1), (geo.pyramid, 3, 0), (geo.vertex, 1, 0), (geo.cube(4), 1, 0), (geo.GeometryType("general(10,4)"), 2, 0)]
    first = [content(geo.module(t.dim).rule(t, order)) for t, order, route in requests]
    for n in range(1, 5):
        for h in itertools.product(range(len(requests)), repeat=n):
            ex.run("history %s" % (h,), check_history, ex, geo, requests, first, h)


harness.start(main)
