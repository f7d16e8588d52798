"""C23: Gaussian mixture rankings against closed form mixtures of separated clusters, over labellings, batches and histories."""
import itertools
import math

import numpy
from diamondback import GaussianMixtureModel

from mc.checks.c22 import INTEGERS, TYPES, agree, extremes, points, ranks, sharp
from mc.core import Out, Violation
from mc.util import compositions, cut, generic, need, rejects, same

ID, LEVEL = "C23", "model_checking"
RULE = (
    "case = one distribution per class: every labelling of the points; several separated clusters per class: every assignment of clusters to classes of the bound; or every sequence of fits, predictions, changes of parameters and failing fits. "
    "State = (labelled points, order, regularisation). Nontrivial: more than one class."
)
ASSUMPTIONS = [
    "the generator of the expectation maximisation is seeded by the check, so that runs are repeatable",
    "scores within 1e-6 relative, or below 1e-280, may be ranked either way",
    "clusters are separated by at least 30 standard deviations, so that the mixture is known in closed form",
]
OPS = ["a", "b", "c", "few", "type", "len", "reg", "index", "badreg", "badindex"]


def cases(tier, seed):
    quick = tier == "quick"
    for dim in (1, 2, 3):
        for reg in (0.1, 1e-3, 2.0):
            for n in (4, 5, 6) if quick else (4, 5, 6, 7):
                for first in (0, 1):
                    yield dict(k="one", dim=dim, reg=reg, n=n, first=first, seed=seed)
        for order in (2, 3, 4):
            for reg in (0.01, 0.1, 1.0):
                for sizes in ((3, 6), (5, 5), (9, 4)):
                    yield dict(k="many", dim=dim, order=order, reg=reg, sizes=list(sizes), seed=seed)
    for head in itertools.product(range(len(OPS)), repeat=2):
        yield dict(k="ops", head=list(head), depth=4 if quick else 5, seed=seed)
    for t in INTEGERS:
        yield dict(k="extreme", type=t, seed=seed)
    for dim in (1, 2, 3):
        for n, c in ((60, 3), (130, 2)):
            for reg in (0.1, 1.0):
                yield dict(k="big", dim=(5, 8, 17)[dim - 1], reg=reg, n=n, c=c, seed=seed)
        for few, most in ((2, 60), (2, 200), (4, 96), (3, 500), (10, 10)):
            for reg in (0.01, 0.5):
                yield dict(k="rare", dim=dim, few=few, most=most, reg=reg, seed=seed)
        for offset in (1e3, -1e5, 1e6):
            for scale in (1.0, 1024.0, 1.0 / 1024.0):
                yield dict(k="moved", dim=dim, offset=offset, scale=scale, seed=seed)
        for n, c in ((60, 10), (130, 2), (131, 2), (257, 3), (403, 2), (1030, 4), (2051, 2)):
            for reg in (0.01, 1.0):
                yield dict(k="big", dim=dim, reg=reg, n=n, c=c, seed=seed)
    yield dict(k="reject")


def fit(m, x, y):
    numpy.random.seed(20260101)
    m.fit(x, y)


def near(out, m, x, y, reg, q, what):
    """one distribution per class: the order of increasing distance, however far from every class"""
    q = numpy.concatenate((q, q * 40.0, q[::-1] * -1000.0))
    labels, d = ranks(x, y, reg, q)
    p = m.predict(q)
    agree(p, labels, d, what)
    for row in p.tolist():
        need(sorted(row) == labels, f"{what}: predicts {row}, not a permutation of {labels}")
    out.transitions += 1
    return p[: len(q) // 3]


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "one":
        n, dim, reg = spec["n"], spec["dim"], spec["reg"]
        x = points(n, dim, spec["seed"])
        q = numpy.concatenate((points(5, dim, spec["seed"] + 7), x[:2], points(1, dim, 3) * 5))
        names = (-7, 1000, 3)
        for word in itertools.product(range(3), repeat=n):
            # every class has at least two observations, the least which the estimator accepts
            if word[0] != spec["first"] or any(word.count(c) == 1 for c in word):
                continue
            y = numpy.array([names[i] for i in word], TYPES[sum(word) % 3])
            m = GaussianMixtureModel(order=1, index=10, regularize=reg)
            fit(m, x, y)
            what = f"points of {n}x{dim} labelled {y.tolist()}, regularisation {reg}"
            p = near(out, m, x, y, reg, q, what)
            same(numpy.concatenate([m.predict(q[i:i + 1]) for i in range(len(q))]), p, f"{what}: one query at a time", rtol=0.0)
            same(m.predict(q[::-1])[::-1], p, f"{what}: queries reversed", rtol=0.0)
            fit(m, x[::-1], y[::-1])
            near(out, m, x, y, reg, q, f"{what}, rows reversed in a second fit")
            need(m.shape == (dim,) and m.order == 1 and m.index == 10, f"{what}: shape {m.shape} order {m.order} index {m.index}")
            out.transitions += 2 + 1 + len(q)
            out.traces += 1
            out.state(n, dim, reg, word)
    elif k == "extreme":
        x = points(5, 2, spec["seed"])
        q = points(6, 2, spec["seed"] + 7)
        for names in extremes(spec["type"]):
            for word in ((0, 0, 1, 1, 1), (1, 2, 1, 2, 2), (0, 2, 2, 0, 0), (2, 0, 0, 2, 0), (1, 1, 1, 1, 1), (2, 1, 2, 1, 1)):
                y = [names[i] for i in word]
                m = GaussianMixtureModel(order=1, index=10)
                fit(m, x, numpy.array(y, spec["type"]))
                near(out, m, x, y, 0.1, q, f"points labelled {y} of type {spec['type']}")
                out.state(spec["type"], y)
                out.traces += 1
    elif k == "big":
        n, c, dim, reg = spec["n"], spec["c"], spec["dim"], spec["reg"]
        for kind in range(3):
            x = points(n, dim, spec["seed"] + kind)
            y = numpy.array([(i * 7 + kind) % c for i in range(n)]) * (3 if kind % 2 else -1)
            x = x + y[:, None] * (0.0, 0.1, 0.5)[kind]
            m = GaussianMixtureModel(order=1, regularize=reg)
            fit(m, x, y)
            q = points(30, dim, spec["seed"] + 5) * 2
            q = numpy.concatenate((q, sharp(x, y, reg, q[: 30 if n < 500 else 6])))
            near(out, m, x, y, reg, q, f"{n} points, {c} classes, dimension {dim}, regularisation {reg}, kind {kind}")
            out.state(n, c, dim, reg, kind)
            out.traces += 1
    elif k == "moved":
        n, dim = 6, spec["dim"]
        x, q = numpy.round(points(n, dim, spec["seed"]) * 64) / 64, numpy.round(points(8, dim, spec["seed"] + 7) * 64) / 64
        for word in itertools.product(range(2), repeat=n):
            if 1 < sum(word) < n - 1:
                labels, d = ranks(x, word, 0.5, q)
                m = GaussianMixtureModel(order=1, index=10, regularize=0.5 * spec["scale"] ** 2)
                move = lambda v: (v + spec["offset"]) * spec["scale"]
                fit(m, move(x), numpy.array(word))
                agree(m.predict(move(q)), labels, d, f"points of {n}x{dim} labelled {word}, moved by {spec['offset']} and scaled by {spec['scale']}")
                out.state(dim, word, spec["offset"], spec["scale"])
                out.transitions += 2
                out.traces += 1
    elif k == "rare":
        # a component of small weight wins wherever no other class has one nearby
        dim, few, most, reg = spec["dim"], spec["few"], spec["most"], spec["reg"]
        groups = []
        for i, (c, at, size) in enumerate(((0, 0.0, most), (0, 300.0, few), (1, 100.0, few + most - (few + most) // 2), (1, 200.0, (few + most) // 2))):
            groups.append((c, generic(spec["seed"] * 41 + i, size * dim).reshape(size, dim) + at))
        x, y = numpy.concatenate([z for _, z in groups]), numpy.array([c for c, z in groups for _ in z])
        m = GaussianMixtureModel(order=2, regularize=reg)
        fit(m, x, y)
        for i, (c, z) in enumerate(groups):
            q = z.mean(0) + generic(i + 5, 6 * dim).reshape(6, dim)
            for j, row in enumerate(m.predict(q).tolist()):
                need(row == [c, 1 - c], f"clusters of {[len(z) for _, z in groups]}, dimension {dim}, regularisation {reg}: query {q[j]} in cluster {i} of class {c} predicts {row}")
            out.transitions += 1
        out.traces += 1
        out.state(dim, few, most, reg)
    elif k == "many":
        dim, order, reg, sizes = spec["dim"], spec["order"], spec["reg"], spec["sizes"]
        for classes in ((4, 9), (2, -5, 11)):
            clusters = []
            total = len(classes) * order
            rot = [(i * 5 + 3) % total if math.gcd(5, total) == 1 else i for i in range(total)]
            for i in range(total):
                c = classes[i % len(classes)]
                centre = numpy.array([60.0 * rot[i]] + [40.0 * ((-1) ** i)] * (dim - 1))
                z = generic(spec["seed"] * 77 + i, sizes[i % 2] * dim).reshape(-1, dim) * (0.5 + 0.4 * (i % 3)) + centre
                clusters.append((c, z))
            x = numpy.concatenate([z for _, z in clusters])
            y = numpy.array([c for c, z in clusters for _ in z])
            m = GaussianMixtureModel(order=order, regularize=reg)
            fit(m, x, y)
            q = numpy.concatenate([z.mean(0) + generic(i + 5, 4 * dim).reshape(4, dim) * r for i, (_, z) in enumerate(clusters) for r in (0.3, 1.0, 2.0)])
            own = [c for c, z in clusters for _ in range(12)]
            # and far from all of them
            q = numpy.concatenate((q, q[::7] * 11.0, q[::11] * -30.0 - 500.0))
            own += [None] * (len(q) - len(own))
            labels = sorted(classes)
            score = numpy.full((len(q), len(labels)), -numpy.inf)
            for c, z in clusters:
                u = z.mean(0)
                s = (z - u).T @ (z - u) / len(z) + reg * numpy.eye(dim)
                w = len(z) / (y == c).sum()
                for j, r in enumerate(q):
                    k = j, labels.index(c)
                    score[k] = numpy.logaddexp(score[k], math.log(w) - 0.5 * float((r - u) @ numpy.linalg.solve(s, r - u)))
            what = f"{len(classes)} classes of {order} clusters of {sizes}, dimension {dim}, regularisation {reg}"
            p = m.predict(q)
            need(p.shape == score.shape, f"{what}: shape {p.shape}")
            for j, row in enumerate(p.tolist()):
                if sorted(row) != labels:
                    raise Violation(f"{what}: query {j} predicts {row}, not a permutation of {labels}")
                v = [score[j][labels.index(c)] for c in row]
                for a, b in zip(v, v[1:]):
                    if a < b - 1e-6 * max(1.0, abs(b)):
                        raise Violation(f"{what}: query {j} near class {own[j]} predicts {row} with logarithms of scores {v}")
                if j < 12 * len(clusters):
                    need(row[0] == own[j], f"{what}: query {j} near class {own[j]} predicts {row}")
            same(numpy.concatenate([m.predict(c) for c in cut(q, [1, 5, len(q) - 6])]), p, f"{what}: in batches", rtol=0.0)
            out.transitions += 4
            out.traces += 1
            out.state(dim, order, reg, sizes, classes)
        # overlapping clusters of distinct weight: the boundary between the classes is the closed form one
        line = numpy.zeros((21, dim))
        line[:, 0] = numpy.linspace(0.0, 8.0, 21)
        far = numpy.zeros(dim) + 400.0
        groups = [(0, 0.0, sizes[0])] + [(0, far * j, sizes[1]) for j in range(1, order)]
        groups += [(1, 8.0, sizes[1])] + [(1, far * (j + 0.75), sizes[0]) for j in range(1, order)]
        for _ in range(1):
            x, y, parts = [], [], []
            for i, (c, centre, size) in enumerate(groups):
                z = generic(spec["seed"] * 13 + i, size * dim).reshape(size, dim) * 1.5
                z = z + (numpy.eye(dim)[0] * centre if numpy.isscalar(centre) else centre)
                x.append(z)
                y += [c] * size
                parts.append((c, z))
            x, y = numpy.concatenate(x), numpy.array(y)
            m = GaussianMixtureModel(order=order, regularize=reg)
            fit(m, x, y)
            p = m.predict(line)
            for j, r in enumerate(line):
                score = [-numpy.inf, -numpy.inf]
                for c, z in parts:
                    u = z.mean(0)
                    s = (z - u).T @ (z - u) / len(z) + reg * numpy.eye(dim)
                    score[c] = numpy.logaddexp(score[c], math.log(len(z) / (y == c).sum()) - 0.5 * float((r - u) @ numpy.linalg.solve(s, r - u)))
                if abs(score[0] - score[1]) > 1e-6 * max(1.0, abs(max(score))):
                    need(p[j].tolist() == ([0, 1] if score[0] > score[1] else [1, 0]), f"weighted boundary, {order} clusters of {sizes}, dimension {dim}, regularisation {reg}: {r} predicts {p[j]} with scores {score}")
            out.transitions += 2
            out.traces += 1
    elif k == "ops":
        sets = {}
        for name, (n, dim, y) in dict(a=(6, 2, (0, 1, 0, 1, 2, 2)), b=(5, 2, (9, 4, 9, 4, 9)), c=(4, 3, (1, 0, 1, 0))).items():
            sets[name] = (points(n, dim, spec["seed"] + len(name) + n), numpy.array(y))
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            ops = [OPS[i] for i in spec["head"]] + list(tail)
            m, model, reg, index = GaussianMixtureModel(order=1, index=5), None, 0.1, 5
            for i, op in enumerate(ops):
                what = f"after {ops[:i + 1]}"
                if op in sets:
                    fit(m, *sets[op])
                    model = sets[op] + (reg,)
                elif op == "few":
                    # a class of fewer observations than the estimator accepts, after one of enough
                    try:
                        fit(m, numpy.array([[0.0, 1.0], [1.0, 0.0], [2.0, 2.0]]), numpy.array([1, 1, 2]))
                    except ValueError:
                        pass
                    else:
                        break
                elif op == "len":
                    rejects(lambda: m.fit(numpy.ones((3, 2)), numpy.array([1, 2])), what)
                elif op == "type":
                    rejects(lambda: m.fit(numpy.ones((2, 2)), numpy.array([1.0, 2.0])), what, (TypeError,))
                elif op == "reg":
                    reg = 1.5 if reg == 0.1 else 0.1
                    m.regularize = reg
                elif op == "index":
                    index = 12 - index
                    m.index = index
                elif op == "badreg":
                    rejects(lambda: setattr(m, "regularize", -0.5), what)
                else:
                    rejects(lambda: setattr(m, "index", 0), what)
                need(m.regularize == reg and m.index == index and m.order == 1, f"{what}: regularisation {m.regularize} index {m.index} order {m.order}")
                if model is None:
                    rejects(lambda: m.predict(numpy.ones((1, 2))), f"{what}: prediction before a fit", (ValueError, RuntimeError))
                else:
                    near(out, m, *model, points(4, model[0].shape[1], 77), what)
                    rejects(lambda: m.predict(numpy.ones((2, model[0].shape[1] + 1))), f"{what}: prediction of another dimension")
                out.transitions += 2
                out.state(model and (model[0], model[2]), reg, index)
            out.traces += 1
    else:
        m = GaussianMixtureModel(order=1)
        for x, y in ((numpy.ones(3), numpy.array([1, 2, 3])), (numpy.ones((0, 2)), numpy.array([], int)), (numpy.ones((2, 0)), numpy.array([1, 2])), (numpy.ones((1, 2, 2)), numpy.array([1]))):
            rejects(lambda: m.fit(x, y), f"fit of shape {x.shape}")
        for t in (float, bool, str, complex):
            rejects(lambda: m.fit(numpy.ones((2, 2)), numpy.array([1, 0]).astype(t)), f"labels of type {t}", (TypeError,))
        fit(m, numpy.ones((4, 2)), numpy.array([1, 0, 1, 0]))
        for x in (numpy.ones(2), numpy.ones((0, 2)), numpy.ones((2, 0)), numpy.ones((1, 1, 2)), numpy.ones((1, 3))):
            rejects(lambda: m.predict(x), f"prediction of shape {x.shape}")
        for a in (dict(order=0), dict(order=-1), dict(index=0), dict(index=-5), dict(regularize=-1e-9)):
            rejects(lambda: GaussianMixtureModel(**a), f"parameters {a}")
        GaussianMixtureModel(order=1, index=1, regularize=0.0)
        out.transitions += 15
        out.traces += 1
        out.state("reject")
    out.outcome = spec
    return out
