"""C22: Gaussian model rankings against explicit distances, over label words, row orders, batches and histories."""
import itertools

import numpy
from diamondback import GaussianModel

from mc.core import Out, Violation
from mc.util import compositions, cut, generic, need, rejects, same

ID, LEVEL = "C22", "model_checking"
RULE = (
    "case = (dimension, regularisation, points, labels): every labelling of the points over the label set, every order of the rows of the bound, every batching of the queries; or every sequence of fits, predictions, changes of regularisation and "
    "failing fits. State = (labelled points, regularisation). Nontrivial: more than one class."
)
ASSUMPTIONS = ["distances within 1e-6 relative may be ranked either way", "regularisation greater than zero, or classes whose covariance is invertible"]
LABELS = {"small": (0, 1, 2), "gap": (-7, 3, 1000), "neg": (-3, -2, -1), "one": (5, 5, 5)}
INTEGERS = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
TYPES = ("int64", "int32", "int16", "uint16")


def cases(tier, seed):
    quick = tier == "quick"
    for dim in (1, 2, 3):
        for reg in (0.1, 1e-3, 2.0):
            for labels in LABELS:
                for n in (1, 2, 3, 4, 5, 6) if quick else (1, 2, 3, 4, 5, 6, 7, 8):
                    yield dict(k="label", dim=dim, reg=reg, labels=labels, n=n, seed=seed)
        for n, c in ((20, 3), (40, 5), (60, 10), (65, 1), (130, 2), (131, 2), (257, 3), (403, 2), (1030, 4), (2051, 2)):
            for reg in (0.0, 0.1, 1.0):
                yield dict(k="big", dim=dim, reg=reg, n=n, c=c, seed=seed)
        if dim == 1:
            for more in (4, 5, 6, 8, 17):
                for n, c in ((60, 3), (130, 2)):
                    for reg in (0.1, 1.0):
                        yield dict(k="big", dim=more, reg=reg, n=n, c=c, seed=seed)
        for word in itertools.product((0, 1), repeat=5):
            yield dict(k="perm", dim=dim, word=list(word), seed=seed)
    for head in itertools.product(range(len(OPS)), repeat=2):
        yield dict(k="ops", head=list(head), depth=5 if quick else 6, seed=seed)
    for t in INTEGERS:
        yield dict(k="extreme", type=t, seed=seed)
    for dim in (1, 2, 3):
        for offset in (0.0, 1e3, -1e5, 1e7, 2e8):
            for scale in (1.0, 1024.0, 1.0 / 1024.0, 2.0 ** 30, 2.0 ** -30):
                yield dict(k="moved", dim=dim, offset=offset, scale=scale, seed=seed)
    for dim in (2, 3):
        for u in (0, 1):
            for scales in itertools.product((2.0 ** 10, 2.0 ** -10, 1.0), repeat=dim):
                if len(set(scales)) > 1:
                    yield dict(k="features", dim=dim, scales=list(scales), only=u, seed=seed)
    yield dict(k="reject")


def extremes(t):
    """labels at both ends of the range of an integer type"""
    i = numpy.iinfo(t)
    lo, hi = int(i.min), int(i.max)
    return (lo, hi, 0), (lo, lo + 1, hi), (hi - 1, hi, lo), (lo, -1 if lo else 1, 1 if lo else 2), (hi // 2, hi // 2 + 1, hi)


def ranks(x, y, reg, q):
    """per query: (labels, squared distances) by increasing distance"""
    x, q = numpy.asarray(x, float), numpy.asarray(q, float)
    labels = sorted(set(int(v) for v in y))
    d = []
    for c in labels:
        z = x[[i for i in range(len(y)) if int(y[i]) == c]]
        u = z.sum(0) / len(z)
        s = sum(numpy.outer(r - u, r - u) for r in z) / len(z) + (reg if numpy.ndim(reg) else reg * numpy.eye(x.shape[1]))
        d.append([float((r - u) @ numpy.linalg.solve(s, r - u)) for r in q])
    return labels, numpy.array(d).T


def agree(got, labels, d, what):
    got = numpy.asarray(got)
    need(got.shape == d.shape, f"{what}: shape {got.shape}, expected {d.shape}")
    for i, row in enumerate(got.tolist()):
        if sorted(row) != labels:
            raise Violation(f"{what}: query {i} predicts {row}, not a permutation of {labels}")
        v = [d[i][labels.index(c)] for c in row]
        for a, b, c in zip(v, v[1:], range(len(v))):
            if a > b * (1 + 1e-6) + 1e-9:
                raise Violation(f"{what}: query {i} predicts {row} with squared distances {v}: not increasing")


def sharp(x, y, reg, q):
    """points close to the boundaries between classes, on either side, found by bisection between queries of which different classes are the nearest"""
    labels, d = ranks(x, y, reg, q)
    nearest = d.argmin(1)
    res = []
    for i in range(len(q)):
        j = next((j for j in list(range(i + 1, len(q))) + list(range(i)) if nearest[j] != nearest[i]), None)
        if j is None:
            break
        only = [k for k in range(len(y)) if int(y[k]) in (labels[nearest[i]], labels[nearest[j]])]
        xx, yy = numpy.asarray(x, float)[only], [int(y[k]) for k in only]
        col = sorted(set(yy)).index(labels[nearest[i]])
        a, b = 0.0, 1.0
        for _ in range(20):
            # a section in 16 parts at a time: three of them leave a part in 4096
            t = numpy.linspace(a, b, 17)
            v = ranks(xx, yy, reg, q[i] + t[:, None] * (q[j] - q[i]))[1]
            far = numpy.nonzero(v[:, col] > v[:, 1 - col])[0]
            k = far[0] if len(far) else 16
            a, b = t[max(k - 1, 0)], t[k]
            if b - a < 1e-5:
                break
        res += [q[i] + (a - 1e-4) * (q[j] - q[i]), q[i] + (b + 1e-4) * (q[j] - q[i])]
    return numpy.array(res).reshape(-1, q.shape[1])


def points(n, dim, seed):
    return generic(seed * 31 + dim, n * dim).reshape(n, dim) * 3.0


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "label":
        n, dim, reg = spec["n"], spec["dim"], spec["reg"]
        x = points(n, dim, spec["seed"])
        q = numpy.concatenate((points(5, dim, spec["seed"] + 7) * 1.5, x[:2], points(1, dim, 3) * 50))
        seen = set()
        for word in itertools.product(range(3), repeat=n):
            y = tuple(LABELS[spec["labels"]][i] for i in word)
            if y in seen:
                continue
            seen.add(y)
            m = GaussianModel(reg)
            m.fit(x, numpy.array(y, TYPES[sum(word) % 4] if spec["labels"] in ("small", "one") else TYPES[sum(word) % 3]))
            what = f"points of {n}x{dim} labelled {y}, regularisation {reg}"
            labels, d = ranks(x, y, reg, q)
            p = m.predict(q)
            agree(p, labels, d, what)
            need(numpy.issubdtype(numpy.asarray(p).dtype, numpy.integer), f"{what}: labels of type {p.dtype}")
            m2 = GaussianModel(reg)
            m2.fit(numpy.concatenate((x, x)), numpy.array(y + y))
            agree(m2.predict(q), labels, d, f"{what}, all rows twice")
            m2.fit(x[::-1], numpy.array(y[::-1]))
            agree(m2.predict(q), labels, d, f"{what}, rows reversed after another fit")
            agree(numpy.concatenate([m.predict(q[i:i + 1]) for i in range(len(q))]), labels, d, f"{what}: one query at a time")
            agree(m.predict(q[::-1])[::-1], labels, d, f"{what}: queries reversed")
            if n < 4:
                for t in (3, 5, 17, 129):
                    agree(m.predict(numpy.concatenate([q] * t)), labels, numpy.concatenate([d] * t), f"{what}: a batch of {t * len(q)}")
            need(m.shape == (dim,), f"{what}: shape {m.shape}")
            out.state(dim, reg, y)
            out.transitions += 3 + 3 + len(q)
            out.traces += 1
    elif k == "extreme":
        x = points(5, 2, spec["seed"])
        q = points(6, 2, spec["seed"] + 7) * 1.5
        for names in extremes(spec["type"]):
            for word in itertools.product(range(3), repeat=5):
                y = [names[i] for i in word]
                labels, d = ranks(x, y, 0.1, q)
                m = GaussianModel()
                m.fit(x, numpy.array(y, spec["type"]))
                agree(m.predict(q), labels, d, f"points labelled {y} of type {spec['type']}")
                out.state(spec["type"], y)
                out.transitions += 2
                out.traces += 1
    elif k == "moved":
        # multiples of a 64th, which are exact at every offset: distances depend on differences only
        n, dim = 6, spec["dim"]
        x, q = numpy.round(points(n, dim, spec["seed"]) * 64) / 64, numpy.round(points(8, dim, spec["seed"] + 7) * 96) / 64
        for word in itertools.product(range(2), repeat=n):
            for reg in (1e-3, 0.5):
                labels, d = ranks(x, word, reg, q)
                m = GaussianModel(reg * spec["scale"] ** 2)
                move = lambda v: (v + spec["offset"]) * spec["scale"]
                m.fit(move(x), numpy.array(word))
                agree(m.predict(move(q)), labels, d, f"points of {n}x{dim} labelled {word} regularisation {reg}, moved by {spec['offset']} and scaled by {spec['scale']}")
                out.state(dim, reg, word, spec["offset"], spec["scale"])
                out.transitions += 2
                out.traces += 1
    elif k == "features":
        # features of different scales: distances are those of the features of one scale, where the regularisation is scaled instead
        n, dim, g = 9, spec["dim"], numpy.array(spec["scales"])
        x, q = points(n, dim, spec["seed"]), points(8, dim, spec["seed"] + 7) * 1.5
        for word in itertools.product((0, 1), repeat=n - 1):
            word = (spec["only"],) + word
            if min(sum(word), n - sum(word)) <= dim:
                continue
            for reg in (0.0, 1e-9, 0.1):
                labels, d = ranks(x, word, numpy.diag(reg / g ** 2), q)
                m = GaussianModel(reg)
                m.fit(x * g, numpy.array(word))
                agree(m.predict(q * g), labels, d, f"points of {n}x{dim} labelled {word} regularisation {reg}, features scaled by {g}")
                out.state(dim, reg, word, spec["scales"])
                out.transitions += 2
                out.traces += 1
    elif k == "perm":
        dim = spec["dim"]
        x, w = points(5, dim, spec["seed"]), spec["word"]
        q = points(6, dim, spec["seed"] + 9) * 1.5
        labels, d = ranks(x, w, 0.1, q)
        m = GaussianModel()
        for perm in itertools.permutations(range(5)):
            m.fit(x[list(perm)], numpy.array(w)[list(perm)])
            agree(m.predict(q), labels, d, f"rows {perm} labelled {w}")
            out.state(dim, w, perm)
            out.transitions += 2
        for parts in compositions(6):
            agree(numpy.concatenate([m.predict(c) for c in cut(q, parts)]), labels, d, f"labels {w} predicted in batches {parts}")
            out.transitions += len(parts)
            out.traces += 1
    elif k == "big":
        n, c, dim, reg = spec["n"], spec["c"], spec["dim"], spec["reg"]
        for kind in range(4):
            x = points(n, dim, spec["seed"] + kind)
            y = numpy.array([(i * 7 + kind) % c for i in range(n)]) * (3 if kind % 2 else -1)
            x = x + y[:, None] * (0.3 if kind < 2 else 0.0)
            if kind == 3:
                x = numpy.round(x * 4).astype(int)
            if reg == 0.0 and n // c < dim + 3:
                continue
            q = points(30, dim, spec["seed"] + 5) * 2
            m = GaussianModel(regularize=reg)
            m.fit(x, y)
            q = numpy.concatenate((q, sharp(x, y, reg, q[: 30 if n < 500 else 6])))
            labels, d = ranks(x, y, reg, q)
            agree(m.predict(q), labels, d, f"{n} points, {c} classes, dimension {dim}, regularisation {reg}, kind {kind}")
            out.state(n, c, dim, reg, kind)
            out.transitions += 2
            out.traces += 1
    elif k == "ops":
        sets = {}
        for name, (n, dim, y) in dict(a=(6, 2, (0, 1, 0, 1, 2, 2)), b=(5, 2, (9, 4, 9, 4, 9)), c=(4, 3, (1, 0, 1, 0))).items():
            sets[name] = (points(n, dim, spec["seed"] + len(name) + n), numpy.array(y))
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            ops = [OPS[i] for i in spec["head"]] + list(tail)
            m, model, reg = GaussianModel(), None, 0.1
            for i, op in enumerate(ops):
                what = f"after {ops[:i + 1]}"
                if op in sets:
                    x, y = sets[op]
                    m.fit(x, y)
                    model = (x, y, reg)
                elif op == "len":
                    rejects(lambda: m.fit(numpy.ones((3, 2)), numpy.array([1, 2])), what)
                elif op == "type":
                    rejects(lambda: m.fit(numpy.ones((2, 2)), numpy.array([1.0, 2.0])), what, (TypeError,))
                elif op == "nan":
                    # a singular covariance without regularisation
                    m.regularize = 0.0
                    try:
                        m.fit(numpy.array([[0.0, 0.0], [0.0, 0.0], [1.0, 1.0], [2.0, 2.0]]), numpy.array([8, 8, 6, 6]))
                    except Exception:
                        pass
                    else:
                        break       # a result for a singular covariance is not specified
                    m.regularize = reg
                elif op == "reg":
                    reg = 1.5 if reg == 0.1 else 0.1
                    m.regularize = reg
                elif op == "badreg":
                    rejects(lambda: setattr(m, "regularize", -0.5), what)
                need(m.regularize == reg, f"{what}: regularisation {m.regularize}")
                if model is None:
                    rejects(lambda: m.predict(numpy.ones((1, 2))), f"{what}: prediction before a fit", (ValueError, RuntimeError))
                else:
                    q = points(4, model[0].shape[1], 77)
                    agree(m.predict(q), *ranks(*model, q), what)
                    rejects(lambda: m.predict(numpy.ones((2, model[0].shape[1] + 1))), f"{what}: prediction of another dimension")
                out.transitions += 3
                out.state(model and (model[0], model[2]), reg)
            out.traces += 1
    else:
        m = GaussianModel()
        for x, y in ((numpy.ones(3), numpy.array([1, 2, 3])), (numpy.ones((0, 2)), numpy.array([], int)), (numpy.ones((2, 0)), numpy.array([1, 2])), (numpy.ones((1, 2, 2)), numpy.array([1]))):
            rejects(lambda: m.fit(x, y), f"fit of shape {x.shape}")
        for t in (float, bool, str, complex):
            rejects(lambda: m.fit(numpy.ones((2, 2)), numpy.array([1, 0]).astype(t)), f"labels of type {t}", (TypeError,))
        m.fit(numpy.ones((2, 2)), numpy.array([1, 0]))
        for x in (numpy.ones(2), numpy.ones((0, 2)), numpy.ones((2, 0)), numpy.ones((1, 1, 2)), numpy.ones((1, 3))):
            rejects(lambda: m.predict(x), f"prediction of shape {x.shape}")
        rejects(lambda: GaussianModel(-1e-9), "negative regularisation")
        GaussianModel(0.0)
        out.transitions += 12
        out.traces += 1
        out.state("reject")
    out.outcome = spec
    return out


OPS = ["a", "b", "c", "len", "type", "nan", "reg", "badreg"]
