"""C20: s-domain to z-domain transformation, over pole and zero sets, frequencies, scalings and methods."""
import cmath
import itertools
import math

import numpy
from diamondback import ZTransform
from scipy.linalg import expm

from mc.core import Out
from mc.util import need, rejects, same, scale

ID, LEVEL = "C20", "model_checking"
RULE = (
    "case = (pole set, zero set): every set of the bound closed under conjugation x frequencies x methods x common scalings x leading zeros x containers. "
    "State = (poles, zeros, frequency, method). Nontrivial: at least one pole."
)
ASSUMPTIONS = [
    "poles are repeated, up to three times, or differ by 0.01 or more; constant terms of both polynomials are not zero; no pole or zero is exactly at 2/(pi f), where the bilinear map is singular",
    "impulse invariant method: poles are not aliased onto each other, and the sampled response has a sum that is not zero (to 1e-4), as the gain is normalised by it",
    "not more zeros than poles; strictly fewer for the impulse invariant method",
    "coefficients are compared to 1e-6 of their scale (roots of polynomials of degree up to 6)",
]
POLES = ((-0.5,), (-1.0,), (-2.5,), (0.3,), (-0.3 + 1.0j,), (-1.0 + 0.5j,), (-0.1 + 2.0j,), (-0.05 + 0.2j,), (0.2 + 1.5j,), (-6.0,), (2.0j,))
ZEROS = ((), (-0.7,), (-3.0,), (0.4,), (-0.2 + 0.9j,), (1.3j,), (-1.5, -0.2), (0.5 + 0.5j,), (-0.7, 1.3j))


CLOSE = ((-1.0, -1.02), (-0.5, -0.51, -2.5), (-0.3 + 1.0j, -0.3 + 1.02j), (-0.1, -0.11), (0.3, 0.31), (-1.0, -1.03, -1.06), (-2.5, -2.6), (-1.0 + 0.5j, -1.02 + 0.5j),
         # and repeated
         (-1.0, -1.0), (-1.0, -1.0, -1.0), (-0.5, -2.5, -2.5), (0.3, 0.3), (-0.3 + 1.0j, -0.3 + 1.0j), (-1.0, -1.0, -0.5, -0.5), (-2.5, -2.5, -2.5, -0.5), (-1.0 + 0.5j, -1.0 + 0.5j, -1.0),
         (-0.1 + 2.0j, -0.1 + 2.0j, -0.1 + 2.0j), (2.0j, 2.0j), (-6.0, -6.0, 0.3))


WIDE = (((-1.0, -2.0, -0.5), (-1e-3, -1.0), (-8.0, -0.01), (-1e-4 + 1e-3j,), (-1e-4, -1e-2, -1.0), (-1e-3 + 2e-3j, -1.0 + 0.5j), (-0.02, -0.5, -7.0)),
        ((-3e-4, -2e-3), (-1e-5,), (-7.0,), (-1e-3, -3.0), (), (1e-3j,), (-1e-4 + 2e-4j,)))


def closed(s):
    v = []
    for p in s:
        v.append(p)
        if isinstance(p, complex):
            v.append(p.conjugate())
    return v


def cases(tier, seed):
    quick = tier == "quick"
    for k in (1, 2, 3) if quick else (1, 2, 3, 4):
        for group in itertools.combinations(range(len(POLES)), k):
            poles = closed([POLES[i][0] for i in group])
            if len(poles) > 6:
                continue
            for zi, z in enumerate(ZEROS):
                if quick and k == 3 and (zi + sum(group)) % 3:
                    continue
                if len(closed(z)) <= len(poles):
                    yield dict(k="map", p=list(group), z=zi, quick=quick, **({"near": NEAR} if k < 3 else {}))
    for ci, c in enumerate(CLOSE):
        for zi, z in enumerate(ZEROS):
            if len(closed(z)) <= len(closed(c)):
                yield dict(k="map", close=ci, p=[], z=zi, quick=quick)
    # poles and zeros of different orders of magnitude
    for pi, c in enumerate(WIDE[0]):
        for zi, z in enumerate(WIDE[1]):
            if len(closed(z)) <= len(closed(c)):
                yield dict(k="map", wide=[pi, zi], p=[], z=-1, quick=quick)
    yield dict(k="reject")


NEAR = (1e-5, -1e-5, 1e-4, -1e-4, 1e-3, -1e-3, 1e-2, -1e-2, 0.1, -0.1)


def near(out, poles, zeros, f, q):
    """one more zero, and one more pole, which is real and at q, relative, from +-2 / (pi f)"""
    h = math.pi * f
    for sign in (1, -1):
        for added in ("zero", "pole", "both"):
            r = sign * 2.0 / h * (1.0 + q)
            pp = list(poles) + ([r * (1.3 if added == "both" else 1.0)] if added != "zero" else [])
            zz = list(zeros) + ([r] if added != "pole" else [])
            if len(zz) > len(pp) or added == "pole" and abs(q) < 1e-4:
                continue
            u, v = numpy.poly(pp).real, numpy.poly(zz).real if zz else numpy.ones(1)
            zp, zz = [(1 + p * h / 2) / (1 - p * h / 2) for p in pp], [(1 + p * h / 2) / (1 - p * h / 2) for p in zz]
            a = -numpy.poly(zp).real
            a[0] = 0.0
            b = numpy.poly(zz + [0.0] * (len(zp) - len(zz))).real
            # by definition of the gain at zero: the product of the distances of the poles, over that of the zeros, from one
            b = b * numpy.prod([1.0 - p for p in zp]).real / numpy.prod([1.0 - z for z in zz]).real
            ga, gb = ZTransform.transform(u, v, f)
            what = f"poles {pp} zeros {zz} frequency {f}, {q} from {sign * 2 / h}"
            m = max(len(b), len(gb))
            pad = lambda w: numpy.concatenate((w, numpy.zeros(m - len(w))))
            same(ga, a, f"{what}: recursive coefficients", rtol=1e-5, ref=scale(numpy.poly(zp)))
            same(pad(gb), pad(b), f"{what}: forward coefficients", rtol=1e-4, ref=scale(b))
            out.transitions += 1
            out.traces += 1


def run_case(spec):
    out = Out()
    if spec["k"] == "reject":
        for u, v, f in (([], [1.0], 0.1), ([1.0, 1.0], [], 0.1), ([0.0, 0.0], [1.0], 0.1), ([1.0, 1.0], [0.0], 0.1), ([1.0, 1.0], [1.0], 0.0), ([1.0, 1.0], [1.0], -0.1)):
            for bilinear in (True, False):
                rejects(lambda: ZTransform.transform(u, v, f, bilinear), f"u {u} v {v} frequency {f}")
                rejects(lambda: ZTransform.transform(numpy.array(u), numpy.array(v), f, bilinear), f"u {u} v {v} frequency {f}")
                out.transitions += 2
        out.traces += 1
        out.state("reject")
        out.outcome = spec
        return out
    if "wide" in spec:
        poles, zeros = (closed(WIDE[i][spec["wide"][i]]) for i in (0, 1))
    else:
        poles, zeros = closed(CLOSE[spec["close"]] if "close" in spec else [POLES[i][0] for i in spec["p"]]), closed(ZEROS[spec["z"]])
    u0 = numpy.poly(poles).real
    v0 = numpy.poly(zeros).real if zeros else numpy.ones(1)
    n = len(poles)
    for f in (0.01, 0.1, 0.37, 1.0, 2.5) + ((64.0, 1000.0, 1e-3) if n <= 2 else ()):
        for bilinear in (True, False):
            if not bilinear and (len(zeros) >= n or f > 10.0):
                continue
            h = math.pi * f
            for q in spec.get("near", ()):
                # poles and zeros close to the points which the bilinear map sends to infinity and to zero
                if not bilinear:
                    break
                near(out, poles, zeros, f, q)
            if bilinear:
                zp = [(1 + p * h / 2) / (1 - p * h / 2) for p in poles]
                zz = [(1 + z * h / 2) / (1 - z * h / 2) for z in zeros]
                b = numpy.poly(zz + [0.0] * (n - len(zz))).real
            else:
                zp = [cmath.exp(p * h) for p in poles]
                # samples of the continuous impulse response, by a matrix exponential
                m = numpy.diag(numpy.ones(n - 1), 1)
                m[-1, :] = -u0[:0:-1]
                w = numpy.concatenate((v0[::-1], numpy.zeros(n - len(v0))))
                e = expm(m * h)
                s, r = numpy.eye(n)[:, -1], []
                for _ in range(n):
                    r.append(w @ s)
                    s = e @ s
                b = numpy.concatenate((numpy.convolve(numpy.poly(zp).real, r)[:n], [0.0]))
                if abs(b.sum()) < 1e-4 * abs(b).max() or min([abs(zp[i] - zp[j]) for i, j in itertools.combinations(range(n), 2) if poles[i] != poles[j]] or [1.0]) < 1e-9:
                    continue
            a = -numpy.poly(zp).real
            a[0] = 0.0
            dc = 1.0 - a.sum()
            b = b * dc / b.sum()
            tol = 1e-6 * scale(numpy.poly(zp))
            cond = 1e-12 / abs(dc) + 1e-14 * scale(b) / abs(dc)
            first = None
            for g in (1.0, -2.0, 1e3, 1e-3, 1e-10, 1e10, 1.0 / u0[-1]):
                for lead in (0, 1, 3):
                    for kind in ("array", "list"):
                        if spec["quick"] and ((kind == "list" and g != 1.0) or (lead > 1 and not 0.1 < abs(g) < 5.0)):
                            continue
                        u, v = numpy.concatenate((numpy.zeros(lead), u0 * g)), numpy.concatenate((numpy.zeros((lead * 2) % 3), v0 * g))
                        if kind == "list":
                            u, v = u.tolist(), v.tolist()
                        uc, vc = numpy.array(u), numpy.array(v)
                        got = ZTransform.transform(u, v, f, bilinear)
                        what = f"poles {poles} zeros {zeros} frequency {f} bilinear {bilinear} scaled {g} leading zeros {lead}"
                        ga, gb = got
                        same(ga, a, f"{what}: recursive coefficients", rtol=0.0, atol=tol)
                        need(ga[0] == 0.0, f"{what}: first recursive coefficient {ga[0]}")
                        need(numpy.isrealobj(ga) and numpy.isrealobj(gb), f"{what}: coefficients are not real")
                        need(abs(gb.sum() / (1.0 - ga.sum()) - 1.0) < 1e-6 + cond, f"{what}: gain at zero {gb.sum() / (1.0 - ga.sum())}")
                        m = min(len(gb), len(b))
                        same(numpy.concatenate((gb, numpy.zeros(len(b) - m))), numpy.concatenate((b, numpy.zeros(len(gb) - m))), f"{what}: forward coefficients",
                             rtol=1e-6 + cond, ref=scale(b))
                        if all(p.real < 0 if isinstance(p, complex) else p < 0 for p in poles):
                            need(max(abs(numpy.roots(numpy.concatenate(([1.0], -ga[1:]))))) < 1.0 + 1e-5, f"{what}: unstable")
                        need((numpy.array(u) == uc).all() and (numpy.array(v) == vc).all() and len(u) == len(uc), f"{what}: inputs modified")
                        out.transitions += 1
            if bilinear:
                d = ZTransform.transform(u0, v0, f)
                same(d[0], a, "by default bilinear", rtol=0.0, atol=tol)
            # integers
            ui, vi = numpy.round(u0 * 40).astype(int), numpy.round(v0 * 40).astype(int)
            if ui[-1] and vi[-1] and f == 0.1:
                x, y = ZTransform.transform(ui, vi, f, bilinear), ZTransform.transform(ui.astype(float), vi.astype(float), f, bilinear)
                same(x[0], y[0], f"poles {poles} zeros {zeros}: integer coefficients", rtol=1e-9)
                same(x[1], y[1], f"poles {poles} zeros {zeros}: integer coefficients", rtol=1e-6)
            out.traces += 1
            out.state(poles, zeros, f, bilinear)
    out.outcome = spec
    return out
