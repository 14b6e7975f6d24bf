"""Integer polyhedra: emptiness by Fourier-Motzkin elimination with gcd
tightening.  A constraint is (c, ((atom,k),...)) meaning c + sum k*atom >= 0."""
from math import gcd
from .term import rng, lparts

LIMIT = 600


def _norm(c, d):
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        c //= g
        d = {x: k // g for x, k in d.items()}
    return c, d


def empty(cons):
    """True only if the integer constraints (lin values, each >= 0) together
    with the ranges of their atoms have no solution."""
    cs = []
    atoms = set()
    for l in cons:
        c, p = lparts(l)
        if not p:
            if c < 0:
                return True
            continue
        cs.append(_norm(c, dict(p)))
        atoms.update(x for x, _ in p)
    for x in atoms:
        lo, hi = rng(x)
        cs.append((-lo, {x: 1}))
        cs.append((hi, {x: -1}))
    seen = {}
    while True:
        # dedupe, keep the strongest for equal left hand sides
        best = {}
        for c, d in cs:
            if not d:
                if c < 0:
                    return True
                continue
            k = tuple(sorted(((x.id, v) for x, v in d.items())))
            if k not in best or best[k][0] > c:
                best[k] = (c, d)
        # opposite pairs
        for k, (c, d) in best.items():
            nk = tuple((i, -v) for i, v in k)
            o = best.get(nk)
            if o and o[0] + c < 0:
                return True
        cs = list(best.values())
        if not cs:
            return False
        if len(cs) > LIMIT:
            return False
        occ = {}
        for c, d in cs:
            for x, v in d.items():
                p = occ.setdefault(x, [0, 0])
                p[v > 0] += 1
        x = min(occ, key=lambda y: (occ[y][0] * occ[y][1] - occ[y][0] - occ[y][1], y.id))
        pos, neg, rest = [], [], []
        for c, d in cs:
            v = d.get(x, 0)
            (pos if v > 0 else neg if v < 0 else rest).append((c, d))
        for cp, dp in pos:
            kp = dp[x]
            for cn, dn in neg:
                kn = -dn[x]
                g = gcd(kp, kn)
                a, b = kn // g, kp // g
                d = {}
                for y, v in dp.items():
                    if y is not x:
                        d[y] = v * a
                for y, v in dn.items():
                    if y is not x:
                        w = d.get(y, 0) + v * b
                        if w:
                            d[y] = w
                        else:
                            d.pop(y, None)
                rest.append(_norm(cp * a + cn * b, d))
        cs = rest
