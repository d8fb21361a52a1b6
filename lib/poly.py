"""Conjunctions of linear integer constraints  sum(c*x) + k >= 0  and their entailment (Fourier-Motzkin).

Symbols are small integers.  A linear form is a dict symbol -> coefficient with the constant under 0.
A constraint is (tuple of (symbol, coefficient) sorted, constant)."""
from fractions import Fraction
from math import gcd

LIMIT = 260


def lin(c=0):
    return {0: c} if c else {}


def add(a, b, k=1):
    r = dict(a)
    for s, c in b.items():
        v = r.get(s, 0) + k * c
        if v:
            r[s] = v
        else:
            r.pop(s, None)
    return r


def scale(a, k):
    return {s: c * k for s, c in a.items()} if k else {}


def con(l):
    """The constraint l >= 0, tightened to integers; True / False when it has no symbol."""
    k = l.get(0, 0)
    it = tuple(sorted((s, c) for s, c in l.items() if s and c))
    if not it:
        return k >= 0
    g = 0
    for _, c in it:
        g = gcd(g, c)
    if g > 1:
        it = tuple((s, c // g) for s, c in it)
        k = k // g
    return (it, k)


def form(c):
    d = dict(c[0])
    if c[1]:
        d[0] = c[1]
    return d


def neg(c):
    return (tuple((s, -v) for s, v in c[0]), -c[1])


def prune(cons):
    """Keeps, per set of coefficients, only the tightest constraint; None when two of them contradict each other."""
    best = {}
    for it, k in cons:
        o = best.get(it)
        if o is None or k < o:
            best[it] = k
    for it, k in best.items():
        o = best.get(tuple((s, -c) for s, c in it))
        if o is not None and o + k < 0:
            return None
    return [(it, k) for it, k in best.items()]


def eliminate(cons, x):
    """Projects x out of cons (list).  Returns None when infeasible."""
    pos, ng, rest = [], [], []
    for c in cons:
        v = 0
        for s, k in c[0]:
            if s == x:
                v = k
                break
        (pos if v > 0 else ng if v < 0 else rest).append((c, v) if v else c)
    if pos and ng:
        # an equality with a unit coefficient substitutes without growth
        eq = None
        negs = {c for c, _ in ng}
        for c, v in pos:
            if v == 1 and neg(c) in negs:
                eq = c
                break
        if eq is not None:
            f = form(eq)
            for c, v in pos + ng:
                n = con(add(form(c), f, -v))
                if n is False:
                    return None
                if n is not True:
                    rest.append(n)
            return prune(rest)
        if len(pos) * len(ng) > LIMIT * 2:
            return prune(rest)
        for c, v in pos:
            for d, w in ng:
                n = con(add(scale(form(c), -w), form(d), v))
                if n is False:
                    return None
                if n is not True:
                    rest.append(n)
    return prune(rest)


def infeasible(cons):
    cons = prune(cons)
    while cons is not None:
        if not cons:
            return False
        if len(cons) > LIMIT * 3:
            return False
        cnt = {}
        for it, _ in cons:
            for s, c in it:
                p = cnt.setdefault(s, [0, 0])
                p[c < 0] += 1
        x = min(cnt, key=lambda s: (cnt[s][0] * cnt[s][1] - cnt[s][0] - cnt[s][1], s))
        if cnt[x][0] * cnt[x][1] > LIMIT * 4:
            return False
        cons = eliminate(cons, x)
    return True


def relevant(cons, syms):
    """The constraints connected to syms."""
    by = {}
    for c in cons:
        for s, _ in c[0]:
            by.setdefault(s, []).append(c)
    seen, out, todo = set(syms), set(), list(syms)
    while todo:
        s = todo.pop()
        for c in by.get(s, ()):
            if c not in out:
                out.add(c)
                for t, _ in c[0]:
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
    return out, seen


def equalities(cons):
    cs = set(cons)
    return [c for c in cs if c[0][0][1] > 0 and neg(c) in cs]


def rows(eqs):
    """Reduced echelon form of equalities given as constraints (dict symbol->Fraction, constant under 0)."""
    out = []
    for c in eqs:
        r = {s: Fraction(v) for s, v in form(c).items()}
        for p, q in out:
            if p in r:
                k = r[p]
                for s, v in q.items():
                    n = r.get(s, 0) - k * v
                    if n:
                        r[s] = n
                    else:
                        r.pop(s, None)
        piv = min((s for s in r if s), default=None)
        if piv is None:
            continue
        k = r[piv]
        r = {s: v / k for s, v in r.items()}
        for i, (p, q) in enumerate(out):
            if piv in q:
                k = q[piv]
                q = dict(q)
                for s, v in r.items():
                    n = q.get(s, 0) - k * v
                    if n:
                        q[s] = n
                    else:
                        q.pop(s, None)
                out[i] = (p, q)
        out.append((piv, r))
    return [q for _, q in out]


def hull_equalities(A, B):
    """Equalities that hold on both sides although neither states them: the intersection of the two row spaces."""
    ea, eb = equalities(A), equalities(B)
    common = set(ea) & set(eb)
    ea = [c for c in ea if c not in common]
    eb = [c for c in eb if c not in common]
    if not ea or not eb or len(ea) + len(eb) > 60:
        return []
    sa = {s for c in ea for s, _ in c[0]}
    sb = {s for c in eb for s, _ in c[0]}
    if not (sa & sb):
        return []
    RA, RB = rows(ea), rows(eb)
    # find x,y with x.RA == y.RB : nullspace of [RA; -RB] transposed
    vec = [dict(r) for r in RA] + [{s: -v for s, v in r.items()} for r in RB]
    comb = [{i: Fraction(1)} for i in range(len(vec))]
    piv = []
    out = []
    for i in range(len(vec)):
        v, c = dict(vec[i]), dict(comb[i])
        for p, pv, pc in piv:
            if p in v:
                k = v[p] / pv[p]
                for s, x in pv.items():
                    n = v.get(s, 0) - k * x
                    if n:
                        v[s] = n
                    else:
                        v.pop(s, None)
                for s, x in pc.items():
                    n = c.get(s, 0) - k * x
                    if n:
                        c[s] = n
                    else:
                        c.pop(s, None)
        if v:
            p = next(iter(v))
            piv.append((p, v, c))
        else:
            row = {}
            for j, x in c.items():
                if j < len(RA):
                    for s, y in RA[j].items():
                        n = row.get(s, 0) + x * y
                        if n:
                            row[s] = n
                        else:
                            row.pop(s, None)
            if any(s for s in row):
                den = 1
                for y in row.values():
                    den = den * y.denominator // gcd(den, y.denominator)
                f = {s: int(y * den) for s, y in row.items()}
                e = con(f)
                if isinstance(e, tuple):
                    out += [e, neg(e)]
    return out
