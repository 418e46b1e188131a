"""WENO reconstruction of any odd order, derived here from its definition in
rational arithmetic (Jiang-Shu smoothness, optimal weights), not from the code
under test."""
import functools
from fractions import Fraction as Fr
import numpy as np


def polymul(a, b):
    out = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def polyder(a):
    return [i * a[i] for i in range(1, len(a))] or [Fr(0)]


def polyint(a):
    return [Fr(0)] + [a[i] / (i + 1) for i in range(len(a))]


def polyval(a, x):
    r = Fr(0)
    for c in reversed(a):
        r = r * x + c
    return r


@functools.lru_cache(None)
def cell_basis(offsets):
    """polynomials p_j with cell averages delta_jl over the cells [o-1/2, o+1/2]; returns list of coefficient lists"""
    nodes = [Fr(offsets[0]) - Fr(1, 2) + k for k in range(len(offsets) + 1)]
    out = []
    for j in range(len(offsets)):
        # primitive is 0 at nodes 0..j and 1 at nodes j+1..k
        prim = [Fr(0)]
        for m in range(j + 1, len(nodes)):
            term = [Fr(1)]
            for l in range(len(nodes)):
                if l != m:
                    term = polymul(term, [-nodes[l] / (nodes[m] - nodes[l]), 1 / (nodes[m] - nodes[l])])
            prim = [a + b for a, b in zip(prim + [Fr(0)] * (len(term) - len(prim)), term)]
        out.append(polyder(prim))
    return tuple(tuple(p) for p in out)


@functools.lru_cache(None)
def tables(order):
    k = (order + 1) // 2
    sten = [tuple(range(-r, k - r)) for r in range(k)]
    big = tuple(range(-k + 1, k))
    half = Fr(1, 2)
    coef = {}; opt = {}
    for side, x in (('l', -half), ('r', half)):
        C = [[polyval(p, x) for p in cell_basis(s)] for s in sten]
        B = [polyval(p, x) for p in cell_basis(big)]
        # optimal weights: sum_r d_r C_r = B, solved from the rightmost cell inwards
        d = [None] * k
        for r in range(k):           # stencil r=0 alone reaches offset k-1
            off = k - 1 - r
            tot = B[big.index(off)]
            for q in range(r):
                if off in sten[q]:
                    tot -= d[q] * C[q][sten[q].index(off)]
            d[r] = tot / C[r][sten[r].index(off)]
        assert sum(d) == 1 and all(w > 0 for w in d)
        coef[side] = C; opt[side] = d
    beta = []
    for s in sten:
        ps = [list(p) for p in cell_basis(s)]
        M = [[Fr(0)] * k for _ in range(k)]
        der = ps
        for l in range(1, k):
            der = [polyder(p) for p in der]
            for a in range(k):
                for b in range(k):
                    I = polyint(polymul(der[a], der[b]))
                    M[a][b] += polyval(I, half) - polyval(I, -half)
        beta.append(M)
    f = lambda x: np.array([[np.longdouble(v.numerator) / np.longdouble(v.denominator) for v in row] for row in x], dtype=np.longdouble)
    return k, sten, {s: f(coef[s]) for s in coef}, {s: f([opt[s]])[0] for s in opt}, [f(M) for M in beta]


def weno(order, q, eps=1e-36):
    """q: (m, N).  Returns ql, qr at the left and right edge of each cell; NaN where the stencil does not fit."""
    k, sten, coef, opt, beta = tables(order)
    q = np.asarray(q, dtype=np.longdouble)
    m, N = q.shape
    out = []
    lo, hi = k - 1, N - k + 1
    cols = {o: q[:, lo + o:hi + o] for o in range(-k + 1, k)}
    B = []
    for r, s in enumerate(sten):
        M = beta[r]
        # rows of M sum to zero, so differences from the central cell may be used: far less cancellation
        D = [cols[o] - cols[0] for o in s]
        b = 0
        for a in range(k):
            for c in range(k):
                b = b + M[a, c] * D[a] * D[c]
        B.append(b)
    for side in ('l', 'r'):
        W = [opt[side][r] / (np.longdouble(eps) + B[r]) ** 2 for r in range(k)]
        S = sum(W)
        val = 0
        for r, s in enumerate(sten):
            val = val + W[r] / S * sum(coef[side][r, j] * cols[o] for j, o in enumerate(s))
        res = np.full((m, N), np.nan)
        res[:, lo:hi] = val
        out.append(res)
    return out[0], out[1]
