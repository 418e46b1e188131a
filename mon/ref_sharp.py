"""Reference semi-discretisation of the method-of-lines solvers, line by line."""
import numpy as np
from . import weno_ref


def phi(kind, r):
    r = np.asarray(r, dtype=float)
    if kind == 1:
        return np.maximum(0, np.minimum(1, r))
    if kind == 2:
        return np.maximum(0, np.maximum(np.minimum(1, 2 * r), np.minimum(2, r)))
    if kind == 3:
        return (r + np.abs(r)) / (1 + np.abs(r))
    if kind == 4:
        return np.maximum(0, np.minimum(np.minimum((1 + r) / 2, 2), 2 * r))
    if kind == 5:      # Cada & Torrilhon
        pp = (2 + r) / 3
        amax = np.maximum(np.maximum(-r / 3, 0), np.minimum(np.minimum(2 * r, pp), 2))
        return np.maximum(0, np.minimum(pp, amax))
    raise ValueError(kind)


def tvd2(q, lims):
    """component-wise: slope phi(r)*(q_i - q_{i-1}), r = forward/backward difference"""
    ql = np.array(q); qr = np.array(q)
    for m in range(q.shape[0]):
        d = np.diff(q[m])
        back, fwd = d[:-1], d[1:]
        r = np.where(back != 0, fwd / np.where(back != 0, back, 1), 0)
        sl = 0.5 * phi(lims[m], r) * back
        sl = np.where(back != 0, sl, 0.)
        qr[m, 1:-1] += sl; ql[m, 1:-1] -= sl
    return ql, qr


def tvd2_wave(q, wave, s, lims):
    """wave[:, w, k]: jump between cells k and k+1"""
    ql = np.array(q); qr = np.array(q)
    nw, n = s.shape
    for w in range(nw):
        W = wave[:, w]
        norm = (W * W).sum(0)
        dot = (W[:, :-1] * W[:, 1:]).sum(0)          # dot[k] = W_k . W_{k+1}
        dl = np.zeros(n); dr = np.zeros(n)
        dl[1:] = dot; dr[:-1] = dot
        up = np.where(s[w] > 0, dl, dr)
        f = np.where(norm != 0, 0.5 * phi(lims[w], up / np.where(norm != 0, norm, 1)), 0.)
        qr[:, :-1] += W * f; ql[:, 1:] -= W * f
    return ql, qr


def weno5_wave(q, wave, full):
    """full: the linear part too is taken from projected waves (else from q itself)"""
    ql = np.array(q); qr = np.array(q)
    N = q.shape[1]
    eps = 1e-36
    k = np.arange(2, N - 3)                       # interfaces with two neighbours on each side
    if not full:
        lin = (-q[:, k - 1] + 7 * (q[:, k] + q[:, k + 1]) - q[:, k + 2]) / 12
        qr[:, k] = lin; ql[:, k + 1] = lin
    for w in range(wave.shape[1]):
        W = wave[:, w]
        dot = lambda o: (W[:, k + o] * W[:, k]).sum(0)
        n2 = dot(0)
        for side, im in (('r', 1), ('l', -1)):
            a, b, c = dot(-2 * im), dot(-im), dot(im)
            t1, t2, t3 = im * (a - b), im * (b - n2), im * (n2 - c)
            T1 = (eps + 13 * t1 ** 2 + 3 * (a - 3 * b) ** 2) ** 2
            T2 = (eps + 13 * t2 ** 2 + 3 * (b + n2) ** 2) ** 2
            T3 = (eps + 13 * t3 ** 2 + 3 * (3 * n2 - c) ** 2) ** 2
            # normalised weights 1 : 6 : 3 over the squared indicators
            x1, x2, x3 = T2 * T3, 6 * T1 * T3, 3 * T1 * T2
            S = x1 + x2 + x3
            z = (x1 / S * (t2 - t1) + (0.5 * x3 / S - 0.25) * (t3 - t2)) / 3
            if full:
                z = z + im * (b + 6 * n2 - c) / 12
            on = n2 > 1e-14
            z = np.where(on, z / np.where(on, n2, 1), 0)
            if side == 'r':
                qr[:, k] += z * W[:, k]
            else:
                ql[:, k + 1] += z * W[:, k]
    return ql, qr


def recon(case, rp, d, q, A):
    lt, cd = case['lim_type'], case['char_decomp']
    lims = case['lims'] if isinstance(case['lims'], list) else [case['lims']]
    if lt == -1:
        return np.array(q), np.array(q)
    if cd:
        wave, s, _, _ = rp.normal(d, q[:, :-1], q[:, 1:], A[:, :-1], A[:, 1:])
        if len(lims) == 1:
            lims = lims * case['mwaves']
        if lt == 1:
            return tvd2_wave(q, wave, s, lims)
        if case['fwave']:
            wave = wave / s[None]
            return weno5_wave(q, wave, True)
        return weno5_wave(q, wave, case['kernel'] == 'Python')
    if lt == 1:
        if len(lims) == 1:
            lims = lims * case['meqn']
        return tvd2(q, lims)
    return weno_ref.weno(case['weno_order'], q)


def line(case, rp, d, q, A, dtdx, ng):
    """(dq over interior cells, largest interior Courant number, largest over all interfaces)"""
    n = q.shape[1] - 2 * ng
    ql, qr = recon(case, rp, d, q, A)
    _, s, am, ap = rp.normal(d, qr[:, :-1], ql[:, 1:], A[:, :-1], A[:, 1:])
    if case.get('tfluct'):
        tot = rp.total(d, ql, qr, A)
    else:
        _, _, a2, b2 = rp.normal(d, ql, qr, A, A)
        tot = a2 + b2
    i = np.arange(ng, ng + n)
    dq = -dtdx[i] * (ap[:, i - 1] + am[:, i] + tot[:, i])
    k = np.arange(ng - 1, ng + n)
    cfl = max(0., float(np.max(dtdx[k + 1] * s[:, k])), float(np.max(-dtdx[k] * s[:, k])))
    allk = np.arange(0, s.shape[1])
    with np.errstate(all='ignore'):
        cand = np.concatenate([(dtdx[allk + 1] * s[:, allk]).ravel(), (-dtdx[allk] * s[:, allk]).ravel()])
    cand = cand[np.isfinite(cand)]
    return dq, cfl, max(cfl, float(cand.max()) if cand.size else 0.)


def dq(case, rp, Q, A, dx, dt, ng):
    nd = Q.ndim - 1
    if A is None:
        A = np.zeros((1,) + Q.shape[1:])
    inner = (slice(None),) + (slice(ng, -ng),) * nd
    out = np.zeros(Q[inner].shape)
    lo = hi = 0.
    for d in range(nd):
        Qm = np.moveaxis(Q, d + 1, -1); Am = np.moveaxis(A, d + 1, -1)
        Om = np.moveaxis(out, d + 1, -1)
        for idx in np.ndindex(*Qm.shape[1:-1]):
            ghost = any(j < ng or j >= s - ng for j, s in zip(idx, Qm.shape[1:-1]))
            near = all(ng - 1 <= j <= s - ng for j, s in zip(idx, Qm.shape[1:-1]))
            if not near:
                continue
            a = Am[(slice(None),) + idx]
            dtdx = dt / (dx[d] * a[case['capa']]) if case['capa'] >= 0 else np.full(a.shape[1], dt / dx[d])
            v, c1, c2 = line(case, rp, d, Qm[(slice(None),) + idx], a, dtdx, ng)
            if ghost:
                hi = max(hi, c2)
            else:
                Om[(slice(None),) + tuple(j - ng for j in idx)] += v
                lo = max(lo, c1); hi = max(hi, c2)
    return out, lo, hi
