"""Reference model of the wave-propagation algorithms, written array-wise in
NumPy from their published description (LeVeque; Langseth & LeVeque for 3D).

Arrays include num_ghost ghost cells on each side.  `rp` is a SynthRP (or
anything with normal/transverse methods of the same form).  The model returns
the new interior values and the Courant number.
"""
import numpy as np


def phi(kind, r):
    with np.errstate(all='ignore'):
        if kind == 0:
            return np.ones_like(r)
        if kind == 1:
            return np.maximum(0., np.minimum(1., r))
        if kind == 2:
            return np.maximum(0., np.maximum(np.minimum(1., 2 * r), np.minimum(2., r)))
        if kind == 3:
            return (r + np.abs(r)) / (1. + np.abs(r))
        if kind == 4:
            return np.maximum(0., np.minimum(np.minimum((1 + r) / 2, 2.), 2 * r))
        if kind == 5:
            return r
    raise ValueError(kind)


def limit(wave, s, kinds):
    """wave (m,w,N,...), s (w,N,...) at interfaces 1..N-1 (slot 0 unused)."""
    out = wave.copy()
    for w, kind in enumerate(kinds):
        if kind == 0:
            continue
        W = wave[:, w]
        n2 = (W * W).sum(0)
        dot = np.zeros_like(n2)            # dot[i] = W[i].W[i+1]
        dot[:-1] = (W[:, :-1] * W[:, 1:]).sum(0)
        dl = np.zeros_like(n2); dl[1:] = dot[:-1]
        with np.errstate(all='ignore'):
            r = np.where(s[w] > 0, dl, dot) / n2
            f = phi(kind, r)
        f = np.where(n2 == 0, 1., f)
        out[:, w] = W * f
    return out


def normal(rp, d, q, aux):
    """q (m,N,...) swept along axis 1; interface i lies between cells i-1 and i."""
    m, N = q.shape[:2]; rest = q.shape[2:]
    P = int(np.prod(rest)) if rest else 1
    ql = q[:, :-1].reshape(m, -1); qr = q[:, 1:].reshape(m, -1)
    if aux is not None and aux.shape[0]:
        al = aux[:, :-1].reshape(aux.shape[0], -1); ar = aux[:, 1:].reshape(aux.shape[0], -1)
    else:
        al = ar = np.zeros((1, ql.shape[1]))
    wave, s, am, ap = rp.normal(d, ql, qr, al, ar)
    mw = wave.shape[1]
    def put(a, lead):
        o = np.zeros(lead + (N,) + rest)
        o[(slice(None),) * len(lead) + (slice(1, None),)] = a.reshape(lead + (N - 1,) + rest)
        return o
    return put(wave, (m, mw)), put(s, (mw,)), put(am, (m,)), put(ap, (m,))


def corrections(wave, s, lam, lims, fwave):
    """limited second-order correction flux at each interface; lam = dt/(dx*capa) per cell"""
    W = limit(wave, s, lims)
    ave = np.zeros_like(lam); ave[1:] = 0.5 * (lam[1:] + lam[:-1])
    c = np.where(np.signbit(s), -1., 1.) if fwave else np.abs(s)
    return (0.5 * (c * (1 - np.abs(s) * ave))[None] * W).sum(1)


def courant(s, lam, ng):
    N = lam.shape[0]
    i = slice(ng, N - ng + 1); im = slice(ng - 1, N - ng)
    return max(0., float(np.max(lam[i] * s[:, i])), float(np.max(-lam[im] * s[:, i])))


def sweep1(rp, d, q, aux, lam, order, lims, fwave, ng):
    """1-D update along axis 1 for every line; returns increments of interior cells (others 0), cfl"""
    wave, s, am, ap = normal(rp, d, q, aux)
    N = q.shape[1]
    I = slice(ng, N - ng); Ip = slice(ng + 1, N - ng + 1)
    dq = np.zeros_like(q)
    dq[:, I] = -lam[I] * (ap[:, I] + am[:, Ip])
    if order == 2:
        F = corrections(wave, s, lam, lims, fwave)
        dq[:, I] -= lam[I] * (F[:, Ip] - F[:, I])
    return dq, courant(s, lam, ng)


def lam_of(aux, capa, shape, dtdx):
    if capa >= 0:
        return dtdx / aux[capa]
    return np.full(shape, dtdx)


def step1(rp, q, aux, dx, dt, order, lims, fwave, capa, ng):
    lam = lam_of(aux, capa, q.shape[1:], dt / dx[0])
    dq, cfl = sweep1(rp, 0, q, aux, lam, order, lims, fwave, ng)
    return (q + dq)[:, ng:-ng], cfl


def roll_to(a, d):
    return None if a is None else np.moveaxis(a, d + 1, 1)


def split_step(rp, q, aux, dx, dt, order, lims, fwave, capa, ng):
    """Godunov splitting: x, then y (then z), each sweep covering the ghost lines as well"""
    q = q.copy(); cfl = 0.
    for d in range(q.ndim - 1):
        lam = lam_of(aux, capa, q.shape[1:], dt / dx[d])
        dq, c = sweep1(rp, d, roll_to(q, d), roll_to(aux, d), np.moveaxis(lam, d, 0), order, lims, fwave, ng)
        q = q + np.moveaxis(dq, 1, d + 1)
        cfl = max(cfl, c)
    return q[(slice(None),) + (slice(ng, -ng),) * (q.ndim - 1)], cfl


def shift(a, axis, k):
    """value at neighbour k along axis (wraps; callers only use valid rows)"""
    return None if a is None else np.roll(a, -k, axis=axis)


def sides(aux, ng_unused=None):
    """(left cell, right cell) of every interface along axis 1, flattened"""
    na = aux.shape[0]
    return aux[:, :-1].reshape(na, -1), aux[:, 1:].reshape(na, -1)


def step2(rp, q, aux, dx, dt, order, trans, lims, fwave, capa, ng):
    """unsplit 2-D step; trans 0: none, 1: increment waves, 2: increment and correction waves"""
    m = q.shape[0]
    Lx = [lam_of(aux, capa, q.shape[1:], dt / dx[d]) for d in range(2)]
    tot = q.copy(); cfl = 0.
    for d in range(2):
        e = 1 - d
        Q = roll_to(q, d); A = roll_to(aux, d)           # (m, N, M)
        lam = np.moveaxis(Lx[d], d, 0); lamt = np.moveaxis(Lx[e], d, 0)
        N, M = Q.shape[1:]
        wave, s, am, ap = normal(rp, d, Q, A)
        rows = slice(ng - 1, M - ng + 1)
        cfl = max(cfl, courant(s[:, :, rows], lam[:, rows], ng))
        I = slice(ng, N - ng); Ip = slice(ng + 1, N - ng + 1)
        dq = np.zeros_like(Q)
        dq[:, I] += -lam[I] * (ap[:, I] + am[:, Ip])
        F = np.zeros_like(Q)
        if order == 2:
            F = corrections(wave, s, lam, lims, fwave)
            dq[:, I] -= lam[I] * (F[:, Ip] - F[:, I])
        if trans > 0:
            if order == 2 and trans == 2:
                am = am + 2 * F; ap = ap - 2 * F
            has = aux is not None and aux.shape[0] > 0
            a = [sides(shift(A, 2, k)) for k in (-1, 0, 1)] if has else [None] * 3
            ql = Q[:, :-1].reshape(m, -1); qr = Q[:, 1:].reshape(m, -1)
            G = np.zeros((2,) + Q.shape)                  # transverse flux leaving cell downwards / upwards
            for imp, fl in ((1, am), (2, ap)):
                b = rp.transverse2(d, imp, ql, qr, a[0], a[1], a[2], fl[:, 1:].reshape(m, -1))
                for k in (0, 1):
                    B = np.zeros_like(Q); B[:, 1:] = b[k].reshape(m, N - 1, M)
                    if imp == 1:                          # affects the cell left of the interface
                        G[k][:, I] -= 0.5 * lam[I] * B[:, Ip]
                    else:
                        G[k][:, I] -= 0.5 * lam[I] * B[:, I]
            # flux through the lower / upper face of each cell in `rows`
            D = np.zeros_like(Q); U = np.zeros_like(Q)
            D[:, :, rows] = G[0][:, :, rows]; U[:, :, rows] = G[1][:, :, rows]
            r = lamt / 1.0
            dq += -r * (U - D)
            dq += -r * shift(D, 2, 1)                     # cell below: its upper face
            dq += r * shift(U, 2, -1)                     # cell above: its lower face
        tot += np.moveaxis(dq, 1, d + 1)
    return tot[:, ng:-ng, ng:-ng], cfl


def step3(rp, q, aux, dx, dt, order, trans, lims, fwave, capa, ng):
    """unsplit 3-D step (Langseth & LeVeque): trans = 10*m3+m4"""
    m = q.shape[0]
    m3, m4 = trans // 10, trans % 10
    has = aux is not None and aux.shape[0] > 0
    kap = aux[capa] if capa >= 0 else np.ones(q.shape[1:])
    tot = q.copy(); cfl = 0.
    for d in range(3):
        y, z = (d + 1) % 3, (d + 2) % 3                   # cyclic: y-like and z-like directions
        perm = (0, d + 1, y + 1, z + 1)
        inv = np.argsort(perm)
        Q = q.transpose(perm); A = aux.transpose(perm) if has else None
        K = kap.transpose([p - 1 for p in perm[1:]])
        lx, ly, lz = dt / dx[d], dt / dx[y], dt / dx[z]
        lam = lx / K
        N, M, O = Q.shape[1:]
        wave, s, am, ap = normal(rp, d, Q, A)
        ry, rz = slice(ng - 1, M - ng + 1), slice(ng - 1, O - ng + 1)
        cfl = max(cfl, courant(s[:, :, ry, rz], lam[:, ry, rz], ng))
        I = slice(ng, N - ng); Ip = slice(ng + 1, N - ng + 1)
        dq = np.zeros_like(Q)
        dq[:, I] += -lam[I] * (ap[:, I] + am[:, Ip])
        F = np.zeros_like(Q)
        if order == 2:
            F = corrections(wave, s, lam, lims, fwave)
            dq[:, I] -= lam[I] * (F[:, Ip] - F[:, I])
        if m3 > 0:
            ql = Q[:, :-1].reshape(m, -1); qr = Q[:, 1:].reshape(m, -1)
            a = None
            if has:
                # aux1..3: y-like neighbour -1,0,+1; third index: z-like neighbour for the
                # y-like plane, following the kernels' documented layout
                a = [[sides(np.roll(np.roll(A, -ka, 2), -kc, 3)) for kc in (-1, 0, 1)] for ka in (-1, 0, 1)]
            def T(icoor, imp, fl):
                b = rp.transverse3(d, icoor, imp, ql, qr, a, fl[:, 1:].reshape(m, -1))
                o = []
                for x in b:
                    X = np.zeros_like(Q); X[:, 1:] = x.reshape((m, N - 1, M, O)); o.append(X)
                return o
            def TT(icoor, imp, impt, fl):
                b = rp.transverse3t(d, icoor, imp, impt, ql, qr, a, fl[:, 1:].reshape(m, -1))
                o = []
                for x in b:
                    X = np.zeros_like(Q); X[:, 1:] = x.reshape((m, N - 1, M, O)); o.append(X)
                return o
            fluct = {1: am, 2: ap}
            Sp = {}                                       # Sp[icoor][imp] = (minus, plus)
            for ic in (2, 3):
                Sp[ic] = {imp: T(ic, imp, fluct[imp]) for imp in (1, 2)}
            Cor = {}
            if m3 == 2:
                for ic in (2, 3):
                    if has:
                        Cor[ic] = {imp: T(ic, imp, F) for imp in (1, 2)}
                    else:
                        c = T(ic, 0, F)
                        Cor[ic] = {1: c, 2: c}
            rows = np.zeros((M, O), dtype=bool); rows[ry, rz] = True
            for ic, io, lt, lo, ax, ao in ((2, 3, ly, lz, 2, 3), (3, 2, lz, ly, 3, 2)):
                # flux in transverse direction ic; other transverse direction io
                # G[side][o]: side 0 minus face, 1 plus face; o: offset -1,0,1 of the cell in direction io
                G = [{o: np.zeros_like(Q) for o in (-1, 0, 1)} for side in (0, 1)]
                for imp in (1, 2):
                    # cell to the left of the interface takes imp=1, cell to the right takes imp=2
                    def at(X):
                        o = np.zeros_like(Q)
                        o[:, I] = X[:, Ip] if imp == 1 else X[:, I]
                        return lam * o
                    for side in (0, 1):
                        G[side][0] -= 0.5 * at(Sp[ic][imp][side])
                        if m3 >= 2:
                            G[side][0] += (1. if imp == 2 else -1.) * at(Cor[ic][imp][side])
                    if m4 > 0:
                        sgn = -3. if imp == 2 else 3.
                        for up, impt in ((1, 2), (0, 1)):  # io-going plus / minus part
                            fl = Sp[io][imp][up]
                            if m4 == 2:
                                fl = fl + sgn * Cor[io][imp][up]
                            b = TT(ic, imp, impt, fl)
                            for side in (0, 1):
                                v = lo / 6. * at(b[side])
                                w = 1. if up else -1.
                                G[side][0] += w * v
                                G[side][1 if up else -1] -= w * v
                for o in (-1, 0, 1):
                    lo_f = np.where(rows, G[0][o], 0.); up_f = np.where(rows, G[1][o], 0.)
                    # these faces belong to the cell at offset o in direction io
                    lo_f = shift(lo_f, ao, -o); up_f = shift(up_f, ao, -o)
                    r = lt / K
                    dq += -r * (up_f - lo_f)
                    dq += -r * shift(lo_f, ax, 1)
                    dq += r * shift(up_f, ax, -1)
        tot += dq.transpose(inv)
    return tot[:, ng:-ng, ng:-ng, ng:-ng], cfl
