"""Synthetic Riemann solvers, called back from the Fortran kernels.

The kernels take their Riemann solver as an external procedure; PyClaw hands
them the pointer found in ``solver.rp.rpn2._cpointer`` and the like.  A SynthRP
puts a C callback there, so that every Riemann solve of the real kernel is an
event the monitor sees (direction, states, aux), and so that the physics can be
drawn at random.  The same object serves the pure Python kernels and the
reference model.  Output columns no Riemann solver defines are filled with NaN:
a kernel that uses them shows.
"""
import ctypes as ct
import types
import numpy as np

_new = ct.pythonapi.PyCapsule_New
_new.restype = ct.py_object
_new.argtypes = [ct.c_void_p, ct.c_char_p, ct.c_void_p]

PI = ct.POINTER(ct.c_int)
PD = ct.POINTER(ct.c_double)


def arr(p, shape):
    n = int(np.prod(shape))
    if n == 0:
        return np.zeros(shape, order='F')
    return np.ctypeslib.as_array(ct.cast(p, PD), (n,)).reshape(shape, order='F')


class SynthRP(object):
    """mode: 'linear' (constant coefficient hyperbolic system, waves consistent
    with fluctuations), 'color' (as linear, speeds scaled by aux), 'quasi' (as color, speeds
    depending on the states, too), 'wild'
    (smooth nonlinear functions with no relation between waves and
    fluctuations, so that each term of a scheme is seen separately), 'flux'
    (a nonlinear conservation law: the fluctuations sum to the difference of a
    flux function, waves and speeds are as wild as in 'wild')."""

    def __init__(self, num_dim, meqn, mwaves, maux, seed, mode='linear', fwave=False, speed=1.0):
        self.num_dim = num_dim; self.meqn = meqn; self.mwaves = mwaves; self.maux = maux
        self.mode = mode; self.fwave = fwave
        self.calls = {'rpn': 0, 'rpt': 0, 'rptt': 0}
        self.on_normal = None
        r = np.random.RandomState(seed)
        self.R = []; self.L = []; self.lam = []
        for d in range(num_dim):
            while True:
                R = r.randn(meqn, meqn) + np.eye(meqn)
                if np.linalg.cond(R) < 20:
                    break
            self.R.append(R); self.L.append(np.linalg.inv(R))
            lam = r.uniform(-1, 1, meqn)
            if meqn > 1:
                lam[0] = -abs(lam[0]) - .1; lam[-1] = abs(lam[-1]) + .1
            self.lam.append(speed * lam)
        g = lambda *s: r.uniform(-1, 1, s)
        nx = 3
        self.ws = g(nx, mwaves); self.wsl = g(nx, mwaves, meqn); self.wsr = g(nx, mwaves, meqn)
        self.wsal = g(nx, mwaves, max(1, maux)); self.wsar = g(nx, mwaves, max(1, maux))
        self.wl = g(nx, meqn, mwaves, meqn); self.wr = g(nx, meqn, mwaves, meqn)
        self.wal = g(nx, meqn, mwaves, max(1, maux)); self.war = g(nx, meqn, mwaves, max(1, maux))
        self.dm = g(nx, meqn, meqn); self.dp = g(nx, meqn, meqn)
        self.dml = g(nx, meqn, meqn); self.dpr = g(nx, meqn, meqn)
        self.dma = g(nx, meqn, max(1, maux)); self.dpa = g(nx, meqn, max(1, maux))
        # transverse: [dir, icoor, imp]
        self.tm = g(3, 4, 4, meqn, meqn); self.tp = g(3, 4, 4, meqn, meqn)
        self.taux = g(3, 4, 4, 3, 3, 2, max(1, maux))
        self.tq = g(3, 4, 4, 2, meqn)
        self.ttm = g(3, 4, 3, 3, meqn, meqn); self.ttp = g(3, 4, 3, 3, meqn, meqn)
        self.ttaux = g(3, 4, 3, 3, 3, 3, 2, max(1, maux))
        self.ttq = g(3, 4, 3, 3, 2, meqn)
        self.speed = speed
        self.fA = g(nx, meqn, meqn); self.fB = g(nx, meqn, meqn)
        self.tot = g(nx, meqn, meqn)
        self._keep = []
        self.tfluct_calls = 0
        self.tfluct = types.SimpleNamespace()
        setattr(self.tfluct, 'tfluct%d' % num_dim, self._capsule(self._mk_tfluct()))
        if num_dim == 1:
            self.rp1 = self._capsule(self._mk_rp1())
        elif num_dim == 2:
            self.rpn2 = self._capsule(self._mk_rpn(True))
            self.rpt2 = self._capsule(self._mk_rpt2())
        else:
            self.rpn3 = self._capsule(self._mk_rpn(True))
            self.rpt3 = self._capsule(self._mk_rpt3())
            self.rptt3 = self._capsule(self._mk_rptt3())

    # ---- physics -------------------------------------------------------
    def normal(self, d, ql, qr, al, ar):
        """d: 0-based direction; ql, qr (meqn,N) states left and right of each interface"""
        N = ql.shape[1]
        if self.mode in ('linear', 'color', 'quasi'):
            R, L, lam = self.R[d], self.L[d], self.lam[d]
            c = np.ones(N)
            if self.mode != 'linear':
                c = 1.0 + 0.25 * np.sin(al[0] + 0.5 * d) + 0.25 * np.cos(ar[0])
            if self.mode == 'quasi':
                c = c + 0.45 * np.tanh((ql + qr).sum(0))
            alpha = L.dot(qr - ql)
            wave = R[:, :, None] * alpha[None, :, :]
            s = lam[:, None] * c[None, :]
            sm, sp = np.minimum(s, 0), np.maximum(s, 0)
            amdq = (wave * sm[None]).sum(1); apdq = (wave * sp[None]).sum(1)
            if self.fwave:
                wave = wave * s[None]
            return wave, s, amdq, apdq
        s = self.ws[d][:, None] + 0.3 * np.sin(self.wsl[d].dot(ql) + self.wsr[d].dot(qr))
        wave = np.tanh(np.einsum('mwk,kn->mwn', self.wl[d], ql) + np.einsum('mwk,kn->mwn', self.wr[d], qr))
        if self.mode == 'flux':
            df = self.flux(d, qr) - self.flux(d, ql)
            a = 1.5 + 0.5 * np.sin(self.wsl[d][0].dot(ql + qr))
            if self.maux:
                a = a + 0.2 * np.sin(al[0] + ar[0])
            return wave, self.speed * s, self.speed * .5 * (df - a * (qr - ql)), self.speed * .5 * (df + a * (qr - ql))
        amdq = self.dm[d].dot(qr - ql) + 0.2 * np.sin(self.dml[d].dot(ql))
        apdq = self.dp[d].dot(qr - ql) + 0.2 * np.cos(self.dpr[d].dot(qr))
        if self.maux:
            s = s + 0.2 * np.sin(self.wsal[d].dot(al)) + 0.2 * np.sin(self.wsar[d].dot(ar))
            wave = wave + 0.3 * np.sin(np.einsum('mwk,kn->mwn', self.wal[d], al) + np.einsum('mwk,kn->mwn', self.war[d], ar))
            amdq = amdq + 0.2 * self.dma[d].dot(np.sin(al + ar)); apdq = apdq + 0.2 * self.dpa[d].dot(np.cos(al - ar))
        return wave, self.speed * s, amdq, apdq

    def flux(self, d, q):
        return 0.4 * self.fA[d].dot(np.sin(q)) + .4 * self.fB[d].dot(q)

    def total(self, d, ql, qr, a):
        """total fluctuation inside each cell, between its edge values"""
        if self.mode == 'flux':
            return self.speed * (self.flux(d, qr) - self.flux(d, ql))
        f = 1.0 + (0.2 * np.sin(a[0]) if self.maux else 0.)
        return self.tot[d].dot(qr - ql) * f

    def transverse2(self, d, imp, ql, qr, a1, a2, a3, asdq):
        """aK = (aux in the left cell, aux in the right cell) of rows -1, 0, +1"""
        m, p = self.tm[d, 0, imp], self.tp[d, 0, imp]
        f = 1.0 + 0.2 * np.sin(self.tq[d, 0, imp, 0].dot(ql) + self.tq[d, 0, imp, 1].dot(qr))
        if self.maux:
            for k, a in enumerate((a1, a2, a3)):
                for side in (0, 1):
                    f = f + 0.1 * np.sin(self.taux[d, 0, imp, k, 1, side].dot(a[side]))
        return m.dot(asdq) * f, p.dot(asdq) * (2 - f)

    def transverse3(self, d, icoor, imp, ql, qr, a, asdq):
        """a[k][c] = (left, right) aux, k = plane 0..2 (aux1..aux3), c = 0..2 third index"""
        # without aux arrays the kernel may call with imp=0
        m, p = self.tm[d, icoor, imp], self.tp[d, icoor, imp]
        f = 1.0 + 0.2 * np.sin(self.tq[d, icoor, imp, 0].dot(ql) + self.tq[d, icoor, imp, 1].dot(qr))
        if self.maux:
            for k in range(3):
                for c in range(3):
                    for side in (0, 1):
                        f = f + 0.05 * np.sin(self.taux[d, icoor, imp, k, c, side].dot(a[k][c][side]))
        return m.dot(asdq) * f, p.dot(asdq) * (2 - f)

    def transverse3t(self, d, icoor, imp, impt, ql, qr, a, bsasdq):
        m, p = self.ttm[d, icoor, imp, impt], self.ttp[d, icoor, imp, impt]
        f = 1.0 + 0.2 * np.sin(self.ttq[d, icoor, imp, impt, 0].dot(ql) + self.ttq[d, icoor, imp, impt, 1].dot(qr))
        if self.maux:
            for k in range(3):
                for c in range(3):
                    for side in (0, 1):
                        f = f + 0.05 * np.sin(self.ttaux[d, icoor, imp, impt, k, c, side].dot(a[k][c][side]))
        return m.dot(bsasdq) * f, p.dot(bsasdq) * (2 - f)

    # ---- the Python-kernel face ----------------------------------------
    def __call__(self, ql, qr, auxl, auxr, problem_data):
        self.calls['rpn'] += 1
        if auxl is None:
            auxl = auxr = np.zeros((1, ql.shape[1]))
        return tuple(np.array(x, order='F') for x in self.normal(0, np.array(ql), np.array(qr), np.array(auxl), np.array(auxr)))

    # ---- C callbacks ----------------------------------------------------
    def _capsule(self, fn):
        self._keep.append(fn)
        cap = _new(ct.cast(fn, ct.c_void_p), None, None)
        return types.SimpleNamespace(_cpointer=cap)

    def _do_normal(self, d, maxm, meqn, mw, maux, mbc, mx, ql, qr, al, ar, wave, s, amdq, apdq):
        self.calls['rpn'] += 1
        n = maxm + 2 * mbc
        ql = arr(ql, (meqn, n)); qr = arr(qr, (meqn, n))
        wave = arr(wave, (meqn, mw, n)); s = arr(s, (mw, n)); amdq = arr(amdq, (meqn, n)); apdq = arr(apdq, (meqn, n))
        if maux:
            al = arr(al, (maux, n)); ar = arr(ar, (maux, n))
        else:
            al = ar = np.zeros((1, n))
        N = mx + 2 * mbc
        for a in (wave, s, amdq, apdq):
            a[...] = np.nan
        # Fortran convention: interface i lies between qr(i-1) and ql(i)
        L = np.array(qr[:, 0:N - 1]); Rr = np.array(ql[:, 1:N])
        out = self.normal(d, L, Rr, np.array(ar[:, 0:N - 1]), np.array(al[:, 1:N]))
        wave[:, :, 1:N] = out[0]; s[:, 1:N] = out[1]; amdq[:, 1:N] = out[2]; apdq[:, 1:N] = out[3]
        if self.on_normal:
            self.on_normal(d, L, Rr)

    def _mk_tfluct(self):
        one = self.num_dim == 1
        T = ct.CFUNCTYPE(None, *([PI] * (6 if one else 7) + [ct.c_void_p] * 5))
        def f(*a):
            d = 0 if one else a[0][0] - 1
            maxm, meqn, mw, maux, mbc, mx = [p[0] for p in (a[:6] if one else a[1:7])]
            ql, qr, al, ar, out = a[-5:]
            self.tfluct_calls += 1
            n = maxm + 2 * mbc; N = mx + 2 * mbc
            ql = arr(ql, (meqn, n)); qr = arr(qr, (meqn, n)); out = arr(out, (meqn, n))
            A = np.array(arr(al, (maux, n))[:, :N]) if maux else np.zeros((1, N))
            out[...] = np.nan
            out[:, :N] = self.total(d, np.array(ql[:, :N]), np.array(qr[:, :N]), A)
        return T(f)

    def _mk_rp1(self):
        T = ct.CFUNCTYPE(None, PI, PI, PI, PI, PI, PI, *[ct.c_void_p] * 8)
        def f(maxm, meqn, mw, maux, mbc, mx, ql, qr, al, ar, wave, s, amdq, apdq):
            self._do_normal(0, maxm[0], meqn[0], mw[0], maux[0], mbc[0], mx[0], ql, qr, al, ar, wave, s, amdq, apdq)
        return T(f)

    def _mk_rpn(self, _):
        T = ct.CFUNCTYPE(None, PI, PI, PI, PI, PI, PI, PI, *[ct.c_void_p] * 8)
        def f(ix, maxm, meqn, mw, maux, mbc, mx, ql, qr, al, ar, wave, s, amdq, apdq):
            self._do_normal(ix[0] - 1, maxm[0], meqn[0], mw[0], maux[0], mbc[0], mx[0], ql, qr, al, ar, wave, s, amdq, apdq)
        return T(f)

    def _sides(self, p, maux, n, N, third):
        if not maux:
            return None
        if third:
            a = arr(p, (maux, n, 3))
            return [(np.array(a[:, 0:N - 1, c]), np.array(a[:, 1:N, c])) for c in range(3)]
        a = arr(p, (maux, n))
        return (np.array(a[:, 0:N - 1]), np.array(a[:, 1:N]))

    def _mk_rpt2(self):
        T = ct.CFUNCTYPE(None, PI, PI, PI, PI, PI, PI, PI, PI, *[ct.c_void_p] * 8)
        def f(ix, imp, maxm, meqn, mw, maux, mbc, mx, ql, qr, a1, a2, a3, asdq, bm, bp):
            self.calls['rpt'] += 1
            n = maxm[0] + 2 * mbc[0]; N = mx[0] + 2 * mbc[0]; me = meqn[0]
            ql = arr(ql, (me, n)); qr = arr(qr, (me, n)); asdq = arr(asdq, (me, n)); bm = arr(bm, (me, n)); bp = arr(bp, (me, n))
            bm[...] = np.nan; bp[...] = np.nan
            A = [self._sides(a, self.maux, n, N, False) for a in (a1, a2, a3)]
            x, y = self.transverse2(ix[0] - 1, imp[0], np.array(qr[:, :N - 1]), np.array(ql[:, 1:N]), A[0], A[1], A[2], np.array(asdq[:, 1:N]))
            bm[:, 1:N] = x; bp[:, 1:N] = y
        return T(f)

    def _mk_rpt3(self):
        T = ct.CFUNCTYPE(None, PI, PI, PI, PI, PI, PI, PI, PI, PI, *[ct.c_void_p] * 8)
        def f(ix, icoor, imp, maxm, meqn, mw, maux, mbc, mx, ql, qr, a1, a2, a3, asdq, bm, bp):
            self.calls['rpt'] += 1
            n = maxm[0] + 2 * mbc[0]; N = mx[0] + 2 * mbc[0]; me = meqn[0]
            ql = arr(ql, (me, n)); qr = arr(qr, (me, n)); asdq = arr(asdq, (me, n)); bm = arr(bm, (me, n)); bp = arr(bp, (me, n))
            bm[...] = np.nan; bp[...] = np.nan
            A = [self._sides(a, self.maux, n, N, True) for a in (a1, a2, a3)]
            x, y = self.transverse3(ix[0] - 1, icoor[0], imp[0], np.array(qr[:, :N - 1]), np.array(ql[:, 1:N]), A, np.array(asdq[:, 1:N]))
            bm[:, 1:N] = x; bp[:, 1:N] = y
        return T(f)

    def _mk_rptt3(self):
        T = ct.CFUNCTYPE(None, PI, PI, PI, PI, PI, PI, PI, PI, PI, PI, *[ct.c_void_p] * 8)
        def f(ix, icoor, imp, impt, maxm, meqn, mw, maux, mbc, mx, ql, qr, a1, a2, a3, asdq, bm, bp):
            self.calls['rptt'] += 1
            n = maxm[0] + 2 * mbc[0]; N = mx[0] + 2 * mbc[0]; me = meqn[0]
            ql = arr(ql, (me, n)); qr = arr(qr, (me, n)); asdq = arr(asdq, (me, n)); bm = arr(bm, (me, n)); bp = arr(bp, (me, n))
            bm[...] = np.nan; bp[...] = np.nan
            A = [self._sides(a, self.maux, n, N, True) for a in (a1, a2, a3)]
            x, y = self.transverse3t(ix[0] - 1, icoor[0], imp[0], impt[0], np.array(qr[:, :N - 1]), np.array(ql[:, 1:N]), A, np.array(asdq[:, 1:N]))
            bm[:, 1:N] = x; bp[:, 1:N] = y
        return T(f)
