import numpy as np
from .. import kit, scheme, sharp
from ..synth import SynthRP
ID = 'C12'; LEVEL = 'exploration'
RULE = ('kind formula/local: one case = random waves, speeds and Courant numbers through the public limiting routine, each interface compared with the '
        'documented limiter function, and with the same interface limited among other neighbours; kind tvd: one case = one scalar advection run '
        'with a TVD limiter, total variation and extrema monitored on every step; kind kernel/edges: one case = a step of a compiled or Python solver, whose '
        'limited part (second-order minus first-order step; edge values of the TVD reconstruction) is compared with the limiter formula for each wave family')
ASSUMPTIONS = ['formulas are those documented in the limiter library, for limiters 11-23 those of its cited source as the library parametrises them, away from zero Courant numbers and ratios where they divide by zero',
               'the TVD monitor covers constant-coefficient scalar advection with Courant numbers at most 1 (0.5 for the method of lines)']


def phi(k, r, c):
    a = np.abs(r)
    one = np.ones_like(r); z = 0 * r
    if k == 0:
        return one
    if k == 1:
        return np.maximum(0, np.minimum(1, r))
    if k == 2:
        return np.maximum(z, np.maximum(np.minimum(1, 2 * r), np.minimum(2, r)))
    if k == 3:
        return (r + a) / (1 + a)
    if k == 4:
        return np.maximum(0, np.minimum(np.minimum((1 + r) / 2, 2), 2 * r))
    if k == 5:
        return r
    if k == 6:
        return .5 * (1 + r)
    if k == 7:
        return (r * r + r) / (1 + r * r)
    if k == 8:
        return .5 * (1 + r) * (1 - np.abs(1 - r) ** 3 / (1 + a ** 3))
    if k == 9:
        m = np.minimum(r, 1 / np.maximum(r, 1e-5))
        return (r + a) / (1 + a) * (1 + m * (1 - m) * (1 - m * m))
    if k == 10:
        return 1 + (1 + c) / 3 * (r - 1)
    return np.array([phi_cfl(k, float(x), float(y)) for x, y in zip(r, c)])


def phi_cfl(k, r, c):
    """limiters 11-23, one interface at a time"""
    third = 1 + (1 + c) / 3 * (r - 1)                # the linear third-order scheme
    lo, hi = 2 / max(c, 1e-3), 2 / (1 - min(c, .999))  # TVD bounds: lo*r and hi
    a = abs(r)
    if k == 11:
        return max(0., min(.99 * 2 / c * r, third, .99 * 2 / (1 - c)))
    if k in (12, 13, 14):
        th = {12: .95, 13: .75, 14: .5}[k]
        return min(max((1 - th) * lo, third), max((1 - th) * hi * r, th * lo * r), th * hi)
    if k == 15:
        return max(0., min(1., lo * r), min(hi, r))
    if k == 16:
        return min(max(0., min(.95 * lo * r, .95 * hi)), max(1., r))
    if k in (17, 18):
        th = 1. if k == 17 else .95
        s2 = (1 + c) / 3
        return max(0., min(max(0., min(th * lo * r, th * hi)), max(1 + (s2 - 1 / 3.) * (r - 1), 1 + (s2 + 1 / 3.) * (r - 1))))
    if k == 19:
        if r < 0:
            return 0.
        if abs(r - 1) < 1e-6:
            return 1.
        return 2 * r / (r - 1) * (c * (r - 1) + 1 - r ** c) / (max(c, 1e-3) * (1 - min(c, .999)) * (r - 1))
    if k == 20:
        s2 = (1 + c) / 3; s3 = 1 - s2
        p = 2 / c * 2 * s3 if r <= 1 else 2 / (1 - c) * 2 * s2
        return {1: 1., 0: .0, -1: 0.}[int(np.sign(r))] * (s3 + s2 * r) * (1 - abs((1 - a) / (1 + a)) ** p)
    if k == 21:
        e = 1e-3
        return max(min(1 + (1 + c) / 3 * (r - 1), (1 - e) * 2 * a / (c + e), (1 - e) * (8 - 2 * c) / (a * (c - 1 - e) ** 2)),
                   -2 * (c * c - 3 * c + 8) * (1 - e) / (a * (c ** 3 - c * c - c + 1 + e)))
    if k == 22:
        return max(min(third, 2 * a / (.6 + a), 5 / a), -3 / a)
    if k == 23:
        return max(0., min(lo * r, hi))


def cases(rng, tier):
    n = {'quick': 24, 'thorough': 400}[tier]
    out = []
    for k in range(0, 24):
        for _ in range(n):
            out.append(dict(kind='formula', lim=k, meqn=rng.choice([1, 2, 3]), seed=rng.randrange(1 << 30),
                            n=rng.choice([3, 4, 9, 30])))
    for fam in ('classic-Fortran', 'classic-Python', 'sharp-SSP33', 'sharp-Euler', 'split2', 'split3'):
        for k in (1, 2, 3, 4):
            for _ in range(n if fam[0] != 's' or k < 3 else max(2, n // 2)):
                out.append(dict(kind='tvd', fam=fam, lim=k, seed=rng.randrange(1 << 30), n=rng.choice([5, 12, 31]),
                                cfl=rng.choice([.1, .5, .9, 1.]), sign=rng.choice([-1, 1]), bc=rng.choice([1, 2])))
    for nd, kern in ((1, 'Fortran'), (1, 'Fortran'), (1, 'Python'), (2, 'Fortran'), (3, 'Fortran')):
        for _ in range(n if nd < 3 else n // 2):
            c = scheme.common(rng, nd, order=2, kernel=kern, split=True, trans=0, mode='linear')
            c['mwaves'] = c['meqn']; c['lims'] = [rng.choice([0, 1, 2, 3, 4, 5]) for _ in range(c['meqn'])]
            if c['n'][0] < 5:
                c['n'][0] = 5
            c['kind'] = 'kernel'; c['plain'] = rng.random() < .4
            out.append(c)
    for nd in (1, 1, 2):
        for _ in range(n):
            c = sharp.common(rng, nd, lim_type=1, char_decomp=rng.choice([0, 0, 1]))
            c['kind'] = 'edges'
            out.append(c)
    return out


def kernel(case, mon):
    """what the limiter contributes to a step of the solver: the difference between the limited second-order step and the first-order one"""
    nd = case['nd']
    sols, got, want = [], [], []
    for order in (2, 1):
        c = dict(case, order=order)
        rp = SynthRP(nd, c['meqn'], c['mwaves'], c['maux'], c['seed'], 'linear', c['fwave'])
        if c['plain']:
            # equal and opposite jumps: ratios of exactly 0, 1, -1 and the like
            for d in range(nd):
                rp.R[d] = np.eye(c['meqn']); rp.L[d] = np.eye(c['meqn'])
        sol = kit.solution(c['n'], c['meqn'], c['maux'], c['seed'] + 1, capa=c['capa'], lower=c['lower'], upper=c['upper'])
        if c['plain']:
            sol.state.q[...] = np.random.RandomState(c['seed']).randint(-2, 3, sol.state.q.shape)
        s = scheme.build_solver(c, rp)
        cb = scheme.custom_bc(c['seed']); scheme.attach_custom(s, cb, s.num_ghost)
        dx = list(sol.domain.grid.delta)
        s.dt_variable = False; s.dt = s.dt_initial = dt = c['cfl'] * min(dx)
        q0 = np.array(sol.state.q); a0 = None if sol.state.aux is None else np.array(sol.state.aux)
        s.evolve_to_time(sol)
        got.append(np.array(sol.state.q))
        want.append(scheme.ref_step(c, rp, q0, a0, dx, dt, s.num_ghost, cb, s.reflect_index)[0])
    sc = max(1., float(np.abs(q0).max()), float(np.abs(want[0]).max()))
    mon.close(got[0] - got[1], want[0] - want[1], 1e-9, 'kernel', 'the limited part of a step is not that of the documented limiter', scale=sc, limiters=case['lims'])
    mon.count('steps'); mon.need('steps')


def run(case, mon):
    if case['kind'] == 'kernel':
        return kernel(case, mon)
    if case['kind'] == 'edges':
        return sharp.run_space(case, mon, tol=1e-8)
    if case['kind'] == 'tvd':
        return tvd(case, mon)
    from clawpack.pyclaw.limiters import tvd as lib
    r = np.random.RandomState(case['seed'])
    me, n, k = case['meqn'], case['n'], case['lim']
    mw = 2
    wave = r.randn(me, mw, n + 2) * 10. ** r.uniform(-3, 3, (1, mw, n + 2)) if r.rand() < .5 else r.randint(-2, 3, (me, mw, n + 2)).astype(float)
    s = r.uniform(-1, 1, (mw, n + 2))
    s[r.rand(mw, n + 2) < .1] = 0
    dtdx = r.uniform(.1, .9, n + 3)
    if r.rand() < .3:
        dtdx[:] = 1.; s[r.rand(mw, n + 2) < .2] = 1; s[r.rand(mw, n + 2) < .2] = -1
    lims = [k, r.choice([0, 1, 2, 3, 4])]
    if r.rand() < .5:
        lims = lims[::-1]
    got = np.array(lib.limit(me, wave.copy(), s.copy(), list(lims), dtdx.copy()))
    mon.count('interfaces', n)
    w2 = (wave ** 2).sum(0)
    dot = (wave[:, :, 1:] * wave[:, :, :-1]).sum(0)
    pos = s[:, 1:-1] > 0
    with np.errstate(all='ignore'):
        ratio = np.where(pos, dot[:, :-1], dot[:, 1:]) / w2[:, 1:-1]
    cfl = np.abs(s[:, 1:-1] * np.where(pos, dtdx[1:-2], dtdx[2:-1]))
    for j, l in enumerate(lims):
        nz = w2[j, 1:-1] > 0
        rr = np.where(nz, ratio[j], 1.)
        if l > 10:
            # bounds divide by the ratio and by the Courant number
            nz2 = (cfl[j] > .05) & (cfl[j] < .95) & (np.abs(rr) > 1e-8) & ((np.abs(rr - 1) > 1e-3) | (rr == 1) | (l != 19))
            if not nz2.any():
                continue
        else:
            nz2 = np.ones(n, bool)
        mon.count('limited_by_%d' % l, int(nz2.sum()))
        f = np.ones(n)
        f[nz2] = phi(l, rr[nz2], cfl[j][nz2])
        want = np.where(nz, f, 1.) * wave[:, j, 1:-1]
        mon.check(bool(np.isfinite(got[:, j, 1:-1]).all()), 'finite', 'a limited wave is not a number', limiter=l,
                  courant=cfl[j][~np.isfinite(got[:, j, 1:-1]).all(0)])
        want = np.where(nz2, want, got[:, j, 1:-1])
        want = np.where(np.isfinite(got[:, j, 1:-1]), want, 0)
        sc = np.maximum(1e-300, np.abs(want).max())
        mon.check(bool(np.all(np.abs(np.nan_to_num(got[:, j, 1:-1]) - want) <= 1e-9 * np.abs(want) + 1e-12 * np.abs(wave[:, j, 1:-1]))), 'formula',
                  'limited waves are not the documented limiter times the wave', limiter=l, worst=float(np.nanmax(np.abs(got[:, j, 1:-1] - want)) / sc))
    # locality: interface i depends only on itself and its two neighbours
    for i in range(n):
        w = wave[:, :, i:i + 3]
        one = np.array(lib.limit(me, w.copy(), s[:, i:i + 3].copy(), list(lims), dtdx[i:i + 4].copy()))
        a, b = one[:, :, 1], got[:, :, i + 1]
        if not mon.check(np.allclose(a, b, rtol=1e-10, atol=0, equal_nan=True), 'local',
                         'the limited wave at an interface depends on waves far away', limiter=lims, i=i, alone=a, among=b):
            break
    mon.need('interfaces')


def tvd(case, mon):
    nd = {'split2': 2, 'split3': 3}.get(case['fam'], 1)
    rp = SynthRP(nd, 1, 1, 0, case['seed'], 'linear', False)
    r = np.random.RandomState(case['seed'])
    for d in range(nd):
        rp.lam[d] = np.array([case['sign'] * (1. if d == 0 else r.uniform(-1, 1))])
        rp.R[d] = np.eye(1); rp.L[d] = np.eye(1)
    n = {1: [case['n']], 2: [min(case['n'], 9), 5], 3: [5, 4, 4]}[nd]
    sharp = case['fam'].startswith('sharp')
    if sharp:
        n = [max(6, k) for k in n]
    sol = kit.solution(n, 1, 0, case['seed'] + 1)
    s = (kit.SHARP if sharp else kit.CLASSIC)[nd]()
    s.rp = rp; s.num_eqn = 1; s.num_waves = 1; s.fwave = False
    s.limiters = [case['lim']]
    cfl = case['cfl']
    if sharp:
        s.lim_type = 1; s.time_integrator = case['fam'].split('-')[1]; cfl *= .5
        s.cfl_max = 1.; s.cfl_desired = .9
        s.char_decomp = r.choice([0, 1])
    else:
        s.order = 2
        if nd > 1:
            s.dimensional_split = True
        else:
            s.kernel_language = case['fam'].split('-')[1]
        s.cfl_max = 1. + 1e-9; s.cfl_desired = .9
    kit.set_bcs(s, [case['bc']] * nd, [case['bc']] * nd)
    dx = min(sol.domain.grid.delta)
    s.dt_variable = False; s.dt = s.dt_initial = cfl * dx
    q = np.array(sol.state.q)
    lo, hi = q.min(), q.max()
    eps = 1e-12 * max(1, np.abs(q).max())

    def tv(q):
        v = q[0]
        return np.abs(np.diff(v)).sum() + (abs(v[0] - v[-1]) if case['bc'] == 2 else 0)
    old = tv(q) if nd == 1 else None
    for k in range(12):
        s.evolve_to_time(sol, sol.t + s.dt)
        q = np.array(sol.state.q)
        mon.count('steps')
        if nd == 1:
            new = tv(q)
            if not mon.check(new <= old + 20 * eps, 'tv', 'a TVD limiter let the total variation grow', before=old, after=new, step=k):
                break
            old = new
        if not mon.check(q.min() >= lo - eps * 10 and q.max() <= hi + eps * 10, 'range', 'a TVD limiter let new extrema appear',
                         bounds=[lo, hi], got=[q.min(), q.max()], step=k):
            break
    mon.need('steps')
