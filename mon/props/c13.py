import numpy as np
from .. import kit
from ..synth import SynthRP
ID = 'C13'; LEVEL = 'exploration'
RULE = ('one case = one smooth problem with a known exact solution (random linear hyperbolic systems, oblique acoustic plane waves) run on three '
        'grids, or with three step sizes; the observed order of convergence must reach the design order of the selected method')
ASSUMPTIONS = ['orders are observed on finite grids and must come within 0.4 of the design order (0.8 for limited schemes, which clip extrema) on one of two refinements, or the error be at rounding level']

SPACE = {5: (16, 32, 64), 7: (16, 32, 64), 9: (14, 28, 56), 11: (14, 28, 56), 13: (12, 24, 48), 15: (12, 24, 48), 17: (12, 24, 48)}


def cases(rng, tier):
    n = {'quick': 4, 'thorough': 60}[tier]
    out = []

    def add(kind, k, **o):
        for _ in range(k):
            out.append(dict(kind=kind, seed=rng.randrange(1 << 30), meqn=rng.choice([1, 2, 3]), **o))
    for kern in ('Fortran', 'Python'):
        for fw in (False, True):
            add('classic1', n, nd=1, order=1, lim=0, kern=kern, fwave=fw, want=1, slack=.35)
            add('classic1', n, nd=1, order=2, lim=0, kern=kern, fwave=fw, want=2, slack=.35)
            add('classic1', n, nd=1, order=2, lim=rng.choice([3, 4]), kern=kern, fwave=fw, want=2, slack=.8)
    for nd in (2, 3):
        add('split%d' % nd, n, nd=nd, order=2, lim=0, kern='Fortran', fwave=False, want=2, slack=.55)
        add('split%d' % nd, n, nd=nd, order=1, lim=0, kern='Fortran', fwave=False, want=1, slack=.4)
    add('unsplit2', n, nd=2, trans=2, want=2, slack=.45)
    add('unsplit2', n, nd=2, trans=1, want=1, slack=.4)
    add('unsplit3', max(2, n // 3), nd=3, trans=22, want=2, slack=.45)
    for k in (5, 7, 9, 11, 13, 15, 17):
        add('weno', n, nd=1, weno=k, kern='Fortran', cd=0, want=min(k, 9), slack=1.5)
    add('weno', n, nd=2, weno=5, kern='Fortran', cd=0, want=5, slack=.8)
    add('weno', max(2, n // 3), nd=3, weno=5, kern='Fortran', cd=0, want=5, slack=.8)
    add('weno', n, nd=1, weno=5, kern='Python', cd=0, want=5, slack=.8)
    add('weno', n, nd=1, weno=5, kern='Fortran', cd=1, want=3, slack=.8)
    add('tvd', n, nd=1, kern='Fortran', cd=0, lim=4, want=2, slack=.8)
    for ti, p in (('Euler', 1), ('SSP22', 2), ('SSP33', 3), ('SSP104', 4), ('SSPLMMk2', 2), ('SSPLMMk3', 3), ('RK', 4)):
        for nd in (1, 2):
            add('time', max(2, n // 2), nd=nd, ti=ti, want=p, slack=.4)
    return out


class Linear(object):
    def __init__(self, c, nd):
        me = c['meqn']
        self.rp = rp = SynthRP(nd, me, me, 0, c['seed'], 'linear', c.get('fwave', False))
        for d in range(1, nd):
            rp.R[d] = rp.R[0]; rp.L[d] = rp.L[0]
        r = np.random.RandomState(c['seed'])
        self.K = [[r.choice([-1, 1]) for _ in range(nd)] for _ in range(me)]
        self.ph = r.uniform(0, 6, me); self.me = me; self.nd = nd
        self.lam = max(abs(l).max() for l in rp.lam)

    def value(self, X, dx, t, deriv=False):
        w = []
        for p in range(self.me):
            a = sum(2 * np.pi * self.K[p][d] * (X[d] - self.rp.lam[d][p] * t) for d in range(self.nd)) + self.ph[p]
            if deriv:
                f = -np.sin(a) * -2 * np.pi * sum(self.K[p][d] * self.rp.lam[d][p] for d in range(self.nd))
            else:
                f = np.cos(a)
            for d in range(self.nd):
                f = f * np.sinc(self.K[p][d] * dx[d])
            w.append(f if deriv else f + .3)
        return np.tensordot(self.rp.R[0], np.array(w), 1)


class Plane(object):
    """oblique plane wave of linear acoustics"""
    def __init__(self, c, nd):
        from clawpack import riemann
        self.rp = riemann.acoustics_2D if nd == 2 else riemann.vc_acoustics_3D
        r = np.random.RandomState(c['seed'])
        self.k = np.array([r.choice([-1, 1]) for _ in range(nd)]); self.nd = nd
        self.rho, self.bulk = 1.3, 2.1
        self.c = (self.bulk / self.rho) ** .5; self.z = self.rho * self.c
        self.ph = r.uniform(0, 6); self.me = nd + 1
        self.lam = self.c

    def value(self, X, dx, t):
        kk = np.linalg.norm(self.k)
        f = np.cos(2 * np.pi * (sum(self.k[d] * X[d] for d in range(self.nd)) - self.c * kk * t) + self.ph)
        for d in range(self.nd):
            f = f * np.sinc(self.k[d] * dx[d])
        return np.array([f] + [f / self.z * self.k[d] / kk for d in range(self.nd)])


def order(mon, errs, want, slack, floor, what):
    ps = [np.log2(errs[i] / errs[i + 1]) if errs[i + 1] > 0 else 99. for i in range(len(errs) - 1)]
    mon.count('refinements', len(ps))
    mon.peak('largest_order', max(ps))
    ok = all(np.isfinite(errs)) and (max(ps) >= want - slack or errs[-1] <= floor)
    mon.check(ok, 'order', '%s converges at order %s instead of %s' % (what, np.round(ps, 2).tolist(), want), errors=errs)
    # and the finest error is small at all: a wrong but convergent limit does not do
    mon.check(errs[-1] < .35, 'limit', '%s does not converge to the exact solution' % what, errors=errs)


def run(case, mon):
    from clawpack import pyclaw
    nd = case['nd']; kind = case['kind']
    mon.need('refinements')
    prob = (Plane if kind.startswith('unsplit') else Linear)(case, nd)

    def build(n):
        nn = [n + d for d in range(nd)]
        sol = kit.solution(nn, prob.me, 2 if kind == 'unsplit3' else 0, 1)
        sol.state.q[...] = prob.value(sol.domain.grid.c_centers, sol.domain.grid.delta, 0)
        fam = kit.SHARP if kind in ('weno', 'tvd', 'time') else kit.CLASSIC
        s = fam[nd]()
        s.rp = prob.rp; s.num_eqn = prob.me; s.num_waves = prob.me if isinstance(prob, Linear) else 2
        s.fwave = case.get('fwave', False)
        s.kernel_language = case.get('kern', 'Fortran')
        kit.set_bcs(s, [2] * nd, [2] * nd)
        if isinstance(prob, Plane):
            sol.state.problem_data.update(rho=prob.rho, bulk=prob.bulk, zz=prob.z, cc=prob.c)
            if nd == 3:
                sol.state.aux[0] = prob.z; sol.state.aux[1] = prob.c
        s.cfl_max = 1e9; s.cfl_desired = 1e8; s.dt_variable = False
        return s, sol

    def go(s, sol, T, dt):
        m = max(1, int(np.ceil(T / dt - 1e-9)))
        s.dt = s.dt_initial = T / m
        s.evolve_to_time(sol, T)
        return np.array(sol.state.q)
    errs = []
    if kind in ('weno', 'tvd'):
        ns = SPACE[case['weno']] if kind == 'weno' else (20, 40, 80)
        if nd == 3:
            ns = (10, 20, 30)
        for n in ns:
            s, sol = build(n)
            s.time_integrator = 'Euler'; s.char_decomp = case['cd']
            if kind == 'weno':
                s.weno_order = case['weno']
            else:
                s.lim_type = 1; s.limiters = [case['lim']]
            q0 = np.array(sol.state.q); dt = 1. / n
            rhs = (go(s, sol, dt, dt) - q0) / dt
            ex = prob.value(sol.domain.grid.c_centers, sol.domain.grid.delta, 0, True)
            errs.append(float(np.abs(rhs - ex).mean() / max(1e-3, np.abs(ex).mean())))
            mon.count('steps')
        if nd == 3:
            errs = [errs[0], errs[1]]
        return order(mon, errs, case['want'], case['slack'], 1e-10, 'the spatial discretisation')
    if kind == 'time':
        # waves at rest: the integrator sees the ordinary differential equation of the source term
        for d in range(nd):
            prob.rp.lam[d] = 0 * prob.rp.lam[d]
        T = .8

        def f(q, t):
            return np.cos(q) * (1.5 + np.sin(2 * t)) - .4 * q[::-1]
        qs = []
        for m in (1, 2, 4, 8):
            s, sol = build(8)
            s.time_integrator = case['ti']
            s.dq_src = lambda solver, state, dt: dt * f(state.q, state.t)
            if case['ti'] == 'RK':
                s.a = np.array([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1, 0.]])
                s.b = np.array([1 / 6., 1 / 3., 1 / 3., 1 / 6.]); s.c = np.array([0, .5, .5, 1.])
            if case['ti'].startswith('SSPLMM'):
                s.lmm_steps = 4 if case['ti'].endswith('2') else 5
                s.check_lmm_cond = False
            qs.append(go(s, sol, T, T / (24 if 'LMM' in case['ti'] else 6) / m)); mon.count('steps')
        errs = [float(np.abs(qs[i] - qs[i + 1]).max()) for i in range(3)]
        return order(mon, errs, case['want'], case['slack'], 1e-11, 'the time integration by %s' % case['ti'])
    ns = {1: (20, 40, 80), 2: (16, 32, 64), 3: (8, 16, 32)}[nd]
    for n in ns:
        s, sol = build(n)
        s.limiters = [case.get('lim', 0)]
        s.order = case.get('order', 2)
        if nd > 1:
            s.dimensional_split = kind.startswith('split')
            if not s.dimensional_split:
                s.transverse_waves = case['trans']
        T = .2 / prob.lam if nd < 3 else .1 / prob.lam
        q = go(s, sol, T, .45 / max(n, 1) / prob.lam / (1 if nd < 3 or kind.startswith('split') else 2))
        ex = prob.value(sol.domain.grid.c_centers, sol.domain.grid.delta, T)
        errs.append(float(np.abs(q - ex).mean() / max(1e-3, np.abs(ex).mean()))); mon.count('steps')
    order(mon, errs, case['want'], case['slack'], 1e-12, 'the solution')
