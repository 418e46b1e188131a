import numpy as np
from .. import kit, scheme, sharp, ref_bc, ref_sharp
from ..synth import SynthRP
ID = 'C11'; LEVEL = 'exploration'
RULE = ('one case = one run with a source term (unsplit, Godunov- or Strang-split; fixed, adaptive, rejecting, and steps at exactly the '
        'allowed Courant number); the recorded sequence of source and hyperbolic substeps of every accepted step is compared with the '
        'splitting formula, the hyperbolic substep being recomputed by an unused solver')
ASSUMPTIONS = ['the hyperbolic substep itself is decided by C05-C08']


def cases(rng, tier):
    out = []
    reps = 40 if tier == 'quick' else 500
    for nd in (1, 2, 3):
        for split in (1, 2):
            for mode in ('fixed', 'adaptive', 'exact', 'exact-adaptive'):
                for i in range(reps if nd < 3 else max(2, reps // 3)):
                    kern = rng.choice(['Fortran', 'Python']) if nd == 1 else 'Fortran'
                    c = scheme.common(rng, nd, kernel=kern, mode='linear', trans=0, split=True, fwave=False, maux=0, capa=-1)
                    c['mwaves'] = c['meqn']; c['lims'] = [4] * c['meqn']
                    c.update(source_split=split, stepping=mode)
                    c['n'] = {1: [16], 2: [8, 8], 3: [4, 4, 4]}[nd]
                    c['lower'] = [0.] * nd; c['upper'] = [1.] * nd
                    c['kind'] = 'classic%d-%s-%s' % (nd, {1: 'godunov', 2: 'strang'}[split], mode)
                    out.append(c)
    return out


def run(case, mon):
    nd = case['nd']
    mk = lambda: SynthRP(nd, case['meqn'], case['mwaves'], case['maux'], case['seed'], 'linear', False)
    def exact(rp):
        if case['stepping'].startswith('exact'):
            for d in range(nd):
                rp.lam[d] = np.where(rp.lam[d] > 0, 1., -1.)
        return rp
    rp = exact(mk())
    sol = kit.solution(case['n'], case['meqn'], 0, case['seed'] + 1)
    ng = case.get('nghost', 2)

    def build(rp):
        s = scheme.build_solver(case, rp)
        cb = scheme.custom_bc(case['seed']); scheme.attach_custom(s, cb, ng)
        return s
    s = build(rp)
    dx = min(sol.domain.grid.delta)
    log = []

    def S(q, t, dt):
        q = np.array(q)
        q[0] += dt * (1.7 * np.cos(q[-1]) + .3 * q[0] * np.sin(3 * dt / dx))
        return q

    def src(solver, state, dt):
        log.append(['S', np.array(state.q), dt])
        state.q[...] = S(state.q, state.t, dt)
        log[-1].append(np.array(state.q))
    s.step_source = src; s.source_split = case['source_split']

    def before(solver, state):
        log.append(['B', np.array(state.q), state.t])
    s.before_step = before
    lam = max(float(np.abs(l).max()) for l in rp.lam)
    if case['stepping'] == 'fixed':
        s.dt_variable = False; s.dt = .4 * dx / lam; T = 4 * s.dt
    elif case['stepping'] == 'exact':
        s.dt_variable = False; s.dt = dx; s.cfl_max = 1.; s.cfl_desired = .9; T = 4 * dx
    elif case['stepping'] == 'adaptive':
        s.dt_variable = True; s.dt = 3 * dx / lam; s.cfl_max = 1.; s.cfl_desired = .9; T = 4.2 * dx / lam
    else:
        s.dt_variable = True; s.dt = 2 * dx; s.cfl_max = 1.; s.cfl_desired = 1.; T = 4 * dx
    s.dt_initial = s.dt
    s.evolve_to_time(sol, T)
    log.append(['B', np.array(sol.state.q), sol.t])
    # group the log by attempt
    att = []
    for e in log:
        if e[0] == 'B':
            att.append([e])
        else:
            att[-1].append(e)
    for k in range(len(att) - 1):
        (_, q0, t0), calls = att[k][0], att[k][1:]
        _, q1, t1 = att[k + 1][0]
        if t1 == t0:
            mon.count('rejected'); continue
        mon.count('steps')
        dt = t1 - t0
        half = case['source_split'] == 2
        want = [dt / 2, dt / 2] if half else [dt]
        got = [c[2] for c in calls]
        if not mon.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-9, atol=1e-14), 'calls',
                         'the source term was not applied over exactly the step', got=got, expected=want, t=t0):
            continue
        qh = calls[0][3] if half else q0
        if half:
            mon.check(np.array_equal(calls[0][1], q0, equal_nan=True), 'order', 'the first source half-step does not start from the old solution')
        b = build(exact(mk())); b.dt_variable = False; b.dt = b.dt_initial = calls[0][2] * (2 if half else 1)
        b.cfl_max = 1e30; b.cfl_desired = 1e29
        sb = kit.solution(case['n'], case['meqn'], 0, case['seed'] + 1)
        sb.state.q[...] = qh; sb.t = t0
        b.evolve_to_time(sb)
        sc = max(1., np.abs(q0).max())
        mon.close(calls[-1][1], sb.state.q, 1e-12, 'hyperbolic', 'the hyperbolic substep does not lie where the splitting puts it', scale=sc, t=t0)
        mon.check(np.array_equal(calls[-1][3], q1, equal_nan=True), 'final', 'the step does not end with the source substep')
    mon.check(abs(sol.t - T) < 1e-12 * T + 1e-15, 'tend', 'the run did not reach the end time', t=sol.t, T=T)
    mon.need('steps')
