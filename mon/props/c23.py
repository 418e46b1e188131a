import numpy as np
from .. import kit, ref_bc, ref_sharp, scheme, sharp
ID = 'C23'; LEVEL = 'exploration'
RULE = ('one case = one run with random Riemann solvers (nonlinear speeds of either sign, capacity functions, unequal cells, 1-3 dimensions): the Courant number the solver reports after a '
        'step must be the largest dt|s|/(capacity dx) of the interfaces of that step (all stages of a multi-stage step), as an independent model finds it; adaptive: no accepted step '
        'exceeds cfl_max by that model')
ASSUMPTIONS = ['method of lines: interfaces between ghost cells may or may not be included', 'stage states are those handed to the source-term hook']


def cases(rng, tier):
    k = 1 if tier == 'quick' else 15
    out = []
    for nd in (1, 2, 3):
        for kernel in (['Fortran', 'Python'] if nd == 1 else ['Fortran']):
            for _ in range({1: 30, 2: 50, 3: 35}[nd] * k):
                c = scheme.common(rng, nd, kernel=kernel)
                c['split'] = nd > 1 and rng.random() < .5
                c['trans'] = 0 if c['split'] or nd == 1 else rng.choice([0, 1, 2] if nd == 2 else [0, 10, 11, 20, 21, 22])
                c['kind'] = 'classic%d' % nd; out.append(c)
                if rng.random() < .6:
                    out.append(dict(c, kind='adaptive-classic%d' % nd, steps=5))
        for _ in range({1: 40, 2: 40, 3: 14}[nd] * k):
            v = dict(rng.choice([dict(lim_type=2), dict(lim_type=2, weno_order=7), dict(lim_type=1), dict(lim_type=2, char_decomp=1, fwave=False), dict(lim_type=3)]))
            if nd == 1 and rng.random() < .3:
                v = dict(kernel='Python')
            c = sharp.common(rng, nd, **v)
            c['kind'] = 'sharp%d' % nd; out.append(c)
            c = dict(c, kind='stages-sharp%d' % nd, integrator=rng.choice(['SSP33', 'SSP104', 'RK', 'Euler']), steps=2); out.append(c)
            if rng.random() < .6:
                out.append(dict(c, kind='adaptive-sharp%d' % nd, steps=4))
    for c in out:
        # one small cell, anywhere, decides the Courant number
        c['spike'] = c['capa'] >= 0 and rng.random() < .6
    return out


def run(c, mon):
    if c['kind'].startswith('classic'):
        return scheme.run_case(c, mon, cfl_only=True)
    if c['kind'].startswith('sharp'):
        return sharp.run_space(c, mon, cfl_only=True)
    mon.need('attempts')
    if 'classic' in c['kind']:
        return adaptive_classic(c, mon)
    return stages(c, mon)


def adaptive_classic(c, mon):
    rp = scheme.SynthRP(c['nd'], c['meqn'], c['mwaves'], c['maux'], c['seed'], c['mode'], c['fwave'])
    rp2 = scheme.SynthRP(c['nd'], c['meqn'], c['mwaves'], c['maux'], c['seed'], c['mode'], c['fwave'])
    sol = kit.solution(c['n'], c['meqn'], c['maux'], c['seed'] + 1, capa=c['capa'], lower=c['lower'], upper=c['upper'], spike=c.get('spike', False))
    s = scheme.build_solver(c, rp)
    cb = scheme.custom_bc(c['seed']); scheme.attach_custom(s, cb, s.num_ghost)
    s.cfl_max = .5; s.cfl_desired = .45
    dx = list(sol.domain.grid.delta)
    s.dt = s.dt_initial = 4 * min(dx)
    aux0 = None if sol.state.aux is None else np.array(sol.state.aux)
    seen = []

    def before(solver, state):
        # the values of the attempt before this one
        seen.append([np.array(state.q), None, None])
    s.before_step = before
    base = s.accept_reject_step

    def watch(state):
        seen[-1][1:] = [s.dt, s.cfl.get_cached_max()]
        return base(state)
    s.accept_reject_step = watch
    for _ in range(c['steps']):
        k = len(seen)
        t = sol.t
        s.evolve_to_time(sol)
        for j, (q, dt, cfl) in enumerate(seen[k:]):
            mon.count('attempts')
            _, want = scheme.ref_step(c, rp2, q, aux0, dx, dt, s.num_ghost, cb, s.reflect_index)
            mon.check(scheme.cfl_ok(c, rp2, q, aux0, dx, dt, s.num_ghost, cb, s.reflect_index, cfl, want), 'cfl', 'reported Courant number differs from the largest dt*|s|/(capacity*dx)', got=cfl, expected=want)
            last = j == len(seen) - k - 1
            if last:
                mon.count('accepted')
                mon.check(want <= s.cfl_max * (1 + 1e-9), 'accepted', 'a step beyond cfl_max was accepted', courant=want, cfl_max=s.cfl_max)
            else:
                mon.count('rejected')
                mon.check(cfl >= s.cfl_max * (1 - 1e-9), 'rejected', 'a step within cfl_max was rejected', courant=want, cfl_max=s.cfl_max)
        if not np.isfinite(sol.state.q).all() or np.abs(sol.state.q).max() > 1e6:
            break


def stages(c, mon):
    nd = c['nd']; adaptive = c['kind'].startswith('adaptive')
    rp = sharp.synth(c); rp2 = sharp.synth(c)
    sol = kit.solution(c['n'], c['meqn'], c['maux'], c['seed'] + 1, capa=c['capa'], lower=c['lower'], upper=c['upper'], spike=c.get('spike', False))
    s = sharp.build(c, rp)
    s.time_integrator = c['integrator']
    if c['integrator'] == 'RK':
        s.a = np.array([[0., 0], [.5, 0]]); s.b = np.array([0., 1.]); s.c = np.array([0., .5])
    ng = c['ng']
    cb = scheme.custom_bc(c['seed']); scheme.attach_custom(s, cb, ng)
    dx = list(sol.domain.grid.delta)
    dt = c['cfl'] * min(dx)
    if adaptive:
        s.cfl_max = .4; s.cfl_desired = .36; dt *= 4
    s.dt_variable = adaptive; s.dt = s.dt_initial = dt
    aux0 = None if sol.state.aux is None else np.array(sol.state.aux)
    st = []
    log = []

    def source(solver, state, dt):
        st.append(np.array(state.q))
        return np.zeros(state.q.shape)
    s.dq_src = source
    base = s.accept_reject_step

    def watch(state):
        log.append((s.dt, s.cfl.get_cached_max(), list(st)))
        return base(state)
    s.accept_reject_step = watch
    for k in range(c['steps']):
        st.clear(); log.clear()
        s.evolve_to_time(sol)
        for j, (dt, cfl, states) in enumerate(log):
            mon.count('attempts')
            if not np.isfinite(states).all() or np.abs(states).max() > 1e6:
                return
            start = 0 if j == 0 else len(log[j - 1][2])
            used = [states[0]] + states[max(1, start):]     # the first stage is evaluated once and kept for the attempts after a rejected one
            lo = hi = 0.
            for q in used:
                Q, A = ref_bc.fill(q, aux0, ng, c['bcl'], c['bcu'], c.get('abcl') or c['bcl'], c.get('abcu') or c['bcu'], s.reflect_index, cb)
                _, a, b = ref_sharp.dq(c, rp2, Q, A, dx, dt, ng)
                lo = max(lo, a); hi = max(hi, b)
            mon.count('stages', len(used))
            mon.check(lo * (1 - 1e-6) <= cfl, 'cfl-low', 'the reported Courant number is smaller than that of a stage', got=cfl, lower=lo, upper=hi, step=k)
            if j == 0:
                mon.check(cfl <= hi * (1 + 1e-6) + 1e-12, 'cfl-high', 'the reported Courant number is larger than that of any stage', got=cfl, lower=lo, upper=hi, step=k)
            if adaptive and j == len(log) - 1:
                mon.count('accepted')
                mon.check(lo <= s.cfl_max * (1 + 1e-6), 'accepted', 'a step beyond cfl_max was accepted', courant=lo, cfl_max=s.cfl_max)
