import numpy as np
from .. import kit, ref_bc, ref_sharp, sharp, scheme
ID = 'C09'; LEVEL = 'exploration'
RULE = ('one case = one method-of-lines run of at least nine accepted steps with one time integrator (fixed or adaptive steps, '
        'rejections included), a source term, boundary values and aux data that depend on time; every accepted step is compared '
        'with the integrator formula applied to an independent right-hand side at the right stage times')
ASSUMPTIONS = ['relative tolerance 1e-8 per step', 'with the a-posteriori step-size condition of SSPLMMk3 (off by default): aux data constant in time']

RK = {  # classical RK4, Heun, a random third-order method (Ralston)
    'rk4': ([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1, 0]], [1 / 6, 1 / 3, 1 / 3, 1 / 6], [0, .5, .5, 1]),
    'heun': ([[0, 0], [1, 0]], [.5, .5], [0, 1]),
    'ralston3': ([[0, 0, 0], [.5, 0, 0], [0, .75, 0]], [2 / 9, 1 / 3, 4 / 9], [0, .5, .75]),
    'ssp33': ([[0, 0, 0], [1, 0, 0], [.25, .25, 0]], [1 / 6, 1 / 6, 2 / 3], [0, 1, .5]),
}
LMM = {'ab2': ([0., 1.], [-.5, 1.5]), 'ab3': ([0., 0., 1.], [5 / 12, -16 / 12, 23 / 12]),
       'ssp43': ([11 / 27, 0., 0., 16 / 27], [12 / 27, 0., 0., 16 / 9])}


def cases(rng, tier):
    out = []
    reps = 4 if tier == 'quick' else 40
    specs = [dict(ti='Euler'), dict(ti='SSP22'), dict(ti='SSP33'), dict(ti='SSP104'), dict(ti='SSPLMMk2', k=3), dict(ti='SSPLMMk2', k=4),
             dict(ti='SSPLMMk2', k=6), dict(ti='SSPLMMk3', k=4), dict(ti='SSPLMMk3', k=5),
             dict(ti='SSPLMMk3', k=4, cond=1), dict(ti='SSPLMMk3', k=5, cond=1)]
    specs += [dict(ti='RK', tab=t) for t in RK] + [dict(ti='LMM', tab=t) for t in LMM]
    for sp in specs:
        for var in (False, True):
            if var and sp['ti'] == 'LMM' or sp.get('cond') and not var:
                continue
            for stagebs in (False, True):
                for nd in (1, 1, 2):
                    for i in range((reps if nd == 1 else max(1, reps // 2)) * (3 if sp.get('cond') else 1)):
                        kern = rng.choice(['Fortran', 'Python']) if nd == 1 and not sp.get('cond') else 'Fortran'   # the Python kernel counts one more interface
                        c = sharp.common(rng, nd, kernel=kern, weno_order=5)
                        c.update(sp); c['variable'] = var; c['stagebs'] = stagebs
                        c['mode'] = rng.choice(['color', 'quasi']); c['mwaves'] = c['meqn']; c['fwave'] = False; c['tfluct'] = False
                        c['maux'] = max(1, c['maux'])
                        if c['capa'] == 0:
                            c['maux'] += 1; c['capa'] = c['maux'] - 1
                        if c['capa'] >= 0 and c['maux'] < 2:
                            c['maux'] = 2; c['capa'] = 1
                        c['n'] = [rng.choice([8, 13])] if nd == 1 else [4, 5]
                        c['src'] = rng.choice([True, True, False])
                        c['frac'] = rng.choice([None, .56, .585, .585, .61]) if sp.get('cond') else None
                        c['nsteps'] = 9; c['nudge'] = rng.choice([None, .3, .7, 2.])
                        c['kind'] = '%s%s%s-%s' % (sp['ti'], 'cond' * sp.get('cond', 0), sp.get('k', sp.get('tab', '')), 'adaptive' if var else 'fixed')
                        out.append(c)
    return out


def run(case, mon):
    nd = case['nd']
    rp = sharp.synth(case); rp2 = sharp.synth(case)
    sol = kit.solution(case['n'], case['meqn'], case['maux'], case['seed'] + 1, capa=case['capa'],
                       lower=case['lower'], upper=case['upper'])
    s = sharp.build(case, rp)
    s.time_integrator = ti = case['ti']
    ng = case['ng']
    if ti == 'RK':
        s.a, s.b, s.c = [np.array(x, dtype=float) for x in RK[case['tab']]]
    if ti == 'LMM':
        s.alpha, s.beta = [np.array(x) for x in LMM[case['tab']]]; s.lmm_steps = len(s.alpha)
    if 'k' in case:
        s.lmm_steps = case['k']
    if case.get('cond'):
        s.check_lmm_cond = True
    aux0 = np.array(sol.state.aux)
    amp = np.linspace(.2, .5, aux0[0].size).reshape(aux0[0].shape)
    if case.get('cond'):
        amp *= 0.     # a step withdrawn later leaves the aux data of the time it had reached

    # the user's function may set the aux fields from the data it is given, as those of nonlinear media
    qdep = .2 if case['seed'] % 3 and not case.get('cond') else 0.

    def aux_at(t, q):
        a = np.array(aux0); a[0] = aux0[0] + amp * np.sin(3 * t) + qdep * np.tanh(q[0])
        return a
    dx = list(sol.domain.grid.delta)

    # time-dependent custom boundary condition
    def fill(which, side, d, Q, A, t):
        V = np.moveaxis(Q if which == 'q' else A, d + 1, 1)
        n = V.shape[1] - 2 * ng
        for g in range(1, ng + 1):
            dst = ng - g if side == 0 else ng + n - 1 + g
            src = ng if side == 0 else ng + n - 1
            V[:, dst] = 0.7 * V[:, src] + (.1 if which == 'aux' else .2 * np.sin(5 * t + d + side))
            if which == 'aux':
                V[:, dst] = np.abs(V[:, dst]) + .3
    ix = {n: i for i, n in enumerate(kit.NAMES)}
    bct = []
    def ub(which, side):
        def f(state, dim, t, qbc, auxbc, num_ghost):
            bct.append(t)
            inner = qbc[(slice(None),) + (slice(ng, -ng),) * nd]
            mon.check(state.t == t and np.array_equal(state.q, inner, equal_nan=True), 'bc-state', 'a boundary condition was given a state that is not the one of its stage', t=t, state_t=state.t)
            fill(which, side, ix[dim.name], qbc, auxbc, t)
        return f
    s.user_bc_lower = ub('q', 0); s.user_bc_upper = ub('q', 1)
    s.user_aux_bc_lower = ub('aux', 0); s.user_aux_bc_upper = ub('aux', 1)

    def src(q, t, dt):
        return dt * (-0.3 * q + np.cos(4 * t) * 0.2 + 0.1 * np.sin(q))
    if case['src']:
        s.dq_src = lambda solver, state, dt: src(state.q, state.t, dt)

    base = 'before'
    led = []
    recs = []          # (t, q, dt of the step that led here)
    calls = []
    own = [None]       # aux fields as last set for the solution itself

    def before(solver, state):
        calls.append(state.t)
        if state is sol.state:
            if own[0] is not None:
                mon.check(np.array_equal(state.aux, own[0]), 'stage-aux', 'what was set for the stages went into the aux fields of the solution', t=state.t)
            state.aux[0] = aux_at(state.t, state.q)[0]
            own[0] = np.array(state.aux)
            moved = bool(led)
            recs.append((state.t, np.array(state.q), led.pop() if led else solver.dt, solver.status['numsteps'], moved))
        else:
            mon.count('stage_calls')
            mon.count('stage data', 1 if qdep else 0)
            state.aux[0] = aux_at(state.t, state.q)[0]
    s.before_step = before
    s.call_before_step_each_stage = case['stagebs']
    smax = max(float(np.abs(l).max()) for l in rp.lam) * (1.6 if case['mode'] == 'color' else 2.)
    capmin = float(aux0[case['capa']].min()) if case['capa'] >= 0 else 1.
    dtlim = min(dx) * capmin / smax
    if case['variable']:
        s.dt_variable = True
        f = {'SSP104': 2.}.get(ti, .4)
        if 'LMM' in ti:
            s.cfl_max = None; s.cfl_desired = None
            if case.get('frac'):
                # starting steps just within or just beyond what the third-order method allows
                s.cfl_max = .5 * (case['k'] - 3.) / (case['k'] - 1.); s.cfl_desired = case['frac'] * s.cfl_max
        else:
            s.cfl_max = f; s.cfl_desired = .8 * f
        s.dt = s.dt_initial = 3 * f * dtlim * ((.4 if case['seed'] % 2 else .1) if 'LMM' in ti else 1)
        T = [6 * f * dtlim * (.15 if 'LMM' in ti else 1), 13 * f * dtlim * (.2 if 'LMM' in ti else 1)]
    else:
        s.dt_variable = False
        s.cfl_max = 1e30; s.cfl_desired = 1e29
        s.dt = s.dt_initial = .2 * dtlim
        T = [4 * s.dt, case['nsteps'] * s.dt]
    gave_up = False
    if case.get('cond'):
        s.max_steps = 300
    for k, t in enumerate(T):
        if k and case['variable'] and case['nudge']:
            # what the user sets between calls is the size to start from, not one that was taken
            led.append(s.dt); s.dt = case['nudge'] * s.dt; mon.count('nudged')
        limit = case['seed'] // 7 % 5 if case['variable'] and not case.get('cond') else 0
        for _ in range(8 if limit in (1, 2, 3) else 0):
            # calls that end at the step limit, maybe with a rejected step, and are continued
            s.max_steps = limit
            try:
                s.evolve_to_time(sol, t)
                break
            except Exception as e:
                if 'Maximum number of timesteps' not in str(e):
                    raise
                mon.count('stopped calls')
            finally:
                s.max_steps = 10000
        try:
            s.evolve_to_time(sol, t)
        except Exception as e:
            # with the a-posteriori conditions a run may come to the step limit and say so
            if not case.get('cond') or 'Maximum number of timesteps' not in str(e):
                raise
            gave_up = True; mon.count('gave_up')
            del recs[40:]
            break
    if not gave_up:
        recs.append((sol.t, np.array(sol.state.q), s.dt, s.status['numsteps'], False))
    mon.check(np.array_equal(sol.state.aux, own[0]), 'stage-aux', 'what was set for the stages went into the aux fields of the solution', t=sol.t)

    def F(q, t, aux, rates=False):
        """right-hand side dq/dt"""
        def cb(which, side, d, Q, A):
            fill(which, side, d, Q, A, t)
        Q, A = ref_bc.fill(q, aux, ng, case['bcl'], case['bcu'], case['abcl'], case['abcu'], s.reflect_index, cb)
        v, lo, hi = ref_sharp.dq(case, rp2, Q, A, dx, 1.0, ng)
        if rates:
            return lo, hi
        if case['src']:
            v = v + src(q, t, 1.0)
        return v
    # accepted trajectory: before_step is called once per attempt
    traj = []
    nrej = 0
    last = None
    # An accepted step is judged once more when the next one begins (k3 with check_lmm_cond)
    rate = {}

    def dtFE(q, t):
        key = q.tobytes(), t
        if key not in rate:
            r = F(q, t, aux_at(t, q), True)
            lim = s.cfl_max / ((case['k'] - 3.) / (case['k'] - 1.))
            rate[key] = (lim / max(r[1], 1e-300), lim / max(r[0], 1e-300))
        return rate[key]

    def judge(steps, t, q, dt, withdrawn, moved):
        if moved or not steps or not float(np.abs(q).max()) < 1e8:
            return
        lo, hi = dtFE(q, t)
        plo, phi = dtFE(steps[-1][1], steps[-1][0])
        k = case['k']; tol = 1 + 1e-8
        rho = .6 if k == 4 else .57
        rf = .9 if k == 4 else .962
        early = len(steps) + 1 <= k
        if withdrawn:
            mon.count('withdrawn')
            mon.check(early and dt * tol > rho * lo or rf * phi * tol > lo or hi * tol > plo / rf, 'cond',
                      'a step that meets the conditions of the third-order multistep method was withdrawn', n=len(steps), dt=dt, dtFE=lo, previous=plo)
        else:
            mon.count('judged')
            mon.check(not (early and dt > tol * rho * hi) and not rf * plo > tol * hi and not lo > tol * phi / rf, 'cond',
                      'a step was kept although it breaks the conditions of the third-order multistep method', n=len(steps), dt=dt, dtFE=lo, previous=plo)

    for i, (t, q, dt, num, moved) in enumerate(recs):
        if traj and traj[-1][0] == t and not (case.get('cond') and num == last and not np.array_equal(traj[-1][1], q, equal_nan=True)):
            nrej += 1
            mon.check(np.array_equal(traj[-1][1], q, equal_nan=True), 'retry', 'a retried step does not start from the data of the rejected one')
            continue
        if case.get('cond') and num == last:
            t0, q0, dt0, mv = traj.pop()
            judge(traj, t0, q0, dt0, True, mv)
        elif case.get('cond') and traj:
            judge(traj[:-1], *traj[-1][:3], False, traj[-1][3])
        traj.append((t, q, dt, moved)); last = num
    mon.count('rejected', nrej)

    # Stage states carry aux of their own: with per-stage calls it follows the stage time, otherwise it is
    # that of the start of the step.
    now = [0., None]

    def Fs(q, t):
        return F(q, t, aux_at(t, q) if case['stagebs'] else aux_at(*now))

    def ssp22(q, t, dt, f0):
        y = q + dt * f0
        return .5 * (q + y + dt * Fs(y, t + dt))

    def ssp104(q, t, dt, f0):
        g = Fs
        y = q + dt / 6 * f0
        for i in range(1, 5):
            y = y + dt / 6 * g(y, t + i * dt / 6)
        q2 = q / 25 + 9 * y / 25
        y = 15 * q2 - 5 * y
        for i in range(2, 6):
            y = y + dt / 6 * g(y, t + i * dt / 6)
        return q2 + .6 * y + .1 * dt * g(y, t + dt)

    hist = []
    expected_stage_calls = 0
    for n in range(len(traj) - 1):
        t, q, _, _ = traj[n]
        t1, q1, dt, _ = traj[n + 1]
        now[:] = t, q
        if not float(np.abs(q).max()) < 1e8:
            # driven beyond the scheme's stability limit; numbers near overflow decide nothing
            mon.count('stopped_at_blow_up'); break
        mon.check(abs(t1 - t - dt) <= 1e-12 * max(1, abs(t1)), 'dt', 'the time advanced by something else than the step size', t=t, t1=t1, dt=dt)
        f0 = F(q, t, aux_at(t, q))
        hist.append((q, f0, dt))
        if ti == 'Euler':
            w = q + dt * f0
        elif ti == 'SSP22':
            w = ssp22(q, t, dt, f0)
        elif ti == 'SSP33':
            y = q + dt * f0
            y = .75 * q + .25 * (y + dt * Fs(y, t + dt))
            w = q / 3 + 2 / 3 * (y + dt * Fs(y, t + dt / 2))
        elif ti == 'SSP104':
            w = ssp104(q, t, dt, f0)
        elif ti == 'RK':
            a, b, c = RK[case['tab']]
            K = [f0]
            for i in range(1, len(b)):
                y = q + dt * sum(a[i][j] * K[j] for j in range(i))
                K.append(Fs(y, t + c[i] * dt))
            w = q + dt * sum(b[i] * K[i] for i in range(len(b)))
        elif ti == 'LMM':
            al, be = LMM[case['tab']]
            k = len(al)
            if n + 1 < k:
                w = ssp104(q, t, dt, f0)
            else:
                w = sum(al[i] * hist[n - k + 1 + i][0] + be[i] * dt * hist[n - k + 1 + i][1] for i in range(k))
        else:
            k = case['k']
            if n + 1 < k:
                w = ssp22(q, t, dt, f0)
            else:
                Om = sum(h[2] for h in hist[n - k + 1:n]) / dt
                q0, F0, _ = hist[n - k + 1]
                if ti == 'SSPLMMk2':
                    r = (Om - 1) / Om
                    w = (Om + 1) / Om * (r * q + dt * f0) + q0 / Om ** 2
                else:
                    r = (Om - 2) / Om
                    d0 = (4 * (Om + 1) - Om ** 2) / Om ** 3
                    b0 = (Om + 1) / Om ** 2
                    bk = (Om + 1) ** 2 / Om ** 2
                    w = bk * (r * q + dt * f0) + (r * b0 + d0) * q0 + b0 * dt * F0
        sc = max(1., float(np.abs(q).max()), float(np.abs(w).max()))
        mon.close(q1, w, 1e-8, 'integrator', 'an accepted step is not the step of the chosen integrator', scale=sc, step=n, t=t, dt=dt)
        mon.count('steps')
    mon.check(gave_up or abs(sol.t - T[-1]) <= 1e-9 * max(1, T[-1]), 'tend', 'the run did not end at the requested time', t=sol.t, tend=T[-1])
    if case['stagebs'] and not gave_up:
        per = {'Euler': 0, 'SSP22': 1, 'SSP33': 2, 'SSP104': 9, 'RK': len(RK[case['tab']][1]) - 1 if ti == 'RK' else 0}.get(ti)
        if per is not None:
            mon.check(mon.events['stage_calls'] == per * (len(recs) - 1), 'stage-calls',
                      'before_step was not called once per stage', got=mon.events['stage_calls'], expected=per * (len(recs) - 1))
    elif not case['stagebs']:
        mon.check(mon.events['stage_calls'] == 0, 'stage-calls', 'before_step was called for stages although not requested')
    mon.need('steps')
