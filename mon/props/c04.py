import numpy as np
from .. import kit, timeloop
ID = 'C04'; LEVEL = 'exploration'
RULE = ('one case = one adaptive run provoked into rejecting steps (oversized first steps, growing wave speeds, rejections injected at '
        'random attempts, calls that end at the step limit) with user hooks, source terms, gauges and time-dependent boundary values; each accepted step is compared with '
        'the single step of an unused solver started from the same data with the same step size, and each rejected attempt with the '
        'state before it')
ASSUMPTIONS = ['multistep methods, whose steps depend on earlier ones, are compared with their formula by C09']
KINDS = [k for k in timeloop.KINDS if 'LMM' not in k]


def cases(rng, tier):
    out = []
    for w in KINDS:
        for i in range(14 if tier == 'quick' else 140):
            c = timeloop.case(rng, w)
            c.update(growth=rng.choice([3., 10., 25.]), still=False, dt0=rng.choice([3., 20., 200.]), split=rng.choice([0, 1, 2]),
                     touch=rng.random() < .5, tick=rng.random() < .5, inject=rng.choice([0., 0., .3]), bc=rng.choice(['periodic', 'custom', 'mixed']),
                     one=rng.random() < .4, stops=rng.choice([0, 0, 1, 2, 3]), tscale=rng.choice([1e-4, 1., 1e3]))
            c['kind'] = w
            out.append(c)
    return out


def setup(case, mon, gauges):
    R = timeloop.Run(case, mon)
    s, sol, u = R.s, R.sol, R.unit
    nd = R.nd
    if case['bc'] != 'periodic':
        for d in range(nd):
            if case['bc'] == 'custom' or d == 0:
                s.bc_lower[d] = 0; s.bc_upper[d] = 1; s.aux_bc_lower[d] = 1; s.aux_bc_upper[d] = 1
        ix = {n: i for i, n in enumerate(kit.NAMES)}
        def lo(state, dim, t, qbc, auxbc, ng):
            V = np.moveaxis(qbc, ix[dim.name] + 1, 1)
            V[:, :ng] = np.cos(t / u) + .5 * V[:, ng:ng + 1]
        s.user_bc_lower = lo
    if case['split']:
        if R.sharp:
            s.dq_src = lambda solver, state, dt: dt / u * (.05 * np.sin(state.q) - .02 * np.cos(state.t / u))
        else:
            def src(solver, state, dt):
                mon.count('source_calls')
                state.q[0] += dt / u * (.05 * state.q[1] + .02 * np.cos(state.t / u)); state.q[1] *= np.exp(-.1 * dt / u)
            s.step_source = src; s.source_split = case['split']
    return R


def run(case, mon):
    R = setup(case, mon, True)
    s, sol, u = R.s, R.sol, R.unit
    inner = R.before
    log = []
    r = np.random.RandomState(case['seed'] + 9)

    def before(solver, state):
        if state is sol.state:
            inner(solver, state)
            log.append((np.array(state.q), np.array(state.aux)))
            touch(state)
    def touch(state):
        state.aux[0] = R.speed_at(state.t)
        if case['touch']:
            state.q[0] += 0.01 * np.sin(state.t / u) + .001
        if case['tick'] and case['one']:
            # a hook that has the clock run while it works
            state.t += .05 * u; mon.count('clock_moved')
    s.before_step = before
    cls = type(s)
    if case['inject']:
        real = s.accept_reject_step
        # rejections that no data explains: the loop has to undo those too
        object.__setattr__(s, 'accept_reject_step', lambda state: real(state) and not (r.rand() < case['inject']))
        mon.count('injecting_runs')
    s.dt = s.dt_initial = case['dt0'] * u
    s.max_steps = 4000
    edits = {}
    Q0 = np.array(sol.state.q); T0 = sol.t
    if case['one']:
        for _ in range(6):
            s.evolve_to_time(sol)
    else:
        for T in (T0 + 9 * u, T0 + 25 * u):
            for k in range(400):
                # calls that end at the step limit, maybe with a rejected step; the user goes on, often with other data
                s.max_steps = case['stops'] if case['stops'] and k < 12 else 4000
                try:
                    s.evolve_to_time(sol, T)
                    break
                except Exception as e:
                    if 'Maximum number of timesteps' not in str(e):
                        raise
                    mon.count('stopped calls')
                    R.close()
                    if r.rand() < .5:
                        sol.state.q[...] *= 1 + .1 * r.rand(*sol.state.q.shape)
                        edits[len(R.events)] = np.array(sol.state.q)
    R.close()
    ev = R.events
    # a scheme driven beyond its stability limit grows without bound; numbers near overflow decide nothing
    wild = [i for i, e in enumerate(ev) if not np.abs(e['q']).max() < 1e8]
    if wild:
        ev = ev[:wild[0]]; mon.count('stopped_at_blow_up')
    acc = [e for e in ev if e['accepted']]
    mon.count('accepted', len(acc)); mon.count('rejected', len(ev) - len(acc))
    qprev = Q0; tprev = T0
    for i, e in enumerate(ev):
        qprev = edits.get(i, qprev)
        mon.check(np.array_equal(e['q'], qprev, equal_nan=True) and e['t'] == tprev, 'restore',
                  'an attempt does not start from the state the last accepted step left', attempt=i, t=e['t'], t_expected=tprev)
        if e['accepted']:
            qprev = e['q1']; tprev = e['t1']
        else:
            mon.check(np.array_equal(e['q1'], e['q'], equal_nan=True), 'restore', 'a rejected attempt changed the solution', attempt=i)
    # replay without rejections
    some = acc if len(acc) < 40 else acc[:25] + acc[-15:]
    for e in some:
        B = setup(case, mon, False)
        b, sb = B.s, B.sol
        B.t00 = R.t00
        sb.state.q[...] = e['q']; sb.t = e['t']
        b.before_step = lambda solver, state: touch(state) if state is sb.state else None
        b.dt_variable = False; b.dt = b.dt_initial = e['dt']; b.cfl_max = 1e30; b.cfl_desired = 1e29
        b.evolve_to_time(sb)
        sc = max(1., np.abs(e['q']).max(), np.abs(sb.state.q).max())
        mon.close(e['q1'], sb.state.q, 1e-8 if R.sharp else 0., 'replay', 'an accepted step differs from the same step taken by an unused solver',
                  scale=sc, t=e['t'], dt=e['dt'])
        mon.count('replayed')
    mon.need('accepted', 'replayed')
    if not case['one'] and case['dt0'] > (5 if 'SSP104' in case['solver'] else 2):
        mon.need('rejected')
