"""Workloads of the method-of-lines solvers with synthetic Riemann solvers."""
import numpy as np
from . import kit, ref_bc, ref_sharp, scheme
from .synth import SynthRP


def common(rng, nd, **kw):
    c = scheme.common(rng, nd)
    for k in ('order', 'split', 'trans'):
        c.pop(k, None)
    c.update(lim_type=2, weno_order=5, char_decomp=0, kernel='Fortran', tfluct=rng.random() < .3)
    c.update(kw)
    if c['char_decomp'] or c['kernel'] == 'Python':
        if c['mode'] == 'wild':
            c['mode'] = 'linear'; c['mwaves'] = c['meqn']
    if c['char_decomp'] == 0 and c['lim_type'] == 1:
        c['lims'] = [rng.choice([1, 2, 3, 4, 5]) for _ in range(c['meqn'])]
    else:
        c['lims'] = [rng.choice([1, 2, 3, 4, 5]) for _ in range(c['mwaves'])]
    if c['lim_type'] != 1:
        c['lims'] = 1
    if c['lim_type'] == 1 and c['char_decomp'] == 1:
        c['fwave'] = False
    if c['char_decomp'] == 1 and c['fwave']:
        c['mode'] = 'linear'; c['mwaves'] = c['meqn']
    if c['mode'] == 'color' and c['maux'] - (c['capa'] >= 0) < 1:
        c['mode'] = 'linear'
    if c['kernel'] == 'Python':
        c['tfluct'] = False
    ng = (c['weno_order'] + 1) // 2 if c['lim_type'] == 2 else 3
    c['ng'] = ng
    top = {1: [ng, ng + 1, ng + 3, 20, 33], 2: [ng, ng + 1, ng + 4, 11], 3: [ng, ng + 1, ng + 2]}[nd]
    c['n'] = [rng.choice(top) for _ in range(nd)]
    scheme.stretch(rng, c)
    if ng == 3 and c['lim_type'] != 2 and rng.random() < .2:
        c['ng'] = c['nghost'] = 4; c['n'] = [max(k, 4) for k in c['n']]
    else:
        c.pop('nghost', None)
    return c


def build(case, rp):
    s = kit.SHARP[case['nd']]()
    s.rp = rp
    s.num_eqn = case['meqn']; s.num_waves = case['mwaves']; s.fwave = case['fwave']
    s.kernel_language = case['kernel']
    s.limiters = case['lims']; s.lim_type = case['lim_type']; s.weno_order = case['weno_order']
    s.char_decomp = case['char_decomp']
    if case.get('nghost'):
        s.num_ghost = case['nghost']
    if case.get('tfluct'):
        s.tfluct_solver = True; s.tfluct = rp.tfluct
    kit.set_bcs(s, case['bcl'], case['bcu'], case.get('abcl'), case.get('abcu'))
    s.cfl_max = 1e30; s.cfl_desired = 1e29
    return s


def synth(case):
    return SynthRP(case['nd'], case['meqn'], case['mwaves'], case['maux'], case['seed'], case['mode'], case['fwave'],
                   speed=1.0)


def run_space(case, mon, tol=1e-8, cfl_only=False):
    nd = case['nd']
    rp = synth(case); rp2 = synth(case)
    sol = kit.solution(case['n'], case['meqn'], case['maux'], case['seed'] + 1, capa=case['capa'],
                       lower=case.get('lower'), upper=case.get('upper'), smooth=case.get('smooth', False),
                       spike=case.get('spike', False), amp=case.get('amp', 1.))
    s = build(case, rp)
    s.time_integrator = 'Euler'
    ng = case['ng']
    cb = scheme.custom_bc(case['seed'])
    scheme.attach_custom(s, cb, ng)
    dx = list(sol.domain.grid.delta)
    dt = case['cfl'] * min(dx)
    s.dt_variable = False; s.dt = dt; s.dt_initial = dt
    aux0 = None if sol.state.aux is None else np.array(sol.state.aux)
    for k in range(case['steps']):
        qb = np.array(sol.state.q)
        s.evolve_to_time(sol, sol.t + dt)
        qa = np.array(sol.state.q)
        mon.count('steps')
        mon.check(s.num_ghost == ng, 'ghost', 'number of ghost cells is not that of the reconstruction')
        Q, A = ref_bc.fill(qb, aux0, ng, case['bcl'], case['bcu'], case.get('abcl') or case['bcl'],
                           case.get('abcu') or case['bcu'], s.reflect_index, cb)
        v, lo, hi = ref_sharp.dq(case, rp2, Q, A, dx, dt, ng)
        if cfl_only:
            got = s.cfl.get_cached_max()
            mon.check(lo * (1 - 1e-6) <= got <= hi * (1 + 1e-6) + 1e-12, 'cfl',
                      'reported Courant number is not the largest dt*|s|/(capacity*dx)', got=got, lower=lo, upper=hi, step=k)
        else:
            want = qb + v
            sc = max(case.get('amp', 1.), float(np.abs(qb).max()), float(np.abs(want).max()))
            mon.close(qa, want, tol, 'space', 'one Euler step differs from dt times the reference semi-discretisation', scale=sc, step=k)
            if aux0 is not None:
                mon.close(sol.state.aux, aux0, 0., 'aux', 'the step changed the aux array', step=k)
    if not cfl_only and case.get('dqdt'):
        # the right-hand side as a function, for implicit integrators
        src = None
        if case['dqdt'] == 2:
            src = np.random.RandomState(case['seed']).uniform(-1, 1, sol.state.q.shape)
            s.dq_src = lambda solver, state, dt: dt * src
        q0 = np.array(sol.state.q)
        got = np.array(s.dqdt(sol.state))
        Q, A = ref_bc.fill(q0, aux0, ng, case['bcl'], case['bcu'], case.get('abcl') or case['bcl'],
                           case.get('abcu') or case['bcu'], s.reflect_index, cb)
        v, lo, hi = ref_sharp.dq(case, rp2, Q, A, dx, 1., ng)
        if src is not None:
            v = v + src
        mon.count('dqdt')
        mon.check(got.shape == (v.size,), 'dqdt', 'dqdt does not return one value per unknown', got=got.shape, unknowns=v.size)
        if got.shape == (v.size,):
            mon.close(got, v.flatten('F'), tol, 'dqdt', 'dqdt differs from the reference semi-discretisation', scale=max(1e-3, float(np.abs(v).max()), float(np.abs(q0).max()) / min(dx)))
        mon.close(sol.state.q, q0, 0., 'dqdt', 'dqdt changed the solution')
    mon.count('riemann_calls', rp.calls['rpn']); mon.count('tfluct_calls', rp.tfluct_calls)
    mon.need('steps', 'riemann_calls')
    if case.get('tfluct'):
        mon.need('tfluct_calls')
