"""Shared by the classic-scheme properties: run the real solver with a synthetic
Riemann solver and compare every step it takes with the reference model."""
import random
import numpy as np
from . import kit, ref_bc, ref_classic
from .synth import SynthRP


def custom_bc(seed):
    """a custom condition that depends on everything it is given"""
    def f(which, side, d, Q, A):
        V = np.moveaxis(Q if which == 'q' else A, d + 1, 1)
        ng = f.ng
        n = V.shape[1] - 2 * ng
        for g in range(1, ng + 1):
            dst = ng - g if side == 0 else ng + n - 1 + g
            src = ng if side == 0 else ng + n - 1
            V[:, dst] = 0.7 * V[:, src] + 0.1 * (d + 1) - 0.05 * g * (1 + side)
            if which == 'aux':
                V[:, dst] = np.abs(V[:, dst]) + 0.3
    return f


def build_solver(case, rp, mod=kit.CLASSIC):
    s = mod[case['nd']]()
    s.rp = rp
    s.num_eqn = case['meqn']; s.num_waves = case['mwaves']; s.fwave = case['fwave']
    s.kernel_language = case.get('kernel', 'Fortran')
    s.limiters = case['lims']
    s.order = case['order']
    if case['nd'] > 1:
        s.dimensional_split = case['split']
        if not case['split']:
            s.transverse_waves = case['trans']
    kit.set_bcs(s, case['bcl'], case['bcu'], case.get('abcl'), case.get('abcu'))
    if case.get('nghost'):
        s.num_ghost = case['nghost']
    if case.get('reflect'):
        s.reflect_index = case['reflect']
    s.cfl_max = 1e30; s.cfl_desired = 1e29
    return s


def names(nd):
    return kit.NAMES[:nd]


def attach_custom(s, cb, ng):
    cb.ng = ng
    ix = {n: i for i, n in enumerate(kit.NAMES)}
    def lo(state, dim, t, qbc, auxbc, num_ghost):
        cb('q', 0, ix[dim.name], qbc, auxbc)
    def up(state, dim, t, qbc, auxbc, num_ghost):
        cb('q', 1, ix[dim.name], qbc, auxbc)
    def alo(state, dim, t, qbc, auxbc, num_ghost):
        cb('aux', 0, ix[dim.name], qbc, auxbc)
    def aup(state, dim, t, qbc, auxbc, num_ghost):
        cb('aux', 1, ix[dim.name], qbc, auxbc)
    s.user_bc_lower = lo; s.user_bc_upper = up
    s.user_aux_bc_lower = alo; s.user_aux_bc_upper = aup


def ref_step(case, rp, q, aux, dx, dt, ng, cb, reflect):
    nd = case['nd']
    Q, A = ref_bc.fill(q, aux, ng, case['bcl'], case['bcu'], case.get('abcl') or case['bcl'],
                       case.get('abcu') or case['bcu'], reflect, cb)
    lims = case['lims'] if isinstance(case['lims'], list) else [case['lims']]
    if len(lims) == 1:
        lims = lims * case['mwaves']
    a = (case['order'], lims, case['fwave'], case['capa'], ng)
    if nd == 1:
        return ref_classic.step1(rp, Q, A, dx, dt, *a)
    if case['split']:
        return ref_classic.split_step(rp, Q, A, dx, dt, *a)
    f = ref_classic.step2 if nd == 2 else ref_classic.step3
    return f(rp, Q, A, dx, dt, case['order'], case['trans'], *a[1:])


def cfl_ok(case, rp, q, aux, dx, dt, ng, cb, reflect, got, want):
    """The Courant number of the interfaces that change the solution; the Python kernel also looks at one between ghost cells."""
    if abs(got - want) <= 1e-9 * max(want, 1e-12):
        return True
    if case.get('kernel') != 'Python' or got < want:
        return False
    Q, A = ref_bc.fill(q, aux, ng, case['bcl'], case['bcu'], case.get('abcl') or case['bcl'], case.get('abcu') or case['bcu'], reflect, cb)
    lam = dt / (dx[0] * A[case['capa']]) if case['capa'] >= 0 else np.full(Q.shape[1], dt / dx[0])
    A = np.zeros((1,) + Q.shape[1:]) if A is None else A
    _, s, _, _ = rp.normal(0, Q[:, :-1], Q[:, 1:], A[:, :-1], A[:, 1:])
    return got <= max(float(np.max(lam[1:] * s)), float(np.max(-lam[:-1] * s))) * (1 + 1e-9)


def run_case(case, mon, tol=1e-9, cfl_only=False):
    nd = case['nd']
    rp = SynthRP(nd, case['meqn'], case['mwaves'], case['maux'], case['seed'], case['mode'], case['fwave'])
    sol = kit.solution(case['n'], case['meqn'], case['maux'], case['seed'] + 1, capa=case['capa'],
                       lower=case.get('lower'), upper=case.get('upper'), spike=case.get('spike', False))
    s = build_solver(case, rp)
    ng = s.num_ghost
    cb = custom_bc(case['seed'])
    attach_custom(s, cb, ng)
    reflect = s.reflect_index
    dx = list(sol.domain.grid.delta)
    dt = case['cfl'] * min(dx)
    s.dt_variable = False; s.dt = dt; s.dt_initial = dt
    rec = []
    rp2 = SynthRP(nd, case['meqn'], case['mwaves'], case['maux'], case['seed'], case['mode'], case['fwave'])
    aux0 = None if sol.state.aux is None else np.array(sol.state.aux)

    def before(solver, state):
        rec.append((np.array(state.q), None))
    s.before_step = before
    prev = None
    for k in range(case['steps']):
        qb = np.array(sol.state.q)
        s.evolve_to_time(sol, sol.t + dt)
        qa = np.array(sol.state.q)
        mon.count('steps')
        want, cfl = ref_step(case, rp2, qb, aux0, dx, dt, ng, cb, reflect)
        sc = max(1., float(np.abs(qb).max()), float(np.abs(want).max()))
        if cfl_only:
            got = s.cfl.get_cached_max()
            mon.check(cfl_ok(case, rp2, qb, aux0, dx, dt, ng, cb, reflect, got, cfl), 'cfl', 'reported Courant number differs from the largest dt*|s|/(capacity*dx)',
                      got=got, expected=cfl, step=k)
        else:
            mon.close(qa, want, tol, 'scheme', 'the step taken differs from the wave-propagation update', scale=sc, step=k)
            if aux0 is not None:
                mon.close(sol.state.aux, aux0, 0., 'aux', 'the step changed the aux array', step=k)
        mon.check(len(rec) == k + 1, 'calls', 'before_step was not called exactly once per step')
    mon.count('riemann_calls', rp.calls['rpn']); mon.count('transverse_calls', rp.calls['rpt'] + rp.calls['rptt'])
    mon.need('steps', 'riemann_calls')


def stretch(rng, c):
    """one direction clearly the longest, each of them in turn"""
    if c['nd'] > 1 and rng.random() < .3:
        c['n'][rng.randrange(c['nd'])] = max(c['n']) + rng.choice([3, 6, 9])


def common(rng, nd, **kw):
    meqn = rng.choice([1, 2, 3, 4]) if nd < 3 else rng.choice([1, 2, 3])
    mode = rng.choice(['linear', 'color', 'wild', 'wild'])
    mw = meqn if mode != 'wild' else rng.choice([1, 2, 3])
    maux = 1 if mode == 'color' else rng.choice([0, 0, 1, 2])
    c = dict(nd=nd, meqn=meqn, mwaves=mw, mode=mode, fwave=rng.random() < .4, order=rng.choice([1, 2, 2, 2]),
             lims=[rng.choice([0, 1, 2, 3, 4, 5]) for _ in range(mw)], seed=rng.randrange(1 << 30),
             cfl=round(rng.uniform(.1, .9), 3), steps=2)
    if rng.random() < .4:
        maux += 1; capa = rng.randrange(maux)
        if mode == 'color' and capa == 0:
            capa = maux - 1
    else:
        capa = -1
    c['maux'] = maux; c['capa'] = capa
    kinds = [1, 2, 3, 0]
    bl, bu, al, au = [], [], [], []
    for d in range(nd):
        for lo, up in ((bl, bu), (al, au)):
            k = rng.choice(kinds)
            if k == 2:
                lo.append(2); up.append(2)
            else:
                lo.append(k); up.append(rng.choice([1, 3, 0]))
    if meqn <= nd:            # wall needs a normal-velocity component
        bl = [1 if k == 3 else k for k in bl]; bu = [1 if k == 3 else k for k in bu]
    c.update(bcl=bl, bcu=bu, abcl=al, abcu=au)
    top = {1: [2, 3, 5, 8, 17, 40], 2: [2, 3, 5, 8, 11], 3: [2, 3, 4, 6]}[nd]
    c['n'] = [rng.choice(top) for _ in range(nd)]
    stretch(rng, c)
    if rng.random() < .12:       # more ghost cells than the method needs
        c['nghost'] = rng.choice([3, 4]); c['n'] = [max(k, c['nghost']) for k in c['n']]
    c['lower'] = [round(rng.uniform(-2, 2), 3) for _ in range(nd)]
    c['upper'] = [round(l + rng.uniform(.5, 2), 3) for l in c['lower']]
    c.update(kw)
    return c
