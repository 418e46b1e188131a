"""Runs of real systems (clawpack.riemann) and synthetic laws in any solver family."""
import numpy as np
from . import kit, physics
from .synth import SynthRP


def variants(nd):
    if nd == 1:
        return ['classic', 'classic-o1', 'sharp', 'sharp-tvd', 'sharp-weno7', 'sharp-SSP33', 'sharp-wave']
    if nd == 2:
        return ['classic-split', 'classic-t0', 'classic-t1', 'classic-t2', 'sharp', 'sharp-tvd']
    return ['classic-split', 'classic-t0', 'classic-t11', 'classic-t22', 'sharp']


def make(c, seed=None):
    """solver, solution for a case dict: system, variant, n, capa, bc ('periodic','wall',...), seed"""
    from clawpack import pyclaw
    name = c['system']
    r = np.random.RandomState(c['seed'])
    if name.startswith('synth'):
        nd = int(name[5]); meqn = c['meqn']; mode = c['mode']
        mw = meqn if mode in ('linear', 'color') else c['mwaves']
        rp = SynthRP(nd, meqn, mw, c['maux'] + (c['capa'] > 0), c['seed'], mode, c.get('fwave', False)); fwave = c.get('fwave', False)
        if c.get('standing') and mode in ('linear', 'color'):
            for l in rp.lam:
                l[0] = 0.              # a wave family that does not move
        pd = {}
        init = None
    else:
        nd, (init, pd, walls) = physics.SYSTEMS[name]
        rp = physics.load(name)
        from clawpack.riemann import static
        meqn = {'scalar': 1}.get(name) or init(r, (1,) * nd, lambda: np.zeros((1,) * nd)).shape[0]
        mw = static.num_waves.get(name) or physics.WAVES.get(name.split('.')[-1]) or \
            {'euler_roe_1D': 3, 'shallow_roe_1D': 2}.get(name.split('.')[-1]) or static.num_waves.get(name[:-3])
        fwave = bool(static.fwave.get(name, False))
    kind, _, opt = c['variant'].partition('-')
    if kind == 'classic':
        s = kit.CLASSIC[nd]()
        s.limiters = c.get('lim', 4)
        if opt == 'o1':
            s.order = 1
        if nd > 1:
            s.dimensional_split = opt == 'split'
            if opt != 'split':
                s.transverse_waves = int(opt[1:])
        s.cfl_max = 1. if nd == 1 or opt == 'split' or opt not in ('t0',) else .5
        s.cfl_desired = .9 * s.cfl_max
    else:
        s = kit.SHARP[nd]()
        if opt == 'tvd':
            s.lim_type = 1
        if opt == 'wave':
            s.char_decomp = 1
        if opt.startswith('weno'):
            s.weno_order = int(opt[4:])
        if opt == 'SSP33':
            s.time_integrator = 'SSP33'; s.cfl_max = .5; s.cfl_desired = .45
    s.rp = rp; s.num_eqn = meqn; s.num_waves = mw; s.fwave = fwave
    py = '_py' in name or c.get('kernel') == 'Python'
    if py:
        s.kernel_language = 'Python'; pd = dict(pd)
        if 'burgers' not in name:
            pd['efix'] = False
    b = {'periodic': 2, 'extrap': 1, 'wall': 3}
    bcs = [b[c['bc'][d]] for d in range(nd)]
    kit.set_bcs(s, bcs, bcs)
    vc = name == 'vc_acoustics_3D'
    naux = c['maux'] + (c['capa'] > 0) + (2 if vc else 0)
    dom = kit.domain(c['n'], None, c.get('upper'))
    state = pyclaw.State(dom, meqn, naux)
    n = tuple(c['n'])
    if init:
        state.q[...] = init(r, n, physics.field(r, n))
    else:
        state.q[...] = kit.data(r, (meqn,) + n, c.get('smooth', False))
    if naux:
        state.aux[...] = r.uniform(.5, 1.5, (naux,) + n)
        if vc:
            state.aux[0] = 1.3; state.aux[1] = 1.27
        if c['capa'] > 0:
            state.index_capa = naux - 1
    state.problem_data.update(pd)
    sol = pyclaw.Solution(state, dom)
    return s, sol


def wave_speed(s, sol):
    """rough CFL unit: dt giving Courant number about 1 for O(1) speeds"""
    return min(sol.domain.grid.delta)
