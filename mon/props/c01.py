import numpy as np
from .. import kit, physics, systems
ID = 'C01'; LEVEL = 'exploration'
RULE = ('one case = one run of a conservation law (25 real systems with the Riemann solvers of clawpack.riemann, random nonlinear flux '
        'functions, linear systems) in one solver family and dimension on a closed domain (periodic, or solid walls), with or without a '
        'capacity function; after every step the integral of the conserved quantities is compared with its initial value')
ASSUMPTIONS = ['tolerance 1e-11 relative to the integral of the modulus', 'clawpack.riemann (outside the repository) provides fluctuations '
               'that sum to flux differences']


def cases(rng, tier):
    out = []
    reps = 1 if tier == 'quick' else 12
    for name in list(physics.SYSTEMS) + ['synth1', 'synth2', 'synth3'] * 3:
        nd = int(name[5]) if name.startswith('synth') else physics.SYSTEMS[name][0]
        walls = [] if name.startswith('synth') else physics.SYSTEMS[name][1][2]
        if name in physics.NO_WALLS:
            walls = []
        for v in systems.variants(nd):
            if '_py' in name and (v in ('sharp-tvd', 'sharp-weno7')):
                continue
            if v == 'sharp-wave' and name.startswith('synth'):
                continue
            if '-t' in v and not v.endswith(('-t0', '-tvd')) and name in physics.NO_TRANSVERSE:
                continue
            for bc in ('periodic', 'wall', 'mixed'):
                if bc != 'periodic' and not walls:
                    continue
                if bc == 'mixed' and nd == 1:
                    continue
                for capa in (0, 1):
                    for i in range(reps):
                        ng = 4
                        c = dict(system=name, variant=v, seed=rng.randrange(1 << 30), capa=capa, maux=rng.choice([0, 0, 1]),
                                 lim=rng.choice([0, 1, 2, 3, 4, 5]) if name.startswith('synth') else rng.choice([1, 2, 4]))
                        c['n'] = [rng.choice({1: [4, 9, 24, 40], 2: [4, 6, 9, 12], 3: [4, 5, 6]}[nd]) for _ in range(nd)]
                        c['bc'] = [bc if bc != 'mixed' else rng.choice(['periodic', 'wall']) for _ in range(nd)]
                        c['upper'] = [round(rng.uniform(.5, 2), 2) for _ in range(nd)]
                        if name.startswith('synth'):
                            c['mode'] = rng.choice(['flux', 'flux', 'linear']); c['meqn'] = rng.choice([1, 2, 3]); c['mwaves'] = rng.choice([1, 2, 3])
                            c['fwave'] = rng.random() < .4 and v != 'sharp-wave'
                            if c['fwave'] and c['mode'] == 'flux':
                                c['lim'] = rng.choice([1, 2, 4])
                            if nd == 1 and v in ('classic', 'classic-o1', 'sharp') and rng.random() < .5:
                                c['kernel'] = 'Python'
                        c['steps'] = 12 if nd < 3 else 5
                        c['kind'] = ('py' if '_py' in name or c.get('kernel') else '') + 'synth' * name.startswith('synth') + '%d-%s-%s' % (nd, v, bc)
                        out.append(c)
    return out


def run(case, mon):
    s, sol = systems.make(case)
    nd = s.num_dim
    state = sol.state
    cap = np.array(state.aux[state.index_capa]) if state.index_capa >= 0 else np.ones(tuple(case['n']))
    vol = np.prod(sol.domain.grid.delta)
    comps = list(range(s.num_eqn))
    if 'wall' in case['bc']:
        comps = physics.SYSTEMS[case['system']][1][2]
    if case['system'].startswith('synth'):
        s.cfl_max = 1e9; s.dt_variable = False; s.dt = .1 * min(sol.domain.grid.delta) * cap.min()
    else:
        s.dt = .3 * min(sol.domain.grid.delta) * cap.min()
    s.dt_initial = s.dt
    I0 = [float((cap * state.q[m]).sum() * vol) for m in comps]
    sc = [float((cap * np.abs(state.q[m])).sum() * vol) for m in comps]
    floor = max(float((cap * np.abs(state.q[m])).sum() * vol) for m in range(s.num_eqn)) + 1e-12
    for k in range(case['steps']):
        s.evolve_to_time(sol)
        if not np.isfinite(sol.state.q).all():
            mon.fail('finite', 'the solution of a well-posed problem became NaN or infinite', step=k)
            break
        mon.count('steps')
        for j, m in enumerate(comps):
            I = float((cap * sol.state.q[m]).sum() * vol)
            mon.peak('drift', abs(I - I0[j]) / max(floor, sc[j]))
            mon.check(abs(I - I0[j]) <= 1e-11 * max(floor, sc[j]), 'conserve', 'the integral of a conserved quantity changed',
                      step=k, component=m, before=I0[j], after=I)
        if np.abs(sol.state.q).max() > 1e6:
            mon.count('grew'); break
    mon.need('steps')
