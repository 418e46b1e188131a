import numpy as np
from .. import kit, physics, systems
ID = 'C02'; LEVEL = 'exploration'
RULE = ('one case = one run from spatially constant data (magnitudes 1e-12 to 1e12 for scale-free systems, zero included, aux and capacity '
        'fields random where the system has no jump without a jump in q) in one solver family, reconstruction, limiter and dimension, with '
        'periodic or extrapolation boundaries; after every step each value is compared with the initial constant')
ASSUMPTIONS = ['tolerance 1e-11 relative to the largest component']


def cases(rng, tier):
    out = []
    reps = 2 if tier == 'quick' else 20
    for name in list(physics.SYSTEMS) + ['synth1', 'synth2', 'synth3'] * 3:
        syn = name.startswith('synth')
        nd = int(name[5]) if syn else physics.SYSTEMS[name][0]
        vs = systems.variants(nd)
        if nd == 1:
            vs = vs + ['sharp-weno%d' % k for k in (9, 11, 13, 15, 17)]
        if nd == 2:
            vs = vs + ['sharp-wave', 'sharp-weno9']
        for v in vs:
            if '_py' in name and (v == 'sharp-tvd' or (v.startswith('sharp-weno'))):
                continue
            if '-t' in v and not v.endswith(('-t0', '-tvd')) and name in physics.NO_TRANSVERSE:
                continue
            for i in range(reps):
                c = dict(system=name, variant=v, seed=rng.randrange(1 << 30), capa=rng.choice([0, 1]), maux=rng.choice([0, 1]),
                         lim=rng.choice([0, 1, 2, 3, 4, 5]))
                c['n'] = [rng.choice({1: [9, 20], 2: [6, 9, 11], 3: [4, 6]}[nd]) for _ in range(nd)]
                c['bc'] = [rng.choice(['periodic', 'extrap']) for _ in range(nd)]
                c['upper'] = [round(rng.uniform(.5, 2), 2) for _ in range(nd)]
                lin = syn or name.startswith(('advection', 'acoustics', 'vc_'))
                c['scale'] = rng.choice([1., 1., 1e-12, 1e12, 0., -3.]) if lin else 1.
                if syn:
                    c['mode'] = rng.choice(['linear', 'color', 'flux' if '-wave' not in v else 'linear']); c['meqn'] = rng.choice([1, 2, 3])
                    c['mwaves'] = rng.choice([1, 2]); c['fwave'] = rng.random() < (.5 if v == 'sharp-wave' else .3)
                    c['standing'] = rng.random() < .3
                    if c['mode'] == 'color':
                        c['maux'] = 1
                    if c['mode'] == 'flux':
                        c['mode'] = 'linear'        # wild waves need not vanish with the jump
                    if nd == 1 and v in ('classic', 'classic-o1', 'sharp', 'sharp-wave') and rng.random() < .5:
                        c['kernel'] = 'Python'
                        if v == 'sharp-wave':
                            c['fwave'] = False
                c['steps'] = 6 if nd < 3 else 3
                c['kind'] = ('py' if '_py' in name or c.get('kernel') else '') + 'synth' * syn + '%d-%s' % (nd, v)
                out.append(c)
    return out


def run(case, mon):
    s, sol = systems.make(case)
    nd = s.num_dim
    q = sol.state.q
    c0 = np.array(q[(slice(None),) + (0,) * nd]) * case['scale']
    q[...] = c0.reshape((-1,) + (1,) * nd)
    cap = np.array(sol.state.aux[sol.state.index_capa]).min() if sol.state.index_capa >= 0 else 1.
    h = min(sol.domain.grid.delta) * cap
    if case['system'].startswith('synth'):
        s.cfl_max = 1e9; s.dt_variable = False; s.dt = .2 * h
    else:
        s.dt = .2 * h; s.dt_max = .2 * h
    s.dt_initial = s.dt
    ref = np.array(q)
    sc = max(1e-300, float(np.abs(c0).max()))
    for k in range(case['steps']):
        s.evolve_to_time(sol)
        mon.count('steps')
        mon.close(sol.state.q, ref, 1e-11, 'constant', 'a constant state did not stay constant', scale=sc, step=k)
        if not np.isfinite(sol.state.q).all():
            break
    mon.count('moved_time', int(sol.t > 0))
    mon.need('steps', 'moved_time')
