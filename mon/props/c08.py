from .. import sharp
ID = 'C08'; LEVEL = 'exploration'
RULE = ('one case = forward Euler steps of one method-of-lines run (1-3 dimensions, random Riemann and total-fluctuation solvers, '
        'WENO 5-17 / TVD, component- or wave-wise, f-waves, capacity, aux, boundary conditions, non-square grids); every step is '
        'compared with an independent semi-discretisation whose WENO coefficients are derived in rational arithmetic')
ASSUMPTIONS = ['relative tolerance 1e-8 (1e-7 for WENO order 7 and 9, 1e-6 for 11 and above, whose smoothness indicators cancel)',
               'characteristic-wise reconstruction needs a user-linked Fortran eigenvector routine and is not driven',
               'f-wave limited reconstruction is driven with wave speeds away from zero']


def variants(nd):
    v = []
    for o in (5, 7, 9, 11, 13, 15, 17):
        v.append(dict(lim_type=2, weno_order=o))
    v += [dict(lim_type=1), dict(lim_type=1), dict(lim_type=1, char_decomp=1), dict(lim_type=2, char_decomp=1, fwave=False),
          dict(lim_type=2, char_decomp=1, fwave=True), dict(lim_type=3)]
    if nd == 1:
        v += [dict(kernel='Python'), dict(kernel='Python', char_decomp=1, fwave=False), dict(kernel='Python', lim_type=-1)]
    return v


def cases(rng, tier):
    out = []
    for nd in (1, 2, 3):
        for v in variants(nd):
            n = {1: 4, 2: 3, 3: 1}[nd] * (2 if tier == 'quick' else 20)
            if nd == 3 and v.get('weno_order', 5) > (9 if tier == 'quick' else 17):
                continue
            for capa in (False, True):
                for i in range(n):
                    c = sharp.common(rng, nd, **v)
                    while (c['capa'] >= 0) != capa:
                        c = sharp.common(rng, nd, **v)
                    c['kind'] = 'sharp%d-%s%s-cd%d%s' % (nd, {2: 'weno', 1: 'tvd', 3: 'weno5', -1: 'godunov'}[c['lim_type']],
                                                        c['weno_order'] if c['lim_type'] == 2 else '', c['char_decomp'],
                                                        '-py' if c['kernel'] == 'Python' else '')
                    c['dqdt'] = rng.choice([0, 1, 2])
                    if c['mode'] in ('linear', 'color') and rng.random() < .25:
                        c['amp'] = 1e-4; c['bcl'] = [2] * nd; c['bcu'] = [2] * nd      # small data; the waves are still far above rounding
                    out.append(c)
    return out


def run(case, mon):
    sharp.run_space(case, mon, tol={5: 1e-8, 7: 1e-7, 9: 1e-7}.get(case['weno_order'], 1e-6))
