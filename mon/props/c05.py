from .. import scheme
ID = 'C05'; LEVEL = 'exploration'
RULE = ('one case = one 1-D classic run (random synthetic Riemann solver, grid, data, limiters, order, f-waves, capacity '
        'function, boundary conditions, kernel language); every step is compared with an independent array-wise model; '
        'non-trivial when the solver took steps and called the Riemann solver')
ASSUMPTIONS = ['agreement is to a relative tolerance of 1e-9 of the data; the model is independent of the kernels']


def cases(rng, tier):
    out = []
    n = 300 if tier == 'quick' else 6000
    for kernel in ('Fortran', 'Python'):
        for order in (1, 2):
            for fw in (False, True):
                for capa in (False, True):
                    for i in range(max(2, n // 10)):
                        c = scheme.common(rng, 1, order=order, fwave=fw, kernel=kernel)
                        while (c['capa'] >= 0) != capa:
                            c = scheme.common(rng, 1, order=order, fwave=fw, kernel=kernel)
                        out.append(c)
        for lim in (0, 1, 2, 3, 4, 5):
            for i in range(max(2, n // 10)):
                c = scheme.common(rng, 1, kernel=kernel, order=2)
                c['lims'] = rng.choice([lim, [lim], [lim] * c['mwaves']])
                out.append(c)
        for i in range(n):
            out.append(scheme.common(rng, 1, kernel=kernel))
    for c in out:
        c['kind'] = 'classic1-%s' % c['kernel']; c['steps'] = 3
    return out


def run(case, mon):
    scheme.run_case(case, mon)
