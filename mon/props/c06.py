from .. import scheme
ID = 'C06'; LEVEL = 'exploration'
RULE = ('one case = one 2-D classic run (dimensionally split or unsplit with 0/1/2 levels of transverse propagation; random '
        'Riemann and transverse solvers, non-square grid, limiters, order, f-waves, capacity, aux, boundary conditions); every '
        'step is compared with an independent array-wise model')
ASSUMPTIONS = ['agreement is to a relative tolerance of 1e-9 of the data']


def cases(rng, tier):
    out = []
    n = 30 if tier == 'quick' else 500
    for split, trans in ((True, 0), (False, 0), (False, 1), (False, 2)):
        for order in (1, 2):
            for capa in (False, True):
                for fw in (False, True):
                    for i in range(n):
                        c = scheme.common(rng, 2, order=order, split=split, trans=trans, fwave=fw)
                        while (c['capa'] >= 0) != capa:
                            c = scheme.common(rng, 2, order=order, split=split, trans=trans, fwave=fw)
                        c['kind'] = 'classic2-%s' % ('split' if split else 'trans%d' % trans)
                        out.append(c)
    return out


def run(case, mon):
    scheme.run_case(case, mon)
