from .. import scheme
ID = 'C07'; LEVEL = 'exploration'
RULE = ('one case = one 3-D classic run (dimensionally split or unsplit with transverse options 0, 10, 11, 20, 21, 22; random '
        'Riemann and transverse solvers, unequal grid sides, limiters, order, f-waves, capacity, aux, boundary conditions); '
        'every step is compared with an independent array-wise model')
ASSUMPTIONS = ['agreement is to a relative tolerance of 1e-9 of the data']


def cases(rng, tier):
    out = []
    n = 7 if tier == 'quick' else 100
    opts = [(True, 0, 1), (True, 0, 2), (False, 0, 1), (False, 0, 2), (False, 10, 1), (False, 11, 1), (False, 10, 2), (False, 11, 2),
            (False, 20, 2), (False, 21, 2), (False, 22, 2), (False, 20, 1), (False, 21, 1), (False, 22, 1)]
    for split, trans, order in opts:
        for capa in (False, True):
            for fw in (False, True):
                for i in range(n * (2 if split else 1)):
                    c = scheme.common(rng, 3, order=order, split=split, trans=trans, fwave=fw)
                    while (c['capa'] >= 0) != capa:
                        c = scheme.common(rng, 3, order=order, split=split, trans=trans, fwave=fw)
                    c['kind'] = 'classic3-%s' % ('split' if split else 'trans%d' % trans)
                    c['steps'] = 1 if trans else 2
                    out.append(c)
    return out


def run(case, mon):
    scheme.run_case(case, mon)
