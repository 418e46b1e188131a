import numpy as np
from .. import kit, physics, scheme, sharp, systems
from ..synth import SynthRP
ID = 'C22'; LEVEL = 'exploration'
RULE = ('one case = one problem and its transformed twin, advanced by the same steps: periodic data (with aux and capacity fields) shifted by whole cells under random '
        'Riemann solvers; one axis mirrored; axes exchanged; lengths and times measured in other units; another origin of time; data independent of one coordinate on grids with other '
        'numbers of cells in that direction, and in fewer dimensions; the results must be transformed alike')
ASSUMPTIONS = ['tolerance 1e-10 relative to the data (1e-8 with WENO, 1e-6 for orders above 5, whose weights amplify rounding); exact for changes of unit by powers of two',
               'mirrored and exchanged axes: systems whose Riemann solvers have that symmetry; no dimensional splitting when axes are exchanged']


def tr_cases(rng, k):
    out = []
    for nd, m in ((1, 6), (2, 8), (3, 4)):
        for _ in range(m * k):
            kern = rng.choice(['Fortran', 'Python']) if nd == 1 else 'Fortran'
            c = scheme.common(rng, nd, kernel=kern)
            c['split'] = nd > 1 and rng.random() < .4
            c['trans'] = 0 if c['split'] or nd == 1 else rng.choice([0, 1, 2] if nd == 2 else [0, 10, 11, 20, 21, 22])
            if c['trans'] in (2, 20, 21, 22):
                c['order'] = 2
            c['fam'] = 'classic'
            out.append(c)
            o = rng.choice([5, 5, 7, 9, 13, 17]) if nd < 3 else rng.choice([5, 7])
            v = dict(rng.choice([dict(lim_type=2, weno_order=o), dict(lim_type=1), dict(lim_type=2, char_decomp=1, fwave=False), dict(lim_type=1, char_decomp=1), dict(lim_type=3)]))
            if nd == 1 and rng.random() < .2:
                v = dict(kernel='Python')
            c = sharp.common(rng, nd, **v); c['fam'] = 'sharp'
            c['n'] = [x + 2 for x in c['n']]
            c['integrator'] = rng.choice(['Euler', 'SSP33', 'SSP104'])
            out.append(c)
    for c in out:
        nd = c['nd']
        c['kind'] = 'translate-%s%d' % (c['fam'], nd)
        for b in ('bcl', 'bcu', 'abcl', 'abcu'):
            c[b] = [2] * nd
        c['n'] = [max(x, 4) for x in c['n']]
        c['shift'] = [rng.randrange(n) for n in c['n']]
        c['cfl'] = min(c['cfl'], .4); c['steps'] = 3
    return out


# components: position of the velocity (or momentum) of direction 0; None for scalars whose parameters turn
MIRROR = ['acoustics_1D', 'acoustics_2D', 'vc_acoustics_3D', 'shallow_roe_with_efix_1D', 'shallow_roe_with_efix_2D', 'euler_4wave_2D', 'euler_3D', 'advection_1D', 'advection_2D', 'acoustics_1D_py']
SWAP = ['acoustics_2D', 'vc_acoustics_3D', 'shallow_roe_with_efix_2D', 'euler_4wave_2D', 'euler_3D', 'advection_2D', 'burgers_2D']


def sysvariants(nd, unsplit=False):
    v = [x for x in systems.variants(nd) if not (unsplit and 'split' in x)]
    if nd < 3:
        v = v + ['sharp-weno9']
    return v


def one(rng, name, kind, unsplit=False):
    nd = physics.SYSTEMS[name][0]
    vs = sysvariants(nd, unsplit)
    if '_py' in name:
        vs = ['classic', 'classic-o1', 'sharp']
    c = dict(kind=kind, system=name, variant=rng.choice(vs), seed=rng.randrange(1 << 30), capa=rng.choice([0, 1]), maux=0, lim=rng.choice([0, 1, 2, 3, 4]), steps=3)
    c['n'] = [rng.choice({1: [9, 20], 2: [6, 9, 11], 3: [5, 6, 7]}[nd]) for _ in range(nd)]
    c['bc'] = [rng.choice(['periodic', 'extrap'] + (['wall'] if name.startswith(('acoustics', 'vc_', 'shallow_roe')) else [])) for _ in range(nd)]
    c['upper'] = [round(rng.uniform(.7, 1.6), 2) for _ in range(nd)]
    return c


def cases(rng, tier):
    k = {'quick': 5, 'thorough': 60}[tier]
    out = tr_cases(rng, k)
    for name in MIRROR:
        for _ in range(3 * k):
            c = one(rng, name, 'mirror'); c['axis'] = rng.randrange(len(c['n'])); out.append(c)
    for name in SWAP:
        for _ in range(3 * k):
            c = one(rng, name, 'swap', True)
            nd = len(c['n'])
            c['perm'] = [1, 0] if nd == 2 else rng.choice([[1, 0, 2], [2, 1, 0], [0, 2, 1], [1, 2, 0], [2, 0, 1]])
            out.append(c)
    for name in physics.SYSTEMS:
        for _ in range(k):
            c = one(rng, name, 'units'); c['power'] = rng.choice([-20, -3, 1, 7, 30])
            if name in physics.NO_TRANSVERSE and c['variant'].startswith('classic-t'):
                c['variant'] = 'classic-t0'
            out.append(c)
            c = one(rng, name, 'origin'); c['t0'] = rng.choice([-3., .4, 1e3, 1e6])
            if name in physics.NO_TRANSVERSE and c['variant'].startswith('classic-t'):
                c['variant'] = 'classic-t0'
            out.append(c)
    for name in SWAP:
        for _ in range(3 * k):
            c = one(rng, name, 'uniform'); nd = len(c['n'])
            c['axis'] = rng.randrange(nd); c['other'] = rng.choice([3, 4, 8]) if not c['variant'].startswith('sharp') else rng.choice([5, 8])
            out.append(c)
    for lo, hi in (('acoustics_1D', 'acoustics_2D'), ('acoustics_2D', 'vc_acoustics_3D'), ('acoustics_1D', 'vc_acoustics_3D'), ('shallow_roe_with_efix_1D', 'shallow_roe_with_efix_2D')):
        for _ in range(4 * k):
            c = one(rng, lo, 'embed'); c['hi'] = hi
            nd = len(c['n']); nh = physics.SYSTEMS[hi][0]
            c['variant'] = rng.choice(['classic', 'sharp', 'sharp-tvd' if nh < 3 else 'sharp'])
            c['axes'] = sorted(rng.sample(range(nh), nd)); c['extra'] = rng.choice([5, 6])
            c['trans'] = rng.choice(['split', 't0', 't1', 't2'] if nh == 2 else ['split', 't0', 't11', 't22'])
            c['trans_lo'] = rng.choice(['split', 't0']) if nd == 2 else None
            if nd == 2:
                c['trans'] = c['trans_lo'] = rng.choice(['split', 't0'])
            out.append(c)
    return out


def velocity(name, nd):
    """index of the component that belongs to direction 0, or None"""
    return None if name.startswith(('advection', 'burgers')) else 1


def advance(s, sol, dt, steps):
    s.dt_variable = False; s.dt = dt; s.cfl_max = 1e9
    out = []
    for _ in range(steps):
        s.evolve_to_time(sol)
        out.append(np.array(sol.state.q))
    return out


def compare(mon, got, want, tol, msg, **kw):
    for k, (a, b) in enumerate(zip(got, want)):
        mon.count('compared')
        sc = max(1e-300, float(np.abs(b).max()))
        if not mon.close(a, b, tol, msg, 'the transformed problem has another result (%s)' % msg, scale=sc, step=k, **kw):
            return


def step_of(c, sol):
    cap = np.array(sol.state.aux[sol.state.index_capa]).min() if sol.state.index_capa >= 0 else 1.
    return .15 * min(sol.domain.grid.delta) * cap


def run(c, mon):
    mon.need('compared')
    k = c['kind']
    if k.startswith('translate'):
        return translate(c, mon)
    globals()[k](c, mon)


def tol_of(c):
    return 1e-6 if 'weno' in c['variant'] else 1e-8 if c['variant'].startswith('sharp') else 1e-10


def translate(c, mon):
    res = []
    for shift in ([0] * c['nd'], c['shift']):
        rp = SynthRP(c['nd'], c['meqn'], c['mwaves'], c['maux'], c['seed'], c['mode'], c['fwave'])
        sol = kit.solution(c['n'], c['meqn'], c['maux'], c['seed'] + 1, capa=c['capa'], lower=c['lower'], upper=c['upper'])
        ax = tuple(range(1, c['nd'] + 1))
        sol.state.q[...] = np.roll(sol.state.q, shift, ax)
        if c['maux']:
            sol.state.aux[...] = np.roll(sol.state.aux, shift, ax)
        s = scheme.build_solver(c, rp) if c['fam'] == 'classic' else sharp.build(c, rp)
        if c['fam'] == 'sharp':
            s.time_integrator = c['integrator']
        dt = c['cfl'] * min(sol.domain.grid.delta) * (sol.state.aux[c['capa']].min() if c['capa'] >= 0 else 1.)
        out = advance(s, sol, dt, c['steps'])
        res.append([np.roll(q, [-x for x in shift], ax) for q in out])
    tol = 1e-10 if c['fam'] == 'classic' else {5: 1e-8, 7: 1e-7}.get(c['weno_order'], 1e-6)
    compare(mon, res[1], res[0], tol, 'shifted')


def mirror(c, mon):
    res = []
    for flip in (False, True):
        s, sol = systems.make(c)
        a = c['axis']; nd = s.num_dim
        v = velocity(c['system'], nd)

        def f(q):
            q = np.flip(q, a + 1).copy()
            if v is not None:
                q[v + a] *= -1
            return q
        if c['system'].startswith(('euler', 'shallow')):
            # subsonic: the entropy fixes of these Riemann solvers treat transonic waves of the two families differently
            sol.state.q[1:1 + nd] *= .3
        if flip:
            sol.state.q[...] = f(sol.state.q)
            if sol.state.aux is not None:
                sol.state.aux[...] = np.flip(sol.state.aux, a + 1).copy()
            if v is None:
                sol.state.problem_data['uv'[a]] *= -1
        out = advance(s, sol, step_of(c, sol), c['steps'])
        res.append([f(q) if flip else q for q in out])
    compare(mon, res[1], res[0], tol_of(c), 'mirrored', system=c['system'])


def swap(c, mon):
    p = c['perm']; nd = len(p)
    inv = [p.index(i) for i in range(nd)]
    s, sol = systems.make(c)
    v = velocity(c['system'], nd)

    def f(q, p):
        """axis d of the result is axis p[d] of q"""
        q = np.transpose(q, [0] + [x + 1 for x in p]).copy()
        if v is not None:
            old = q.copy()
            for d in range(nd):
                q[v + d] = old[v + p[d]]
        return q
    q0 = f(np.array(sol.state.q), p)
    a0 = None if sol.state.aux is None else np.transpose(np.array(sol.state.aux), [0] + [x + 1 for x in p]).copy()
    dt = step_of(c, sol)
    want = advance(s, sol, dt, c['steps'])
    c2 = dict(c, n=[c['n'][x] for x in p], bc=[c['bc'][x] for x in p], upper=[c['upper'][x] for x in p])
    s2, sol2 = systems.make(c2)
    sol2.state.q[...] = q0
    if a0 is not None:
        sol2.state.aux[...] = a0
    if c['system'] == 'advection_2D':
        pd = sol2.state.problem_data; pd['u'], pd['v'] = pd['v'], pd['u']
    got = [f(q, inv) for q in advance(s2, sol2, dt, c['steps'])]
    compare(mon, got, want, tol_of(c), 'exchanged', system=c['system'], perm=p)


def units(c, mon):
    """lengths and times in units larger by a power of two: the same numbers"""
    res = []
    for f in (1., 2. ** c['power']):
        c2 = dict(c, upper=[u * f for u in c['upper']])
        s, sol = systems.make(c2)
        res.append(advance(s, sol, step_of(c, sol), c['steps']))
    compare(mon, res[1], res[0], 1e-13, 'units', system=c['system'])


def origin(c, mon):
    res = []
    for t0 in (0., c['t0']):
        s, sol = systems.make(c)
        sol.t = t0
        res.append(advance(s, sol, step_of(c, sol), c['steps']))
    compare(mon, res[1], res[0], 0., 'origin', system=c['system'])


def uniform(c, mon):
    """data that do not depend on one coordinate"""
    a = c['axis']; res = []
    s, sol = systems.make(c)
    row = np.array(sol.state.q).take([0], a + 1)
    arow = None if sol.state.aux is None else np.array(sol.state.aux).take([0], a + 1)
    v = velocity(c['system'], len(c['n']))
    if c['bc'][a] == 'wall' and v is not None:
        row[v + a] = 0.
    h = min(sol.domain.grid.delta)
    for m in (c['n'][a], c['other']):
        n = list(c['n']); n[a] = m
        s, sol = systems.make(dict(c, n=n))
        sol.state.q[...] = row
        if arow is not None:
            sol.state.aux[...] = arow
        cap = 1. if arow is None or sol.state.index_capa < 0 else arow[sol.state.index_capa].min()
        out = advance(s, sol, .1 * h * cap, c['steps'])
        for q in out:
            mon.close(q, np.broadcast_to(q.take([0], a + 1), q.shape), tol_of(c), 'uniform-row', 'data independent of a coordinate became dependent on it', scale=float(np.abs(row).max()), axis=a)
        res.append([q.take([0], a + 1) for q in out])
    compare(mon, res[1], res[0], tol_of(c), 'uniform', system=c['system'], axis=a)


def embed(c, mon):
    """a problem in fewer dimensions, and the same one in more"""
    from clawpack import pyclaw
    nd = len(c['n']); nh = physics.SYSTEMS[c['hi']][0]
    var = c['variant']
    lo_v = var + ('-' + c['trans_lo'] if var == 'classic' and nd > 1 else '')
    hi_v = var + ('-' + c['trans'] if var == 'classic' else '')
    s, sol = systems.make(dict(c, variant=lo_v, capa=0))
    q0 = np.array(sol.state.q)
    n = [c['extra']] * nh; bc = ['periodic'] * nh; up = [c['upper'][0]] * nh
    for i, a in enumerate(c['axes']):
        n[a] = c['n'][i]; bc[a] = c['bc'][i]; up[a] = c['upper'][i]
    s2, sol2 = systems.make(dict(c, system=c['hi'], variant=hi_v, capa=0, n=n, bc=bc, upper=up))
    if c['hi'].startswith('vc_'):
        sol2.state.aux[0] = (1.3 * 2.1) ** .5; sol2.state.aux[1] = (2.1 / 1.3) ** .5

    def lift(q):
        Q = np.zeros((q.shape[0] + nh - nd,) + tuple(n))
        sh = [1] * nh
        for i, a in enumerate(c['axes']):
            sh[a] = c['n'][i]
        Q[0] = q[0].reshape(sh)
        for i, a in enumerate(c['axes']):
            Q[1 + a] = q[1 + i].reshape(sh)
        return Q
    sol2.state.q[...] = lift(q0)
    dt = .15 * min(list(sol.domain.grid.delta) + list(sol2.domain.grid.delta))
    want = [lift(q) for q in advance(s, sol, dt, c['steps'])]
    got = advance(s2, sol2, dt, c['steps'])
    compare(mon, got, want, tol_of(c), 'embedded', lo=c['system'], hi=c['hi'], axes=c['axes'], variants=[lo_v, hi_v])
