import numpy as np
from .. import kit, scheme, sharp, ref_bc
from ..synth import SynthRP
ID = 'C10'; LEVEL = 'exploration'
RULE = ('one case = one run with random boundary conditions for q and aux (extrapolation, periodic, wall, custom in both signatures; switched between '
        'steps in some cases); every state the kernel hands to the Riemann solver and every array handed to a custom function is compared with a '
        'reference fill of the ghost cells; non-trivial when ghost cells reached the Riemann solver or a custom function')
ASSUMPTIONS = ['dimensions are filled in order, lower side first; the ghost corners a custom function of an earlier dimension sees are unspecified']


def one(rng, fam, nd, switch):
    kern = rng.choice(['Fortran', 'Python']) if nd == 1 else 'Fortran'
    if fam == 'classic':
        c = scheme.common(rng, nd, kernel=kern, split=nd > 1 and rng.random() < .4, trans=0)
        c['n'] = [max(c.get('nghost', 2), rng.choice([2, 3, 4, 7])) for _ in range(nd)]
    else:
        c = sharp.common(rng, nd, kernel=kern, weno_order=rng.choice([5, 5, 7, 11]) if nd < 3 and kern != 'Python' else 5)
        c['tfluct'] = False
    c['mode'] = 'wild' if fam == 'classic' else 'linear'
    c['mwaves'] = 2 if fam == 'classic' else c['meqn']
    if fam == 'classic':
        c['lims'] = [4, 4]
    c['meqn'] = max(c['meqn'], nd + 1)
    if fam == 'sharp':
        c['mwaves'] = c['meqn']; c['char_decomp'] = 0; c['lim_type'] = 2; c['lims'] = 1
    c['steps'] = 4 if switch else 2
    c['bcs'] = []
    for k in range(c['steps']):
        if k and not switch:
            c['bcs'].append(c['bcs'][0]); continue
        b = []
        for _ in range(2):
            lo, up = [], []
            for d in range(nd):
                x = rng.choice([0, 0, 1, 2, 3])
                if x == 2:
                    lo.append(2); up.append(2)
                else:
                    lo.append(x); up.append(rng.choice([0, 0, 1, 3]))
            b += [lo, up]
        c['bcs'].append(b)
    r = list(range(1, c['meqn']))
    rng.shuffle(r)
    c['reflect'] = r[:nd]
    c['old'] = rng.random() < .2
    c['moveaux'] = rng.random() < .5
    c['fam'] = fam; c['kind'] = '%s%d%s%s' % (fam, nd, '-py' if kern == 'Python' else '', '-switch' if switch else '')
    return c


def cases(rng, tier):
    n = {'quick': 100, 'thorough': 1500}[tier]
    out = []
    for fam in ('classic', 'sharp'):
        for nd in (1, 2, 3):
            for sw in (False, True):
                for _ in range(n if nd < 3 else max(3, n // 2)):
                    out.append(one(rng, fam, nd, sw))
    return out


def run(case, mon):
    nd = case['nd']; fam = case['fam']
    rp = SynthRP(nd, case['meqn'], case['mwaves'], case['maux'], case['seed'], case['mode'], case['fwave'])
    sol = kit.solution(case['n'], case['meqn'], case['maux'], case['seed'] + 1, capa=case['capa'], lower=case['lower'], upper=case['upper'])
    case = dict(case, bcl=[1] * nd, bcu=[1] * nd, abcl=[1] * nd, abcu=[1] * nd)
    if fam == 'classic':
        s = scheme.build_solver(case, rp); ng = s.num_ghost
    else:
        s = sharp.build(case, rp); ng = case['ng']; s.time_integrator = 'Euler'
        s.reflect_index = case['reflect']
    ix = {n: i for i, n in enumerate(kit.NAMES)}
    seen = []       # custom calls
    cb = scheme.custom_bc(case['seed']); cb.ng = ng
    tstep = [None]

    def mk(which, side):
        if case['old']:
            def f(state, dim, t, arr, num_ghost):
                d = ix[dim.name]
                seen.append((which, side, d, t, num_ghost, state is sol.state, np.array(arr)))
                cb(which, side, d, arr, arr)
        else:
            def f(state, dim, t, qbc, auxbc, num_ghost):
                d = ix[dim.name]
                seen.append((which, side, d, t, num_ghost, state is sol.state, np.array(qbc if which == 'q' else auxbc)))
                cb(which, side, d, qbc, auxbc)
        return f
    s.user_bc_lower = mk('q', 0); s.user_bc_upper = mk('q', 1)
    s.user_aux_bc_lower = mk('aux', 0); s.user_aux_bc_upper = mk('aux', 1)
    lines = []
    norm = rp.normal

    def normal(d, ql, qr, al, ar):
        lines.append((d, np.concatenate([ql[:, :1], qr], 1), np.concatenate([al[:, :1], ar], 1)))
        return norm(d, ql, qr, al, ar)
    rp.normal = normal
    dx = list(sol.domain.grid.delta)
    dt = .2 * min(dx); s.dt_variable = False; s.dt = s.dt_initial = dt
    r = np.random.RandomState(case['seed'] + 5)
    sol.t = 1.25
    for k in range(case['steps']):
        bl, bu, al, au = case['bcs'][k]
        kit.set_bcs(s, bl, bu, al, au)
        if k == 0:
            s.setup(sol)
        if case['moveaux'] and case['maux']:
            new = r.uniform(.5, 1.5, sol.state.aux.shape)
            s.before_step = lambda solver, state: state.aux.__setitem__(Ellipsis, new)
        else:
            new = sol.state.aux
        del seen[:]; del lines[:]
        q0 = np.array(sol.state.q); t0 = sol.t
        a0 = None if sol.state.aux is None else np.array(new)
        s.evolve_to_time(sol, t0 + dt)
        want = []

        def rec(which, side, d, Q, A):
            want.append((which, side, d, np.array(Q if which == 'q' else A)))
            cb(which, side, d, Q, A)
        embed = ref_bc.embed

        def nan_embed(a, g):
            o = embed(a, g); m = embed(np.ones_like(a), g)
            o[m == 0] = np.nan
            return o
        ref_bc.embed = nan_embed
        try:
            Q, A = ref_bc.fill(q0, a0, ng, bl, bu, al, au, case['reflect'], rec)
        finally:
            ref_bc.embed = embed
        assert np.isfinite(Q).all()
        mon.check([x[:3] for x in seen] == [x[:3] for x in want], 'custom-calls', 'the custom boundary functions called are not those selected',
                  got=[x[:3] for x in seen], expected=[x[:3] for x in want], step=k)
        for got, w in zip(seen, want):
            mon.count('custom_calls')
            mon.check(abs(got[3] - t0) <= 1e-12 * abs(t0), 'custom-time', 'a custom boundary function is given another time than the data have', got=got[3], expected=t0)
            mon.check(got[4] == ng and got[5], 'custom-args', 'a custom boundary function is given a wrong state or ghost width', num_ghost=got[4])
            ok = np.isfinite(w[3])
            mon.check(np.array_equal(np.where(ok, got[6], 0), np.where(ok, w[3], 0)), 'custom-array',
                      'the array handed to a custom boundary function does not hold the data and the ghost cells filled so far',
                      call=got[:3], step=k)
        if fam == 'classic':
            for d in range(nd):
                if nd > 1 and case['split'] and d:
                    continue
                V = np.moveaxis(Q, d + 1, 1); V = V.reshape(V.shape[0], V.shape[1], -1)
                W = None if A is None else np.moveaxis(A, d + 1, 1).reshape(A.shape[0], A.shape[d + 1], -1)
                inner = np.zeros(Q.shape[1:], bool)
                inner[(slice(ng, -ng),) * nd] = True
                inner = np.moveaxis(inner, d, 0).reshape(inner.shape[d], -1).any(0)
                missing = set(np.flatnonzero(inner))
                for dd, lq, la in lines:
                    if dd != d:
                        continue
                    mon.count('lines')
                    hit = [j for j in range(V.shape[2]) if np.array_equal(V[:, :, j], lq) and (W is None or np.array_equal(W[:, :, j], la))]
                    if not mon.check(hit, 'line', 'a line of states handed to the Riemann solver is no line of the data with ghost cells', d=d, step=k,
                                     got=lq[:, :4], got_aux=la[:, :4]):
                        break
                    missing -= set(hit)
                mon.check(not missing, 'lines', 'lines of cells were not handed to the Riemann solver', d=d, missing=sorted(missing), step=k)
            mon.need('lines')
    if any(0 in x for b in case['bcs'] for x in b[:2]):
        mon.need('custom_calls')
