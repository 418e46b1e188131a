import copy
import numpy as np
from .. import kit, physics, systems
ID = 'C27'; LEVEL = 'exploration'
RULE = ('one case = one solver that advances one or two solutions by turns while parameters, auxiliary fields, the solution, the time, boundary conditions, sources, the step size, per-step hooks or options of the method are changed in '
        'between (in place or by assignment) or calls fail (Courant number, step limit, user function) and the data are put back; each piece must be, bit by bit, what a new solver makes of a copy of the current data with the current settings')
ASSUMPTIONS = ['one-step methods, fixed steps', 'the Riemann solver, the kernel language, the time integrator and the size of the grid stay as they were when the solver was set up']
SYSTEMS = ['advection_1D', 'acoustics_1D', 'euler_with_efix_1D', 'burgers_1D', 'advection_1D_py', 'acoustics_1D_py', 'synth1', 'advection_2D', 'acoustics_2D', 'euler_4wave_2D', 'shallow_roe_with_efix_2D', 'synth2',
           'euler_3D', 'vc_acoustics_3D', 'synth3']
OPS = ['param', 'param', 'param-new-dict', 'aux-inplace', 'aux-assign', 'q-inplace', 'q-assign', 'bc', 'all-bcs', 'time', 'source', 'before', 'dt', 'method', 'method', 'method', 'capa', 'none', 'failed-cfl', 'failed-hook', 'failed-source', 'failed-steps']


def cases(rng, tier):
    k = {'quick': 22, 'thorough': 500}[tier]
    out = []
    for name in SYSTEMS:
        nd = int(name[5]) if name.startswith('synth') else physics.SYSTEMS[name][0]
        for _ in range(k if name != 'synth3' else k // 3):
            vs = systems.variants(nd) if '_py' not in name else ['classic', 'classic-o1', 'sharp']
            c = dict(system=name, variant=rng.choice(vs), seed=rng.randrange(1 << 30), capa=0, maux=0, meqn=2, mode='linear', mwaves=2, lim=rng.choice([1, 3, 4]))
            if name.startswith('synth'):
                c['maux'] = rng.choice([1, 2]); c['capa'] = rng.choice([0, 1]); c['mode'] = 'color'
            elif rng.random() < .4:
                c['capa'] = 1
            c['n'] = [rng.choice({1: [9, 14], 2: [6, 8], 3: [5, 6]}[nd]) for _ in range(nd)]
            c['bc'] = [rng.choice(['periodic', 'extrap']) for _ in range(nd)]
            c['two'] = rng.random() < .4
            c['ops'] = [[rng.choice(OPS), rng.randrange(1 << 30), rng.choice([1, 2, 3]), rng.random() < .5] for _ in range(rng.choice([3, 5, 7]))]
            c['kind'] = name if not name.startswith('synth') else 'synth%d' % nd
            out.append(c)
    return out


PARAMS = {'advection': lambda r: dict(u=r.uniform(-.9, .9) * (r.uniform() < .75), v=r.uniform(-.9, .9) * (r.uniform() < .75)),
          'acoustics': lambda r: (lambda rho, K: dict(rho=rho, bulk=K, zz=(rho * K) ** .5, cc=(K / rho) ** .5))(r.uniform(1.5, 4), r.uniform(.5, 1.5)),
          'euler': lambda r: (lambda g: dict(gamma=g, gamma1=g - 1))(r.uniform(1.1, 1.6)),
          'shallow': lambda r: dict(grav=r.uniform(.4, 1.))}


def source_of(seed, sharp):
    a = np.random.RandomState(seed).uniform(-.3, .3)

    def split(solver, state, dt):
        state.q[0] += dt * a * state.q[0]

    def mol(solver, state, dt):
        d = np.zeros(state.q.shape)
        d[0] = dt * a * state.q[0]
        return d
    return mol if sharp else split


def before_of(seed):
    a = np.random.RandomState(seed).uniform(-.02, .02)

    def before(solver, state):
        state.q[0] += a * state.t * solver.dt
        if state.aux is not None:
            state.aux[0] *= 1 + a
    return before


def method_of(s, system, r, n):
    """other options of the method, chosen by r, that the solver has to follow"""
    m = {}
    nd = s.num_dim
    if s.__class__.__name__.startswith('Sharp'):
        if s.kernel_language == 'Python':
            return {}
        m['lim_type'] = int(r.choice([1, 2, 2]))
        m['char_decomp'] = int(r.choice([0, 0, 1])) if not s.fwave else 0
        if m['lim_type'] == 2 and m['char_decomp'] == 0:
            m['weno_order'] = int(r.choice([w for w in (5, 7, 9, 11) if (w + 1) // 2 <= min(n)]))
        else:
            m['weno_order'] = 5
        m['limiters'] = [int(r.choice([1, 2, 3, 4]))]
    else:
        m['order'] = int(r.choice([1, 2, 2]))
        m['limiters'] = int(r.choice([1, 2, 3, 4])) if r.uniform() < .6 else [int(x) for x in r.choice([0, 1, 2, 3, 4], s.num_waves)]
        if nd > 1:
            m['dimensional_split'] = bool(r.uniform() < .4)
            m['transverse_waves'] = int(r.choice([[0, 1, 2], [0, 11, 22]][nd - 2]))
    keep = [k for k in sorted(m) if r.uniform() < .6 or k in ('lim_type', 'char_decomp', 'weno_order', 'limiters')]
    return {k: m[k] for k in keep}


def configure(c, cfg, dt):
    s, _ = systems.make(c)
    for k, v in cfg['method'].items():
        setattr(s, k, v)
    s.dt_variable = False; s.cfl_max = 1e9; s.dt = dt
    kit.set_bcs(s, *cfg['bc'])
    apply_hooks(s, cfg)
    return s


def apply_hooks(s, cfg):
    sharp = s.__class__.__name__.startswith('Sharp')
    if cfg['source']:
        setattr(s, 'dq_src' if sharp else 'step_source', source_of(cfg['source'], sharp))
    if cfg['before']:
        s.before_step = before_of(cfg['before'])


class Stop(Exception):
    pass


def failed(s, sol, op, seed, cfg, dt, mon):
    """a call that raises: too large a Courant number, an error of a user function or the step limit; the user
    puts the data back and the solver has to go on as if the call had not been made"""
    st = sol.state
    r = np.random.RandomState(seed)
    sharp = s.__class__.__name__.startswith('Sharp')
    src = 'dq_src' if sharp else 'step_source'
    keep = (st.q.copy('F'), None if st.aux is None else st.aux.copy('F'), float(sol.t), s.cfl_max, s.before_step, getattr(s, src), s.max_steps)
    left = [int(r.choice([0, 1, 3]))]

    def stop(*a):
        left[0] -= 1
        if left[0] < 0:
            raise Stop
        f = keep[4] if op == 'failed-hook' else keep[5]
        if f is not None:
            return f(*a)
        return 0. if sharp else None
    st.q[...] *= 1 + .05 * r.uniform(size=st.q.shape)     # the attempt is made with other data
    if op == 'failed-cfl':
        s.cfl_max = 1e-9
    elif op == 'failed-hook':
        s.before_step = stop
    elif op == 'failed-source':
        setattr(s, src, stop)
    else:
        s.dt_variable = True; s.cfl_max = 1e-9; s.cfl_desired = .5e-9; s.max_steps = 1
    try:
        s.evolve_to_time(sol, None if op == 'failed-steps' else float(sol.t + 5 * dt))
    except Exception as e:
        mon.count('failed calls')
    s.dt_variable = False
    s.cfl_max, s.before_step, s.max_steps = keep[3], keep[4], keep[6]
    setattr(s, src, keep[5])
    s.dt = dt
    if r.uniform() < .5:
        st.q[...] = keep[0]
    else:
        st.q = keep[0]
    if keep[1] is not None:
        st.aux[...] = keep[1]
    sol.t = keep[2]


def run(c, mon):
    mon.need('compared')
    s, first = systems.make(c)
    sols = [first]
    if c['two']:
        # another problem of the same shape: data, aux, parameters and extent
        r = np.random.RandomState(c['seed'] + 7)
        _, other = systems.make(dict(c, upper=[float(x) for x in r.uniform(.6, 1.4, len(c['n']))]))
        other.state.q[...] = np.flip(first.state.q, 1)
        if other.state.aux is not None:
            other.state.aux[...] = first.state.aux * r.uniform(.8, 1.25, other.state.aux.shape)
        f = [PARAMS[p] for p in PARAMS if c['system'].startswith(p)]
        other.state.problem_data.update({a: float(x) for a, x in (f[0](r) if f else {}).items() if a in other.state.problem_data})
        sols.append(other)
    home = first.state.index_capa
    if c['two'] and c['capa'] and c['seed'] % 2:
        other.state.index_capa = -1                       # the other problem has no capacity function
    dt = .12 * min(min(x.domain.grid.delta) for x in sols)
    b = {'periodic': 2, 'extrap': 1}
    bcs = [b[x] for x in c['bc']]
    cfg = dict(bc=[list(bcs), list(bcs), list(bcs), list(bcs)], source=0, before=0, method={})
    s.dt_variable = False; s.cfl_max = 1e9; s.dt = dt
    kit.set_bcs(s, *cfg['bc'])
    jobs = []; got = []
    for k, (op, seed, steps, which) in enumerate(c['ops']):
        sol = sols[-1] if which else sols[0]
        st = sol.state
        r = np.random.RandomState(seed)
        if k:                                     # the first piece sets the solver up
            if op.startswith('param'):
                f = [PARAMS[p] for p in PARAMS if c['system'].startswith(p)]
                new = {a: float(x) for a, x in (f[0](r) if f else {}).items() if a in st.problem_data}
                if not new:
                    continue
                if op == 'param':
                    st.problem_data.update(new)
                else:
                    st.problem_data = dict(st.problem_data, **new)
            elif op.startswith('aux') and st.aux is not None:
                new = np.asfortranarray(st.aux * r.uniform(.8, 1.25, st.aux.shape))
                if op == 'aux-inplace':
                    st.aux[...] = new
                else:
                    st.aux = new
            elif op.startswith('q'):
                new = np.asfortranarray(st.q * r.uniform(.97, 1.03, st.q.shape))
                if op == 'q-inplace':
                    st.q[...] = new
                else:
                    st.q = new
            elif op == 'bc':
                d = r.randint(s.num_dim); v = int(r.choice([1, 2]))
                for side in cfg['bc']:
                    side[d] = v
                for lst in (s.bc_lower, s.bc_upper, s.aux_bc_lower, s.aux_bc_upper):
                    lst[d] = v
            elif op == 'all-bcs':
                v = int(r.choice([1, 2]))
                for side in cfg['bc'][:2]:
                    side[:] = [v] * s.num_dim
                s.all_bcs = v
            elif op == 'time':
                sol.t = float(r.uniform(-2, 3))
            elif op == 'source':
                cfg['source'] = seed; apply_hooks(s, cfg)
            elif op == 'before':
                cfg['before'] = seed; apply_hooks(s, cfg)
            elif op == 'dt':
                dt = .12 * min(min(x.domain.grid.delta) for x in sols) * float(r.uniform(.3, 1.)); s.dt = dt
            elif op == 'method':
                new = method_of(s, c['system'], r, c['n'])
                cfg['method'].update(new)
                for a, v in new.items():
                    setattr(s, a, v)
                mon.count('method changes', len(new))
            elif op == 'capa' and c['capa']:
                st.index_capa = -1 if st.index_capa >= 0 else home
                mon.count('capacity switched')
            elif op.startswith('failed'):
                failed(s, sol, op, seed, cfg, dt, mon)
            mon.count('changes')
        jobs.append((op, k, copy.deepcopy(sol), copy.deepcopy(cfg), dt, steps))
        for _ in range(steps):
            s.evolve_to_time(sol)
        got.append((float(sol.t), np.array(sol.state.q), None if sol.state.aux is None else np.array(sol.state.aux)))
        if not np.isfinite(sol.state.q).all():
            break
    # only now the twins, so that no other solver was active in between
    for (op, k, twin, conf, dt, steps), (t, q, aux) in zip(jobs, got):
        s2 = configure(c, conf, dt)
        for _ in range(steps):
            s2.evolve_to_time(twin)
        mon.count('compared')
        ok = np.array_equal(q, twin.state.q, equal_nan=True)
        mon.check(ok and t == twin.t, 'stale', 'a piece differs from what a new solver makes of the current data and settings', op=op, piece=k,
                  diff=float(np.abs(q - twin.state.q).max()), times=[t, twin.t], system=c['system'], variant=c['variant'])
        if aux is not None:
            mon.check(np.array_equal(aux, twin.state.aux, equal_nan=True), 'stale-aux', 'aux differs', op=op)
        if not ok:
            return
