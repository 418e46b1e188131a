import copy, os, random
import numpy as np
from .. import ctrl, kit, systems
ID = 'C25'; LEVEL = 'exploration'
RULE = ('one case = one random valid problem with one mistake in its set-up (or one damaged, missing or mislabelled file), driven through the solver or a controller: an exception must be raised '
        'and, where the mistake is visible before the first step, solution and time must be as before; the same problem without the mistake runs')
ASSUMPTIONS = ['only the mistakes listed in the module; which exception is raised is not judged']

# mistake -> (restrictions)
SETUP = ['bc-unset', 'bc-unknown', 'bc-custom-missing', 'aux-bc-unset', 'aux-custom-missing', 'waves-unset', 'eqn-unset', 'fwave-unset', 'limiter-count', 'kernel-unknown', 'kernel-python-nd', 'dt-divide',
         'cfl-desired', 'parameter-missing', 'mapped-no-aux', 'mapped-no-index', 'mapped-index-range', 'not-fortran', 'integrator', 'weno-even', 'weno-large', 'weno-small', 'lim-type', 'char-decomp', 'weno-python', 'tvd-python', 'tfluct-missing',
         'lmm-few', 'lmm3-steps', 'lmm-variable', 'output-style', 'output-format', 'no-solver', 'no-solution', 'solver-type']
RUN = ['cfl-fixed', 'max-steps']
OTHER = ['misspelled-solver', 'dim-bounds', 'dim-cells', 'dim-setter', 'dim-name', 'mp-late', 'solution-args', 'read-format', 'read-missing', 'read-truncated-ascii', 'read-truncated-hdf5', 'read-truncated-binary', 'read-aux-other',
         'write-format', 'gauge-id', 'state-arg', 'state-invalid']


def cases(rng, tier):
    k = {'quick': 12, 'thorough': 300}[tier]
    out = []
    for m in SETUP + RUN + OTHER:
        for _ in range(k):
            c = ctrl.problem(rng, nd=rng.choice([1, 2, 3]) if m not in ('weno-python', 'tvd-python') else 1)
            if m == 'kernel-python-nd':
                c = ctrl.problem(rng, nd=rng.choice([2, 3]))
            if m in ('aux-bc-unset', 'aux-custom-missing'):
                while not (c['system'].startswith('vc_') or c['maux']):
                    c = ctrl.problem(rng)
            if m == 'parameter-missing':
                while c['system'].startswith(('synth', 'vc_')):
                    c = ctrl.problem(rng)
            sharp = m in ('integrator', 'weno-even', 'weno-large', 'weno-small', 'lim-type', 'char-decomp', 'weno-python', 'tvd-python', 'tfluct-missing', 'lmm-few', 'lmm3-steps', 'lmm-variable')
            if sharp:
                c['variant'] = 'sharp'
            if m == 'kernel-python-nd' and rng.random() < .5:
                c['variant'] = 'sharp'
            c['mistake'] = m; c['kind'] = m; c['pick'] = rng.randrange(1000)
            c['ctl'] = rng.random() < .5
            out.append(c)
    return out


CONTROLLER_ONLY = {'waves-unset', 'eqn-unset', 'fwave-unset', 'mapped-no-aux', 'mapped-no-index', 'mapped-index-range', 'not-fortran', 'output-style', 'output-format', 'no-solver', 'no-solution', 'solver-type'}


ASKED = {'bc-unset', 'bc-custom-missing', 'waves-unset', 'eqn-unset', 'fwave-unset'}


# set when a solver is set up, not to be changed later
ONCE = {'integrator', 'lmm-few', 'lmm3-steps', 'lmm-variable'}


def settings(s):
    return {k: list(v) if isinstance(v, list) else v for k, v in vars(s).items() if not k.startswith('_') and (v is None or isinstance(v, (bool, int, float, str, list, np.ndarray)) or callable(v) and k.startswith('user'))
            and k not in ('qbc', 'auxbc', 'work', 'aux1', 'aux2', 'aux3', 'fmod')}


def go(c, s, sol, unit, fixed=False, tweak=None):
    from clawpack import pyclaw
    if c['ctl'] or c['mistake'] in CONTROLLER_ONLY:
        claw = pyclaw.Controller()
        claw.verbosity = 0
        claw.solver = s; claw.solution = sol
        claw.output_format = None; claw.num_output_times = 1
        claw.tfinal = sol.t + 4 * unit
        claw.outdir = 'out'
        if tweak:
            tweak(claw)
        claw.run()
    else:
        s.evolve_to_time(sol, sol.t + 4 * unit)


def expect(mon, f, what, **kw):
    mon.count('refusals-expected')
    try:
        r = f()
    except Exception as e:
        mon.count('refused')
        mon.check(True, 'refused', '')
        return e
    mon.fail('accepted', 'a mistaken set-up was accepted: ' + what, **kw)
    return None


def run(c, mon):
    m = c['mistake']
    if m in SETUP:
        return setup(c, mon)
    if m in RUN:
        return running(c, mon)
    mon.need('refusals-expected')
    globals()[m.replace('-', '_')](c, mon)


def build(c):
    s, sol, unit = ctrl.build(c)
    s.dt_variable = True
    return s, sol, unit


def mistake(c, s, sol, unit):
    """introduce the mistake; returns a function that changes the controller, or None"""
    m, p, nd = c['mistake'], c['pick'], s.num_dim
    side = (s.bc_lower, s.bc_upper)[p % 2]; d = p // 2 % nd
    if m == 'bc-unset':
        side[d] = None
    elif m == 'bc-unknown':
        side[d] = [7, -1, 'reflecting', 4][p // 8 % 4]
        if c['ctl'] is False and side[d] == -1:
            side[d] = 11
    elif m == 'bc-custom-missing':
        side[d] = 0
        if p // 64 % 2:
            setattr(s, ('user_bc_upper', 'user_bc_lower')[p % 2], lambda *a: None)
    elif m == 'aux-bc-unset':
        (s.aux_bc_lower, s.aux_bc_upper)[p % 2][d] = None
    elif m == 'aux-custom-missing':
        (s.aux_bc_lower, s.aux_bc_upper)[p % 2][d] = 0
        if p // 64 % 2:
            setattr(s, ('user_aux_bc_upper', 'user_aux_bc_lower')[p % 2], lambda *a: None)
    elif m == 'waves-unset':
        s.num_waves = None
    elif m == 'eqn-unset':
        s.num_eqn = None
    elif m == 'fwave-unset':
        s.fwave = None
    elif m == 'limiter-count':
        wavewise = not s.__class__.__name__.startswith('Sharp')
        if not wavewise and p // 8 % 2:
            s.char_decomp = 1; wavewise = True
        n = s.num_waves if wavewise else s.num_eqn
        s.limiters = [1] * [s.num_waves + s.num_eqn + 1, n + 1, 0, n - 1 if n > 2 else 0][p // 2 % 4]
        if s.__class__.__name__.startswith('Sharp'):
            s.lim_type = [1, 2][p % 2]
    elif m == 'kernel-unknown':
        s.kernel_language = ['C', 'fortran', 'numpy'][p % 3]
    elif m == 'kernel-python-nd':
        s.kernel_language = 'Python'
    elif m == 'dt-divide':
        s.dt_variable = False; s.dt = s.dt_initial = 4 * unit / (2.5 + p % 5); s.cfl_max = 1e9
        if p // 5 % 2:
            # close to a whole number of steps, but not close enough
            s.dt = s.dt_initial = 4 * unit / (2 + p % 5) * (1 + (-1) ** (p // 10 % 2) * 10. ** (-1.5 - .25 * (p // 20 % 13)))
    elif m == 'cfl-desired':
        s.cfl_max = .4; s.cfl_desired = .45 + .1 * (p % 4); s.dt_variable = [True, 1, np.True_][p // 4 % 3]
    elif m == 'parameter-missing':
        keys = sorted(k for k in sol.state.problem_data if k in {'acoustics_1D': 'rho bulk zz cc', 'acoustics_2D': 'rho bulk zz cc', 'advection_1D': 'u', 'advection_2D': 'u v',
                                                                 'euler_with_efix_1D': 'gamma', 'euler_4wave_2D': 'gamma'}[c['system']].split())
        keys = [k for k in keys if hasattr(s.rp.cparam, k)]
        del sol.state.problem_data[keys[p % len(keys)]]
    elif m.startswith('mapped'):
        names = 'xyz'[:nd]
        sol.state.grid.mapc2p = {1: lambda x: 2 * x, 2: lambda x, y: [2 * x, y], 3: lambda x, y, z: [2 * x, y, z]}[nd]
        if m == 'mapped-no-aux':
            sol.state.aux = None; sol.state.index_capa = -1
        else:
            if sol.state.aux is None:
                import clawpack.pyclaw as pyclaw
                st = pyclaw.State(sol.state.patch, sol.state.num_eqn, 1)
                st.problem_data.update(sol.state.problem_data); st.q[...] = sol.state.q; st.aux[...] = 1.; st.t = sol.t
                sol.states[0] = st
            sol.state.index_capa = -1 if m == 'mapped-no-index' else [sol.state.num_aux, sol.state.num_aux + 3, -2][p % 3]
    elif m == 'not-fortran':
        what = 'aux' if sol.state.aux is not None and p % 2 else 'q'
        a = getattr(sol.state, what)
        b = np.ascontiguousarray(a)
        if b.flags['F_CONTIGUOUS'] or p % 3 == 0:
            b = np.repeat(a, 2, axis=1)[:, ::2]
        setattr(sol.state, what, b)
    elif m == 'integrator':
        s.time_integrator = ['SSP54', 'rk4', 'LMMk'][p % 3]
        if p // 3 % 2:
            s.cfl_max = .5; s.cfl_desired = .4
    elif m == 'weno-even':
        s.weno_order = [4, 6, 8, 12][p % 4]
    elif m == 'weno-large':
        s.weno_order = [19, 21, 33][p % 3]
    elif m == 'weno-small':
        s.weno_order = [1, 3, 2, 0, -1][p % 5]
    elif m == 'lim-type':
        s.lim_type = [0, 4, -1, 7][p % 4]
    elif m == 'char-decomp':
        s.char_decomp = [-1, 4, 5][p % 3]
        s.lim_type = 1 + p // 4 % 2
    elif m == 'weno-python':
        s.kernel_language = 'Python'; s.weno_order = 7
    elif m == 'tvd-python':
        s.kernel_language = 'Python'; s.lim_type = 1
    elif m == 'tfluct-missing':
        s.tfluct_solver = True
    elif m == 'lmm-few':
        s.time_integrator = 'SSPLMMk2'; s.lmm_steps = [1, 2][p % 2]
    elif m == 'lmm3-steps':
        s.time_integrator = 'SSPLMMk3'; s.lmm_steps = [2, 3, 6, 9][p % 4]
    elif m == 'lmm-variable':
        s.time_integrator = 'LMM'; s.alpha = np.array([0., 1.]); s.beta = np.array([-.5, 1.5]); s.cfl_max = .5; s.cfl_desired = .4
    elif m == 'output-style':
        v = [0, 4, 'listed', None][p % 4]
        return lambda claw: setattr(claw, 'output_style', v)
    elif m == 'output-format':
        return lambda claw: setattr(claw, 'output_format', ['hdf', 'text', 'Ascii'][p % 3])
    elif m == 'no-solver':
        return lambda claw: setattr(claw, 'solver', None)
    elif m == 'no-solution':
        return lambda claw: setattr(claw, 'solution', None)
    elif m == 'solver-type':
        return lambda claw: setattr(claw, 'solver', object())
    else:
        raise KeyError(m)


def setup(c, mon):
    mon.need('refusals-expected', 'twin-ran')
    s, sol, unit = build(c)
    right = settings(s)
    tweak = mistake(c, s, sol, unit)
    wrong = {k: right[k] for k, v in settings(s).items() if k in right and (type(right[k]) is not type(v) or right[k] is not v and right[k] != v)}
    q0 = np.array(sol.state.q); t0 = sol.t
    if c['mistake'] in ASKED:
        v = s.is_valid()
        mon.check(not v[0] and v[1], 'asked', 'a solver that lacks something says that it is valid', mistake=c['mistake'], said=v)
    e = expect(mon, lambda: go(c, s, sol, unit, tweak=tweak), c['mistake'], system=c['system'], variant=c['variant'])
    if e is not None:
        mon.check(sol.t == t0 and np.array_equal(sol.state.q, q0, equal_nan=True), 'changed', 'the refused set-up changed the solution', mistake=c['mistake'], error=repr(e)[:200])
        # a mistake that has been refused once is still one
        e = expect(mon, lambda: go(c, s, sol, unit, tweak=tweak), c['mistake'] + ', tried again', system=c['system'], variant=c['variant'])
        mon.check(e is None or sol.t == t0 and np.array_equal(sol.state.q, q0, equal_nan=True), 'changed', 'the refused set-up changed the solution when tried again', mistake=c['mistake'], error=repr(e)[:200])
    corrected = None
    if e is not None and wrong and not (c['mistake'] == 'cfl-desired' and None in wrong.values()) and c['mistake'] not in ONCE | {'kernel-unknown', 'kernel-python-nd', 'tvd-python', 'dt-divide'}:
        for k, v in wrong.items():
            setattr(s, k, v)
        go(c, s, sol, unit)
        corrected = np.array(sol.state.q); mon.count('corrected')
    s, sol, unit = build(c)
    mon.check(s.is_valid()[0] and sol.is_valid(), 'asked-twin', 'a solver or solution that lacks nothing says that it is not valid', said=s.is_valid())
    go(c, s, sol, unit)
    mon.count('twin-ran')
    mon.check(sol.t > t0, 'twin', 'the problem without the mistake did not run')
    if corrected is not None:
        mon.check(np.array_equal(corrected, sol.state.q, equal_nan=True), 'corrected', 'with the mistake corrected the solver gives another result than one that never had it', mistake=c['mistake'],
                  diff=float(np.abs(corrected - sol.state.q).max()), variant=c['variant'])
    if c['mistake'] not in ONCE:
        # the same mistake, made when the solver has run already
        c2 = dict(c)
        tweak = mistake(c2, s, sol, unit)
        q0 = np.array(sol.state.q); t0 = sol.t
        e = expect(mon, lambda: go(c, s, sol, unit, tweak=tweak), c['mistake'] + ', made after a first call', system=c['system'], variant=c['variant'])
        mon.check(e is None or sol.t == t0 and np.array_equal(sol.state.q, q0, equal_nan=True), 'changed', 'the set-up refused later changed the solution', mistake=c['mistake'], error=repr(e)[:200])
        mon.count('late mistakes')


def running(c, mon):
    mon.need('refusals-expected')
    s, sol, unit = build(c)
    t0 = sol.t
    if c['mistake'] == 'cfl-fixed':
        s.dt_variable = False; s.dt = s.dt_initial = 4 * unit / (1 + c['pick'] % 3); s.cfl_max = 1e-3; s.cfl_desired = 5e-4
    else:
        s.max_steps = 1 + c['pick'] % 3; s.dt_max = .9 * unit; s.dt = s.dt_initial = .5 * unit
    expect(mon, lambda: go(c, s, sol, unit), c['mistake'], system=c['system'], variant=c['variant'])
    if c['mistake'] == 'max-steps':
        mon.check(s.status['numsteps'] <= s.max_steps and sol.t < t0 + 4 * unit, 'limit', 'more steps than allowed', steps=s.status['numsteps'], max_steps=s.max_steps)


def misspelled_solver(c, mon):
    s, sol, unit = build(c)
    if c['ctl']:
        s.evolve_to_time(sol)                 # also once the solver has been set up
    ok = [a for a in ('limiters', 'cfl_max', 'bc_lower', 'dt_initial', 'order', 'weno_order', 'num_waves', 'before_step', 'max_steps') if hasattr(s, a)]
    a = ok[c['pick'] % len(ok)]
    bad = [a + 's', a[:-1], a.replace('_', ''), a.upper()][c['pick'] // 16 % 4]
    if hasattr(s, bad):
        bad = a + '_x'
    expect(mon, lambda: setattr(s, bad, 1), 'setting %s' % bad)
    v = getattr(s, a); setattr(s, a, v)
    mon.check(getattr(s, a) is v or getattr(s, a) == v, 'legal', 'a legal attribute could not be set', attribute=a)


def dim_bounds(c, mon):
    from clawpack import pyclaw
    r = np.random.RandomState(c['seed'])
    a, b = sorted(r.uniform(-2, 2, 2))
    expect(mon, lambda: pyclaw.Dimension(float(b), float(a), 10), 'lower > upper')
    expect(mon, lambda: pyclaw.Dimension(float(a), float(a), 10), 'lower = upper')
    expect(mon, lambda: pyclaw.Dimension('x', 0., 1., 5), 'name as first argument')
    pyclaw.Dimension(float(a), float(b), 10)


def dim_cells(c, mon):
    from clawpack import pyclaw
    expect(mon, lambda: pyclaw.Dimension(0., 1., [0, -3, -1][c['pick'] % 3]), 'no cells')
    pyclaw.Dimension(0., 1., 1)


def dim_setter(c, mon):
    from clawpack import pyclaw
    r = np.random.RandomState(c['seed'])
    a, b = sorted(r.uniform(-2, 2, 2))
    d = pyclaw.Dimension(float(a), float(b), 7)
    expect(mon, lambda: setattr(d, 'lower', b + 1), 'lower above upper')
    d = pyclaw.Dimension(float(a), float(b), 7)
    expect(mon, lambda: setattr(d, 'upper', a - 1), 'upper below lower')
    d = pyclaw.Dimension(float(a), float(b), 7)
    expect(mon, lambda: setattr(d, 'num_cells', 0), 'no cells')


def dim_name(c, mon):
    from clawpack import pyclaw
    mk = lambda n: pyclaw.Dimension(0., 1., 4, name=n)
    expect(mon, lambda: pyclaw.Domain([mk('x'), mk('x')]), 'two dimensions of one name')
    g = pyclaw.geometry.Grid([mk('x'), mk('y')])
    expect(mon, lambda: g.add_dimension(mk('y')), 'two dimensions of one name')
    mon.check(g.num_dim == 2 and list(g.num_cells) == [4, 4], 'grid', 'the refused dimension changed the grid')


def mp_late(c, mon):
    s, sol, unit = build(c)
    sol.state.mp = 2; sol.state.mF = 3
    expect(mon, lambda: setattr(sol.state, 'mp', 3), 'changing mp')
    expect(mon, lambda: setattr(sol.state, 'mF', 2), 'changing mF')
    mon.check(sol.state.mp == 2 and sol.state.mF == 3, 'sizes', 'refused sizes were set')


def solution_args(c, mon):
    from clawpack import pyclaw
    s, sol, unit = build(c)
    expect(mon, lambda: pyclaw.Solution(sol.state, 'domain'), 'a string as domain')
    expect(mon, lambda: pyclaw.Solution(sol.state, sol.domain, 3, 4), 'too many arguments')
    expect(mon, lambda: pyclaw.Solution('state'), 'a string')


def state_arg(c, mon):
    from clawpack import pyclaw
    expect(mon, lambda: pyclaw.State('grid', 2), 'a string as geometry')
    expect(mon, lambda: pyclaw.State(pyclaw.Dimension(0., 1., 4), 2), 'a dimension as geometry')


def failing(mon, c, args, what, info=None, **kw):
    """reading raises, both into a new solution and into one in use, which stays as it was"""
    from clawpack import pyclaw
    info = info or {}
    expect(mon, lambda: pyclaw.Solution(*args, **kw), what, **info)
    if '_used' not in c:
        c['_used'] = build(c)[1]
    used = c['_used']
    states = list(used.states); q = [np.array(st.q) for st in states]; aux = [None if st.aux is None else np.array(st.aux) for st in states]
    dom = used.domain; t = used.t
    expect(mon, lambda: used.read(*args, **kw), what, **info)
    mon.count('still-whole')
    same = (len(used.states) == len(states) and all(a is b for a, b in zip(used.states, states)) and used.domain is dom and used.t == t
            and all(np.array_equal(st.q, x) for st, x in zip(used.states, q))
            and all(a is None or np.array_equal(st.aux, a, equal_nan=True) for st, a in zip(used.states, aux)))
    mon.check(same, 'left', 'a frame that could not be read changed the solution', states=len(used.states), before=len(states), **info)


def written(c, fmt, frame=0, aux=False):
    s, sol, unit = build(c)
    sol.write(frame, path='w', file_format=fmt, write_aux=aux, **(dict(file_prefix='fort') if fmt == 'hdf5' else {}))
    return sol


def read_format(c, mon):
    from clawpack import pyclaw
    written(c, 'hdf5')
    expect(mon, lambda: pyclaw.Solution(0, path='w', file_prefix='fort', file_format=['h5', 'txt', 'ASCII', 'HDF5 '][c['pick'] % 4]), 'unknown format')
    pyclaw.Solution(0, path='w', file_prefix='fort', file_format='hdf5')


def read_missing(c, mon):
    from clawpack import pyclaw
    fmt = ['ascii', 'hdf5'][c['pick'] % 2]
    sol = written(c, fmt, 3)
    sol2 = pyclaw.Solution(3, path='w', file_format=fmt, **(dict(file_prefix='fort') if fmt == 'hdf5' else {}))
    mon.check(sol2.t == sol.t or abs(sol2.t - sol.t) < 1e-7 * abs(sol.t), 'there', 'an existing frame could not be read')
    failing(mon, c, ([0, 2, 4, 30][c['pick'] // 2 % 4],), 'a frame that is not there', path='w', file_format=fmt, **(dict(file_prefix='fort') if fmt == 'hdf5' else {}))
    failing(mon, c, (3,), 'a directory that is not there', path='elsewhere', file_format=fmt)


def read_truncated_ascii(c, mon):
    from clawpack import pyclaw
    sol = written(c, 'ascii', aux=sol_aux(c))
    names = ['w/fort.q0000', 'w/fort.t0000'] + (['w/fort.a0000'] if os.path.exists('w/fort.a0000') else [])
    for k, name in enumerate(names):
        text = open(name).read(); lines = text.splitlines(True)
        last = max(i for i, l in enumerate(lines) if l.strip())
        r = np.random.RandomState(c['seed'] + k)
        for cut in sorted(set([0, 1, last] + [int(x) for x in r.randint(0, last + 1, 4)])):
            part = ''.join(lines[:cut])
            if name.endswith('t0000') and not needed(lines[cut:]):
                continue
            open(name, 'w').write(part)
            failing(mon, c, (0,), 'a file that ends early', dict(file=name, line=cut, of=len(lines)), path='w', read_aux=True)
            if k != 1 and sol.state.num_eqn > 1 and cut == last and not name.endswith('a0000'):
                # the last line lost its last value
                open(name, 'w').write(part + lines[last].rstrip().rsplit(None, 1)[0] + '\n')
                failing(mon, c, (0,), 'a file whose last value is missing', dict(file=name), path='w', read_aux=True)
        open(name, 'w').write(text)
    pyclaw.Solution(0, path='w', read_aux=True)
    mon.count('whole-read')


def needed(lines):
    return any(w in l for l in lines for w in ('time', 'num_eqn', 'nstates'))


def sol_aux(c):
    return bool(c['maux'] or c['system'].startswith('vc_'))


def read_truncated_hdf5(c, mon):
    from clawpack import pyclaw
    written(c, 'hdf5')
    name = [f for f in os.listdir('w') if f.endswith('.hdf')][0]
    b = open('w/' + name, 'rb').read()
    r = np.random.RandomState(c['seed'])
    for cut in [0, 10, len(b) // 2, len(b) - 8] + [int(x) for x in r.randint(0, len(b) - 8, 4)]:
        open('w/' + name, 'wb').write(b[:cut])
        failing(mon, c, (0,), 'a file that ends early', dict(bytes=cut, of=len(b)), path='w', file_format='hdf5', file_prefix='fort')
    open('w/' + name, 'wb').write(b)
    pyclaw.Solution(0, path='w', file_format='hdf5', file_prefix='fort')


def read_truncated_binary(c, mon):
    from clawpack import pyclaw
    from .. import iokit
    from . import c17
    rng = random.Random(c['seed'])
    b = iokit.case(rng, rng.choice([1, 2, 3])); b['values'] = 'normal'
    b.update(nghost=rng.choice([0, 1, 2]), fmt=rng.choice(['binary', 'binary64', 'binary32']), header=rng.random() < .5, aux='frame', mapped=False)
    fn, dt = c17.write_binary(b, iokit.build(b))
    item = np.dtype(dt).itemsize; f = b['frame']
    read = lambda: pyclaw.Solution(f, path='out', file_format=b['fmt'])
    for ch in 'qb' + ('a' if b['maux'] else ''):
        data = open(fn(ch), 'rb').read()
        if ch == 'q':
            ends = [i + 1 for i, x in enumerate(data.rstrip()) if x == 10]
        else:
            ends = [i * item for i in range(len(data) // item)]
        for cut in set([0, ends[-1]] + [rng.choice(ends) for _ in range(4)]):
            open(fn(ch), 'wb').write(data[:cut])
            failing(mon, c, (f,), 'a file that ends early', dict(file='fort.' + ch, bytes=cut, of=len(data)), path='out', file_format=b['fmt'])
        open(fn(ch), 'wb').write(data)
    got = read()
    mon.check(len(got.states) == len(b['patches']), 'whole-read', 'the whole file is not read')


def read_aux_other(c, mon):
    """auxiliary data of other patches"""
    from clawpack import pyclaw
    from .. import iokit
    rng = random.Random(c['seed'])
    a = iokit.case(rng, rng.choice([1, 2, 3])); a.update(values='normal', mapped=False, maux=max(1, a['maux']), frame=rng.choice([0, 3]))
    for P in a['patches']:                # extents of ordinary size: the comparison has an absolute tolerance
        P['lower'] = [rng.choice([0., -1.5, .1]) for _ in P['n']]; P['len'] = [rng.choice([1., .3, 17.25]) for _ in P['n']]
    b = copy.deepcopy(a); i = rng.randrange(len(a['patches'])); P = b['patches'][i]; d = rng.randrange(a['nd'])
    what = rng.choice(['more', 'fewer', 'level', 'lower', 'len'])
    if what == 'more':
        P['n'][d] += rng.choice([1, 3])
        P['len'][d] *= P['n'][d] / a['patches'][i]['n'][d]         # cells of the same size
    elif what == 'fewer':
        a['patches'][i]['n'][d] += 1
        a['patches'][i]['len'][d] *= a['patches'][i]['n'][d] / P['n'][d]
    elif what == 'level':
        P['level'] += 1
    elif what == 'lower':
        P['lower'][d] += 2. * P['len'][d] + abs(P['lower'][d])
    else:
        P['len'][d] *= 2.
    A, B = iokit.build(a), iokit.build(b)
    f = a['frame']
    A.write(f, path='w', file_format='ascii', write_aux=True)
    pyclaw.Solution(f, path='w', file_format='ascii'); mon.count('own-read')
    B.write(rng.choice([0, f]), path='v', file_format='ascii', write_aux=True)
    os.remove('w/fort.a' + str(f).zfill(4))
    name = [x for x in os.listdir('v') if x.startswith('fort.a')][0]
    os.rename('v/' + name, 'w/' + name)
    failing(mon, c, (f,), 'auxiliary data of another patch', dict(differs=what, dimension=d), path='w', file_format='ascii')
    pyclaw.Solution(f, path='w', file_format='ascii', read_aux=False)


def write_format(c, mon):
    s, sol, unit = build(c)
    expect(mon, lambda: sol.write(0, path='w', file_format=['hdf', 'text'][c['pick'] % 2]), 'unknown format')


def gauge_id(c, mon):
    from clawpack.pyclaw import gauges
    g = gauges.GaugeSolution()
    expect(mon, lambda: g.write('.'), 'an empty gauge')
    a, b = [(3, 4), (1, 11), (21, 1), (12, 2), (0, 10), (7, 70)][c['pick'] % 6]
    g.id = a; g.location = (.1, .2); g.level = np.array([1, 1]); g.t = np.array([0., 1.]); g.q = np.ones((2, 2))
    g.write('.')
    os.rename('gauge%05d.txt' % a, 'gauge%05d.txt' % b)
    expect(mon, lambda: gauges.GaugeSolution(b, '.'), 'the file of another gauge')
    expect(mon, lambda: gauges.GaugeSolution(a, '.'), 'a gauge that is not there')
    text = open('gauge%05d.txt' % b).read()
    open('gauge00005.txt', 'w').write(text.replace('gauge_id= %d' % a, 'gauge_id= 5').replace('num_eqn= 2', 'num_eqn= 3'))
    expect(mon, lambda: gauges.GaugeSolution(5, '.'), 'a gauge file with another number of values')


def state_invalid(c, mon):
    """one invalid state among several"""
    from .. import iokit
    import random
    g = iokit.case(random.Random(c['seed']), c['pick'] % 2 + 2); g['values'] = 'normal'; g['mapped'] = False
    sol = iokit.build(g)
    for st in sol.states:
        st.q = np.asfortranarray(st.q)
        if st.aux is not None:
            st.aux = np.asfortranarray(st.aux)
    mon.check(sol.is_valid() is True, 'valid', 'a valid solution of several patches is refused')
    st = sol.states[c['pick'] // 2 % len(sol.states)]
    st.q = np.repeat(st.q, 2, axis=1)[:, ::2]
    mon.count('refusals-expected')
    if st.q.flags['F_CONTIGUOUS']:
        return
    mon.check(st.is_valid() is False and sol.is_valid() is False, 'invalid', 'a solution with an invalid state says that it is valid', states=len(sol.states))
