import copy, os
import numpy as np
from .. import ctrl
ID = 'C20'; LEVEL = 'exploration'
RULE = ('one case = one fixed-step run that is also done in pieces: by several calls, step by step, with a new solver for each piece, through a deep copy, '
        'through files (ascii or HDF5, frame read by number), or by a second controller that continues from a frame of the first; the states must be those of the '
        'run in one go; kind variable: an adaptive run whose checkpoint is continued by new solvers from memory and from the file')
ASSUMPTIONS = ['one-step methods, so that a new solver needs no history', 'parameters and the index of the capacity function are set again where the format does not store them',
               'ascii carries nine digits: compared with 1e-5']


def cases(rng, tier):
    n = {'quick': 40, 'thorough': 900}[tier]
    out = []
    for kind in ('calls', 'steps', 'solvers', 'copy', 'disk', 'disk', 'variable', 'variable', 'controller', 'controller'):
        for _ in range(n):
            c = ctrl.problem(rng)
            c['dt'] = rng.choice([.05, .1, .15]); c['total'] = rng.choice([3, 5, 8]); c['at'] = sorted(rng.sample(range(1, c['total']), rng.choice([1, 1, 2])))
            c['fmt'] = rng.choice(['ascii', 'hdf5', 'hdf5']); c['zero'] = rng.random() < .4; c['kind'] = kind
            c['per'] = rng.choice([1, 2, 3]); c['style'] = rng.choice([1, 2, 3])
            c['frame'] = rng.choice([0, 1, 7])
            c['copied'] = rng.random() < .4
            out.append(c)
    return out


def fresh(c):
    s, sol, unit = ctrl.build(c)
    if c['kind'] != 'variable':
        s.dt_variable = False; s.cfl_max = 1e9
        s.dt = s.dt_initial = c['dt'] * unit
    return s, sol, unit


def same(mon, a, b, c, key, msg, tol=None, **kw):
    mon.count('compared')
    mon.check(abs(a.t - b.t) <= 1e-12 * max(abs(b.t), 1e-3) if tol is None else abs(a.t - b.t) <= 1e-7 * max(abs(b.t), 1e-3), key + '-time', msg + ' (time)', got=a.t, want=b.t, **kw)
    if tol is None:
        mon.check(np.array_equal(a.state.q, b.state.q, equal_nan=True), key, msg, diff=float(np.abs(np.array(a.state.q) - b.state.q).max()), **kw)
    else:
        mon.close(a.state.q, b.state.q, tol, key, msg, **kw)
    if b.state.aux is not None:
        mon.check(a.state.aux is not None and a.state.aux.shape == b.state.aux.shape and
                  (np.array_equal(a.state.aux, b.state.aux, equal_nan=True) if tol is None else np.allclose(a.state.aux, b.state.aux, rtol=1e-8, atol=0)), key + '-aux', msg + ' (aux)', **kw)


def whole(c):
    s, sol, unit = fresh(c)
    s.evolve_to_time(sol, sol.t + c['total'] * s.dt)
    return sol


def load(c, frame, path, like):
    from clawpack import pyclaw
    kw = dict(path=path, file_format=c['fmt'])
    if c['fmt'] == 'hdf5':
        kw['file_prefix'] = 'claw'
    if c['zero'] is not None:
        kw['count_from_zero'] = c['zero']
    sol = pyclaw.Solution(frame, **kw)
    if c['fmt'] == 'hdf5':
        sol.state.problem_data = copy.deepcopy(like.state.problem_data)
    sol.state.index_capa = like.state.index_capa
    return sol


def run(c, mon):
    mon.need('compared')
    k = c['kind']
    tol = 1e-5 if c['fmt'] == 'ascii' and k in ('disk', 'controller', 'variable') else None
    if k == 'controller':
        return controller(c, mon, tol)
    if k == 'variable':
        return variable(c, mon, tol)
    want = whole(c)
    s, sol, unit = fresh(c)
    t0 = sol.t; dt = s.dt
    if k == 'steps':
        for _ in range(c['total']):
            s.evolve_to_time(sol)
        return same(mon, sol, want, c, k, 'step by step')
    done = 0
    for n, stop in enumerate(c['at'] + [c['total']]):
        s.evolve_to_time(sol, sol.t + (stop - done) * dt)
        done = stop
        if done == c['total']:
            break
        if k == 'solvers':
            s, _, _ = fresh(c)
        elif k == 'copy':
            old = sol
            sol = copy.deepcopy(sol)
            old.state.q[...] = 3.
            if n % 2:
                s, _, _ = fresh(c)
        elif k == 'disk':
            sol.write(c['frame'] + n, 'ckpt', c['fmt'], write_aux=True)
            like = sol
            sol = load(c, c['frame'] + n, 'ckpt', like)
            mon.check(sol.start_frame == (0 if c['zero'] else c['frame'] + n), 'start-frame', 'first frame of the continued run', got=sol.start_frame)
            if c['copied']:
                old = sol
                sol = copy.deepcopy(sol)
                mon.check(sol.start_frame == old.start_frame, 'copied-frame', 'a copy continues with another frame number', got=sol.start_frame, want=old.start_frame)
            if c['fmt'] == 'ascii':
                mon.check(sol.state.problem_data == like.state.problem_data, 'disk-params', 'parameters read back')
            mon.check(sol.is_valid(), 'disk-valid', 'a solution read back cannot be advanced')
            s, _, _ = fresh(c)
    same(mon, sol, want, c, k, 'in pieces (%s)' % k, tol, format=c['fmt'])


def variable(c, mon, tol):
    """checkpoint of an adaptive run; new solvers continue from memory and from the file"""
    s, sol, unit = fresh(c)
    s.dt = s.dt_initial
    s.evolve_to_time(sol, sol.t + 1.7 * unit)
    sol.write(c['frame'], 'ckpt', c['fmt'], write_aux=True)
    back = load(c, c['frame'], 'ckpt', sol)
    if c['fmt'] == 'hdf5':
        mon.check(np.array_equal(back.state.q, sol.state.q, equal_nan=True) and back.t == sol.t, 'checkpoint', 'checkpoint read back')
    out = []
    for x in (sol, back):
        s, _, _ = fresh(c)
        s.dt = s.dt_initial
        s.evolve_to_time(x, sol.t + 1.3 * unit if x is sol else tend)
        tend = sol.t
        out.append(s.status['numsteps'])
    if tol is None:
        mon.check(out[0] == out[1], 'variable-steps', 'number of steps after a restart', got=out)
    same(mon, back, sol, c, 'variable', 'an adaptive run continued from a file', 1e-5 if tol else None)


def controller(c, mon, tol):
    """all frames by one controller, and by two, the second continuing from a frame of the first"""
    from clawpack import pyclaw
    n = c['total']; cut = c['at'][0]

    def go(sol, s, outdir, first, last):
        claw = pyclaw.Controller(); claw.solver = s; claw.solution = sol; claw.verbosity = 0; claw.outdir = os.path.abspath(outdir)
        claw.output_format = c['fmt']; claw.write_aux_always = True
        claw.output_style = c['style']
        dt = s.dt; t0 = sol.t
        claw.num_output_times = last - first
        claw.tfinal = t0 + (last - first) * c['per'] * dt
        claw.out_times = [t0 + i * c['per'] * dt for i in range(last - first + 1)]
        if c['style'] == 3:
            claw.nstepout = c['per']; claw.num_output_times = last - first + sol.start_frame
        claw.run()
    s, sol, unit = fresh(c)
    go(sol, s, 'whole', 0, n)
    pre = {'ascii': 'fort', 'hdf5': 'claw'}[c['fmt']]
    frames = ctrl.frames_on_disk('whole', c['fmt'])
    mon.check(frames == list(range(n + 1)), 'frames', 'frames of the run in one go', got=frames)
    s, sol1, unit = fresh(c)
    go(sol1, s, 'parts', 0, cut)
    # a run that was interrupted has left nothing but its files
    sol2 = load(c, cut, 'parts', sol1)
    if c['copied']:
        sol2 = copy.deepcopy(sol2)
        mon.count('copied')
    s, _, _ = fresh(c)
    second = 'second' if c['zero'] else 'parts'
    first = 0 if c['zero'] else cut
    go(sol2, s, second, cut, n)
    got = ctrl.frames_on_disk(second, c['fmt'])
    mon.check(got == (list(range(n - cut + 1)) if c['zero'] else list(range(n + 1))), 'frames-continued', 'frame numbers after continuing from a frame',
              got=got, cut=cut, total=n, count_from_zero=c['zero'])
    for i in range(n + 1):
        if i < cut:
            path, f = 'parts', i
        else:
            path, f = second, i - cut + first
        if f not in ctrl.frames_on_disk(path, c['fmt']):
            continue
        a = pyclaw.Solution(f, path=path, file_format=c['fmt'], file_prefix=pre)
        b = pyclaw.Solution(i, path='whole', file_format=c['fmt'], file_prefix=pre)
        same(mon, a, b, c, 'continued', 'a frame of the continued run', tol, frame=i, cut=cut)
