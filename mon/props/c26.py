import os
import numpy as np
from .. import ctrl, iokit
ID = 'C26'; LEVEL = 'exploration'
RULE = ('one case = one or two controller runs with derived-quantity and functional callbacks; the derived frames read back from disk and the rows of the '
        'functional file are compared with the callbacks evaluated on a twin advanced directly; non-trivial when frames after the initial one were compared')
ASSUMPTIONS = ['a functional row holds the time and, for every functional, the sum of the absolute values of its density over the cells']


def cases(rng, tier):
    n = {'quick': 150, 'thorough': 2500}[tier]
    out = []
    for _ in range(n):
        c = ctrl.problem(rng)
        c['format'] = rng.choice(['ascii', 'hdf5'])
        c['mp'] = rng.choice([0, 1, 2, 3]); c['mF'] = rng.choice([0, 1, 3]) if c['mp'] else rng.choice([1, 3])
        c['nout'] = rng.choice([1, 2, 4]); c['keep'] = rng.random() < .5; c['fname'] = rng.choice(['F', 'energy'])
        c['runs'] = rng.choice([1, 1, 2, 3]); c['same'] = rng.random() < .5
        c['style'] = rng.choice([1, 1, 2, 3]); c['pprefix'] = rng.choice(['claw_p', 'claw_p', 'vorticity'])
        c['formats'] = rng.choice([None, None, ['ascii', 'hdf5'], ['hdf5', 'ascii']])
        if c['style'] == 3:
            c['runs'] = 1; c['nstep'] = rng.choice([1, 3])
        c['silent'] = not c['mp'] and rng.random() < .4      # functionals alone, in a directory that is there
        c['kind'] = 'p%dF%d-%s' % (c['mp'] > 0, c['mF'] > 0, c['format'])
        out.append(c)
        if len(out) % 3 == 0:
            c = iokit.case(rng)
            c.update(kind='patches-%s' % out[-1]['format'], format=out[-1]['format'], mp=rng.choice([1, 2, 4, 12]), mapped=False)
            out.append(c)
    return out


def patches(c, mon):
    """derived quantities of solutions with several patches, written and read back"""
    from clawpack import pyclaw
    sol = iokit.build(c)
    r = np.random.default_rng(c['seed'] + 5)
    sol.mp = c['mp']
    for st in sol.states:
        st.p[...] = iokit.values(r, st.p.shape, c['values'])
    p = [np.array(st.p) for st in sol.states]; q = [np.array(st.q) for st in sol.states]
    kw = dict(path='o', file_format=c['format'], file_prefix='claw_p')
    sol.write(c['frame'], write_p=True, **kw)
    mon.check(all(iokit.eq(st.p, a, 0) and iokit.eq(st.q, b, 0) for st, a, b in zip(sol.states, p, q)), 'patches-memory', 'writing derived quantities changed the solution')
    got = iokit.by_index(pyclaw.Solution(c['frame'], read_aux=False, **kw))
    mon.check(sorted(got) == sorted(iokit.by_index(sol)), 'patches-indices', 'patches of the derived quantities', got=sorted(got))
    for i, st in iokit.by_index(sol).items():
        if i in got:
            mon.count('compared'); mon.count('patches')
            mon.check(got[i].num_eqn == c['mp'] and iokit.eq(got[i].q, st.p, 0 if c['format'] == 'hdf5' else 6e-9), 'patches-p', 'derived quantities of a patch', patch=i)


def run(c, mon):
    from clawpack import pyclaw
    mon.need('compared')
    if c['kind'].startswith('patches'):
        return patches(c, mon)
    s, sol, unit = ctrl.build(c)
    s2, twin, _ = ctrl.build(c)
    s2.setup(twin); s2.dt = s2.dt_initial
    w = np.random.RandomState(c['seed'] % 1000).uniform(-1, 1, (6, 8))

    def pfun(q, aux, t, m, row):
        return np.array([sum(w[i, k] * q[k] for k in range(q.shape[0])) + w[i, 6] * q[0] ** 2 + t for i in range(row, row + m)])

    def cp(state):
        state.p[...] = pfun(state.q, state.aux, state.t, c['mp'], 0)
        mon.count('compute_p')

    def cF(state):
        state.F[...] = pfun(state.q, state.aux, state.t, c['mF'], 3)
        mon.count('compute_F')
    claw = pyclaw.Controller(); claw.solution = sol; claw.solver = s; claw.verbosity = 0
    claw.output_format = c['formats'] or c['format']; claw.num_output_times = c['nout']; claw.keep_copy = c['keep']
    claw.F_file_name = c['fname']; claw.file_prefix_p = c['pprefix']
    claw.output_style = c['style']
    if c['silent']:
        claw.output_format = None
    if c['mp']:
        sol.state.mp = c['mp']; claw.compute_p = cp
    if c['mF']:
        sol.state.mF = c['mF']; claw.compute_F = cF
    for k in range(c['runs']):
        claw.outdir = os.path.abspath('o%d' % (0 if c['same'] else k))
        claw.overwrite = True
        start = sol.start_frame
        t0 = twin.t
        claw.tfinal = t0 + 2.2 * unit
        want = [ctrl.snap(twin)]
        times = np.linspace(t0, claw.tfinal, c['nout'] + 1)
        if c['style'] == 2:
            times = t0 + (times - t0) ** 2 / (times[-1] - t0)
            claw.out_times = list(times)
        if c['style'] == 3:
            claw.nstepout = c['nstep']; claw.num_output_times = c['nout'] + start
        if c['silent'] and not os.path.exists(claw.outdir):
            os.mkdir(claw.outdir)
        claw.run()
        for t in times[1:]:
            if c['style'] == 3:
                for _ in range(c['nstep']):
                    s2.evolve_to_time(twin)
            else:
                s2.evolve_to_time(twin, t)
            want.append(ctrl.snap(twin))
        mon.count('style%d' % c['style'])
        mon.close(sol.state.q, twin.state.q, 1e-10, 'solution', 'derived output changed the run')
        if c['silent']:
            mon.check(os.listdir(claw.outdir) == [c['fname'] + '.txt'], 'silent', 'files were written though no output was requested', files=sorted(os.listdir(claw.outdir))[:5])
        for fmt in (c['formats'] or [c['format']]) if c['mp'] else []:
            for i, b in enumerate(want):
                try:
                    g = pyclaw.Solution(start + i, path=os.path.join(claw.outdir, '_p'), file_format=fmt, file_prefix=c['pprefix'])
                except Exception as e:
                    mon.fail('p-read', 'the derived quantities cannot be read back', error=repr(e)[:200], frame=i); continue
                mon.count('compared', i > 0)
                exp = pfun(b['q'], b['aux'], b['t'], c['mp'], 0)
                mon.check(abs(g.t - b['t']) <= 1e-8 * max(abs(b['t']), 1e-30), 'p-time', 'time of the derived frame', got=g.t, want=b['t'])
                mon.close(g.state.q, exp, 2e-8, 'p-data', 'derived quantities of the frame', frame=i)
            nums = ctrl.frames_on_disk(os.path.join(claw.outdir, '_p'), fmt, c['pprefix'])
            lo = 0 if c['same'] else start
            mon.check(nums == list(range(lo, start + len(want))), 'p-frames', 'derived frames written', got=nums)
        # q is still written, and is still q
        for i, b in enumerate(want if not c['silent'] else []):
            g = pyclaw.Solution(start + i, path=claw.outdir, file_format=c['format'], file_prefix='fort' if c['format'] == 'ascii' else 'claw')
            mon.close(g.state.q, b['q'], 2e-8, 'q-data', 'q of the frame', frame=i)
        if c['mF']:
            rows = np.array([[float(x) for x in l.split()] for l in open(os.path.join(claw.outdir, c['fname'] + '.txt'))])
            exp = np.array([[b['t']] + [np.abs(x).sum() for x in pfun(b['q'], b['aux'], b['t'], c['mF'], 3)] for b in want])
            mon.close(rows, exp, 1e-9, 'F-data', 'rows of the functional file')
            mon.count('compared', len(rows) - 1)
