import os
import numpy as np
from .. import ctrl
ID = 'C14'; LEVEL = 'exploration'
RULE = ('one case = a history of one to three controller runs (output styles 1, 2, 3; formats none, ascii, hdf5 or both; kept copies; aux output) '
        'on one solution; every frame kept in memory and every frame read back from disk is compared with the state of a twin that is advanced '
        'directly to the same time or by the same number of steps; non-trivial when frames after the initial one were compared')
ASSUMPTIONS = ['the first entry of an explicit list of output times is the time of the initial frame',
               'files carry 8 significant digits in the ascii format']


def cases(rng, tier):
    n = {'quick': 110, 'thorough': 2000}[tier]
    out = []
    for _ in range(n):
        c = ctrl.problem(rng)
        c['keep'] = rng.random() < .6
        c['format'] = rng.choice([None, 'ascii', 'hdf5', 'ascii+hdf5', 'ascii'])
        if c['format'] is None:
            c['keep'] = True
        c['prefix'] = None if c['format'] == 'ascii+hdf5' else rng.choice([None, None, 'out'])     # the reader prefers the ascii header
        c['auxinit'] = rng.random() < .5; c['auxalways'] = rng.random() < .3
        c['first'] = rng.choice([0, 0, 0, 1, 3, 12])        # the run continues one that ended with this frame
        c['options'] = rng.choice([{}, {}, {'compression': 'gzip'}, {'compression': 'lzf', 'fletcher32': True}])
        c['runs'] = []
        for k in range(rng.choice([1, 1, 2, 3])):
            st = rng.choice([1, 2, 3])
            if k and (c['keep'] or c['first']) and st == 3:
                st = 2                # style 3 counts frames from the start frame: runs of their own
            r = dict(style=st, nout=rng.choice([1, 2, 3, 5]))
            if st == 1:
                r['tinc'] = rng.choice([.3, 1.7, 6.])
            elif st == 2:
                r['incs'] = [rng.choice([0., .2, 1., 2.5]) for _ in range(rng.choice([1, 2, 4]))]
            else:
                r['nstep'] = rng.choice([1, 1, 2, 3])
            if k and rng.random() < .15:         # nothing asked for after the initial frame
                r['nout'] = 0 if st == 1 else r['nout']
                r['incs'] = [] if st == 2 else r.get('incs')
            if k == 0 and st == 3:
                r['nout'] += c['first']
            c['runs'].append(r)
        c['kind'] = 'run%d-%s' % (len(c['runs']), c['format'])
        out.append(c)
    for _ in range(max(6, n // 12)):
        c = ctrl.problem(rng)
        c.update(kind='overwrite', format='ascii')
        out.append(c)
    for _ in range(max(14, n // 8)):
        c = ctrl.problem(rng)
        c.update(kind='disk-full', format=rng.choice(['ascii', 'ascii', 'hdf5']), bad=rng.choice([0, 1, 2]), keep=rng.random() < .5, derived=rng.random() < .5, file=rng.random(), full=rng.random() < .6)
        out.append(c)
    return out


def run(c, mon):
    from clawpack import pyclaw
    if c['kind'] == 'overwrite':
        return overwrite(c, mon)
    if c['kind'] == 'disk-full':
        return disk_full(c, mon)
    mon.need('frames')
    s, sol, unit = ctrl.build(c)
    s2, twin, _ = ctrl.build(c)
    s2.setup(twin); s2.dt = s2.dt_initial
    if c['first']:
        sol = restart(c, sol)
    claw = pyclaw.Controller()
    claw.solution = sol; claw.solver = s; claw.verbosity = 0
    claw.output_options = dict(c['options'])
    claw.keep_copy = c['keep']
    fmts = c['format'].split('+') if c['format'] else []
    claw.output_format = None if not fmts else (fmts[0] if len(fmts) == 1 else fmts)
    claw.output_file_prefix = c['prefix']
    claw.write_aux_init = c['auxinit']; claw.write_aux_always = c['auxalways']
    kept = 0
    for k, r in enumerate(c['runs']):
        out = os.path.abspath('out%d' % k)
        claw.outdir = place('out%d' % k, c['seed'] + k) if fmts or c['seed'] % 2 else None        # no output, no directory
        start = sol.start_frame
        mon.check(k or start == c['first'], 'start', 'the frames do not go on where the run that is continued ended', got=start, want=c['first'])
        want = [ctrl.snap(twin)]
        t0 = twin.t
        claw.output_style = r['style']; claw.num_output_times = r['nout']
        if r['style'] == 1:
            claw.tfinal = t0 + r['tinc'] * unit
            times = [t0 + (claw.tfinal - t0) * (i + 1.) / r['nout'] for i in range(r['nout'])]
        elif r['style'] == 2:
            times = list(t0 + np.cumsum(r['incs']) * unit)
            claw.out_times = [t0] + times
        else:
            claw.nstepout = r['nstep']; times = None
        status = claw.run()
        if not c['keep']:
            mon.check(len(claw.frames) == 0, 'kept', 'frames were kept in memory though not requested', n=len(claw.frames))
        seen = [ctrl.snap(f) for f in claw.frames[kept:]] if c['keep'] else None
        # the twin
        if times is None:
            for i in range(r['nout'] - start):
                for _ in range(r['nstep']):
                    s2.evolve_to_time(twin)
                want.append(ctrl.snap(twin))
        else:
            for i, t in enumerate(times):
                # the time the controller used (rounding of the schedule): taken from the frame when it agrees to rounding
                tt = t
                if c['keep'] and len(seen) > i + 1 and abs(seen[i + 1]['t'] - t) <= 4e-15 * max(abs(t), abs(t0)):
                    tt = seen[i + 1]['t']
                elif not c['keep'] and r['style'] == 1:
                    tt = float(np.linspace(t0, claw.tfinal, r['nout'] + 1)[i + 1])
                s2.evolve_to_time(twin, tt)
                want.append(ctrl.snap(twin))
                mon.check(abs(twin.t - t) <= 1e-12 * max(abs(t), unit), 'time', 'frame time is not the requested one', got=twin.t, want=t)
        tol = None
        if c['keep']:
            mon.check(len(seen) == len(want), 'frames-kept', 'number of kept frames', got=len(seen), want=len(want))
            for i, (a, b) in enumerate(zip(seen, want)):
                mon.count('frames', i > 0)
                okt = abs(a['t'] - b['t']) <= 1e-13 * max(abs(b['t']), unit)
                mon.check(okt, 'kept-time', 'time of a kept frame', frame=i, got=a['t'], want=b['t'])
                mon.close(a['q'], b['q'], 1e-10, 'kept-data', 'a kept frame is not the solution at its time', frame=i)
                if b['aux'] is not None:
                    mon.check(np.array_equal(a['aux'], b['aux'], equal_nan=True), 'kept-aux', 'aux of a kept frame', frame=i)
            kept = len(claw.frames)
        go_on = start + (len(want) if c['keep'] else 0)
        mon.check(sol.start_frame == go_on or not c['keep'] and sol.start_frame >= start, 'next-frame', 'the next run would not continue after the frames kept by this one', got=sol.start_frame, want=go_on, start=start, kept=c['keep'])
        now = ctrl.snap(sol)
        mon.close(now['q'], want[-1]['q'], 1e-10, 'final', 'the solution after the run is not that of the last frame')
        mon.check(status is not None and status['numsteps'] == s2.status['numsteps'], 'steps', 'number of steps reported',
                  got=status and status['numsteps'], want=s2.status['numsteps'])
        for fmt in fmts:
            nums = ctrl.frames_on_disk(out, fmt, c['prefix'])
            mon.check(nums == list(range(start, start + len(want))), 'frames-disk', 'frame numbers written', format=fmt, got=nums,
                      want='%d frames from %d' % (len(want), start))
            for i, b in enumerate(want):
                if start + i not in nums:
                    continue
                pre = c['prefix'] or {'ascii': 'fort', 'hdf5': 'claw'}[fmt]
                g = pyclaw.Solution(start + i, path=out, file_format=fmt, file_prefix=pre)
                a = ctrl.snap(g)
                mon.count('frames', i > 0)
                mon.count('frames_on_disk')
                tl = 6e-9 if fmt == 'ascii' else 1e-13
                mon.check(abs(a['t'] - b['t']) <= tl * max(abs(b['t']), 1e-30), 'disk-time', 'time of a written frame', frame=i, got=a['t'], want=b['t'], format=fmt)
                mon.close(a['q'], b['q'], 1e-8 if fmt == 'ascii' else 1e-10, 'disk-data', 'a written frame is not the solution at its time', frame=i, format=fmt)
        if 'hdf5' in fmts:
            options(c, mon, out, start, len(want))
        if 'ascii' in fmts and sol.state.num_aux:
            got = ctrl.aux_on_disk(out, c['prefix'])
            exp = list(range(start, start + len(want))) if c['auxalways'] else ([start] if c['auxinit'] else [])
            mon.check(got == exp, 'aux-files', 'frames with aux files', got=got, want=exp)
        if not fmts:
            mon.check(not os.path.exists(out) or not os.listdir(out), 'no-output', 'files were written although no format is set')
        # a kept frame must not follow the solution
        if c['keep'] and k == len(c['runs']) - 1:
            before = [f.state.q.copy() for f in claw.frames]
            sol.state.q[...] = 7.
            mon.check(all(np.array_equal(a, f.state.q, equal_nan=True) for a, f in zip(before, claw.frames)), 'kept-alias', 'a kept frame shares data with the solution')


def restart(c, sol):
    """the solution as a user gets it to continue a run: read from its last frame"""
    from clawpack import pyclaw
    sol.write(c['first'], path='before', file_format='hdf5', write_aux=True)
    new = pyclaw.Solution(c['first'], path='before', file_format='hdf5', file_prefix='claw', count_from_zero=False)
    new.state.problem_data.update(sol.state.problem_data)
    new.state.index_capa = sol.state.index_capa
    return new


def options(c, mon, out, start, n):
    """the options of the format reach every frame"""
    import h5py
    for i in range(start, start + n):
        name = os.path.join(out, '%s%04d.hdf' % (c['prefix'] or 'claw', i))
        if os.path.exists(name):
            with h5py.File(name, 'r') as f:
                for g in f.values():
                    mon.count('options')
                    mon.check(g['q'].compression == c['options'].get('compression') and g['q'].fletcher32 == c['options'].get('fletcher32', False), 'options',
                              'a frame was written with other options', frame=i, got=(g['q'].compression, g['q'].fletcher32), want=c['options'])


def place(name, how):
    """a directory of the scratch directory, named in one of the ways users name directories"""
    os.environ['HOME'] = os.environ['VERIF_PLACE'] = os.getcwd()
    return [os.path.abspath(name), os.path.abspath(name), name, './' + name, '~/' + name, '$VERIF_PLACE/' + name][how % 6]


def tree(path):
    out = {}
    for base, _, files in os.walk(path):
        for n in files:
            out[os.path.relpath(os.path.join(base, n), path)] = open(os.path.join(base, n), 'rb').read()
    return out


def overwrite(c, mon):
    """existing output is only touched if overwriting is allowed"""
    from clawpack import pyclaw
    mon.need('refused')
    s, sol, unit = ctrl.build(c)
    grid = sol.state.grid
    gauges = c['seed'] % 3 > 0
    if gauges:
        grid.add_gauges([[d.lower + x * (d.upper - d.lower) for d in grid.dimensions] for x in (.31, .77)])
    out = os.path.abspath('here')
    names = ['fort.q0000', 'fort.t0000', 'fort.pkl0000', 'mine', 'F.txt', '_p/claw_p.q0000'] + ['%s/%s' % (grid.gauge_dir_name, n) for n in grid.gauge_file_names]
    for name in names:
        os.makedirs(os.path.dirname(os.path.join(out, name)), exist_ok=True)
        open(os.path.join(out, name), 'w').write('precious ' + name)
    before = tree(out)
    a = ctrl.snap(sol)

    def controller(path):
        claw = pyclaw.Controller(); claw.solution = sol; claw.solver = s; claw.verbosity = 0; claw.outdir = place(os.path.basename(path), c['seed'] // 7)
        claw.overwrite = False; claw.tfinal = sol.t + unit; claw.num_output_times = 1
        claw.keep_copy = c['seed'] % 2 == 0
        if c['seed'] % 5 < 2:
            if not sol.state.mF:
                sol.state.mF = 1

            def density(state):
                state.F[0] = state.q[0]
            claw.compute_F = density
        return claw
    claw = controller(out)
    try:
        claw.run()
        mon.fail('overwrite', 'existing output was accepted although overwriting is disallowed')
    except Exception:
        mon.count('refused')
    after = tree(out)
    mon.check(after == before, 'overwrite-touched', 'existing output was changed although overwriting is disallowed',
              files=sorted(n for n in set(after) | set(before) if after.get(n) != before.get(n)), gauges=gauges)
    mon.check(len(claw.frames) == 0, 'overwrite-frames', 'a refused run left frames', n=len(claw.frames))
    ctrl.same(mon, ctrl.snap(sol), a, 'overwrite-advanced', 'a refused run changed the solution')
    if c['seed'] % 4 == 0:
        # a directory that does not exist yet holds nothing that could be overwritten
        out = os.path.abspath('fresh')
        claw = controller(out)
        mon.count('fresh directories')
    else:
        claw.overwrite = True
    try:
        claw.run()
    except Exception as e:
        mon.fail('overwrite-refused', 'a run that overwrites nothing forbidden was refused', error=repr(e)[:200], gauges=gauges, fresh=out.endswith('fresh'))
        return
    mon.check(ctrl.frames_on_disk(out, 'ascii') == [0, 1] and (out.endswith('fresh') or open(os.path.join(out, 'mine')).read() == 'precious mine'), 'overwrite-allowed',
              'frames after an allowed run', files=os.listdir(out))
    if gauges:
        mon.check(all(os.path.getsize(os.path.join(out, grid.gauge_dir_name, n)) > 0 for n in grid.gauge_file_names if os.path.exists(os.path.join(out, grid.gauge_dir_name, n))) and
                  not [n for n in os.listdir('.') if n[0] in '~$'], 'output-place', 'output is not in the directory asked for', there=sorted(os.listdir('.')))
    if claw.keep_copy:
        mon.check(len(claw.frames) == 2, 'overwrite-frames', 'number of frames kept after a refused and an allowed run', n=len(claw.frames))
    g = pyclaw.Solution(0, path=out)
    mon.close(g.state.q, a['q'], 1e-8, 'overwrite-data', 'initial frame')


def disk_full(c, mon):
    """a frame that cannot be written stops the run; what was written before stays right, and the solution can still be saved"""
    from clawpack import pyclaw
    mon.need('faults')
    s, sol, unit = ctrl.build(c)
    s2, twin, _ = ctrl.build(c)
    s2.setup(twin); s2.dt = s2.dt_initial
    out = os.path.abspath('out')
    claw = pyclaw.Controller(); claw.solution = sol; claw.solver = s; claw.verbosity = 0; claw.outdir = out
    claw.output_format = c['format']; claw.keep_copy = c['keep']; claw.tfinal = sol.t + unit; claw.num_output_times = 2
    if c['derived']:
        sol.state.mp = 1; sol.state.mF = 1

        def derived(state):
            state.p[0] = 2 * state.q[0]

        def density(state):
            state.F[0] = state.q[0]
        claw.compute_p = derived; claw.compute_F = density
    k = c['bad']
    names = ['fort.q%04d' % k, 'fort.t%04d' % k, 'fort.pkl%04d' % k] if c['format'] == 'ascii' else ['claw%04d.hdf' % k]
    if c['derived']:
        names += ['_p/claw_p.q%04d' % k if c['format'] == 'ascii' else '_p/claw_p%04d.hdf' % k]
    bad = os.path.join(out, names[int(c['file'] * len(names))])
    os.makedirs(os.path.dirname(bad))
    if c['full']:
        os.symlink('/dev/full', bad)          # every write fails: no space left
    else:
        os.mkdir(bad)                         # cannot be opened
    times = list(np.linspace(sol.t, claw.tfinal, 3))
    want = [ctrl.snap(twin)]
    for t in times[1:k + 1]:
        s2.evolve_to_time(twin, t); want.append(ctrl.snap(twin))
    try:
        claw.run()
        mon.fail('disk-full', 'a run whose output could not be written ended as if nothing had happened', file=bad, full=c['full'])
    except Exception:
        mon.count('faults')
    now = ctrl.snap(sol)
    mon.check(abs(now['t'] - times[k]) <= 1e-12 * max(abs(times[k]), unit), 'disk-full-time', 'the run went on after output failed', got=now['t'], want=times[k])
    mon.close(now['q'], want[-1]['q'], 1e-10, 'disk-full-state', 'the solution after output failed is not that of the frame')
    for i in range(k):
        pre = {'ascii': 'fort', 'hdf5': 'claw'}[c['format']]
        g = ctrl.snap(pyclaw.Solution(i, path=out, file_format=c['format'], file_prefix=pre))
        mon.close(g['q'], want[i]['q'], 1e-8 if c['format'] == 'ascii' else 1e-10, 'disk-full-earlier', 'a frame written before output failed', frame=i)
        mon.count('earlier frames')
    if c['keep']:
        mon.check(len(claw.frames) in (k, k + 1), 'disk-full-kept', 'frames kept when output failed', got=len(claw.frames), want=k + 1)
        for a, b in zip(claw.frames, want):
            mon.close(ctrl.snap(a)['q'], b['q'], 1e-10, 'disk-full-kept', 'a frame kept when output failed')
    # the solution can be saved elsewhere and the run goes on from there
    sol.write(k, path='rescue', file_format=c['format'])
    g = ctrl.snap(pyclaw.Solution(k, path='rescue', file_format=c['format']))
    mon.close(g['q'], want[-1]['q'], 1e-8 if c['format'] == 'ascii' else 1e-10, 'disk-full-rescue', 'the solution saved after output failed')
    for t in times[k + 1:]:
        s.evolve_to_time(sol, t); s2.evolve_to_time(twin, t)
    mon.close(ctrl.snap(sol)['q'], ctrl.snap(twin)['q'], 1e-10, 'disk-full-on', 'the run continued after output failed is another one')
