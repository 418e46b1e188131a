import os
import numpy as np
from .. import iokit
ID = 'C17'; LEVEL = 'exploration'
TIMEOUT = 90
RULE = ('one case = one random solution written as HDF5 and read back, written as VTK and read with the VTK library, or laid out as raw binary (as the '
        'Fortran packages do, with ghost cells, in single or double precision) and read; non-trivial when data were compared')
ASSUMPTIONS = ['VTK output covers two dimensions and single precision', 'raw binary files hold ghost cells around every patch, as their header tells']


def cases(rng, tier):
    n = {'quick': 60, 'thorough': 1200}[tier]
    out = []
    for _ in range(n):
        c = iokit.case(rng); c['kind'] = 'hdf5'
        c['opts'] = rng.choice([{}, {}, {'compression': 'gzip'}, {'fletcher32': True}, {'shuffle': True}])
        c['aux'] = rng.random() < .7; c['shared'] = rng.random() < .3
        out.append(c)
        c = iokit.case(rng); c['kind'] = 'binary'
        c['nghost'] = rng.choice([0, 1, 2, 2, 3]); c['fmt'] = rng.choice(['binary', 'binary32', 'binary64'])
        c['header'] = rng.choice([True, True, False]); c['aux'] = rng.choice(['frame', 'frame', 'zero', None])
        c['values'] = 'normal' if c['values'] == 'extreme' else c['values']
        out.append(c)
        c = hierarchy(rng)
        c['binary'] = rng.random() < .5
        out.append(c)
    for fmt in ('netcdf',):
        for _ in range(3):
            c = iokit.case(rng, rng.choice([1, 2]), False); c['kind'] = fmt
            out.append(c)
    return out


def hierarchy(rng):
    """nested patches: spacing halves from level to level, fine patches cover whole coarse cells"""
    c = iokit.case(rng, 2, False); c['kind'] = rng.choice(['vtk', 'vtk', 'vtk', 'vtk_controller']); c['values'] = 'normal'; c['maux'] = rng.choice([0, 1]); c['t'] = 1.5
    p = c['patches'][0]
    p['n'] = [rng.choice([4, 6, 9]), rng.choice([4, 5, 8])]
    p['lower'] = [rng.choice([0., -1.5, .25]) for _ in range(2)]; p['len'] = [rng.choice([1., 2.5]) for _ in range(2)]
    d = [p['len'][k] / p['n'][k] for k in range(2)]
    for lev in range(2, 2 + (rng.choice([0, 1, 2]) if c['kind'] == 'vtk' else 0)):
        par = rng.choice([x for x in c['patches'] if x['level'] == lev - 1])
        dp = [y / 2 ** (lev - 2) for y in d]
        for _ in range(rng.choice([1, 2])):
            lo = [rng.randrange(par['n'][k] - 1) for k in range(2)]
            hi = [rng.randint(lo[k] + 1, par['n'][k]) for k in range(2)]
            c['patches'].append(dict(n=[2 * (hi[k] - lo[k]) for k in range(2)], lower=[par['lower'][k] + lo[k] * dp[k] for k in range(2)],
                                     len=[(hi[k] - lo[k]) * dp[k] for k in range(2)], level=lev))
    return c


def run(c, mon):
    mon.need('checked')
    globals()[c['kind']](c, mon)


def snapshot(sol):
    return [(np.array(s.q), None if s.aux is None else np.array(s.aux), s.t, s.q.shape) for s in sol.states]


def unchanged(mon, sol, before, key):
    now = snapshot(sol)
    ok = len(now) == len(before) and all(a[3] == b[3] and iokit.eq(a[0], b[0], 0) and (a[1] is None or iokit.eq(a[1], b[1], 0)) and a[2] == b[2]
                                         for a, b in zip(now, before))
    mon.check(ok, key, 'writing changed the solution', shapes=[a[3] for a in now], were=[b[3] for b in before])


def hdf5(c, mon):
    from clawpack import pyclaw
    sol = iokit.build(c)
    before = snapshot(sol)
    kw = dict(options=dict(c['opts'])) if c['opts'] else {}
    f = c['frame']
    sol.write(f, path='out', file_format='hdf5', write_aux=c['aux'], **kw)
    unchanged(mon, sol, before, 'hdf5-write-changes')
    got = pyclaw.Solution(f, path='out', file_format='hdf5', file_prefix='claw')
    iokit.compare(mon, got, sol, 0 if True else 1e-15, 'hdf5', aux='same' if c['aux'] else 'none', order=True)
    if c['maux']:
        bare = pyclaw.Solution(f, path='out', file_format='hdf5', file_prefix='claw', read_aux=False)
        mon.check(all(np.isnan(s.aux).all() for s in bare.states) and (c['aux'] or all(np.isnan(s.aux).all() for s in got.states)), 'hdf5-noaux', 'aux data that were not read are not marked as missing')
    # the prefix a format writes with by default is the one it reads with by default
    iokit.compare(mon, pyclaw.Solution(f, path='out', file_format='hdf5'), sol, 0, 'hdf5-default-prefix', aux='same' if c['aux'] else 'none', order=True)
    for i, s in iokit.by_index(got).items():
        w = iokit.by_index(sol)[i]
        mon.check([d.name for d in s.patch.dimensions] == [d.name for d in w.patch.dimensions], 'hdf5-names', 'dimension names')
        mon.check(list(map(float, s.grid.lower)) == list(w.grid.lower) and list(map(float, s.grid.upper)) == list(w.grid.upper), 'hdf5-extent-exact', 'extent')
        mon.check(s.q.flags['F_CONTIGUOUS'] and (s.aux is None or not c['aux'] or s.aux.flags['F_CONTIGUOUS']), 'hdf5-layout', 'a solution read from a file is not valid input to a solver')
    iokit.reread(mon, c, f, sol, 0, 'hdf5', aux='same' if c['aux'] else 'none', path='out', file_format='hdf5', file_prefix='claw', order=True)
    if c['shared']:
        # ascii and hdf5 output share one option dictionary, as the controller passes it
        opts = {}
        sol.write(f, path='o2', file_format=['hdf5', 'ascii'], options=opts, write_aux=c['aux'])
        sol.write(f + 1, path='o2', file_format=['hdf5', 'ascii'], options=opts, write_aux=c['aux'])
        iokit.compare(mon, pyclaw.Solution(f + 1, path='o2', file_format='hdf5', file_prefix='claw'), sol, 0, 'hdf5-shared', aux='none', order=True)
        iokit.compare(mon, pyclaw.Solution(f + 1, path='o2'), sol, 6e-9, 'ascii-shared', aux='none')
    mon.count('checked')


def write_binary(c, sol):
    """the files AMRClaw and GeoClaw leave for a frame, written independently"""
    ng = c['nghost']; f = c['frame']
    os.mkdir('out')
    fn = lambda ch, k=None: os.path.join('out', 'fort.%s' % ch) + str(f if k is None else k).zfill(4)
    dt = np.float32 if c['fmt'] == 'binary32' else np.float64
    r = np.random.default_rng(c['seed'] + 1)
    head = ['%26.16e    time' % c['t'], '%6d    meqn' % c['meqn'], '%6d    ngrids' % len(sol.states), '%6d    naux' % c['maux'],
            '%6d    ndim' % c['nd'], '%6d    nghost' % ng] + (['%s    format' % c['fmt']] if c['header'] else [])
    open(fn('t'), 'w').write('\n'.join(head) + '\n')
    with open(fn('q'), 'w') as out:
        for s in sol.states:
            out.write('%6d                 grid_number\n%6d                 AMR_level\n' % (s.patch.patch_index, s.patch.level))
            for d in s.patch.dimensions:
                out.write('%6d                 m%s\n' % (d.num_cells, d.name))
            for d in s.patch.dimensions:
                out.write('%26.16e    %slow\n' % (d.lower, d.name))
            for d in s.patch.dimensions:
                out.write('%26.16e    d%s\n' % (d.delta, d.name))
            out.write('\n')
    def dump(path, attr):
        with open(path, 'wb') as out:
            for s in sol.states:
                v = getattr(s, attr)
                full = r.standard_normal((v.shape[0],) + tuple(k + 2 * ng for k in v.shape[1:]))
                full[(slice(None),) + tuple(slice(ng, ng + k) for k in v.shape[1:])] = v
                full.astype(dt).ravel(order='F').tofile(out)
    with np.errstate(all='ignore'):
        dump(fn('b'), 'q')
        if c['maux'] and c['aux']:
            dump(fn('a') if c['aux'] == 'frame' else fn('a', 0), 'aux')
    return fn, dt


def binary(c, mon):
    from clawpack import pyclaw
    sol = iokit.build(c)
    f = c['frame']
    fn, dt = write_binary(c, sol)
    # the header names the format, so it need not be given
    got = pyclaw.Solution(f, path='out', **({} if c['header'] and c['seed'] % 2 else {'file_format': c['fmt']}))
    with np.errstate(all='ignore'):
        for s in sol.states:
            s.q = np.asfortranarray(s.q.astype(dt).astype(float))
            if c['maux']:
                s.aux = np.asfortranarray(s.aux.astype(dt).astype(float))
    iokit.compare(mon, got, sol, 1e-13, 'binary', aux='same' if c['aux'] else 'none', order=True)
    iokit.reread(mon, c, f, sol, 1e-13, 'binary', aux='same' if c['aux'] else 'none', order=True, path='out', file_format=c['fmt'])
    # what was read is advanced in double precision, whatever the file holds
    with np.errstate(all='ignore'):
        for a, b in zip(got.states, sol.states):
            a.q *= 1. / 3.; b.q *= 1. / 3.
            if c['aux'] and c['maux']:
                a.aux *= 1. / 3.; b.aux *= 1. / 3.
    iokit.compare(mon, got, sol, 1e-13, 'binary-scaled', aux='same' if c['aux'] else 'none', order=True)
    if c['maux'] and not c['aux']:
        mon.check(all(np.isnan(s.aux).all() for s in got.states), 'binary-noaux', 'aux data that do not exist are not marked as missing')
    mon.count('checked')


def vtk(c, mon):
    import vtk as V
    from vtk.util import numpy_support
    sol = iokit.build(c)
    before = snapshot(sol)
    f = c['frame']
    os.mkdir('out')
    sol.write(f, path='out', file_format='vtk', options={'binary': True} if c['binary'] else {})
    unchanged(mon, sol, before, 'vtk-write-changes')
    # any number of formats in any order
    from clawpack import pyclaw
    forms = ['ascii', 'hdf5', 'vtk']; np.random.RandomState(c['seed'] % 99991).shuffle(forms)
    sol.write(f, path='o3', file_format=forms)
    unchanged(mon, sol, before, 'list-write-changes')
    iokit.compare(mon, pyclaw.Solution(f, path='o3', file_format='hdf5', file_prefix='claw'), sol, 0, 'hdf5-list', aux='none', order=True)
    iokit.compare(mon, pyclaw.Solution(f, path='o3'), sol, 6e-9, 'ascii-list', aux='none')
    mon.check(os.path.exists('o3/claw' + str(f).zfill(4) + '.vthb'), 'vtk-list', 'one of the formats asked for was not written', formats=forms)
    name = os.path.join('out', 'claw' + str(f).zfill(4))
    mon.check(os.path.exists(name + '.vthb'), 'vtk-file', 'no file for the frame', files=os.listdir('out'))
    files = sorted(os.listdir(name), key=lambda x: int(x.split('_')[-1].split('.')[0]))
    if not mon.check(len(files) == len(before), 'vtk-patches', 'one file per patch', got=len(files), want=len(before)):
        return
    order = sorted(range(len(before)), key=lambda i: sol.states[i].patch.level)
    for k, x in enumerate(files):
        rd = V.vtkXMLImageDataReader(); rd.SetFileName(os.path.join(name, x)); rd.Update()
        im = rd.GetOutput()
        i = order[k]
        q = before[i][0]; n = q.shape[1:]
        mon.check(tuple(im.GetDimensions())[:2] == (n[0] + 1, n[1] + 1), 'vtk-dims', 'dimensions of a patch', got=im.GetDimensions(), want=n)
        grid = sol.states[i].patch
        o = im.GetOrigin()
        mon.check(np.allclose(o[:2], grid.lower_global, rtol=1e-5, atol=1e-9), 'vtk-origin', 'origin of a patch', got=o, want=grid.lower_global)
        names = [im.GetCellData().GetArrayName(j) for j in range(im.GetCellData().GetNumberOfArrays())]
        for m in range(q.shape[0]):
            if not mon.check('q_%d' % m in names, 'vtk-array', 'component missing', names=names, want=m):
                continue
            a = numpy_support.vtk_to_numpy(im.GetCellData().GetArray('q_%d' % m)).reshape(n[::-1]).T
            mon.check(np.allclose(a, q[m], rtol=1e-5, atol=1e-30), 'vtk-data', 'data of a patch', patch=i)
        if mon.check('vtkGhostType' in names, 'vtk-cover', 'no mark of covered cells', names=names):
            a = numpy_support.vtk_to_numpy(im.GetCellData().GetArray('vtkGhostType')).reshape(n[::-1]).T
            me = c['patches'][i]
            cov = np.zeros(n, dtype=bool)
            X, Y = np.meshgrid(*[me['lower'][k] + (np.arange(n[k]) + .5) * me['len'][k] / n[k] for k in range(2)], indexing='ij')
            for o in c['patches']:
                if o['level'] == me['level'] + 1:
                    cov |= (X > o['lower'][0]) & (X < o['lower'][0] + o['len'][0]) & (Y > o['lower'][1]) & (Y < o['lower'][1] + o['len'][1])
            mon.check(np.array_equal(a == 8, cov), 'vtk-cover', 'cells covered by a finer patch', patch=i, got=int((a == 8).sum()), want=int(cov.sum()))
            mon.count('covered', int(cov.sum()))
        mon.check('q_%d' % q.shape[0] not in names, 'vtk-extra', 'an array that is not a component of the solution', names=names)
    mon.count('checked')


def vtk_controller(c, mon):
    from clawpack import pyclaw
    from clawpack.riemann import advection_2D
    c = dict(c, meqn=1, maux=0)
    sol = iokit.build(c)
    sol.state.problem_data.update(u=1., v=.5)
    if c['mapped']:
        sol.state.grid.mapc2p = pyclaw.geometry.identity_map['2']
    s = pyclaw.ClawSolver2D(advection_2D)
    s.all_bcs = 2
    claw = pyclaw.Controller(); claw.solver = s; claw.solution = sol; claw.outdir = 'vout'; claw.output_format = 'vtk'; claw.verbosity = 0
    claw.tfinal = sol.t + .01; claw.num_output_times = 2; claw.keep_copy = True
    claw.run()
    mon.check(sol.state.q.shape[0] == 1, 'vtk-write-changes', 'writing changed the solution')
    mon.check([os.path.exists('vout/claw%04d.vthb' % i) for i in range(3)] == [True] * 3, 'vtk-file', 'no file for the frame')
    s2 = pyclaw.ClawSolver2D(advection_2D); s2.all_bcs = 2
    ref = iokit.build(c); ref.state.problem_data.update(u=1., v=.5)
    if c['mapped']:
        ref.state.grid.mapc2p = pyclaw.geometry.identity_map['2']
    s2.dt = s2.dt_initial
    for t in np.linspace(ref.t, ref.t + .01, 3)[1:]:
        s2.evolve_to_time(ref, t)
    mon.close(sol.state.q, ref.state.q, 1e-10, 'vtk-run', 'a run with vtk output')
    mon.count('checked')


def netcdf(c, mon):
    sol = iokit.build(c)
    mon.count('checked')
    try:
        sol.write(c['frame'], path='out', file_format='netcdf')
    except NameError as e:
        mon.fail('netcdf-write', 'NetCDF output cannot be written', error=repr(e))
