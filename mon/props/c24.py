import contextlib, io, os, warnings
import numpy as np
ID = 'C24'; LEVEL = 'exploration'
TIMEOUT = 90
RULE = ('one case = one or several random gauge records (1 to 3 dimensions, any number of values and samples, hostile magnitudes) written by GaugeSolution.write, by an independent writer of the '
        'file format (ascii with and without type and format lines, binary32, binary64) or as an old fort.gauge file that is converted; every reader must return each record as it was')
ASSUMPTIONS = ['times and values to the digits of the format used to write them']


def cases(rng, tier):
    k = {'quick': 40, 'thorough': 1500}[tier]
    out = []
    for kind in ('roundtrip', 'rewrite', 'ascii', 'ascii-old', 'binary', 'binary32', 'convert', 'reuse', 'compare'):
        for _ in range(k):
            out.append(dict(kind=kind, seed=rng.randrange(10 ** 9), nd=rng.choice([1, 2, 3]), gtype=rng.choice(['stationary', 'lagrangian']),
                            n=rng.choice([1, 1, 2, 3, 17, 60]), meqn=rng.choice([1, 2, 3, 4, 7])))
    return out


def record(c, r, gid=None, n=None):
    n = c['n'] if n is None else n
    meqn = c['meqn']
    if c['gtype'] == 'lagrangian':
        meqn = max(meqn, 3)
    g = dict(id=int(r.choice([0, 1, 3, 42, 9999, 12345, 100001])) if gid is None else gid)
    g['location'] = tuple(float(x) for x in r.choice([0., -1.5, 1e-12, 3.25e7, 1 / 3., -.1], c['nd']))
    g['level'] = r.randint(0, 12, n) * r.choice([1, 1, 1, 50, 12345])
    g['t'] = np.cumsum(r.uniform(0, 1, n)) * 10. ** r.randint(-3, 6) + r.choice([0., -100., 1e5])
    q = r.standard_normal((meqn, n)) * 10. ** r.randint(-12, 12, (meqn, n))
    q[r.uniform(size=q.shape) < .15] = 0.
    g['q'] = q
    g['gtype'] = c['gtype'] if c['nd'] == 2 else 'stationary'
    return g


def solution(g):
    from clawpack.pyclaw.gauges import GaugeSolution
    s = GaugeSolution()
    for k, v in g.items():
        setattr(s, k, v)
    return s


def same(mon, g, s, tol=2e-15, ttol=2e-15, what=''):
    mon.count('records')
    mon.count('samples', len(g['t']))
    mon.check(s.id == g['id'], 'id', 'the gauge has another id ' + what, expected=g['id'], got=s.id)
    loc = s.location
    mon.check(loc is not None and len(loc) == len(g['location']) and all((a == b or (np.isnan(a) and np.isnan(b))) for a, b in zip(loc, g['location'])), 'location', 'the gauge has another location ' + what,
              expected=g['location'], got=loc)
    mon.check(s.level is not None and np.array_equal(s.level, g['level']), 'level', 'the levels differ ' + what, expected=g['level'], got=s.level)
    ok = np.shape(s.t) == np.shape(g['t'])
    mon.check(ok, 'length', 'another number of samples ' + what, expected=np.shape(g['t']), got=np.shape(s.t))
    mon.check(np.shape(s.q) == g['q'].shape, 'shape', 'the data have another shape ' + what, expected=g['q'].shape, got=np.shape(s.q))
    if not ok or np.shape(s.q) != g['q'].shape:
        return
    mon.check(np.all(np.abs(s.t - g['t']) <= ttol * np.abs(g['t'])), 'time', 'the times differ ' + what, expected=g['t'], got=s.t)
    mon.check(np.all(np.abs(s.q - g['q']) <= tol * np.abs(g['q'])), 'data', 'the data differ ' + what, expected=g['q'], got=s.q)
    mon.check(s.gtype == g['gtype'], 'type', 'a %s gauge became %s %s' % (g['gtype'], s.gtype, what))
    if len(g['location']) == 2:
        p = np.asarray(s.particle_path) if s.particle_path is not None else np.zeros((0, 3))
        ref = np.column_stack((g['t'], g['q'][1], g['q'][2])) if g['gtype'] == 'lagrangian' else np.array([[g['t'][0]] + list(g['location'])])
        mon.check(p.shape == ref.shape and np.all((np.abs(p - ref) <= max(tol, ttol) * np.abs(ref)) | (np.isnan(p) & np.isnan(ref))), 'path', 'the path of the gauge differs ' + what,
                  expected=ref, got=p)


def head(g):
    return '# gauge_id= %5i location=( %s ) num_eqn= %2i\n' % (g['id'], ' '.join('%17.10E' % x if float('%17.10E' % x) == x else repr(x) for x in g['location']), len(g['q']))


def tname(g):
    return '# Lagrangian particle, q[2,3] replaced by x(t),y(t)\n' if g['gtype'] == 'lagrangian' else '# Stationary gauge\n'


def cols(g):
    return '#level, time, q[1:%s]\n' % len(g['q'])


def rows(g):
    return ''.join(' %3i %s %s\n' % (l, '%.17e' % t, ' '.join('%.17e' % v for v in q)) for l, t, q in zip(g['level'], g['t'], g['q'].T))


def name(g, ext='txt'):
    return 'gauge%05d.%s' % (g['id'], ext)


def read(gid, path):
    from clawpack.pyclaw.gauges import GaugeSolution
    with contextlib.redirect_stdout(io.StringIO()):
        return GaugeSolution(gid, path)


def run(c, mon):
    mon.need('records')
    r = np.random.RandomState(c['seed'])
    os.makedirs('g')
    k = c['kind']
    if k == 'roundtrip':
        gs = [record(c, r, gid=i) for i in r.permutation([0, 7, 31, 1000, 99999])[:3]]
        for g in gs:
            s = solution(g); q = g['q'].copy()
            s.write('g')
            mon.check(np.array_equal(s.q, q), 'unchanged', 'writing changed the data')
        mon.check(sorted(os.listdir('g')) == sorted(name(g) for g in gs), 'files', 'other files than one per gauge', files=os.listdir('g'))
        for g in gs:
            same(mon, g, read(g['id'], 'g'))
    elif k == 'rewrite':
        # what was read can be written and read again; a second write replaces the first
        g0 = record(c, r); g = record(c, r, gid=g0['id'])
        solution(g0).write('g'); solution(g).write('g')
        s = read(g['id'], 'g'); os.makedirs('h'); s.write('h')
        s2 = read(g['id'], 'h')
        same(mon, g, s2)
        mon.check(open('g/' + name(g)).read() == open('h/' + name(g)).read(), 'again', 'writing what was read gives another file')
        cwd = os.getcwd(); os.chdir('h')
        try:
            os.remove(name(g)); s.write(); same(mon, g, read(g['id'], None), what='(default path)')
        finally:
            os.chdir(cwd)
        s.write('h', format='%.5e')
        same(mon, g, read(g['id'], 'h'), tol=6e-6, what='(short format)')
    elif k in ('ascii', 'ascii-old'):
        g = record(c, r)
        if k == 'ascii-old':
            g['gtype'] = 'stationary'
        txt = head(g) + (tname(g) if k == 'ascii' else '') + cols(g)
        if k == 'ascii' and c['seed'] % 2:
            txt += '# file format ascii, time series follow in this file\n'
        open('g/' + name(g), 'w').write(txt + rows(g))
        same(mon, g, read(g['id'], 'g'), 0., 0.)
    elif k in ('binary', 'binary32'):
        g = record(c, r)
        typed = g['gtype'] == 'lagrangian' or c['seed'] % 3
        txt = head(g) + (tname(g) if typed else '') + cols(g)
        if k == 'binary32':
            txt += '# file format binary32, time series in .bin file\n'
        elif typed and c['seed'] % 2:
            txt += '# file format binary%s, time series in .bin file\n' % ['64', ''][c['seed'] // 2 % 2]
        open('g/' + name(g), 'w').write(txt)
        d = np.vstack((g['level'], g['t'], g['q'])).astype(np.float32 if k == 'binary32' else np.float64)
        d.ravel(order='F').tofile('g/' + name(g, 'bin'))
        e = 0. if k == 'binary' else 1e-7
        same(mon, g, read(g['id'], 'g'), e, e)
    elif k == 'convert':
        from clawpack.pyclaw import gauges
        c = dict(c, nd=2, gtype='stationary')
        gs = [record(c, r, gid=int(i), n=int(r.randint(1, 9))) for j, i in enumerate(r.permutation([1, 2, 17, 300, 20000])[:r.randint(1, 5)])]
        if c['seed'] % 6 == 0:
            gs = [record(c, r, gid=17, n=1)]
        for g in gs:
            g['location'] = (np.nan, np.nan)
        lines = [(t, i, j) for i, g in enumerate(gs) for j, t in enumerate(g['t'])]
        order = [i for i, g in enumerate(gs) for _ in g['t']]; r.shuffle(order)
        pos = [0] * len(gs)
        with open('fort.gauge', 'w') as f:
            for i in order:
                g = gs[i]; j = pos[i]; pos[i] += 1
                f.write('%5i %3i %.17e %s\n' % (g['id'], g['level'][j], g['t'][j], ' '.join('%.17e' % v for v in g['q'][:, j])))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            gauges.convert_gauges('fort.gauge', 'g')
        mon.check(sorted(os.listdir('g')) == sorted(name(g) for g in gs), 'files', 'other files than one per gauge', files=os.listdir('g'), ids=[g['id'] for g in gs])
        for g in gs:
            same(mon, g, read(g['id'], 'g'))
            big = np.abs(g['q']).max()
            mon.check(gauges.compare_old_gauges('fort.gauge', 'g', g['id'], abs_tol=1e-15 * big), 'compare', 'the converted gauge is said to differ from the old one', id=g['id'])
            if big <= 1.:
                mon.check('id = %s\n' % g['id'] not in out.getvalue(), 'warning', 'conversion warned about a correct gauge')
        # a difference is noticed
        g = gs[0]; s = read(g['id'], 'g'); q = s.q.copy(); i = np.unravel_index(r.randint(q.size), q.shape)
        q[i] += .01 * (1 + np.abs(q[i])); s.q = q; s.write('g')
        mon.check(not gauges.compare_old_gauges('fort.gauge', 'g', g['id']), 'difference', 'a changed gauge is said to agree with the old one')
    elif k == 'reuse':
        # one object reads several files
        from clawpack.pyclaw.gauges import GaugeSolution
        s = GaugeSolution()
        for j in range(3):
            c2 = dict(c, nd=int(r.randint(1, 4)), gtype=['stationary', 'lagrangian'][r.randint(2)], n=int(r.choice([1, 2, 9])), meqn=int(r.randint(1, 5)))
            g = record(c2, r, gid=j)
            open('g/' + name(g), 'w').write(head(g) + (tname(g) if g['gtype'] == 'lagrangian' or r.randint(2) else '') + cols(g) + rows(g))
            s.read(j, 'g')
            same(mon, g, s, 0., 0.)
    elif k == 'compare':
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from clawpack.pyclaw.gauges import compare_gauges
        g = record(c, r); h = record(c, r, gid=g['id']); h['t'] = g['t']
        os.makedirs('h')
        solution(g).write('g'); solution(h).write('h')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fig = compare_gauges(['g', 'h'], g['id'])
        n = len(g['q'])
        mon.count('records', 2)
        ok = len(fig.axes) == 2 * n
        mon.check(ok, 'axes', 'not two plots per field', axes=len(fig.axes), fields=n)
        if ok:
            for i in range(n):
                l = fig.axes[2 * i].lines
                mon.check(np.allclose(l[0].get_ydata(), g['q'][i], rtol=2e-15, atol=0) and np.allclose(l[1].get_ydata(), h['q'][i], rtol=2e-15, atol=0), 'curves', 'a plot shows other data', field=i)
                d = fig.axes[2 * i + 1].lines[0].get_ydata()
                mon.check(np.allclose(d, np.abs(g['q'][i] - h['q'][i]), rtol=1e-14, atol=4e-15 * (np.abs(g['q'][i]) + np.abs(h['q'][i])).max()), 'difference', 'a plot shows another difference', field=i)
        plt.close(fig)
