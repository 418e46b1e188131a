import os, re
import numpy as np
from .. import ctrl
ID = 'C15'; LEVEL = 'exploration'
RULE = ('one case = one to two controller runs with several gauges (interior points, cell centres, cell edges, the corners of the domain, points outside); '
        'the rows in memory and on disk are compared with the states recorded by a hook before every step; non-trivial when rows after the initial one were compared')
ASSUMPTIONS = ['a gauge within rounding of a cell edge that is no exact number may report either neighbour', 'gauges outside of the half-open domain are ignored']


def cases(rng, tier):
    n = {'quick': 500, 'thorough': 6000}[tier]
    out = []
    for k in range(n):
        nd = [1, 2, 2, 3][k % 4]
        c = ctrl.problem(rng, nd)
        c['lower'] = [rng.choice([0., -1., .1, 3.7]) for _ in range(nd)]
        c['len'] = [rng.choice([1., .7, 2.3, 1.1]) for _ in range(nd)]
        c['n'] = [rng.choice([3, 5, 7, 10]) for _ in range(nd)] if nd < 3 else [rng.choice([3, 4, 5]) for _ in range(nd)]
        if c['variant'].startswith('sharp'):
            c['n'] = [max(4, x) for x in c['n']]
        c['dyadic'] = rng.random() < .3
        if c['dyadic']:
            # cell edges are exact numbers, a gauge on one belongs to the cell above it
            c['lower'] = [rng.choice([0., -1., 2.]) for _ in range(nd)]
            c['len'] = [rng.choice([1., 2., .5]) for _ in range(nd)]
            c['n'] = [rng.choice([4, 8]) for _ in range(nd)]
        c['gauges'] = [[rng.choice(['rand', 'rand', 'center', 'edge', 'low', 'high', 'rand']) for _ in range(nd)] + [rng.random() < .1, rng.randrange(1 << 30)]
                       for _ in range(rng.choice([1, 2, 4]))]
        c['more'] = [[rng.choice(['rand', 'rand', 'center', 'edge', 'low', 'high']) for _ in range(nd)] + [rng.random() < .2, rng.randrange(1 << 30)] for _ in range(rng.choice([0, 0, 1, 2]))]
        c['runs'] = rng.choice([1, 1, 2]); c['keep'] = rng.random() < .7; c['nout'] = rng.choice([1, 2])
        c['style'] = rng.choice([1, 3]) if c['runs'] == 1 else 1
        c['fun'] = rng.choice([None, 'vec', 'scalar'])
        c['moveaux'] = rng.random() < .5
        c['copied'] = rng.choice([None, None, None, 'domain', 'state', 'patch'])
        c['kind'] = 'gauges%dd%s' % (nd, '-again' if c['runs'] > 1 else '')
        out.append(c)
    return out


def place(c, grid):
    pts = []
    for g in c['gauges']:
        import random
        r = random.Random(g[-1])
        x = []
        for d, how in enumerate(g[:-2]):
            dim = grid.dimensions[d]
            i = r.randrange(dim.num_cells)
            x.append({'rand': dim.lower + r.random() * (dim.upper - dim.lower) * (1 - 1e-9), 'center': dim.lower + (i + .5) * dim.delta,
                      'edge': dim.lower + i * dim.delta, 'low': dim.lower, 'high': float(np.nextafter(dim.upper, -np.inf))}[how])
        if g[-2]:
            d = r.randrange(len(x)); dim = grid.dimensions[d]
            x[d] = r.choice([dim.upper, dim.upper + .3, dim.lower - 1e-9 - .1])
        pts.append(tuple(x))
    return pts


def run(c, mon):
    from clawpack import pyclaw
    nd = len(c['n'])
    s, sol, unit = build(c)
    grid = sol.domain.grid
    if c['copied']:
        import copy
        sol = copy.deepcopy(sol)
        grid = {'domain': sol.domain, 'state': sol.state, 'patch': sol.patch}[c['copied']].grid
        mon.count('copied')
    pts = place(c, grid)
    grid.add_gauges(pts)
    inside = [p for p in pts if all(grid.lower[d] <= p[d] < grid.upper[d] for d in range(nd))]
    if not inside:
        x = tuple(a + .5 * b for a, b in zip(grid.lower, grid.delta))
        grid.add_gauges([x]); inside = [x]
    if c['keep'] or any(inside.count(p) == 1 for p in inside):
        mon.need('rows', 'after_step')
    def cells_of(p):
        opts = []
        for d in range(nd):
            dim = grid.dimensions[d]
            tol = 1e-12 * max(abs(dim.lower), abs(dim.upper))
            if c['dyadic']:
                opts.append([i for i in range(dim.num_cells) if dim.lower + i * dim.delta <= p[d] < dim.lower + (i + 1) * dim.delta]); continue
            opts.append([i for i in range(dim.num_cells) if dim.lower + i * dim.delta - tol <= p[d] <= dim.lower + (i + 1) * dim.delta + tol])
        import itertools
        return list(itertools.product(*opts))
    cells = [cells_of(p) for p in inside]
    since = [0] * len(inside)           # number of rows of all runs before the gauge was added
    fun = {None: None, 'vec': lambda q, aux: [q[0] * 2., 1. if aux is None else aux[-1] + q[-1]], 'scalar': lambda q, aux: q[0] - 3. * q[-1]}[c['fun']]
    if fun:
        s.compute_gauge_values = fun
    f = fun or (lambda q, aux: q)
    st = sol.state
    st.keep_gauges = c['keep']
    hist = []

    def before(solver, state):
        if c['moveaux'] and state.aux is not None and 'synth' in c['system'] and not c['capa']:
            state.aux[0] *= 1.01
            mon.count('aux_moved')
        e = (float(state.t), np.array(state.q), None if state.aux is None else np.array(state.aux))
        if hist and hist[-1][0] == e[0]:
            return                      # another attempt of the same step
        if hist and c['moveaux']:
            e = e[:2] + (prev[0],)      # the row was written before the aux array moved on
        hist.append(e)
        saved()

    prev = [None]

    def hook(solver, state):
        prev[0] = None if state.aux is None else np.array(state.aux)
        before(solver, state)
    s.before_step = hook
    claw = pyclaw.Controller(); claw.solution = sol; claw.solver = s; claw.verbosity = 0; claw.output_format = None
    claw.keep_copy = c['seed'] // 2 % 3 == 0; claw.output_format = 'ascii' if c['seed'] // 6 % 4 == 0 else None
    mon.count('frames kept as well', int(claw.keep_copy))
    claw.num_output_times = c['nout']; claw.output_style = c['style']; claw.nstepout = 2
    total = []

    def saved():
        """once a frame is out, the rows up to its time are in the files, whatever happens to the run later"""
        n = len(hist) - 1
        if c['style'] == 1:
            at = np.linspace(hist[0][0], claw.tfinal, claw.num_output_times + 1)[1:]
            out = n > 0 and any(0 <= hist[-1][0] - a <= 1e-13 * max(1e-300, np.abs(at).max()) for a in at)
        else:
            out = n > 0 and c['style'] == 3 and n % 2 == 0
        if not out:
            return
        d = os.path.join(claw.outdir, '_gauges')
        for x in sorted(os.listdir(d)):
            p = tuple(float(v) for v in re.findall(r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?', x[:-4]))
            if inside.count(p) == 1:
                rows = len([line for line in open(os.path.join(d, x)) if line.endswith('\n')])
                mon.count('rows_during_run')
                mon.check(rows == len(hist), 'saved', 'a gauge file lacks rows up to the frame just written', gauge=p, got=rows, want=len(hist))

    for k in range(c['runs']):
        claw.outdir = os.path.abspath('g%d' % (k if c['seed'] % 2 else 0))     # a second run may replace the files of the first
        claw.tfinal = sol.t + 2.5 * unit
        if k and c['more']:
            new = place(dict(c, gauges=c['more']), grid)
            new = [p for p in new if p not in inside]
            grid.add_gauges(new)
            new = [p for p in new if all(grid.lower[d] <= p[d] < grid.upper[d] for d in range(nd))]
            inside += new; cells += [cells_of(p) for p in new]; since += [len(total)] * len(new)
            mon.count('gauges added later', len(new))
        hist[:] = []
        hist.append((float(sol.t), np.array(sol.state.q), None if sol.state.aux is None else np.array(sol.state.aux)))
        claw.run()
        hist.append((float(sol.t), np.array(sol.state.q), None if sol.state.aux is None else np.array(sol.state.aux)))
        total += hist
        d = os.path.join(claw.outdir, '_gauges')
        files = sorted(os.listdir(d)) if os.path.isdir(d) else []
        mon.check(len(files) == len(set(inside)), 'files', 'one file per gauge in the domain', files=files, gauges=inside)
        for i, p in enumerate(inside):
            name = [x for x in files if tuple(float(v) for v in re.findall(r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?', x[:-4])) == p]
            if not name:
                mon.fail('file-name', 'no file named after the gauge', gauge=p, files=files); continue
            if inside.count(p) > 1:
                continue
            rows = np.array([[float(x) for x in line.split()] for line in open(os.path.join(d, name[0]))])
            compare(mon, c, rows, hist, cells[i], f, 'file', p)
    if c['keep']:
        gd = sol.state.gauge_data
        mon.check(len(gd) == len(inside), 'memory-count', 'gauges kept in memory', got=len(gd), want=len(inside))
        for i, p in enumerate(inside[:len(gd)]):
            compare(mon, c, np.atleast_2d(np.asarray(gd[i], dtype=float)), total[since[i]:], cells[i], f, 'memory', p)
    else:
        mon.check(len(sol.state.gauge_data) == 0, 'memory-unasked', 'gauge data were kept although not asked for')


def compare(mon, c, rows, hist, cells, f, where, p):
    if not mon.check(len(rows) == len(hist), where + '-rows', 'a row for the initial state and one for every step', got=len(rows), want=len(hist), gauge=p):
        return
    mon.count('rows', len(rows)); mon.count('after_step', max(0, len(rows) - 1))
    mon.check(np.array_equal(rows[:, 0], [h[0] for h in hist], equal_nan=True), where + '-times', 'times in the gauge rows', got=rows[:4, 0], want=[h[0] for h in hist[:4]], gauge=p)
    best = None
    for cell in cells:
        ix = (slice(None),) + cell
        want = np.array([np.atleast_1d(np.asarray(f(h[1][ix], None if h[2] is None else h[2][ix]), dtype=float)) for h in hist])
        ok = want.shape == rows[:, 1:].shape and np.array_equal(want, rows[:, 1:], equal_nan=True)
        if ok:
            return mon.check(True, where, '')
        best = want if best is None else best
    mon.fail(where + '-values', 'gauge rows are not the values of the cell around the gauge', gauge=p, cells=cells[:4], got=rows[0], want=best[0])


def build(c):
    from .. import systems
    cc = dict(c)
    s, sol = systems.make(cc)
    nd = len(c['n'])
    for d in range(nd):
        dim = sol.domain.grid.dimensions[d]
        lo, up = c['lower'][d], c['lower'][d] + c['len'][d]
        dim.upper = max(up, dim.upper, lo + 5); dim.lower = lo; dim.upper = up
    sol.t = c['t0']
    unit = min(sol.domain.grid.delta) / 2.
    s.dt_initial = c['dt0'] * unit
    return s, sol, unit
