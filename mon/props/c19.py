import copy, os, pickle, random
import numpy as np
from .. import ctrl, iokit, systems, physics
ID = 'C19'; LEVEL = 'exploration'
RULE = ('kind interleave: several problems advanced in a random interleaving, each compared bitwise with the same problem advanced alone in a process of its '
        'own; kind shared: one solver alternates between solutions; kind graph: every part of copies of multi-patch solutions compared and changed; kind copies: deep copies of a solution before, between and after steps; kind repeat: the same '
        'run after filling freed memory with other values; kind output: a run with and without output, gauges and kept frames')
ASSUMPTIONS = ['problems advanced by one solver share grid size, equations and fixed step size']


def cases(rng, tier):
    n = {'quick': 24, 'thorough': 400}[tier]
    out = []
    for _ in range(2 * n):
        probs = [ctrl.problem(rng) for _ in range(rng.choice([2, 2, 3]))]
        if rng.random() < .6:                     # the same Riemann module with other parameters, options and grids
            nm = probs[0]['system']; nd = len(probs[0]['n'])
            probs = [probs[0]] + [dict(ctrl.problem(rng, nd), system=nm) for _ in probs[1:]]
            for p in probs[1:]:
                p['maux'] = probs[0]['maux']; p['capa'] = probs[0]['capa']
        for p in probs:
            p['param'] = rng.uniform(.5, 2.)
            p['still'] = rng.choice(['', '', '', 'u', 'v'])
        out.append(dict(kind='interleave', probs=probs, seed=rng.randrange(1 << 30), steps=rng.choice([4, 8])))
    for _ in range(4 * n):
        g = iokit.case(rng); g['values'] = 'normal'; g['kind'] = 'graph'
        out.append(g)
    for _ in range(n):
        p = ctrl.problem(rng)
        out.append(dict(p, kind='shared', nsol=rng.choice([2, 3]), steps=rng.choice([2, 5]), gap=rng.random() < .3))
        out.append(dict(ctrl.problem(rng), kind='copies', steps=rng.choice([1, 3])))
        out.append(dict(ctrl.problem(rng), kind='repeat', steps=rng.choice([2, 4])))
        out.append(dict(ctrl.problem(rng), kind='output', fmt=rng.choice(['ascii', 'hdf5', 'ascii+hdf5']), auxw=rng.random() < .5, gauges=rng.random() < .5,
                        nout=rng.choice([1, 3])))
    return out


def make(c, seed=None):
    s, sol, unit = ctrl.build(c if seed is None else dict(c, seed=seed))
    if 'param' in c and not c['system'].startswith('synth'):
        pd = sol.state.problem_data
        for k in ('u', 'v', 'cc', 'zz', 'gamma'):
            if k in pd:
                pd[k] = 1.4 + .2 * c['param'] if k == 'gamma' else pd[k] * c['param']
        if c.get('still') in pd:
            pd[c['still']] = 0.               # a parameter that is zero is as good as any other
        if 'gamma' in pd:
            pd['gamma1'] = pd['gamma'] - 1.
    s.max_steps = 100000
    return s, sol, unit


def in_child(fn):
    """run fn in a process of its own and return its result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = fn()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            os._exit(0)
        finally:
            os._exit(1)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def plan(c):
    """what each problem does, in order: ('step',) or ('to', fraction)"""
    r = random.Random(c['seed'])
    return [[r.choice([('step',), ('step',), ('to', r.choice([.4, 1.3]))]) for _ in range(c['steps'])] for _ in c['probs']], r


def act(s, sol, unit, a):
    if a[0] == 'step':
        s.evolve_to_time(sol)
    else:
        s.evolve_to_time(sol, sol.t + a[1] * unit)


def run(c, mon):
    globals()[c['kind']](c, mon)


def interleave(c, mon):
    mon.need('switches', 'compared')
    plans, r = plan(c)

    def alone(i):
        def f():
            s, sol, unit = make(c['probs'][i])
            s.dt = s.dt_initial
            out = []
            for a in plans[i]:
                act(s, sol, unit, a)
                out.append((sol.t, np.array(sol.state.q), s.dt))
            return out
        return f
    want = [in_child(alone(i)) for i in range(len(c['probs']))]
    if any(w is None for w in want):
        return mon.fail('alone', 'a problem cannot be advanced alone')
    obj = []
    live = []
    todo = [list(p) for p in plans]
    done = [0] * len(plans)
    order = []
    obj = [None] * len(plans)
    last = None
    while any(todo):
        i = r.choice([k for k in range(len(plans)) if todo[k]])
        if obj[i] is None:
            s, sol, unit = make(c['probs'][i]); s.dt = s.dt_initial
            obj[i] = (s, sol, unit)
        mon.count('switches', i != last); last = i
        act(*obj[i], todo[i].pop(0))
        s, sol, unit = obj[i]
        t, q, dt = want[i][done[i]]
        done[i] += 1
        mon.count('compared')
        if not mon.check(sol.t == t and np.array_equal(np.array(sol.state.q), q, equal_nan=True), 'interleave', 'a problem advanced among others differs from the same problem alone',
                         problem=i, call=done[i], t=(sol.t, t), diff=float(np.abs(sol.state.q - q).max())):
            return


def shared(c, mon):
    """one solver, several solutions, fixed steps"""
    mon.need('compared')
    def fresh(k):
        s, sol, unit = make(c, c['seed'] if k == 0 else c['seed'] + k)
        return s, sol, unit
    def prep(s, unit):
        s.dt_variable = False; s.dt = .02 * unit
    # the problem itself (Riemann solver, parameters) is that of seed 0; only the data differ
    s0, sol0, unit = fresh(0)
    sols = [sol0]
    for k in range(1, c['nsol']):
        t = copy.deepcopy(sol0)
        t.state.q[...] = t.state.q[..., ::-1] * (1 + .1 * k) if not c['system'].startswith('euler') else np.roll(t.state.q, k, axis=-1)
        if t.state.aux is not None:
            t.state.aux[...] *= 1 + .03 * k * np.cos(np.arange(t.state.aux.size)).reshape(t.state.aux.shape)
        sols.append(t)
    twins = [copy.deepcopy(s) for s in sols]
    prep(s0, unit)
    for n in range(c['steps']):
        for k, sol in enumerate(sols):
            s0.evolve_to_time(sol)
            if c['gap']:
                np.full(2000, np.nan)
    for k, sol in enumerate(twins):
        s, _, _ = fresh(0); prep(s, unit)
        for n in range(c['steps']):
            s.evolve_to_time(sol)
        mon.count('compared')
        mon.check(sol.is_valid() and sols[k].is_valid(), 'valid', 'a solution is no longer valid after being advanced')
        mon.check(np.array_equal(sol.state.q, sols[k].state.q, equal_nan=True) and sol.t == sols[k].t, 'shared', 'a solution advanced by a shared solver differs from one with a solver of its own',
                  which=k, diff=float(np.abs(sol.state.q - sols[k].state.q).max()))
        if sol.state.aux is not None:
            mon.check(np.array_equal(sol.state.aux, sols[k].state.aux, equal_nan=True), 'shared-aux', 'aux of a solution advanced by a shared solver', which=k)


def copies(c, mon):
    mon.need('compared')
    s, sol, unit = make(c); s.dt = s.dt_initial
    c0 = copy.deepcopy(sol)
    q0, t0 = np.array(sol.state.q), sol.t
    aux0 = None if sol.state.aux is None else np.array(sol.state.aux)
    for _ in range(c['steps']):
        s.evolve_to_time(sol)
    mon.check(np.array_equal(c0.state.q, q0, equal_nan=True) and c0.t == t0 and (aux0 is None or np.array_equal(c0.state.aux, aux0, equal_nan=True)), 'copy-follows', 'a copy changed when the original was advanced')
    mon.check(c0.state.index_capa == sol.state.index_capa and c0.state.problem_data == sol.state.problem_data and c0.state.num_eqn == sol.state.num_eqn, 'copy-attributes', 'a copy lost attributes')
    mon.check(c0.state.problem_data is not sol.state.problem_data, 'copy-params', 'a copy shares its parameters with the original')
    s2, _, _ = make(c); s2.dt = s2.dt_initial
    for _ in range(c['steps']):
        s2.evolve_to_time(c0)
    mon.count('compared')
    mon.check(np.array_equal(c0.state.q, sol.state.q, equal_nan=True) and c0.t == sol.t, 'copy-differs', 'advancing a copy gives another result than advancing the original',
              diff=float(np.abs(c0.state.q - sol.state.q).max()))
    # a copy taken between steps, then the original is overwritten
    c1 = copy.deepcopy(sol); q1 = np.array(sol.state.q)
    sol.state.q[...] = -5.
    if sol.state.aux is not None:
        a1 = np.array(sol.state.aux); sol.state.aux[...] = -3.
        mon.check(np.array_equal(c1.state.aux, a1, equal_nan=True), 'copy-alias-aux', 'a copy shares aux data')
    mon.check(np.array_equal(c1.state.q, q1, equal_nan=True), 'copy-alias', 'a copy shares data with the original')




def view(sol):
    """everything a user can ask of a solution, as plain values"""
    out = []
    for st in sol.states:
        g = st.grid
        out.append(dict(t=st.t, q=np.array(st.q), aux=None if st.aux is None else np.array(st.aux), params=copy.deepcopy(st.problem_data), capa=st.index_capa,
                        level=st.patch.level, index=st.patch.patch_index, lower=list(g.lower), upper=list(g.upper), n=list(g.num_cells), map=g.mapc2p,
                        names=[d.name for d in g.dimensions], units=[d.units for d in g.dimensions], centers=[np.array(x) for x in g.p_centers]))
    for p in sol.domain.patches:
        out.append(dict(lower=list(p.grid.lower), upper=list(p.grid.upper), n=list(p.grid.num_cells), level=p.level, index=p.patch_index, map=p.grid.mapc2p))
    return out


def alike(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a is not None and b is not None and np.array_equal(a, b, equal_nan=True)
    return a == b


def scribble(r, sol):
    """change something of every part of a solution"""
    for st in sol.states:
        st.q[...] = r.random(); st.t += 1.
        if st.aux is not None:
            st.aux[...] = -r.random()
        for v in st.problem_data.values():
            if isinstance(v, np.ndarray):
                v[...] = -9.
            elif isinstance(v, list):
                v.append(7)
            elif isinstance(v, dict):
                v['new'] = 1; v['a'][...] = 5.
        st.problem_data['gamma'] = -1.
        st.patch.level += 1; st.patch.patch_index += 50
        d = r.choice(st.grid.dimensions)
        d.upper = d.upper + 1.; d.name = 'w'; d.units = 'miles'
        st.index_capa = 0
    for p in sol.domain.patches:
        p.grid.dimensions[0].lower = p.grid.dimensions[0].lower - 2.


def graph(c, mon):
    mon.need('compared')
    r = random.Random(c['seed'])
    sol = iokit.build(c)
    for st in sol.states:
        st.problem_data['table'] = np.arange(3.) + r.random()
        st.problem_data['nested'] = {'a': np.ones(2) * r.random()}
        for d in st.grid.dimensions:
            d.units = 'cm'
        if st.aux is not None:
            st.index_capa = 0
    if r.random() < .5:
        [st.grid.p_centers for st in sol.states]
    before = view(sol)
    k = copy.deepcopy(sol)
    mon.count('compared')
    a, b = view(k), before
    mon.check(alike(a, b), 'graph-equal', 'a copy does not have what the original has',
              where=[(i, x) for i in range(len(b)) for x in b[i] if i < len(a) and not alike(a[i].get(x), b[i][x])][:5])
    one, other = (sol, k) if r.random() < .5 else (k, sol)
    keep = view(other)
    scribble(r, one)
    mon.count('compared')
    a = view(other)
    mon.check(alike(a, keep), 'graph-shared', 'changing one of original and copy changed the other',
              where=[(i, x) for i in range(len(keep)) for x in keep[i] if not alike(a[i].get(x), keep[i][x])][:5])


def pollute(r):
    """leave other values in the memory that later allocations get"""
    keep = []
    for v in (np.nan, 1e300, -7., r.random()):
        for k in (8, 40, 100, 300, 800, 2000, 5000, 20000):
            keep += [np.full(k, v) for _ in range(20)]
    del keep


def repeat(c, mon):
    mon.need('compared')
    r = random.Random(c['seed'])
    res = []
    for k in range(3):
        pollute(r)
        s, sol, unit = make(c); s.dt = s.dt_initial
        for _ in range(c['steps']):
            s.evolve_to_time(sol)
            pollute(r)
        res.append((sol.t, np.array(sol.state.q), dict(s.status)))
        del s, sol
    for x in res[1:]:
        mon.count('compared')
        mon.check(x[0] == res[0][0] and np.array_equal(x[1], res[0][1], equal_nan=True) and x[2] == res[0][2], 'repeat', 'the same run gave different results',
                  t=(x[0], res[0][0]), diff=float(np.abs(x[1] - res[0][1]).max()))
        mon.check(np.isfinite(x[1]).all(), 'repeat-finite', 'a run on well-behaved data is not finite')


def output(c, mon):
    """output, gauges and kept frames do not influence the run"""
    from clawpack import pyclaw
    mon.need('compared')
    res = []
    for loud in (False, True):
        s, sol, unit = make(c)
        claw = pyclaw.Controller(); claw.solver = s; claw.solution = sol; claw.verbosity = 0; claw.outdir = os.path.abspath('out%d' % loud)
        claw.tfinal = sol.t + 2.3 * unit; claw.num_output_times = c['nout']
        claw.output_format = None
        if loud:
            f = c['fmt'].split('+')
            claw.output_format = f if len(f) > 1 else f[0]
            claw.keep_copy = True; claw.write_aux_always = c['auxw']
            if c['gauges']:
                g = sol.domain.grid
                g.add_gauges([tuple(a + .4 * (b - a) for a, b in zip(g.lower, g.upper))]); sol.state.keep_gauges = True
        a0 = None if sol.state.aux is None else np.array(sol.state.aux)
        claw.run()
        if a0 is not None:
            mon.check(np.array_equal(a0, sol.state.aux, equal_nan=True), 'output-aux', 'aux data changed during a run')
        res.append((sol.t, np.array(sol.state.q)))
    mon.count('compared')
    mon.check(res[0][0] == res[1][0] and np.array_equal(res[0][1], res[1][1], equal_nan=True), 'output', 'a run with output differs from one without',
              diff=float(np.abs(res[0][1] - res[1][1]).max()))
