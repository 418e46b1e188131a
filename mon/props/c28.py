import copy, os, warnings
import numpy as np
from .. import ctrl
ID = 'C28'; LEVEL = 'exploration'
RULE = ('kind construct: one case = one random geometry and problem described in every documented way, the descriptions compared part by part and by the result of a run; '
        'kind delegate: one case = one random history of changes to a solution (also of several patches) and its controller, all shared attributes compared with the base state '
        'after every change; kind frames: one case = one controller run whose frames are fetched in every documented way')
ASSUMPTIONS = ['attribute lists are those documented for Solution, State, Controller and Grid']


def cases(rng, tier):
    n = {'quick': 120, 'thorough': 1500}[tier]
    out = []
    for _ in range(n):
        nd = rng.choice([1, 1, 2, 3])
        out.append(dict(kind='construct', nd=nd, n=[rng.choice([1, 3, 8]) for _ in range(nd)], lower=[rng.choice([0., -1, 2, rng.uniform(-2, 2)]) for _ in range(nd)],
                        len=[rng.choice([1, .5, rng.uniform(.1, 3)]) for _ in range(nd)], meqn=rng.choice([1, 2, 4]), maux=rng.choice([0, 1, 3, 9]), names=rng.choice(['xyz', 'xyz', 'zxy', 'rab', 'yxw']), seed=rng.randrange(1 << 30)))
        out.append(dict(ctrl.problem(rng), kind='run', steps=rng.choice([1, 3])))
        out.append(dict(kind='delegate', nd=nd, seed=rng.randrange(1 << 30), patches=rng.choice([1, 1, 2, 4]), meqn=rng.choice([1, 3]), maux=rng.choice([0, 2]), ops=12, names=rng.choice(['xyz', 'yzx', 'rba'])))
    for _ in range(max(2, n // 2)):
        out.append(dict(ctrl.problem(rng), kind='frames', nout=rng.choice([1, 2, 4]), fmt=rng.choice(['ascii', 'hdf5']), keep=rng.random() < .7,
                        prefix=rng.choice([None, 'out', 'a.b'])))
    return out


def geometries(c):
    """every way to describe the geometry, as (name, argument for Solution)"""
    from clawpack import pyclaw
    from clawpack.pyclaw.geometry import Patch
    D = lambda: [pyclaw.Dimension(c['lower'][d], c['lower'][d] + c['len'][d], c['n'][d], name=c.get('names', 'xyz')[d]) for d in range(c['nd'])]
    up = [a + b for a, b in zip(c['lower'], c['len'])]
    out = [('bounds', pyclaw.Domain(list(c['lower']), up, list(c['n']))), ('bounds tuple', pyclaw.Domain(tuple(c['lower']), tuple(up), tuple(c['n']))),
           ('domain of dimensions', pyclaw.Domain(D())), ('domain of a tuple', pyclaw.Domain(tuple(D()))), ('domain of a patch', pyclaw.Domain(Patch(D()))),
           ('domain of patches', pyclaw.Domain([Patch(D())])), ('dimensions', D()), ('tuple of dimensions', tuple(D())), ('patches', [Patch(D())]),
           ('tuple of patches', (Patch(D()),)), ('patch', Patch(D()))]
    if c['nd'] == 1:
        out += [('domain of a dimension', pyclaw.Domain(D()[0])), ('dimension', D()[0]), ('patch of a dimension', Patch(D()[0])),
                ('domain of a patch of a dimension', pyclaw.Domain(Patch(D()[0])))]
    return out


def describe(sol):
    s = sol.state
    g = sol.domain.grid
    return dict(num_dim=(sol.num_dim, s.num_dim, g.num_dim, sol.domain.num_dim, s.patch.num_dim), lower=[list(g.lower), list(s.patch.lower_global)],
                upper=[list(g.upper), list(s.patch.upper_global)], n=[list(g.num_cells), list(s.patch.num_cells_global)], delta=[list(g.delta), list(s.patch.delta)],
                names=[list(s.patch.name), [d.name for d in g.dimensions]], q=s.q.shape, aux=None if s.aux is None else s.aux.shape,
                order=bool(s.q.flags['F_CONTIGUOUS']), valid=sol.is_valid(), t=s.t, meqn=s.num_eqn, maux=s.num_aux, pd=s.problem_data, capa=s.index_capa,
                bound=[(d.on_lower_boundary, d.on_upper_boundary) for d in g.dimensions], level=s.patch.level, index=s.patch.patch_index, states=len(sol.states),
                frame=sol.start_frame, lens=[len(d) for d in g.dimensions])


def construct(c, mon):
    from clawpack import pyclaw
    want = None
    nd = c['nd']
    up = [a + b for a, b in zip(c['lower'], c['len'])]
    for gname, geo in geometries(c):
        dom = geo if isinstance(geo, pyclaw.Domain) else None
        forms = [('list of numbers', [c['meqn'], c['maux']]), ('tuple of numbers', (c['meqn'], c['maux']))]
        if not c['maux']:
            forms.append(('number', c['meqn']))
        holder = dom or (geo if isinstance(geo, pyclaw.geometry.Patch) else None)
        if holder is not None:
            forms += [('state', pyclaw.State(holder, c['meqn'], c['maux'])), ('list of states', [pyclaw.State(holder, c['meqn'], c['maux'])])]
        for fname, first in forms:
            try:
                sol = pyclaw.Solution(first, geo)
                got = describe(sol)
            except Exception as e:
                mon.check(False, 'construct', 'a documented way to create a solution fails', geometry=gname, state=fname, error=repr(e)[:200])
                continue
            mon.count('descriptions')
            names = list(('xyz' if gname.startswith('bounds') else c['names'])[:nd])
            mon.check(got['names'] == [names] * 2, 'names', 'the dimensions are not the named ones, in order', got=got['names'], want=names, geometry=gname)
            del got['names']
            if want is None:
                want = got
                mon.check(got['lower'] == [[float(x) for x in c['lower']]] * 2 and got['upper'] == [[float(x) for x in up]] * 2 and got['n'] == [c['n']] * 2
                          and got['num_dim'] == (nd,) * 5 and got['q'] == (c['meqn'],) + tuple(c['n']) and got['maux'] == c['maux'] and got['states'] == 1
                          and got['aux'] == ((c['maux'],) + tuple(c['n']) if c['maux'] else None) and got['lens'] == c['n'] and got['valid'] and got['t'] == 0.
                          , 'described', 'the created solution is not the one described', got=got)
            mon.check(got == want, 'same', 'two descriptions of the same problem differ', geometry=gname, state=fname,
                      differ={k: (got[k], want[k]) for k in got if got[k] != want[k]})
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                g = sol.domain.grid
                for a, b in ((g.c_edges, g.c_nodes), (g.p_edges, g.p_nodes), (g.c_edges_with_ghost(2), g.c_nodes_with_ghost(2)), (g.p_edges_with_ghost(1), g.p_nodes_with_ghost(1))):
                    mon.check(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)), 'edges', 'edges are not the nodes')
                for d in g.dimensions:
                    mon.check(np.array_equal(d.edges, d.nodes) and np.array_equal(d.edges_with_ghost(3), d.nodes_with_ghost(3)), 'edges', 'edges of a dimension are not its nodes')
    for bad in (dict(a=()), dict(a=(1, 2)), dict(a=('x', pyclaw.Domain(c['lower'], up, c['n']))), dict(a=(1, 2, 3)), dict(a=(1, ['x'])), dict(k=dict(path='.'))):
        if bad == dict(a=()):
            e = pyclaw.Solution()
            mon.check(e.states == [] and e.domain is None, 'empty', 'an empty solution is not empty')
            continue
        try:
            pyclaw.Solution(*bad.get('a', ()), **bad.get('k', {}))
        except Exception:
            mon.count('refused')
        else:
            mon.check(False, 'refused', 'a meaningless description was accepted', arguments=repr(bad))
    mon.need('descriptions', 'refused')


def rerun(c, mon):
    """the same run for a solution created in another way"""
    from clawpack import pyclaw
    s, ref, unit = ctrl.build(c)
    st = ref.state
    g = ref.domain.grid
    gc = dict(nd=g.num_dim, n=list(g.num_cells), lower=list(g.lower), len=[u - l for u, l in zip(g.upper, g.lower)], names=['xyz', 'zxy', 'ba_'][c['seed'] % 3])
    if any(l + d != u for l, d, u in zip(gc['lower'], gc['len'], g.upper)):
        return mon.count('descriptions')
    start = (np.array(st.q), None if st.aux is None else np.array(st.aux), copy.deepcopy(st.problem_data), st.index_capa, st.t)
    s.dt_variable = False; s.dt = .1 * unit; s.cfl_max = 1e9; s.cfl_desired = 1e8
    for _ in range(c['steps']):
        s.evolve_to_time(ref)
    geos = geometries(gc)
    r = np.random.RandomState(c['seed'])
    for i in r.choice(len(geos), 3, replace=False):
        gname, geo = geos[i]
        try:
            sol = pyclaw.Solution([start[0].shape[0], 0 if start[1] is None else start[1].shape[0]], geo)
        except Exception as e:
            mon.check(False, 'construct', 'a documented way to create a solution fails', geometry=gname, error=repr(e)[:200])
            continue
        sol.state.q[...] = start[0]
        if start[1] is not None:
            sol.state.aux[...] = start[1]
        sol.state.problem_data.update(copy.deepcopy(start[2])); sol.state.index_capa = start[3]; sol.t = start[4]
        s2, _, _ = ctrl.build(c)
        s2.dt_variable = False; s2.dt = .1 * unit; s2.cfl_max = 1e9; s2.cfl_desired = 1e8
        for _ in range(c['steps']):
            s2.evolve_to_time(sol)
        mon.count('descriptions')
        mon.check(np.array_equal(np.array(sol.q), np.array(ref.q), equal_nan=True) and sol.t == ref.t, 'run', 'the result of a run depends on how the problem was described', geometry=gname)
    mon.need('descriptions')


SHARED = ('t', 'num_eqn', 'mp', 'mF', 'q', 'p', 'F', 'aux', 'problem_data', 'num_aux', 'num_dim', 'p_centers', 'p_edges', 'c_centers', 'c_edges', 'num_cells', 'lower',
          'upper', 'delta', 'centers', 'edges', 'gauges', 'grid')
OFGRID = ('num_dim', 'p_centers', 'p_edges', 'c_centers', 'c_edges', 'num_cells', 'lower', 'upper', 'delta', 'centers', 'edges', 'gauges')


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a is b or (np.shape(a) == np.shape(b) and np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or a == b


def delegate(c, mon):
    from clawpack import pyclaw
    from clawpack.pyclaw.geometry import Patch
    r = np.random.RandomState(c['seed'])

    def patch(i):
        p = Patch([pyclaw.Dimension(float(r.uniform(-2, 0)), float(r.uniform(1, 3)), int(r.randint(2, 6)), name=c['names'][d]) for d in range(c['nd'])])
        p.patch_index = i + 1; p.level = 1 + (i * c['seed']) % 3
        return p

    def solution(k):
        P = [patch(i) for i in range(k)]
        S = [pyclaw.State(p, c['meqn'], c['maux']) for p in P]
        for s in S:
            s.q[...] = r.randn(*s.q.shape)
            if s.aux is not None:
                s.aux[...] = r.randn(*s.aux.shape)
        sol = pyclaw.Solution(S if k > 1 or r.rand() < .5 else S[0], [lambda: pyclaw.Domain(P), lambda: list(P), lambda: tuple(P), lambda: pyclaw.Domain(tuple(P))][r.randint(4)]())
        mon.check(len(sol.states) == k and len(sol.domain.patches) == k and all(a is b for a, b in zip(sol.domain.patches, P)) and all(a is b for a, b in zip(sol.states, S)), 'patches',
                  'the solution does not have the given patches and states', states=len(sol.states), patches=len(sol.domain.patches), want=k)
        return sol
    sol = solution(c['patches'])
    claw = pyclaw.Controller(); claw.verbosity = 0
    claw.solution = sol
    ops = ['t', 't', 'q', 'aux', 'pd', 'extent', 'mp', 'mF', 'gauge', 'swap', 'newsol', 'map', 'inplace', 'setall', 'copy']
    for step in range(c['ops']):
        op = ops[r.randint(len(ops))]
        base = sol.states[0]
        if op == 't':
            v = float(r.randn()); sol.t = v
            mon.check(all(s.t == v for s in sol.states), 'set-t', 'assigning the time of a solution does not reach all of its states', t=[s.t for s in sol.states], want=v)
        elif op == 'q':
            base.q = np.asfortranarray(r.randn(*base.q.shape))
        elif op == 'inplace':
            sol.q[...] = 7. + step
            mon.check((base.q == 7. + step).all(), 'write', 'writing into solution.q does not change the state')
        elif op == 'aux' and c['maux']:
            base.aux = np.asfortranarray(r.randn(*base.aux.shape))
        elif op == 'pd':
            sol.problem_data['k%d' % step] = step
            mon.check(base.problem_data.get('k%d' % step) == step, 'write', 'writing into solution.problem_data does not change the state')
        elif op == 'extent':
            base.grid.dimensions[0].upper = float(r.uniform(4, 9))
        elif op in ('mp', 'mF') and getattr(base, op[1]) is None:
            k = int(r.randint(1, 4)); setattr(sol, op, k)
            mon.check(all(getattr(s, op) == k and getattr(s, op[1]).shape == (k,) + tuple(s.grid.num_cells) for s in sol.states), 'set-' + op,
                      'assigning the number of derived quantities does not reach all states')
        elif op == 'gauge':
            base.grid.add_gauges([[float(r.uniform(0, 1))] * c['nd']])
        elif op == 'swap' and len(sol.states) > 1:
            sol.states[:] = sol.states[1:] + sol.states[:1]
        elif op == 'newsol':
            sol = solution(c['patches']); claw.solution = sol
        elif op == 'copy':
            old = sol
            sol = copy.deepcopy(sol); claw.solution = sol
            mon.check(len(sol.states) == len(old.states) and len(sol.domain.patches) == len(old.domain.patches) and all(same(a.q, b.q) and same(a.aux, b.aux) and a.t == b.t
                      and a.problem_data == b.problem_data for a, b in zip(sol.states, old.states)), 'copied', 'a copied solution is another one')
            mon.check([[i for i, p in enumerate(sol.domain.patches) if p is s.patch] for s in sol.states] == [[i for i, p in enumerate(old.domain.patches) if p is s.patch] for s in old.states],
                      'copied-patches', 'the states of a copied solution are not on the patches of its domain')
        elif op == 'setall':
            v = float(r.randn()); old = [s.t for s in sol.states]
            over = bool(r.rand() < .5)
            sol.set_all_states('t', v, overwrite=over)
            mon.check([s.t for s in sol.states] == ([v] * len(old) if over else old), 'set-all', 'set_all_states overwrote what it should keep or kept what it should overwrite', overwrite=over)
        elif op == 'map':
            base.grid.mapc2p = {1: lambda x: (2 * x,), 2: lambda x, y: (x + y, y), 3: lambda x, y, z: (x, y + z, z)}[c['nd']]
        base = sol.states[0]
        mon.count('changes')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for name in SHARED:
                try:
                    want = getattr(base, name); got = [getattr(o, name) for o in (sol, claw)]
                except Exception as e:
                    mon.check(False, 'missing', 'a documented attribute is missing', attribute=name, error=repr(e)[:100])
                    continue
                for o, v in zip(('solution', 'controller'), got):
                    mon.check(same(v, want), 'shared', 'an attribute differs from that of the base state', attribute=name, of=o, after=op, got=str(v)[:80], want=str(want)[:80])
                    if name in ('q', 'aux', 'p', 'F', 'problem_data', 'grid'):
                        mon.check(v is want, 'identity', 'an attribute is not the one of the base state but a copy', attribute=name, of=o)
            for name in OFGRID:
                try:
                    mon.check(same(getattr(base, name), getattr(base.patch.grid, name)), 'of-grid', 'an attribute of the state differs from that of its grid', attribute=name)
                except AttributeError as e:
                    mon.check(False, 'missing', 'a documented attribute is missing', attribute=name, error=repr(e)[:100])
        mon.check(sol.state is base and sol.patch is sol.domain.patches[0] and sol.domain.patch is sol.domain.patches[0] and sol.domain.grid is sol.domain.patches[0].grid,
                  'base', 'the base state, patch or grid is not the first one')
        q = base.get_q_global(); mon.check(np.array_equal(q, base.q, equal_nan=True) and not np.shares_memory(q, base.q), 'global', 'get_q_global is not a copy of q')
        if base.aux is not None:
            a = base.get_aux_global(); mon.check(np.array_equal(a, base.aux, equal_nan=True) and not np.shares_memory(a, base.aux), 'global', 'get_aux_global is not a copy of aux')
        for o in (sol, claw, base, base.grid):
            mon.check(not hasattr(o, 'no_such_thing'), 'unknown', 'an unknown attribute has a value', of=type(o).__name__)
        g = base.grid
        for name in ('num_cells', 'lower', 'upper', 'delta', 'units', 'centers', 'nodes', 'on_lower_boundary', 'on_upper_boundary'):
            mon.check(same(getattr(g, name), [getattr(d, name) for d in g.dimensions]), 'of-dimensions', 'an attribute of the grid is not that of its dimensions', attribute=name)
        for d in g.dimensions:
            mon.check(getattr(g, d.name) is d and getattr(base.patch, d.name) is d, 'by-name', 'a dimension is not reached by its name')
        text = str(base)
        mon.check(str(list(g.num_cells)) in text and str(base.t) in text and str(sol).count('PyClaw State') == len(sol.states), 'text', 'the printed form is of another state', text=text)
    mon.need('changes')


def frames(c, mon):
    from clawpack import pyclaw
    s, sol, unit = ctrl.build(c)
    if c['fmt'] == 'hdf5' and c['prefix'] is None:
        c['prefix'] = 'claw'
    claw = pyclaw.Controller(); claw.verbosity = 0
    claw.solver = s; claw.solution = sol; claw.outdir = './out'; claw.output_format = c['fmt']; claw.keep_copy = c['keep']
    claw.num_output_times = c['nout']; claw.tfinal = sol.t + 3 * unit; claw.output_file_prefix = c['prefix']
    times = np.linspace(sol.t, claw.tfinal, c['nout'] + 1)
    claw.run()
    pre = c['prefix'] or 'fort'
    if c['keep']:
        for k in range(c['nout'] + 1):
            f = claw.load_frame(k)
            mon.check(f is claw.frames[k] and abs(f.t - times[k]) <= 1e-9 * unit + 4e-16 * abs(times[k]), 'load', 'load_frame gives another frame', frame=k, t=f.t, want=times[k])
        mon.check(claw.load_frame(c['nout'] + 1) is None, 'load', 'load_frame invents a frame')
        text = str(claw)
        mon.check(text.count('PyClaw State') == len(claw.frames) and 'num_output_times = %d' % c['nout'] in text, 'text', 'the printed form of the controller', text=text[:300])
    look = pyclaw.controller.OutputController('./out', file_format=c['fmt'], file_prefix=pre)
    for k in range(c['nout'] + 1):
        t = look.get_time(k)
        if c['fmt'] == 'ascii':
            mon.check(t is not None and abs(t - times[k]) <= 1e-7 * max(1, abs(times[k])), 'time', 'the time of a frame looked up is another one', got=t, want=times[k])
        kw = dict(path='./out', file_format=c['fmt'], file_prefix=pre)
        a = pyclaw.Solution(k, **kw); b = pyclaw.Solution(frame=k, **kw); d = pyclaw.Solution(); d.read(k, **kw)
        mon.count('fetched')
        for x in (b, d):
            mon.check(x.t == a.t and np.array_equal(x.q, a.q, equal_nan=True) and x.start_frame == a.start_frame and len(x.states) == len(a.states), 'fetch', 'a frame differs by the way it is fetched', frame=k)
        for zero, want in ((True, 0), (False, k)):
            e = pyclaw.Solution(k, count_from_zero=zero, **kw); f = pyclaw.Solution(frame=k, count_from_zero=zero, **kw)
            mon.check(e.start_frame == want, 'start', 'the frame counting of a solution read from a frame', got=e.start_frame, want=want)
            mon.check(f.start_frame == want, 'start-keyword', 'the frame counting of a solution read from a frame given by keyword', got=f.start_frame, want=want)
    mon.need('fetched')


def run(c, mon):
    {'construct': construct, 'run': rerun, 'delegate': delegate, 'frames': frames}[c['kind']](c, mon)
