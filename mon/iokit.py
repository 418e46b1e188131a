"""Random solutions (also with several patches) for the file format checks."""
import numpy as np


def map1(x):
    return x ** 2 + x,


def map2(x, y):
    return x + .1 * y ** 2, y * (1 + .2 * x)


def map3(x, y, z):
    return x + .1 * z, y + .2 * x * x, z - .1 * y


MAPS = {1: map1, 2: map2, 3: map3}


def case(rng, nd=None, patches=True):
    nd = nd or rng.choice([1, 2, 3])
    c = dict(nd=nd, meqn=rng.choice([1, 2, 3, 4, 5, 9, 12]), maux=rng.choice([0, 1, 2, 5, 11]), seed=rng.randrange(1 << 30),
             t=rng.choice([0., 1.5, -2.25, 1e-7, 123456.789, 3.1e120, rng.uniform(-3, 3), rng.uniform(0, 1e7)]), mapped=rng.random() < .25,
             values=rng.choice(['normal', 'normal', 'extreme', 'special']), frame=rng.choice([0, 1, 3, 12, 345, 9999, 12345]))
    hi = {1: 20, 2: 7, 3: 4}[nd]
    k = rng.choice([1, 1, 1, 2, 4, 13]) if patches else 1
    if k == 13 and nd == 3:
        k = 11
    c['patches'] = []
    # extents in any unit of length, also different ones per dimension
    unit = [rng.choice([1., 1., 1., 1e-7, 1e-9, 1e7, 1e60]) for _ in range(nd)]
    for i in range(k):
        c['patches'].append(dict(n=[rng.choice([1, 2, 3, hi, rng.randint(1, hi)]) for _ in range(nd)],
                                 lower=[unit[d] * rng.choice([0., -1.5, .1, 1e5, -1e-6, rng.uniform(-3, 3)]) for d in range(nd)],
                                 len=[unit[d] * rng.choice([1., .3, 17.25, 1e-3 + rng.random()]) for d in range(nd)],
                                 level=1 if i == 0 else rng.choice([1, 2, 3])))
    return c


def values(r, shape, how):
    v = r.standard_normal(shape)
    if how == 'extreme':
        v = v * 10. ** r.integers(-280, 280, shape)
    if how == 'special':
        flat = v.ravel()
        sp = np.array([0., -0., np.nan, np.inf, -np.inf, 1e-308, -1e300, 5e-324, 1., -1., 123456789.123456789, 1e-100])
        m = r.random(flat.shape) < .6
        flat[m] = sp[r.integers(0, len(sp), int(m.sum()))]
        v = flat.reshape(shape)
    return v


def build(c, values_seed=0):
    from clawpack import pyclaw
    r = np.random.default_rng([c['seed'], values_seed])
    states = []
    for i, p in enumerate(c['patches']):
        dims = [pyclaw.Dimension(p['lower'][d], p['lower'][d] + p['len'][d], p['n'][d], name='xyz'[d]) for d in range(c['nd'])]
        patch = pyclaw.geometry.Patch(dims)
        patch.level = p['level']; patch.patch_index = i + 1
        st = pyclaw.State(patch, c['meqn'], c['maux'])
        st.t = c['t']
        st.q[...] = values(r, st.q.shape, c['values'])
        if c['maux']:
            st.aux[...] = values(r, st.aux.shape, c['values'])
        st.problem_data = {'gamma': 1.4 + r.random(), 'name': 'p%d' % (c['seed'] % 97), 'list': [1, 2., 'three'], 'n': 3}
        if c['mapped']:
            patch.grid.mapc2p = MAPS[c['nd']]
        states.append(st)
    dom = pyclaw.Domain([s.patch for s in states])
    return pyclaw.Solution(states, dom)


def eq(a, b, rel):
    """elementwise agreement; NaN equals NaN"""
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rel * np.abs(b))
    return bool(ok.all())


def by_index(sol):
    return {int(s.patch.patch_index): s for s in sol.states}


def compare(mon, got, want, rel, key, aux='same', order=False):
    """aux: 'same', 'nan', or an array list per patch index"""
    mon.count('roundtrips')
    g, w = by_index(got), by_index(want)
    if not mon.check(len(got.states) == len(want.states) and sorted(g) == sorted(w), key + '-patches', 'patches read back', got=sorted(g), want=sorted(w)):
        return
    if order:
        mon.check([int(s.patch.patch_index) for s in got.states] == [int(s.patch.patch_index) for s in want.states], key + '-order', 'order of the patches',
                  got=[int(s.patch.patch_index) for s in got.states])
    for i in w:
        a, b = g[i], w[i]
        mon.count('patches')
        mon.check(int(a.patch.level) == b.patch.level, key + '-level', 'refinement level', got=a.patch.level, want=b.patch.level)
        mon.check(eq(a.t, b.t, rel), key + '-time', 'time', got=float(a.t), want=b.t)
        mon.check([int(x) for x in a.grid.num_cells] == list(b.grid.num_cells), key + '-cells', 'number of cells', got=a.grid.num_cells, want=b.grid.num_cells)
        ok = all(abs(x - y) <= 3 * rel * max(abs(lo), abs(up), up - lo) + 1e-300
                 for x, y, lo, up in zip(list(a.grid.lower) + list(a.grid.upper), list(b.grid.lower) + list(b.grid.upper),
                                         list(b.grid.lower) * 2, list(b.grid.upper) * 2))
        mon.check(ok, key + '-extent', 'extent of a patch', got=[a.grid.lower, a.grid.upper], want=[b.grid.lower, b.grid.upper])
        mon.check(eq(a.q, b.q, rel), key + '-q', 'q', patch=i)
        mon.check(a.num_aux == b.num_aux, key + '-num-aux', 'number of aux fields', got=a.num_aux, want=b.num_aux)
        if b.aux is not None and a.aux is not None:
            if isinstance(aux, dict):
                mon.check(eq(a.aux, aux[i], rel), key + '-aux', 'aux', patch=i)
            elif aux == 'same':
                mon.check(eq(a.aux, b.aux, rel), key + '-aux', 'aux', patch=i)


def reread(mon, c, frame, want, rel, key, aux='same', order=False, **kw):
    """the frame read into a solution that holds something else already"""
    if c['seed'] % 3 == 0:
        import random
        got = build(case(random.Random(c['seed'] + 1)))
    else:
        got = build(c, 77)
    for st in got.states:
        st.patch.level = 1 + c['seed'] // 3 % 3
    got.read(frame, **kw)
    mon.count('read into a used solution')
    compare(mon, got, want, rel, key + '-into-used', aux=aux, order=order)
    mon.check(len(got.domain.patches) == len(got.states) and all(any(s.patch is p for p in got.domain.patches) for s in got.states), key + '-domain', 'the domain of a solution read from a file is not that of its states')
