import copy, random
import numpy as np
from .. import iokit
ID = 'C18'; LEVEL = 'exploration'
TIMEOUT = 90
RULE = ('one case = a random history of grid construction, changes (bounds, resolution, mapping, added dimension), copies and queries; every query is compared '
        'with coordinates computed from the current extent alone; non-trivial when queries followed changes')
ASSUMPTIONS = ['coordinates agree up to rounding (1e-12 relative to the extent)']
TOL = 1e-12


def cases(rng, tier):
    n = {'quick': 500, 'thorough': 8000}[tier]
    out = []
    for how in ('grid', 'patch', 'domain', 'bounds', 'state', 'solution'):
        for _ in range(n // 3):
            nd = rng.choice([1, 2, 3])
            out.append(dict(kind=how, nd=nd, seed=rng.randrange(1 << 30), ops=rng.choice([6, 12, 25])))
    return out


class Model(object):
    def __init__(self, dims):
        self.dims = dims          # [lower, upper, n]
        self.map = None

    def axis(self, d, what, ng=0):
        lo, up, n = self.dims[d]
        h = (up - lo) / n
        if what == 'centers':
            return np.array([lo + (i + .5) * h for i in range(-ng, n + ng)])
        return np.array([lo + i * h for i in range(-ng, n + ng + 1)])

    def mesh(self, what, ng=0):
        return np.meshgrid(*[self.axis(d, what, ng) for d in range(len(self.dims))], indexing='ij')

    def phys(self, what, ng=0):
        m = self.mesh(what, ng)
        return list(self.map(*m)) if self.map else m

    def scale(self):
        return max(max(abs(a), abs(b)) for a, b, _ in self.dims)


def run(c, mon):
    from clawpack import pyclaw
    mon.need('queries')
    r = random.Random(c['seed'])

    def newdim():
        lo = r.choice([0., -1., 5.5, -1e-3, 1e4, r.uniform(-2, 2)])
        return [lo, lo + r.choice([1., .1, 7.25, 1e-3, r.uniform(.5, 3)]), r.choice([1, 2, 3, 5, 10, 17])]
    dims = [newdim() for _ in range(c['nd'])]
    m = Model(dims)
    pd = [pyclaw.Dimension(a, b, n, name='xyz'[i]) for i, (a, b, n) in enumerate(dims)]
    k = c['kind']
    holder = None
    if k == 'grid':
        grid = pyclaw.geometry.Grid(pd)
    elif k == 'patch':
        holder = pyclaw.Patch(pd); grid = holder.grid
    elif k == 'domain':
        holder = pyclaw.Domain(pd); grid = holder.grid
    elif k == 'bounds':
        holder = pyclaw.Domain([d[0] for d in dims], [d[1] for d in dims], [d[2] for d in dims]); grid = holder.grid
    elif k == 'state':
        holder = pyclaw.State(pyclaw.Domain(pd), 2, 1); holder.q[...] = 0; grid = holder.grid
    else:
        dom = pyclaw.Domain(pd)
        st = pyclaw.State(dom, 2); st.q[...] = 0
        holder = pyclaw.Solution(st, dom); grid = dom.grid
    for step in range(c['ops']):
        op = r.choice(['query', 'query', 'query', 'bounds', 'cells', 'map', 'add', 'copy', 'unmap'])
        if op == 'bounds':
            d = r.randrange(len(m.dims)); dim = grid.dimensions[d]
            new = newdim()
            if r.random() < .5:
                new[0] = m.dims[d][0]; new[1] = new[0] + abs(new[1] - new[0]) + .1
            lo, up = m.dims[d][:2]
            way = r.choice(['upper', 'lower', 'both', 'both', 'reverse'])
            if way == 'upper':
                new[0] = lo; new[1] = lo + (up - lo) * r.choice([.5, 2., 3.7]); dim.upper = new[1]
            elif way == 'lower':
                new[1] = up; new[0] = up - (up - lo) * r.choice([.5, 2., 3.7]); dim.lower = new[0]
            elif way == 'reverse':
                dim.lower = min(lo, new[0]) - 1e5; dim.upper = new[1]; dim.lower = new[0]
            else:
                dim.upper = max(up, new[1]) + 1e5; dim.lower = new[0]; dim.upper = new[1]
            m.dims[d][:2] = new[:2]; mon.count('changes'); mon.count('changed_' + way)
        elif op == 'cells':
            d = r.randrange(len(m.dims)); n = r.choice([1, 2, 4, 9])
            if r.random() < .5:
                getattr(grid, 'xyz'[d]).num_cells = n
            else:
                grid.dimensions[d].num_cells = n
            m.dims[d][2] = n; mon.count('changes')
        elif op == 'map':
            nd = len(m.dims)
            m.map = iokit.MAPS[nd]; grid.mapc2p = m.map; mon.count('changes')
        elif op == 'unmap':
            m.map = None; grid.mapc2p = pyclaw.geometry.identity_map[str(len(m.dims))]; mon.count('changes')
        elif op == 'add' and k == 'grid' and len(m.dims) < 3:
            new = newdim()
            grid.add_dimension(pyclaw.Dimension(new[0], new[1], new[2], name='xyz'[len(m.dims)]))
            m.dims.append(new); m.map = None; mon.count('changes')
        elif op == 'copy' and holder is not None:
            old = grid; mo = Model([list(x) for x in m.dims]); mo.map = m.map
            holder2 = copy.deepcopy(holder)
            g2 = holder2.grid if k != 'solution' else holder2.domain.grid
            if r.random() < .5:
                holder, grid = holder2, g2       # go on with the copy; the original must not follow
            else:
                old = g2                         # go on with the original; the copy must not follow
            d = r.randrange(len(m.dims))
            grid.dimensions[d].num_cells = m.dims[d][2] + 1; m.dims[d][2] += 1; mon.count('changes'); mon.count('copies')
            query(mon, r, old, mo, 'copy')
        query(mon, r, grid, m, 'now')
        if k == 'solution':
            for g in (holder.state.grid, holder.patch.grid, holder.grid):
                mon.check(g is grid or [list(g.num_cells), list(g.lower), list(g.upper)] == [list(grid.num_cells), list(grid.lower), list(grid.upper)], 'one-grid',
                          'the parts of a solution have different grids', got=[g.num_cells, g.lower, g.upper], want=[grid.num_cells, grid.lower, grid.upper])
        if k == 'state':
            for name in ('c_centers', 'p_centers', 'c_nodes', 'p_nodes', 'num_cells', 'lower', 'upper', 'delta'):
                try:
                    a = getattr(holder, name)
                except AttributeError:
                    continue
                b = getattr(grid, name)
                mon.check(all(np.array_equal(x, y) for x, y in zip(a, b)), 'forward', 'the state answers differently from its grid', name=name)


def arr(mon, got, want, sc, key, what):
    mon.count('queries')
    try:
        got = [np.asarray(x, dtype=float) for x in got]
    except Exception:
        return mon.fail(key, what + ': not a list of arrays')
    ok = len(got) == len(want) and all(a.shape == np.shape(b) for a, b in zip(got, want))
    if ok:
        ok = all(np.all(np.abs(a - b) <= TOL * sc) for a, b in zip(got, want))
    return mon.check(ok, key, what, shapes=[a.shape for a in got], want=[np.shape(b) for b in want])


def query(mon, r, grid, m, when):
    nd = len(m.dims)
    sc = m.scale(); ps = sc * (1 + sc) * 4
    h = [(b - a) / n for a, b, n in m.dims]
    mon.check(grid.num_dim == nd and list(grid.num_cells) == [d[2] for d in m.dims] and list(grid.lower) == [d[0] for d in m.dims]
              and list(grid.upper) == [d[1] for d in m.dims], 'extent', 'extent of the grid (%s)' % when, got=[grid.num_cells, grid.lower, grid.upper], want=m.dims)
    arr(mon, grid.delta, [np.array(x) for x in h], sc, 'delta', 'cell sizes (%s)' % when)
    for what in ('centers', 'nodes'):
        if r.random() < .5:
            arr(mon, getattr(grid, what), [m.axis(d, what) for d in range(nd)], sc, 'axis-' + what, '%s per dimension (%s)' % (what, when))
        if r.random() < .5:
            arr(mon, getattr(grid, 'c_' + what), m.mesh(what), sc, 'c-' + what, 'computational %s (%s)' % (what, when))
        if r.random() < .5:
            arr(mon, getattr(grid, 'p_' + what), m.phys(what), ps, 'p-' + what, 'physical %s (%s)' % (what, when))
        ng = r.choice([1, 2, 3])
        if r.random() < .5:
            arr(mon, getattr(grid, 'c_%s_with_ghost' % what)(ng), m.mesh(what, ng), sc + 3 * max(h), 'c-ghost-' + what, 'computational %s with ghost cells (%s)' % (what, when))
        if r.random() < .5:
            arr(mon, getattr(grid, 'p_%s_with_ghost' % what)(ng), m.phys(what, ng), ps + 30 * max(h), 'p-ghost-' + what, 'physical %s with ghost cells (%s)' % (what, when))
        if r.random() < .3:
            d = r.randrange(nd)
            arr(mon, [getattr(grid.dimensions[d], what + '_with_ghost')(ng)], [m.axis(d, what, ng)], sc + 3 * max(h), 'dim-ghost-' + what, '%s of a dimension with ghost cells (%s)' % (what, when))
    if r.random() < .6:
        ind = [r.randrange(d[2]) for d in m.dims]
        want = [np.array(x[tuple(ind)]) for x in m.mesh('centers')]
        arr(mon, grid.c_center(ind), want, sc, 'c-center', 'centre of one cell (%s)' % when)
        want = [np.array(np.asarray(x)[tuple(ind)]) for x in m.phys('centers')]
        arr(mon, grid.p_center(ind), want, ps, 'p-center', 'physical centre of one cell (%s)' % when)
