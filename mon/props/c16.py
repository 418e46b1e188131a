import os
import numpy as np
from .. import iokit
ID = 'C16'; LEVEL = 'exploration'
TIMEOUT = 90
RULE = ('one case = one random solution (dimensions, patches, levels, special and extreme values, mapping, parameters) written in the ascii format and read '
        'back, or files of other writers, overwritten frames, aux data of frame 0, or damaged files; non-trivial when a read was compared or had to fail')
ASSUMPTIONS = ['the format carries nine significant digits; dimension names are not stored', 'damage means the file ends at a line boundary before its data are complete']
REL = 6e-9


def cases(rng, tier):
    n = {'quick': 60, 'thorough': 1200}[tier]
    out = []
    for kind in ('plain', 'plain', 'plain', 'prefix', 'twice', 'aux0', 'noaux', 'foreign', 'cut', 'forest'):
        for _ in range(n if kind != 'forest' else n // 2):
            c = iokit.case(rng); c['kind'] = kind
            if kind in ('aux0', 'noaux'):
                c['maux'] = max(1, c['maux'])
            if kind == 'forest':
                c['blocks'] = [[rng.randrange(20), rng.randrange(9)] for _ in c['patches']]
                c['steps'] = [rng.choice(['forest', 'plain', 'forest-foreign']) for _ in range(rng.choice([1, 3, 5]))]
                c['perline'] = 100; c['header'] = rng.choice([5, 6, 7])
            if kind == 'foreign':
                c['perline'] = rng.choice([1, 4, 4, 100]); c['header'] = rng.choice([5, 6, 7])
            if kind == 'cut':
                c['at'] = rng.random(); c['which'] = rng.choice(['q', 'q', 'a']) if c['maux'] else 'q'
            out.append(c)
    return out


def state_of(sol):
    return [(np.array(s.q), None if s.aux is None else np.array(s.aux), s.t) for s in sol.states]


def run(c, mon):
    from clawpack import pyclaw
    mon.need('checked')
    sol = iokit.build(c)
    before = state_of(sol)
    k = c['kind']
    f = c['frame']
    if k == 'forest':
        return forest(c, mon)
    if k == 'foreign':
        write_foreign(c, sol, 'out', f)
        got = pyclaw.Solution(f, path='out', file_format='ascii')
        iokit.compare(mon, got, sol, 1e-12, 'foreign', order=True)
        mon.count('checked'); return
    kw = dict(file_prefix='job') if k == 'prefix' else {}
    paths(c, mon, sol)
    if k == 'twice':
        c2 = dict(c); other = iokit.build(c2, 5)
        other.write(f, path='out', file_format='ascii', write_aux=True)
        other.write(f + 1, path='out', file_format='ascii', write_aux=True)
    if k == 'aux0':
        first = iokit.build(c, 9)
        first.write(0, path='out', file_format='ascii', write_aux=True)
        f = max(1, f)
        sol.write(f, path='out', file_format='ascii')
    else:
        sol.write(f, path='out', file_format='ascii', write_aux=k != 'noaux', **kw)
    after = state_of(sol)
    mon.check(all(iokit.eq(a[0], b[0], 0) and (a[1] is None or iokit.eq(a[1], b[1], 0)) and a[2] == b[2] for a, b in zip(before, after)),
              'write-changes', 'writing changed the solution')
    if k == 'cut':
        pre = 'fort.%s' % c['which']
        path = os.path.join('out', pre + str(f).zfill(4))
        lines = open(path).readlines()
        nl = [i for i, l in enumerate(lines) if l.strip()]
        upto = nl[int(c['at'] * len(nl))]        # at least the last line with content goes
        open(path, 'w').writelines(lines[:upto])
        mon.count('checked')
        try:
            got = pyclaw.Solution(f, path='out', file_format='ascii')
            mon.fail('cut', 'a file that ends early was read without complaint', lines=len(lines), kept=upto, which=c['which'])
        except Exception:
            mon.count('refused')
        return
    got = pyclaw.Solution(f, path='out', file_format='ascii', **kw)
    mon.count('checked')
    aux = 'same'
    if k == 'noaux':
        aux = 'none'
        mon.check(all(np.isnan(s.aux).all() for s in got.states), 'noaux', 'aux data that were not written are not marked as missing')
    if k == 'aux0':
        aux = {i: s.aux for i, s in iokit.by_index(first).items()}
    iokit.compare(mon, got, sol, REL, k, aux=aux, order=True)
    pd = sol.states[0].problem_data
    mon.check(all(s.problem_data == pd for s in got.states), 'problem-data', 'problem parameters', got=got.states[0].problem_data, want=pd)
    for a, b in zip(got.states, sol.states):
        A = np.array(a.grid.p_centers); B = np.array(b.grid.p_centers)
        mon.check(A.shape == B.shape and np.allclose(A, B, rtol=1e-6, atol=1e-7 * np.abs(B).max()), 'mapping', 'physical cell centres', patch=int(a.patch.patch_index))
    iokit.reread(mon, c, f, sol, REL, k, aux=aux, order=True, path='out', file_format='ascii', **kw)
    # reading again gives a solution of its own
    again = pyclaw.Solution(f, path='out', file_format='ascii', **kw)
    again.states[0].q[...] = 42.
    mon.check(all(iokit.eq(a.q, b.q, REL) for a, b in zip(got.states, sol.states)), 'read-alias', 'two solutions read from one file share data')
    if k == 'twice':
        nxt = pyclaw.Solution(f + 1, path='out', file_format='ascii')
        iokit.compare(mon, nxt, other, REL, 'twice-next', order=True)
    # what has been read can be written again
    got.write(f, path='out2', file_format='ascii', write_aux=True)
    third = pyclaw.Solution(f, path='out2', file_format='ascii')
    iokit.compare(mon, third, got, REL, 'again', aux='same', order=True)


def paths(c, mon, sol):
    """the same files through every way to name their place"""
    from clawpack import pyclaw
    os.environ['HOME'] = os.path.abspath('home'); os.environ['VERIF_PLACE'] = os.path.abspath('place')
    how = c['seed'] % 5
    given, real = [('~/a/b', 'home/a/b'), ('$VERIF_PLACE/x', 'place/x'), ('${VERIF_PLACE}', 'place'), ('deep/er/', 'deep/er'), (os.path.abspath('abs'), 'abs')][how]
    sol.write(3, path=given, file_format='ascii', write_aux=True)
    mon.check(os.path.isfile(os.path.join(real, 'fort.q0003')), 'place', 'the files are not where they should be', path=given, there=sorted(os.listdir('.')))
    got = pyclaw.Solution(3, path=given)                # the format is that of the header
    iokit.compare(mon, got, sol, REL, 'place-header', order=True)
    for kw in (dict(), dict(file_prefix=None), dict(file_prefix='fort')):
        got = pyclaw.Solution(3, path=given, file_format='ascii', **kw)
        iokit.compare(mon, got, sol, REL, 'place', order=True)
        if c['maux']:
            aux = os.path.join(real, 'fort.a0003')
            os.rename(aux, 'aside')           # not asked for, so not missed
            got = pyclaw.Solution(3, path=given, file_format='ascii', read_aux=False, **kw)
            os.rename('aside', aux)
            mon.check(all(np.array_equal(a.q, b.q, equal_nan=True) or iokit.eq(a.q, b.q, REL) for a, b in zip(got.states, sol.states)), 'place-q', 'q without aux')
            mon.count('without_aux')


def forest(c, mon):
    """frames of ForestClaw (patches with block number and rank), between ordinary ones"""
    from clawpack import pyclaw
    for n, step in enumerate(c['steps']):
        sol = iokit.build(c, n)
        if step != 'plain':
            from clawpack import forestclaw
            for st, (block, rank) in zip(sol.states, c['blocks']):
                patch = forestclaw.Patch(list(st.patch.dimensions))
                patch.level = st.patch.level; patch.patch_index = st.patch.patch_index
                patch.grid.mapc2p = st.grid.mapc2p
                st.patch = patch
                patch.block_number = block; patch.mpi_rank = rank
            sol.domain = pyclaw.Domain([st.patch for st in sol.states])
        f = c['frame'] + n
        if step == 'forest-foreign':
            write_foreign(c, sol, 'out%d' % n, f, True)
        else:
            if c['seed'] % 3 == 0:
                import copy
                sol = copy.deepcopy(sol)
            sol.write(f, path='out%d' % n, file_format='ascii' if step == 'plain' else 'forestclaw', write_aux=True)
        mon.count('checked'); mon.count(step)
        # frames are read by whoever, also where no ForestClaw frame was written before
        fmts = ['ascii', None] if step == 'plain' else ['forestclaw', 'forestclaw'] if step == 'forest-foreign' else ['forestclaw', None]
        for fmt in fmts:
            got = pyclaw.Solution(f, path='out%d' % n, **({'file_format': fmt} if fmt else {}))
            iokit.compare(mon, got, sol, REL, step, order=True)
            if step != 'plain':
                mon.check([(s.patch.block_number, s.patch.mpi_rank) for s in got.states] == [tuple(b) for b in c['blocks']], step + '-blocks', 'block numbers and ranks of the patches',
                          got=[(s.patch.block_number, s.patch.mpi_rank) for s in got.states], want=c['blocks'])


def write_foreign(c, sol, path, f, forest=False):
    """the files of the Fortran packages: more digits, a few values per line, older headers"""
    os.mkdir(path)
    fn = lambda ch: os.path.join(path, 'fort.%s%04d' % (ch, f))
    def num(x):
        return '%26.16e' % x
    head = ['%s    time' % num(c['t']), '%6d                 meqn' % c['meqn'], '%6d                 ngrids' % len(sol.states),
            '%6d                 naux' % c['maux'], '%6d                 ndim' % c['nd'], '%6d                 nghost' % 2, ('ascii' if not forest or c['seed'] % 2 else 'forestclaw') + '                 file_format']
    open(fn('t'), 'w').write('\n'.join(head[:c['header']]) + '\n')
    for ch, attr in (('q', 'q'), ('a', 'aux')):
        if ch == 'a' and not c['maux']:
            continue
        with open(fn(ch), 'w') as out:
            for s in sol.states:
                out.write('%6d                 grid_number\n%6d                 AMR_level\n' % (s.patch.patch_index, s.patch.level))
                if forest:
                    out.write('%6d                 block_number\n%6d                 mpi_rank\n' % (s.patch.block_number, s.patch.mpi_rank))
                for d in s.patch.dimensions:
                    out.write('%6d                 m%s\n' % (d.num_cells, d.name))
                for d in s.patch.dimensions:
                    out.write('%s    %slow\n' % (num(d.lower), d.name))
                for d in s.patch.dimensions:
                    out.write('%s    d%s\n' % (num(d.delta), d.name))
                out.write('\n')
                v = getattr(s, attr)
                n = v.shape[1:] + (1,) * (3 - c['nd'])
                v = v.reshape((v.shape[0],) + n, order='F')
                for k in range(n[2]):
                    for j in range(n[1]):
                        for i in range(n[0]):
                            x = [num(y) for y in v[:, i, j, k]]
                            for a in range(0, len(x), c['perline']):
                                out.write(' '.join(x[a:a + c['perline']]) + '\n')
                        if c['nd'] > 1:
                            out.write('\n')
                    if c['nd'] > 2:
                        out.write('\n')
