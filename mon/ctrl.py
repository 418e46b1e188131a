"""Controller runs and their twins (the same problem advanced directly, without a controller)."""
import copy, os, random, re
import numpy as np
from . import kit, systems

CASES = {1: ['acoustics_1D', 'advection_1D', 'euler_with_efix_1D', 'synth1'], 2: ['acoustics_2D', 'euler_4wave_2D', 'synth2'], 3: ['vc_acoustics_3D', 'synth3']}


def problem(rng, nd=None, aux=None):
    nd = nd or rng.choice([1, 1, 2, 2, 3])
    name = rng.choice(CASES[nd])
    v = [x for x in systems.variants(nd) if x not in ('sharp-wave',)]
    c = dict(system=name, variant=rng.choice(v), n=[rng.choice([6, 7, 9]) if nd > 1 else rng.choice([10, 17]) for _ in range(nd)],
             bc=[rng.choice(['periodic', 'extrap']) for _ in range(nd)], seed=rng.randrange(1 << 30), capa=0,
             maux=0, meqn=2, mode='linear', mwaves=2)
    if nd == 3:
        c['n'] = [rng.choice([4, 5, 6]) for _ in range(3)]
    if name.startswith('synth'):
        c['maux'] = rng.choice([0, 2]); c['capa'] = rng.choice([0, 1])
    elif name == 'vc_acoustics_3D':
        c['maux'] = 0
    c['t0'] = rng.choice([0., 0., .37, -1.25])
    c['dt0'] = rng.choice([.1, .5, 3.])
    return c


def build(c):
    s, sol = systems.make(c)
    sol.t = c['t0']
    unit = min(sol.domain.grid.delta) / 2.
    s.dt_initial = c['dt0'] * unit
    s.max_steps = 10000
    return s, sol, unit


def snap(sol):
    return dict(t=float(sol.t), q=np.array(sol.state.q), aux=None if sol.state.aux is None else np.array(sol.state.aux))


def same(mon, a, b, key, msg, tol=None, **kw):
    """two snapshots agree bitwise, or to tol relative to the largest value"""
    if tol is None:
        ok = a['t'] == b['t'] and a['q'].shape == b['q'].shape and np.array_equal(a['q'], b['q'])
        d = None
        if not ok and a['q'].shape == b['q'].shape:
            d = float(np.abs(a['q'] - b['q']).max())
        return mon.check(ok, key, msg, t=(a['t'], b['t']), maxdiff=d, **kw)
    mon.close(a['t'], b['t'], tol, key, msg + ' (time)', scale=max(abs(b['t']), 1e-300), **kw)
    sc = np.maximum(np.abs(b['q']), 1e-250)
    return mon.close(a['q'], b['q'], tol, key, msg, scale=sc if a['q'].shape == b['q'].shape else None, **kw)


def frames_on_disk(path, fmt, prefix=None):
    """frame numbers present in the directory"""
    pre = re.escape(prefix or {'ascii': 'fort', 'hdf5': 'claw'}[fmt])
    pat = {'ascii': pre + r'\.q(\d{4,})$', 'hdf5': pre + r'(\d{4,})\.hdf$'}[fmt]
    if not os.path.isdir(path):
        return []
    return sorted(int(m.group(1)) for m in (re.match(pat, f) for f in os.listdir(path)) if m)


def aux_on_disk(path, prefix=None):
    pre = re.escape(prefix or 'fort')
    return sorted(int(m.group(1)) for m in (re.match(pre + r'\.a(\d{4,})$', f) for f in os.listdir(path)) if m)
