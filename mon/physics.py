"""Conservation laws solved with the Riemann solvers of clawpack.riemann."""
import numpy as np


def euler(nd):
    def init(r, n, f):
        q = np.zeros((nd + 2,) + n)
        rho = 1 + .4 * f(); p = 1 + .4 * f()
        q[0] = rho
        ke = 0
        for d in range(nd):
            u = .6 * f(); q[1 + d] = rho * u; ke = ke + .5 * rho * u ** 2
        q[nd + 1] = p / .4 + ke
        return q
    return init, dict(gamma=1.4, gamma1=.4, efix=True), [0, nd + 1]


def shallow(nd):
    def init(r, n, f):
        q = np.zeros((nd + 1,) + n)
        h = 1 + .4 * f(); q[0] = h
        for d in range(nd):
            q[1 + d] = h * .5 * f()
        return q
    return init, dict(grav=1.0, dry_tolerance=1e-3, sea_level=0., efix=True), [0]


def acoustics(nd):
    def init(r, n, f):
        return np.array([f() for _ in range(nd + 1)])
    return init, dict(rho=1.3, bulk=2.1, zz=(1.3 * 2.1) ** .5, cc=(2.1 / 1.3) ** .5), [0]


def scalar(lo=-1., hi=1., **pd):
    def init(r, n, f):
        return lo + (hi - lo) * .5 * (1 + f())[None]
    return init, pd, []


# name -> (dimension, conserved with walls, transverse solver usable)
SYSTEMS = {
    'advection_1D': (1, scalar(u=-.8)), 'acoustics_1D': (1, acoustics(1)), 'burgers_1D': (1, scalar(efix=True)),
    'euler_with_efix_1D': (1, euler(1)), 'euler_hlle_1D': (1, euler(1)), 'shallow_roe_with_efix_1D': (1, shallow(1)),
    'shallow_hlle_1D': (1, shallow(1)), 'traffic_1D': (1, scalar(0., 1., umax=1., efix=True)),
    'advection_2D': (2, scalar(u=.7, v=-.4)), 'acoustics_2D': (2, acoustics(2)), 'burgers_2D': (2, scalar()),
    'euler_4wave_2D': (2, euler(2)), 'euler_hlle_2D': (2, euler(2)), 'shallow_roe_with_efix_2D': (2, shallow(2)),
    'shallow_hlle_2D': (2, shallow(2)), 'kpp_2D': (2, scalar()),
    'euler_3D': (3, euler(3)), 'vc_acoustics_3D': (3, acoustics(3)),
    'advection_1D_py': (1, scalar(u=.9)), 'acoustics_1D_py': (1, acoustics(1)), 'burgers_1D_py': (1, scalar(efix=True)),
    'euler_1D_py.euler_roe_1D': (1, euler(1)), 'euler_1D_py.euler_hll_1D': (1, euler(1)),
    'shallow_1D_py.shallow_roe_1D': (1, shallow(1)), 'shallow_1D_py.shallow_hll_1D': (1, shallow(1)),
}
# with walls: the Riemann solver is symmetric for mirrored states only in these
NO_WALLS = {'euler_hlle_1D', 'euler_hlle_2D'}
# no transverse Riemann solver of their own
NO_TRANSVERSE = {'kpp_2D', 'euler_hlle_2D', 'shallow_hlle_2D'}
WAVES = {'euler_hll_1D': 2, 'shallow_hll_1D': 2}


def field(r, n):
    """a random field of modulus at most 1, smooth or with jumps"""
    X = np.meshgrid(*[(np.arange(k) + .5) / k for k in n], indexing='ij')
    def f():
        g = np.zeros(n)
        for _ in range(2):
            k = [r.randint(0, 3) for _ in n]
            g += r.uniform(-1, 1) * np.cos(2 * np.pi * sum(a * b for a, b in zip(k, X)) + r.uniform(0, 6.3))
        if r.rand() < .6:
            box = np.ones(n, dtype=bool)
            for x in X:
                a, b = sorted(r.uniform(0, 1, 2)); box &= (x > a) & (x < b)
            g += r.uniform(-1, 1) * box
        return g / max(1., np.abs(g).max())
    return f


def load(name):
    from clawpack import riemann
    mod, _, fn = name.partition('.')
    m = getattr(riemann, mod)
    if fn:
        return getattr(m, fn)
    if mod.endswith('_py'):
        return getattr(m, mod[:-3])
    return m
