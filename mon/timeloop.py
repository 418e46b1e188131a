"""Workloads for the time-stepping loop: a linear system whose wave speeds change
with time (through the aux array), so that the adaptive loop accepts, rejects
and re-sizes steps; every attempted step is an event."""
import numpy as np
from . import kit, scheme, sharp
from .synth import SynthRP

KINDS = ['classic1', 'classic1py', 'classic2', 'classic2u', 'classic3', 'sharp1-SSP104', 'sharp1-SSP33', 'sharp1py-SSP104',
         'sharp2-SSP104', 'sharp1-RK', 'sharp1-SSP22', 'sharp1-Euler', 'sharp1-SSPLMMk2', 'sharp1-SSPLMMk3', 'sharp2-SSPLMMk2']


def case(rng, which):
    c = dict(solver=which, seed=rng.randrange(1 << 30), tscale=rng.choice([1e-9, 1e-4, 1., 1., 1., 1e5]),
             t0=rng.choice([0., 0., 0., 1., -3., 50.]), growth=rng.choice([0., 1., 6., 6.]),
             dt0=rng.choice([.05, .3, 2., 20.]), still=rng.random() < .06)
    return c


class Run(object):
    """builds solver + solution; solver.dt etc. may be changed by the caller before evolving"""
    def __init__(self, c, mon):
        self.c = c; self.mon = mon
        name, _, ti = c['solver'].partition('-')
        nd = int(name.strip('classichrpyu'))
        self.sharp = name.startswith('sharp'); self.py = name.endswith('py'); self.nd = nd; self.ti = ti
        n = {1: [12], 2: [6, 5], 3: [3, 4, 3]}[nd]
        meqn = 2
        ts = c['tscale']
        upper = [1. * ts, 1.3 * ts, .7 * ts][:nd]      # speeds are O(1): lengths scale like times
        rp = SynthRP(nd, meqn, meqn, 1, c['seed'], 'color', False, speed=0. if c['still'] else 1.)
        self.rp = rp
        r = np.random.RandomState(c['seed'])
        sol = kit.solution(n, meqn, 1, c['seed'] + 1, lower=[0.] * nd, upper=upper)
        base = rp.normal
        g = c['growth']
        self.speeds = []

        def normal(d, ql, qr, al, ar):
            w, s, am, ap = base(d, ql, qr, np.zeros_like(al), np.zeros_like(ar))
            f = .5 * (al[0] + ar[0])
            self.speeds.append((d, float(np.abs(s * f[None])[:, :].max()), float(np.abs(s * f[None]).max())))
            return w, s * f[None], am * f[None], ap * f[None]
        rp.normal = normal
        if self.sharp:
            s = kit.SHARP[nd](); s.time_integrator = ti
            if ti == 'RK':
                s.a = np.array([[0., 0], [.5, 0]]); s.b = np.array([0., 1.]); s.c = np.array([0., .5])
            s.lmm_steps = 4
            if ti == 'LMM':
                s.alpha = np.array([0., 0., 0., 1.]); s.beta = np.array([-9., 37., -59., 55.]) / 24
            s.call_before_step_each_stage = bool(c.get('stage'))
            if ti in ('SSP22', 'SSP33', 'RK', 'Euler', 'LMM'):
                s.cfl_max = .6; s.cfl_desired = .5
        else:
            s = kit.CLASSIC[nd]()
            if nd > 1:
                s.dimensional_split = not name.endswith('u')
                if not s.dimensional_split:
                    s.transverse_waves = 0
            s.limiters = 4
            s.cfl_max = .5 if nd > 1 and not s.dimensional_split else 1.
            s.cfl_desired = .9 * s.cfl_max
        s.rp = rp; s.num_eqn = meqn; s.num_waves = meqn; s.fwave = False
        if self.py:
            s.kernel_language = 'Python'
        kit.set_bcs(s, [2] * nd, [2] * nd)
        self.s = s; self.sol = sol
        self.dx = list(sol.domain.grid.delta)
        smax = max(1e-3, max(float(np.abs(l).max()) for l in rp.lam)) if not c['still'] else 1.
        self.unit = min(self.dx) / (smax if smax > 1e-3 else 1.) / 1.5
        if self.sharp and 'LMM' in ti:
            self.unit *= .2
        sol.t = c['t0'] * self.unit * 10
        self.events = []
        s.before_step = self.before
        self.t00 = sol.t

    def speed_at(self, t):
        x = (t - self.t00) / (60 * self.unit)
        if self.c.get('stage'):      # the waves become faster within a step
            return 1. + self.c['growth'] * np.sin(self.c['stage'] * (t - self.t00) / self.unit) ** 2
        return 1. + self.c['growth'] * np.sin(1.5 * x) ** 2

    def before(self, solver, state):
        if state is not self.sol.state:
            if self.c.get('stage'):
                state.aux[0] = self.speed_at(state.t)
            return
        self.close()
        state.aux[0] = self.speed_at(state.t)
        self.open = dict(t=state.t, q=np.array(state.q), ns=len(self.speeds))
        self.events.append(self.open)

    open = None

    def close(self):
        """an attempt ends when the next one starts or the call returns"""
        e = self.open
        if e is None:
            return
        self.open = None
        e['t1'] = self.sol.t; e['dt'] = self.s.dt; e['cfl'] = float(self.s.cfl.get_cached_max())
        e['accepted'] = self.sol.t != e['t']
        sp = self.speeds[e['ns']:]
        e['cfl_ind'] = max([m * e['dt'] / self.dx[d] for d, _, m in sp] or [0.])
        e['q1'] = np.array(self.sol.state.q)
