import os, sys
import numpy as np
from .. import sanbuild
ID = 'C21'; LEVEL = 'exploration'
RULE = ('one case = one run of the compiled kernels, built with array bounds checks, AddressSanitizer, NaN-filled heap and NaN-initialised locals: random Riemann solvers '
        '(every state handed to them must be finite, every step is compared with the reference model) or real systems with repeated setup, several solvers and '
        'changing grid sizes; a report of the sanitizer ends the case and is a violation; non-trivial when instrumented modules did the steps')
ASSUMPTIONS = ['accesses inside one array but outside of a sub-array passed with explicit shape are seen only as far as the declared shapes tell',
               'the Riemann solvers of clawpack.riemann are not instrumented']
PRELOAD = 'libasan.so'
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:free_fill_byte=255:max_free_fill_size=1073741824:'
                       'abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:quarantine_size_mb=64'}
TIMEOUT = 160
LIBS = {}


def prepare(base, tier):
    d = os.path.join(base, 'san'); os.mkdir(d)
    LIBS.update(sanbuild.build_all(d))
    bad = [n for n, p in LIBS.items() if not sanbuild.instrumented(p)]
    if bad:
        raise RuntimeError('not instrumented: %s' % bad)
    sanbuild.install(LIBS)


def cases(rng, tier):
    from .. import scheme, sharp, ctrl
    from . import c08
    k = {'quick': 1, 'thorough': 14}[tier]
    out = []
    for nd, m in ((1, 16), (2, 16), (3, 10)):
        for _ in range(m * k):
            c = scheme.common(rng, nd, kernel='Fortran')
            if nd > 1:
                c['split'] = rng.random() < .35
                c['trans'] = 0 if c['split'] else rng.choice([0, 1, 2] if nd == 2 else [0, 10, 11, 20, 21, 22])
            c['kind'] = 'classic%d' % nd; out.append(c)
        for v in c08.variants(nd):
            if v.get('kernel') == 'Python' or (nd == 3 and v.get('weno_order', 5) > 9 and tier == 'quick'):
                continue
            for _ in range((3 if nd < 3 else 1) * k):
                c = sharp.common(rng, nd, **v); c['kind'] = 'sharp%d' % nd; out.append(c)
                if nd == 3:
                    c['n'][len(out) % 3] = max(c['n']) + 2 * c['ng'] + 2      # the work arrays have that much to spare
    for _ in range(30 * k):
        out.append(dict(kind='systems', probs=[ctrl.problem(rng) for _ in range(rng.choice([1, 2, 3]))], seed=rng.randrange(1 << 30)))
    return out


def used(s, mon):
    f = getattr(s, 'fmod', None)
    if f is not None and getattr(f, '__file__', None) in LIBS.values():
        mon.count('instrumented')


def run(c, mon):
    from .. import scheme, sharp, synth, ctrl
    mon.need('instrumented')
    from clawpack import pyclaw
    seen = set()
    for cls in (pyclaw.ClawSolver1D, pyclaw.ClawSolver2D, pyclaw.ClawSolver3D, pyclaw.SharpClawSolver1D, pyclaw.SharpClawSolver2D, pyclaw.SharpClawSolver3D):
        for k in cls.__mro__:
            if 'step' in vars(k) and k not in seen and k.__module__ != 'clawpack.pyclaw.solver':
                seen.add(k)
                def wrap(orig):
                    def step(self, *a, **kw):
                        used(self, mon)
                        return orig(self, *a, **kw)
                    return step
                k.step = wrap(k.step)
    init = synth.SynthRP.__init__

    def with_monitor(self, *a, **kw):
        init(self, *a, **kw)
        self.on_normal = finite
    def finite(d, L, R):
        mon.count('states_seen', L.shape[1])
        if not mon.events['nonfinite_reported'] and not (np.isfinite(L).all() and np.isfinite(R).all()):
            mon.count('nonfinite_reported')
            mon.fail('undefined', 'a state that was never set reached the Riemann solver', direction=d,
                     left=[int(i) for i in np.unique(np.argwhere(~np.isfinite(L))[:, 1])][:6], right=[int(i) for i in np.unique(np.argwhere(~np.isfinite(R))[:, 1])][:6], of=L.shape[1])
    synth.SynthRP.__init__ = with_monitor
    if c['kind'].startswith('classic'):
        scheme.run_case(c, mon)
    elif c['kind'].startswith('sharp'):
        sharp.run_space(c, mon, tol={5: 1e-8, 7: 1e-7, 9: 1e-7}.get(c['weno_order'], 1e-6))
    else:
        live = []
        for p in c['probs']:
            live.append(ctrl.build(p))
        for n in range(3):
            for s, sol, unit in live:
                s.evolve_to_time(sol, sol.t + .8 * unit)
                mon.count('decisions')
                mon.check(np.isfinite(sol.state.q).all() and np.isfinite(s.cfl.get_cached_max()), 'finite', 'a run on well-behaved data is not finite')
            if n == 0:
                x = live.pop(0); live.append(x)
            if n == 1 and len(live) > 1:
                del live[0]
