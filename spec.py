"""Source of properties.jsonl and MANIFEST.json:  python3 spec.py"""
import json

T = ('runtime monitoring: ')
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=T + technique, note=note, observe=observe or []))


SOLVERS = ['src/pyclaw/solver.py', 'src/pyclaw/classic/solver.py', 'src/pyclaw/sharpclaw/solver.py']
CLASSIC_F = ['src/pyclaw/classic/step1.f90', 'src/pyclaw/classic/step2ds.f90', 'src/pyclaw/classic/step2.f90',
             'src/pyclaw/classic/step3ds.f90', 'src/pyclaw/classic/step3.f90', 'src/pyclaw/classic/flux2.f90', 'src/pyclaw/classic/flux3.f90']
SHARP_F = ['src/pyclaw/sharpclaw/flux1.f90', 'src/pyclaw/sharpclaw/flux2.f90', 'src/pyclaw/sharpclaw/flux3.f90',
           'src/pyclaw/sharpclaw/reconstruct.f90', 'src/pyclaw/sharpclaw/weno.f90']

prop('C01', 'Conserved quantities are conserved on closed domains',
     'For a system of conservation laws on a periodic domain the integral of every conserved quantity (weighted with the capacity function, '
     'if there is one) stays what it was, up to rounding, after every step of every solver. With solid walls the same holds for the '
     'quantities whose flux through a wall vanishes (mass, energy, pressure of linear acoustics).',
     ['inputs', 'configurations'], 'every initial state, grid, capacity field, limiter, reconstruction, dimension and step size',
     'Regression tests compare a few runs with stored answers; none sums the solution, and a lost or doubled flux at one interface, ghost line or '
     'capacity cell of another configuration passes them.',
     SOLVERS + CLASSIC_F + SHARP_F, [('flux-difference updates of both sides of an interface', 'src/pyclaw/classic/*.f*, src/pyclaw/sharpclaw/flux1.f90')],
     'conservation monitor on every step of the real solvers, under real and random nonlinear flux functions (callbacks from the Fortran kernels)',
     'Held on every monitored step of the generated runs; tolerance 1e-11.', ['state q after every step'])
prop('C02', 'Constant states stay constant',
     'A spatially constant solution of a homogeneous system is left unchanged by every solver, for any step size, limiter, reconstruction, '
     'capacity function and boundary condition that continues the constant. In particular no value turns into NaN where neighbouring cells are equal.',
     ['inputs', 'configurations'], 'every constant (any magnitude, zero included), every solver option and grid',
     'Tests start from a handful of fixed profiles; flat data with each limiter and reconstruction, where the divisions are 0/0, are not sampled.',
     SOLVERS + CLASSIC_F + SHARP_F + ['src/pyclaw/limiters/tvd.py', 'src/pyclaw/limiters/recon.py'],
     [('guards against zero wave strength and zero jumps', 'src/pyclaw/classic/limiter.f90, src/pyclaw/limiters/*.py, src/pyclaw/sharpclaw/reconstruct.f90')],
     'invariant monitor on every step of the real solvers with constant data', 'Held on every monitored step; tolerance 1e-11.', ['state q after every step'])
prop('C03', 'Advancing in time: arrives exactly, within limits, and reports truthfully',
     'Advancing a solution to a time ends at that time (or raises because the step limit or the Courant limit cannot be met), never overshoots, '
     'and leaves the solution alone if the time lies in the past; asking for a single step takes exactly one. Every accepted step respects the '
     'maximum Courant number and step size, a rejected one is retried from the same time with a smaller step, and fixed-step runs use exactly the '
     'given step. The returned status tells the number, the smallest and the largest of the steps taken and their largest Courant number, and user settings survive.',
     ['histories', 'configurations'], 'every sequence of requests, time scale, step limit, Courant limit and evolution of wave speeds',
     'Tests advance to one final time with default limits; sequences of requests, rejected steps near limits and unusual time scales are not exercised.',
     SOLVERS, [('time-stepping loop and step-size control', 'src/pyclaw/solver.py:evolve_to_time, get_dt'), ('SharpClaw step-size control', 'src/pyclaw/sharpclaw/solver.py:get_dt_new, accept_reject_step')],
     'online checker of the attempted/accepted/rejected step trace of random request histories', 'Held on the generated histories.', ['user hook called before each attempt', 'returned status'])
prop('C04', 'A rejected step leaves no trace',
     'When an adaptive run rejects a step, the solution is exactly what it was before the attempt, whatever user hooks, source terms, boundary '
     'conditions and stages did in between. Every accepted step is the one an unused solver would take from the same data with the same step size.',
     ['fault_sequences', 'histories', 'inputs'], 'every run, every attempt that is rejected, every combination of hooks',
     'No test provokes a rejection; the default step choice avoids them.',
     SOLVERS, [('backup and restore around an attempt', 'src/pyclaw/solver.py:evolve_to_time')],
     'trace monitor with injected rejections; each accepted step is replayed by a fresh solver', 'Held on the generated runs (including injected rejections); bitwise for the classic solvers.')
prop('C05', 'The 1D wave-propagation step is the documented scheme',
     'In one dimension each classic step equals the first-order fluctuation update plus, for second order, the limited correction '
     'fluxes of the wave-propagation method, in both kernel languages, with and without capacity function, f-waves, aux data and any limiter per wave family.',
     ['inputs', 'configurations'], 'every Riemann solver output (including waves unrelated to the fluctuations), data, limiter list, boundary condition and grid size',
     'Tests compare a few smooth problems with stored norms; wrong limiter indices, shifted capacity values or wrong wave families in untested options pass.',
     ['src/pyclaw/classic/solver.py', 'src/pyclaw/classic/step1.f90', 'src/pyclaw/classic/limiter.f90', 'src/pyclaw/limiters/tvd.py'],
     [('step1 / Python kernel', 'src/pyclaw/classic/step1.f90, src/pyclaw/classic/solver.py:step_hyperbolic')],
     'reference-model monitor: every step of the real kernels against an independent model, with random Riemann solvers called back from Fortran', 'Held on the generated steps; tolerance 1e-9.')
prop('C06', 'The 2D wave-propagation step is the documented scheme',
     'In two dimensions each classic step (dimensionally split, or unsplit with no, first- or second-order transverse correction) equals the wave-propagation '
     'update built from normal and transverse Riemann solutions, for any order, limiter, f-waves, capacity function, aux data and non-square grid.',
     ['inputs', 'configurations'], 'every normal and transverse Riemann solver output, data, option and grid shape',
     'As for one dimension; transverse terms with aux and capacity are hardly touched by the stored answers.',
     ['src/pyclaw/classic/solver.py', 'src/pyclaw/classic/step2.f90', 'src/pyclaw/classic/step2ds.f90', 'src/pyclaw/classic/flux2.f90'],
     [('2D sweeps', 'src/pyclaw/classic/step2*.f90, flux2.f90')], 'reference-model monitor as in C05', 'Held on the generated steps; tolerance 1e-9.')
prop('C07', 'The 3D wave-propagation step is the documented scheme',
     'In three dimensions each classic step (split or unsplit with every level of transverse correction) equals the wave-propagation update built from normal, '
     'transverse and double-transverse Riemann solutions, for any order, limiter, f-waves, capacity function, aux data and non-cubic grid.',
     ['inputs', 'configurations'], 'every Riemann solver output, data, option and grid shape',
     'Three-dimensional tests are few and compare stored norms of one configuration each.',
     ['src/pyclaw/classic/solver.py', 'src/pyclaw/classic/step3.f90', 'src/pyclaw/classic/step3ds.f90', 'src/pyclaw/classic/flux3.f90'],
     [('3D sweeps', 'src/pyclaw/classic/step3*.f, flux3.f90')], 'reference-model monitor as in C05', 'Held on the generated steps; tolerance 1e-9.')
prop('C08', 'The method-of-lines right-hand side is the documented discretisation',
     'SharpClaw evaluates, in every cell, the fluctuations at both edges plus the total fluctuation inside the cell, all from edge values of the chosen '
     'reconstruction (WENO of order 5 to 17, TVD, component- or wave-wise), divided by cell size and capacity, in one to three dimensions and both kernel languages.',
     ['inputs', 'configurations'], 'every Riemann and total-fluctuation solver, data, reconstruction, boundary condition and (non-square) grid',
     'Stored norms exist for WENO5 on few problems; the generated high-order code, TVD options, capacity and non-square grids are not compared with anything.',
     ['src/pyclaw/sharpclaw/solver.py', 'src/pyclaw/limiters/recon.py'] + SHARP_F,
     [('flux1/2/3 and reconstruction', 'src/pyclaw/sharpclaw/*.f90')],
     'reference-model monitor: Euler steps against an independent semi-discretisation with WENO coefficients from rational arithmetic', 'Held on the generated steps; tolerance 1e-8 to 1e-6 by order.')
prop('C09', 'Time integrators take the steps their formulas prescribe',
     'Every accepted method-of-lines step is the step of the selected integrator (Euler, SSP, general Runge-Kutta, linear multistep with variable steps and its '
     'starting procedure), with stage times, sources, boundary values and per-stage user calls where the method puts them. This holds at start-up, after rejected steps and across several calls.',
     ['histories', 'configurations', 'inputs'], 'every integrator and tableau, step history, source, boundary and hook',
     'Convergence tests cover default integrators without sources; a stage time or a history slot off by one changes stored norms little or not at all.',
     ['src/pyclaw/sharpclaw/solver.py'], [('step, ssp104, update_saved_values', 'src/pyclaw/sharpclaw/solver.py')],
     'offline checker of the recorded step history against the integrator formulas', 'Held on the generated histories; tolerance 1e-8.')
prop('C11', 'Source terms act over exactly each step, in the right order',
     'With a source term each accepted classic step consists of one hyperbolic step and the source applied over exactly the step: after it for first-order '
     'splitting, half before and half after for second-order splitting. No accepted step skips or repeats a part, even when its Courant number equals the limit.',
     ['histories', 'inputs', 'configurations'], 'every source, step size sequence, splitting and dimension',
     'Two example problems use sources, with one splitting each and Courant numbers away from the limit.',
     ['src/pyclaw/classic/solver.py', 'src/pyclaw/solver.py'], [('fractional step', 'src/pyclaw/classic/solver.py:step')],
     'trace checker over the recorded source and hyperbolic substeps', 'Held on the generated runs.')

NA = []


def main():
    import importlib.util, os
    here = os.path.dirname(os.path.abspath(__file__))
    try:
        exec(open(os.path.join(here, 'spec_more.py')).read(), globals())
    except FileNotFoundError:
        pass
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                                 observe_at=p['observe'], hook_needed=None))) + '\n')
    na = {n['property'] for n in NA}
    m = dict(version=1, setup_cmd='bash ./setup.sh',
             checks=[dict(property=p['id'], quick_cmd='VERIF_TIER=quick ./check.sh ' + p['id'],
                          thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'], technique=p['technique'], level='exploration',
                          level_note=p['note'], evidence_file='evidence/%s.json' % p['id']) for p in P if p['id'] not in na],
             not_applicable=NA)
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1); f.write('\n')


main()
