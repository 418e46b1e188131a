import numpy as np
from .. import timeloop
ID = 'C03'; LEVEL = 'exploration'
RULE = ('one case = one solver driven through a random history of advance-to-time and single-step requests (repeated, past, tiny and '
        'huge targets, step limits, fixed and adaptive steps, time scales from 1e-9 to 1e5) while the wave speeds change; an online '
        'checker follows every attempted step')
ASSUMPTIONS = ['the Courant number itself is decided by C23; here the reported one decides acceptance, and for the classic solvers an '
               'independently computed one has to agree with it']
ULP = 4 * np.finfo(float).eps


def cases(rng, tier):
    out = []
    reps = 10 if tier == 'quick' else 60
    for w in timeloop.KINDS + ['sharp1-LMM']:
        for i in range(reps):
            for fixed in (False, False, True) if w != 'sharp1-LMM' else (True,):
                c = timeloop.case(rng, w)
                if w.startswith('sharp') and rng.random() < (.3 if w != 'sharp1-LMM' else .6):
                    c['stage'] = rng.choice([.2, 1., 5.])
                c['fixed'] = fixed
                c['onlymax'] = rng.choice([None, None, 1., .5])
                h = []
                for _ in range(rng.choice([3, 5, 8])):
                    h.append(rng.choice([['to', round(rng.uniform(.3, 9), 2)], ['to', round(rng.uniform(.3, 9), 2)],
                                         ['to', round(rng.uniform(5, 30), 2)], ['one'], ['same'], ['past'], ['to', 1e-6],
                                         ['limit', rng.choice([1, 2, 3, 7])], ['onelim', rng.choice([1, 1, 2])]]))
                if fixed:
                    h = [['to', max(1, int(x[1]))] if x[0] == 'to' else x for x in h]
                    h = [x if x[0] not in ('limit', 'onelim') else
                         ['odd', rng.choice([2.5, 1.4, 3 * (1 + 10. ** rng.uniform(-4.4, -2)), 40 * (1 - 10. ** rng.uniform(-4.4, -2.2))])] for x in h]
                    if c['growth'] and rng.random() < .7:
                        c['growth'] = 0.
                    if rng.random() < .1:
                        h.append(['to', 40000 if 'classic1' == w else 40])
                    elif w in ('classic1', 'classic1py', 'sharp1-Euler') and rng.random() < .5:
                        h.append(['to', 1500])
                c['hist'] = h
                c['dtmax'] = rng.choice([None, None, .4, 1.3])
                if c['tscale'] == 1e5:
                    c['t0'] = 0.
                if rng.random() < .25 and not fixed:
                    # every step size lies below the limit
                    c['dtmax'] = .1
                    # targets a little beyond a whole number of largest steps
                    h.insert(rng.randrange(len(h) + 1), ['sliver', rng.choice([3, 10]), 10. ** rng.uniform(-9, -3)])
                    h.append(['sliver', 4, 10. ** rng.uniform(-6, -4)])
                elif not fixed and rng.random() < .3:
                    h.insert(0, ['onelim', rng.choice([1, 1, 2])])
                    c['dt0'] = 20.; c['dtmax'] = None
                if fixed:
                    h.insert(rng.randrange(len(h) + 1), ['almost', rng.choice([1, 2, 5]), rng.choice([-1, 1]) * 10. ** rng.uniform(-10, -5.1)])
                if fixed and rng.random() < .5:
                    # the limit moved to just below (just above) the Courant number of the steps
                    h.append(['to', 2])
                    h.append(['edge', -10. ** rng.uniform(-9, -2)])
                    h.append(['edge', 10. ** rng.uniform(-9, -2)])
                if fixed and 'LMM' not in w and rng.random() < .5:
                    # the user changes the step size between two calls
                    h.insert(rng.randrange(1, len(h)), ['newdt', rng.choice([.5, .71, .25])])
                    h.append(['to', 2])
                c['wide'] = w == 'classic2u' and rng.random() < .5
                if not fixed:
                    c['near'] = rng.choice([None, None, None, 1e-6, 1e-4, 1e-3])
                c['kind'] = w + ('-fixed' if fixed else '')
                out.append(c)
    return out


def run(case, mon):
    R = timeloop.Run(case, mon)
    s, sol, u = R.s, R.sol, R.unit
    fixed = case['fixed']
    s.dt_variable = not fixed
    s.dt = s.dt_initial = case['dt0'] * u if not fixed else .3 * u
    if case['dtmax'] and not fixed:
        s.dt_max = case['dtmax'] * u
        if case['seed'] % 2:          # otherwise the first step size is maybe larger than allowed
            s.dt = s.dt_initial = min(s.dt, s.dt_max)
    if not fixed and case['still']:
        s.dt_max = min(s.dt_max, 5 * u)
        if case['seed'] % 2:
            s.dt = s.dt_initial = min(s.dt, s.dt_max)
    if case.get('near') and s.cfl_max:
        s.cfl_desired = s.cfl_max * (1 - case['near'])
    if case['wide']:
        s.cfl_max = .9; s.cfl_desired = .8       # the user knows better
    s.max_steps = 400
    # what the user leaves open is set by the solver
    expect = {}
    if R.sharp and s.cfl_max is None:
        if case.get('onlymax'):
            s.cfl_max = case['onlymax'] * {'SSP104': 2.4, 'SSPLMMk2': .1, 'SSPLMMk3': .16}[R.ti]; s.cfl_desired = None
            expect = dict(cfl_max=s.cfl_max, cfl_desired=.9 * s.cfl_max)
        else:
            a, b = {'SSP104': (2.45, 2.5), 'SSPLMMk2': (.14 * 2 / 3, .15 * 2 / 3), 'SSPLMMk3': (.48 / 3, .5 / 3)}[R.ti]
            expect = dict(cfl_max=b, cfl_desired=a if s.cfl_desired is None else s.cfl_desired)
    lmm_eps = 0.
    ssp = {'SSPLMMk2': 2 / 3, 'SSPLMMk3': 1 / 3}.get(R.ti)          # of the methods of four steps

    def limit(n):
        """the Courant number the n-th accepted step may have"""
        if 'LMM' not in R.ti:
            return s.cfl_max
        if n >= s.lmm_steps:
            return None          # the choice of the step keeps a multistep method stable
        return s.cfl_max if R.ti == 'LMM' else s.cfl_max / ssp * (1 + lmm_eps)

    cflmax = -np.inf; nacc = 0; taken = []; fes = []
    dt0 = s.dt
    prev = None
    for op in case['hist']:
        if op[0] == 'newdt':
            dt0 = s.dt = s.dt * op[1]; mon.count('newdt'); continue
        user_max = s.max_steps if op[0] not in ('limit', 'onelim') else op[1]
        s.max_steps = user_max
        t0 = sol.t; q0 = np.array(sol.state.q)
        R.events = []; R.open = None
        must = None
        if op[0] == 'edge':
            if not taken or prev['cfl'] <= 0 or 'LMM' in R.ti:
                continue
            s.cfl_max = prev['cfl'] / (1 + op[1]); s.cfl_desired = .9 * s.cfl_max
            op = ['to', 3]
            mon.count('edges')
        if op[0] == 'to' or op[0] == 'limit':
            n = op[1] if op[0] == 'to' else 30
            tend = t0 + (n * u if not fixed else n * dt0)
        elif op[0] == 'sliver':
            tend = t0 + (op[1] + op[2]) * s.dt_max
        elif op[0] == 'almost':           # within the tolerance of the division
            tend = t0 + op[1] * dt0 * (1 + op[2]); mon.count('almost')
        elif op[0] == 'odd':
            tend = t0 + op[1] * dt0; must = 'dt does not divide'
        elif op[0] == 'same':
            tend = t0
        elif op[0] == 'past':
            tend = t0 - 2.5 * u if not fixed else t0 - 2 * dt0
        else:
            tend = None
        if op == ['to', 40000]:
            user_max = s.max_steps
        given = {k: getattr(s, k) for k in ('cfl_max', 'cfl_desired', 'dt_max', 'dt_initial', 'dt_variable', 'order', 'limiters', 'num_waves') if hasattr(s, k)}
        err = None
        if op == ['to', 40000]:
            s.before_step = None
            s.cfl_max = 1e9; s.cfl_desired = 1e8
        try:
            status = s.evolve_to_time(sol, tend)
        except Exception as e:
            err = str(e)
        if op == ['to', 40000]:
            mon.check(err is None and min(abs(sol.t - tend), abs(sol.t - (t0 + op[1] * dt0))) <= ULP * max(abs(t0), abs(tend)), 'long', 'a long run with fixed steps did not end at the requested time',
                      err=err, t=sol.t, tend=tend, dt=dt0)
            mon.count('long_runs')
            break
        R.close()
        if expect and R.events:
            mon.count('defaults')
            for k, v in expect.items():
                mon.check(abs(getattr(s, k) - v) <= 1e-12 * v, 'defaults', 'a Courant number the user left open is not the documented one', which=k, got=getattr(s, k), expected=v)
            expect = {}
        ev = R.events
        mon.count('attempts', len(ev))
        eps = ULP * max(abs(t0), abs(tend) if tend is not None else 0., abs(sol.t))
        # ---- what every attempt has to satisfy
        for i, e in enumerate(ev):
            last = i == len(ev) - 1
            if not R.sharp:
                mon.check(abs(e['cfl_ind'] - e['cfl']) <= 1e-9 * max(e['cfl'], 1e-30), 'cfl-known',
                          'the Courant number the loop decides on is not that of the attempted step', got=e['cfl'], expected=e['cfl_ind'])
            if e['accepted']:
                nacc += 1; taken.append(e['dt'])
                lmm_eps = 1e-12; lim = limit(nacc)
                cflmax = max(cflmax, e['cfl'])
                if lim is not None:
                    mon.check(e['cfl'] <= lim, 'accept', 'a step with too large a Courant number was accepted', cfl=e['cfl'], cfl_max=lim)
                mon.check(e['dt'] > 0 and abs(e['t1'] - e['t'] - e['dt']) <= max(eps, 1e-12 * e['dt']) + (1e-9 * e['dt'] if fixed else 0), 'advance',
                          'time did not advance by the step size', t=e['t'], t1=e['t1'], dt=e['dt'])
                mon.check(e['dt'] <= s.dt_max * (1 + 1e-12) + 2e-14 * abs(e['t']), 'dtmax', 'a step larger than dt_max was taken', dt=e['dt'], dt_max=s.dt_max)
                if tend is not None:
                    mon.check(e['t1'] <= tend + eps + (1e-5 * (tend - t0) if fixed else 0), 'overshoot', 'a step went past the requested time', t1=e['t1'], tend=tend)
            else:
                mon.count('rejected')
                if not (err and last and 'CFL' in err):
                    lmm_eps = -1e-12; lim = limit(nacc + 1)
                    mon.check(lim is not None and e['cfl'] > lim, 'reject', 'a step was rejected although its Courant number is allowed', cfl=e['cfl'], cfl_max=lim)
                if not fixed:
                    mon.check(np.array_equal(e['q'], e['q1'], equal_nan=True), 'restore', 'a rejected step left its mark on the solution')
                    if not last:
                        n = ev[i + 1]
                        mon.check(n['t'] == e['t'] and n['dt'] < e['dt'], 'retry', 'a rejected step was not retried from the same time with a smaller step',
                                  t=e['t'], t_next=n['t'], dt=e['dt'], dt_next=n['dt'])
            if fixed:
                mon.check(e['dt'] == dt0, 'fixed', 'a run with fixed step size changed it', dt=e['dt'], dt0=dt0)
            elif not R.sharp and prev is not None:
                want = min(s.dt_max, prev['dt'] * s.cfl_desired / prev['cfl']) if prev['cfl'] > 0 else s.dt_max
                room = tend - e['t'] if tend is not None else np.inf
                ok = abs(e['dt'] - min(want, room)) <= 1e-9 * min(want, room) + eps
                mon.check(ok, 'select', 'the next step does not aim at the desired Courant number', dt=e['dt'], expected=min(want, room))
            elif not fixed and R.sharp and not case.get('stage') and 'LMM' not in R.ti and prev is not None and e['cfl'] > 0:
                room = tend - e['t'] if tend is not None else np.inf
                want = min(s.dt_max, e['dt'] * s.cfl_desired / e['cfl'], room)
                mon.check(abs(e['dt'] - want) <= 1e-9 * want + eps, 'select', 'the step does not have the desired Courant number', dt=e['dt'], expected=want)
            elif not fixed and 'SSPLMM' in R.ti and not case.get('stage') and e['cfl'] > 0:
                # the step a multistep method of this coefficient allows for the forward Euler steps of its points
                fe = e['dt'] / e['cfl'] * s.cfl_max / ssp
                if nacc > s.lmm_steps and e['accepted']:
                    H = sum(taken[-s.lmm_steps:-1]); p = int(R.ti[-1])
                    mu = min(fes[-(s.lmm_steps - 1):] + [fe])
                    room = tend - e['t'] if tend is not None else np.inf
                    want = min(s.dt_max, H * mu / (H + (p - 1) * mu), room)
                    mon.check(abs(e['dt'] - want) <= 1e-9 * want + eps, 'select', 'the step of the multistep method is not the one its coefficient allows', dt=e['dt'], expected=want)
                    mon.count('lmm_selected')
                if e['accepted']:
                    fes.append(fe)
            prev = e
        # ---- what the call as a whole has to satisfy
        if err is not None:
            if must:
                mon.check(must in err and not ev and sol.t == t0, 'odd', 'wrong reaction to a step size that does not divide the interval', err=err)
                mon.count('refused_odd'); continue
            if fixed:
                mon.check('CFL too large' in err and ev and limit(nacc + 1) is not None and ev[-1]['cfl'] > limit(nacc + 1), 'error', 'unexpected error', err=err)
                mon.count('gave_up'); break
            mon.check('Maximum number of timesteps' in err and len(ev) == user_max and
                      (sol.t < tend if tend is not None else not any(e['accepted'] for e in ev)), 'error', 'unexpected error', err=err,
                      attempts=len(ev), max_steps=user_max)
            mon.count('step_limit_hits')
        else:
            if must:
                mon.fail('odd', 'a fixed step size that does not divide the interval was not refused', t=sol.t, tend=tend)
                break
            if tend is None:
                mon.check(sum(e['accepted'] for e in ev) == 1, 'one', 'a single-step request did not take exactly one step', attempts=len(ev))
            elif tend <= t0:
                mon.check(not ev and sol.t == t0 and np.array_equal(sol.state.q, q0, equal_nan=True), 'noop', 'a request for a past or the current time changed the solution')
                mon.count('noops')
            else:
                tol = eps if not fixed else 1e-5 * (tend - t0)
                mon.check(abs(sol.t - tend) <= tol, 'tend', 'the run returned without having reached the requested time', t=sol.t, tend=tend, attempts=len(ev), max_steps=user_max)
                if fixed:
                    mon.check(min(abs(sol.t - tend), abs(sol.t - (t0 + op[1] * dt0))) <= eps, 'roundoff',
                              'rounding of the time accumulates over a run with fixed steps', t=sol.t, tend=tend, steps=op[1])
                    mon.check(len(ev) == op[1], 'count', 'wrong number of fixed steps', got=len(ev), expected=op[1])
                else:
                    mon.check(len(ev) <= user_max, 'limit', 'more attempts than max_steps', got=len(ev), max_steps=user_max)
                mon.count('arrivals')
            st = s.status
            mon.check(st is status and st['numsteps'] == nacc, 'numsteps', 'the reported number of steps is not the number of accepted steps', got=st['numsteps'], expected=nacc)
            if taken:
                mon.check(st['cflmax'] == cflmax, 'cflmax', 'the reported largest Courant number is not the largest of the accepted steps', got=st['cflmax'], expected=cflmax)
                mon.check(st['dtmin'] == min(taken) and st['dtmax'] == max(taken), 'dtstat', 'the reported smallest and largest steps are not those of the steps taken',
                          got=[st['dtmin'], st['dtmax']], expected=[min(taken), max(taken)])
        changed = {k: (v, getattr(s, k)) for k, v in given.items() if v is not None and np.any(v != getattr(s, k))}
        mon.check(not changed, 'settings', 'the call changed settings of the user', changed=str(changed))
        mon.check(s.max_steps == user_max, 'max_steps', 'the call changed the step limit the user had set', got=s.max_steps, expected=user_max)
        s.max_steps = 400
        mon.count('requests')
    mon.need('requests' if case['hist'][0][0] != 'odd' and not mon.events['gave_up'] else 'decisions')
