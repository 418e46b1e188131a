"""Case runner shared by every check.

A property module (mon/props/cNN.py) provides

    ID, LEVEL, RULE
    cases(rng, tier) -> list of JSON-able dicts, each with at least 'kind'
    run(case, mon)   -> executes the real code under monitors

Every case runs in a process of its own (forked from a process that has
imported clawpack), in a scratch directory of its own, with its standard output
captured; a crash, a Fortran STOP or a hang of that process is an observation
like any other.  The monitor object counts what was observed; a case in which a
monitor never fired ('vacuous') is reported and is not counted as coverage.
"""
import collections, hashlib, json, os, pickle, select, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Mon(object):
    """What the monitors of one case saw."""
    def __init__(self, case):
        self.case = case
        self.events = collections.Counter()
        self.violations = []
        self.notes = []
        self.maxima = {}
        self.required = set()

    def need(self, *names):
        """these event counters must be non-zero at the end, or the case is vacuous"""
        self.required.update(names)

    def count(self, name, n=1):
        self.events[name] += n

    def peak(self, name, value):
        value = float(value)
        if name not in self.maxima or value > self.maxima[name]:
            self.maxima[name] = value

    def check(self, ok, key, msg, **detail):
        """record one oracle decision"""
        self.events['decisions'] += 1
        if not ok:
            self.violations.append({'key': key, 'msg': msg, 'detail': jsonable(detail)})
        return bool(ok)

    def fail(self, key, msg, **detail):
        return self.check(False, key, msg, **detail)

    def close(self, a, b, tol, key, msg, scale=None, **detail):
        """|a-b| <= tol*scale elementwise, NaNs are violations"""
        import numpy as np
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return self.fail(key, msg + ': shapes %s and %s differ' % (a.shape, b.shape), **detail)
        if a.size == 0:
            return self.check(True, key, msg)
        if scale is None:
            scale = max(1e-300, float(np.max(np.abs(np.where(np.isfinite(b), b, 0.)))))
        d = np.abs(a - b)
        same = (a == b)
        bad = ~(same | (d <= tol * scale))
        ok = not bad.any()
        if not ok:
            w = tuple(int(i) for i in np.argwhere(bad)[0])
            fin = d[np.isfinite(d)]
            detail = dict(detail, first_bad_index=w, got=float(a[w]), expected=float(b[w]),
                          max_abs_diff=float(fin.max()) if fin.size else None,
                          n_bad=int(bad.sum()), tol=float(tol), scale=float(scale))
        else:
            self.peak('max_rel_diff', float(np.max(np.where(same, 0., d))) / scale)
        return self.check(ok, key, msg, **detail)


def jsonable(x):
    try:
        import numpy as np
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set)):
            return [jsonable(v) for v in x]
        if isinstance(x, np.ndarray):
            return x.tolist() if x.size <= 64 else 'array%s' % (x.shape,)
        if isinstance(x, np.generic):
            return x.item()
    except ImportError:
        pass
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def _child(mod, case, wfd, scratch):
    os.setpgid(0, 0)
    os.chdir(scratch)
    log = os.open('case.log', os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
    nul = os.open('/dev/null', os.O_RDONLY)
    os.dup2(nul, 0); os.dup2(log, 1); os.dup2(log, 2)
    sys.stdout = os.fdopen(1, 'w', closefd=False); sys.stderr = os.fdopen(2, 'w', closefd=False)
    mon = Mon(case)
    err = None
    if os.environ.get('VERIF_COV'):
        lines = line_coverage()
    try:
        mod.run(case, mon)
    except BaseException:
        err = traceback.format_exc()
    out = {'events': dict(mon.events), 'violations': mon.violations, 'maxima': mon.maxima,
           'notes': mon.notes, 'error': err, 'missing': sorted(n for n in mon.required if not mon.events[n])}
    with os.fdopen(wfd, 'wb') as f:
        if os.environ.get('VERIF_COV'):
            with open(os.path.join(os.environ['VERIF_COV'], '%s-%s' % (mod.ID, case_id(case))), 'wb') as g:
                pickle.dump(lines, g)
        pickle.dump(out, f)
    sys.stdout.flush()
    os._exit(0)


def line_coverage():
    """the lines of pyclaw this case executes (developer's aid: VERIF_COV=DIR)"""
    m = sys.monitoring; lines = set()
    m.use_tool_id(m.COVERAGE_ID, 'verif')

    def line(code, n):
        if 'pyclaw' in code.co_filename:
            lines.add((code.co_filename, n))
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)
    return lines


class Running(object):
    pass


def run_cases(mod, cases, workers, timeout, base, stop=lambda: False):
    """yields (case, result) in completion order; starts no further case once stop() holds"""
    pending = list(enumerate(cases))[::-1]
    live = {}
    while pending or live:
        if pending and stop():
            pending = []
        while pending and len(live) < workers:
            i, case = pending.pop()
            r, w = os.pipe()
            scratch = os.path.join(base, 'case%05d' % i)
            os.mkdir(scratch)
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    _child(mod, case, w, scratch)
                finally:
                    os._exit(97)
            os.close(w)
            j = Running(); j.pid = pid; j.i = i; j.case = case; j.t0 = time.time(); j.buf = b''; j.scratch = scratch
            j.killed = False
            live[r] = j
        ready, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for fd in list(live):
            j = live[fd]
            if fd not in ready:
                lim = j.case.get('timeout', timeout)
                if now - j.t0 > lim and not j.killed:
                    j.killed = True
                    for s in (lambda: os.killpg(j.pid, signal.SIGKILL), lambda: os.kill(j.pid, signal.SIGKILL)):
                        try:
                            s()
                        except OSError:
                            pass
                continue
            data = os.read(fd, 1 << 16)
            if data:
                j.buf += data
                continue
            os.close(fd); del live[fd]
            _, status = os.waitpid(j.pid, 0)
            try:
                os.killpg(j.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                res = pickle.loads(j.buf)
            except Exception:
                try:
                    tail = open(os.path.join(j.scratch, 'case.log'), errors='replace').read()[-1500:]
                except OSError:
                    tail = ''
                if j.killed:
                    why = 'did not finish within %d s' % j.case.get('timeout', timeout)
                elif os.WIFSIGNALED(status):
                    why = 'was ended by signal %d' % os.WTERMSIG(status)
                else:
                    why = 'ended the process with status %d' % os.WEXITSTATUS(status)
                res = {'events': {}, 'violations': [], 'maxima': {}, 'notes': [], 'error': None, 'missing': [],
                       'crash': why, 'tail': tail}
            res['wall'] = time.time() - j.t0
            shutil.rmtree(j.scratch, ignore_errors=True)
            yield j.i, j.case, res


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        data = json.load(open(path))
    except (OSError, ValueError):
        return []
    return [f for f in data.get('known', []) if f['property'] == pid]


def matches(finding, case, v):
    """A finding names the violation key and the part of the case that fails."""
    if finding['key'] != v['key']:
        return False
    return all(case.get(k) == val for k, val in finding.get('case', {}).items())


def run_property(mod, argv):
    import random
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = mod.ID
    base = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return _run(mod, argv, tier, seed, pid, base, t0, random)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run(mod, argv, tier, seed, pid, base, t0, random):
    if argv and argv[0] == '--replay':
        rep = json.load(open(argv[1]))
        cases = [rep['case']]
    else:
        cases = mod.cases(random.Random('%s-%d-%s' % (pid, seed, tier)), tier)
        if argv and argv[0] == '--only':
            cases = [c for c in cases if argv[1] in json.dumps(c)]
    seen = set(); uniq = []
    for c in cases:
        h = case_id(c)
        if h not in seen:
            seen.add(h); uniq.append(c)
    cases = uniq
    workers = int(os.environ.get('VERIF_WORKERS', '0') or 0) or min(8, os.cpu_count() or 1)
    timeout = getattr(mod, 'TIMEOUT', 150)
    if tier == 'quick':
        timeout //= 2        # so that hanging code is answered in time, too
    setup = getattr(mod, 'prepare', None)
    if setup:
        setup(base, tier)
    events = collections.Counter(); maxima = {}; kinds = collections.Counter(); notes = []
    nontrivial = 0; vac = []; found = []; known_hit = {}; samples = []
    known = load_known(pid)
    retry = []
    slow = []

    def take(i, case, res, final):
        nonlocal nontrivial
        if res.get('crash'):
            if not final:
                retry.append(case); return
            v = {'key': 'crash', 'msg': 'the run %s' % res['crash'], 'detail': {'tail': res['tail'][-600:]}}
            res['violations'].append(v)
        if res['error']:
            res['violations'].append({'key': 'exception', 'msg': 'the run raised an exception that the code does not raise '
                                      'for this workload', 'detail': {'traceback': res['error'][-900:]}})
        slow.append((res['wall'], case.get('kind')))
        events.update(res['events'])
        for k, v in res['maxima'].items():
            maxima[k] = max(v, maxima.get(k, v))
        kinds[case.get('kind', '?')] += 1
        for v in res['violations']:
            hit = [f for f in known if matches(f, case, v)]
            if hit:
                known_hit.setdefault(hit[0]['id'], hit[0])
            else:
                found.append((case, v))
        if res['missing']:
            vac.append((case, res['missing']))
        elif not res['error'] and not res.get('crash'):
            nontrivial += 1
            if len(samples) < 3 or (kinds[case.get('kind', '?')] == 1 and len(samples) < 12):
                samples.append({'case': case, 'observed': res['events']})
        notes.extend(res['notes'])

    def stop():
        # enough witnesses of a violation or of a hang; and an answer in time, whatever happens
        if tier == 'quick':
            return len(found) >= 40 or len(retry) >= 4 or time.time() - t0 > 480
        return len(found) >= 400 or len(retry) >= 8
    planned = len(cases); done = 0
    for i, case, res in run_cases(mod, cases, workers, timeout, base, stop):
        take(i, case, res, False); done += 1
    if done < planned:
        print('%s: %d of %d cases run' % (pid, done, planned))
        cases = cases[:done]
    if retry and not found:
        again = list(retry)[:4]      # a crash or hang that repeats is a violation; a few witnesses are enough
        b2 = os.path.join(base, 'retry'); os.mkdir(b2)
        for i, case, res in run_cases(mod, again, 4, timeout * 2, b2):
            take(i, case, res, True)

    wall = time.time() - t0
    for f in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    replay = None
    nrep = 0
    if found:
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        bykey = collections.OrderedDict()
        for case, v in found:
            bykey.setdefault((v['key'], case.get('kind')), []).append((case, v))
        for (key, kind), lst in bykey.items():
            case, v = lst[0]
            nrep += 1
            if nrep > 12:
                break
            path = os.path.join(d, '%s-%s.json' % (pid, case_id(case)))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'case': case, 'violation': v, 'seed': seed, 'tier': tier,
                           'how': './check.sh %s --replay %s' % (pid, path)}, f, indent=1)
            print('%s [%s/%s, %d case(s)] %s %s' % (pid, kind, key, len(lst), v['msg'], json.dumps(v['detail'])[:600]))
            print('   case: %s' % json.dumps(case)[:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': {'evaluations': len(cases), 'distinct_nontrivial': nontrivial, 'rule': mod.RULE,
                       'samples': samples, 'events_observed': dict(sorted(events.items())),
                       'largest_observed': maxima, 'cases_by_kind': dict(sorted(kinds.items())),
                       'vacuous_cases': len(vac),
                       'known_findings_seen': sorted(known_hit)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(found)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1); f.write('\n')
    for case, m in vac[:5]:
        print('VACUOUS case in %s: %s never observed; %s' % (pid, m, json.dumps(case)[:300]))
    slow.sort(key=lambda x: -x[0])
    print('%s %s seed=%d: %d cases, %d non-trivial, %d decisions, %d violations, %d vacuous, %.1f s; slowest %s'
          % (pid, tier, seed, len(cases), nontrivial, events['decisions'], len(found), len(vac), wall,
             [(round(a, 1), b) for a, b in slow[:3]]))
    if found:
        return 1
    idle = [k for k in kinds if sum(c.get('kind', '?') == k for c, _ in vac) == kinds[k]]
    if idle or len(vac) > .1 * len(cases) or not nontrivial:
        print('NOT DECIDED: %d of %d cases observed nothing, among them all of kind %s' % (len(vac), len(cases), idle[:5]))
        return 3
    return 0
