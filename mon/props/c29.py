import copy, json, os, sys, io, contextlib
import numpy as np
from .. import ctrl, iokit
ID = 'C29'; LEVEL = 'exploration'
TIMEOUT = 90
RULE = ('kind argv/main: one case = one random command line, parsed and run through to a recording application; kind diff/app/variants: one case = random data and tolerances, '
        'or recording applications, through the verification helpers, decisions compared with the definition; kind same: one solution compared with itself and with copies '
        'that differ in one place; kind lines: random files through the line reader')
ASSUMPTIONS = ['differences within rounding of a tolerance are not generated']


def words(rng):
    v = rng.choice([lambda: rng.randint(-50, 5000), lambda: rng.choice([0, 1, 1.0, 2]), lambda: rng.uniform(-2, 2), lambda: [1, 'b', None, 2.5], lambda: {'a': [1, 2]}, lambda: True, lambda: None])()
    raw = rng.choice([json.dumps(v)] * 5 + ['True', 'False', './_output', 'Python', 'sharpclaw', 'a b', '1e-3', '-7', '', '"x"', 'none', '1_0x'])
    return raw


def cases(rng, tier):
    n = {'quick': 250, 'thorough': 4000}[tier]
    out = []
    for _ in range(n):
        args = []
        for i in range(rng.randint(0, 5)):
            w = words(rng)
            f = rng.random()
            args.append('%s=%s' % (rng.choice(['key%d' % i] * 6 + ['key_setplot', 'key_iplot', 'setplot', 'use_petsc_x', 'htmlplots']), w) if f < .6 and '=' not in w else w if f < .9 else 'a=b=c')
        out.append(dict(kind='argv', args=args))
        out.append(dict(kind='main', args=[a for a in args if a.startswith(('key', 'setplot=', 'use_petsc_x=', 'htmlplots='))], html=rng.choice([None, None, 'True', 'False', '1']), iplot=rng.choice([None, None, None, '1']),
                        outdir=rng.choice([None, './x', '_o']), setplot=rng.random() < .5))
        out.append(dict(kind='diff', seed=rng.randrange(1 << 30), shape=rng.choice([[3], [4, 5], [2, 3, 4]]), rel=rng.random() < .5, tol=10. ** rng.uniform(-12, 2),
                        factor=rng.choice([0., .2, .9, 1.1, 5., 'nan']), delta=rng.choice([None, [.1], [.5, .25], [.5, .25, .2], [2., 3., 5.]])))
        out.append(dict(kind='variants', langs=rng.choice([['Fortran'], ['Fortran', 'Python'], ['Python', 'Fortran', 'CUDA']]), how=rng.choice(['list', 'lazy', 'direct']),
                        extra=rng.choice([{}, {'solver_type': 'classic'}, {'outdir': None, 'kernel_language': 'X'}]), fail=rng.choice([None, None, 0, 1])))
        g = iokit.case(rng, rng.choice([1, 2, 3])); g['values'] = 'normal'; g['mapped'] = False
        out.append(dict(g, kind='same', what=rng.choice(['q', 'q', 'aux', 't', 'level', 'patch_index', 'lower', 'num_cells', 'nan', 'count', 'units'])))
        out.append(dict(kind='lines', seed=rng.randrange(1 << 30)))
    return out


def decode(raw, anycase=False):
    try:
        v = json.loads(raw)
    except ValueError:
        v = raw
    if isinstance(v, str) and v == 'True':
        v = True
    elif isinstance(v, str) and (v == 'False' or anycase and v.lower() == 'false'):
        v = False
    return v


def split(args, anycase=False):
    pos, kw = [], {}
    for a in args:
        if a.count('=') == 1 and a.split('=')[0]:
            kw[a.split('=')[0]] = decode(a.split('=')[1], anycase)
        else:
            pos.append(decode(a, anycase))
    return pos, kw


def eq(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def argv(c, mon):
    from clawpack.pyclaw import util
    want = split(c['args'])
    mon.count('parsed')
    # the helpers are internal: where there are none of that name, the applications tell (kind main)
    got = util._info_from_argv(['prog'] + list(c['args'])) if hasattr(util, '_info_from_argv') else want
    mon.check(eq(got[0], want[0]) and eq(got[1], want[1]), 'argv', 'the command line is understood differently', args=c['args'], got=got, want=want)
    want = split(c['args'], True)
    try:
        got = util._method_info_from_argv(['prog', 'method'] + list(c['args'])) if hasattr(util, '_method_info_from_argv') else ('method',) + want
        mon.check(got[0] == 'method' and eq(got[1], want[0]) and eq(got[2], want[1]), 'method-argv', 'the command line of a method is understood differently', args=c['args'], got=got, want=want)
    except Exception as e:
        mon.check(False, 'method-argv', 'the command line of a method is refused', args=c['args'], error=repr(e)[:200])
    kw = {k: v for k, v in want[1].items() if not isinstance(v, dict)}
    text = util._arguments_str_from_dictionary(kw) if hasattr(util, '_arguments_str_from_dictionary') else ', '.join('%s=%r' % x for x in kw.items())
    back = eval('dict(%s)' % text)
    mon.check(eq(back, kw), 'arguments', 'the argument string of a dictionary has another meaning', text=text, want=kw)
    mon.need('parsed')


def main(c, mon):
    from clawpack import pyclaw
    from clawpack.pyclaw import util
    log = []
    class Claw(object):
        def run(self):
            log.append('run')
            return 'status'
    claw = Claw()
    def app(**kw):
        log.append(kw)
        return claw
    args = list(c['args'])
    if c['html'] is not None:
        args.append('htmlplot=' + c['html'])
    if c['iplot'] is not None:
        args.append('iplot=' + c['iplot'])
    if c['outdir'] is not None:
        args.append('outdir=' + c['outdir'])
    plots = []
    class P(object):
        html_plot = staticmethod(lambda **k: plots.append(('html', k)))
        interactive_plot = staticmethod(lambda **k: plots.append(('iplot', k)))
    keep, old = sys.argv, pyclaw.__dict__.get('plot')
    sys.argv = ['prog'] + args; pyclaw.plot = P
    setplot = (lambda p: p) if c['setplot'] else None
    try:
        got = util.run_app_from_main(app, setplot) if c['setplot'] else util.run_app_from_main(app)
    finally:
        sys.argv = keep; pyclaw.plot = old
    kw = split([a for a in args if not a.startswith(('htmlplot=', 'iplot='))])[1]
    mon.count('applications')
    mon.check(len(log) == 2 and eq(log[0], kw) and log[1] == 'run' and got is claw, 'main', 'the application was not created with the given options and run once', log=repr(log)[:300], want=kw)
    pk = dict(outdir=c['outdir'] or './_output')
    if c['setplot']:
        pk['setplot'] = setplot
    want = []
    if decode(c['html'] or 'False'):
        want.append(('html', pk))
    if decode(c['iplot'] or 'False'):
        want.append(('iplot', pk))
    mon.check(plots == want, 'plots', 'the plots asked for were not made of the output', got=repr(plots), want=repr(want))
    mon.need('applications')


def diff(c, mon):
    from clawpack.pyclaw import util
    r = np.random.RandomState(c['seed'])
    a = r.randn(*c['shape']); d = float(np.prod(c['delta'])) if c['delta'] else 1.
    e = r.randn(*c['shape']); e /= np.sqrt((e ** 2).sum())
    na = np.sqrt((a ** 2).sum())
    f = c['factor']
    size = (0. if f == 'nan' else f) * c['tol'] * (na if c['rel'] else 1. / d)
    b = a + size * e
    if f == 'nan':
        b.flat[r.randint(b.size)] = np.nan
    elif f and abs(np.sqrt(((a - b) ** 2).sum()) / size - 1) > .05:
        return mon.count('decided')                    # below rounding of the values
    kw = {'reltol' if c['rel'] else 'abstol': c['tol']}
    if c['delta']:
        kw['delta'] = c['delta']
    got = util.check_diff(a, b, **kw)
    mon.count('decided')
    mon.check((got is None) == (f != 'nan' and f < 1), 'decision', 'check_diff accepts or refuses against its tolerance', factor=f, tol=c['tol'], relative=c['rel'], got=got)
    if got is not None and f != 'nan':
        mon.check(abs(got[0] - d * na) <= 1e-12 * na and abs(got[1] - d * np.sqrt((b ** 2).sum())) <= 1e-12 * d * np.sqrt((b ** 2).sum())
                  and abs(got[2] - d * size) <= .06 * d * size, 'report', 'check_diff reports other norms', got=got[:3], want=(d * na, d * size))
    try:
        util.check_diff(a, b)
    except Exception:
        pass
    else:
        mon.check(False, 'no-tolerance', 'check_diff decides without a tolerance')
    mon.need('decided')


def variants(c, mon):
    from clawpack.pyclaw import util
    seen = []
    def app(**kw):
        seen.append(dict(kw))
        class C(object):
            def run(self):
                seen[-1]['ran'] = seen[-1].get('ran', 0) + 1
            index = len(seen) - 1
        return C()
    def verifier(claw):
        if claw.index == c['fail']:
            return (1., 2., 3., 'abstol')
        return None
    want = []
    for l in c['langs']:
        w = dict(use_petsc=False, kernel_language=l); w.update(c['extra']); w['ran'] = 1
        want.append(w)
    failed = []
    with contextlib.redirect_stdout(io.StringIO()):
        if c['how'] == 'direct':
            try:
                util.test_app_variants(app, verifier, c['langs'], **c['extra'])
            except util.VerifyError:
                failed.append(len(seen) - 1)
                want = want[:len(seen)]
        else:
            gen = util.gen_variants(app, verifier, kernel_languages=tuple(c['langs']), disable_petsc=True, **c['extra'])
            for i, t in enumerate(list(gen) if c['how'] == 'list' else gen):
                try:
                    t()
                except util.VerifyError:
                    failed.append(i)
    mon.count('variants', len(seen))
    mon.check(seen == want, 'variants', 'the variants of an application were not each run once with their own options', how=c['how'], got=seen, want=want)
    wf = [c['fail']] if c['fail'] is not None and c['fail'] < len(c['langs']) else []
    mon.check(failed == wf, 'failures', 'an application that fails its verification passes, or the other way round', failed=failed, want=wf)
    mon.need('variants')


def same(c, mon):
    from clawpack.pyclaw import util
    a = iokit.build(c); b = iokit.build(c)
    r = np.random.RandomState(c['seed'] % (1 << 31))

    def passes(x, y):
        try:
            util.check_solutions_are_same(x, y)
            return True
        except (AssertionError, ValueError):
            return False
    mon.count('compared')
    b.states[:] = [b.states[i] for i in r.permutation(len(b.states))]
    mon.check(passes(a, b) and passes(b, a) and passes(a, a), 'equal', 'equal solutions are found different')
    s = b.states[r.randint(len(b.states))]
    w = c['what']
    if w == 'q':
        s.q.flat[r.randint(s.q.size)] += r.choice([-1., 1.]) * 10 ** r.uniform(-5, 3)
    elif w == 'nan':
        s.q.flat[r.randint(s.q.size)] = np.nan
    elif w == 'aux' and s.aux is not None:
        s.aux.flat[r.randint(s.aux.size)] += 1e-3
    elif w == 't':
        b.t = b.t + 1 if abs(b.t) < 1e9 else b.t * 2
    elif w == 'level':
        s.patch.level += 1
    elif w == 'patch_index':
        s.patch.patch_index += 100
    elif w == 'lower':
        s.patch.dimensions[0].lower -= .5 * max(1., abs(s.patch.dimensions[0].lower))
    elif w == 'num_cells':
        s.patch.dimensions[-1].num_cells += 1
    elif w == 'units':
        s.patch.dimensions[0].units = 'furlongs'
    elif w == 'count' and len(b.states) > 1:
        b.states.pop()
    else:
        return
    mon.count('different')
    mon.check(not passes(a, b), 'different', 'different solutions are found the same', what=w)
    if w != 'count':
        mon.check(not passes(b, a), 'different', 'different solutions are found the same', what=w, order='reversed')


def lines(c, mon):
    from clawpack.pyclaw import util
    r = np.random.RandomState(c['seed'])
    rows = []; text = []
    for _ in range(r.randint(1, 6)):
        for _ in range(r.randint(0, 3)):
            text.append(r.choice(['', '   ', '\t']))
        row = [float(x) for x in r.randn(r.randint(1, 6))] if r.rand() < .6 else [int(x) for x in r.randint(-99, 99, r.randint(1, 6))]
        rows.append(row); text.append(r.choice(['', '  ']) + r.choice([' ', '   ', '\t']).join(repr(x) for x in row) + r.choice(['', '  ', '    =: name']))
    name = 'lines.txt'
    with open(name, 'w') as f:
        f.write('\n'.join(text) + r.choice(['', '\n', '\n\n']))
    with open(name) as f:
        for row in rows:
            k = r.randint(1, len(row) + 1)
            typ = type(row[0])
            got = util.read_data_line(f, num_entries=k, data_type=typ)
            mon.count('read')
            mon.check(np.array_equal(got, row[0] if k == 1 else row[:k]), 'line', 'a line is read as something else', got=got, want=row[:k])
        try:
            v = util.read_data_line(f)
        except IOError:
            mon.count('end_reported')
        else:
            mon.check(False, 'end', 'a line was read beyond the end of the file', got=v)
    for _ in range(5):
        m, e = round(float(r.uniform(-10, 10)), r.randint(0, 9)), int(r.randint(-40, 40))
        for t in ('%rd%d' % (m, e), '%rd%+03d' % (m, e)):
            got = util.convert_fort_double_to_float(t)
            want = float(t.replace('d', 'e'))
            mon.check(abs(got - want) <= 1e-13 * abs(want), 'double', 'a Fortran number is read as another one', text=t, got=got)
    f, g = util.FrameCounter(), util.FrameCounter()
    n = 0
    for _ in range(12):
        op = r.randint(4)
        if op == 0:
            f.reset_counter(); n = 0
        elif op == 1:
            n = int(r.randint(100)); f.set_counter(n)
        else:
            f.increment(); n += 1
        mon.check(f.get_counter() == n and repr(f) == str(n) and g.get_counter() == 0, 'counter', 'a frame counter shows another number', got=f.get_counter(), want=n)
    fn = 'fun%d' % r.randint(1000)
    with open(fn + '.py', 'w') as h:
        h.write('def %s(x):\n    return 3*x\ndef other_%s(x):\n    return x+1\n' % (fn, fn))
    mon.check(util.construct_function_handle('./' + fn + '.py')(2) == 6 and util.construct_function_handle(os.path.abspath(fn + '.py'), 'other_' + fn)(2) == 3, 'handle', 'a function loaded from a file is another one')
    for bad in ('missing_%s.py' % fn, name):
        try:
            util.construct_function_handle(bad)
        except Exception:
            mon.count('refused')
        else:
            mon.check(False, 'handle', 'a function was loaded from no Python file')
    mon.need('read', 'end_reported')


def run(c, mon):
    {'argv': argv, 'main': main, 'diff': diff, 'variants': variants, 'same': same, 'lines': lines}[c['kind']](c, mon)
