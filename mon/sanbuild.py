"""Out-of-tree builds of the compiled extensions with run-time checks.

The commands are those of the project's own build (ninja -t commands), with the outputs redirected and the Fortran flags replaced:
bounds, pointer, loop and allocation checks of gfortran, AddressSanitizer, and local reals that start as signalling NaNs.
"""
import importlib.machinery, importlib.util, os, re, shlex, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

BUILD = '/opt/clawpack/build'
SUF = '.cpython-312-x86_64-linux-gnu.so'
PKG = {'classic1': 'classic', 'classic2': 'classic', 'classic3': 'classic', 'sharpclaw1': 'sharpclaw', 'sharpclaw2': 'sharpclaw', 'sharpclaw3': 'sharpclaw'}
FLAGS = ['-O1', '-g', '-fcheck=bounds,do,mem,pointer', '-fsanitize=address', '-fno-omit-frame-pointer', '-finit-real=snan', '-fno-stack-arrays',
         '-fmax-stack-var-size=4096']


def commands(name):
    out = subprocess.run(['ninja', '-C', BUILD, '-t', 'commands', 'pyclaw/src/pyclaw/' + name + SUF], capture_output=True, text=True, check=True).stdout
    return [l for l in out.splitlines() if l and not l.startswith('ninja:')]


def build(name, dest, flags=FLAGS):
    """returns the path of the instrumented module"""
    d = os.path.join(dest, name); os.makedirs(d)
    obj = 'pyclaw/src/pyclaw/%s%s.p' % (name, SUF)
    ccs, forts, link = [], [], None
    for l in commands(name):
        a = shlex.split(l)
        if a[0].endswith('ccache'):
            a = a[1:]
        if 'numpy.f2py' in l or '--internal' in l:
            continue
        tool = os.path.basename(a[0])
        if '-c' not in a:
            link = a
        elif tool == 'gfortran':
            forts.append(a)
        else:
            ccs.append(a)

    def redirect(a):
        out = []
        for x in a:
            x = re.sub(r'(?<![\w/])' + re.escape(obj), d, x)
            x = x.replace('-J' + obj, '-J' + d).replace('-I' + obj, '-I' + d)
            out.append(x)
        return out

    def sh(a):
        r = subprocess.run(a, cwd=BUILD, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('%s\n%s' % (' '.join(a), r.stderr[-2000:]))
    for a in ccs:
        sh(redirect(a))
    todo = [[x for x in redirect(a) if not x.startswith('-O')] + flags for a in forts]
    # modules first: repeat until every file compiles (the order of the list is not the order of dependence)
    while todo:
        left = []; err = None
        for a in todo:
            try:
                sh(a)
            except RuntimeError as e:
                left.append(a); err = e
        if len(left) == len(todo):
            raise err
        todo = left
    a = redirect(link)
    out = os.path.join(d, name + '.so')
    a[a.index('-o') + 1] = out
    sh(a + ['-fsanitize=address'] if '-fsanitize=address' in flags else a)
    return out


def build_all(dest, names=None, flags=FLAGS):
    names = names or sorted(PKG)
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(names, ex.map(lambda n: build(n, dest, flags), names)))


class Finder(object):
    """import the instrumented modules in place of the installed ones"""
    def __init__(self, libs):
        self.libs = {'clawpack.pyclaw.%s.%s' % (PKG[n], n): p for n, p in libs.items()}

    def find_spec(self, name, path=None, target=None):
        p = self.libs.get(name)
        if p is None:
            return None
        return importlib.util.spec_from_file_location(name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))


def install(libs):
    for n in libs:
        full = 'clawpack.pyclaw.%s.%s' % (PKG[n], n)
        assert full not in sys.modules, full
    sys.meta_path.insert(0, Finder(libs))


def instrumented(path):
    out = subprocess.run(['nm', '-D', path], capture_output=True, text=True).stdout
    return '__asan_report' in out and '_gfortran_runtime_error_at' in out
