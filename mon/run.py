import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    pid = sys.argv[1]
    from mon import core
    mod = importlib.import_module('mon.props.' + pid.lower())
    lib = getattr(mod, 'PRELOAD', None)
    if lib and not os.environ.get('VERIF_PRELOADED'):
        import subprocess
        path = subprocess.run(['gcc', '-print-file-name=' + lib], capture_output=True, text=True).stdout.strip()
        env = dict(os.environ, LD_PRELOAD=path, VERIF_PRELOADED='1', PYTHONMALLOC='malloc', **mod.ENV)
        os.execve(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv, env)
    sys.exit(core.run_property(mod, sys.argv[2:]))


main()
