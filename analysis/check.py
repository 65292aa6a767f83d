#!/usr/bin/env python3
"""check.py ID [quick|thorough]"""
import importlib, os, sys, time, traceback, pkgutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw, prog


def registry():
    import checks
    reg = {}
    for m in pkgutil.iter_modules(checks.__path__):
        mod = importlib.import_module('checks.' + m.name)
        for k, v in getattr(mod, 'CHECKS', {}).items():
            reg[k] = v
    return reg


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    reg = registry()
    if pid not in reg:
        print('no check for', pid)
        return 2
    ctx = fw.Ctx(pid, tier)
    try:
        reg[pid](ctx)
        return ctx.finish(t0, '')
    except prog.AnalysisError as e:
        if ctx.viol:
            # a definite violation was established before the analysis lost its footing
            print('note: analysis incomplete: %s' % e)
            return ctx.finish(t0, '')
        print('ANALYSIS-BROKEN %s: %s' % (pid, e))
        return 2
    except Exception as e:
        traceback.print_exc()
        print('ANALYSIS-BROKEN %s: %s: %s' % (pid, type(e).__name__, e))
        return 2


sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)
rc = [2]


def _t():
    rc[0] = main()


th = threading.Thread(target=_t)
th.start()
th.join()
sys.stdout.flush()
os._exit(rc[0])
