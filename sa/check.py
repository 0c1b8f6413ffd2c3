"""python3 -m sa.check <property> [--tier quick|thorough]"""
import os, sys, traceback
sys.setrecursionlimit(20000)
from . import report
from .registry import PROPS


def main():
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'):
        tier = os.environ['VERIF_TIER']
    p = PROPS[pid]
    ctx = report.Ctx(pid, tier)
    for f in p['rules']:
        try:
            f(ctx)
        except Exception as e:       # an analysis that cannot follow the code decides nothing about it
            tb = traceback.format_exc().strip().split('\n')
            ctx.undecided('internal', '%s: %s @ %s' % (getattr(f, '__name__', '?'), e, tb[-3].strip() if len(tb) > 3 else ''))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
    rc = report.finish(ctx, p['explanation'], p['assumptions'])
    sys.exit(rc)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same run every time
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'sa.check'] + sys.argv[1:])
    import threading
    threading.stack_size(512 * 1024 * 1024)
    code = []

    def run():
        try:
            main()
        except SystemExit as e:
            code.append(e.code)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(code[0] if code else 1)
