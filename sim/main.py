import os
import sys
import traceback

from . import core, env


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    n = workers = None
    args = []
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--seed':
            seed = int(next(it))
        elif a == '-n':
            n = int(next(it))
        elif a == '-j':
            workers = int(next(it))
        else:
            args.append(a)
    cmd = args[0]
    if cmd == 'check':
        return core.check(args[1].upper(), tier, seed, n, workers)
    if cmd == 'replay':
        return core.replay(args[1])
    from . import selftest
    return selftest.main(args, tier, seed, n, workers)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except env.HarnessError as e:
        print('HARNESS ERROR:', e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
