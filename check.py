import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
        elif argv[i] == '--seed':
            seed = int(argv[i + 1])
        elif argv[i] == '--replay':
            rep = argv[i + 1]
        i += 2
    try:
        from pyvc import runner
        if rep:
            return runner.replay(prop, rep)
        return runner.main(prop, tier, seed)
    except BaseException:
        # the code under test cannot be loaded, or the checker failed: no obligation was accepted
        import json
        import traceback
        tb = traceback.format_exc()
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '-error.json')
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'failed_obligations': ['loading'], 'output': tb}, fh)
        print(tb)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
