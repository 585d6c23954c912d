import importlib
import json
import os
import sys
import traceback


def module(prop_id):
    return importlib.import_module('pbt.props.' + prop_id.lower())


def main(argv):
    from . import boot
    boot.ensure_hypothesis()
    cmd = argv[0] if argv else 'list'
    if cmd == 'list':
        with open(os.path.join(boot.VERIF, 'properties.jsonl')) as f:
            for line in f:
                if line.strip():
                    p = json.loads(line)
                    print(p['id'], p['title'])
        return 0
    boot.import_sympl()
    from . import core
    if cmd == 'replay':
        return core.replay(argv[1], module)
    if cmd == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if len(argv) > 2:
            tier = argv[2]
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1'))
        return core.run_check(argv[1], module(argv[1]), tier, seed)
    print('unknown command', cmd, file=sys.stderr)
    return 2


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
