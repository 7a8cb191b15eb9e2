#!/usr/bin/env python3
"""run.py check <ID> [quick|thorough] [-c campaign] [-s scale] [-v] | run.py replay <file> | run.py gen <ID> <campaign>"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def load(prop):
    return importlib.import_module('props.' + prop.lower())


def main(argv):
    import core
    sys.stdout.reconfigure(errors='backslashreplace')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if argv[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        only, scale, verbose = None, 1.0, False
        rest = argv[2:]
        while rest:
            a = rest.pop(0)
            if a == '-c':
                only = rest.pop(0)
            elif a == '-s':
                scale = float(rest.pop(0))
            elif a == '-v':
                verbose = True
            else:
                tier = a
        return core.run_check(load(argv[1]), tier, seed, only=only, scale=scale, verbose=verbose)
    if argv[0] == 'replay':
        with open(argv[1]) as i:
            entry = json.load(i)
        mod = load(entry['property'])
        scratch = core.make_scratch()
        try:
            msg = core.replay_one(mod, entry['property'], entry, scratch)
        finally:
            import shutil
            shutil.rmtree(scratch, ignore_errors=True)
        if msg is None:
            print('holds')
            return 0
        print('VIOLATION property=%s replay=%s' % (entry['property'], os.path.abspath(argv[1])))
        print(msg)
        return 1
    if argv[0] == 'gen':
        mod = load(argv[1])
        camp = {c.name: c for c in mod.CAMPAIGNS}[argv[2]]
        import hypothesis
        import warnings
        warnings.simplefilter('ignore')
        out = []

        @hypothesis.seed(seed)
        @hypothesis.settings(max_examples=20, database=None, deadline=None, phases=[hypothesis.Phase.generate],
                             suppress_health_check=list(hypothesis.HealthCheck))
        @hypothesis.given(camp.strategy())
        def show(case):
            out.append(case)
        show()
        for case in out[-8:]:
            print(json.dumps(case, indent=1))
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
