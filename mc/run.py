import argparse, importlib, os, sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from mc import core
    import GPyOpt
    assert os.path.realpath(GPyOpt.__file__).startswith(core.REPO + os.sep), GPyOpt.__file__
    mod = importlib.import_module('mc.checks.' + a.check.lower())
    sys.exit(core.main(mod, a.tier, seed, a.replay))


main()
