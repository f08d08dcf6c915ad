import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv import env, core

ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?")
ap.add_argument("--self-test", action="store_true")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
ap.add_argument("--replay")
ap.add_argument("-n", type=int)
ap.add_argument("-j", type=int, default=8)
a = ap.parse_args()
if a.self_test:
    # set-up: check that everything imports and that the reference solver reproduces closed-form beam results
    print("PyNite from", env.check_import())
    from rv import selftest
    selftest.main()
    sys.exit(0)
try:
    rc = core.run(a.property, a.tier, int(a.seed), replay=a.replay, n=a.n, jobs=a.j)
except Exception:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
