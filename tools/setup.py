"""Builds what the checks build, so that they only have to follow changes of /repo."""
import os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, os.path.join(here, "tools")]
import check, plans
run = check.Run("setup")
run.deadline += 900
try:
    plans.build_hz(run)
    plans.both(lambda: plans.build_miri(run), lambda: plans.build_san(run, "address", plans.ASAN), lambda: plans.build_san(run, "thread", plans.TSAN, args=["-Zbuild-std"]))
    import configs
    plans.both(lambda: configs.build_unchecked(run), *[lambda t=t: configs.build_miri_for(run, t) for t in configs.TARGETS], lambda: configs.build_all(run, configs.SETS))
finally:
    import shutil
    shutil.rmtree(run.scratch, ignore_errors=True)
print(run.counters)
