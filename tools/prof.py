"""profile one task in-process: tools/prof.py C01 quick TASKNAME"""
import sys, os, cProfile, pstats
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode=True
from symx import run, loader
pid, tier, name = sys.argv[1:4]
cm = loader.load_harness(os.path.join(ROOT,"checks",pid.lower()+".py"), pid.lower(), False)
loader.load_instrumented()
t=[t for t in cm.tasks(tier, loader.load_native()) if t["name"]==name][0]
pr=cProfile.Profile(); pr.enable()
r=run.run_task((pid.lower(), t, tier, 1, 600))
pr.disable()
print({k:(v if len(str(v))<300 else str(v)[:300]) for k,v in r.items()})
pstats.Stats(pr).sort_stats(sys.argv[4] if len(sys.argv)>4 else "cumulative").print_stats(35)
