"""where does a task fork: tools/forks.py C01 quick TASKNAME"""
import sys, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.dont_write_bytecode=True
from symx import run, loader, core
import traceback, collections
pid, tier, name = sys.argv[1:4]
cm=loader.load_harness(os.path.join(ROOT,'checks',pid.lower()+'.py'),pid.lower(),False); loader.load_instrumented()
t=[t for t in cm.tasks(tier,loader.load_native()) if t['name']==name][0]
C=collections.Counter()
o=core.Explorer.branch
def b(self,*a,**k):
    n=self.decisions_total
    r=o(self,*a,**k)
    if self.decisions_total!=n:
        C[" < ".join("%s:%d"%(f.filename.split('/')[-1],f.lineno) for f in traceback.extract_stack()[-11:-1][::-1])]+=1
    return r
core.Explorer.branch=b
r=run.run_task((pid.lower(),t,tier,1,600))
print({k:(v if len(str(v))<300 else str(v)[:300]) for k,v in r.items()})
for k,v in C.most_common(8): print(v,k)
