import sys,time,re
sys.path.insert(0,'/verif/engine')
from rules import *
p=Prog(sys.argv[1])
name=sys.argv[2]
keys=[l['key'] for l in p.local if re.search(name,l['key']) and 'blocks' in p.fns[l['key']]]
print(keys)
t=time.time()
e=Checker(p)
import os
e.lite=bool(os.environ.get('LITE'))
try:
    e.run_root(keys[0])
except Exception as x:
    import traceback; traceback.print_exc()
print('time',time.time()-t,'steps',e.steps,'states',e.nstates,'returns',len(e.returns))
for k,v in sorted(e.viol.items()):
    print(v['prop'],v['rule'],v['fn'],v['span'],v['msg'])
    if len(sys.argv)>3: print('   '+'\n   '.join(v['trace']))
for k,v in sorted(e.ev.items()): print(k,len(v))
