import sys,os,json,importlib
os.environ.setdefault('OMP_NUM_THREADS','1')
sys.path.insert(0,'/verif')
from vlib import core
core.load_repo()
pid,n=sys.argv[1],int(sys.argv[2])
mod=importlib.import_module('checks.'+pid.lower())
import collections
lines=collections.defaultdict(set)
mon=sys.monitoring
mon.use_tool_id(3,'cov')
def line(code,l):
    f=code.co_filename
    if f.startswith('/repo/xmps/'): lines[f[6:]].add(l)
    return mon.DISABLE
mon.register_callback(3,mon.events.LINE,line)
mon.set_events(3,mon.events.LINE)
os.makedirs('/tmp/mut/w_'+pid,exist_ok=True); os.chdir('/tmp/mut/w_'+pid)
if hasattr(mod,'setup'): mod.setup()
import time; t=time.time()
for i in range(n):
    core.run_case(mod,1,'quick',i,60)
    if time.time()-t>60: break
if hasattr(mod,'extra') and pid not in ('C18',):
    try: mod.extra('quick',1)
    except Exception as e: print(e)
json.dump({k:sorted(v) for k,v in lines.items()},open('/tmp/mut/%s.json'%pid,'w'))
