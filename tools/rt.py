"""rt.py PROP [budget]: run-time contract alone"""
import sys,os
sys.argv[0]='check.py'
sys.path.insert(0,'/verif')
import importlib.util
p,b=sys.argv[1].upper(),float(sys.argv[2]) if len(sys.argv)>2 else 10
sp=importlib.util.spec_from_file_location('check','/verif/check.py');c=importlib.util.module_from_spec(sp);sp.loader.exec_module(c)
import json
r=c.run_rt(p,b,c.SEED)
print(r['evaluations'],r['distinct'],r['nontrivial'],'fails',len(r['failures']))
for e in r['errors'][:3]: print('ERR',e)
seen=set()
for f in sorted(r['failures'],key=lambda x:len(json.dumps(x['case'])))[:int(sys.argv[3]) if len(sys.argv)>3 else 6]: print('FAIL',f['message'][:1200])
