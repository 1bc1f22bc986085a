import sys,time,z3
f=sys.argv[1]
import itertools
for params in [{"auto_config":False,"smt.mbqi":False},{"auto_config":False,"smt.mbqi":False,"smt.relevancy":0},{"auto_config":False,"smt.mbqi":False,"smt.array.extensional":False},{"auto_config":False,"smt.mbqi":False,"smt.qi.eager_threshold":1000.0,"smt.qi.lazy_threshold":1000.0},{"auto_config":False,"smt.mbqi":False,"smt.pull_nested_quantifiers":True},{"auto_config":False,"smt.mbqi":False,"smt.macro_finder":True}]:
        s=z3.Solver(); s.set("timeout",6000)
        for k,v in params.items(): s.set(k,v)
        s.from_file(f)
        t=time.time(); r=s.check(); print(f,params,r,round(time.time()-t,2),s.reason_unknown() if r==z3.unknown else '')
