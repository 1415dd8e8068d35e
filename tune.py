#!/usr/bin/env python3
"""Prints cases/s per variant for properties given (developer aid)."""
import sys,subprocess,json,time,os
sys.argv=[sys.argv[0]]+sys.argv[1:]
import importlib.machinery,importlib.util
l=importlib.machinery.SourceFileLoader("chk",os.path.join(os.path.dirname(os.path.abspath(__file__)),"check"));spec=importlib.util.spec_from_loader("chk",l);chk=importlib.util.module_from_spec(spec);l.exec_module(chk)
for p in sys.argv[1:]:
    cfg=dict(chk.DEFAULT,**chk.PROPS[p]); vs=sorted({w[0] for w in cfg["workers"]}); t=time.time(); b=chk.build(p,cfg,vs); bt=time.time()-t
    out=[]
    for v in vs:
        ps=[subprocess.Popen([b[v],"run",str(90+i),"100000000","6","/tmp/tn%d.rec"%i,"/tmp/tn%d.st"%i,"/tmp/tn%d.fail"%i],env=chk.ENV) for i in range(4)]
        rc=[x.wait() for x in ps]; n=sum(json.load(open("/tmp/tn%d.st"%i))["evaluations"] for i in range(4))/4/6
        out.append("%s %.0f/s rc=%s"%(v,n,rc))
    print(p,"build %.0fs"%bt,"; ".join(out),flush=True)
