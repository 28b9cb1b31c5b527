#!/usr/bin/env python3
"""hunt.py [id...]: runs each seeded bug's property check (quick) on a patched copy"""
import sys, os, json, subprocess, shutil, time
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir("/verif/seeded"))
bad = []
for id in ids:
    d = "/verif/seeded/"+id
    m = json.load(open(d+"/meta.json"))
    w = "/tmp/huntwork/"+id
    if os.path.exists(w): shutil.rmtree(w)
    os.makedirs(w); subprocess.check_call(["cp","-a","/repo",w+"/repo"])
    subprocess.check_call(["git","-C",w+"/repo","apply",d+"/patch.diff"])
    t=time.time()
    props = m["property"] if isinstance(m["property"],list) else [m["property"]]
    for p in props:
        r = subprocess.run(["/verif/bin/gosym","check","-property",p,"-tier","quick","-repo",w+"/repo","-verif","/verif","-noevidence"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,
           env=dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod"))
        o = r.stdout.decode(errors="replace")
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        ok = r.returncode==1 and v
        print(id, p, "CAUGHT" if ok else "MISSED rc=%d"%r.returncode, "%.0fs"%(time.time()-t), (v[0] if v else "\n".join(o.splitlines()[-3:]))[:160], flush=True)
        if not ok: bad.append(id)
    shutil.rmtree(w)
print("missed:", bad)
