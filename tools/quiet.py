#!/usr/bin/env python3
"""quiet.py FILE.py [ID...]: runs all checks against edits that keep the
behaviour and prints the ones that raise an alarm (none should).
CHECKS=C01,C02 limits the checks."""
import sys,os,subprocess,tempfile,runpy
refs=runpy.run_path(sys.argv[1])["REF"]
checks=os.environ.get("CHECKS","").split(",") if os.environ.get("CHECKS") else ["C%02d"%i for i in range(1,45)]
for r in refs:
    if sys.argv[2:] and r["id"] not in sys.argv[2:]: continue
    w=tempfile.mkdtemp(prefix="quiet.",dir="/tmp")
    subprocess.run(f"cp -a /repo {w}/repo; mkdir {w}/verif; cp -a /verif/harness /verif/*.sh {w}/verif/",shell=True)
    bad=None
    for f,old,new in r["edits"]:
        p=f"{w}/repo/{f}"; s=open(p).read()
        if old not in s: bad=f"{f}: not found: {old[:60]!r}"; break
        open(p,"w").write(s.replace(old,new,1))
    env=dict(os.environ,PATH="/usr/local/go/bin:"+os.environ["PATH"],GOFLAGS="-buildvcs=false")
    if not bad:
        p=subprocess.run("go vet ./... && go test ./...",shell=True,cwd=w+"/repo",env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if p.returncode: bad=p.stdout[-600:]
    if bad: print(r["id"],"UNUSABLE",bad,flush=True)
    else:
        n=0
        for c in checks:
            p=subprocess.run(["unshare","-mn","bash","-c",f"ip link set lo up; mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && timeout 900 ./run.sh {c}"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
            if p.returncode:
                n+=1; print(r["id"],c,"exit",p.returncode,p.stdout[-700:],flush=True)
        print(r["id"],"done,",n,"alarms",flush=True)
    subprocess.run(["rm","-rf",w])
