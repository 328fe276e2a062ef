#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: makes seeded/ID from definitions, after confirming them.

FILE.py defines BUGS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)...], and demo: either ("gotest", pkg, source) or ("sh", text).
A bug is kept when it builds, passes the stable tests, and its demo passes
without and fails with the change. Works on a copy mounted over /repo in a
mount namespace of its own (see inrepo.sh).
"""
import sys,os,subprocess,json,shutil,tempfile,runpy
HDR='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:$PATH GOFLAGS=-buildvcs=false GOTOOLCHAIN=local GOPROXY=off
export HOME=${HOME:-/root}
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
'''
def demo(bug,dst):
    kind=bug["demo"][0]
    if kind=="gotest":
        _,pkg,src=bug["demo"][:3]
        extra=bug["demo"][3] if len(bug["demo"])>3 else ""
        open(dst+"/demo_test.go.txt","w").write(src)
        text=HDR+f'''cp "$D/demo_test.go.txt" "$T/demo_test.go"
echo '{{"Replace":{{"'"$PWD/{pkg}/zz_demo_test.go"'":"'"$T/demo_test.go"'"}}}}' > "$T/o.json"
export TMPDIR="$T"
go test {extra} -count=1 -timeout 200s -overlay "$T/o.json" -run 'TestZZDemo' ./{pkg}
'''
    else:
        text=HDR+"export TMPDIR=\"$T\"\n"+bug["demo"][1]
    open(dst+"/demo.sh","w").write(text); os.chmod(dst+"/demo.sh",0o755)
def sh(cmd,cwd,t=600):
    p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors="replace")
    return p.returncode,p.stdout
def confirm(bug):
    w=tempfile.mkdtemp(prefix="plant.",dir="/tmp")
    try:
        sh(f"cp -a /repo {w}/repo",w)
        d=w+"/bug"; os.mkdir(d)
        for f,old,new in bug["edits"]:
            p=f"{w}/repo/{f}"; s=open(p).read()
            if s.count(old)!=1: return f"edit of {f}: {s.count(old)} occurrences of {old!r}"
            open(p,"w").write(s.replace(old,new))
        rc,diff=sh("git diff",w+"/repo")
        open(d+"/patch.diff","w").write(diff)
        json.dump(dict(property=bug["property"],needs=bug["needs"],what_it_breaks=bug["breaks"]),open(d+"/meta.json","w"),indent=1)
        demo(bug,d)
        iso=f"unshare -mn bash -c 'ip link set lo up; mount --bind {w}/repo /repo && cd /repo && "
        rc,out=sh(iso+"bash /opt/vp/build.sh'",w)
        if rc: return "build: "+out[-1500:]
        rc,out=sh(iso+f"bash /opt/vp/test.sh {w}/t.json'",w)
        base=json.load(open("/opt/vp/BASELINE.json"));got=json.load(open(w+"/t.json"))
        def names(x):
            for k in ("passed","pass","stable"):
                if k in x: return set(map(str,x[k]))
            return set()
        miss=names(base)-names(got)
        if miss or not names(got): return f"tests: {sorted(miss)[:5]} {list(got)[:5]}"
        rc,out=sh(iso+f"bash {d}/demo.sh'",w)
        if rc==0: return "demo passes with the patch\n"+out[-800:]
        bad=out
        sh("git checkout -q -- .",w+"/repo")
        rc,out=sh(iso+"bash /opt/vp/build.sh'",w)
        rc,out=sh(iso+f"bash {d}/demo.sh'",w)
        if rc: return "demo fails without the patch\n"+out[-1500:]
        dst="/verif/seeded/"+bug["id"]
        shutil.rmtree(dst,ignore_errors=True); shutil.copytree(d,dst)
        return "OK "+bad.strip()[-300:].replace("\n"," / ")
    finally:
        shutil.rmtree(w,ignore_errors=True)
bugs=runpy.run_path(sys.argv[1])["BUGS"]
want=sys.argv[2:]
from concurrent.futures import ThreadPoolExecutor
todo=[b for b in bugs if (b["id"] in want if want else not os.path.exists("/verif/seeded/"+b["id"]))]
with ThreadPoolExecutor(4) as ex:
    for b,r in zip(todo,ex.map(confirm,todo)): print(b["id"],":",r,flush=True)
