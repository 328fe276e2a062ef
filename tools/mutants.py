#!/usr/bin/env python3
"""mutants.py RESULTS [N]: mutation run. Picks mutants at random (seed by name),
builds, runs the stable tests, then the checks that concern the file, until one
reports. One line of JSON per mutant goes to RESULTS. Works on copies mounted
over /repo and /verif. SHARD=i/n in the environment: only the i-th of n parts."""
import sys,os,subprocess,json,random,shutil,tempfile,time
CH={"index/regexp.go":"C02 C34 C01 C31","index/read.go":"C03 C15 C17 C14 C04 C25 C28 C10 C34 C37 C35","index/write.go":"C04 C05 C23 C18 C27 C13 C24 C12 C14 C32 C37","index/merge.go":"C10 C17 C13 C27 C11 C12 C32","index/path.go":"C16 C15 C10 C11 C23","index/delta.go":"C04 C17 C25 C10 C14 C03","index/check.go":"C25","index/mmap_linux.go":"C14 C04 C20 C11",
"regexp/copy.go":"C29 C06","regexp/utf.go":"C29 C06","regexp/regexp.go":"C06 C07 C29 C21 C01","regexp/match.go":"C06 C07 C08 C09 C30 C19 C31 C21 C01","sparse/set.go":"C26 C06",
"cmd/csearch/csearch.go":"C01 C22 C18 C21 C19 C27 C33 C34 C37 C35","cmd/cgrep/cgrep.go":"C21 C08 C01 C37","cmd/csweb/web.go":"C19 C33 C20 C38","cmd/cindex/cindex.go":"C11 C23 C24 C13 C12 C27 C21 C37 C36 C35"}
out=sys.argv[1]; N=int(sys.argv[2]) if len(sys.argv)>2 else 10**9
only=sys.argv[3].split(",") if len(sys.argv)>3 else None
I,K=map(int,os.environ.get("SHARD","0/1").split("/"))
W=f"/tmp/mut{I}"; shutil.rmtree(W,ignore_errors=True); os.mkdir(W)
def sh(cmd,t=900,cwd=W):
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors="replace"); return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e: return 124,""
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh("export PATH=/usr/local/go/bin:$PATH; cd "+V+"/tools/mutate && go build -o "+W+"/mutate .")
sh(f"cp -a /repo {W}/repo; mkdir {W}/verif; cp -a {V}/harness {V}/*.sh {W}/verif/")
rc,o=sh(W+"/mutate "+" ".join(CH),cwd=W+"/repo")
ms=[json.loads(l) for l in o.splitlines()]
DEAD={("index/path.go","NumPaths"),("index/read.go","str"),("index/regexp.go","maybeRewrite"),("index/regexp.go","contains"),("index/regexp.go","maxLen"),("index/regexp.go","clear"),("index/write.go","step"),("index/write.go","empty"),("regexp/copy.go","cleanClass"),("regexp/copy.go","Less"),("regexp/copy.go","Len"),("regexp/copy.go","Swap"),("regexp/copy.go","progString"),("regexp/copy.go","instString"),("regexp/copy.go","bw"),("regexp/copy.go","dumpProg"),("regexp/copy.go","u32"),("regexp/copy.go","dumpInst")}
ms=[m for m in ms if (m["file"],m["func"]) not in DEAD and m["func"]!="String"]
if only: ms=[m for m in ms if m["file"] in only]
done=set()
if os.path.exists(out):
    for l in open(out):
        r=json.loads(l); done.add((r["file"],r["From"],r["To"],r["new"]))
random.Random(7).shuffle(ms)
ms=ms[I::K]
ms=[m for m in ms if (m["file"],m["From"],m["To"],m["new"]) not in done]
print(len(ms),"mutants")
base=set(map(str,json.load(open("/opt/vp/BASELINE.json"))["stable"]))
iso=f"unshare -mn bash -c 'ip link set lo up; mount --bind {W}/repo /repo && mount --bind {W}/verif /verif && cd /verif && "
env=f"export PATH=/usr/local/go/bin:$PATH GOFLAGS=-buildvcs=false GOCACHE=/tmp/mut{I}/cache; "
for m in ms[:N]:
    sh("git checkout -q -- .",cwd=W+"/repo")
    p=f"{W}/repo/{m['file']}"; s=open(p,"rb").read()
    open(p,"wb").write(s[:m["From"]]+m["new"].encode()+s[m["To"]:])
    m["src"]=s.decode().splitlines()[m["line"]-1].strip()
    rc,o=sh(env+"go build ./... 2>&1",cwd=W+"/repo")
    if rc: m["res"]="nobuild"
    else:
        rc,o=sh(iso+f"timeout 120 bash /opt/vp/test.sh {W}/t.json'")
        try: got=set(map(str,json.load(open(W+"/t.json"))["passed"]))
        except Exception: got=set()
        if base-got: m["res"]="tests"
        else:
            m["res"]="SURVIVED"; m["t"]={}
            for c in CH[m["file"]].split():
                t=time.time(); rc,o=sh(env+iso+f"timeout 400 ./run.sh {c}'"); m["t"][c]=[rc,round(time.time()-t)]
                if rc==1: m["res"]="caught "+c; break
                if rc!=0: m["res"]=f"rc{rc} {c}"; break
    open(out,"a").write(json.dumps(m)+"\n")
    if os.path.exists(W+"/cache") and random.random()<.02:
        rc,o=sh("du -sm "+W+"/cache")
        if int(o.split()[0])>20000: shutil.rmtree(W+"/cache")
