#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from a description and confirms it in a scratch copy of /repo.
A batch file calls seed(...) for every planted change: python3 tools/seed.py BATCH.py"""
import json,os,re,shutil,subprocess,sys,tempfile
REPO="/repo"; OUT="/verif/seeded"
ENV=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=vendor",GOWORK="off",GOENV="off")
DEMO='''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestPlanted' ./%(pkg)s
'''
WT=tempfile.mkdtemp(prefix="seedwt.")+"/repo"
subprocess.check_call(["cp","-a",REPO,WT])
def sh(cmd,**k): return subprocess.run(cmd,shell=True,cwd=WT,env=ENV,capture_output=True,text=True,**k)
base=sh("git rev-list --max-parents=0 HEAD").stdout.strip()
stable=set(map(str,json.load(open("/opt/vp/BASELINE.json")).get("stable",[]))) if os.path.exists("/opt/vp/BASELINE.json") else set()
results=[]
def seed(id,prop,needs,breaks,edits,pkg,demo):
    only=os.environ.get("ONLY")
    if only and not re.search(only,id): return
    sh("git checkout -q -- . && git clean -fdq")
    d=os.path.join(OUT,id); os.makedirs(d,exist_ok=True)
    open(d+"/demo_test.go","w").write(demo); open(d+"/demo.sh","w").write(DEMO%{"pkg":pkg}); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    def bad(m):
        print("BAD",id,m); results.append((id,False)); shutil.rmtree(d)
    r=sh("bash %s/demo.sh"%d)
    if r.returncode: return bad("demo fails on the clean tree\n"+r.stdout[-3000:]+r.stderr[-2000:])
    for f,old,new in edits:
        p=WT+"/"+f; s=open(p).read()
        if s.count(old)!=1: return bad("edit matches %d times in %s: %r"%(s.count(old),f,old))
        open(p,"w").write(s.replace(old,new))
    diff=sh("git diff").stdout
    # the changed lines must be lines of the original repository
    touched=0
    for f,old,new in edits:
        bl=sh("git blame -s HEAD -- "+f).stdout.splitlines()
        d0=sh("git diff -U0 -- "+f).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?",d0,re.M):
            a=int(m[1]); n=int(m[2]) if m[2] is not None else 1
            for i in range(a,a+n):
                if bl[i-1].lstrip("^").split()[0][:7]==base[:7]: touched+=1
                else: print("  warn",id,"touches a line of a later commit:",bl[i-1])
    r=sh("go build ./...")
    if r.returncode: return bad("does not build\n"+r.stderr)
    r=sh("bash %s/demo.sh"%d)
    if r.returncode==0: return bad("demo passes with the change")
    if "build failed" in r.stdout: return bad("demo does not build with the change")
    why=[l for l in r.stdout.splitlines() if "demo_test" in l or "panic" in l][:2]
    r=sh("go test -vet=off ./... 2>&1 | grep -v 'no test files'")
    if "FAIL" in r.stdout: return bad("existing tests fail\n"+"\n".join([l for l in r.stdout.splitlines() if "FAIL" in l or "_test.go" in l][:8]))
    open(d+"/patch.diff","w").write(diff)
    print("ok",id,prop,"orig lines:",touched,why); results.append((id,True))
try: exec(open(sys.argv[1]).read())
finally: shutil.rmtree(os.path.dirname(WT))
print(sum(ok for _,ok in results),"of",len(results))
