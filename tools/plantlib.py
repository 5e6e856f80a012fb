"""Helper used while planting bugs: makes a scratch copy of /repo, applies an edit,
confirms that it builds, passes the stable tests, and that the demonstration passes
without and fails with the change, then stores it under seeded/<id>/ and runs the check."""
import subprocess, os, json, tempfile, shutil, difflib
V=os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
ENV=dict(os.environ,PATH=os.environ["PATH"]+":/opt/veriftools/go1.27.3/bin",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",HOME="/root")
BASE=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PATH=$PATH:/opt/veriftools/go1.27.3/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
o=$(mktemp)
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo.go.txt" > "$o"
go test -vet=off -count=1 -timeout 120s -overlay "$o" -run '^TestDemo$' ./%(pkg)s
rc=$?
rm -f "$o"
exit $rc
'''
def tests(d):
    r=subprocess.run(["go","test","-json","-vet=off","-count=1","./..."],cwd=d,env=ENV,capture_output=True,text=True)
    ok=set()
    for l in r.stdout.splitlines():
        try: e=json.loads(l)
        except: continue
        if e.get("Action")=="pass" and e.get("Test"): ok.add(e["Package"]+"/"+e["Test"])
    return BASE-ok
def plant(id,prop,pkg,edits,needs,breaks,demo,check=True):
    d=tempfile.mkdtemp(prefix="plant_")
    r=os.path.join(d,"repo")
    try:
        subprocess.run(["cp","-a","/repo",r],check=True)
        s=os.path.join(V,"seeded",id); os.makedirs(s,exist_ok=True)
        open(s+"/demo.sh","w").write(DEMO%{"pkg":pkg}); os.chmod(s+"/demo.sh",0o755)
        open(s+"/demo.go.txt","w").write(demo)
        a=subprocess.run(["bash",s+"/demo.sh"],cwd=r,env=ENV,capture_output=True,text=True)
        if a.returncode!=0: print(id,"DEMO FAILS UNPATCHED",a.stdout[-1500:],a.stderr[-500:]); return
        for f,o,n in edits:
            t=open(os.path.join(r,f)).read()
            if t.count(o)!=1: print(id,"EDIT MATCHES",t.count(o),f,o[:60]); return
            open(os.path.join(r,f),"w").write(t.replace(o,n))
        b=subprocess.run(["go","build","./..."],cwd=r,env=ENV,capture_output=True,text=True)
        if b.returncode!=0: print(id,"NO BUILD",b.stderr); return
        m=tests(r)
        if m: print(id,"TESTS FAIL",m); return
        a=subprocess.run(["bash",s+"/demo.sh"],cwd=r,env=ENV,capture_output=True,text=True)
        if a.returncode==0: print(id,"DEMO PASSES PATCHED"); return
        df=subprocess.run(["git","diff"],cwd=r,capture_output=True,text=True).stdout
        open(s+"/patch.diff","w").write(df)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(s+"/meta.json","w"),indent=1)
        out=""
        if check:
            e=dict(ENV,VERIF_REPO=r,VERIF_SEED="1",VERIF_TIER="quick")
            ev=os.path.join(V,"evidence",prop+".json"); sv=open(ev).read() if os.path.exists(ev) else None
            c=subprocess.run(["./check.sh",prop],cwd=V,env=e,capture_output=True,text=True)
            if sv: open(ev,"w").write(sv)
            out="\n   ".join(c.stdout.splitlines()[:4])
            print(id,"VALID; check",prop,"->",c.returncode,"\n  ",out,c.stderr[-300:])
        else: print(id,"VALID")
    finally:
        shutil.rmtree(d,ignore_errors=True)
