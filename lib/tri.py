#!/usr/bin/env python3
"""Summarise a harness run: tri.py <flavour/binary> <check> <n> [args]"""
import json,subprocess,sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import concurrent.futures, tempfile, shutil
os.environ["PYTHONPATH"]=""
def env():
    e=dict(os.environ)
    e["ASAN_OPTIONS"]="detect_leaks=0:exitcode=77:handle_abort=1"
    e["UBSAN_OPTIONS"]="print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"]="exitcode=77:halt_on_error=1:history_size=7:suppressions=/verif/lib/tsan.supp"
    e["TZ"]="UTC"; e["LC_ALL"]="C"
    return e
b,chk,n=sys.argv[1:4]; n=int(n); extra=sys.argv[4:]
p=subprocess.run(["python3","/verif/lib/build.py",b],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
if p.returncode: print(p.stdout.decode()[-3000:]); sys.exit(1)
seen={}; errs={}; cnt={}
def run(lo,hi):
    pos=lo; k=0
    while pos<hi and k<15:
        d=tempfile.mkdtemp(prefix="tri",dir="/dev/shm")
        p=subprocess.run(["/verif/build/"+b,chk,"--from",str(pos),"--to",str(hi),"--dir",d+"/d"]+extra,stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=env(),timeout=1500)
        subprocess.run(["chmod","-R","u+rwx",d]); shutil.rmtree(d,ignore_errors=True)
        cur=None; done=False
        for l in p.stdout.split(b"\n"):
            if not l.startswith(b"@@ "): continue
            try: r=json.loads(l[3:])
            except Exception as ex: continue
            if r["t"]=="case": cur=r["case"]
            elif r["t"]=="violation":
                s=seen.setdefault(r["key"],[0,r["case"],r["detail"],r["context"]]); s[0]+=1
            elif r["t"]=="stats":
                for a,v in r["counters"].items(): cnt[a]=cnt.get(a,0)+v
                cnt["distinct"]=cnt.get("distinct",0)+len(r["distinct"])
            elif r["t"]=="done": done=True
        if done and p.returncode==0: return
        er=p.stderr.decode(errors="replace")
        from driver import crash_key
        key=str(crash_key(er,p.returncode))
        e=errs.setdefault(key,[0,cur,er]); e[0]+=1
        if cur is None: return
        pos=cur+1; k+=1
step=max(1,n//32)
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    list(ex.map(lambda lo:run(lo,min(n,lo+step)),range(0,n,step)))
W=int(os.environ.get("W","500"))
for k,v in sorted(seen.items()): print("V",k,"x%d"%v[0],"case",v[1],"::",v[2][:W],"||",v[3][:W//2])
for k,v in errs.items(): print("CRASH",k,"x%d"%v[0],"case",v[1],"\n","\n".join(l[:190] for l in v[2].split("\n")[:14]))
print(cnt)
