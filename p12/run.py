#!/usr/bin/env python3
"""P12: memory and concurrency safety. Runs compile probes, generated multi-threaded programs under
Miri (tree and stacked borrows), ThreadSanitizer and AddressSanitizer, and the API histories of the
other checks under Miri and AddressSanitizer. Exit 0 held, 1 violation, 3 no answer."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
ap=argparse.ArgumentParser(); ap.add_argument("--tier",default=os.environ.get("VERIF_TIER","quick")); ap.add_argument("--seed",type=int,default=int(os.environ.get("VERIF_SEED","1") or 1))
ap.add_argument("--build-only",action="store_true")
a,_=ap.parse_known_args()
thorough=a.tier=="thorough"; t0=time.time()
LIMIT=770 if thorough else 330
T=os.path.join(root,"target"); HARN=os.path.join(root,"harness"); WORK=os.path.join(here,"work")
OUT=os.path.join(root,"out"); os.makedirs(OUT,exist_ok=True)
base=dict(os.environ,CARGO_NET_OFFLINE="true",VERIF_ROOT=root); base.pop("RUSTFLAGS",None)
TGT="x86_64-unknown-linux-gnu"
ev={}; odd=[]; viol=[]; notes=[]; programs=set()
def add(k,n=1): ev[k]=ev.get(k,0)+n
def events(tag,text):
    for l in text.splitlines():
        if l.startswith("events "):
            for kv in l.split()[1:]:
                k,_,v=kv.partition("=")
                if v.isdigit(): add(f"{tag}.{k}",int(v))
        elif l.startswith(("program ","bare ")): programs.add(tag+l)
def left(): return LIMIT-(time.time()-t0)
def run(cmd,env,cwd,timeout):
    """-> (rc or None on timeout, output)"""
    p=subprocess.Popen(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",start_new_session=True)
    try: o,_=p.communicate(timeout=max(1,timeout)); return p.returncode,o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,9)
        except ProcessLookupError: pass
        o,_=p.communicate(); return None,o or ""
BAD=re.compile(r"error: Undefined Behavior|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|unsafe precondition\(s\) violated|misaligned pointer dereference|null pointer dereference occurred|torn value|Data race detected|dangling pointer")
def judge(tag,what,rc,o,cmd,env):
    events(tag,o)
    m=BAD.search(o)
    crash=rc is not None and rc in(-4,-7,-8,-11,132,135,136,139) and not m
    if m or crash:
        p=os.path.join(OUT,f"P12-{tag}-{len(viol)}.txt")
        i=max(0,(m.start() if m else len(o))-3000)
        with open(p,"w") as f:
            f.write(f"property P12\nviolation: {what}: {m.group(0) if m else 'crash'}\nreplay: cd {env.get('_cwd','')} && "+" ".join(f"{k}={v!r}" for k,v in env.items() if k in("MIRIFLAGS","MIRI_SYSROOT","CARGO_TARGET_DIR","RUSTFLAGS","ASAN_OPTIONS","TSAN_OPTIONS"))+" "+" ".join(cmd)+"\n\n"+o[i:i+12000])
        head=o[m.start():m.start()+300].splitlines()[0] if m else f"crashed with status {rc}"
        viol.append((f"{what}: {head}",p))
    elif rc not in (0,None):
        odd.append(f"{what}: status {rc}: {o.strip().splitlines()[-1][:200] if o.strip() else ''}")
    elif rc is None: add(tag+".timeouts")
# ---------------- builds
def build(kind):
    e=dict(base)
    if kind=="probes":
        return run([sys.executable,os.path.join(here,"probes.py"),os.path.join(T,"p12-probes")],e,here,600)
    if kind=="tsan":
        e["RUSTFLAGS"]="-Zsanitizer=thread"; e["CARGO_TARGET_DIR"]=os.path.join(T,"p12-tsan")
        return run(["cargo","+nightly","build","--offline","-Zbuild-std","--target",TGT],e,WORK,600)
    if kind=="asan":
        e["RUSTFLAGS"]="-Zsanitizer=address"; e["CARGO_TARGET_DIR"]=os.path.join(T,"p12-asan")
        r=run(["cargo","+nightly","build","--offline","--target",TGT],e,WORK,600)
        return r if r[0]!=0 else run(["cargo","+nightly","build","--offline","--target",TGT],e,HARN,600)
    if kind=="miri":
        e["MIRI_SYSROOT"]=os.path.join(T,"miri-sysroot"); e["CARGO_TARGET_DIR"]=os.path.join(T,"p12-miri")
        r=run(["cargo","+nightly","miri","setup"],e,WORK,600)
        if r[0]!=0: return r
        # building happens on the first run of each program
        e["MIRIFLAGS"]=MIRI
        r=run(["cargo","+nightly","miri","run","--offline","-q","--","1","0","1"],e,WORK,600)
        if r[0]!=0: return r
        return run(["cargo","+nightly","miri","run","--offline","-q","--","P23","--bare","--iters","0"],e,HARN,600)
MIRI="-Zmiri-ignore-leaks -Zmiri-disable-isolation"
with cf.ThreadPoolExecutor(4) as ex:
    b=dict(zip(("probes","tsan","asan","miri"),ex.map(build,("probes","tsan","asan","miri"))))
print(f"built after {time.time()-t0:.0f} s: "+", ".join(f"{k} {v[0]}" for k,v in b.items()))
if a.build_only: sys.exit(0)
# the machine may be busy: what the builds took longer than usual is added, within the time a check may take
LIMIT=min(780,max(LIMIT,time.time()-t0+(650 if thorough else 230)))
built=[]
for k,(rc,o) in b.items():
    if k=="probes":
        events("probes",o)
        for l in o.splitlines():
            if l.startswith("ACCEPTED"):
                p=os.path.join(OUT,f"P12-probe-{len(viol)}.txt")
                open(p,"w").write(f"property P12\nviolation: {l}\nreplay: {here}/probes.py {T}/p12-probes\nprogram: {here}/probes/src/main.rs\n")
                viol.append((l,p))
            elif l.startswith("SKIP"): notes.append(l)
        continue
    if rc==0: built.append(k)
    else:
        # undefined behaviour may already show in the first run
        m=BAD.search(o)
        if m: judge(k,f"first run under {k}",rc,o,["(build)"],base)
        else: notes.append(f"{k} did not build: {o[-600:]}")
# ---------------- runs
S=a.seed
def miri_env(flags,cwd): return dict(base,MIRI_SYSROOT=os.path.join(T,"miri-sysroot"),CARGO_TARGET_DIR=os.path.join(T,"p12-miri"),MIRIFLAGS=MIRI+" "+flags,_cwd=cwd)
jobs=[]
def nat(kind,cmd,what,secs,cwd,opts):
    e=dict(base,_cwd=cwd,P12_SECS=str(secs),**opts); return (kind,cmd,e,cwd,what,secs)
n_prog=60000 if not thorough else 400000
if "tsan" in built:
    exe=os.path.join(T,"p12-tsan",TGT,"debug/p12-work")
    for i in range(4): jobs.append(nat("tsan",[exe,str(S*1000003+i*7919+1),str(n_prog//4),str(12+i*12)],"generated programs under ThreadSanitizer",60 if not thorough else 200,WORK,dict(TSAN_OPTIONS="halt_on_error=1 history_size=4")))
if "asan" in built:
    exe=os.path.join(T,"p12-asan",TGT,"debug/p12-work"); hx=os.path.join(T,"p12-asan",TGT,"debug/cfgn-harness")
    o=dict(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1")
    for i in range(2): jobs.append(nat("asan",[exe,str(S*2000003+i*104729+5),str(n_prog//10),str(20+i*20)],"generated programs under AddressSanitizer",40 if not thorough else 120,WORK,o))
    for p,n in (("P09",6000),("P10",6000),("P11",4000),("P13",5000),("P01",500),("P15",5000),("P14",3000),("P16",8000),("P17",2000),("P03",8000),("P18",300),("P06",500)):
        jobs.append(nat("asan",[hx,p,"--bare","--seed",str(S),"--from","500000","--iters",str(n*(8 if thorough else 1))],f"{p} histories under AddressSanitizer",40 if not thorough else 120,HARN,o))
if "miri" in built:
    k=12 if not thorough else 60
    hs=[]
    for i,p in enumerate(("P09","P10","P11","P13","P03","P23","P16","P17") if not thorough else ("P09","P10","P11","P13","P01","P16","P17","P03","P23","P07","P24","P08")):
        for j in range(1 if not thorough else 2):
            sb="" if (i+j)%3==0 else "-Zmiri-tree-borrows"
            e=miri_env(sb+f" -Zmiri-seed={S+i+100*j}",HARN)
            hs.append(("miri",["cargo","+nightly","miri","run","--offline","-q","--",p,"--bare","--seed",str(S),"--from",str(10_000*(j+1)),"--iters",str(k)],e,HARN,f"{p} histories under Miri",80 if not thorough else 170))
else: hs=[]
def go(j):
    kind,cmd,e,cwd,what,secs=j
    if left()<10 or viol: return None
    return run(cmd,e,cwd,min(secs,left()))
def pool(js,w=8):
    with cf.ThreadPoolExecutor(w) as ex:
        for j,r in zip(js,ex.map(go,js)):
            if r: judge(j[0],j[4],r[0],r[1],j[1],j[2])
def many(flags,lo,hi,weight,secs):
    if viol or left()<15: return
    e=miri_env(f"{flags} -Zmiri-many-seeds={lo}..{hi}",WORK)
    cmd=["cargo","+nightly","miri","run","--offline","-q","--","0","1",str(weight)]
    rc,o=run(cmd,e,WORK,min(secs,left()))
    judge("miri-threads","generated programs under Miri "+flags,rc,o,cmd,e)
pool(jobs); print(f"native sanitizers done after {time.time()-t0:.0f} s")
if "miri" in built:
    if not thorough:
        o=(S-1)*1000
        many("-Zmiri-tree-borrows",o,o+130,14,90)
        many("-Zmiri-tree-borrows -Zmiri-preemption-rate=0.15",o+300,o+350,10,60)
        many("",o+500,o+550,12,60)
    print(f"multi-threaded Miri programs done after {time.time()-t0:.0f} s")
    pool(hs)
    r=0
    while thorough and left()>40 and not viol:
        o=(S-1)*100000+r*400
        many("-Zmiri-tree-borrows",o,o+150,16,120); many("-Zmiri-tree-borrows -Zmiri-preemption-rate=0.15",o+150,o+250,12,120); many("",o+250,o+400,14,120); r+=1
# ---------------- report
for k in sorted(ev): print(f"  {k} = {ev[k]}")
for n in notes: print("note:",n)
for n in odd[:10]: print("not judged here:",n)
total=sum(v for k,v in ev.items() if k.endswith((".programs",".histories",".probes_rejected")))
json.dump(dict(property="P12",tier=a.tier,seed=S,level="exploration",coverage=dict(evaluations=total,distinct_nontrivial=len(programs)+ev.get("probes.probes_rejected",0)+sum(v for k,v in ev.items() if k in("tsan.programs","asan.programs")),
  rule="a unit is one generated multi-threaded program or API history executed to its end under an undefined-behaviour interpreter or sanitizer, or one compile probe; programs differ by generator seed and, under Miri, by schedule seed",
  observed=ev,samples=sorted(programs)[:6]),assumptions=["ThreadSanitizer and Miri see the executions that happen; absence of reports is not absence of races","aliasing rules are those of Miri's tree borrows and stacked borrows"],wall_s=round(time.time()-t0,1),violations=len(viol)),open(os.path.join(root,"evidence/P12.json"),"w"),indent=1)
print(f"P12 {a.tier} seed {S}: {total} programs, histories and probes, {time.time()-t0:.0f} s")
if viol:
    for w,p in viol[:5]: print(w)
    print(f"VIOLATION property=P12 replay={viol[0][1]}"); sys.exit(1)
need=["probes.probes_rejected","tsan.programs","asan.programs","asan.histories","miri-threads.programs"]
miss=[k for k in need if not ev.get(k)]
if miss: print("note: nothing observed for",miss)
if len(miss)>2: print("INCONCLUSIVE: nothing observed for",miss); sys.exit(3)
sys.exit(0)
