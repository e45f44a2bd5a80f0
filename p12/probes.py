#!/usr/bin/env python3
"""Compiles every probe; prints one line per probe; exit 0/1/3."""
import subprocess, sys, os, json, concurrent.futures as cf
here=os.path.dirname(os.path.abspath(__file__)); target=sys.argv[1]
SYNC=["cell","rc","raw"]; ALL=["cell","rc","guard","raw"]
P=[]  # (scene, cfgs of the sound variant, [cfgs of the forbidden variants])
g=dict(pay="plain")
for sc in ("static_node","foreign_worker","foreign_worker_default","send_handle"):
    P.append((sc,g,[dict(pay=k) for k in ALL]))
for sc in ("share_handle","share_node"):
    P.append((sc,g,[dict(pay=k) for k in ALL]))
P.append(("share_list",g,[dict(pay="plain",raw="local")]))
P.append(("static_node",g,[dict(pay="plain",raw="local")]))
P.append(("send_handle_of_local_list",g,[dict(pay="plain",raw="local")]))
for sc in ("shared_write","load_during_write","clone_handle","stack_node","stack_list","move_node"):
    P.append((sc,g,[dict(pay="plain",bad=None)]))
def cfgs(scene,d):
    a=["--cfg",f'scene="{scene}"']
    for k,v in d.items(): a+=["--cfg",k if v is None else f'{k}="{v}"']
    return a
env=dict(os.environ,CARGO_NET_OFFLINE="true",CARGO_TARGET_DIR=target)
# build the dependencies once and learn how cargo calls rustc for the last crate
r=subprocess.run(["cargo","+stable","rustc","--offline","--profile","dev","-v","--"]+cfgs("share_list",g),cwd=os.path.join(here,"probes"),env=env,capture_output=True,text=True)
def ok(scene,d,n):
    e=dict(env,CARGO_TARGET_DIR=target)
    deps=os.path.join(target,"debug/deps")
    def one(crate):
        c=[f for f in os.listdir(deps) if f.startswith(f"lib{crate}-") and f.endswith((".rlib",))]
        c.sort(key=lambda f: os.path.getmtime(os.path.join(deps,f)))
        return os.path.join(deps,c[-1])
    ext=[]
    for c in ("cfg_noodle","minicbor","mutex_traits"): ext+=["--extern",f"{c}={one(c)}"]
    out=os.path.join(target,f"probe{n}"); os.makedirs(out,exist_ok=True)
    r=subprocess.run(["rustc","+stable","--edition","2024","--crate-type","bin","--crate-name","probe","--emit","metadata","--cap-lints","allow","-L",f"dependency={deps}","--out-dir",out,"src/main.rs"]+ext+cfgs(scene,d),cwd=os.path.join(here,"probes"),env=e,capture_output=True,text=True)
    return r.returncode==0, r.stderr
if r.returncode!=0:
    print(r.stderr[-3000:]); print("ERROR: the sound probe does not build"); sys.exit(3)
jobs=[]
for sc,good,bads in P:
    if not any(j[1]==sc and j[2]==good for j in jobs): jobs.append(("good",sc,good))
    jobs+=[("bad",sc,b) for b in bads]
with cf.ThreadPoolExecutor(8) as ex: res=list(ex.map(lambda x: ok(x[1][1],x[1][2],x[0]),enumerate(jobs)))
goodok={(j[1]) for j,r in zip(jobs,res) if j[0]=="good" and r[0]}
bad=skip=rej=0
for (kind,sc,d),(c,err) in zip(jobs,res):
    name=sc+":"+",".join(k if v is None else f"{k}={v}" for k,v in d.items())
    if kind=="good":
        if not c: print(f"SKIP {sc}: the sound variant does not compile\n{err[:600]}")
    elif sc not in goodok: skip+=1
    elif c: bad+=1; print(f"ACCEPTED {name}: a program that would be unsound compiles")
    else: rej+=1; print(f"rejected {name}: {next((l for l in err.splitlines() if l.startswith('error')),'?')}")
print(f"events probes_rejected={rej} probes_sound={len(goodok)} probes_skipped={skip}")
if bad: sys.exit(1)
sys.exit(0 if rej else 3)
