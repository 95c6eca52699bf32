#!/usr/bin/env python3
"""Builds the explorer of harness/miri for the Miri interpreter and runs it in parallel processes.
usage: c23.py setup|run"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE=os.environ["VERIF_ROOT"]; TGT=os.environ["CARGO_TARGET_DIR"]; EV=f"{HERE}/evidence"; T0=time.time()
THOROUGH=os.environ.get("VERIF_TIER")=="thorough"
ENV=dict(os.environ,RUSTUP_TOOLCHAIN="nightly",CARGO_TARGET_DIR=f"{TGT}/miri",MIRI_SYSROOT=f"{TGT}/miri-sysroot",
         CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",XDG_CACHE_HOME=f"{TGT}/miri-cache")
def cargo(args,flags="",timeout=None,crate="fmcheck-miri"):
    cmd=["cargo","miri",*args]
    env=ENV
    if "assertions" in flags: env=dict(ENV,CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="true",CARGO_TARGET_DIR=f"{TGT}/miri-assert"); flags=flags.replace("assertions","")
    try: r=subprocess.run(cmd,cwd=f"{HERE}/harness",env=dict(env,MIRIFLAGS=f"-Zmiri-ignore-leaks {flags}".strip()),stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout,errors="replace")
    except subprocess.TimeoutExpired as e: return 124,(e.stdout or b"").decode(errors="replace") if isinstance(e.stdout,bytes) else "",""
    return r.returncode,r.stdout,r.stderr
def run(args,flags="",timeout=None): return cargo(["run","--offline","-q","-p","fmcheck-miri","--",*args],flags,timeout)
def die(code,text): print(text[-6000:],file=sys.stderr); sys.exit(code)
os.makedirs(f"{EV}/replay",exist_ok=True)
if not os.path.exists(f"{TGT}/miri-sysroot/lib"):
    rc,o,e=cargo(["setup"])
    if rc: die(2,o+e)
TIER=["thorough"] if THOROUGH else []
rc,out,err=run(["list",*TIER])
UB=re.compile(r"error: Undefined Behavior|unsafe precondition\(s\) violated")
if rc and not UB.search(err):
    # the harness alone does not compile: a supported declaration or operation is gone
    lib=subprocess.run(["cargo","build","--offline","-p","fixed-map"],cwd=f"{HERE}/harness",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if lib.returncode or not re.search(r"^error: could not compile `fmcheck",err,re.M) or re.search(r"No space left|signal: \d+|internal compiler error",err): die(2,err+lib.stdout)
    p=f"{EV}/replay/C23-build.txt"; open(p,"w").write("property C23\nsupported declarations or public operations do not compile any more:\n"+err[:8000])
    print(err[:2000]); print(f"VIOLATION property=C23 replay={p}"); sys.exit(1)
if rc: die(2,err)
if sys.argv[1]=="setup": sys.exit(0)
jobs=[(i,int(n),int(pr),name) for i,(n,pr,name) in enumerate(l.split(" ",2) for l in out.splitlines())]
def weight(n,pr,name):
    """Rough cost in seconds; only the balance of the processes depends on it."""
    if THOROUGH:
        if name.endswith(" wide"): return n*3
        if pr: return 60*(n*20+22)**2*2**n/3500
        return {"Bomb":(n*20+22)*2**min(n,6)*3*.04,"set":2**n*(n+8)*3*.02}.get(name.split()[-1],(n*20+22)*2**min(n,6)*6*.03 if n else 15)
    if pr: return 55
    if name.endswith(" wide"): return n*3
    dyn=3 if name.split()[0] in ("DA","DB","u8","&str") else 1
    return {"Bomb":n*10*dyn,"set":max(1,(n-2)*4*dyn),"values":n*12}.get(name.split()[-1],6)
GOAL=600 if THOROUGH else 15
units=[]; small=[]; acc=0
for i,n,pr,name in sorted(jobs,key=lambda j:-weight(*j[1:])):
    w=weight(n,pr,name); k=max(1,round(w/GOAL)) if "both" not in name and "ordered" not in name else 1
    if k>1: units+=[[f"{i}:{s}/{k}"] for s in range(k)]
    else:
        small.append(f"{i}:0/1"); acc+=w
        if acc>=GOAL: units.append(small); small=[]; acc=0
if small: units.append(small)
MODELS=["","-Zmiri-tree-borrows"] if THOROUGH else [""]
LIMIT=7200 if THOROUGH else 780
viol=[]; tot=dict(states=0,transitions=0,traces=0); done=[]; samples=[]
def tier(flags): return [] if "assertions" in flags else TIER
def one(u):
    units,flags=u
    left=LIMIT-(time.time()-T0)
    return u,(125,"","") if left<=0 else run(["run",",".join(units),*tier(flags)],flags,left)
todo=[(x,m) for m in MODELS for x in units]
if THOROUGH:
    # builds with assertions too, as deep as the quick tier goes
    rc,out,err=cargo(["run","--offline","-q","-p","fmcheck-miri","--","list"],"assertions")
    if rc: die(2,err)
    todo+=[([f"{i}:0/1"],"assertions") for i in range(len(out.splitlines()))]
bad=[]
with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
    for u,(rc,out,err) in ex.map(one,todo):
        for l in out.splitlines():
            m=re.match(r"DONE (\S+) states=(\d+) transitions=(\d+) traces=(\d+) name=(.*)",l)
            if m:
                for k,v in zip(("states","transitions","traces"),m.groups()[1:4]): tot[k]+=int(v)
                done.append((m[5],m[1].split(":")[1],int(m[4]),u[1]))
        if rc: bad.append((u,rc,out,err))
unfinished=[]
for (u,flags),rc,out,err in bad[:4]:
    at=[l for l in out.splitlines() if l.startswith("JOB ")]
    if rc in (124,125): unfinished.append(at[-1] if at else str(u)); continue
    if not UB.search(err): die(3,f"{at[-1:]} exited {rc}\n{err}")
    shard=at[-1].split()[1] if at else u[0]
    rc2,out2,err2=run(["run",shard,*tier(flags),"journal"],flags,600)
    if rc2==0 or not UB.search(err2): die(3,f"the report does not repeat: {at[-1:]} exited {rc}, then {rc2}\n{err}\n{err2}")
    trace=[l for l in out2.splitlines() if l.startswith(("keys","set"))]
    msg=next(l for l in err2.splitlines() if UB.search(l))
    where=re.findall(r"(?:-->|at) (\S*(?:/src/|fixed-map)\S*:\d+:\d+)",err2)[:4]
    p=f"{EV}/replay/C23-{len(viol)}.txt"
    open(p,"w").write(f"property C23\n{at[-1] if at else ''}\nlast trace: {trace[-1] if trace else 'none (before the first trace)'}\ncommand: fmcheck-miri run {shard} {' '.join(tier(flags))} journal {flags}\n{err2[:12000]}\n")
    viol.append((f"{at[-1][4:] if at else ''}: {trace[-1] if trace else ''}: {msg} {' '.join(where)}",p))
if unfinished and not viol: die(2,f"not finished within {LIMIT} s: {unfinished}")
names=sorted({d[0] for d in done})
known=[l[len("known: property=C23 "):] for l in open(f"{HERE}/known_findings.txt").read().splitlines() if l.startswith("known: property=C23 ")]
for sig,_ in viol:
    if sig in known: print(f"KNOWN-FINDING: property=C23 {sig}")
viol=[v for v in viol if v[0] not in known]
ev={"property":"C23","tier":"thorough" if THOROUGH else "quick","seed":int(os.environ.get("VERIF_SEED","1")),"level":"model_checking",
 "coverage":{"states":tot["states"],"transitions":tot["transitions"],"traces_validated_against_impl":tot["traces"],"jobs":len(names),"processes":len(todo),
  "aliasing_models":["Stacked Borrows","Tree Borrows"][:len(MODELS)],"exhaustive":not viol,
  "rule":"every trace (an operation or, for the smallest types, a pair of operations from some contents, with or without a panic at one place where user code runs, followed by reading everything through every accessor and dropping everything) executed on the implementation under the Miri interpreter; states: initial contents; samples: job and its number of traces",
  "samples":[f"{n}: {sum(d[2] for d in done if d[0]==n)} traces" for n in names[::9]]},
 "assumptions":["Undefined behaviour is what Miri reports under Stacked Borrows (thorough: also Tree Borrows).","One value stored per key differs only by which of three constants it is."],
 "wall_s":round(time.time()-T0,3),"violations":len(viol)}
json.dump(ev,open(f"{EV}/C23.json","w"),indent=1)
print(f"C23: jobs={len(names)} processes={len(todo)} states={tot['states']} transitions={tot['transitions']} traces={tot['traces']} wall={ev['wall_s']}s")
for sig,p in viol: print(f"{sig}\nVIOLATION property=C23 replay={p}")
sys.exit(1 if viol else 0)
