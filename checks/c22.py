#!/usr/bin/env python3
"""Builds the explorer under every feature set, and with and without assertions and optimization, and compares the transcripts.
usage: c22.py setup|run"""
import itertools, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE=os.environ["VERIF_ROOT"]; TGT=os.environ["CARGO_TARGET_DIR"]; EV=f"{HERE}/evidence"; T0=time.time()
FEATS=["hashbrown","serde","std"]
SETS=[(c,"dev") for n in range(4) for c in itertools.combinations(FEATS,n)]
# the builds users ship: no assertions and wrapping arithmetic; optimized as well
SETS+=[((),"nodebug"),(tuple(FEATS),"shipped")]
if os.environ.get("VERIF_TIER")=="thorough": SETS+=[(tuple(FEATS),"nodebug"),((),"shipped"),(("hashbrown",),"shipped")]
def name(c): return ("+".join(c[0]) or "none")+("" if c[1]=="dev" else " "+c[1])
def slug(c): return name(c).replace(" ","-")
def build(c, pkg=("-p","fmcheck-feat")):
    fs,prof=c
    cmd=["cargo","build","--offline",*pkg,"--no-default-features","--profile",prof,"--target-dir",f"{TGT}/feat/{slug(c)}"]
    if fs: cmd+=["--features",",".join(fs)]
    r=subprocess.run(cmd,cwd=f"{HERE}/harness",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return r.returncode,r.stdout
def violation(sig,text):
    os.makedirs(f"{EV}/replay",exist_ok=True)
    p=f"{EV}/replay/C22-{len(viol)}.txt"
    open(p,"w").write(f"property C22\n{sig}\n{text}\n")
    viol.append((sig,text,p))
def run(fs):
    out=f"{EV}/.feat-{slug(fs)}.txt"
    env=dict(os.environ,FEAT_OUT=out,VERIF_EVIDENCE=f"{EV}/.feat-{slug(fs)}.json",VERIF_ROOT=f"{EV}/.feat-{slug(fs)}")
    if os.path.exists(out): os.remove(out)
    try: r=subprocess.run([f"{TGT}/feat/{slug(fs)}/{'debug' if fs[1]=='dev' else fs[1]}/fmcheck-feat"],env=env,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=600)
    except subprocess.TimeoutExpired: return 124,"did not finish within 600 s",[]
    return r.returncode,r.stdout+r.stderr,(open(out).read().splitlines() if os.path.exists(out) else [])
viol=[]
with ThreadPoolExecutor(8) as ex: built=dict(zip(SETS,ex.map(build,SETS)))
if sys.argv[1]=="setup": sys.exit(0 if all(rc==0 for rc,_ in built.values()) else "build failed")
bad={fs:log for fs,(rc,log) in built.items() if rc}
for fs,log in bad.items():
    if not re.search(r"^error: could not compile `(fixed-map|fmcheck-feat)",log,re.M) or re.search(r"No space left|signal: \d+|internal compiler error",log):
        print(log,file=sys.stderr); sys.exit(2)
if bad and len(bad)==len(SETS):
    # nothing builds: only the library compiling by itself tells a missing operation from a broken build
    rc=subprocess.run(["cargo","build","--offline","-p","fixed-map"],cwd=f"{HERE}/harness",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if rc.returncode: print(rc.stdout,file=sys.stderr); sys.exit(2)
for fs,log in bad.items(): violation(f"features {name(fs)}: build","does not build:\n"+"\n".join(l for l in log.splitlines() if not re.match(r"\s*(Compiling|Finished)",l))[:6000])
good=[fs for fs in SETS if fs not in bad]
with ThreadPoolExecutor(2) as ex: res=dict(zip(good,ex.map(run,good)))
base=None; states=trans=traces=0; types=set(); samples=[]
STATIC={"()","bool","Option<()>","Option<bool>","Option<Option<bool>>","zoo::U0","zoo::U3","zoo::K3","zoo::NestA","zoo::NestB","Option<zoo::K3>"}
DYN={"char","u8","u32","u64","u128","usize","i8","i32","i64","i128","isize","&'static str","&'static [u8]","Option<u8>","Option<Option<char>>","Option<&'static str>"}
for fs in good:
    rc,text,lines=res[fs]
    if rc==1:
        for l in [l for l in text.splitlines() if not l.startswith("VIOLATION")][1:6]: violation(f"features {name(fs)}: {l.strip()}",text[:4000])
        if not lines: continue
    elif rc==124: violation(f"features {name(fs)}: run",text); continue
    elif rc!=0:
        again=run(fs)
        if again[0] in (0,1) or again[0]>0: print(text,file=sys.stderr); sys.exit(3)
        violation(f"features {name(fs)}: the process died ({rc})",text[:4000]); continue
    keys={l[2:].rsplit(" ",1)[0]:l.endswith("true") for l in lines if l.startswith("K ")}
    for t in sorted(STATIC|DYN):
        want=t in STATIC or "hashbrown" in fs[0]
        if keys.get(t)!=want: violation(f"features {name(fs)}: key type {t}",f"{t} is {'' if keys.get(t) else 'not '}a key type; expected {want}")
    never={t for t in keys if t not in STATIC|DYN and keys[t]}
    tr={l.split()[1]:l.split()[2] for l in lines if l.startswith("T ")}
    for l in lines:
        if l.startswith("T "): _,t,h,a,b,c=l.split(); states+=int(a); trans+=int(b); traces+=int(c); types.add(t)
    for l in lines:
        if l.startswith("D "): _,t,a,b,c=l.split(); states+=int(a); trans+=int(b); traces+=int(c); types.add(t)
    if "hashbrown" not in fs[0] and never: violation(f"features {name(fs)}: key types {sorted(never)}","not statically stored")
    if base is None: base=(fs,tr); samples=[f"{t}: transcript {h}" for t,h in sorted(tr.items())[::17]]
    else:
        for t in sorted(set(tr)|set(base[1])):
            if tr.get(t)!=base[1].get(t): violation(f"features {name(fs)}: type {t}",f"observations {tr.get(t)} differ from those under features {name(base[0])}: {base[1].get(t)}")
known=[l[len("known: property=C22 "):] for l in open(f"{HERE}/known_findings.txt").read().splitlines() if l.startswith("known: property=C22 ")]
for s,_,_ in viol:
    if s in known: print(f"KNOWN-FINDING: property=C22 {s}")
viol=[v for v in viol if v[0] not in known]
ev={"property":"C22","tier":os.environ.get("VERIF_TIER","quick"),"seed":int(os.environ.get("VERIF_SEED","1")),"level":"model_checking",
 "coverage":{"states":states,"transitions":trans,"traces_validated_against_impl":traces,"builds":[name(f) for f in SETS],"types":len(types),"exhaustive":not viol,
  "rule":"the same exploration (every operation in every state of small statically stored key types, histories, structured contents of large ones, comparison, hashing, formatting, iteration from both ends) executed on builds under all 8 feature sets, and on builds without assertions and with optimization, each in lockstep with the reference, and the transcripts of everything observed compared; dynamically stored key types explored in lockstep with the reference wherever the dynamic storage is enabled; which types are keys compared with the rule under every feature set",
  "samples":samples},
 "assumptions":[],"wall_s":round(time.time()-T0,3),"violations":len(viol)}
json.dump(ev,open(f"{EV}/C22.json","w"),indent=1)
print(f"C22: builds={len(SETS)} types={len(types)} states={states} transitions={trans} traces={traces} wall={ev['wall_s']}s")
for s,t,p in viol[:5]: print(f"{s}\n  {t[:600]}\nVIOLATION property=C22 replay={p}")
sys.exit(1 if viol else 0)
