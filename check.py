#!/usr/bin/env python3
"""check.py <ID> [--replay FILE] [--cases N]: build and run the monitors of one property against /repo's working tree.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough). Exit 0: held, 1: violation (VIOLATION line), 2: machinery failed."""
import sys, os, json, time, hashlib, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TEXTWOLF_REPO", "/repo")
SRC = os.path.join(HERE, "src")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
ENCS = ["UTF8","UTF16LE","UTF16BE","UCS2LE","UCS2BE","UCS4LE","UCS4BE","ISO"]
WARN = "-w"
ASAN = ["-std=c++17","-O1","-g1","-fsanitize=address,undefined","-fno-sanitize-recover=all","-fno-omit-frame-pointer",WARN]
# clang's automatic variable initialization also fills objects of classes, so that a member left uninitialized has a value that is wrong everywhere
CASAN = ["clang++"]+ASAN+["-ftrivial-auto-var-init=pattern"]
TSAN = ["-std=c++17","-O1","-g1","-fsanitize=thread","-fno-omit-frame-pointer",WARN]
PLAIN = ["-std=c++17","-O1","-g1",WARN]
UTF8ONLY = [("adapter.cpp",["-DINENC=UTF8"]),("adapter_all.cpp",["-DADAPTER_UTF8_ONLY"])]
ALLENC = [("adapter.cpp",["-DINENC="+e]) for e in ENCS]+[("adapter_all.cpp",[])]
LIGHT = [("adapter.cpp",["-DINENC="+e,"-DADAPTER_LIGHT"]) for e in ENCS]+[("adapter_all.cpp",[])]
# property -> list of programs: (name, [(source, flags)], base flags, runner options)
from checks_table import PROGRAMS, ASSUMPTIONS
PROGRAMS = PROGRAMS( UTF8ONLY, ALLENC, LIGHT, ASAN, CASAN, TSAN, PLAIN, ENCS)

def die(msg):
    print("ERROR: "+msg); sys.stdout.flush(); sys.exit(2)

def digest(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        with open(p,"rb") as f: d=f.read()
        h.update(os.path.basename(p).encode()+b"\0"+d+b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]

def headers(d, exts):
    out=[]
    for root,_,files in os.walk(d):
        for f in sorted(files):
            if f.endswith(exts): out.append(os.path.join(root,f))
    return sorted(out)

def compiler(flags):
    return flags if flags[0]=="clang++" else ["g++"]+flags

def compile_one(job):
    src, flags, obj = job
    if os.path.exists(obj): return None
    tmp = obj+".%d.tmp" % os.getpid()
    cmd = compiler(flags)+["-I"+os.path.join(REPO,"include"),"-I"+SRC,"-c",src,"-o",tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return " ".join(cmd)+"\n"+p.stdout[:6000]
    os.rename(tmp,obj)
    return None

def prune():
    d=os.path.join(BUILD,"obj"); files=[os.path.join(d,f) for f in os.listdir(d)]
    tot=sum(os.path.getsize(f) for f in files)
    for f in sorted(files,key=os.path.getmtime):
        if tot < 1500e6: break
        if time.time()-os.path.getmtime(f) < 3600: continue
        tot-=os.path.getsize(f); os.unlink(f)

def build(pid):
    os.makedirs(os.path.join(BUILD,"obj"), exist_ok=True)
    prune()
    incs = headers(os.path.join(REPO,"include"),(".hpp",".h"))+headers(SRC,(".hpp",".inc"))
    jobs={}; links=[]
    for name, sources, base, opts in PROGRAMS[pid]:
        objs=[]
        for s,fl in sources+([("vf.cpp",[])] if not opts.get("novf") else []):
            path=os.path.join(SRC,s)
            flags=base+fl
            obj=os.path.join(BUILD,"obj",digest(incs+[path],flags)+".o")
            jobs[obj]=(path,flags,obj); objs.append(obj)
        exe=os.path.join(BUILD,"obj",hashlib.sha256(("|".join(objs)+name).encode()).hexdigest()[:24]+".exe")
        links.append((name,exe,objs,base,opts))
    with ThreadPoolExecutor(8) as ex:
        errs=[e for e in ex.map(compile_one, jobs.values()) if e]
    if errs: die("compilation failed\n"+errs[0])
    def link(l):
        name,exe,objs,base,opts=l
        if os.path.exists(exe): return None
        tmp=exe+".%d.tmp"%os.getpid()
        p=subprocess.run(compiler(base)+objs+["-o",tmp,"-lpthread"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if p.returncode: return p.stdout[:4000]
        os.rename(tmp,exe); return None
    with ThreadPoolExecutor(4) as ex:
        errs=[e for e in ex.map(link, links) if e]
    if errs: die("link failed\n"+errs[0])
    return links

def known_keys(pid):
    keys=[]
    for l in open(os.path.join(HERE,"known_findings.txt")):
        m=re.match(r"finding: property=(\S+) key=(\S+) ",l)
        if m and m.group(1)==pid: keys.append(m.group(2))
    return keys

def main():
    args=sys.argv[1:]
    if not args: die("usage: check.py ID")
    pid=args[0]
    if pid=="--setup":
        # every check builds what it needs itself; here only the presence of the tools is verified
        for t in ("g++","clang++","valgrind"):
            if not shutil.which(t): die(t+" is missing")
        return 0
    if pid=="--build-all":
        for p in PROGRAMS: build(p)
        return 0
    tier=os.environ.get("VERIF_TIER","quick"); seed=os.environ.get("VERIF_SEED","1")
    replay=None; cases=None
    i=1
    while i<len(args):
        if args[i]=="--replay": replay=args[i+1]; i+=2
        elif args[i]=="--cases": cases=args[i+1]; i+=2
        elif args[i] in ("quick","thorough"): tier=args[i]; i+=1
        else: die("unknown option "+args[i])
    t0=time.time()
    links=build(pid)
    tb=time.time()-t0
    keys=known_keys(pid)
    os.makedirs(REPLAYS,exist_ok=True)
    work=os.path.join(BUILD,"run-%s-%d"%(pid,os.getpid()))
    os.makedirs(work,exist_ok=True)
    env=dict(os.environ)
    total={"evaluations":0,"distinct_nontrivial":0}; observed={}; samples=[]; known={}; violation=None; rule=""
    case=None; rprog=None
    if replay:
        txt=open(replay).read()
        seed=re.search(r"^seed (\d+)",txt,re.M).group(1); tier=re.search(r"^tier (\w+)",txt,re.M).group(1); case=re.search(r"^case (\d+)",txt,re.M).group(1)
        m=re.search(r"^program (\S+)",txt,re.M); rprog=m.group(1) if m else None
    for name,exe,objs,base,opts in links:
        if rprog and name!=rprog: continue
        out=os.path.join(work,name+".json"); pdir=os.path.join(work,name); os.makedirs(pdir,exist_ok=True)
        cmd=list(opts.get("wrap",[]))+[exe,"--seed",seed,"--dir",pdir,"--out",out,"--known",",".join(keys)]
        if tier=="thorough": cmd.append("--thorough")
        if case is not None: cmd+=["--case",case,"-v"]
        elif cases: cmd+=["--cases",cases]
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",env=env)
        if case is not None:
            print(p.stdout); print(p.stderr[:8000])
            if p.returncode: print("VIOLATION property=%s replay=%s"%(pid,replay)); return 1
            continue
        reps=[f for f in sorted(os.listdir(pdir)) if f.endswith(".replay")]
        if p.returncode in (3,-9):
            die("shard was killed (memory?)\n"+p.stderr[-2000:])
        if p.returncode==2: die("driver: "+p.stderr[-2000:])
        if p.returncode!=0:
            # violation found by a case, or the program died in its probes
            m=re.search(r"VIOLATION property=\S+ replay=(\S+)",p.stdout)
            rf=m.group(1) if m else (os.path.join(pdir,reps[0]) if reps else None)
            dest=os.path.join(REPLAYS,"%s-%s-%s"%(pid,name,os.path.basename(rf) if rf else "crash.replay"))
            body=open(rf,errors="replace").read() if rf and os.path.exists(rf) else "check %s\nseed %s\ntier %s\ncase 999999999\n\nprogram ended with status %d\n"%(pid,seed,tier,p.returncode)
            logf=rf+".log" if rf else None
            log=open(logf,errors="replace").read()[:20000] if logf and os.path.exists(logf) else p.stderr[:20000]
            with open(dest,"w") as f: f.write("program %s\n"%name+body+"\n--- log\n"+log)
            sys.stderr.write(p.stderr[:6000]+"\n")
            violation=violation or dest
        if os.path.exists(out):
            j=json.load(open(out)); total["evaluations"]+=j["evaluations"]; total["distinct_nontrivial"]+=j["distinct_nontrivial"]
            rule=(rule+"; " if rule else "")+j["rule"] if j["rule"] not in rule else rule
            pre="" if len(links)==1 else name+": "
            for k,v in j["observed"].items(): observed[pre+k]=v
            for s in j["samples"]:
                if len(samples)<5: samples.append(pre+s)
            known.update(j["known"])
    if case is not None:
        shutil.rmtree(work,ignore_errors=True); print("replayed case passed"); return 0
    cov={"evaluations":total["evaluations"],"distinct_nontrivial":total["distinct_nontrivial"],"rule":rule,"samples":samples,"observed":observed}
    ev={"property":pid,"tier":tier,"seed":int(seed),"level":"exploration","coverage":cov,"assumptions":ASSUMPTIONS.get(pid,ASSUMPTIONS["*"]),"wall_s":round(time.time()-t0,2),"violations":1 if violation else 0,
        "build_s":round(tb,2),"known_findings_observed":known,"sanitizers":"thread" if pid=="C20" else "none, edge counters (-fsanitize-coverage)" if pid=="C28" else "address+undefined"+(", valgrind memcheck for a part of the inputs" if pid=="C07" else "")}
    os.makedirs(os.path.join(HERE,"evidence"),exist_ok=True)
    with open(os.path.join(HERE,"evidence",pid+".json"),"w") as f: json.dump(ev,f,indent=1)
    shutil.rmtree(work,ignore_errors=True)
    for k in sorted(known): print("KNOWN-FINDING: property=%s key=%s %s"%(pid,k,known[k]))
    if violation:
        print("VIOLATION property=%s replay=%s"%(pid,violation)); return 1
    print("property=%s held: %d cases, %d distinct, %.1fs"%(pid,total["evaluations"],total["distinct_nontrivial"],time.time()-t0))
    return 0
if __name__=="__main__":
    sys.path.insert(0,HERE)
    sys.exit(main())
