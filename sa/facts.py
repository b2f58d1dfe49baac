"""Builds the driver if needed, runs it over the crates of /repo and loads the facts it dumps."""
import os,subprocess,json,hashlib,sys,pickle,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("SA_REPO","/repo")
WORK=os.path.join(V,".work")
def sh(cmd,env=None,cwd=None,timeout=1500):
    p=subprocess.run(cmd,env=env,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,text=True,errors="replace")
    return p.returncode,p.stdout
def sysroot():
    return subprocess.check_output(["rustc","+nightly","--print","sysroot"],text=True).strip()
def hashtree(root,exts=(".rs",".toml",".lock")):
    h=hashlib.sha256()
    for d,ds,fs in os.walk(root):
        ds[:]=sorted(x for x in ds if x not in("target",".git",".work"))
        for f in sorted(fs):
            if f.endswith(exts):
                p=os.path.join(d,f); h.update(p.encode()); h.update(open(p,"rb").read())
    return h.hexdigest()[:20]
def baseenv():
    e=dict(os.environ)
    for k in("RUSTUP_TOOLCHAIN","RUSTC","RUSTC_WRAPPER","CARGO_ENCODED_RUSTFLAGS","RUSTFLAGS"): e.pop(k,None)
    e["CARGO_NET_OFFLINE"]="true"
    return e
def driver():
    src=os.path.join(V,"driver")
    key=hashtree(src)
    out=os.path.join(WORK,"driver"); stamp=os.path.join(out,"stamp")
    b=os.path.join(out,"debug","mirfacts")
    if os.path.exists(b) and os.path.exists(stamp) and open(stamp).read()==key: return b
    os.makedirs(out,exist_ok=True)
    e=baseenv(); e["CARGO_TARGET_DIR"]=out
    rc,o=sh(["cargo","+nightly","build","--offline","--manifest-path",os.path.join(src,"Cargo.toml")],env=e,cwd=src)
    if rc: sys.stderr.write(o); raise SystemExit("driver does not build")
    open(stamp,"w").write(key)
    return b
class BuildError(Exception): pass
def dump(manifest,crates,features=None,extra_key="",args=(),tag="d",default=True,release=False):
    """facts of the crates (list of names); returns {crate: facts}"""
    b=driver()
    key=hashlib.sha256(repr((hashtree(REPO),hashtree(os.path.join(V,"driver")),manifest,crates,features,extra_key,args,default,release)).encode()).hexdigest()[:20]
    outd=os.path.join(WORK,"facts",tag+"-"+key)
    done=os.path.join(outd,"done")
    if not os.path.exists(done):
        if os.path.exists(outd): shutil.rmtree(outd)
        # forget facts of older trees
        par=os.path.join(WORK,"facts"); os.makedirs(par,exist_ok=True)
        old=sorted((os.path.getmtime(os.path.join(par,x)),x) for x in os.listdir(par))
        for _,x in old[:-24]: shutil.rmtree(os.path.join(par,x),ignore_errors=True)
        os.makedirs(outd)
        e=baseenv()
        e["LD_LIBRARY_PATH"]=sysroot()+"/lib"+(":"+e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        e["MIRFACTS_OUT"]=outd; e["MIRFACTS_CRATES"]=",".join(crates)
        e["RUSTC_WORKSPACE_WRAPPER"]=b
        tgt=os.path.join(WORK,"target",tag)
        e["CARGO_TARGET_DIR"]=tgt
        # the wrapper must run: remove the freshness records of the crates of interest
        for prof in("debug","release"):
            for d in(os.path.join(tgt,prof,".fingerprint"),os.path.join(tgt,prof,"build")):
                if os.path.isdir(d):
                    for x in os.listdir(d):
                        if any(x in(c,c.replace("_","-")) or x.startswith(c.replace("_","-")+"-") or x.startswith(c+"-") for c in crates): shutil.rmtree(os.path.join(d,x))
        cmd=["cargo","+nightly","check","--offline","--manifest-path",manifest]+list(args)
        if not default: cmd+=["--no-default-features"]
        if features: cmd+=["--features",",".join(features)]
        if release: cmd+=["--release"]
        rc,o=sh(cmd,env=e,cwd=os.path.dirname(manifest))
        if rc:
            raise BuildError(o[-6000:])
        for c in crates:
            if not os.path.exists(os.path.join(outd,c+".jsonl")): raise BuildError("no facts for "+c+"\n"+o[-3000:])
        open(done,"w").write("ok")
    return {c:load(os.path.join(outd,c+".jsonl")) for c in crates}
def load(path):
    pk=path+".pickle"
    if os.path.exists(pk):
        try: return pickle.load(open(pk,"rb"))
        except Exception: pass
    r={"ty":{},"fns":{},"poly":{},"items":[],"statics":[]}
    end=False
    for l in open(path):
        d=json.loads(l); t=d["t"]
        if t=="ty": r["ty"][d["id"]]=d
        elif t=="fn":
            (r["poly"] if d["poly"] else r["fns"])[d["id"]]=d
        elif t=="item": r["items"].append(d)
        elif t=="static": r["statics"].append(d)
        elif t=="end": end=True
    if not end: raise BuildError("truncated facts "+path)
    pickle.dump(r,open(pk,"wb"),protocol=4)
    return r
NUM=os.path.join(REPO,"astro-float-num","Cargo.toml")
def num(features=("serde",),default=True,release=False):
    tag="num"+("" if default else "-nodef")+"-"+"-".join(features)+("-rel" if release else "")
    return dump(NUM,["astro_float_num"],features=list(features),tag=tag,default=default,release=release)["astro_float_num"]
if __name__=="__main__":
    import time
    t=time.time(); f=num(); print(len(f["fns"]),len(f["ty"]),time.time()-t)
