"""C15: results depend on the arguments only."""
import re
from ops import *
from effects import *
from report import Report
RULE=("Effect analysis over the call graph of the type-checked crate: every external function any function of the crate refers to is classified (pure, randomness, clock/environment/IO, thread-local or shared state, platform intrinsic); "
 "randomness may be referred to only inside functions offered as random and those may not be reached from any other; thread-local state only by the formatting and parsing trait methods, for the constants cache, and without running the user's writer meanwhile; "
 "every static must be immutable data without interior mutability; addresses must not flow into values.")
PURESTD=("std::string","std::vec","std::fmt","std::num","std::slice","std::iter","std::option","std::result","std::cmp","std::ops","std::convert","std::boxed","std::mem","std::borrow","std::str","std::error","std::default","std::clone","std::f64","std::f32","std::ptr")
IMPURE=("time","env","fs","io","net","process","thread","sync","os","panic","backtrace","hash","random","collections::hash")
INTRIN=("_addcarry_u64","_subborrow_u64","_addcarry_u32","_subborrow_u32")
FMT=re.compile(r"^<(ext::BigFloat|for_3rd::\S+) as (std::fmt::\w+|std::str::FromStr|serde\S*::(Visitor|Deserialize|Serialize)\S*)>::\w+(::\{closure#\d+\})*$")
def modname(p): return p.lstrip("<&").split("::")
def isrand(path): return "random" in last(path)
def run(tier):
    P=prog(); rep=Report("C15",RULE); G=Graph(P)
    fns={i:f for i,f in P.fns.items() if f["local"]}
    rep.fns|={f["path"] for f in fns.values()}
    nr=nk=0
    # generic functions without an instance in the crate are read in their generic form
    mono={f["path"] for f in fns.values()}
    gen={i:f for i,f in P.poly.items() if f["path"] not in mono}
    ext=dict(G.ext)
    for i,f in gen.items():
        e=set()
        for c in refs(f):
            if c["c"]!="static": e.add((c.get("rcrate") or c.get("crate") or "?",c.get("rpath") or c.get("path") or "?"))
        ext[i]=e; G.ext[i]=e
        G.out[i]={g for g,h in fns.items() if ("astro_float_num",h["path"]) in e}
    fns.update(gen)
    statics=[d["path"] for d in P.statics]
    def init(path): return any(path.startswith(x+"::") for x in statics)
    # the functions that may use the thread's cache: formatting, parsing and serde methods, and helpers called by those alone
    callers={}
    for i in fns:
        for j in G.out.get(i,()): callers.setdefault(j,set()).add(i)
    allowed={i for i,f in fns.items() if FMT.match(f["path"]) or init(f["path"])}; ch=True
    while ch:
        ch=False
        for i in fns:
            if i not in allowed and callers.get(i) and callers[i]<=allowed: allowed.add(i); ch=True
    rep.fns|={f["path"] for f in fns.values()}
    for i,f in sorted(fns.items()):
        rep.unit(f["path"])
        for c,p in sorted(ext[i]):
            rep.count("external_references"); site="%s -> %s"%(f["path"],p)
            if c=="astro_float_num": rep.ok(); continue
            if "thread::local_impl" in p and init(f["path"]): rep.ok(site)
            elif p=="std::thread::LocalKey::<T>::with" or "LocalKey" in p:
                nk+=1
                if i not in allowed: rep.bad("thread-local %s"%f["path"],"%s (%s:%s) uses thread-local state; only formatting, parsing and serialisation methods may"%(f["path"],f["file"],f["line"]))
                else: rep.ok(site)
            elif c in("rand","rand_core","rand_chacha","getrandom","fastrand"):
                nr+=1
                if not isrand(f["path"]): rep.bad("random %s"%base(f["path"]),"%s (%s:%s) uses a random source (%s) although it is not offered as random"%(f["path"],f["file"],f["line"],p))
                else: rep.ok(site)
            elif c=="core" or c=="alloc":
                m=modname(p)
                if "arch" in m and not p.endswith(INTRIN): rep.undecided("%s: unknown intrinsic"%site)
                elif "sync" in m and "atomic" in m: rep.bad("atomic %s"%base(f["path"]),"%s (%s:%s) uses shared atomic state (%s)"%(f["path"],f["file"],f["line"],p))
                elif p.startswith(("core::ptr::","std::ptr::")) and "::addr" in p or p.endswith("::expose_provenance"): rep.bad("address %s"%base(f["path"]),"%s (%s:%s) turns an address into a number (%s)"%(f["path"],f["file"],f["line"],p))
                else: rep.ok()
            elif c=="lazy_static" or c=="spin" or c=="once_cell":
                # a lazily built constant; the statics themselves are checked below
                rep.ok(site)
            elif c in("serde","serde_core"): rep.ok(site)
            elif c=="std":
                m=p.lstrip("<&").split("::"); sub=m[1] if m and m[0]=="std" and len(m)>1 else m[0]
                if any(("std::"+x) in p for x in("time","env","fs","io::","net","process","thread","sync","os::","random","collections::hash","hash::random")):
                    rep.bad("effect %s %s"%(base(f["path"]),p[:60]),"%s (%s:%s) refers to %s: its result can depend on more than its arguments"%(f["path"],f["file"],f["line"],p))
                elif re.search(r"f(32|64)>?::",p) or any(x in p for x in PURESTD): rep.ok(site)
                else: rep.undecided("%s: effect of this std function not known"%site)
            else: rep.undecided("%s: crate %s not known"%(site,c))
    # functions offered as random are reached from none that is not
    for i,f in sorted(fns.items()):
        if isrand(f["path"]): continue
        w=G.path_to(i,lambda x:isrand(fns[x]["path"]))
        if w: rep.bad("reaches random %s"%base(f["path"]),"%s (%s:%s) draws random digits: %s"%(f["path"],f["file"],f["line"]," -> ".join(w)))
        else: rep.ok()
        # shared/thread-local state reached by a function that is not a formatting trait method
        w=None if i in allowed else G.path_to(i,lambda x:any("LocalKey" in p for _,p in G.ext.get(x,())))
        if w: rep.bad("reaches thread-local %s"%base(f["path"]),"%s reaches thread-local state: %s"%(f["path"]," -> ".join(w)))
        else: rep.ok()
    # while the thread's cache is borrowed: no user's writer
    for i,f in sorted(fns.items()):
        if not any("LocalKey" in p for _,p in G.ext[i]): continue
        for j in sorted(G.out[i]):
            g=P.fns[j]
            if not g["path"].startswith(f["path"]+"::{closure"): continue
            rep.count("cache_sections")
            w=set()
            for k in range(1,g["argc"]+1): w|={P.ty[t]["s"] for t in subtypes(P,g["locals"][k])}
            w={x for x in w if re.search(r"\bFormatter\b|\bdyn |^(unsafe |extern \S+ |for<.*> )*fn\(",x)}
            if w: rep.bad("user code under cache %s"%base(f["path"]),"%s (%s:%s): the caller's writer (%s) is in use while the thread's cache is borrowed (a writer that itself formats a number panics)"%(f["path"],g["file"],g["line"],sorted(w)[0]))
            else: rep.ok("%s: the cache section runs no user code"%f["path"])
    # statics
    tls=0
    for d in P.statics:
        rep.count("statics"); p=d["path"]; t=P.ty.get(d["ty"]) or {}
        if d.get("mut"): rep.bad("static mut %s"%p,"%s (%s:%s) is a mutable global variable"%(p,d["file"],d["line"])); continue
        if d.get("tls"): tls+=1; rep.ok("thread-local %s"%p); continue
        if t.get("freeze"): rep.ok("%s is immutable data"%p); continue
        if p.endswith("__stability::LAZY") or "Lazy<" in t.get("s",""): rep.ok("%s is a constant built once"%p); continue
        if "LocalKey" in t.get("s",""): tls+=1; rep.ok(); continue
        if "thread::local_impl" in t.get("s","") or "thread_local" in p or "::VAL" in p or "__RUST_STD_INTERNAL" in p: tls+=1; rep.ok("storage of a thread-local: %s"%p); continue
        rep.bad("static %s"%p,"%s (%s:%s) is a global variable with interior mutability (%s)"%(p,d["file"],d["line"],t.get("s")))
    # what the thread-local state is
    for i,f in sorted(fns.items()):
        for c in refs(f):
            if c["c"]=="static" or "LocalKey" not in (c.get("rpath") or c.get("path") or ""): continue
            w={P.ty[t]["s"] for t in (c.get("targs") or []) if isinstance(t,int) and t in P.ty}
            if any(x=="std::cell::RefCell<ops::consts::Consts>" for x in w): rep.ok()
            elif i in P.poly: pass
            else: rep.bad("thread-local content %s"%base(f["path"]),"%s (%s:%s) uses thread-local state other than the cache of constants: %s"%(f["path"],f["file"],f["line"],sorted(w)[:2]))
    ADR=("PtrToInt","PointerExposeProvenance","PointerExposeAddress")
    for i,f in sorted(fns.items()):
        ints=set()
        for b in f["blocks"]:
            for s in b["s"]:
                v=s.get("v") or {}
                if v.get("r")!="cast": continue
                k=v.get("k") or v.get("kind") or ""
                src=otype(P,f,v.get("a")); dst=P.ty.get(v.get("to") if isinstance(v.get("to"),int) else v.get("ty")) or {}
                if any(a in str(k) for a in ADR): rep.bad("address %s"%base(f["path"]),"%s (%s:%s) turns an address into a number"%(f["path"],f["file"],s.get("l")))
                if "Transmute" in str(k) and ptr(src): ints.add(tuple(map(str,s["p"])))
        if not ints: continue
        # the compiler's alignment and null checks: address used only in arithmetic whose end is an assertion
        bad=flows(f,ints)
        if bad: rep.bad("address %s"%base(f["path"]),"%s (%s:%s): an address flows into %s"%(f["path"],f["file"],f["line"],bad))
        else: rep.ok("%s: addresses only reach pointer checks"%f["path"])
    rep.count("random_sites",nr); rep.count("thread_local_sites",nk); rep.count("thread_locals",tls)
    if nr<1: rep.undecided("no use of a random source was found: the query may be blind")
    if nk<1: rep.undecided("no use of thread-local state was found: the query may be blind")
    rep.assume.append("core, alloc, lazy_static and the listed std modules have no effect outside their arguments")
    rep.note("content of the thread's cache: C11 (constants depend on the request only)")
    return rep
def otype(P,f,o):
    if not isinstance(o,dict): return None
    if o.get("o") in("cp","mv") and len(o["p"])==1: return P.ty.get(f["locals"][o["p"][0]])
    if o.get("o")=="c": return P.ty.get(o.get("ty"))
    return None
def ptr(t): return bool(t) and t.get("s","").startswith(("*const","*mut","&","std::ptr::NonNull"))
def uses(o,out):
    if isinstance(o,dict):
        if o.get("o") in("cp","mv"): out.append(tuple(map(str,o["p"])))
        else:
            for v in o.values(): uses(v,out)
    elif isinstance(o,list):
        for v in o: uses(v,out)
def flows(f,src):
    t=set(src); ch=True
    while ch:
        ch=False
        for b in f["blocks"]:
            for s in b["s"]:
                v=s.get("v")
                if not isinstance(v,dict) or v.get("r")=="cast" and tuple(map(str,s["p"])) in src: continue
                u=[]; uses(v,u)
                if any(x in t for x in u):
                    if v.get("r") not in("bin","use","un","cast") or len(s["p"])!=1: return "a value (line %s)"%s.get("l")
                    d=tuple(map(str,s["p"]))
                    if d==("0",): return "the result"
                    if d not in t: t.add(d); ch=True
    for b in f["blocks"]:
        k=b["t"]
        u=[]; uses({x:y for x,y in k.items() if x!="k"},u)
        if any(x in t for x in u) and k["k"]!="assert": return "a %s (line %s)"%(k["k"],b.get("l"))
    return None
