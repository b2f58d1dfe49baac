"""C09: no internal failure is swallowed or turned into a panic."""
import re
from ops import *
from effects import *
from report import Report
RULE=("Path-sensitive intraprocedural dataflow over every function of the crate (all instances and closures): at every call that can return an error, and for every error received as a parameter, the failing outcome is followed through copies, wrappers, `?`, matches and conversions "
 "(branches on the outcome, and on the kind of error, take the failing side) along all paths; at every return the function's result must hold the error, and no path may panic on it or unwrap it. "
 "Exempt: building of built-in constants, and the std formatting traits, whose result cannot hold the library's error.")
ERRS=("MemoryAllocation","InvalidArgument","DivisionByZero")
def tys(P,t): return (P.ty.get(t) or {}).get("s","")
def errtype(P,t):
    """kind of failing outcome a value of type t can be: 'result', 'error' or None"""
    x=P.ty.get(t) or {}
    if x.get("path")=="std::result::Result":
        a=[y for y in x.get("args") or [] if isinstance(y,int)]
        if len(a)>1:
            s=tys(P,a[1])
            if s in("defs::Error","std::collections::TryReserveError") or "TryFromIntError" in s or "ParseIntError" in s or "Utf8Error" in s: return "result"
        return None
    if x.get("s")=="defs::Error": return "error"
    return None
def placety(P,f,p):
    t=f["locals"][p[0]]
    for st in p[1:]:
        x=P.ty.get(t) or {}
        if st=="*": t=x.get("to")
        elif isinstance(st,list) and st[0]=="f": t=st[2] if len(st)>2 else None
        elif isinstance(st,list) and st[0]=="v": pass
        else: t=None
        if t is None: return None
    return t
def ops_of(v,out):
    if isinstance(v,dict):
        if v.get("o") in("cp","mv"): out.append(v["p"])
        elif v.get("r") in("ref","raw","discr"): out.append(v["p"])
        else:
            for k,x in v.items():
                if k!="p": ops_of(x,out)
    elif isinstance(v,list):
        for x in v: ops_of(x,out)
def succ(t):
    if t["k"]=="goto": return [t["t"]]
    if t["k"]=="switch": return [x[1] for x in t["c"]]+([t["else"]] if t.get("else") is not None else [])
    return [t["t"]] if t.get("t") is not None else []
UNW=re.compile(r"Result::<T, E>::(unwrap|expect|unwrap_or|unwrap_or_default|ok|unwrap_unchecked|iter|into_ok|map_or)$")
def variant_of(P,v,te):
    """variant of an error built here, or None"""
    if v.get("r")=="agg" and v.get("k")=="adt" and v.get("ty")==te: return v.get("var")
    out=[]; consts_err(v,te,out)
    return out[0] if out else None
def consts_err(o,te,out):
    if isinstance(o,dict):
        if o.get("c")=="adt" and o.get("ty")==te: out.append(o.get("var"))
        else:
            for x in o.values(): consts_err(x,te,out)
    elif isinstance(o,list):
        for x in o: consts_err(x,te,out)
def stored(f,p): return 0<p[0]<=f["argc"] or p[0] in f.setdefault("_argrefs",argrefs(f))
def argrefs(f):
    """locals holding references into what the arguments refer to"""
    r=set(range(1,f["argc"]+1)); ch=True
    while ch:
        ch=False
        for b in f["blocks"]:
            for s in b["s"]:
                v=s.get("v")
                if not isinstance(v,dict) or len(s.get("p") or [])!=1 or s["p"][0] in r: continue
                q=v["p"] if v.get("r")=="ref" else v["a"]["p"] if v.get("r")=="use" and v["a"].get("o") in("cp","mv") else None
                if q and q[0] in r and (v["r"]=="use" or "*" in q): r.add(s["p"][0]); ch=True
    return r
def follow(P,f,start,taint,variant,names):
    te=P.tyid("defs::Error"); mem=names.index("MemoryAllocation")
    """paths from block start with the locals in taint holding the failure; [(kind, line, text)] of what goes wrong"""
    bl=f["blocks"]; bad=[]; seen=set(); todo=[(start,frozenset(taint),frozenset(),None)]
    n=0
    while todo:
        b,T_,D,ln=todo.pop()
        if (b,T_,D) in seen: continue
        seen.add((b,T_,D)); n+=1
        if n>4000: return None
        t_=set(T_); d=dict(D)   # d: local -> known value of a discriminant
        B=bl[b]
        for s in B["s"]:
            v=s.get("v")
            if "p" not in s or not isinstance(v,dict): continue
            ln=s.get("l",ln); p=s["p"]; u=[]; ops_of(v,u)
            hit=any(x[0] in t_ for x in u)
            if v.get("r")=="discr":
                d.pop(p[0],None)
                if v["p"][0] in t_:
                    ty=placety(P,f,v["p"]); x=P.ty.get(ty) or {}
                    if x.get("path")=="std::result::Result" and errtype(P,ty): d[p[0]]=1
                    elif x.get("path")=="std::ops::ControlFlow": d[p[0]]=1
                    elif x.get("s")=="defs::Error" and variant is not None: d[p[0]]=variant
                    elif x.get("path")=="std::option::Option" and any(errtype(P,a) for a in x.get("args") or [] if isinstance(a,int)): d[p[0]]=1
                    t_.discard(p[0])
                elif len(p)==1: t_.discard(p[0])
                continue
            if len(p)==1: d.pop(p[0],None)
            w=variant_of(P,v,te)
            if w is not None and not hit and (w==variant or variant!=mem): hit=True
            if v.get("r")=="use" and len(p)==1 and v["a"].get("o")=="c":
                cv=v["a"].get("v") or {}
                if cv.get("c")=="int" and str(cv.get("v")) in("0","1"): d[p[0]]=int(cv["v"])
            elif v.get("r")=="use" and len(p)==1 and len(v["a"]["p"])==1 and v["a"]["p"][0] in d: d[p[0]]=d[v["a"]["p"][0]]
            if hit and "*" in p and stored(f,p): t_.add(-1)
            if hit: t_.add(p[0])
            elif len(p)==1: t_.discard(p[0])
        t=B["t"]; k=t["k"]
        if k=="ret":
            if 0 not in t_ and -1 not in t_: bad.append(("swallowed",t.get("cl") or ln,""))
            continue
        if k=="call":
            c=t["f"].get("v") or {}; q=c.get("rpath") or c.get("path") or "?"
            ln=t.get("cl",ln)
            u=[]; ops_of(t["a"],u); ops_of(t["f"],u)
            hit=any(x[0] in t_ for x in u)
            if hit and UNW.search(q):
                bad.append(("discarded by %s"%q.rsplit("::",1)[-1],ln,q)); continue
            if t.get("t") is None:
                # diverges: a panic with the failure at hand
                if "panic" in q or "unwrap_failed" in q or "expect_failed" in q or "unreachable" in q: bad.append(("turned into a panic",ln,q))
                continue
            p=t["p"]
            if hit:
                rt=placety(P,f,p) if len(p)==1 else None
                # results that cannot hold the failure: formatting, comparisons
                if rt is not None and tys(P,rt) in("bool","()") :
                    if len(p)==1: t_.discard(p[0])
                    # handed over, with a function that is followed on its own
                    if any("{closure" in tys(P,placety(P,f,o["p"])) for o in t["a"] if o.get("o") in("cp","mv")) and re.search(r"_or_else$",q): t_.add(-1)
                else: t_.add(p[0])
            elif len(p)==1: t_.discard(p[0])
            if len(p)==1: d.pop(p[0],None)
            if hit and len(p)==1 and re.search(r"Result::<T, E>::(is_ok|is_err|is_ok_and)$",q): d[p[0]]=1 if q.endswith("is_err") else 0
            todo.append((t["t"],frozenset(t_),frozenset(d.items()),ln)); continue
        if k=="switch":
            o=t["d"]; l=o["p"][0] if o.get("o") in("cp","mv") and len(o["p"])==1 else None
            if l is not None and l in d:
                w=[x[1] for x in t["c"] if int(x[0])==d[l]]
                todo.append((w[0] if w else t["else"],frozenset(t_),frozenset(d.items()),ln)); continue
        if k=="drop":
            pass
        for m in succ(t): todo.append((m,frozenset(t_),frozenset(d.items()),ln))
    return bad
def run(tier):
    P=prog(); rep=Report("C09",RULE); G=Graph(P)
    te=P.tyid("defs::Error"); names=[v["n"] for v in P.ty[te]["variants"]]
    variants=[(names.index(x),x) for x in ERRS if x in names]
    fs={i:f for i,f in P.fns.items() if f["local"]}
    mono={f["path"] for f in fs.values()}
    callers={}
    for i in G.out:
        for j in G.out[i]: callers.setdefault(j,set()).add(i)
    def isconst(i,seen=None):
        seen=set() if seen is None else seen
        if i in seen: return True
        seen.add(i); p=fs[i]["path"]
        if "__static_ref_initialize" in p or any(p.startswith(d["path"]+"::") for d in P.statics): return True
        c=callers.get(i,())
        return bool(c) and all(isconst(x,seen) for x in c)
    def fmtimpl(p): return re.search(r" as std::fmt::\w+>::fmt",p) is not None
    pub={x["path"] for x in P.items if x.get("pub") or x.get("exported") or x.get("trait")}
    def dead(f):
        p=base(f["path"])
        return p not in pub and not any(callers.get(g["id"]) for g in fs.values() if g["path"]==p)
    for i,f in sorted(list(fs.items())+[(i,f) for i,f in P.poly.items() if f["path"] not in mono]):
        rep.fns.add(f["path"])
        if i in fs and isconst(i): rep.count("constant_initialisers"); continue
        if i in fs and dead(f): rep.count("unused_functions"); continue
        if fmtimpl(f["path"]): rep.count("formatting_methods"); continue
        jobs=[]
        for bi,b in enumerate(f["blocks"]):
            t=b["t"]
            if t["k"]!="call" or t.get("t") is None: continue
            pt=placety(P,f,t["p"])
            if errtype(P,pt)!="result": continue
            c=t["f"].get("v") or {}; q=c.get("rpath") or c.get("path") or "?"
            if q.endswith("::from_residual") or q.endswith("::branch"): continue
            u=[]; ops_of(t["a"],u)
            jobs.append((t["t"],{t["p"][0]},"%s"%q,t.get("cl")))
        for k in range(1,f["argc"]+1):
            if errtype(P,f["locals"][k]) and " as std::" not in f["path"]: jobs.append((0,{k},"its parameter",f["line"]))
            elif errtype(P,f["locals"][k]) and " as std::convert::From<" in f["path"]: jobs.append((0,{k},"its parameter",f["line"]))
        if jobs: rep.unit(f["path"])
        for start,ta,q,line in jobs:
            rep.count("failing_calls_followed")
            rs={}
            for vi,vn in variants:
                if vn=="DivisionByZero" and tys(P,f["locals"][0])=="ext::BigFloat": continue   # becomes an infinity: C02
                r=follow(P,f,start,ta,vi,names)
                if r is None: rep.undecided("%s: too many paths after %s (line %s)"%(f["path"],q,line)); continue
                for kind,ln,x in r: rs.setdefault((kind,ln),[]).append(vn)
            if not rs: rep.ok("%s: a failure of %s reaches the caller"%(f["path"],q)); continue
            for (kind,ln),vn in sorted(rs.items(),key=str):
                rep.bad("%s | %s | %s"%(f["path"],q,kind),"%s (%s:%s): a failure (%s) of %s is %s (line %s)"%(f["path"],f["file"],line,", ".join(vn),q,kind,ln))
    if rep.cnt.get("failing_calls_followed",0)<300: rep.undecided("only %d failing calls found: the query may be blind"%rep.cnt.get("failing_calls_followed",0))
    return rep
