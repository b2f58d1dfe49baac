"""C10: refinement loops always make progress."""
import re
from ops import *
from effects import *
from flow import *
from report import Report
RULE=("Dataflow on every loop whose exit depends on a rounding attempt (try_set_precision, decimal rounding): on every path back to the head a lexicographic measure of integer variables strictly grows "
 "(differences to the value at the loop head, with lower bounds of increments computed over the function and comparisons on edges), "
 "and the value being rounded depends on the growing variable: every precision handed to an operation that the attempt's operand is computed from is derived from it.")
ATT=re.compile(r"::(try_set_precision|try_round_dec|try_round_\w+)$")
def root(s,p):
    k=s.k(p); return k
def run(tier):
    P=prog(); rep=Report("C10",RULE)
    fs={i:f for i,f in P.fns.items() if f["local"]}
    par={}
    for i,f in fs.items():
        if "{closure#" in f["path"]:
            for g in fs.values():
                if g["path"]==f["path"].rsplit("::{closure#",1)[0]: par[i]=g
    params={x["path"]:x.get("params") or [] for x in P.items}
    memo={}; nl=0
    for i,f in sorted(fs.items()):
        att=[b for b,B in enumerate(f["blocks"]) if B["t"]["k"]=="call" and ATT.search(callee(B["t"])[0])]
        if not att or ATT.search(base(f["path"])): continue
        cfg=P.cfg(f)
        for h,body in sorted(cfg.loops.items()):
            aa=[b for b in att if b in body]
            if not aa: continue
            # the innermost loop holding the attempt
            inner=[h2 for h2,b2 in cfg.loops.items() if h2!=h and b2<body and all(a in b2 for a in aa)]
            if inner: continue
            nl+=1; rep.unit("%s loop at line %s"%(f["path"],line(f,body))); rep.fns.add(f["path"])
            one(P,rep,f,i,par.get(i),cfg,h,body,aa,memo,params)
    rep.count("retry_loops",nl)
    if nl<20: rep.undecided("only %d retry loops were found: the query may be blind"%nl)
    rep.assume.append("an operation given more precision computes a result with a smaller error bound (N04)")
    rep.assume.append("exactly representable results of transcendental operations are left to the shortcuts before the loops")
    return rep
def line(f,body): return min([x.get("l",10**6) for b in body for x in f["blocks"][b]["s"]]+[10**6])
def entryof(P,f,parent,memo):
    """lower bounds of captured variables where the closure is made"""
    e={}
    if parent is None: return e
    F=Flow(P,parent,memo); F.run()
    for b,B in enumerate(parent["blocks"]):
        if b not in F.ins: continue
        st={m:dict(F.ins[b][m]) for m in F.ins[b]}
        for x in B["s"]:
            v=x.get("v") or {}
            if v.get("r")=="agg" and v.get("k")=="closure" and v.get("path")==f["path"]:
                for j,o in enumerate(v.get("f") or []):
                    if o.get("o") not in("cp","mv"): continue
                    if len(o["p"])==1 and o["p"][0] in F.alias: l=st["lb"].get(F.k(F.alias[o["p"][0]]))
                    else: l=st["lb"].get(F.k(o["p"]))
                    if l is not None:
                        e[(1,"*","f%d"%j,"*")]=l; e[(1,"*","f%d"%j)]=l; e[(1,"f%d"%j,"*")]=l
            F.step(st,x)
    return e
def one(P,rep,f,i,parent,cfg,h,body,aa,memo,params):
    name="%s"%f["path"]; ln=line(f,body)
    F=Flow(P,f,memo,entryof(P,f,parent,memo)); F.run()
    st=F.ins.get(h)
    if st is None: rep.ok("%s: loop not reached"%name); return
    # integer places assigned in the loop
    W=set(); keys=set()
    for b in body:
        for x in f["blocks"][b]["s"]:
            if x.get("p") and isinstance(x.get("v"),dict) and tname(P,ptype(P,f,x["p"])) in UNS+("isize","i64","i32"): keys.add(F.k(x["p"]))
        t=f["blocks"][b]["t"]
        if t["k"]=="call":
            for o in t["a"]:
                if o.get("o") in("cp","mv") and tname(P,ptype(P,f,o["p"])) in ["&mut "+u for u in UNS]: keys.add(F.k(list(o["p"])+["*"]))
        if t["k"]=="call" and tname(P,ptype(P,f,t["p"])) in UNS+("isize","i64","i32"): keys.add(F.k(t["p"]))
    # only variables carried round the loop
    lv=cfg.live.get(h) if isinstance(cfg.live,dict) else cfg.live[h]
    keys={k for k in keys if k[0] in lv or 0<k[0]<=f["argc"]}
    init={"lb":dict(st["lb"]),"d":{k:((k,0),) for k in keys},"cmp":{}}
    init["d"].update({k:((k,0),) for k in st["lb"] if k in keys})
    G=Flow(P,f,memo,F.entry); back=G.paths(h,init,body,keys)
    if back is None: rep.undecided("%s: too many paths"%name); return
    edges={(b,n):e for b,l in back.items() for n,e in enumerate(l)}
    if not edges: rep.ok("%s: no way back"%name); return
    left=set(edges); used=[]; cand=set(keys)
    while left:
        best=None
        for w in sorted(cand,key=str):
            ks={b:dict(edges[b]["d"].get(w,())).get(w) for b in left}
            if any(v is None or v<0 for v in ks.values()): continue
            inc={b for b,v in ks.items() if v>=1}
            if inc and (best is None or len(inc)>len(best[1])): best=(w,inc)
        if best is None: break
        used.append(best); left-=best[1]; cand.discard(best[0])
    if left and opaque(P,f,F,cfg,body,h,aa):
        rep.undecided("%s: the working precision is changed by a call that was not followed"%name); return
    if left:
        l=max([x.get("l",0) for b,_ in left for x in f["blocks"][b]["s"]]+[0])
        rep.bad("%s | no progress"%name,"%s (%s:%s): a path back to the start of the retry loop (through line %s) on which no variable of the computation is shown to grow"%(name,f["file"],ln,l)); return
    nm={v:k for k,v in names(f).items()}
    rep.ok("%s: every retry increases %s"%(name,", ".join(nm.get(w[0],str(w)) for w,_ in used)))
    # dependence of the attempt on the growing variables
    for a in aa:
        grown=[w for w,inc in used]
        attw=[w for w,inc in used if any(passes(cfg,body,h,a,b) for b,_ in inc)]
        for w in attw:
            r=depends(P,f,F,cfg,body,h,a,w,grown,params,rep,name)
            if r is None: rep.ok("%s: the rounded value is computed with the grown %s"%(name,nm.get(w[0],str(w))))
            elif r[0]=="?": rep.undecided("%s: %s"%(name,r[1]))
            else: rep.bad("%s | %s"%(name,r[2] if len(r)>2 else "not fed"),"%s (%s:%s): %s"%(name,f["file"],ln,r[1]))
def opaque(P,f,F,cfg,body,h,aa):
    """between a failed attempt and the next one, integers are computed by calls outside the domain (mutable aggregates)"""
    seen=set(); todo=[y for a in aa for y in cfg.succ[a]]
    while todo:
        x=todo.pop()
        if x not in body or x in seen or x==h: continue
        seen.add(x); todo+=cfg.succ[x]
        t=f["blocks"][x]["t"]
        if t["k"]!="call": continue
        g=P.fns.get(callee(t)[1])
        if g is None or not g["local"]: continue
        for j in range(1,g["argc"]+1):
            tn=tname(P,g["locals"][j])
            if tn.startswith("&mut ") and tn[5:] not in UNS and not re.search(r"BigFloatNumber|Mantissa|Consts|WordBuf",tn): return True
        rt=P.ty.get(g["locals"][0]) or {}
        if rt.get("k")=="adt" and not re.search(r"BigFloat|Mantissa|Result|Option",rt.get("s","")): return True
    return False
def names(f):
    r={}
    for x in f["names"] if isinstance(f["names"],list) else []:
        try: r.setdefault(x["n"],x["p"][0])
        except Exception: pass
    return r
def passes(cfg,body,h,a,b):
    """block b (end of a back edge) is reached from a inside the loop"""
    seen=set(); todo=[a]
    while todo:
        x=todo.pop()
        if x==b: return True
        if x in seen: continue
        seen.add(x)
        for y in cfg.succ[x]:
            if y in body and y!=h: todo.append(y)
    return False
def uses(v,out):
    if isinstance(v,dict):
        if v.get("o") in("cp","mv"): out.append(v["p"])
        elif v.get("r") in("ref","raw","discr"): out.append(v["p"])
        else:
            for k,x in v.items():
                if k!="p": uses(x,out)
    elif isinstance(v,list):
        for x in v: uses(x,out)
def depends(P,f,F,cfg,body,h,a,w,grown,params,rep,name):
    """forward dependence on w inside the loop, from its head"""
    bl=f["blocks"]
    tainted={w}; ch=True; order=[b for b in cfg.order if b in body]
    def isT(k): return any(k[:len(t)]==t or t[:len(k)]==k for t in tainted)
    mins=set()
    rounds=0
    while ch and rounds<30:
        ch=False; rounds+=1
        for b in order:
            B=bl[b]
            for x in B["s"]:
                v=x.get("v")
                if "p" not in x or not isinstance(v,dict): continue
                u=[]; uses(v,u)
                if v.get("r")=="bin" and v["op"] in("Lt","Le","Gt","Ge","Eq","Ne","Rem","BitAnd"): continue
                if v.get("r")=="discr": continue
                if any(isT(F.k(y)) for y in u):
                    k=F.k(x["p"])
                    if not isT(k): tainted.add(k); ch=True
            t=B["t"]
            if t["k"]!="call": continue
            q,_=callee(t)
            if ATT.search(q): continue
            u=[]; uses(t["a"],u)
            ks=[F.k(y) for y in u]
            # references stand for what they refer to
            ks+=[F.k(list(y)+["*"]) for y in u if tname(P,ptype(P,f,y)).startswith("&")]
            hit=[k for k in ks if isT(k)]
            if q.endswith("::min") and len(hit)<len(t["a"]): hit=[]
            if hit:
                k=F.k(t["p"])
                if not isT(k): tainted.add(k); ch=True
                for y in u:
                    if tname(P,ptype(P,f,y)).startswith("&mut"):
                        kk=F.k(list(y)+["*"])
                        if not isT(kk): tainted.add(kk); ch=True
    # backward slice from the attempt's operand: precisions of the operations it is computed from
    A=bl[a]["t"]; rec=A["a"][0]
    rk={F.k(rec["p"])}|({F.k(list(rec["p"])+["*"])} if tname(P,ptype(P,f,rec["p"])).startswith("&") else set())
    sl=set(rk); ch=True; bad=None; ncalls=0; outer=False
    def inS(k): return any(k[:len(t)]==t or t[:len(k)]==k for t in sl)
    calls=set()
    before=reachback(cfg,body,h,a)
    rounds=0
    while ch and rounds<30:
        ch=False; rounds+=1
        for b in order:
            if b not in before: continue
            B=bl[b]
            for x in B["s"]:
                v=x.get("v")
                if "p" not in x or not isinstance(v,dict): continue
                if inS(F.k(x["p"])):
                    u=[]; uses(v,u)
                    for y in u:
                        k=F.k(y)
                        if not inS(k): sl.add(k); ch=True
            t=B["t"]
            if t["k"]!="call" or b==a: continue
            u=[]; uses(t["a"],u)
            ws=inS(F.k(t["p"])) or any(tname(P,ptype(P,f,y)).startswith("&mut") and inS(F.k(list(y)+["*"])) for y in u)
            if ws:
                calls.add(b)
                for y in u:
                    for k in [F.k(y)]+([F.k(list(y)+["*"])] if tname(P,ptype(P,f,y)).startswith("&") else []):
                        if not inS(k): sl.add(k); ch=True
    for b in sorted(calls):
        t=bl[b]["t"]; q,i=callee(t); g=P.fns.get(i)
        if g is None or not g["local"]: continue
        pr=params.get(g["path"]) or []
        for j,nme in enumerate(pr):
            if nme!="p" or j>=len(t["a"]) or tname(P,g["locals"][j+1])!="usize": continue
            o=t["a"][j]
            if cint(o) is not None: continue
            ncalls+=1; rep.count("precision_arguments")
            if o.get("o") in("cp","mv") and isT(F.k(o["p"])):
                r=enough(P,f,F,body,h,a,b,o,bl)
                if r is True: rep.count("precision_compared_with_claimed_error")
                elif r: bad=bad or ("bad","the precision given to %s (line %s) is not shown to reach the number of bits the rounding attempt takes for correct"%(q.rsplit("::",1)[-1],t.get("cl")),"%s too small"%q.rsplit("::",1)[-1])
                continue
            # exact operations on small numbers: operand not tainted at all and result not growing
            bad=bad or ("bad","the precision given to %s (line %s) does not grow with the retries"%(q.rsplit("::",1)[-1],t.get("cl")),"%s not fed"%q.rsplit("::",1)[-1])
    if bad: return bad
    if any(isT(k) for k in rk): return None
    # state kept outside the loop: the attempt must wait until the state is good enough
    st=any(k[0]<=f["argc"] and k[0]>0 for k in sl)
    if st:
        # computed anew on every way from a failed attempt to the next one
        if all(renewed(P,f,F,cfg,body,h,a,k) for k in [k for k in sl if 0<k[0]<=f["argc"] and rk_root(F,bl,body,a,k)]) and any(rk_root(F,bl,body,a,k) for k in sl): return None
        for b in body:
            t=bl[b]["t"]
            if t["k"]!="switch" or t["d"].get("o") not in("cp","mv"): continue
            l=t["d"]["p"][0]
            for x in bl[b]["s"]:
                v=x.get("v") or {}
                if x.get("p")==[l] and v.get("r")=="bin" and v["op"] in("Lt","Le","Gt","Ge"):
                    u=[]; uses(v,u)
                    if any(isT(F.k(y)) for y in u) and guards(cfg,body,h,b,a): return None
        return ("bad","the stored value is rounded without checking that it was computed for the grown precision","no guard")
    return ("bad","the value being rounded does not depend on the variable that grows","not fed")
def exact(F,o,c=0,n=0):
    """operand as (key of a variable, constant): its value is exactly variable + constant"""
    if o.get("o") not in("cp","mv") or n>8: return None
    p=o["p"]; l=p[0]; v=F.defs.get(l,[])
    if len(p)==2 and isinstance(p[1],list) and p[1][0]=="f" and p[1][1]==0 and len(v)==1 and v[0].get("r")=="bin" and "WithOverflow" in v[0]["op"]: v=v[0]
    elif len(p)==1 and len(v)==1 and v[0].get("r") in("use","bin"): v=v[0]
    else: return F.k(p),c
    if v["r"]=="use":
        r=exact(F,v["a"],c,n+1)
        return r or (F.k(p),c)
    op=v["op"].replace("WithOverflow","").replace("Unchecked","")
    x,y=cint(v["a"]),cint(v["b"])
    if op=="Add" and y is not None: return exact(F,v["a"],c+y,n+1)
    if op=="Add" and x is not None: return exact(F,v["b"],c+x,n+1)
    if op=="Sub" and y is not None: return exact(F,v["a"],c-y,n+1)
    return F.k(p),c
def enough(P,f,F,body,h,a,b,o,bl):
    """precision operand o of block b is at least the error bound given to the attempt in a: True / False (not shown: violation) is inverted
    to a truthy text; None when the question does not arise"""
    A=bl[a]["t"]
    if not callee(A)[0].endswith("::try_set_precision") or len(A["a"])<4: return None
    e=exact(F,A["a"][3])
    if e is None: return None
    k,c=e
    d=lambda o_: [x for x in F.defs.get(o_["p"][0],[])]
    x=o; n=0
    while x.get("o") in("cp","mv") and n<8:
        v=F.defs.get(x["p"][0],[])
        if len(v)==1 and v[0].get("k")=="call": return None if "mantissa_max_bit_len" in callee(v[0])[0] else "other"
        if len(v)==1 and v[0].get("r")=="use": x=v[0]["a"]; n+=1; continue
        break
    G=F.__dict__.setdefault("_from",{})
    if (h,k) not in G:
        g=Flow(P,f,F.memo,F.entry); g.run(h,{"lb":dict(F.ins[h]["lb"]),"d":{k:((k,0),)},"cmp":{}},body,h); G[(h,k)]=g
    g=G[(h,k)]
    if b not in g.out or a not in g.out: return None
    # (the variable may have grown by the time of the attempt)
    if dict(g.dd(g.out[b],{"o":"cp","p":o["p"]})).get(k,-1<<60)>=c+max(0,dict(g.out[a]["d"].get(k,())).get(k,0)): return True
    return "less"
def rk_root(F,bl,body,a,k):
    """k is stored state (under an argument) which is replaced inside the loop"""
    return len(k)>1 and any(x.get("p") and F.k(x["p"])==k for b in body for x in bl[b]["s"])
def renewed(P,f,F,cfg,body,h,a,k):
    """every path from the attempt back to the head assigns k"""
    bl=f["blocks"]
    def asg(b): return any(x.get("p") and F.k(x["p"])==k for x in bl[b]["s"])
    seen=set(); todo=list(cfg.succ[a])
    while todo:
        x=todo.pop()
        if x not in body or x in seen: continue
        seen.add(x)
        if asg(x): continue
        for y in cfg.succ[x]:
            if y==h: return False
            todo.append(y)
    return True
def reachback(cfg,body,h,a):
    seen={a}; todo=[a]
    while todo:
        x=todo.pop()
        if x==h: continue
        for y in cfg.pred[x]:
            if y in body and y not in seen: seen.add(y); todo.append(y)
    return seen
def guards(cfg,body,h,b,a):
    """every path from the head to a passes b, and not all successors of b reach a"""
    seen=set(); todo=[h] if h!=b else []
    while todo:
        x=todo.pop()
        if x==a: return False
        if x in seen or x==b: continue
        seen.add(x)
        for y in cfg.succ[x]:
            if y in body and y!=h: todo.append(y)
    n=0
    for y in cfg.succ[b]:
        if y in body and y!=h and passes(cfg,body,h,y,a): n+=1
    return n<len(set(cfg.succ[b]))
