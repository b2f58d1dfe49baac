"""C11: cached constants: state is replaced as a whole, and reused only when it is good enough for the request."""
import re,math
from fractions import Fraction as Q
from ops import *
from effects import *
from flow import *
from report import Report
RULE=("Typestate over MIR for every cache of a constant: from the first to the last field of the stored state that is replaced no call can fail and no return is reached, and no part of the stored state is changed in place; "
 "dependence: the stored value is computed from the very partial sums that are stored with it; guard analysis: the stored value is rounded for a caller only behind a comparison that bounds the number of terms from below "
 "by an expression of the requested precision, and that bound, as a linear function, reaches the number of terms the series needs; call graph: each constant is served from its own cache.")
# bits of accuracy gained per term of the series each constant is computed with (rounded down)
BITS={"pi":Q(4711,100),"ln2":Q(3169,1000),"ln10":Q(579013,1000000)}
NAMES={"pi":"PiCache","e":"ECache","ln_2":"Ln2Cache","ln_10":"Ln10Cache"}
def tpath(P,t):
    x=P.ty.get(t) or {}
    while x.get("k") in("ref","ptr"): x=P.ty.get(x["to"]) or {}
    return x.get("path") or ""
def caches(P):
    t=P.tyid("ops::consts::Consts"); r={}
    for n,ty in P.ty[t]["variants"][0]["f"]:
        x=P.ty[ty]
        if x.get("k")=="adt" and x.get("path","").startswith("ops::consts::"): r[x["path"]]=ty
    return r
def run(tier):
    P=prog(); rep=Report("C11",RULE); cs=caches(P)
    rep.count("caches",len(cs))
    if len(cs)<4: rep.undecided("only %d caches found"%len(cs))
    fs=[f for f in P.fns.values() if f["local"]]
    summ={}; PASS.clear(); DEFER.clear()
    for cp,ct in sorted(cs.items()):
        fields=[n for n,_ in P.ty[ct]["variants"][0]["f"]]
        mine=[f for f in fs if any(tname(P,f["locals"][j]).startswith("&mut") and tpath(P,f["locals"][j])==cp for j in range(1,f["argc"]+1)) and "{closure" not in f["path"]]
        # callees first
        order=[]; seen=set()
        def visit(f):
            if f["id"] in seen: return
            seen.add(f["id"])
            for b in f["blocks"]:
                if b["t"]["k"]=="call":
                    g=P.fns.get(callee(b["t"])[1])
                    if g in mine: visit(g)
            order.append(f)
        for f in mine: visit(f)
        wrote=False
        for f in order:
            rep.unit(f["path"]); rep.fns.add(f["path"])
            w=atomic(P,rep,f,cp,fields,summ,mine); wrote=wrote or w
            guard(P,rep,f,cp,ct,fields)
        if not wrote: rep.undecided("%s: no function replacing the stored state was found"%cp)
    for i,f in DEFER.items():
        if not any(b["t"]["k"]=="call" and callee(b["t"])[1]==i for g in fs for b in g["blocks"]): rep.undecided("%s: the values it stores are not known"%f["path"])
    dispatch(P,rep,fs)
    return rep
def fallible(P,t):
    q,i=callee(t); g=P.fns.get(i)
    ty=g["locals"][0] if g else None
    if g is not None and not g["local"] and re.search(r"::(drop|drop_in_place)$",q): return False
    s=tname(P,ty) if ty is not None else ""
    if ty is None: s=t.get("dty_s","")
    return "result::Result<" in s
def rtype(P,f,t): return tname(P,ptype(P,f,t["p"]))
def atomic(P,rep,f,cp,fields,summ,mine):
    args={j for j in range(1,f["argc"]+1) if tpath(P,f["locals"][j])==cp and tname(P,f["locals"][j]).startswith("&mut")}
    F=Flow(P,f); bl=f["blocks"]; n=len(fields); name=f["path"]
    def fld(k):
        """field of the stored state a place lies in: index, -1 for all of it, None"""
        if k[0] not in args or len(k)<2 or k[1]!="*": return None
        return int(k[2][1:]) if len(k)>2 and k[2][0]=="f" else -1
    ins={0:frozenset([frozenset()])}; todo=[0]; bad={}; anyw=False; retW=set(); clean=False
    writes=[]
    def put(W,i):
        if i==-1: return frozenset()
        W=W|{i}
        return frozenset() if len(W)==n else W
    while todo:
        b=todo.pop(); Ws=ins[b]; out=set()
        for W in Ws:
            for x in bl[b]["s"]:
                v=x.get("v")
                if "p" in x and isinstance(v,dict):
                    if v.get("r") in("ref","raw") and v.get("mut",v.get("m")) not in(None,False,"Not") :
                        i=fld(F.k(v["p"]))
                        if i is not None and i>=0 and not forwarded(P,f,F,x["p"],mine): bad.setdefault(("inplace",i),(b,x.get("l")))
                    i=fld(F.k(x["p"]))
                    if i is not None:
                        anyw=True; writes.append((b,x))
                        # overwriting part of a field
                        if len(F.k(x["p"]))>3: bad.setdefault(("inplace",i),(b,x.get("l")))
                        W=put(W,i)
            t=bl[b]["t"]
            if t["k"]=="ret":
                if W: retW.add(W)
                else: clean=True
                continue
            if t["k"]=="call":
                g=P.fns.get(callee(t)[1])
                if g is not None:
                    for i,j in PASS.get(g["id"],{}).items(): writes.append((b,{"f":i,"v":t["a"][j-1]}))
                if g is not None and g["id"] in summ and summ[g["id"]]:
                    for add in summ[g["id"]]:
                        w=W
                        for i in add: w=put(w,i)
                        for m in succ(t): push(ins,todo,m,w)
                    anyw=True
                    continue
                if W and (rtype(P,f,t).startswith("std::result::Result<") and not re.search(r"::(from_residual|branch|map_err|map|into)$",callee(t)[0])): bad.setdefault(("fail",tuple(sorted(W))),(b,t.get("cl")))
                i=fld(F.k(t["p"]))
                if i is not None: anyw=True; W=put(W,i)
            for m in succ(t): push(ins,todo,m,W)
    for (k,w),(b,l) in bad.items():
        if k=="fail": rep.bad("%s | %s then failure"%(name,",".join(fields[i] for i in w)),"%s (%s:%s): a call that can fail follows the replacement of %s while the rest of the stored state is still old"%(name,f["file"],l,", ".join(fields[i] for i in w)))
        else: rep.bad("%s | %s in place"%(name,fields[w]),"%s (%s:%s): the stored %s is changed in place, so later requests see the effect of this one"%(name,f["file"],l,fields[w]))
    summ[f["id"]]=set(retW)|({frozenset()} if clean and retW else set())
    internal=[g for g in mine if g is not f and any(b["t"]["k"]=="call" and callee(b["t"])[1]==f["id"] for b in g["blocks"])]
    if retW and not internal:
        w=sorted(min(retW,key=len)); rep.bad("%s | %s only"%(name,",".join(fields[i] for i in w)),"%s (%s): returns with only %s of the stored state replaced"%(name,f["file"],", ".join(fields[i] for i in w)))
    if anyw and not bad and not(retW and not internal): rep.ok("%s: the stored state is replaced as a whole"%name)
    if writes: derived(P,rep,f,F,fields,writes,fld)
    return anyw
def push(ins,todo,m,w):
    if m not in ins: ins[m]=frozenset([w]); todo.append(m)
    elif w not in ins[m]:
        ins[m]=ins[m]|{w}; todo.append(m)
def forwarded(P,f,F,p,mine):
    """the reference is only handed to a function replacing state itself (mem::replace, swap are writes elsewhere)"""
    return False
PASS={}; DEFER={}
def derived(P,rep,f,F,fields,writes,fld):
    """the value is computed from the locals stored in the other fields"""
    if "val" not in fields: return
    src={}
    for b,x in writes:
        i=x["f"] if "f" in x else fld(F.k(x["p"])); u=[]
        from c10 import uses
        uses(x["v"],u)
        if i is not None and i>=0: src.setdefault(i,set()).update(F.k(y) for y in u)
    iv=fields.index("val")
    if iv not in src: return
    bl=f["blocks"]
    # a function that only stores its parameters: what they are is seen where it is called
    pm={}
    for i,ks in src.items():
        ks=set(ks)
        for _ in range(len(bl)*4):
            n=set(ks)
            for b in bl:
                for x in b["s"]:
                    v=x.get("v")
                    if "p" in x and isinstance(v,dict) and v.get("r")=="use" and v["a"].get("o") in("cp","mv") and F.k(x["p"]) in ks: n.add(F.k(v["a"]["p"]))
            if n==ks: break
            ks=n
        js=[k[0] for k in ks if len(k)==1 and 1<=k[0]<=f["argc"]]
        made={F.k(x["p"]) for b in bl for x in b["s"] if "p" in x and not(isinstance(x.get("v"),dict) and x["v"].get("r")=="use" and x["v"]["a"].get("o") in("cp","mv"))}|{F.k(b["t"]["p"]) for b in bl if b["t"]["k"]=="call"}
        if len(js)==1 and not any(k in made for k in ks): pm[i]=js[0]
    if set(pm)==set(src):
        PASS[f["id"]]=pm; DEFER[f["id"]]=f
        return
    sl=set(src[iv]); ch=True
    while ch:
        ch=False
        for b in bl:
            for x in b["s"]:
                v=x.get("v")
                if "p" in x and isinstance(v,dict) and any(F.k(x["p"])[:len(k)]==k or k[:len(F.k(x["p"]))]==F.k(x["p"]) for k in sl):
                    u=[]; uses(v,u)
                    for y in u:
                        if F.k(y) not in sl and fld(F.k(y)) is None: sl.add(F.k(y)); ch=True
            t=b["t"]
            if t["k"]=="call" and any(F.k(t["p"])[:len(k)]==k or k[:len(F.k(t["p"]))]==F.k(t["p"]) for k in sl):
                u=[]; uses(t["a"],u)
                # a step of the summation starts from the stored state: what it returns is new
                for y in u:
                    for k in(F.k(y),F.k(list(y)+["*"]) if tname(P,ptype(P,f,y)).startswith("&") else F.k(y)):
                        if k not in sl and fld(k) is None: sl.add(k); ch=True
    others={k for i,ks in src.items() if i!=iv for k in ks}
    roots=lambda ks: {k[0] for k in ks}
    # locals moved into the fields, and what they were moved from
    if not others: return
    eq_=set(others); ch=True
    while ch:
        ch=False
        for b in bl:
            for x in b["s"]:
                v=x.get("v")
                if "p" in x and isinstance(v,dict) and v.get("r")=="use" and v["a"].get("o") in("cp","mv") and F.k(x["p"]) in eq_ and F.k(v["a"]["p"]) not in eq_ and fld(F.k(v["a"]["p"])) is None:
                    eq_.add(F.k(v["a"]["p"])); ch=True
    # what the value is computed from, up to the sums stored with it: not the sums stored before
    near=lambda k,ks: any(k[:len(e)]==e or e[:len(k)]==k for e in ks)
    s2=set(src[iv]); old=set(); ch=True
    while ch:
        ch=False
        for b in bl:
            for dst,val in [(x["p"],x["v"]) for x in b["s"] if "p" in x and isinstance(x.get("v"),dict)]+([(b["t"]["p"],b["t"]["a"])] if b["t"]["k"]=="call" else []):
                if not any(F.k(dst)[:len(k)]==k or k[:len(F.k(dst))]==F.k(dst) for k in s2): continue
                if near(F.k(dst),eq_): continue
                u=[]; uses(val,u)
                for y in u:
                    i=fld(F.k(y))
                    if i is not None:
                        if i>=0 and i!=iv and "BigFloatNumber" in tname(P,ptype(P,f,y)): old.add(i)
                    elif F.k(y) not in s2: s2.add(F.k(y)); ch=True
    if old: rep.bad("%s | value"%f["path"],"%s (%s): the stored value is computed from the %s of before, not from what is stored with it"%(f["path"],f["file"],", ".join(fields[i] for i in sorted(old))))
    elif any(k in sl for k in eq_): rep.ok("%s: the stored value is computed from the partial sums stored with it"%f["path"])
    else: rep.bad("%s | value"%f["path"],"%s (%s): the stored value is not computed from the partial sums that are stored with it"%(f["path"],f["file"]))
def lin(P,f,F,p,kk,hd,n=0):
    """lower bound a*k+b of a place (numerator domain: rationals), or ('term',L->interval function)"""
    o=p
    if o.get("o")=="c":
        c=cint(o); return (Q(0),Q(c)) if c is not None else None
    if n>14: return None
    key_=F.k(o["p"])
    if key_==kk: return (Q(1),Q(0))
    l=o["p"][0]; v=F.defs.get(l,[])
    # a variable changed in the loop: known to be at least the requested precision
    if key_ in hd and len(v)!=1: return (Q(1),Q(hd[key_]))
    if len(v)!=1: return None
    v=v[0]
    if len(o["p"])==2 and not(v.get("r")=="bin" and "WithOverflow" in v.get("op","")): return None
    if v.get("k")=="call":
        q,i=callee(v); a=v["a"]
        if q.endswith("::max") and len(a)==2: 
            for x in a:
                r=lin(P,f,F,x,kk,hd,n+1)
                if r and r[0]>0: return r
            return None
        if re.search(r"::(saturating_add)$",q) and len(a)==2:
            x,y=lin(P,f,F,a[0],kk,hd,n+1),lin(P,f,F,a[1],kk,hd,n+1)
            return (x[0]+y[0],x[1]+y[1]) if x and y else None
        if q.endswith("::div_ceil") and len(a)==2 and cint(a[1]):
            x=lin(P,f,F,a[0],kk,hd,n+1); c=cint(a[1]); return (x[0]/c,x[1]/c) if x else None
        g=P.fns.get(i)
        if g is not None and g["local"] and g["argc"]==1 and roundsup(P,g): return lin(P,f,F,a[0],kk,hd,n+1)
        if g is not None and g["local"] and g["argc"]==len(a) and all(tname(P,g["locals"][j]) in UNS for j in range(0,g["argc"]+1)):
            # a helper: its result as a linear function of its only argument
            if len(a)==1:
                x=lin(P,f,F,a[0],kk,hd,n+1)
                G=Flow(P,g); r=[lin(P,g,G,{"o":"cp","p":[0]},(1,),{},n+1)]
                if x and r[0] and r[0][0]>=0: return (r[0][0]*x[0],r[0][0]*x[1]+r[0][1])
                if x and x[0]==1: return ("fn",g,x)
        return None
    if v.get("r")=="use" or v.get("r")=="cast": return lin(P,f,F,v["a"],kk,hd,n+1)
    if v.get("r")=="bin":
        op=v["op"].replace("WithOverflow","").replace("Unchecked",""); x=lin(P,f,F,v["a"],kk,hd,n+1); y=lin(P,f,F,v["b"],kk,hd,n+1); c=cint(v["b"])
        if x is None or y is None or x[0]=="fn" or y[0]=="fn": return None
        if op=="Add": return (x[0]+y[0],x[1]+y[1])
        if op=="Sub" and y[0]==0 and c is not None: return (x[0],x[1]-c)
        if op=="Mul" and y[0]==0 and c is not None: return (x[0]*c,x[1]*c)
        if op=="Mul" and x[0]==0 and cint(v["a"]) is not None: return (y[0]*x[1],y[1]*x[1])
        if op=="Div" and c: return (x[0]/c,(x[1]-(c-1))/c)
        if op=="Shr" and c is not None: return (x[0]/(1<<c),(x[1]-((1<<c)-1))/(1<<c))
        if op=="Shl" and c is not None: return (x[0]*(1<<c),x[1]*(1<<c))
    return None
def evalfn(P,g,F,o,L,lo,hi,n=0):
    """interval of an operand of a straight-line helper whose argument lies in [lo,hi], a subrange of [2^L,2^(L+1))"""
    c=cint(o)
    if c is not None: return (c,c)
    if o.get("o") not in("cp","mv") or n>14: return None
    if o["p"]==[1]: return (lo,hi)
    v=F.defs.get(o["p"][0],[])
    if len(v)!=1: return None
    v=v[0]
    if v.get("k")=="call":
        q=callee(v)[0]; a=[evalfn(P,g,F,x,L,lo,hi,n+1) for x in v["a"]]
        if any(x is None for x in a): return None
        if re.search(r"::(log2_floor|ilog2)$",q) and a[0][0]>0: return (a[0][0].bit_length()-1,a[0][1].bit_length()-1)
        if q.endswith("::max"): return (max(a[0][0],a[1][0]),max(a[0][1],a[1][1]))
        return None
    if v.get("r") in("use","cast"): return evalfn(P,g,F,v["a"],L,lo,hi,n+1)
    if v.get("r")=="bin":
        x,y=evalfn(P,g,F,v["a"],L,lo,hi,n+1),evalfn(P,g,F,v["b"],L,lo,hi,n+1); op=v["op"].replace("WithOverflow","")
        if x is None or y is None: return None
        if op=="Add": return (x[0]+y[0],x[1]+y[1])
        if op=="Sub": return (x[0]-y[1],x[1]-y[0])
        if op=="Mul" and x[0]>=0 and y[0]>=0: return (x[0]*y[0],x[1]*y[1])
        if op=="Div" and y[0]>0 and x[0]>=0: return (x[0]//y[1],x[1]//y[0])
    return None
def guard(P,rep,f,cp,ct,fields):
    """the stored value reaches a rounding attempt only behind a sufficient comparison"""
    from c10 import ATT,passes,guards
    bl=f["blocks"]; F=Flow(P,f); cfg=P.cfg(f)
    if "val" not in fields: return
    args=[j for j in range(1,f["argc"]+1) if tpath(P,f["locals"][j])==cp]
    kargs=[j for j in range(1,f["argc"]+1) if tname(P,f["locals"][j])=="usize"]
    iv=fields.index("val"); uses_=[]
    from c10 import uses
    for b,B in enumerate(bl):
        for x in B["s"]:
            v=x.get("v")
            if isinstance(v,dict):
                u=[]; uses(v,u)
                for y in u:
                    k=F.k(y)
                    if k[0] in args and k[1:3]==("*","f%d"%iv): uses_.append(b)
    uses_=sorted(set(uses_))
    if not uses_ or not kargs: return
    kk=(kargs[0],)
    # variables that are at least the requested precision wherever they are defined
    hd={}
    F.run(0,{"lb":{},"d":{kk:((kk,0),)},"cmp":{}})
    joined=None
    for b in uses_:
        st=F.ins.get(b)
        if st is None: continue
        d={k:dict(v).get(kk) for k,v in st["d"].items() if kk in dict(v)}
        joined=d if joined is None else {k:min(joined[k],d[k]) for k in joined if k in d}
    hd={k:n for k,n in (joined or {}).items() if k!=kk}
    short=cp.rsplit("::",1)[-1]; cname={"PiCache":"pi","ECache":"e","Ln2Cache":"ln2","Ln10Cache":"ln10"}.get(short)
    for ub in uses_:
        found=None; weak=None; unknown=False
        for b in range(len(bl)):
            t=bl[b]["t"]
            if t["k"]!="switch" or t["d"].get("o") not in("cp","mv") or len(t["d"]["p"])!=1: continue
            zero=[x[1] for x in t["c"] if str(x[0])=="0"]; other=[m for m in succ(t) if m not in zero]
            c=cond(P,F,t["d"])
            if c is None:
                # decided by something else that looks at the stored state
                if reads_state(P,f,F,t["d"],args,iv) and (dominated(cfg,b,set(other),ub) or dominated(cfg,b,set(zero),ub)): unknown=True
                continue
            op,A,B=c
            A1,B1=stateside(P,f,F,A,args,iv),stateside(P,f,F,B,args,iv)
            if B1 and not A1: A,B=B,A; A1=B1; op={"Lt":"Gt","Gt":"Lt","Le":"Ge","Ge":"Le"}[op]
            elif not A1: continue
            if A1=="?": unknown=True; continue
            # successor on which the stored count exceeds the bound
            good=other if op in("Gt","Ge") else zero
            strict=1 if op in("Gt","Le") else 0
            if not dominated(cfg,b,set(good),ub): continue
            found=b; ex=lin(P,f,F,B,kk,hd)
            al,be=A1
            if ex is not None and ex[0]!="fn": ex=(ex[0]/al,(ex[1]+strict-be)/al); r=enough(P,cname,ex,0)
            elif ex is not None and (al,be)!=(1,0): r=None
            else: r=enough(P,cname,ex,strict)
            if r is True: break
            weak=(r,b)
        else:
            if found is None and unknown: rep.undecided("%s: the condition for using the stored value is not a form the analysis follows"%f["path"])
            elif found is None: rep.bad("%s | no guard"%f["path"],"%s (%s): the stored value is used without comparing the number of terms it was computed from with the request"%(f["path"],f["file"]))
            elif weak[0] is None: rep.undecided("%s: the bound on the number of terms is not a form the analysis follows"%f["path"])
            else: rep.bad("%s | weak guard"%f["path"],"%s (%s): %s"%(f["path"],f["file"],weak[0]))
            continue
        rep.ok("%s: the stored value is used only when computed from enough terms"%f["path"])
def cond(P,F,o,neg=False,n=0):
    """comparison a boolean operand stands for"""
    if n>8 or o.get("o") not in("cp","mv") or len(o["p"])!=1: return None
    v=F.defs.get(o["p"][0],[])
    if len(v)!=1: return None
    v=v[0]
    if v.get("r")=="use": return cond(P,F,v["a"],neg,n+1)
    if v.get("r")=="un" and v.get("op")=="Not": return cond(P,F,v["a"],not neg,n+1)
    if v.get("r")=="bin" and v["op"] in("Lt","Le","Gt","Ge"):
        op=v["op"]
        if neg: op={"Lt":"Ge","Ge":"Lt","Gt":"Le","Le":"Gt"}[op]
        return op,v["a"],v["b"]
    return None
def stateside(P,f,F,o,args,iv,n=0):
    """the operand as a multiple of a stored count plus a constant: (Q,Q), '?' when it depends on stored state otherwise, None"""
    if o.get("o") not in("cp","mv") or n>10: return None
    k=F.k(o["p"])
    if k[0] in args and len(k)>2 and k[1]=="*" and k[2]!="f%d"%iv and len(k)==3: return (Q(1),Q(0))
    v=F.defs.get(o["p"][0],[])
    if len(v)!=1: return None
    v=v[0]
    if v.get("r") in("use","cast"): return stateside(P,f,F,v["a"],args,iv,n+1)
    if v.get("r")=="bin":
        x,y=stateside(P,f,F,v["a"],args,iv,n+1),stateside(P,f,F,v["b"],args,iv,n+1); c,d=cint(v["b"]),cint(v["a"]); op=v["op"].replace("WithOverflow","")
        if x is None and y is None: return None
        if x not in(None,"?") and c is not None and c>0:
            if op=="Mul": return (x[0]*c,x[1]*c)
            if op=="Add": return (x[0],x[1]+c)
            if op=="Sub": return (x[0],x[1]-c)
            if op=="Div": return (x[0]/c,x[1]/c)
            if op=="Shl": return (x[0]*(1<<c),x[1]*(1<<c))
            if op=="Shr": return (x[0]/(1<<c),x[1]/(1<<c))
        if y not in(None,"?") and d is not None and d>0 and op in("Mul","Add"): return (y[0]*d,y[1]*d) if op=="Mul" else (y[0],y[1]+d)
        return "?"
    if v.get("k")=="call" and reads_state(P,f,F,o,args,iv): return "?"
    return None
def reads_state(P,f,F,o,args,iv):
    from c10 import uses
    seen=set(); todo=[o["p"]] if o.get("o") in("cp","mv") else []
    while todo:
        p=todo.pop(); k=F.k(p)
        if k[0] in args: return True
        if p[0] in seen: continue
        seen.add(p[0])
        for v in F.defs.get(p[0],[]):
            u=[]; uses(v["a"] if v.get("k")=="call" else v,u); todo+=u
    return False
def enough(P,cname,ex,strict):
    if ex is None: return None
    if ex[0]=="fn":
        g,x=ex[1],ex[2]; G=Flow(P,g)
        if cname!="e": return None
        for L in range(7,62):
            parts=min(256,1<<L)
            for i in range(parts):
                lo=(1<<L)+((1<<L)*i)//parts; hi=(1<<L)+((1<<L)*(i+1))//parts-1
                r=evalfn(P,g,G,{"o":"cp","p":[0]},L,lo,hi)
                if r is None: return None
                n=r[0]+strict
                # log2(n!) > n*(log2 n - log2 e)
                if n<2 or n*(math.log2(n)-1.4427)<hi-float(x[1]) : return "for a precision near 2^%d the comparison admits a value computed from %d terms, which are not enough"%(L,n)
        return True
    a,b=ex
    if cname=="e": 
        return None if a>0 else "the number of terms required does not grow with the requested precision"
    q=BITS[cname]
    # q*(a*k+b+strict) >= k for every k >= 64
    for k in(64,1<<60):
        if q*(a*k+b+strict)<k: return "the comparison admits a value computed from too few terms (about %s per bit, %s needed)"%(float(a),round(float(1/q),4))
    return True
def dominated(cfg,b,good,ub):
    """every path from the entry (and round any loop) to ub leaves b last through `good`... : ub is not reachable without passing such an edge"""
    seen=set(); todo=[0]
    while todo:
        x=todo.pop()
        if x==ub: return False
        if x in seen: continue
        seen.add(x)
        for y in cfg.succ[x]:
            if x==b and y in good: continue
            todo.append(y)
    return True
def dispatch(P,rep,fs):
    G={}
    for f in fs:
        for b in f["blocks"]:
            if b["t"]["k"]=="call":
                i=callee(b["t"])[1]
                if i in P.fns and P.fns[i]["local"]: G.setdefault(f["id"],set()).add(i)
    n=0
    for f in fs:
        m=re.match(r"ops::consts::Consts::(pi|e|ln_2|ln_10)(_num)?$",f["path"])
        if not m: continue
        n+=1; rep.unit(f["path"])
        seen=set(); todo=[f["id"]]; hit=set()
        while todo:
            x=todo.pop()
            if x in seen: continue
            seen.add(x); g=P.fns[x]
            mm=re.match(r"ops::consts::\w+::(\w+Cache)::",g["path"])
            if mm and x!=f["id"]: hit.add(mm.group(1)); continue
            todo+=G.get(x,())
        if hit=={NAMES[m.group(1)]}: rep.ok("%s: served from %s"%(f["path"],NAMES[m.group(1)]))
        elif not hit: rep.undecided("%s: no cache is reached"%f["path"])
        else: rep.bad("%s | cache"%f["path"],"%s: is served from %s"%(f["path"],", ".join(sorted(hit))))
    if n<8: rep.undecided("only %d entry points of constants found"%n)
