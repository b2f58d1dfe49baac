"""C17: build features and debug assertions do not change what a function computes.

The crate is compiled (type-checked and lowered) once per configuration. Every function existing in two configurations is brought
to a canonical form (blocks in depth-first order, locals numbered by first use, std/core/alloc paths identified, line numbers
dropped) and the forms are compared. When they differ, code without influence is removed from both (branches into panics together
with the computation of their condition, provided that computation has no side effect) and the rest is compared again."""
import re,json,sys
import facts
from report import Report
CONFIGS=[("std, random, no serde",dict(features=("std","random"),default=False)),
         ("std only",dict(features=("std",),default=False)),
         ("no features",dict(features=(),default=False)),
         ("serde and random without std",dict(features=("serde","random"),default=False)),
         ("all features, debug assertions off",dict(features=("serde",),args=("--config","profile.dev.debug-assertions=false","--config","profile.dev.overflow-checks=true"),tag="num-nodbg"))]
def load(c):
    if "tag" in c:
        return facts.dump(facts.NUM,["astro_float_num"],features=list(c["features"]),args=c["args"],tag=c["tag"])["astro_float_num"]
    return facts.num(features=c["features"],default=c["default"])
STD=re.compile(r"\b(alloc|core)::")
# modules the same item is reached by depending on the configuration
def norm(s): return STD.sub("std::",s)
DROPK=("l","line","cu","crate","rcrate","id","full")
class Canon:
    def __init__(s,F): s.F=F; s.tc={}
    def ty(s,t):
        r=s.tc.get(t)
        if r is None: r=s.tc[t]=norm(s.F["ty"][t]["s"]) if t in s.F["ty"] else str(t)
        return r
    def walk(s,x,loc,key=None):
        if isinstance(x,dict):
            if "c" in x and x["c"]=="fn":
                return ("fn",norm(x.get("full") or x["path"]),tuple(s.ty(t) for t in x.get("targs",())))
            r=[]
            for a in sorted(x):
                if a in DROPK: continue
                b=x[a]
                if a in("ty","dty","to") and isinstance(b,int): r.append((a,s.ty(b)))
                elif a=="p" and isinstance(b,list): r.append((a,s.place(b,loc)))
                elif a=="dead": r.append((a,loc(b)))
                else: r.append((a,s.walk(b,loc,a)))
            return tuple(r)
        if isinstance(x,list): return tuple(s.walk(y,loc,key) for y in x)
        if isinstance(x,str): return norm(x)
        return x
    def place(s,p,loc):
        r=[loc(p[0])]
        for q in p[1:]:
            if isinstance(q,list) and q[0]=="f": r.append(("f",q[1]))
            elif isinstance(q,list) and q[0]=="i": r.append(("i",loc(q[1])))
            else: r.append(tuple(q) if isinstance(q,list) else q)
        return tuple(r)
    def form(s,fn,blocks=None):
        bl=blocks or fn["blocks"]
        names={}
        def loc(l):
            if l<=fn["argc"]: return l
            if l not in names: names[l]=fn["argc"]+1+len(names)
            return names[l]
        order={}; out=[]; todo=[0]
        # depth-first numbering, chains of empty gotos skipped
        def skip(b):
            n=0
            while bl[b]["t"]["k"]=="goto" and not [x for x in bl[b]["s"] if "dead" not in x] and n<len(bl): b=bl[b]["t"]["t"]; n+=1
            return b
        def ref(b):
            b=skip(b)
            if b not in order: order[b]=len(order); todo.append(b)
            return order[b]
        order[skip(0)]=0; todo=[skip(0)]
        while todo:
            b=todo.pop(0)
            st=[]; t=bl[b]["t"]
            st+=[s.stmt(x,loc) for x in bl[b]["s"] if "dead" not in x]
            # straight-line continuation
            seen={b}
            while t["k"]=="goto" and npred(bl).get(t["t"],0)==1 and t["t"] not in seen:
                b=t["t"]; seen.add(b); st+=[s.stmt(x,loc) for x in bl[b]["s"] if "dead" not in x]; t=bl[b]["t"]
            k=t["k"]
            tt=[k]
            if k=="switch":
                tt+=[s.walk(t["d"],loc)]
                tt+=[(v,ref(x)) for v,x in t["c"]]+[("else",ref(t["else"]) if t.get("else") is not None else None)]
            else:
                for a in sorted(t):
                    if a in("k","cl")+DROPK: continue
                    v=t[a]
                    if a in("t","else","u") and isinstance(v,int): tt.append((a,ref(v)))
                    elif a=="p": tt.append((a,s.place(v,loc)))
                    else: tt.append((a,s.walk(v,loc,a)))
            out.append((tuple(st),tuple(tt)))
        return tuple(out)
    def stmt(s,x,loc): return (s.place(x["p"],loc),s.walk(x["v"],loc))
def npred(bl,_c={}):
    k=id(bl)
    if k in _c and _c[k][0] is bl: return _c[k][1]
    n={}
    for b in bl:
        for x in succ(b["t"]): n[x]=n.get(x,0)+1
    _c.clear(); _c[k]=(bl,n)
    return n
def succ(t):
    k=t["k"]
    if k=="switch": return [x for _,x in t["c"]]+([t["else"]] if t.get("else") is not None else [])
    return [t["t"]] if isinstance(t.get("t"),int) else []
def locs(x,out):
    """locals read by an operand / rvalue"""
    if isinstance(x,dict):
        if "p" in x and isinstance(x["p"],list) and x["p"] and isinstance(x["p"][0],int):
            out.add(x["p"][0])
            for q in x["p"][1:]:
                if isinstance(q,list) and q[0]=="i": out.add(q[1])
        for k,v in x.items():
            if k!="p": locs(v,out)
    elif isinstance(x,list):
        for y in x: locs(y,out)
def prune(F,fn,pure):
    """branches into panics, and what is only computed for them, removed"""
    bl=[dict(b,s=list(b["s"]),t=dict(b["t"])) for b in fn["blocks"]]
    n=len(bl)
    # blocks from which only a panic is reachable and which change nothing visible
    dies=set()
    ch=True
    while ch:
        ch=False
        for i,b in enumerate(bl):
            if i in dies: continue
            t=b["t"]
            if t["k"]=="unreach" or(t["k"]=="call" and t.get("t") is None) or(succ(t) and all(x in dies for x in succ(t)) and (t["k"]!="call" or pure(t))):
                dies.add(i); ch=True
    for i,b in enumerate(bl):
        t=b["t"]
        # `if cfg!(debug_assertions)`: a switch on a constant assigned in the same block
        if t["k"]=="switch" and t["d"].get("o") in("cp","mv") and len(t["d"]["p"])==1:
            v=None
            for x in b["s"]:
                if "dead" in x: continue
                if x["p"]==t["d"]["p"]:
                    a=x["v"].get("a",{}) if x["v"].get("r")=="use" else {}
                    v=a["v"]["v"] if a.get("o")=="c" and a.get("v",{}).get("c")=="int" else None
            if v is not None:
                b["t"]={"k":"goto","t":next((x for c,x in t["c"] if c==v),t["else"])}
    for i,b in enumerate(bl):
        t=b["t"]
        if t["k"]=="switch":
            al=[x for x in succ(t) if x not in dies]
            if len(set(al))==1 and len(al)<len(succ(t)): b["t"]={"k":"goto","t":al[0]}
        elif t["k"]=="assert" and t.get("t") is not None: b["t"]={"k":"goto","t":t["t"]}
    # dead pure computations
    ch=True
    while ch:
        ch=False
        reach=set(); todo=[0]
        while todo:
            x=todo.pop()
            if x in reach: continue
            reach.add(x); todo+=succ(bl[x]["t"])
        used={0}|set(range(1,fn["argc"]+1))
        for i in reach:
            b=bl[i]
            for x in b["s"]:
                if "dead" in x: continue
                locs(x["v"],used)
                if len(x["p"])>1:
                    if "*" in x["p"]: used.add(x["p"][0])
                    for q in x["p"][1:]:
                        if isinstance(q,list) and q[0]=="i": used.add(q[1])
            t=b["t"]
            if t["k"]=="call":
                for a in t["a"]: locs(a,used)
                locs(t["f"],used)
                if len(t["p"])>1: used.add(t["p"][0])
            elif t["k"]=="switch": locs(t["d"],used)
            elif t["k"] in("assert",): locs({k:v for k,v in t.items() if k not in("t","u")},used)
        for i in reach:
            b=bl[i]
            ns=[x for x in b["s"] if "dead" in x or "*" in x["p"] or x["p"][0] in used]
            if len(ns)!=len(b["s"]): b["s"]=ns; ch=True
            t=b["t"]
            if t["k"]=="call" and len(t["p"])==1 and t["p"][0] not in used and t.get("t") is not None and pure(t):
                b["t"]={"k":"goto","t":t["t"]}; ch=True
            if t["k"]=="drop" and t["p"][0] not in used and False: ch=True
    return bl
def purity(F):
    """calls that cannot be observed: no mutable reference, no interior mutability, nothing consumed that needs dropping"""
    nopath=re.compile(r"(Cell|Atomic|Mutex|RwLock|io::|env::|process::|thread)")
    def pure(t):
        c=t["f"].get("v",{}) if isinstance(t["f"],dict) else {}
        p=c.get("full") or c.get("path") or ""
        if not c or nopath.search(p): return False
        for a in t["a"]:
            ty=argty(a)
            if ty is None: return False
            d=F["ty"].get(ty)
            if d is None or not okty(d): return False
        return True
    cur={}
    def argty(a):
        if a.get("o")=="c": return a.get("ty")
        p=a.get("p")
        t=cur["fn"]["locals"][p[0]]
        for q in p[1:]:
            if q=="*":
                d=F["ty"][t]
                t=d.get("to")
                if t is None: return None
            elif isinstance(q,list) and q[0]=="f": t=q[2]
            elif isinstance(q,list) and q[0]=="v": pass
            else: return None
        return t
    def okty(d,depth=0):
        if d["k"] in("int","bool","char","float","str","fndef","never"): return True
        if d["k"]=="ref": return not d["mut"] and (F["ty"].get(d["to"],{}).get("freeze") in(True,None))
        if d["k"] in("tuple","closure"): return depth<3 and all(okty(F["ty"][x],depth+1) for x in d["of"] if x in F["ty"])
        if d["k"]=="adt": return d.get("freeze") is True and not re.search(r"Vec|Box|String|&mut|BigFloat|Mantissa|WordBuf|Rc|Arc",d["s"])
        return False
    def at(fn): cur["fn"]=fn
    return pure,at
def diff(a,b):
    if len(a)!=len(b): return "%d blocks against %d"%(len(a),len(b))
    for i,(x,y) in enumerate(zip(a,b)):
        if x[1]!=y[1] and x[0]==y[0]: return "end of block %d: %s against %s"%(i,str(x[1])[:160],str(y[1])[:160])
        for u,v in zip(x[0],y[0]):
            if u!=v: return "statement in block %d: %s against %s"%(i,str(u)[:160],str(v)[:160])
        if len(x[0])!=len(y[0]): return "block %d has %d statements against %d"%(i,len(x[0]),len(y[0]))
    return "?"
def items(F): return {(norm(i["path"]),i["name"]) for i in F["items"]} if F["items"] and "path" in F["items"][0] else set()
GATED={"random":re.compile(r"random"),"serde":re.compile(r"serde|for_3rd"),
       "std":re.compile(r"as std::(fmt::\w+|str::FromStr|error::Error)>|TENV|common::consts::")}
def run(tier="quick"):
    R=Report("C17","every function existing in two build configurations has the same canonical form in both; code under debug assertions has no effect")
    base=load(dict(features=("serde",),default=True)); CB=Canon(base)
    A={}
    for k,f in list(base["fns"].items()):
        if f["local"]: A[norm(k)]=f
    fb={}
    pb,ab=purity(base)
    for name,c in CONFIGS:
        try: G=load(c)
        except facts.BuildError as e:
            R.bad("build|"+name,"the crate does not compile in configuration '%s': %s"%(name,str(e)[-300:].replace("\n"," "))); continue
        CG=Canon(G); pg,ag=purity(G)
        B={norm(k):f for k,f in G["fns"].items() if f["local"]}
        R.unit(name)
        n=0
        for k in sorted(set(A)&set(B)):
            n+=1
            if k not in fb: fb[k]=CB.form(A[k])
            g=CG.form(B[k])
            R.fns.add(k)
            if fb[k]==g: R.ok(); continue
            ab(A[k]); x=CB.form(A[k],prune(base,A[k],pb))
            ag(B[k]); y=CG.form(B[k],prune(G,B[k],pg))
            if x==y: R.ok(); R.count("equal after removing checks"); continue
            R.bad("%s|%s"%(name,k),"%s:%s: %s differs between the default build and '%s': %s"%(A[k]["file"],A[k]["line"],k,name,diff(x,y)))
        R.count("functions compared",n)
        # a function of the default build missing in this one belongs to a feature that is off
        off=[f for f in("std","random","serde") if "tag" not in c and f not in c["features"]]
        miss=[k for k in sorted(set(A)-set(B))]
        for k in miss:
            if any(GATED[f].search(k) for f in off): R.ok(); R.count("functions of switched-off features")
            else: R.count("other functions without counterpart"); R.note("only in the default build, not in '%s': %s"%(name,k))
    R.assume.append("two functions with equal type-checked intermediate code behave equally; std, core and alloc paths name the same items")
    R.assume.append("overflow checks are kept on in both builds compared; that arithmetic does not overflow is not this property")
    return R
