"""Lower bounds, growth since a loop head, and dependence, for the integer variables of one function (MIR dataflow)."""
import re
from effects import *
UNS=("usize","u64","u32","u16","u8","u128")
def ps(p): return tuple(str(x) if not isinstance(x,int) or i==0 else str(x) for i,x in enumerate(p))
def key(p): return (p[0],)+tuple(("f%d"%x[1] if x[0]=="f" else "v%s"%x[1] if x[0]=="v" else "i") if isinstance(x,list) else x for x in p[1:])
def okey(o): return key(o["p"]) if o.get("o") in("cp","mv") else None
def cint(o):
    if o.get("o")=="c" and isinstance(o.get("v"),dict) and o["v"].get("c")=="int":
        try: return int(o["v"]["v"])
        except Exception: return None
    return None
def ptype(P,f,p):
    t=f["locals"][p[0]]
    for st in p[1:]:
        x=P.ty.get(t) or {}
        if st=="*": t=x.get("to")
        elif isinstance(st,list) and st[0]=="f": t=st[2] if len(st)>2 else None
        elif isinstance(st,list) and st[0]=="v": pass
        else: t=None
        if t is None: return None
    return t
def tname(P,t): return (P.ty.get(t) or {}).get("s","")
def succ(t):
    k=t["k"]
    if k=="goto": return [t["t"]]
    if k=="switch": return [x[1] for x in t["c"]]+([t["else"]] if t.get("else") is not None else [])
    return [t["t"]] if t.get("t") is not None else []
def callee(t):
    c=t["f"].get("v") or {}
    return c.get("rpath") or c.get("path") or "?",c.get("id")
W_={"u8":8,"u16":16,"u32":32,"u64":64,"usize":64,"u128":128}
def width(s,p): return W_.get(tname(s.P,ptype(s.P,s.f,p)),0)
class Flow:
    """forward analysis from block `start` (within `body` if given); state: lb {key: int}, d {key: (w,k)}, cmp {key: (op,ka,kb)}"""
    def __init__(s,P,f,memo=None,entry=None,depth=0):
        s.P=P; s.f=f; s.depth=depth; s.memo={} if memo is None else memo; s.entry=entry or {}
        s.alias={}   # local -> place it refers to (single definition)
        defs={}
        for b in f["blocks"]:
            for x in b["s"]:
                if x.get("p") and isinstance(x.get("v"),dict) and len(x["p"])==1: defs.setdefault(x["p"][0],[]).append(x["v"])
            t=b["t"]
            if t["k"]=="call" and len(t["p"])==1: defs.setdefault(t["p"][0],[]).append(t)
        s.defs=defs
        for l,v in defs.items():
            if len(v)==1 and v[0].get("r")=="ref": s.alias[l]=v[0]["p"]
            # a reference copied out of an argument (captured variables)
            if len(v)==1 and v[0].get("r")=="use" and v[0]["a"].get("o") in("cp","mv") and tname(P,f["locals"][l]).startswith("&") and (0<v[0]["a"]["p"][0]<=f["argc"] and v[0]["a"]["p"][0] not in defs):
                s.alias[l]=list(v[0]["a"]["p"])+["*"]
    def k(s,p,n=0):
        """key of a place, through references with one definition"""
        if len(p)>1 and p[1]=="*" and p[0] in s.alias and n<6: return s.k(list(s.alias[p[0]])+list(p[2:]),n+1)
        return key(p)
    def uns(s,p): return tname(s.P,ptype(s.P,s.f,p)) in UNS
    def const(s,o):
        c=cint(o)
        if c is None and o.get("o") in("cp","mv") and len(o["p"])==1:
            v=s.defs.get(o["p"][0],[])
            if len(v)==1 and v[0].get("r")=="un" and v[0].get("op")=="Not" and cint(v[0]["a"]) is not None: c=(1<<64)-1-cint(v[0]["a"])
        return c
    def lb(s,st,o):
        c=cint(o)
        if c is not None: return c
        if o.get("o") in("cp","mv"):
            k=s.k(o["p"])
            if k in st["lb"]: return st["lb"][k]
            return 0 if s.uns(o["p"]) else None
        return None
    def dd(s,st,o):
        if o.get("o") in("cp","mv"): return st["d"].get(s.k(o["p"]),())
        return ()
    def kill(s,st,k):
        for m in("lb","d","cmp"):
            for x in [x for x in st[m] if x[:len(k)]==k]: del st[m][x]
        for x in [x for x,(op,a,b) in st["cmp"].items() if k in(a,b)]: del st["cmp"][x]
    def put(s,st,k,lb,d):
        s.kill(st,k)
        if lb is not None: st["lb"][k]=lb
        if d: st["d"][k]=d
    def add(s,d,n): return tuple((w,k+n) for w,k in d)
    def best(s,*ds):
        r={}
        for d in ds:
            for w,k in d: r[w]=max(r.get(w,-(1<<60)),k)
        return tuple(sorted(r.items(),key=str))
    def meet(s,a,b):
        r={}; db=dict(b)
        for w,k in a:
            if w in db: r[w]=min(k,db[w])
        return tuple(sorted(r.items(),key=str))
    def rval(s,st,v):
        r=v.get("r")
        if r=="use": return s.lb(st,v["a"]),s.dd(st,v["a"])
        if r=="cast": return (s.lb(st,v["a"]) if (s.lb(st,v["a"]) or -1)>=0 else None),s.dd(st,v["a"])
        if r=="bin":
            a,b=v["a"],v["b"]; la,lb_=s.lb(st,a),s.lb(st,b); da,db=s.dd(st,a),s.dd(st,b); op=v["op"].replace("WithOverflow","").replace("Unchecked","")
            if op=="Add": return (la+lb_ if la is not None and lb_ is not None else None),s.best(s.add(da,lb_) if lb_ is not None else (),s.add(db,la) if la is not None else ())
            if op=="Sub":
                c=cint(b); return (max(la-c,0) if la is not None and c is not None else None),(s.add(da,-c) if c is not None else ())
            if op=="Mul": return (la*lb_ if la is not None and lb_ is not None and la>=0 and lb_>=0 else None),(da if lb_ is not None and lb_>=1 else ())
            if op=="Div":
                c=cint(b); return (la//c if la is not None and la>=0 and c else None),()
            if op=="Shl": 
                c=cint(b); return (la<<c if la is not None and c is not None and c<64 else None),da
            if op=="BitAnd":
                # a mask of low bits cleared keeps the order
                for m,l in((s.const(b),la),(s.const(a),lb_)):
                    if m is not None and l is not None and l>=0:
                        if m<0: m+=1<<64
                        k=(m&-m).bit_length()-1
                        if m>0 and m==(1<<64)-(1<<k): return (l>>k)<<k,()
                return None,()
            if op=="Shr":
                c=cint(b); return (la>>c if la is not None and c is not None else None),()
        return None,()
    def step(s,st,x):
        v=x.get("v")
        if "dead" in x:
            s.kill(st,(x["dead"],)); return
        if "p" not in x or not isinstance(v,dict): return
        p=x["p"]; k=s.k(p)
        if v.get("r")=="bin" and v["op"] in("Lt","Le","Gt","Ge","Eq","Ne"):
            s.kill(st,k)
            st["cmp"][k]=(v["op"],v["a"],v["b"]) ; return
        if v.get("r")=="bin" and "WithOverflow" in v["op"]:
            lb,d=s.rval(st,v); s.kill(st,k); s.put(st,k+("f0",),lb,d); return
        if v.get("r")=="un" and v.get("op")=="Not":
            c=st["cmp"].get(okey(v["a"]) or ()); s.kill(st,k)
            if c: st["cmp"][k]=({"Lt":"Ge","Ge":"Lt","Gt":"Le","Le":"Gt","Eq":"Ne","Ne":"Eq"}[c[0]],c[1],c[2])
            return
        if v.get("r")=="use" and v["a"].get("o") in("cp","mv"):
            src=s.k(v["a"]["p"]); ks=[(m,y[len(src):],st[m][y]) for m in("lb","d","cmp") for y in st[m] if y[:len(src)]==src]
            s.kill(st,k)
            for m,r_,val in ks: st[m][k+r_]=val
            return
        if v.get("r")=="agg" and v.get("k")=="tuple":
            r=[(k+("f%d"%j,),s.lb(st,o),s.dd(st,o)) for j,o in enumerate(v.get("f") or [])]
            s.kill(st,k)
            for q,lb,d in r: s.put(st,q,lb,d)
            return
        lb,d=s.rval(st,v); s.put(st,k,lb,d)
    def call(s,st,t):
        q,i=callee(t); a=t["a"]; k=s.k(t["p"]); lb=None; d=()
        if re.search(r"::max$",q) and len(a)==2:
            x,y=s.lb(st,a[0]),s.lb(st,a[1]); lb=max(z for z in(x,y,0) if z is not None); d=s.best(s.dd(st,a[0]),s.dd(st,a[1]))
        elif re.search(r"::min$",q) and len(a)==2:
            x,y=s.lb(st,a[0]),s.lb(st,a[1]); lb=min(x,y) if x is not None and y is not None else None; d=s.meet(s.dd(st,a[0]),s.dd(st,a[1]))
        elif re.search(r"::(saturating_add|wrapping_add)$",q) and len(a)==2:
            lb,d=s.rval(st,{"r":"bin","op":"Add","a":a[0],"b":a[1]})
        elif re.search(r"::clone$",q) and a and a[0].get("o") in("cp","mv"):
            kk=s.k(list(a[0]["p"])+["*"]); lb=st["lb"].get(kk); d=st["d"].get(kk,())
        elif re.search(r"::next_multiple_of$",q) and len(a)==2:
            lb=s.lb(st,a[0]); d=s.dd(st,a[0])
        elif re.search(r"::div_ceil$",q) and len(a)==2:
            c=cint(a[1]); l=s.lb(st,a[0]); lb=-(-l//c) if c and l is not None and l>=0 else None
        elif s.effect(st,t,s.P.fns.get(i)): return
        else:
            g=s.P.fns.get(i)
            if g is not None and g["local"] and s.depth<4 and tname(s.P,g["locals"][0]) in UNS and all(tname(s.P,g["locals"][j]) in UNS for j in range(1,g["argc"]+1)):
                ls=tuple(s.lb(st,o) for o in a); lb=summary(s.P,g,ls,s.memo,s.depth+1)
                # a value rounded up keeps what is known of its argument
                if len(a)==1 and roundsup(s.P,g): d=s.dd(st,a[0])
        for o in a:
            # memory reachable through an exclusive reference may change
            if o.get("o") in("cp","mv") and tname(s.P,ptype(s.P,s.f,o["p"])).startswith("&mut"):
                kk=s.k(list(o["p"])+["*"]); s.kill(st,kk)
        s.put(st,k,lb,d)
    def effect(s,st,t,g):
        """apply what a small local function does to integers: its result and what it changes through references"""
        if g is None or not g["local"] or s.depth>=3 or len(g["blocks"])>40: return False
        a=t["a"]; ent={}; dmap={}; outs=[]; any_=False
        if len(a)!=g["argc"]: return False
        for j,o in enumerate(a):
            tn=tname(s.P,g["locals"][j+1])
            if tn in UNS:
                ent[(j+1,)]=s.lb(st,o); dmap[(j+1,)]=s.dd(st,o)
            elif tn.startswith("&") and tn.replace("&mut ","").replace("&","").strip() in UNS and o.get("o") in("cp","mv"):
                kk=s.k(list(o["p"])+["*"]); l=st["lb"].get(kk); ent[(j+1,"*")]=0 if l is None else l; dmap[(j+1,"*")]=st["d"].get(kk,())
                if tn.startswith("&mut"): outs.append(((j+1,"*"),kk))
        rt=s.P.ty.get(g["locals"][0]) or {}
        tup=rt.get("k")=="tuple" and all(tname(s.P,x) in UNS for x in (rt.get("of") or []))
        if tname(s.P,g["locals"][0]) in UNS: any_=True
        elif tup and rt.get("of"): any_=True
        if not(any_ or outs): return False
        if tname(s.P,g["locals"][0]) in UNS and not outs and roundsup(s.P,g): return False
        key_=(g["id"],"eff",tuple(sorted(ent.items(),key=str)))
        if key_ not in s.memo:
            s.memo[key_]=None
            F=Flow(s.P,g,s.memo,{k:v for k,v in ent.items() if v is not None},s.depth+1)
            F.run(0,{"lb":{k:v for k,v in ent.items() if v is not None},"d":{k:((("arg",)+k,0),) for k in ent},"cmp":{}}); r=None
            for b,B in enumerate(g["blocks"]):
                if B["t"]["k"]=="ret" and b in F.out: r=F.out[b] if r is None else F.join(r,F.out[b])
            s.memo[key_]=r
        r=s.memo[key_]
        if r is None: return False
        def tr(d): return s.best(*[s.add(dmap.get(w[1:],()),n) for w,n in d if w[:1]==("arg",)]) if d else ()
        new=[]
        for kin,kk in outs: new.append((kk,r["lb"].get(kin),tr(r["d"].get(kin,()))))
        dst=s.k(t["p"])
        for k,v in set((k,1) for k in list(r["lb"])+list(r["d"]) if k[0]==0): new.append((dst+k[1:],r["lb"].get(k),tr(r["d"].get(k,()))))
        for o in a:
            if o.get("o") in("cp","mv") and tname(s.P,ptype(s.P,s.f,o["p"])).startswith("&mut"): s.kill(st,s.k(list(o["p"])+["*"]))
        s.kill(st,dst)
        for k,lb,d in new:
            if lb is not None: st["lb"][k]=lb
            if d: st["d"][k]=d
        return True
    def edges(s,st,t):
        """successors with the state on each edge"""
        if t["k"]!="switch": 
            for m in succ(t): yield m,st
            return
        c=st["cmp"].get(okey(t["d"]) or ())
        zero=[x[1] for x in t["c"] if str(x[0])=="0"]
        seen=set()
        for m in succ(t):
            if m in seen: continue
            seen.add(m)
            if c is None: yield m,st; continue
            truth=not(m in zero)
            n={"lb":dict(st["lb"]),"d":dict(st["d"]),"cmp":dict(st["cmp"])}
            op=c[0] if truth else {"Lt":"Ge","Ge":"Lt","Gt":"Le","Le":"Gt","Eq":"Ne","Ne":"Eq"}[c[0]]
            a,b=c[1],c[2]
            if op in("Gt","Ge"): a,b=b,a; op={"Gt":"Lt","Ge":"Le"}[op]
            if op in("Lt","Le","Eq"):
                e=1 if op=="Lt" else 0
                s.learn(n,b,a,e)
                if op=="Eq": s.learn(n,a,b,0)
            yield m,n
    def learn(s,n,hi,lo,e):
        """hi >= lo + e"""
        if hi.get("o") not in("cp","mv"): return
        for kh in s.same(n,hi):
            l=s.lb(n,lo)
            if l is not None: n["lb"][kh]=max(n["lb"].get(kh,l+e),l+e)
            d=s.dd(n,lo)
            if d: n["d"][kh]=s.best(n["d"].get(kh,()),s.add(d,e))
    def same(s,n,o):
        """the place of an operand and the place it was copied from"""
        r=[s.k(o["p"])]; x=o; i=0
        while len(x["p"])==1 and i<6:
            v=s.defs.get(x["p"][0],[])
            if len(v)!=1 or v[0].get("r") not in("use","cast") or v[0]["a"].get("o") not in("cp","mv"): break
            if v[0]["r"]=="cast" and not(s.uns(v[0]["a"]["p"]) and width(s,v[0]["a"]["p"])<=width(s,x["p"])): break
            x=v[0]["a"]; k=s.k(x["p"]); i+=1
            # still the same value as when it was copied
            if n["d"].get(k)!=n["d"].get(r[0]): break
            r.append(k)
        return r
    def join(s,a,b):
        r={"lb":{},"d":{},"cmp":{}}
        for k,v in a["lb"].items():
            if k in b["lb"]: r["lb"][k]=min(v,b["lb"][k])
        for k,v in a["d"].items():
            if k in b["d"]:
                m=s.meet(v,b["d"][k])
                if m: r["d"][k]=m
        for k,v in a["cmp"].items():
            if b["cmp"].get(k)==v: r["cmp"][k]=v
        return r
    def run(s,start=0,init=None,body=None,stop=None):
        """states at block entry; with body: states arriving at `stop` along back edges {source: state}"""
        ins={start:init or {"lb":dict(s.entry),"d":{},"cmp":{}}}; todo=[start]; cnt={}; back={}; s.out={}
        while todo:
            b=todo.pop(0); cnt[b]=cnt.get(b,0)+1
            if cnt[b]>400: ins[b]["lb"]={}; ins[b]["d"]={}
            if cnt[b]>500: break
            st={m:dict(ins[b][m]) for m in("lb","d","cmp")}
            B=s.f["blocks"][b]
            for x in B["s"]: s.step(st,x)
            t=B["t"]; s.out[b]={m:dict(st[m]) for m in st}
            if t["k"]=="call": s.call(st,t)
            for m,e in s.edges(st,t):
                if body is not None:
                    if m==stop: back[b]=e if b not in back else s.join(back[b],e); continue
                    if m not in body: continue
                if m not in ins: ins[m]=e; todo.append(m)
                else:
                    n=s.join(ins[m],e)
                    if cnt.get(m,0)>12: n={q:{k:v for k,v in n[q].items() if ins[m][q].get(k)==v} for q in n}
                    if n!=ins[m]: ins[m]=n; todo.append(m) if m not in todo else None
        s.ins=ins
        return back
    def paths(s,h,init,body,keep,cap=24):
        """like run over a loop body, but keeping apart the states of different paths; {source of back edge: [states]}"""
        ins={h:[init]}; todo=[(h,init)]; back={}; n=0; cnt={}
        live=s.P.cfg(s.f).live
        while todo:
            b,st0=todo.pop(0); n+=1
            if n>6000: return None
            st={m:dict(st0[m]) for m in("lb","d","cmp")}
            B=s.f["blocks"][b]
            for x in B["s"]: s.step(st,x)
            t=B["t"]
            if t["k"]=="call": s.call(st,t)
            for m,e in s.edges(st,t):
                if m!=h and m not in body: continue
                lv=live.get(m) if isinstance(live,dict) else live[m]
                e={q:{k:v for k,v in e[q].items() if k[0] in lv or k[0]<=s.f["argc"] or k in keep} for q in e}
                if m==h:
                    L=back.setdefault(b,[])
                    if e not in L: L.append(e)
                    continue
                L=ins.setdefault(m,[])
                if e in L: continue
                cnt[m]=cnt.get(m,0)+1
                if len(L)>=cap or cnt[m]>3*cap:
                    j=e
                    for y in L: j=s.join(j,y)
                    if cnt[m]>5*cap: j={"lb":{},"d":{},"cmp":{}}
                    if L==[j]: continue
                    ins[m]=[j]; todo.append((m,j))
                else: L.append(e); todo.append((m,e))
        return back
def summary(P,g,ls,memo,depth):
    k=(g["id"],ls)
    if k in memo: return memo[k]
    memo[k]=0
    F=Flow(P,g,memo,{(i+1,):l for i,l in enumerate(ls) if l is not None},depth)
    F.run(); r=None
    for b,B in enumerate(g["blocks"]):
        if B["t"]["k"]=="ret" and b in F.out:
            v=F.out[b]["lb"].get((0,),0); r=v if r is None else min(r,v)
    memo[k]=r or 0
    return memo[k]
_ru={}
def roundsup(P,g):
    """result >= argument: shown when the lower bound of the result is at least that of the argument for a spread of bounds
    and the function is x -> ((x + (c-1)) / c) * c"""
    if g["id"] in _ru: return _ru[g["id"]]
    r=False
    ops=[]; cs=[]
    for b in g["blocks"]:
        for x in b["s"]:
            v=x.get("v") or {}
            if v.get("r")=="bin" and v["op"] not in("Eq","Ne"):
                ops.append(v["op"].replace("WithOverflow","").replace("Unchecked","")); cs+=[cint(v["a"]),cint(v["b"])]
        if b["t"]["k"]=="call" and callee(b["t"])[0].endswith("::saturating_add"):
            ops.append("Add"); cs+=[cint(o) for o in b["t"]["a"]]
    memo={}
    r=all(summary(P,g,(n,),memo,1)>=n for n in(0,1,63,64,65,127,128,1000)) and sorted(set(ops))in(["Add","Div","Mul"],["Add","Div","Mul","Sub"])
    _ru[g["id"]]=r
    return r
