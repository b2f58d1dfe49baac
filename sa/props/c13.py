"""C13: exponent limits of contexts, what contexts report, and delivery of values outside the limits."""
from ops import *
from report import Report
from oc import signs
RULE=("Abstract interpretation of every function that builds, changes or reads a context, and of the exponent check: per class of exponent argument (below, inside, above the legal range) the limit stored and "
 "reported is the argument or the nearest legal value; every stored limit stays in its range; all kinds of context report the parts they were made of, and hand precision and mode to the same constant; "
 "values above / below the limits become the infinity of their sign / zero, others pass unchanged.")
I32=(-(1<<31),(1<<31)-1)
CC={"const_pi":"pi","const_e":"e","const_ln2":"ln_2","const_ln10":"ln_10"}
class C13(CI):
    def __init__(s,*a,**k):
        CI.__init__(s,*a,**k); s.ev=[]; s.oncall=s.incall
    def incall(s,st,fn,b,c,args,ctx,depth):
        q=(c.get("rpath") or c.get("path") or "").split("::")
        if "Consts" in "::".join(q) and q[-1] in CC.values():
            s.ev.append((q[-1],[s.norm(a,st) for a in args]))
            return [(st,flavor(s,"const_"+q[-1],symnum(s,"const_"+q[-1])))]
def fields(P):
    t=P.tyid("ctx::Context"); return t,[x[0] for x in P.ty[t]["variants"][0]["f"]],[x[1] for x in P.ty[t]["variants"][0]["f"]]
def ctxval(I,P,nm,ok=True):
    t,ns,ts=fields(P); f=[]
    for n,ty in zip(ns,ts):
        if n=="emin": f.append(Sym(nm+".emin",EMIN,0))
        elif n=="emax": f.append(Sym(nm+".emax",0,EMAX))
        elif n=="p": f.append(Sym(nm+".p",0,(1<<64)-1))
        elif n=="rm": f.append(E(I.trm,Sym(nm+".rm.#",0,6),nm+".rm"))
        else:
            f.append(I.fresh(ty,nm+"."+n,None))
    return A(t,0,tuple(f))
def same(I,x,a,b):
    a,b=I.norm(a,x),I.norm(b,x)
    if type(a) is E and type(b) is E: a,b=a.sym,b.sym
    if type(a) is T and type(b) is T: return a is b or x.iv(sub(a,b))==(0,0)
    return repr(a)==repr(b)
def lims(kind): return (EMIN,0) if kind=="emin" else (0,EMAX)
def cls(kind,s):
    lo,hi=lims(kind)
    return [("below",[(le(s,K(lo-1)),True)]),("legal",[(le(K(lo),s),True),(le(s,K(hi)),True)]),("above",[(le(K(hi+1),s),True)])]
def expect(rep,path,kind,lab,I,x,got,arg):
    lo,hi=lims(kind); iv=x.iv(got) if type(got) is T else None
    what="%s for an argument %s"%(kind,{"below":"below the range","legal":"inside the range","above":"above the range"}[lab])
    if iv is None: rep.undecided("%s: %s not identified"%(path,what)); return
    want={"below":(lo,lo),"above":(hi,hi)}.get(lab)
    if lab=="legal":
        if same(I,x,got,arg): rep.ok("%s: %s is returned unchanged"%(path,what)); return
        if iv[0]<lo or iv[1]>hi: rep.bad("%s | %s range"%(path,kind),"%s: %s can be outside [%d, %d] (%s)"%(path,kind,lo,hi,iv)); return
        rep.bad("%s | %s changed"%(path,kind),"%s: %s is not the argument"%(path,what)); return
    if iv==want: rep.ok("%s: %s is clamped to %d"%(path,what,want[0])); return
    rep.bad("%s | %s %s"%(path,kind,lab),"%s: %s is %s instead of %d"%(path,what,iv if iv[0]!=iv[1] else iv[0],want[0]))
def go(P,fn,hk,pre=None):
    I=C13(P,root=fn["id"],ext=True); I.budget=300000; st=State()
    args=mkargs(I,st,fn,hook=lambda i,nm,t,st: hk(I,i,nm,t,st)); I.pinned=set("abcdefgh")
    return I,st,args
def run(tier):
    P=prog(); rep=Report("C13",RULE); t,ns,ts=fields(P); texp=P.tyid("i32")
    for need in("emin","emax","p","rm","cc"):
        if need not in ns: rep.undecided("Context has no field %s"%need); return rep
    # every function that stores a context or one of its fields
    w=[]
    for i,f in P.fns.items():
        if not f["local"]: continue
        hit=any(P.tys(f["locals"][0]).find("ctx::Context")>=0 for _ in [0])
        for b in f["blocks"]:
            for x in b["s"]:
                v=x.get("v")
                if isinstance(v,dict) and v.get("r")=="agg" and v.get("ty")==t: hit=True
        for j in range(1,f["argc"]+1):
            if P.tys(f["locals"][j])=="&mut ctx::Context": hit=True
        # functions that are not part of an interface are judged where they are called
        if hit and "{closure" not in f["path"]: w.append(f)
    params={x["path"]:x for x in P.items if x.get("t")=="item"}
    for f in sorted(w,key=lambda f:f["path"]):
        it=params.get(f["path"]) or {}
        writers(rep,P,f,it,t,ns,ts,texp)
    rep.count("functions_storing_a_context",len(w))
    if len(w)<8: rep.undecided("only %d functions storing a context were found"%len(w))
    readers(rep,P,t,ns,ts)
    check_range(rep,P)
    return rep
def writers(rep,P,f,it,t,ns,ts,texp):
    path=f["path"]; rep.unit(path); pn=it.get("params") or []
    pub=it.get("exported",True)
    def hk(I,i,nm,ty,st):
        if P.tys(ty) in("ctx::Context","&ctx::Context","&mut ctx::Context"):
            c=ctxval(I,P,"self")
            if P.ty[ty]["k"]=="ref":
                st.mem[("H",nm)]=c; return R(("H",nm),(),P.ty[ty]["mut"])
            return c
        if ty==texp: return Sym("arg.%d"%i,*I32)
        return None
    I,st,args=go(P,f,hk)
    ex=[(i,pn[i] if i<len(pn) else "") for i in range(f["argc"]) if f["locals"][i+1]==texp]
    known=[(i,n) for i,n in ex if n in("emin","emax")]
    if ex and not pub: rep.note("%s is internal: judged through its callers"%path); return
    base=dict(st.mem)
    for labs,x0 in splits(st,[cls(n,args[i]) for i,n in known]):
        try: outs=I.run(f["id"],list(args),x0)
        except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %s"%(path,e)); continue
        rep.fns|=I.stats["fns"]
        for x,v in outs:
            vals=[]
            v=I.norm(v,x)
            if type(v) is A and P.ty[v.ty].get("path")=="std::result::Result":
                if v.var!=0: continue
                v=I.norm(v.f[0],x)
            if type(v) is A and v.ty==t: vals.append(("result",v))
            for j in range(f["argc"]):
                if P.tys(f["locals"][j+1])=="&mut ctx::Context":
                    m=I.norm(x.mem.get(("H","abcdefgh"[j])),x)
                    vals.append(("context",m))
            for w,c in vals:
                if type(c) is L: c=I.expand(c,x)
                if type(c) is not A or c.ty!=t: rep.undecided("%s: the %s is not identified"%(path,w)); continue
                fv=dict(zip(ns,c.f)); args_of={n:args[i] for i,n in known}; lab=dict(zip([n for i,n in known],labs))
                for k in("emin","emax"):
                    g=I.norm(fv[k],x)
                    if k in args_of: expect(rep,path,k,lab[k],I,x,g,args_of[k])
                    else:
                        lo,hi=lims(k); iv=x.iv(g) if type(g) is T else None
                        old=Sym("self."+k,lo,hi)
                        if iv is None: rep.undecided("%s: %s not identified"%(path,k))
                        elif iv[0]<lo or iv[1]>hi: rep.bad("%s | %s range"%(path,k),"%s: stores %s in %s, outside [%d, %d]"%(path,k,iv,lo,hi))
                        elif has_ctx(P,f) and not same(I,x,g,old): rep.bad("%s | %s changed"%(path,k),"%s: changes %s"%(path,k))
                        else: rep.ok("%s: %s stays in range"%(path,k))
                # precision, mode: from the argument of that kind or from the given context
                for k,tyx in(("p",P.tyid("usize")),("rm",I.trm)):
                    src=[args[i] for i in range(f["argc"]) if f["locals"][i+1]==tyx]
                    want=src[0] if src else ctxval(I,P,"self").f[ns.index(k)] if has_ctx(P,f) else None
                    if want is None or len(src)>1: continue
                    if type(want) is L: want=I.expand(want,x)
                    if same(I,x,fv[k],want): rep.ok("%s: %s as given"%(path,k))
                    else: rep.bad("%s | %s"%(path,k),"%s: the %s stored is not the one given"%(path,{"p":"precision","rm":"rounding mode"}[k]))
def has_ctx(P,f): return any(P.tys(f["locals"][j+1]) in("ctx::Context","&ctx::Context","&mut ctx::Context") for j in range(f["argc"]))
def readers(rep,P,t,ns,ts):
    kinds={}
    for path,fs in P.bypath.items():
        f=fs[0]; n=path.split("::")[-1]
        if not f["local"] or f["argc"]!=1 or n not in("precision","rounding_mode","consts","emin","emax","const_pi","const_e","const_ln2","const_ln10","to_raw_parts"): continue
        s=P.tys(f["locals"][1])
        b=s.replace("&mut ","").lstrip("&") if not s.startswith("&mut (") else s[5:]
        b=s[5:] if s.startswith("&mut ") else s[1:] if s.startswith("&") else s
        if b=="ctx::Context" or (b.startswith("(usize, defs::RoundingMode, &mut ops::consts::Consts")): kinds.setdefault(b,[]).append((n,f))
    rep.count("kinds_of_context",len(kinds))
    if len(kinds)<3: rep.undecided("only %d kinds of context found"%len(kinds))
    for b,l in sorted(kinds.items()):
        for n,f in sorted(l,key=lambda x:(x[0],x[1]["path"])): reader(rep,P,b,n,f,t,ns,ts)
def reader(rep,P,b,n,f,t,ns,ts):
    path=f["path"]; rep.unit(path)
    tup=b.startswith("("); 
    def hk(I,i,nm,ty,st):
        if not tup: c=ctxval(I,P,"self"); inner=t
        else:
            inner=P.ty[ty].get("to") if P.ty[ty]["k"]=="ref" else ty
            st.mem[("H","cc")]=I.fresh(P.tyid("ops::consts::Consts"),"cc",None)
            p=[Sym("self.p",0,(1<<64)-1),E(I.trm,Sym("self.rm.#",0,6),"self.rm"),R(("H","cc"),(),True)]
            if b.count(",")>2: p+=[Sym("t.emin",*I32),Sym("t.emax",*I32)]
            c=A(inner,0,tuple(p))
        if P.ty[ty]["k"]=="ref":
            st.mem[("H",nm)]=c; return R(("H",nm),(),P.ty[ty]["mut"])
        return c
    I,st,args=go(P,f,hk)
    lim=tup and b.count(",")>2 and n in("emin","emax")
    arg=Sym("t."+n,*I32) if lim else None
    for labs,x0 in splits(st,[cls(n,arg)] if lim else []):
        I.ev=[]
        try: outs=I.run(f["id"],list(args),x0)
        except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %s"%(path,e)); continue
        rep.fns|=I.stats["fns"]
        p=Sym("self.p",0,(1<<64)-1); rm=E(I.trm,Sym("self.rm.#",0,6),"self.rm")
        for x,v in outs:
            v=I.norm(v,x)
            if n in("emin","emax"):
                if lim: expect(rep,path,n,labs[0],I,x,v,arg)
                elif tup:
                    lo,hi=lims(n); w=lo if n=="emin" else hi
                    if type(v) is T and x.iv(v)==(w,w): rep.ok("%s: %d"%(path,w))
                    else: rep.bad("%s | default"%path,"%s: a context without limits does not report %d"%(path,w))
                else: eqv(rep,path,I,x,v,Sym("self."+n,*lims(n)),n)
            elif n=="precision": eqv(rep,path,I,x,v,p,"the precision")
            elif n=="rounding_mode": eqv(rep,path,I,x,v,rm,"the rounding mode")
            elif n=="consts":
                if type(v) is R and (v.loc==("H","cc") if tup else v.loc==("H","a") and str(ns.index("cc")) in str(v.proj)): rep.ok("%s: the context's cache"%path)
                else: rep.bad("%s | cache"%path,"%s: does not return the context's own cache"%path)
            elif n in CC:
                ev=I.ev
                if len(ev)<1 or ev[0][0]!=CC[n] or len({e[0] for e in ev})>1: rep.bad("%s | constant"%path,"%s: asks for %s"%(path,[e[0] for e in ev])); continue
                a=ev[0][1]
                if len(a)==3 and same(I,x,a[1],p) and same(I,x,a[2],rm): rep.ok("%s: %s with the context's precision and rounding mode"%(path,CC[n]))
                else: rep.bad("%s | arguments"%path,"%s: does not pass the context's precision and rounding mode"%path)
            elif n=="to_raw_parts":
                if type(v) is not A or len(v.f)!=5: rep.undecided("%s: result not identified"%path); continue
                for g,w,k in((v.f[0],p,"precision"),(v.f[1],rm,"rounding mode"),(v.f[3],Sym("self.emin",EMIN,0),"minimum exponent"),(v.f[4],Sym("self.emax",0,EMAX),"maximum exponent")): eqv(rep,path,I,x,g,w,k)
def eqv(rep,path,I,x,v,w,what):
    if same(I,x,v,w): rep.ok("%s: reports %s"%(path,what))
    else: rep.bad("%s | %s"%(path,what),"%s: does not report the %s it was given"%(path,what))
def memerr(I,y,o):
    o=I.norm(o,y)
    if type(o) is not A or o.var!=1: return False
    e=I.norm(o.f[0],y)
    return type(e) is A and I.P.ty[e.ty]["variants"][e.var]["n"]=="MemoryAllocation"
def numof2(r):
    v=r[2]
    return {"e":v.e,"n":v.n,"s":v.s} if isinstance(v,NumView) else None
def check_range(rep,P):
    f=P.bypath.get("macro_util::check_exponent_range",[None])[0]
    if f is None: rep.undecided("check_exponent_range not found"); return
    path=f["path"]; rep.unit(path)
    I=CI(P,root=f["id"],ext=True); I.budget=300000; st=State()
    lo,hi=Sym("emin",EMIN,0),Sym("emax",0,EMAX); n=0
    def hk(i,nm,t,st):
        if P.tys(t)=="i32":
            nonlocal n; n+=1; return lo if n==1 else hi
        return None
    args=mkargs(I,st,f,hook=hk); I.pinned=set("abc")|{"emin","emax"}; consistent(st,"a")
    # the number exists, so its precision is supported
    try:
        ok=[x for x,v in I.run(I.limit_fid,[scale(Sym("a.len",0,LENMAX),WORD)],st,1,"gate") if getattr(I.norm(v,x),"var",1)==0]
        if len(ok)==1: st=ok[0]
    except Abort: pass
    e=Sym("a.e",EMIN,EMAX); nn=Sym("a.n",0,BLMAX); sg=Sym("a.s.#",0,1)
    tf=P.tyid("ext::Flavor"); vs=[v["n"] for v in P.ty[tf]["variants"]]; fl=Sym("a.fl.#",0,len(vs)-1); V=(eq(fl,K(vs.index("Value"))),True); inf=Sym("a.inf.#",0,1)
    rows=[("NaN","NaN",[(eq(fl,K(vs.index("NaN"))),True)]),("+Inf","+Inf",[(eq(fl,K(vs.index("Inf"))),True),(inf,True)]),("-Inf","-Inf",[(eq(fl,K(vs.index("Inf"))),True),(inf,False)]),
      ("zero","same",[V,(eq(nn,K(0)),True),(eq(e,K(0)),True)]),
      ("a number inside the limits","same",[V,(eq(nn,K(0)),False),(le(lo,e),True),(le(e,hi),True)]),
      ("a number with the exponent on the lower limit","same",[V,(eq(nn,K(0)),False),(eq(lo,e),True)]),
      ("a number with the exponent on the upper limit","same",[V,(eq(nn,K(0)),False),(eq(e,hi),True)]),
      ("a positive number above the limits","+Inf",[V,(eq(nn,K(0)),False),(le(e,hi),False),(sg,True)]),
      ("a negative number above the limits","-Inf",[V,(eq(nn,K(0)),False),(le(e,hi),False),(sg,False)]),
      ("a number below the limits","0",[V,(eq(nn,K(0)),False),(le(lo,e),False)])]
    for lab,want,cs in rows:
        for _,x0 in splits(st,[[(lab,cs)]]):
            try: outs=I.run(f["id"],list(args),x0)
            except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as ex: rep.undecided("%s: %s"%(path,ex)); continue
            rep.fns|=I.stats["fns"]
            for x,v in outs:
                for r in flavs(I,x,v):
                    y,k=r[0],r[1]
                    if k=="Value":
                        m=numof2(r)
                        if want=="0":
                            if m is None: rep.undecided("%s: result for %s not identified"%(path,lab)); continue
                            g=y.iv(m["n"]) if type(m["n"]) is T else None
                            if g==(0,0): rep.ok("%s: %s becomes zero"%(path,lab))
                            else: rep.bad("%s | %s"%(path,lab),"%s: %s is not delivered as zero"%(path,lab))
                        elif want=="same":
                            if m is None: rep.undecided("%s: result for %s not identified"%(path,lab)); continue
                            if all(same(I,y,m[q],w) for q,w in(("e",e),("n",nn),("s",E(I.tsign,sg,"a.s")))): rep.ok("%s: %s passes"%(path,lab))
                            else: rep.bad("%s | %s"%(path,lab),"%s: %s is changed"%(path,lab))
                        else: rep.bad("%s | %s"%(path,lab),"%s: %s gives a finite number instead of %s"%(path,lab,want))
                    elif k=="?": rep.undecided("%s: result for %s not identified"%(path,lab))
                    else:
                        got=k
                        if k=="Inf": 
                            ss=signs(I,y,r[2]); got=list(ss)[0]+"Inf" if len(ss)==1 else "?Inf"
                        if got==want: rep.ok("%s: %s gives %s"%(path,lab,want))
                        elif got=="NaN" and want=="0" and memerr(I,y,r[2]): rep.ok("%s: failed allocation reported"%path)
                        elif got=="?Inf": rep.undecided("%s: the sign of the infinity for %s is not identified"%(path,lab))
                        else: rep.bad("%s | %s"%(path,lab),"%s: %s gives %s instead of %s"%(path,lab,got,want))
