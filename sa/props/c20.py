"""C20: unsafe code stays within memory it reserved."""
from ops import *
from report import Report
from c19 import bound,leaves
RULE=("Inventory of all unsafe operations in the type-checked MIR (calls of unsafe functions, dereferences of raw pointers), then abstract interpretation of each function that has one: "
 "a Vec's length is set only to values proven to be at most the capacity that successful reservations on the path guarantee; every dereferenced raw pointer is its slice's base plus an offset proven "
 "to be within the slice, loops being solved by induction variables and the loop condition of the previous iteration. A buffer that grows in place has its words accessed for writing on every path before the function returns. Unsafe functions of core::arch working on words by value need nothing further.")
WIDE=1<<62
VECM=re.compile(r"(alloc|std)::vec::Vec::<T(, A)?>::(\w+)$")
PTRM=re.compile(r"(std|core)::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::(\w+)$")
SLM=re.compile(r"(core::slice::<impl \[T\]>|(alloc|std)::vec::Vec::<T, A>)::(as_mut_ptr|as_ptr)$")
ARCH=re.compile(r"(core|std)::(arch|core_arch)::")
class C20(CI):
    def __init__(s,*a,**k):
        CI.__init__(s,*a,**k); s.oncall=s.incall; s.phase=3; s.deep=False; s.inl=set(); s.back={}; s.steps={}; s.facts={}; s.bases={}; s.found={}; s.kinds={}
    def inline_ok(s,c,g,depth):
        if g["local"] and g["file"]==s.P.fns[s.root]["file"] and g["id"]!=s.root and depth<5 and len(g["blocks"])<=60 and any(
            re.match(r"&mut (std::vec::Vec<|common::buf::WordBuf$)",s.P.tys(t)) for t in g["locals"][1:g["argc"]+1]): return True
        if g["local"] and not(g["path"].startswith("common::buf::") and len(g["blocks"])<=(60 if s.deep or g["id"] in s.inl else 6)): return False
        return CI.inline_ok(s,c,g,depth)
    # -------- vectors
    def incall(s,st,fn,b,c,args,ctx,depth):
        p=c.get("rpath") or c.get("path") or ""
        name="%s/%d.t"%(ctx,b) if fn is not None else ctx
        m=SLM.match(p)
        if m:
            v,r=models.vecof(s,st,args[0],name) if "Vec" in p else (None,args[0])
            if type(r) is not R: return None
            ln=v.f[0] if v is not None else models.slicelen(s,st,r,name)
            nm="base:%s%s"%(r.loc,r.proj); s.bases[nm]=ln
            return [(st,Sym(nm,1<<40,1<<60))]
        m=PTRM.match(p)
        if m and type(args[0]) is T:
            op=m[4]
            if op in("add","wrapping_add","offset","wrapping_offset") and type(args[1]) is T: return [(st,add(args[0],args[1]))]
            if op in("sub","wrapping_sub") and type(args[1]) is T: return [(st,sub(args[0],args[1]))]
            if op in("offset_from","sub_ptr","offset_from_unsigned") and type(args[1]) is T: return [(st,sub(args[0],args[1]))]
            if op in("cast","cast_mut","cast_const"): return [(st,args[0])] if op!="cast" else None
            if op in("read","write"): s.deref(st,fn,b,args[0],op); return None
        m=VECM.match(p)
        if m:
            v,r=models.vecof(s,st,args[0],name) if args else (None,None)
            if v is None: return None
            op=m[3]; l=v.f[0]; cap=dict(v.meta).get("cap")
            if op in("try_reserve","try_reserve_exact"):
                dty=s.placety(fn,fn["blocks"][b]["t"]["p"])
                st.purge(name)
                C=Sym(name+".cap",0,WIDE)
                e=st.copy(); k=args[1]; fits=True
                if k.op=="wrap" and -(1<<64)<=k.args[0].lo and k.args[0].hi<1<<64:
                    # a negative amount that wrapped around exceeds every possible capacity: the reservation fails
                    k=k.args[0]; fits=st.refine(le(K(0),k),True) and st.refine(eq(args[1],k),True)
                s.setcap(st,r,v,C)
                need=add(l,k); s.kinds[C.args[0]]=(need,cap)
                okk=fits and st.refine(le(need,C),True)
                if okk and cap is not None: okk=st.refine(le(cap,C),True)
                out=[(e,models.err(dty,s.fresh(s.P.ty[dty]["variants"][1]["f"][0][1],name+".e",None)))]
                if okk: out.append((st,models.ok(dty,A(None,0,()))))
                return out
            if op=="capacity":
                if cap is None:
                    st.purge(name); cap=Sym(name+".cap",0,WIDE); s.setcap(st,r,v,cap); s.kinds[cap.args[0]]=(l,None)
                    st.refine(le(l,cap),True)
                return [(st,cap)]
            if op=="set_len": s.setlen(st,fn,b,l,cap,args[1]); 
        return None
    def setcap(s,st,r,v,C): s.setp(st,r.loc,r.proj,A(v.ty,v.var,v.f,tuple(q for q in v.meta if q[0]!="cap")+(("cap",C),)))
    def note(s,fn,b,kind,state,msg=""):
        k=(fn["path"],fn["blocks"][b]["t"].get("l") if kind=="set_len" else None,kind,b)
        o=s.found.get(k)
        rank={"held":0,"open":1,"bad":2}
        if o is None or rank[state]>rank[o[0]]: s.found[k]=(state,msg)
    def setlen(s,st,fn,b,l,cap,n):
        if s.phase!=3 or not st.settle(): return
        x=st.copy()
        if type(n) is not T or type(l) is not T: s.note(fn,b,"set_len","open","new length %s"%(n,)); return
        if not x.refine(le(n,l),False): s.note(fn,b,"set_len","held"); return
        have=cap if cap is not None else l
        x=st.copy()
        d=sub(n,have); lo,hi=bound(x,d)
        y=x.copy()
        if hi<=0 or not(y.refine(le(n,have),False) and y.settle()): s.note(fn,b,"set_len","held"); return
        # is the excess certain to be possible: the memory guaranteed is exactly what was asked for
        if cap is None:
            need=l; L={}; leaves(l,L)
            if any(not re.match(r"[a-h]\.",q) for q in L): s.note(fn,b,"set_len","open","length %s"%l); return
        else:
            need,prev=s.kinds.get(cap.args[0],(None,None))
            if need is None: s.note(fn,b,"set_len","open"); return
            if not x.refine(eq(cap,need),True): s.note(fn,b,"set_len","open"); return
        if x.refine(le(n,need),False) and x.settle():
            s.note(fn,b,"set_len","bad","the new length %s can exceed the %s words that are certain to be reserved"%(n,need))
        else: s.note(fn,b,"set_len","open","%s against %s"%(n,need))
    # -------- raw pointers
    def rvalue(s,st,depth,fn,v,pty,ctx,name):
        if v["r"]=="cast" and v["k"] in("PtrToPtr","PointerCoercion(MutToConstPointer)"):
            a=s.operand(st,depth,fn,v["a"],ctx+"a")
            if type(a) is T: return a
        return CI.rvalue(s,st,depth,fn,v,pty,ctx,name)
    def term(s,st,depth,fn,b,ctx,results,live):
        t=fn["blocks"][b]["t"]
        if t["k"]=="assert" and re.match("Misaligned|NullPointer",str(t["m"])): return [(st,t["t"])]
        s.cur=b
        return CI.term(s,st,depth,fn,b,ctx,results,live)
    def stmts(s,st,depth,fn,b,ctx):
        s.cur=b; return CI.stmts(s,st,depth,fn,b,ctx)
    def resolve(s,st,depth,fn,p,ctx):
        if len(p)>1 and p[1]=="*" and s.P.ty[fn["locals"][p[0]]]["k"]=="ptr":
            s.deref(st,fn,s.cur,st.mem.get((depth,p[0])),"dereference")
        return CI.resolve(s,st,depth,fn,p,ctx)
    def deref(s,st,fn,b,v,what):
        if s.phase!=3 or not st.settle(): return
        if type(v) is R: return   # a reference turned into a pointer
        if type(v) is not T: s.note(fn,b,what,"open","pointer of unknown origin"); return
        L={}; leaves(v,L); bs=[q for q in L if q.startswith("base:")]
        if len(bs)!=1 or bs[0] not in s.bases: s.note(fn,b,what,"open",str(v)[:80]); return
        off=sub(v,L[bs[0]]); n=s.bases[bs[0]]
        under=self_possible(st,lt(off,K(0)),off); over=self_possible(st,le(n,off),sub(sub(n,K(1)),off))
        if not under and not over: s.note(fn,b,what,"held"); return
        syms={}; leaves(off,syms); leaves(n,syms)
        known=all(re.search(r"\.slen$|\.len$|/ind\d+\.k$|^[a-h]$|^base:",q) for q in syms)
        msg="offset %s of a slice of %s words"%(off,n)
        for q in syms:
            m=re.search(r"/ind(\d+)\.k$",q)
            if m and not any(t.op=="lin" and q in names(t) and (r[0]>-WIDE or r[1]<WIDE) for t,r in s.facts.get(int(m[1]),{}).items()): known=False
        if known: s.note(fn,b,what,"bad",msg+(" can be negative" if under else " can be past the end"))
        else: s.note(fn,b,what,"open",msg)
    # -------- loops of the analysed function: induction variables
    def athead(s,fn,cfg,b,sts,table,ctx,depth):
        if depth!=0: return CI.athead(s,fn,cfg,b,sts,table,ctx,depth)
        mod=set()
        for q in cfg.loops.get(b,()):
            B=fn["blocks"][q]
            for x in B["s"]:
                if x.get("p"): mod.add(x["p"][0])
            if B["t"].get("p"): mod.add(B["t"]["p"][0])
        kk=Sym("%s/ind%d.k"%(ctx,b),0,WIDE)
        if table:
            for x in sts: s.back.setdefault(b,[]).append(x)
            return []
        table[0]=(None,0); out=[]
        for x in sts:
            for loc in list(x.mem):
                if loc[0]=="H" and type(x.mem[loc]) is not A: pass
            if s.phase==3 and s.facts.get(b) is not None:
                y=x.copy(); s.sethead(y,fn,b,mod,None,ctx,K(0)); out.append(y)
                y=x.copy(); s.sethead(y,fn,b,mod,None,ctx,kk)
                good=y.refine(le(K(1),kk),True)
                for t,(lo,hi) in s.facts[b].items():
                    a=dict(t.args[1]).get(kk,0) if t.op=="lin" else 1
                    if good and lo>-WIDE: good=y.refine(le(K(lo+a),t),True)
                    if good and hi<WIDE: good=y.refine(le(t,K(hi+a)),True)
                if good and y.settle(): out.append(y)
            elif s.phase==3: 
                y=x.copy(); s.sethead(y,fn,b,mod,"havoc",ctx,kk); out.append(y)
            else:
                y=x.copy(); s.sethead(y,fn,b,mod,"havoc" if s.phase==1 else None,ctx,kk); out.append(y)
        return out
    def sethead(s,y,fn,b,mod,mode,ctx,k):
        for v in mod:
            o=y.mem.get((0,v))
            if o is not None: y.mem[(0,v)]=s.head1(y,o,b,(v,),mode,ctx,k,fn["locals"][v])
        if mode=="havoc": s.hm=getattr(s,"hm",{}); s.hm[b]=(mod,ctx)
    def head1(s,y,o,b,path,mode,ctx,k,ty):
        nm="%s/ind%d.%s"%(ctx,b,"_".join(map(str,path)))
        c=s.steps.get((b,path))
        if mode is None and c==0: return o
        if type(o) is T:
            if mode is None and c is not None: return o if k.op=="k" else add(o,scale(k,c))
            return Sym(nm,o.lo if o.op=="s" else -(1<<66),o.hi if o.op=="s" else 1<<66)
        if type(o) is A and s.P.ty.get(o.ty,{}).get("path","").startswith(("std::ops::Range","core::ops::Range")):
            return A(o.ty,o.var,tuple(s.head1(y,f,b,path+(i,),mode,ctx,k,None) for i,f in enumerate(o.f)),o.meta)
        return s.fresh(ty if ty is not None else getattr(o,"ty",None),nm,y)
    def learn1(s):
        for b,xs in s.back.items():
            mod,ctx=s.hm[b]
            for v in mod: s.learnv(b,ctx,(v,),[x.mem.get((0,v)) for x in xs])
    def learnv(s,b,ctx,path,os):
        if all(type(o) is A for o in os):
            for i in range(min(len(o.f) for o in os)): s.learnv(b,ctx,path+(i,),[o.f[i] for o in os])
            return
        d=set(); nm="%s/ind%d.%s"%(ctx,b,"_".join(map(str,path)))
        for o in os:
            if type(o) is not T: d.add(None); continue
            h=[t for t in lin_syms(o) if t.args[0]==nm]
            if len(h)!=1: d.add(None); continue
            q=sub(o,h[0]); d.add(q.args[0] if q.op=="k" else None)
        if len(d)==1 and None not in d: s.steps[(b,path)]=d.pop()
    def learn2(s):
        for b,xs in s.back.items():
            f=None
            for x in xs:
                g={}
                for t,r in x.dom.items():
                    if isinstance(r,frozenset): r=(min(r),max(r)) if r else (1,0)
                    if t.op in("lin","s") and any(q.endswith("/ind%d.k"%b) for q in names(t)): g[t]=r
                f=g if f is None else {t:(min(f[t][0],g[t][0]),max(f[t][1],g[t][1])) for t in f if t in g}
            s.facts[b]=f or {}
def self_possible(st,cond,slack):
    """cond may hold in st"""
    y=st.copy()
    if not y.refine(cond,True) or not y.settle(): return False
    lo,hi=bound(st,slack)
    return lo<0
def lin_syms(t):
    L={}; leaves(t,L); return list(L.values())
def names(t):
    L={}; leaves(t,L); return L
def unsafe_ops(P,f):
    """(kind, block, callee) of every unsafe operation"""
    r=[]
    def place(b,p):
        if p and len(p)>1:
            ty=f["locals"][p[0]]
            if p[1]=="*" and P.ty[ty]["k"]=="ptr": r.append(("deref",b,""))
    def walk(b,v):
        if isinstance(v,dict):
            for k,q in v.items():
                if k=="p" and isinstance(q,list): place(b,q)
                else: walk(b,q)
        elif isinstance(v,list):
            for q in v: walk(b,q)
    for i,B in enumerate(f["blocks"]):
        for x in B["s"]: walk(i,x)
        t=B["t"]; walk(i,t)
        if t["k"]=="call":
            c=(t["f"].get("v") or {})
            if c.get("unsafe") and not (c.get("rpath") or "").startswith(("std::fmt::","core::fmt::")): r.append(("call",i,c.get("rpath") or c.get("path")))
    return r
def untouched(P,f,b,every=False):
    """the set_len call of block b grows a vector behind a reference parameter and a path returns without any mutable access to words"""
    t=f["blocks"][b]["t"]; a=t["a"][0]
    l=a["p"][0] if a["o"]!="c" else None; root=None
    for _ in range(8):
        if l is None: return False
        if 0<l<=f["argc"]: root=l; break
        d=[x["v"] for B in f["blocks"] for x in B["s"] if x.get("p")==[l] and x.get("v")]
        if len(d)!=1: return False
        v=d[0]; l=(v.get("p") or (v.get("a") or {}).get("p") or [None])[0]
    if root is None or P.ty[f["locals"][root]]["k"]!="ref": return False
    seen=set(); w=[t["t"]]; ret=False
    while w:
        q=w.pop()
        if q is None or q in seen: continue
        seen.add(q); B=f["blocks"][q]; u=B["t"]
        if u["k"]=="ret":
            if not every: return True
            ret=True
        if u["k"]=="call" and any(z["o"]!="c" and len(z["p"])==1 and P.tys(f["locals"][z["p"][0]]).startswith("&mut ") for z in u["a"]):
            if every: return False
            continue
        if not every and any(x.get("p") and len(x["p"])>1 and any(isinstance(e,list) and e[0] in("i","ci") for e in x["p"][1:]) for x in B["s"]): continue
        w+=[z for z in ([u.get("t"),u.get("else")]+[z for _,z in u.get("c",[])] if u["k"]=="switch" else [u.get("t")]) if isinstance(z,int)]
    return ret
def callers(P,f):
    r=[]
    for g in P.fns.values():
        if g["local"] and any(B["t"]["k"]=="call" and (B["t"]["f"].get("v") or {}).get("id")==f["id"] for B in g["blocks"]): r.append(g)
    return r
def analyse(P,f,inl=()):
    I=C20(P,root=f["id"],ext=False); err=None; I.inl={g["id"] for g in inl}; I.deep=bool(inl)
    try:
        for ph in(1,2,3):
            I.phase=ph; I.back={}; I.budget=400000
            st=State(); args=mkargs(I,st,f); I.pinned=set("abcdefgh"[:f["argc"]])|{"p","rm"}
            I.run(f["id"],list(args),st)
            if ph==1: I.learn1()
            if ph==2: I.learn2()
    except Abort as e: err=str(e)
    except (KeyError,IndexError,AttributeError,TypeError,ValueError,RecursionError) as e: err="not analysable: %s %s"%(type(e).__name__,e)
    return I,err
def build(rep,P,tag):
    tot=0
    for f in sorted(P.fns.values(),key=lambda f:f["path"]):
        if not f["local"]: continue
        u=unsafe_ops(P,f)
        if not u: continue
        rep.unit(f["path"])
        rest=[]
        for k,b,q in u:
            tot+=1
            if k=="call" and ARCH.match(q): rep.ok("%s: %s works on values%s"%(f["path"],q,tag))
            else: rest.append((k,b,q))
        if not rest: continue
        I,err=analyse(P,f); rep.fns|=I.stats["fns"]
        if err: rep.undecided("%s: %s"%(f["path"],err))
        pick=lambda I:{(k[3],k[2]):v for k,v in I.found.items() if k[0]==f["path"]}
        got=pick(I)
        cs=callers(P,f); helper=bool(cs) and all(g["file"]==f["file"] for g in cs)
        if helper and any(v[0]!="held" for v in got.values()):
            # a helper of its own module: judged in the contexts it is called from
            new={}
            for g in cs:
                J,e2=analyse(P,g,[f]); rep.fns|=J.stats["fns"]; r=pick(J)
                for key in got:
                    v=r.get(key,("open","not reached in %s"%g["path"]))
                    if key not in new or {"held":0,"open":1,"bad":2}[v[0]]>{"held":0,"open":1,"bad":2}[new[key][0]]: new[key]=v
            got=new
        for (b,kind),(state,msg) in sorted(got.items()):
            lab="%s: %s"%(f["path"],kind)
            if state=="held": rep.ok("%s (block %d)%s"%(lab,b,tag))
            elif state=="bad": rep.bad("%s | %s | %s"%(f["path"],kind,msg[:60]),"%s: %s"%(lab,msg))
            else: rep.undecided("%s: %s"%(lab,msg))
        for k,b,q in rest:
            if k=="deref" and (b,"dereference") not in got: rep.undecided("%s: dereference not reached"%f["path"])
            if k=="call" and q.endswith("::set_len"):
                bad=untouched(P,f,b)
                if bad and helper: bad=any(untouched(P,g,i,True) for g in cs for i,B in enumerate(g["blocks"]) if B["t"]["k"]=="call" and (B["t"]["f"].get("v") or {}).get("id")==f["id"])
                if bad: rep.bad("%s | words not written"%f["path"],"%s: a buffer grows in place and a path returns without writing its new words"%f["path"])
                else: rep.ok("%s: new words are written or belong to a new buffer%s"%(f["path"],tag))
                if (b,"set_len") not in got: rep.undecided("%s: set_len not reached"%f["path"])
            if k=="call" and not q.endswith("::set_len") and not PTRM.match(q): rep.undecided("%s: unsafe call of %s"%(f["path"],q))
    return tot
def run(tier):
    rep=Report("C20",RULE)
    rep.assume=["the words a new buffer (WordBuf::new) exposes are written by its users before they are read (N09)",
                "functions of core::arch that take words by value have no requirement beyond the baseline features of the target"]
    tot=build(rep,prog(),"")+build(rep,Program(facts.num(release=True)),", without debug checks")
    rep.count("unsafe operations",tot)
    if tot<6: rep.bad("floor","only %d unsafe operations found"%tot)
    return rep
