"""The interpreter proper: places, rvalues, terminators, calls, merging."""
from engine import *
import heapq,models

VSY={}
def vsyms(v):
    """(symbols, names) occurring in a value"""
    t=type(v)
    if t is T: return v.syms,frozenset()
    if t is A:
        k=id(v)
        r=VSY.get(v)
        if r is None:
            a=set();n=set()
            for x in v.f:
                p,q=vsyms(x); a|=p;n|=q
            for _,x in v.meta:
                if isinstance(x,tuple):
                    for y in x:
                        p,q=vsyms(y); a|=p;n|=q
                else:
                    p,q=vsyms(x); a|=p;n|=q
            r=VSY[v]=(frozenset(a),frozenset(n))
        return r
    if t is L: return frozenset(),frozenset((v.name,))
    if t is E:
        a=set(v.sym.syms);n={v.name}
        for _,pl in v.pay:
            for x in pl:
                p,q=vsyms(x); a|=p;n|=q
        return frozenset(a),frozenset(n)
    if t is R and v.len is not None: return v.len.syms,frozenset()
    return frozenset(),frozenset()

def vsub(v,f):
    """rename symbols / names inside a value"""
    t=type(v)
    if t is T: return subst(v,f)
    if t is A:
        nf=tuple(vsub(x,f) for x in v.f)
        nm=tuple((k,tuple(vsub(y,f) for y in x) if isinstance(x,tuple) else vsub(x,f)) for k,x in v.meta)
        if all(a is b for a,b in zip(nf,v.f)) and nm==v.meta: return v
        return A(v.ty,v.var,nf,nm)
    if t is L:
        n=f(v.name); return L(v.ty,n) if n else v
    if t is E:
        n=f(v.name); sy=subst(v.sym,f); pay=tuple((i,tuple(vsub(x,f) for x in p)) for i,p in v.pay)
        if n or sy is not v.sym or pay!=v.pay: return E(v.ty,sy,n or v.name,pay)
        return v
    if t is R and v.len is not None:
        n=subst(v.len,f)
        return v if n is v.len else R(v.loc,v.proj,v.mut,n)
    return v

class Interp:
    def __init__(s,prog,models=None,cap=400,maxdepth=40):
        s.P=prog; s.models=models or []; s.cap=cap; s.maxdepth=maxdepth
        s.mcache={}
        s.stats={"calls":0,"blocks":0,"states":0,"fns":set(),"havoc":{},"loops":0}
        s.pinned=set(); s.keyterms=()
        s.onback=None      # hook(fn, head, headstate, backstate, ctx)
        s.onpanic=None     # hook(state, fn, block, kind, depth, ctx)
        s.oncast=None      # hook(state, fn, value, interval, target range, ctx): a cast that may not fit
        s.oncall=None      # hook(state, fn, block, callee, args, ctx)
        s.track=None
        s.budget=4000000
        s.memo={}
    def fresh_int(s,st,name,lo,hi):
        st.purge(name); return Sym(name,lo,hi)
    def note_alloc(s,st,c,args,name): pass
    def find_eq(s,v):
        """the crate's own `eq` for a value's type"""
        t=getattr(v,"ty",None)
        if t is None: return None
        nm=s.P.ty[t].get("path")
        for p in s.P.bypath.get("<%s as std::cmp::PartialEq>::eq"%nm,[]): return p["id"]
        return None
    # ------------------------------------------------------------ types / values
    def enum_discrs(s,ty):
        return [v["d"] if v["d"] is not None else i for i,v in enumerate(s.P.ty[ty]["variants"])]
    def fresh(s,ty,name,st=None):
        if st is not None: st.purge(name)
        return s.expand(L(ty,name),st)
    def expand(s,v,st):
        """one level of structure for a lazy value"""
        if type(v) is not L: return v
        ty=s.P.ty.get(v.ty)
        if ty is None: return v
        k=ty["k"]
        if k in("int","bool","char"):
            lo,hi=s.P.int_range(v.ty)
            return Sym(v.name,lo,hi)
        if k=="tuple":
            return A(v.ty,0,[s.scalar(L(t,"%s.%d"%(v.name,i))) for i,t in enumerate(ty["of"])])
        if k=="adt":
            if ty["path"]=="std::vec::Vec":
                return A(v.ty,0,[Sym(v.name+".len",0,(1<<63)-1)])
            if ty["enum"]:
                n=len(ty["variants"])
                if n==0: return v
                if n==1 and False: pass
                return E(v.ty,Sym(v.name+".#",0,n-1),v.name)
            if ty["variants"] and all(t>=0 for _,t in ty["variants"][0]["f"]) and len(ty["variants"])==1:
                return A(v.ty,0,[s.scalar(L(t,"%s.%s"%(v.name,n))) for n,t in ty["variants"][0]["f"]])
            return v
        if k=="ref" and st is not None:
            loc=("H",v.name)
            if loc not in st.mem: st.mem[loc]=L(ty["to"],v.name+".*")
            to=s.P.ty[ty["to"]]["k"]
            if to in("slice","str"):
                return R(loc,SLICE,ty["mut"],Sym(v.name+".slen",0,(1<<63)-1))
            return R(loc,(),ty["mut"])
        return v
    def scalar(s,v):
        """ints become symbols right away, others stay lazy"""
        if type(v) is L and s.P.ty.get(v.ty,{"k":"?"})["k"] in("int","bool","char"):
            lo,hi=s.P.int_range(v.ty); return Sym(v.name,lo,hi)
        return v
    def norm(s,v,st):
        """resolve an enum with a single possible variant"""
        if type(v) is L: v=s.expand(v,st)
        if type(v) is E:
            d=st.vals(v.sym)
            if d is not None and len(d)==1:
                i=next(iter(d))
                return A(v.ty,i,s.payload(v,i))
        return v
    def payload(s,v,i):
        for j,p in v.pay:
            if j==i: return p
        var=s.P.ty[v.ty]["variants"][i]
        return tuple(s.scalar(L(t,"%s.%s.%s"%(v.name,var["n"],n))) for n,t in var["f"])
    # ------------------------------------------------------------ places
    def resolve(s,st,depth,fn,p,ctx):
        """-> (loc, proj, type)"""
        loc=(depth,p[0]); proj=(); ty=fn["locals"][p[0]]
        for e in p[1:]:
            if e=="*":
                v=s.getp(st,loc,proj,ty,ctx)
                if type(v) is L:
                    v2=s.expand(v,st)
                    if type(v2) is R:
                        s.setp(st,loc,proj,v2); v=v2
                ti=s.P.ty[ty] if ty is not None else {"k":"?"}
                nty=ti.get("to") if ti["k"] in("ref","ptr") else (ti["args"][0] if ti["k"]=="adt" and ti.get("args") else None)
                if type(v) is R:
                    loc,proj=v.loc,v.proj
                else:
                    # unknown pointer: an anonymous location
                    loc=("H","?%s/%s"%(ctx,p)); proj=()
                    if loc not in st.mem and nty is not None: st.mem[loc]=L(nty,"?%s/%s.*"%(ctx,p))
                ty=nty
            elif e[0]=="f":
                proj=proj+(("f",e[1]),); ty=e[2]
            elif e[0]=="v":
                proj=proj+(("v",e[1]),)
            elif e[0] in("i","ci"):
                ti=s.P.ty[ty] if ty is not None else {"k":"?"}
                nty=ti.get("of") if ti["k"] in("array","slice") else None
                idx=None
                if e[0]=="i":
                    iv=st.mem.get((depth,e[1])); 
                    if type(iv) is T: idx=st.const(iv)
                elif not e[2]: idx=e[1]
                proj=proj+(("i",idx),); ty=nty
            elif e[0]=="sub":
                proj=proj+(("i",None),)
            else:
                proj=proj+(("i",None),)
        return loc,proj,ty
    def getp(s,st,loc,proj,ty,ctx):
        v=st.mem.get(loc)
        if v is None:
            if ty is None: return None
            v=L(ty,"u:%s:%s"%(ctx,(loc,proj))) if not proj else None
            if v is None: return s.scalar(L(ty,"u:%s:%s"%(ctx,(loc,proj))))
            return s.scalar(v)
        for n,e in enumerate(proj):
            if type(v) is L or type(v) is E:
                v=s.norm(v,st)
            if e[0]=="f":
                if type(v) is A and e[1]<len(v.f) : v=v.f[e[1]]
                else: return s.elem(v,proj[n:],ty,loc,ctx)
            elif e[0]=="v":
                if type(v) is E: v=A(v.ty,e[1],s.payload(v,e[1]))
                elif type(v) is A:
                    if v.var!=e[1]: return s.elem(v,proj[n:],ty,loc,ctx)
                else: return s.elem(v,proj[n:],ty,loc,ctx)
            elif e[0]=="i":
                if type(v) is A and e[1] is not None and s.P.ty.get(v.ty,{}).get("k")=="array" and e[1]<len(v.f): v=v.f[e[1]]
                else: return s.elem(v,proj[n:],ty,loc,ctx)
            else: return s.elem(v,proj[n:],ty,loc,ctx)
        if v is None: return s.elem(v,proj,ty,loc,ctx)
        return v
    def elem(s,v,rest,ty,loc,ctx):
        """contents of slices / unknown objects: an unconstrained value"""
        if ty is None: return None
        s.uniq=getattr(s,"uniq",0)
        return s.scalar(L(ty,"e:%s:%s:%s"%(ctx,loc,rest)))
    def setp(s,st,loc,proj,val):
        if not proj:
            st.mem[loc]=val; return
        root=st.mem.get(loc)
        st.mem[loc]=s._set(st,root,proj,val)
    def _set(s,st,v,proj,val):
        if not proj: return val
        if type(v) is L or type(v) is E: v=s.norm(v,st)
        e=proj[0]
        if e[0]=="f":
            if type(v) is A and e[1]<len(v.f):
                return v.with_f(e[1],s._set(st,v.f[e[1]],proj[1:],val))
            return v
        if e[0]=="v":
            if type(v) is E: v=A(v.ty,e[1],s.payload(v,e[1]))
            if type(v) is A: return s._set(st,v,proj[1:],val)
            return v
        if e[0]=="i":
            if type(v) is A and s.P.ty.get(v.ty,{}).get("k")=="array":
                if e[1] is not None and e[1]<len(v.f): return v.with_f(e[1],s._set(st,v.f[e[1]],proj[1:],val))
                return L(v.ty,"arr?")
            return s.dirty(v)
        if e[0]=="[]": return s.dirty(v)
        return v
    def dirty(s,v):
        """contents of a buffer changed: drop marks about its contents"""
        if type(v) is A and v.meta: return A(v.ty,v.var,v.f,tuple((k,x) for k,x in v.meta if k=="keep"))
        return v
    # ------------------------------------------------------------ operands
    def const(s,c,ty,st,ctx):
        k=c.get("c")
        if k=="int": return K(int(c["v"]))
        if k in("adt","tuple","array"):
            return A(c["ty"],c["var"],[s.const(x,None,st,ctx+"/c%d"%i) for i,x in enumerate(c["f"])])
        if k=="fn" or k=="closure": return F(c)
        if k=="str": return S(c["v"])
        if k=="ref":
            v=s.const(c["v"],c["ty"],st,ctx)
            loc=("H","const:%r"%(v,)) 
            if v is None or type(v) is L: loc=("H","const:%s"%ctx); v=L(c["ty"],"const:%s"%ctx)
            st.mem.setdefault(loc,v)
            return R(loc,(),False)
        if k=="float": return S(("f64",int(c["bits"])))
        if k=="static":
            return R(("H","static:"+c["path"]),(),False)
        if k=="slice":
            return R(("H","constslice:"+ctx),SLICE,False,K(int(c["len"])))
        if ty is not None:
            t=s.P.ty[ty]
            if t["k"]=="tuple" and not t["of"]: return A(ty,0,())
            if t["k"]=="adt" and not t["enum"] and t["variants"] and not t["variants"][0]["f"]: return A(ty,0,())
            nm=c.get("name")
            return s.fresh(ty,"const:%s"%nm if nm else "const@%s"%ctx,None)
        return None
    def operand(s,st,depth,fn,o,ctx):
        if o["o"]=="c": return s.const(o["v"],o["ty"],st,ctx)
        if o["o"]=="rt": return K(1)
        loc,proj,ty=s.resolve(st,depth,fn,o["p"],ctx)
        v=s.getp(st,loc,proj,ty,ctx)
        if type(v) is L:
            v2=s.expand(v,st)
            if v2 is not v:
                v=v2
                if loc in st.mem: s.setp(st,loc,proj,v)
        if o["o"]=="mv" and len(o["p"])==1: st.mem.pop((depth,o["p"][0]),None)
        return v
    def opty(s,fn,o):
        if o["o"]=="c": return o["ty"]
        if o["o"]!="rt": return s.placety(fn,o["p"])
        return None
    def placety(s,fn,p):
        ty=fn["locals"][p[0]]
        for e in p[1:]:
            ti=s.P.ty[ty] if ty is not None else {"k":"?"}
            if e=="*": ty=ti.get("to") if ti["k"] in("ref","ptr") else (ti["args"][0] if ti["k"]=="adt" and ti.get("args") else None)
            elif e[0]=="f": ty=e[2]
            elif e[0] in("i","ci"): ty=ti.get("of") if ti["k"] in("array","slice") else None
        return ty
    # ------------------------------------------------------------ rvalues
    def arith(s,st,op,a,b,rng,name):
        """mathematical result term, without range clipping; None if unknown"""
        if type(a) is not T or type(b) is not T: return None
        if op=="Add": return add(a,b)
        if op=="Sub": return sub(a,b)
        if op=="Mul":
            ca,cb=st.const(a),st.const(b)
            if ca is not None and not isk(a): a=K(ca)
            if cb is not None and not isk(b): b=K(cb)
            return mul(a,b)
        if op=="Div":
            cb=st.const(b)
            if cb is not None and cb!=0: b=K(cb)
            x=st.iv(a)
            return div(a,b,nonneg=x[0]>=0)
        if op=="Rem":
            cb=st.const(b)
            if cb is not None and cb!=0: b=K(cb)
            return rem(a,b)
        return None
    def binop(s,st,op,a,b,ta,ctx,name):
        rng=s.P.int_range(ta) if ta is not None and s.P.ty[ta]["k"] in("int","bool","char") else None
        if op in("Lt","Le","Gt","Ge","Eq","Ne"):
            if type(a) is T and type(b) is T:
                if op=="Lt": return lt(a,b)
                if op=="Le": return le(a,b)
                if op=="Gt": return lt(b,a)
                if op=="Ge": return le(b,a)
                if op=="Eq": return eq(a,b)
                return not_(eq(a,b))
            r=s.floatcmp(st,op,a,b,name)
            if r is not None: return r
            return s.freshbool(st,name)
        chk=op.endswith("WithOverflow")
        if chk:
            base=op[:-12]
            m=s.arith(st,base,a,b,rng,name)
            if m is None or rng is None:
                r=Sym(name,rng[0],rng[1]) if rng else None; st.purge(name)
                return A(None,0,(r,s.freshbool(st,name+".o")))
            x,y=st.iv(m)
            if x>=rng[0] and y<=rng[1]: return A(None,0,(m,FALSE))
            if y<rng[0] or x>rng[1]: return A(None,0,(wrap(m,*rng),TRUE))
            return A(None,0,(m,opaque("ovf",(m,rng[0],rng[1]),0,1)))
        if op.endswith("Unchecked"): op=op[:-9]
        if op in("Add","Sub","Mul","Div","Rem"):
            m=s.arith(st,op,a,b,rng,name)
            if m is None:
                if rng: st.purge(name); return Sym(name,*rng)
                return None
            if rng:
                x,y=st.iv(m)
                if x<rng[0] or y>rng[1]: return wrap(m,*rng)
            return m
        if type(a) is T and type(b) is T and rng is not None:
            if s.P.ty[ta]["k"]=="bool":
                if op=="BitAnd": return and_(a,b)
                if op=="BitOr": return or_(a,b)
                if op=="BitXor": return xor_(a,b)
            ca,cb=st.const(a),st.const(b)
            if ca is not None: a=K(ca)
            if cb is not None: b=K(cb)
            if op=="Shl" and cb is not None and 0<=cb<200:
                m=scale(a,1<<cb); x,y=st.iv(m)
                return m if x>=rng[0] and y<=rng[1] else wrap(m,*rng)
            if op=="Shr" and cb is not None and 0<=cb<200:
                x=st.iv(a)
                if x[0]>=0: return div(a,K(1<<cb),nonneg=True)
            if ca is not None and cb is not None:
                if op=="BitAnd": return K(ca&cb)
                if op=="BitOr": return K(ca|cb)
                if op=="BitXor": return K(ca^cb)
                if op=="Shr": return K(ca>>cb)
            if op in("BitAnd","BitOr","BitXor"):
                m,c=(a,cb) if cb is not None else (b,ca)
                if m.op=="map" and c is not None and all(x>=0 for x in m.args[1]) and c>=0:
                    return tmap(m.args[0],tuple(x&c if op=="BitAnd" else x|c if op=="BitOr" else x^c for x in m.args[1]))
            if op=="BitAnd":
                if cb is None and ca is not None: a,b,ca,cb=b,a,cb,ca
                if cb is not None and cb>=0 and st.iv(a)[0]>=0:
                    if cb&(cb+1)==0: return a if st.iv(a)[1]<=cb else rem(a,K(cb+1))
                    t=opaque("band",(a,b),0,cb); return t
                if cb is not None and cb>=0: return opaque("band",(a,b),0,cb)
                if st.iv(a)[0]>=0 and st.iv(b)[0]>=0:
                    return opaque("band",tuple(sorted((a,b))),0,min(st.iv(a)[1],st.iv(b)[1]))
            if op in("BitOr","BitXor"):
                x,y=st.iv(a),st.iv(b)
                if x[0]>=0 and y[0]>=0:
                    n=max(x[1],y[1]).bit_length()
                    lo=max(x[0],y[0]) if op=="BitOr" else 0
                    if op=="BitOr" and cb==0: return a
                    if op=="BitOr" and ca==0: return b
                    return opaque("bor" if op=="BitOr" else "bxor",tuple(sorted((a,b))),lo if False else 0,(1<<n)-1)
            if op=="Shr":
                x=st.iv(a)
                if x[0]>=0: return opaque("shr",(a,b),0,max(a.hi,0))
            return opaque(op.lower(),(a,b),*rng)
        if op=="Offset": return a
        if rng: st.purge(name); return Sym(name,*rng)
        return None
    def floatcmp(s,st,op,a,b,name): return None
    def freshbool(s,st,name):
        st.purge(name); return Sym(name,0,1)
    def discr(s,st,v,ty):
        v=s.norm(v,st)
        if type(v) is A and v.var is not None and v.ty is not None and s.P.ty[v.ty]["k"]=="adt" and s.P.ty[v.ty]["enum"]:
            return K(s.fixd(v.ty,s.enum_discrs(v.ty)[v.var]))
        if type(v) is E:
            return tmap(v.sym,tuple(s.fixd(v.ty,d) for d in s.enum_discrs(v.ty)))
        return None
    def fixd(s,ty,d):
        d=int(d)
        if d>=1<<127: d-=1<<128
        elif 1<<63<=d<1<<64: d-=1<<64
        return d
    def rvalue(s,st,depth,fn,v,pty,ctx,name):
        r=v["r"]
        if r=="use": return s.operand(st,depth,fn,v["a"],ctx)
        if r=="ref" or r=="raw":
            p=v["p"]
            loc,proj,ty=s.resolve(st,depth,fn,p,ctx)
            mut=v["mut"] if r=="ref" else v["mut"]!="Const"
            ln=None
            # reborrow of a slice reference keeps its length
            if len(p)>=2 and p[-1]=="*":
                src=s.getp(st,*s.resolve(st,depth,fn,p[:-1],ctx),ctx)
                if type(src) is R: ln=src.len
                if type(src) is S: return src
            elif proj and proj[-1]==("i",None) and isinstance(p[-1],list) and p[-1][0]=="sub":
                nm=name+".slen"; st.purge(nm); return R(loc,proj[:-1]+SLICE,mut,Sym(nm,0,(1<<63)-1))
            return R(loc,proj,mut,ln)
        if r=="bin":
            a=s.operand(st,depth,fn,v["a"],ctx+"a"); b=s.operand(st,depth,fn,v["b"],ctx+"b")
            return s.binop(st,v["op"],a,b,s.opty(fn,v["a"]),ctx,name)
        if r=="un":
            a=s.operand(st,depth,fn,v["a"],ctx)
            if v["op"]=="Not":
                ta=s.opty(fn,v["a"])
                if type(a) is T:
                    if s.P.ty[ta]["k"]=="bool": return not_(a)
                    lo,hi=s.P.int_range(ta)
                    return sub(K(hi),a) if lo==0 else sub(K(-1),a)
            if v["op"]=="Neg":
                if type(a) is T:
                    lo,hi=s.P.int_range(s.opty(fn,v["a"]))
                    m=scale(a,-1); x,y=st.iv(m)
                    return m if x>=lo and y<=hi else wrap(m,lo,hi)
                return s.floatneg(st,a,pty,name)
            if v["op"]=="PtrMetadata":
                if type(a) is R and a.len is not None: return a.len
                if type(a) is S and isinstance(a.v,str): return K(len(a.v.encode()))
            if pty is not None: return s.fresh(pty,name,st)
            return None
        if r=="cast":
            a=s.operand(st,depth,fn,v["a"],ctx)
            k=v["k"]
            if k=="IntToInt":
                rng=s.P.int_range(v["ty"])
                if type(a) in(E,A): a=s.discr(st,a,None)
                if type(a) is T:
                    x,y=st.iv(a)
                    if x>=rng[0] and y<=rng[1]: return a
                    if s.oncast is not None:
                        s.castsrc=s.opty(fn,v["a"]); s.oncast(st,fn,a,(x,y),rng,ctx)
                    return wrap(a,*rng)
                st.purge(name); return Sym(name,*rng)
            if k.startswith("PointerCoercion"):
                if "Unsize" in k and type(a) is R:
                    fr=s.P.ty[s.opty(fn,v["a"])]
                    if fr["k"] in("ref","ptr"):
                        t=s.P.ty[fr["to"]]
                        if t["k"]=="array":
                            return R(a.loc,a.proj+SLICE,a.mut,K(int(t["len"])) if t["len"] is not None else None)
                return a
            if k in("PtrToPtr","Transmute","Subtype","FnPtrToPtr"):
                fr=s.opty(fn,v["a"])
                if fr is not None and s.P.ty[fr]["s"]==s.P.ty[v["ty"]]["s"] or k=="PtrToPtr" or k=="Subtype": return a
                return s.fresh(v["ty"],name,st)
            return s.castother(st,k,a,v["ty"],name)
        if r=="discr":
            loc,proj,ty=s.resolve(st,depth,fn,v["p"],ctx)
            x=s.getp(st,loc,proj,ty,ctx)
            if type(x) is L:
                x=s.expand(x,st)
                if loc in st.mem: s.setp(st,loc,proj,x)
            d=s.discr(st,x,ty)
            if d is not None: return d
            return s.fresh(pty,name,st) if pty is not None else None
        if r=="agg":
            fs=[s.operand(st,depth,fn,o,ctx+"f%d"%i) for i,o in enumerate(v["f"])]
            if v["k"]=="adt":
                return A(v["ty"],v["var"],fs)
            if v["k"]=="closure":
                return A(pty,("closure",v.get("id")),fs)
            if v["k"] in("tuple","array"): return A(pty,0,fs)
            return s.fresh(pty,name,st) if pty is not None else None
        if r=="repeat":
            a=s.operand(st,depth,fn,v["a"],ctx)
            n=v["n"]
            if n is not None and int(n)<=64: return A(pty,0,[a]*int(n))
            return s.fresh(pty,name,st)
        return s.fresh(pty,name,st) if pty is not None else None
    def castother(s,st,k,a,ty,name): return s.fresh(ty,name,st)
    def floatneg(s,st,a,pty,name): return s.fresh(pty,name,st) if pty is not None else None
    # ------------------------------------------------------------ statements
    def stmts(s,st,depth,fn,b,ctx):
        B=fn["blocks"][b]
        for i,x in enumerate(B["s"]):
            if "v" in x:
                name="%s/%d.%d"%(ctx,b,i)
                p=x["p"]
                pty=s.placety(fn,p)
                val=s.rvalue(st,depth,fn,x["v"],pty,name,name)
                if val is None and pty is not None: val=s.scalar(L(pty,name)); st.purge(name)
                if type(val) is A and val.ty is None: val=A(pty,val.var,val.f,val.meta)
                if len(p)==1: st.mem[(depth,p[0])]=val
                else:
                    loc,proj,ty=s.resolve(st,depth,fn,p,name)
                    s.setp(st,loc,proj,val)
            elif "dead" in x: st.mem.pop((depth,x["dead"]),None)
            elif "setd" in x:
                loc,proj,ty=s.resolve(st,depth,fn,x["p"],"%s/%d.%d"%(ctx,b,i))
                v=s.getp(st,loc,proj,ty,ctx)
                n=x["setd"]
                fs=s.payload(E(ty,Sym("x",0,0),"sd:%s/%d.%d"%(ctx,b,i)),n)
                s.setp(st,loc,proj,A(ty,n,fs))
    # ------------------------------------------------------------ running
    def alive(s,st):
        a=set();n=set()
        for v in st.mem.values():
            p,q=vsyms(v); a|=p;n|=q
        return a,n
    def gcdom(s,st):
        if not st.dom: return
        a,n=s.alive(st)
        ok={}
        def live(x):
            r=ok.get(x)
            if r is None:
                if x in a or x in s.pinned or x.startswith("const:"): r=True
                else:
                    r=False
                    parts=x.split(".")
                    for i in range(1,len(parts)+1):
                        pre=".".join(parts[:i])
                        if pre in n or pre in s.pinned: r=True;break
                ok[x]=r
            return r
        for t in list(st.dom):
            if not all(live(x) for x in t.syms): del st.dom[t]
    inmodel=0
    softwiden=False   # widen to the thresholds of snap instead of the static range
    keepH=frozenset()
    def gcheap(s,st):
        """forget heap cells no reachable value refers to"""
        if s.inmodel: return
        hs=[l for l in st.mem if l[0]=="H"]
        if not hs: return
        seen=set(); todo=[v for l,v in st.mem.items() if l[0]!="H"]+[st.g]
        while todo:
            v=todo.pop(); t=type(v)
            if t is A: todo.extend(v.f); todo.extend(v.meta); 
            elif t is E: todo.extend(y for _,p in v.pay for y in p)
            elif t is R:
                if v.loc not in seen:
                    seen.add(v.loc)
                    if v.loc in st.mem and v.loc[0]=="H": todo.append(st.mem[v.loc])
            elif t is tuple or t is frozenset or t is list:
                if len(v)==2 and v and v[0]=="H": seen.add(v)
                todo.extend(v)
            elif t in(T,int,str,bool) or v is None or t in(L,F,S): pass
            elif hasattr(v,"__dict__"): return
        for l in hs:
            if l not in seen and l not in s.keepH and not(len(l)>1 and type(l[1]) is str and (len(l[1])<=2 or l[1].startswith("const"))): del st.mem[l]
    def merge(s,states):
        """states with equal memory become one, with joined facts"""
        by={}
        for st in states:
            k=(frozenset(st.mem.items()),st.g,s.classkey(st))
            o=by.get(k)
            if o is None: by[k]=st
            else:
                o.dom=joindom2(o,st)
        return list(by.values())
    def classkey(s,st):
        """operand classes kept apart when states are merged"""
        return tuple(st.dom[t] if isinstance(st.dom.get(t),frozenset) else st.iv(t) for t in s.keyterms)
    def shape(s,v):
        t=type(v)
        if t is T: return "i"
        if t is A: return ("A",v.ty,v.var,tuple(s.shape(x) for x in v.f),s.metashape(v.meta))
        if t is L: return ("L",v.ty)
        if t is E: return ("E",v.ty,tuple((i,tuple(s.shape(x) for x in p)) for i,p in v.pay))
        if t is R: return ("R",v.loc,v.proj,v.mut)
        return v
    def metashape(s,meta): return any(k=="bad" for k,_ in meta)
    def shapekey(s,st):
        return (frozenset((l,s.shape(v)) for l,v in st.mem.items()),st.g,s.classkey(st))
    def joinval(s,a,b,nm,sa,sb,out,widen):
        """generalise two values of the same shape; new symbols are recorded in out: sym -> interval"""
        if a==b: return a
        t=type(a)
        if t is T:
            if not widen and (a,b) in s.pairs: return s.pairs[(a,b)]
            x=sa.iv(a);y=sb.iv(b)
            lo,hi=min(x[0],y[0]),max(x[1],y[1])
            if widen:
                lo2,hi2=x
                # a is the old value: widen unstable bounds
                if y[0]<x[0]:
                    lo=0 if y[0]>=0 else s.snap(lo,hi)[0] if s.softwiden else min(a.lo,b.lo,lo)
                if y[1]>x[1]:
                    hi=s.snap(lo,hi)[1] if s.softwiden else max(a.hi,b.hi,hi)
                    if y[1]<=1 : hi=1
            L0=min(a.lo,b.lo,lo);H0=max(a.hi,b.hi,hi)
            if a.op=="s" and a.args[0]==nm: L0,H0=min(L0,a.args[1]),max(H0,a.args[2])
            # keep the widest static range for this phi so that the symbol is stable
            w=s.phirange.get(nm)
            if w: L0,H0=min(L0,w[0]),max(H0,w[1])
            L0,H0=s.snap(L0,H0)
            s.phirange[nm]=(L0,H0)
            sy=Sym(nm,L0,H0)
            out[sy]=(lo,hi)
            va,vb=sa.vals(a),sb.vals(b)
            if va is not None and vb is not None and H0-L0<=40: out[sy]=va|vb
            s.pairs[(a,b)]=sy
            return sy
        if t is A:
            f=[s.joinval(x,y,"%s.%d"%(nm,i),sa,sb,out,widen) for i,(x,y) in enumerate(zip(a.f,b.f))]
            m=a.meta
            if a.meta!=b.meta: m=s.joinmeta(a.meta,b.meta,nm,sa,sb,out,widen)
            return A(a.ty,a.var,f,m)
        if t is L: return L(a.ty,nm)
        if t is E:
            va,vb=sa.vals(a.sym),sb.vals(b.sym)
            nv=len(s.P.ty[a.ty]["variants"])-1
            if not widen and not a.pay and not b.pay and (a.sym,b.sym) in s.pairs: sy=s.pairs[(a.sym,b.sym)]
            else:
                sy=Sym(nm+".#",0,nv)
                out[sy]=va|vb
                s.pairs[(a.sym,b.sym)]=sy
            pay=tuple((i,tuple(s.joinval(x,y,"%s.p%d.%d"%(nm,i,j),sa,sb,out,widen) for j,(x,y) in enumerate(zip(p,q))))
                for (i,p),(_,q) in zip(a.pay,b.pay))
            return E(a.ty,sy,nm,pay)
        if t is R: return R(a.loc,a.proj,a.mut,s.joinval(a.len,b.len,nm+".sl",sa,sb,out,widen) if a.len is not None and b.len is not None else None)
        return a
    def snap(s,lo,hi):
        if lo>=0: lo=0
        else:
            for b in (31,63,127,200):
                if lo>=-(1<<b): lo=-(1<<b);break
        for b in (0,1,31,32,63,64,128,200):
            if hi<=(1<<b)-1 and hi>=0: hi=(1<<b)-1;break
        return lo,hi
    def joinmeta(s,a,b,nm,sa,sb,out,widen):
        da,db=dict(a),dict(b); r=[]
        for k in sorted(set(da)&set(db)):
            if da[k]==db[k]: r.append((k,da[k]))
            else:
                j=s.joinmark(k,da[k],db[k],nm,sa,sb,out,widen)
                if j is not None: r.append((k,j))
        return tuple(r)
    def joinmark(s,k,a,b,nm,sa,sb,out,widen): return None
    pairs={}
    phirange={}
    def joinstates(s,a,b,prefix,widen,rename=True):
        """a: older state"""
        out={}; mem={}; s.pairs={}
        for loc in a.mem:
            if loc in b.mem:
                nm="%s~%s"%(prefix,".".join(map(str,loc)))
                mem[loc]=s.joinval(a.mem[loc],b.mem[loc],nm,a,b,out,widen)
        dom=joindom2(a,b)
        new=State(mem,dom,a.g)
        for sy in out: 
            # facts about a reused phi symbol refer to its former meaning
            for t in [t for t in new.dom if t is not sy and sy.syms&t.syms]: del new.dom[t]
            new.dom.pop(sy,None)
        for sy,r in out.items():
            if isinstance(r,frozenset): new.dom[sy]=r
            elif r!=(sy.lo,sy.hi): new.dom[sy]=(max(r[0],sy.lo),min(r[1],sy.hi))
        return new
    def run(s,fid,args,st,depth=0,ctx=None):
        """-> list of (state, return value)"""
        fn=s.P.fns[fid]
        if depth>s.maxdepth: raise Abort("depth limit in %s"%fid)
        ctx=ctx if ctx is not None else fn["path"]
        s.stats["fns"].add(fid); s.stats["calls"]+=1
        cfg=s.P.cfg(fn)
        for i,a in enumerate(args): st.mem[(depth,i+1)]=a
        if depth==0: s.keepH=frozenset(l for l in st.mem if l[0]=="H")
        pend={0:[st]}; heap=[(0,0)]; results=[]
        heads={}
        while heap:
            _,b=heapq.heappop(heap)
            sts=pend.pop(b,None)
            if not sts: continue
            live=cfg.live[b]
            for x in sts:
                for loc in [l for l in x.mem if l[0]==depth and l[1] not in live]: del x.mem[loc]
            if len(sts)>1:
                for x in sts: s.gcheap(x); s.gcdom(x)
                sts=s.merge(sts)
            if len(sts)>s.cap:
                sts=s.coarse(sts,"%s/j%d"%(ctx,b))
                if len(sts)>s.cap*4: raise Abort("too many states (%d) at %s block %d"%(len(sts),fid,b))
            if b in cfg.heads:
                for x in sts: s.gcheap(x)
                sts=s.athead(fn,cfg,b,sts,heads.setdefault(b,{}),ctx,depth)
            for x in sts:
                s.stats["blocks"]+=1
                s.budget-=1
                if s.budget<0: raise Abort("budget exhausted in %s"%fid)
                s.stmts(x,depth,fn,b,ctx)
                for nst,nb in s.term(x,depth,fn,b,ctx,results,live):
                    pend.setdefault(nb,[]).append(nst)
                    heapq.heappush(heap,(cfg.rpo[nb],nb))
        if len(results)>1:
            # merge equal outcomes
            by={}
            for x,v in results:
                s.droplocals(x,depth)
                x.mem[("ret",depth)]=v
            ms=[x for x,_ in results]
            for x in ms: s.gcheap(x); s.gcdom(x)
            ms=s.merge(ms)
            if len(ms)>s.retcap and depth>0: ms=s.coarse(ms,"%s/ret"%ctx,("ret",depth))
            results=[]
            for x in ms:
                v=x.mem.pop(("ret",depth)); results.append((x,v))
        else:
            for x,v in results: s.droplocals(x,depth)
        return results
    def droplocals(s,st,depth):
        for loc in [l for l in st.mem if l[0]==depth]: del st.mem[loc]
    retcap=10**9
    def coarse(s,sts,prefix,ret=None):
        by={}
        for x in sts:
            k=s.shapekey(x)
            if ret is not None: k=(k,s.retkey(x,x.mem.get(ret)))
            o=by.get(k)
            if o is None: by[k]=x
            else: by[k]=s.joinstates(o,x,prefix,False)
        return list(by.values())
    def retkey(s,x,v):
        """outcomes of one call kept apart when they are joined: the variant and the constants of the returned value"""
        t=type(v)
        if t is T: return x.const(v)
        if t is E: return ("E",x.const(v.sym) if type(v.sym) is T else None)
        if t is A and s.P.ty.get(v.ty,{}).get("path") in(None,"std::result::Result","std::option::Option"): return (v.var,tuple(s.retkey(x,f) for f in v.f))
        if t is A: return ("A",v.var)
        return None
    def athead(s,fn,cfg,b,sts,table,ctx,depth):
        s.stats["loops"]+=1
        pre="%s/phi%d"%(ctx,b)
        res=[]
        body=cfg.loops.get(b,())
        base=ctx+"/"; nb=len(base)
        def ren(n):
            m=n.lstrip("'")
            if m[:2] in("e:","u:"): m=m[2:]
            if not m.startswith(base): return None
            i=nb
            if m.startswith("phi",i): i+=3
            elif m.startswith("j",i): i+=1
            j=i
            while j<len(m) and m[j].isdigit(): j+=1
            if j>i and int(m[i:j]) in body: return "'"+n
            return None
        for x in sts:
            if s.onback is not None:
                for k,(o,cnt) in table.items(): s.onback(fn,b,o,x,ctx,depth,pre)
            y=x
            if table:
                y=State({l:vsub(v,ren) for l,v in x.mem.items()},{},x.g)
                for t,r in x.dom.items(): y.dom[subst(t,ren)]=r
            k=s.shapekey(y)
            o=table.get(k)
            if o is None:
                s.gcdom(y)
                table[k]=(y.copy(),0); res.append(y)
                if len(table)>s.cap: raise Abort("too many loop states at %s block %d"%(fn["id"],b))
            else:
                old,cnt=o
                new=s.joinstates(old,y,pre+"~%d"%(list(table).index(k)) if False else pre+"~",cnt>=1)
                s.gcdom(new)
                if cnt>6:
                    # force stabilisation of facts
                    new.dom={t:r for t,r in new.dom.items() if old.dom.get(t)==r or not (t.syms and all(z.startswith(pre) for z in t.syms))}
                if new.mem==old.mem and new.dom==old.dom: continue
                if cnt>40: raise Abort("loop does not stabilise: %s block %d"%(fn["id"],b))
                table[k]=(new.copy(),cnt+1); res.append(new)
        return res
    # ------------------------------------------------------------ terminators
    def term(s,st,depth,fn,b,ctx,results,live):
        B=fn["blocks"][b]; t=B["t"]; k=t["k"]
        name="%s/%d.t"%(ctx,b)
        if k=="goto": return [(st,t["t"])]
        if k=="ret":
            v=st.mem.get((depth,0))
            if v is None: v=s.scalar(L(fn["locals"][0],"ret:"+ctx))
            results.append((st,v)); return []
        if k=="unreach": return []
        if k=="drop":
            if len(t["p"])==1: st.mem.pop((depth,t["p"][0]),None)
            return [(st,t["t"])]
        if k=="switch":
            d=s.operand(st,depth,fn,t["d"],name)
            cases=[(s.caseval(int(v),t["dty"]),tb) for v,tb in t["c"]]
            if type(d) is not T:
                outs=[tb for _,tb in cases]+[t["else"]]
                outs=[o for i,o in enumerate(outs) if o not in outs[:i]]
                return [(st.copy() if i<len(outs)-1 else st,o) for i,o in enumerate(outs)]
            c=st.const(d)
            if c is not None:
                for v,tb in cases:
                    if v==c: return [(st,tb)]
                return [(st,t["else"])]
            out=[]
            isb=s.P.ty[t["dty"]]["k"]=="bool"
            if isb:
                for v,tb in cases:
                    n=st.copy()
                    if n.refine(d,bool(v)): out.append((n,tb))
                seen={bool(v) for v,_ in cases}
                for v in (True,False):
                    if v not in seen:
                        if st.refine(d,v): out.append((st,t["else"]))
                return out
            rest=st.copy(); feas=True
            for v,tb in cases:
                n=st.copy()
                if s.assume_eq(n,d,v): out.append((n,tb))
                if feas: feas=s.assume_ne(rest,d,v)
            if feas: out.append((rest,t["else"]))
            return out
        if k=="assert":
            c=s.operand(st,depth,fn,t["c"],name)
            if type(c) is not T: return [(st,t["t"])]
            want=bool(t["e"])
            if s.onpanic is not None:
                iv=st.iv(c)
                if iv!=(int(want),int(want)): s.onpanic(st,fn,b,t["m"],depth,ctx,c,want)
            if st.refine(c,want): return [(st,t["t"])]
            return []
        if k=="call": return s.call(st,depth,fn,b,t,ctx,name)
        raise Abort("terminator %s in %s"%(k,fn["id"]))
    def caseval(s,v,ty):
        i=s.P.ty[ty]
        if i["k"]=="int" and i["signed"] and v>=1<<(i["bits"]-1): v-=1<<i["bits"]
        return v
    def assume_eq(s,st,d,v):
        return st.refine(eq(d,K(v)),True)
    def assume_ne(s,st,d,v):
        return st.refine(eq(d,K(v)),False)
    # ------------------------------------------------------------ calls
    def call(s,st,depth,fn,b,t,ctx,name):
        f=s.operand(st,depth,fn,t["f"],name+"f")
        args=[s.operand(st,depth,fn,a,name+"a%d"%i) for i,a in enumerate(t["a"])]
        dty=s.placety(fn,t["p"])
        outs=s.docall(st,depth,f,args,dty,ctx,name,fn,b,[s.opty(fn,a) for a in t["a"]])
        if t["t"] is None:
            if s.onpanic is not None and outs!="noreturn-ok": s.onpanic(st,fn,b,"call:"+(f.c.get("rpath","?") if type(f) is F else "?"),depth,ctx,None,None)
            return []
        res=[]
        for x,v in outs:
            p=t["p"]
            if type(v) is A and v.ty is None: v=A(dty,v.var,v.f,v.meta)
            if len(p)==1: x.mem[(depth,p[0])]=v
            else:
                loc,proj,ty=s.resolve(x,depth,fn,p,name)
                s.setp(x,loc,proj,v)
            res.append((x,t["t"]))
        return res
    def model(s,c):
        """find the model for a callee constant"""
        key=(c.get("rpath"),c.get("id"))
        m=s.mcache.get(key,0)
        if m==0:
            m=None
            for pred,h in s.models:
                if pred(c): m=h;break
            s.mcache[key]=m
        return m
    def docall(s,st,depth,f,args,dty,ctx,name,fn=None,b=None,atys=None):
        if type(f) is F:
            c=f.c
            if s.oncall is not None:
                r=s.oncall(st,fn,b,c,args,ctx,depth)
                if r is not None: return r
            if c.get("ctor"):
                return s.ctor(st,c,args,dty)
            m=s.model(c)
            if m is not None:
                s.inmodel+=1
                try: r=m(s,st,c,args,dty,name,depth)
                finally: s.inmodel-=1
                if r is not None: return r
            fid=c.get("id")
            path=c.get("rpath") or c.get("path") or ""
            if fid in s.P.fns:
                g=s.P.fns[fid]
                args=s.untuple(st,c,g,args)
                if s.inline_ok(c,g,depth):
                    return s.run(fid,args,st,depth+1,"%s>%s"%(name,short(g["path"])))
            elif c.get("c")=="closure" and fid in s.P.fns:
                return s.run(fid,args,st,depth+1,"%s>cl"%name)
            return s.havoc(st,c,args,dty,name)
        if type(f) is A and isinstance(f.var,tuple) and f.var[0]=="closure":
            pass
        return s.havoc(st,{"rpath":"?indirect"},args,dty,name)
    def ctor(s,st,c,args,dty):
        ty=s.P.ty[dty]
        nm=c["path"].split("::")[-1]
        for i,v in enumerate(ty.get("variants",[])):
            if v["n"]==nm: return [(st,A(dty,i,args))]
        return [(st,A(dty,0,args))]
    def untuple(s,st,c,g,args):
        p=c.get("path","")
        if "ops::Fn" in p and "::call" in p and len(args)==2 and type(args[1]) is A:
            if g["argc"]!=2 or "{closure" in g["path"] or g.get("shim"):
                if g["argc"]==1+len(args[1].f) and g["spread"] is None:
                    return [args[0]]+list(args[1].f)
        return args
    def inline_ok(s,c,g,depth): return models.base_inline(c,g)
    def havoc(s,st,c,args,dty,name):
        p=c.get("rpath","?")
        s.stats["havoc"][p]=s.stats["havoc"].get(p,0)+1
        for i,a in enumerate(args): s.clobber(st,a,name+".h%d"%i)
        st.purge(name)
        return [(st,s.fresh(dty,name+".r",None))]
    def clobber(s,st,a,nm,d=0):
        if type(a) is R and a.mut:
            if SL in a.proj:
                i=a.proj.index(SL)
                s.setp(st,a.loc,a.proj[:i+1],None)
                return
            v=s.getp(st,a.loc,a.proj,None,nm)
            ty=getattr(v,"ty",None)
            if type(v) is T:
                st.purge(nm); s.setp(st,a.loc,a.proj,Sym(nm,*s.snap(v.lo,v.hi)))
            elif ty is not None:
                st.purge(nm)
                if type(v) is A and s.P.ty[ty].get("k") in("closure","tuple","array"): 
                    s.clobber_in(st,v,nm)
                s.setp(st,a.loc,a.proj,L(ty,nm))
        elif type(a) is A and d<3: s.clobber_in(st,a,nm,d)
    def clobber_in(s,st,a,nm,d=0):
        for i,x in enumerate(a.f): s.clobber(st,x,"%s.%d"%(nm,i),d+1)

def short(p):
    return p.split("::")[-1] if not p.endswith("}") else "::".join(p.split("::")[-2:])
