"""C21: conversions from primitive integers and floats."""
from ops import *
from report import Report
from oc import signs
RULE=("Abstract interpretation of every function converting a primitive integer or float, per class of the argument (most negative value, negative, zero, positive; NaN, infinities, zeros, subnormal and normal floats of either sign) "
 "and per routine underneath: the magnitude that reaches the digits is the argument's absolute value without a narrowing or inexact cast, the sign is the argument's, nothing in the class panics or is refused, "
 "and the exponent of a float's value is its biased exponent less the bias, as a linear term.")
PRIM={"i8","i16","i32","i64","i128","isize","u8","u16","u32","u64","u128","usize","f32","f64"}
FL={"f32":(8,23),"f64":(11,52)}
LEAF=re.compile(r"num::BigFloatNumber::(from_word|from_u128)\Z")
FT=re.compile(r"(?:core|std)::f(32|64)::.*|.*<impl f(32|64)>::.*|f(32|64)::.*")
class C21(CI):
    def __init__(s,*a,**k):
        CI.__init__(s,*a,**k); s.pan=[]; s.v64=None; s.lossy=[]; s.leaf=[]; s.fsrc=[]; s.rootid=k.get("root")
        s.oncall=s.incall; s.onpanic=s.inpanic; s.oncast=s.incast
    def inpanic(s,st,fn,b,kind,depth,ctx,*r):
        if s.alive(st) and not(LEAF.search(fn['path']) and str(kind).startswith('overflow')): s.pan.append((fn["path"],str(kind)))
    def incast(s,st,fn,v,iv,rng,ctx):
        if type(v) is T and "v" in v.syms and not LEAF.search(fn["path"]): s.lossy.append((fn["path"],"a cast to the range %d..%d of a value in %d..%d"%(rng+iv)))
    def bits(s,v):
        if type(v) is A and v.var=="float": return v.f[0]
        if type(v) is S and isinstance(v.v,tuple) and v.v[0]=="f64": return K(v.v[1])
        return None
    def width(s,ty):
        n=s.P.tys(ty).lstrip("&").strip(); return n if n in FL else None
    def ordinal(s,st,b,fl):
        """(kind, term ordered like the value)"""
        E_,M=FL[fl]; W=E_+M+1
        lo,hi=st.iv(b); top=1<<(W-1); inf=((1<<E_)-1)<<M
        if lo>=top: b=sub(b,K(top)); lo-=top; hi-=top; neg=True
        elif hi<top: neg=False
        else: return None,None
        if lo>inf: return "nan",None
        if hi>inf: return None,None
        return "num",(scale(b,-1) if neg else b)
    def floatcmp(s,st,op,a,b,name):
        x,y=s.bits(a),s.bits(b)
        if x is None or y is None: return None
        fl=next((s.P.tys(q.ty) for q in(a,b) if type(q) is A and s.P.tys(q.ty) in FL),None) or "f64"
        k1,o1=s.ordinal(st,x,fl); k2,o2=s.ordinal(st,y,fl)
        if "nan" in(k1,k2): return K(1 if op=="Ne" else 0)
        if None in(k1,k2): return None
        return {"Lt":lt(o1,o2),"Le":le(o1,o2),"Gt":lt(o2,o1),"Ge":le(o2,o1),"Eq":eq(o1,o2),"Ne":not_(eq(o1,o2))}[op]
    def floatneg(s,st,a,pty,name):
        b=s.bits(a); fl=s.width(pty) if pty is not None else None
        if b is None or fl is None: return CI.floatneg(s,st,a,pty,name)
        E_,M=FL[fl]; top=1<<(E_+M); lo,hi=st.iv(b)
        if lo>=top: return A(pty,"float",(sub(b,K(top)),))
        if hi<top: return A(pty,"float",(add(b,K(top)),))
        return CI.floatneg(s,st,a,pty,name)
    def castother(s,st,k,a,ty,name):
        t=s.P.tys(ty)
        if k=="FloatToFloat":
            b=s.bits(a); src=s.P.tys(a.ty) if type(a) is A else "f64"
            if src=="f64" and t=="f32":
                if b is not None and "v" in b.syms: s.lossy.append(("?","a cast of an f64 to f32"))
            elif src=="f32" and t=="f64" and b is not None:
                # a widening cast keeps the value: class by class
                lo,hi=st.iv(b); neg=lo>=1<<31; o=lo-(1<<31) if neg else lo; h=hi-(1<<31) if neg else hi
                base=1<<63 if neg else 0
                if (o,h)==(0,0): return A(ty,"float",(K(base),))
                if o==h==0x7f800000: return A(ty,"float",(K(base+(0x7ff<<52)),))
                if o>0x7f800000: q=((0x7ff<<52)+1,(1<<63)-1)
                elif h<0x7f800000 and o>0: q=((1023-149)<<52,((1023+128)<<52)-1)
                else: return s.fresh(ty,name,st)
                r=s.v64=Sym("v64",base+q[0],base+q[1]); return A(ty,"float",(r,))
        if k in("IntToFloat","FloatToInt"):
            x=a if type(a) is T else s.bits(a)
            if x is not None and "v" in x.syms: s.lossy.append(("?","a cast between integer and float"))
        return CI.castother(s,st,k,a,ty,name)
    def incall(s,st,fn,b,c,args,ctx,depth):
        p=c.get("rpath") or c.get("path") or ""; q=p.split("::")[-1]
        f=s.P.fns.get(c.get("id"))
        a0=s.norm(args[0],st) if args else None
        if type(a0) is R: a0=s.norm(s.getp(st,a0.loc,a0.proj,None,ctx),st) if not a0.proj else None
        fb=s.bits(a0) if a0 is not None else None
        if fb is not None and type(a0) is A and (f is None or not f["local"]) and len(args)==1:
            fl=s.P.tys(a0.ty); E_,M=FL[fl]; top=1<<(E_+M); inf=((1<<E_)-1)<<M
            lo,hi=st.iv(fb); neg=lo>=top
            if q=="to_bits": return [(st,fb)]
            if not neg and hi>=top: return None
            o,h=(lo-top,hi-top) if neg else (lo,hi)
            tf=None
            if q=="is_sign_negative": tf=neg
            elif q=="is_sign_positive": tf=not neg
            elif q=="is_nan": tf=True if o>inf else False if h<=inf else None
            elif q=="is_infinite": tf=True if (o,h)==(inf,inf) else False if h<inf or o>inf else None
            elif q=="is_finite": tf=True if h<inf else False if o>=inf else None
            elif q=="is_normal": tf=True if o>=1<<M and h<inf else False if h<1<<M or o>=inf else None
            elif q=="is_subnormal": tf=True if o>0 and h<1<<M else False if o>=1<<M or (o,h)==(0,0) else None
            elif q=="abs": return [(st,A(a0.ty,"float",(sub(fb,K(top)) if neg else fb,)))]
            if tf is not None: return [(st,K(int(tf)))]
        if q in("abs","neg") and type(a0) is T and (f is None or not f["local"]) and "v" in a0.syms:
            m=re.search(r"i(8|16|32|64|128|size)",p)
            if m:
                w=64 if m.group(1)=="size" else int(m.group(1))
                if st.iv(a0)[0]<=-(1<<(w-1)): s.pan.append((fn["path"],"%s of the most negative %s"%(q,m.group(0))))
        if f is None or not f["local"] or c.get("id")==s.rootid: return None
        out=s.P.tys(f["locals"][0])
        if LEAF.search(f["path"]) and type(a0) is T:
            s.leaf.append((f["path"],a0)); z=st.iv(a0)
            pp=s.norm(args[1],st) if len(args)>1 else None
            if f["path"].endswith("u128") and type(pp) is T and st.iv(pp)[1]<128: return [(st,errval(s,f["locals"][0],INVARG))]
            st.purge(ctx+".n"); st.purge(ctx+".e"); st.purge(ctx+".len")
            x=symnum(s,ctx,n=K(0) if z==(0,0) else Sym(ctx+".n",1 if z[0]>0 else 0,BLMAX),s=A(s.tsign,1,()),inx=K(0),meta=(("ex",K(1)),("src",a0)))
            return [(st,A(f["locals"][0],0,(x,))),(st.copy(),errval(s,f["locals"][0],MEM))]
        if re.match(r"std::result::Result<\(usize, .*Mantissa\), .*Error>",out):
            w=[x for x in args if type(x) is T]
            for x in w:
                if x.syms and ("v" in x.syms or "v64" in x.syms):
                    tt=next((t for t in s.P.ty if s.P.tys(t)=="(usize, mantissa::mantissa::Mantissa)"),None)
                    if tt is None: return None
                    for nm in("msh","mlen"): st.purge(nm)
                    m=s.man(Sym("mlen",1,LENMAX),K(0) if st.iv(x)==(0,0) else Sym("mn",1,BLMAX),(("ex",K(1)),("src",x)))
                    return [(st,A(f["locals"][0],0,(A(tt,0,(Sym("msh",0,63),m)),))),(st.copy(),errval(s,f["locals"][0],MEM))]
def iclasses(t):
    bits=64 if t in("isize","usize") else int(t[1:])
    if t[0]=="u": return [("zero",0,0),("positive",1,(1<<bits-1)-1),("above the signed range",1<<(bits-1),(1<<bits)-1)]
    m=1<<(bits-1)
    return [("most negative",-m,-m),("negative",-m+1,-1),("zero",0,0),("positive",1,m-1)]
def fclasses(t):
    E_,M=FL[t]; inf=((1<<E_)-1)<<M; top=1<<(E_+M); r=[]
    for sg,b in(("+",0),("-",top)):
        r+=[(sg+"zero",b,b),(sg+"subnormal",b+1,b+(1<<M)-1),(sg+"normal",b+(1<<M),b+inf-1),(sg+"infinity",b+inf,b+inf),(sg+"NaN",b+inf+1,b+top-1)]
    return r
def run(tier="quick"):
    P=prog(); rep=Report("C21",RULE)
    n=0
    for i,f in sorted(P.fns.items()):
        if not f["local"] or "{closure" in f["path"] or "for_3rd" in f["path"] and "visit" not in f["path"]: continue
        nm=f["path"].split("::")[-1]
        out=P.tys(f["locals"][0])
        if not("ext::BigFloat" in out or "num::BigFloatNumber" in out) or not nm.startswith("from"): continue
        pos=[k for k in range(f["argc"]) if P.tys(f["locals"][k+1]) in PRIM and f["names"].get(str(k+1),f["names"].get(k+1)) != "p"]
        if len(pos)!=1: continue
        if any(P.tys(f["locals"][k+1]) not in PRIM for k in range(f["argc"])): continue
        conv(rep,P,f,pos[0]); n+=1
    rep.count("conversions",n)
    if n<30: rep.undecided("only %d conversions from primitive types were found"%n)
    rep.assume+=["the loops placing the bits of one word / one 128-bit value into the mantissa (from_word, from_u128, Mantissa::from_u64) keep the value; their exponent is checked as a term"]
    return rep
def conv(rep,P,f,k):
    t=P.tys(f["locals"][k+1]); path=f["path"]; rep.unit(path)
    for lab,lo,hi in (fclasses(t) if t in FL else iclasses(t)):
        I=C21(P,root=f["id"],ext=True); I.budget=300000; st=State()
        v=K(lo) if lo==hi and t not in FL and False else Sym("v",lo,hi)
        arg=A(f["locals"][k+1],"float",(v,)) if t in FL else v
        pm=8*16
        args=mkargs(I,st,f,hook=lambda i,nm,ty,s: arg if i==k else Sym("p",pm,1<<32) if P.tys(ty)=="usize" else None)
        what="%s(%s, %s)"%(path,t,lab)
        try: outs=I.run(f["id"],args,st)
        except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(what,e)); continue
        rep.fns|=I.stats["fns"]
        for w,kd in sorted(set(I.pan)):
            rep.bad("%s | %s panic"%(path,lab),"%s: can panic in %s (%s)"%(what,w,kd[:80]))
        for w,kd in sorted(set(I.lossy)): rep.bad("%s | narrowing"%path,"%s: %s"%(what,kd))
        if not outs: rep.undecided("%s: no outcome"%what); continue
        for x,r in outs: judge(rep,P,I,f,t,lab,lo,hi,v,what,path,x,r)
def judge(rep,P,I,f,t,lab,lo,hi,v,what,path,x,r):
    r=I.norm(r,x); ty=P.ty[f["locals"][0]].get("path")
    isf=t in FL; cls=lab.lstrip("+-") if isf else lab
    neg=lab[0]=="-" if isf else lab in("most negative","negative")
    kind=None; num=None; sg=None
    def inner(r):
        r=I.norm(r,x)
        if type(r) is A and P.ty.get(r.ty,{}).get("path")=="std::result::Result":
            if r.var==1:
                e=I.norm(r.f[0],x); 
                return "err",e
            r=I.norm(r.f[0],x)
        return "val",r
    k,r=inner(r)
    if k=="err":
        ev=r.var if type(r) is A else None
        if ev==MEM: rep.ok(); return
        if ev==OVF: kind="inf"; sg=signs(I,x,r.f[0]) if r.f else None
        elif ev==INVARG: kind="nan"
        else: kind="error %s"%ev
    elif getattr(r,"ty",None)==I.tnum: kind="num"; num=r
    else:
        fl=[]
        fl=list(flavs(I,x,r))
        if len(fl)!=1:
            rep.undecided("%s: outcome not classified"%what); return
        x,kk,pl=fl[0]
        if kk=="Value": kind="num"; num=pl
        elif kk=="Inf": kind="inf"; sg=signs(I,x,pl)
        elif kk=="NaN":
            kind="nan"; g,ev=decode_opt(I,x,pl); ev=I.norm(ev,x) if ev is not None else None
            if type(ev) is A and ev.var==MEM: rep.ok(); return
    want="nan" if cls=="NaN" else "inf" if cls=="infinity" else "num"
    if kind is None: rep.undecided("%s: outcome not classified"%what); return
    if kind!=want: rep.bad("%s | %s outcome"%(path,lab),"%s: gives %s instead of %s"%(what,NAMES.get(kind,kind),NAMES[want])); return
    if kind=="nan": rep.ok(what); return
    ws="-" if neg else "+"
    if kind=="inf":
        if sg is None: rep.undecided("%s: sign of the infinity"%what)
        elif sg=={ws}: rep.ok(what)
        else: rep.bad("%s | %s sign"%(path,lab),"%s: the infinity has sign %s"%(what,"".join(sorted(sg))))
        return
    n=num if isinstance(num,NumView) else NumView(I,x,num)
    s=signs(I,x,n.s)
    if s!={ws}: rep.bad("%s | %s sign"%(path,lab),"%s: the sign of the result is %s instead of %s"%(what,"/".join(sorted(s)),ws)); return
    z=x.iv(n.n)
    if cls=="zero":
        if z==(0,0): rep.ok(what)
        else: rep.bad("%s | %s zero"%(path,lab),"%s: the result is not zero"%what)
        return
    src=n.mark("src")
    if src is None:
        leafroot(rep,I,x,n,v,t,what,path); return
    if isf:
        E_,M=FL["f64"]; top=1<<63
        b=v
        if t=="f32": b=I.v64 or v
        mag=sub(b,K(top)) if neg else b
        if t=="f32": c2="normal"
        else: c2=cls
        # exponent of the value = biased exponent - 1022 - shift
        ew=sub(sub(div(mag,K(1<<52)) if c2=="normal" else K(0),K(1022)),Sym("msh",0,63))
        if eqt(x,n.e,ew): rep.ok(what)
        else:
            d=sub(n.e,ew); iv=x.iv(d)
            if iv[0]<=0<=iv[1] and iv[0]!=iv[1]: rep.undecided("%s: exponent %s not compared with %s"%(what,n.e,ew))
            else: rep.bad("%s | %s exponent"%(path,lab),"%s: the exponent is off by %s"%(what,iv[0] if iv[0]==iv[1] else iv))
        return
    want=scale(v,-1) if neg else v
    if eqt(x,src,want): rep.ok(what)
    elif x.iv(sub(src,want))[0]<=0<=x.iv(sub(src,want))[1]: rep.undecided("%s: the magnitude %s is not compared with %s"%(what,src,want))
    else: rep.bad("%s | %s magnitude"%(path,lab),"%s: the magnitude converted is %s instead of the absolute value of the argument"%(what,src))
def leafroot(rep,I,x,n,v,t,what,path):
    """a routine placing the bits itself: the exponent is the type's width less the number of leading zeros counted from zero"""
    W=64 if t in("usize","isize") else int(t[1:])
    e=n.e
    d=sub(K(W),e)
    iv=x.iv(d)
    c,ps=lin_parts(d); co=[k for _,k in ps]
    if c==0 and co in([],[1]) and iv[0]>=0: rep.ok(what)
    elif len(co)<2: rep.bad("%s | exponent"%path,"%s: the exponent is %s for a value of %d bits"%(what,e,W))
    else: rep.undecided("%s: exponent %s"%(what,e))
def eqt(x,a,b): return a is b or x.iv(sub(a,b))==(0,0)
NAMES={"nan":"NaN","inf":"infinity","num":"a number"}
