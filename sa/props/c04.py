"""C04: a finite result carries the requested precision."""
from ops import *
from report import Report
RULE=("Interprocedural abstract interpretation with linear symbolic terms: every operation, constructor, constant and conversion that "
 "takes a precision is analysed on symbolic operands, precision and rounding mode; at each successful return the number of mantissa words of the "
 "result is compared, as a term, with ceil(p/64). The same for the mantissa operations the numbers are built on and for in-place changes of precision.")
CONS=["new","new2","max_value","min_value","min_positive","min_positive_normal","from_word","from_i8","from_i16","from_i32","from_i64","from_i128","from_u8","from_u16","from_u32","from_u64","from_u128","from_f64","random_normal","convert_from_radix"]
ECONS=["new","max_value","min_value","min_positive","min_positive_normal","from_word","from_i8","from_i16","from_i32","from_i64","from_i128","from_u8","from_u16","from_u32","from_u64","from_u128","from_f64","from_f32","random_normal","convert_from_radix"]
EOPS=UN+UNC+BIN+BINC+["powi"]
WHOLE=(1<<64)-1
def eqwords(x,ln,p):
    return x.iv(sub(ln,words(p)))
def judge(rep,path,x,ln,p,n,lab=""):
    d=eqwords(x,ln,p)
    if d==(0,0): rep.ok("%s%s: %s words"%(path,lab,"ceil(p/64)")); return
    w="zero result" if x.iv(n)==(0,0) else "result"
    if (d[0]>0 or d[1]<0) or isk(ln) or exact(x,ln,p): rep.bad("%s | %s%s"%(path,w,lab),"%s%s: a %s has %s mantissa words, not ceil(p/64) (difference %s)"%(path,lab,w,str(ln)[:80],d))
    else: rep.undecided("%s%s: length of a %s not determined: %s (difference %s)"%(path,lab,w,str(ln)[:80],d))
def exact(x,ln,p):
    """the length is a term over the arguments only"""
    return all(("." not in s) or s.split(".")[0] in("a","b","c","d","p") for s in ln.syms)
def isgoodp(fn,P):
    pi,rmi=pargs(P,fn)
    return pi
def run(tier):
    P=prog(); rep=Report("C04",RULE); cnt=0
    for n in CONS+UN+UNC+BIN+BINC+POW:
        fn=numfn(P,n)
        if not fn: rep.undecided("%s not found"%n); continue
        cnt+=1; rep.unit(fn["path"])
        p=Sym("p",0,WHOLE)
        pi,rmi=pargs(P,fn)
        if pi is None: pi=usize_arg(P,fn)
        hk=lambda I,i,nm,ty,st: p if i==pi else None
        def pre(I,x): return x.refine(le(p,K(WHOLE-1)),True)     # usize::MAX asks the parser to choose
        r=run_op(P,fn,hook=hk,pre=pre,pdom="ok" if rmi is not None else "any",budget=4000000)
        rep.fns|=r.I.stats["fns"]
        if r.err: rep.undecided("%s: %s"%(fn["path"],r.err)); continue
        for x,k,v,e in results(r):
            if k=="ok": judge(rep,fn["path"],x,v.len,p,v.n)
            elif k!="err": rep.undecided("%s: result not identified"%fn["path"])
    rep.count("number_level_functions",cnt)
    if cnt<45: rep.bad("floor","only %d of the functions taking a precision were found"%cnt)
    inplace(rep,P); mant(rep,P); ext(rep,P); consts(rep,P)
    return rep
def usize_arg(P,fn):
    c=[i for i in range(fn["argc"]) if P.tys(fn["locals"][i+1])=="usize"]
    return c[0] if c else None
def inplace(rep,P):
    for n in("set_precision","try_set_precision"):
        fn=numfn(P,n)
        if not fn: rep.undecided(n+" not found"); continue
        rep.unit(fn["path"])
        p=Sym("p",0,WHOLE)
        r=run_op(P,fn,budget=2000000)
        if r.err: rep.undecided("%s: %s"%(fn["path"],r.err)); continue
        rep.fns|=r.I.stats["fns"]
        for x,v in r.out:
            v=r.I.norm(v,x)
            if v.var!=0: continue
            if n.startswith("try"):
                b=x.const(v.f[0]) if type(v.f[0]) is T else None
                if b==0: continue
                if b is None and not x.refine(v.f[0],True): continue
            nv=NumView(r.I,x,x.mem[("H","a")])
            judge(rep,fn["path"],x,nv.len,p,nv.n)
def mant(rep,P):
    k=0
    for f,ix in boolacc(P):
        if f["path"].endswith("round_mantissa"): continue
        # the precision is the usize argument before the rounding mode (the nearest one for most, the first for sums)
        trm=P.tyid("defs::RoundingMode")
        us=[i for i in range(f["argc"]) if P.tys(f["locals"][i+1])=="usize"]
        if not us: continue
        k+=1; rep.unit(f["path"])
        I=CI(P,root=f["id"]); I.budget=2000000; st=State(); p=Sym("p",1,(1<<62)-1); bools=[]
        I.pinned={"p"}
        def hk(i,nm,ty,st):
            s=P.tys(ty)
            if i==us[0]: return p
            if s=="&mut bool":
                l=("H",nm); st.mem[l]=Sym(nm+".b",0,1); return R(l,(),True)
            if s=="bool": bools.append((i,Sym(nm,0,1))); return bools[-1][1]
            if s=="&mantissa::mantissa::Mantissa":
                l=("H",nm); st.mem[l]=I.man(Sym(nm+".len",1,LENMAX),Sym(nm+".n",0,BLMAX),(("ex",K(1)),)); return R(l,(),True)
        args=mkargs(I,st,f,hook=hk)
        # the full-precision request: the last plain bool of operations that have two
        full=bools[-1][1] if len(bools)>1 else None
        if full is not None: st.refine(full,False)
        try: outs=I.run(f["id"],args,st)
        except Abort as e: rep.undecided("%s: %s"%(f["path"],e)); continue
        except (KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(f["path"],e)); continue
        rep.fns|=I.stats["fns"]
        for x,v in outs:
            v=I.norm(v,x)
            if type(v) is not A or P.ty[v.ty].get("path")!="std::result::Result" or v.var!=0: continue
            m=find_man(I,x,v.f[0])
            if m is None: rep.undecided("%s: mantissa of the result not identified"%f["path"]); continue
            judge(rep,f["path"],x,m[0],p,m[1])
    rep.count("mantissa_operations",k)
    if k<6: rep.bad("floor mantissa","only %d mantissa operations found"%k)
def find_man(I,x,v):
    if type(v) is L: v=I.expand(v,x)
    if type(v) is not A: return None
    if v.ty==I.tman:
        v=full(I,x,v); return v.f[0].f[0].f[0],v.f[1]
    for y in v.f:
        if type(y) in(A,L):
            r=find_man(I,x,y)
            if r: return r
    return None
def ext(rep,P):
    cnt=0
    for n in ECONS+EOPS:
        fn=extfn(P,n)
        if not fn: rep.undecided("BigFloat::%s not found"%n); continue
        cnt+=1; rep.unit(fn["path"])
        p=Sym("p",0,WHOLE)
        pi,rmi=pargs(P,fn)
        if pi is None: pi=usize_arg(P,fn)
        hk=lambda I,i,nm,ty,st: p if i==pi else None
        def pre(I,x): return x.refine(le(p,K(WHOLE-1)),True)
        ops=extops(P,fn)
        r=run_split(P,fn,hk,pre,ops,rmi)
        for I,lab,outs,err in r:
            rep.fns|=I.stats["fns"]
            if err: rep.undecided("%s (%s): %s"%(fn["path"],lab,err)); continue
            for x,v in outs:
                for t in flavs(I,x,v):
                    y,k=t[0],t[1]
                    if k=="?": rep.undecided("%s (%s): result not identified"%(fn["path"],lab))
                    elif k=="Value": judge(rep,fn["path"],y,t[2].len,p,t[2].n," for "+lab if lab else "")
                    else: rep.ok()
    rep.count("BigFloat_level_functions",cnt)
    if cnt<40: rep.bad("floor ext","only %d BigFloat functions found"%cnt)
def run_split(P,fn,hk,pre,ops,rmi,fine=False,budget=600000,cls=CI,keys=()):
    """run a BigFloat function once per combination of operand classes"""
    I=cls(P,root=fn["id"],ext=True); st=State(); p=Sym("p",0,WHOLE)
    def h2(i,nm,ty,st):
        v=hk(I,i,nm,ty,st) if hk else None
        if v is not None: return v
        if rmi is not None and i==rmi: return E(I.trm,Sym("rm.#",0,6),"rm")
        return None
    args=mkargs(I,st,fn,hook=h2)
    for q in ops: consistent(st,q)
    I.pinned=set("abcdefgh"[:fn["argc"]])|{"p","rm"}; I.keyterms=keys
    sts=[st]
    if rmi is not None:
        sts=[]; st.refine(le(K(1),p),True)
        for x,v in I.run(I.limit_fid,[p],st,1,"gate"):
            v=I.norm(v,x)
            if type(v) is A and v.var==0: sts.append(x)
    for s0 in sts:
        if pre is not None and not pre(I,s0): continue
        for labs,x in splits(s0,[classes(I,q,fine) for q in ops]):
            I.budget=budget
            lab=", ".join("%s=%s"%(q,l) for q,l in zip(ops,labs))
            try: yield I,lab,I.run(fn["id"],list(args),x),None
            except Abort as e: yield I,lab,[],str(e)
            except (KeyError,IndexError,AttributeError,TypeError,ValueError) as e: yield I,lab,[],"not analysable: %r"%e
def consts(rep,P):
    k=0
    for path,fs in P.bypath.items():
        if not path.startswith("ops::consts::"): continue
        f=fs[0]; n=path.split("::")[-1]
        if n not in("for_prec","pi","e","ln_2","ln_10","pi_num","e_num","ln_2_num","ln_10_num"): continue
        pi,rmi=pargs(P,f)
        if rmi is None: continue
        k+=1; rep.unit(path)
        p=Sym("p",0,WHOLE)
        r=run_op(P,f,ext=True,budget=2000000,cls=CI)
        if r.err: rep.undecided("%s: %s"%(path,r.err)); continue
        rep.fns|=r.I.stats["fns"]; I=r.I
        for x,v in r.out:
            v=I.norm(v,x)
            if getattr(v,"ty",None)==P.tyid("ext::BigFloat"):
                for t in flavs(I,x,v):
                    if t[1]=="Value": judge(rep,path,t[0],t[2].len,p,t[2].n)
                    elif t[1]=="?": rep.undecided("%s: result not identified"%path)
            elif type(v) is A and v.var==0 and getattr(v.f[0],"ty",None)==I.tnum:
                nv=NumView(I,x,v.f[0]); judge(rep,path,x,nv.len,p,nv.n)
            elif type(v) is A and v.var==1: pass
            else: rep.undecided("%s: result not identified"%path)
    rep.count("constants",k)
    if k<12: rep.bad("floor consts","only %d functions for constants found"%k)
