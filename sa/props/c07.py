"""C07: unsupported precision is refused before any work is done."""
from ops import *
from report import Report
import c04
RULE=("Interprocedural abstract interpretation with the precision restricted to the values the library's own precision test rejects: "
 "no path of any function taking a precision may return a finite number, evaluate an arithmetic check on the precision that can fail (overflow), "
 "reach a panic, or request memory whose size depends on the precision.")
WHOLE=(1<<64)-1
class C7(CI):
    def __init__(s,*a,**k):
        CI.__init__(s,*a,**k); s.ev={}
        s.onpanic=s.panic; s.oncall=s.incall
    def incall(s,st,fn,b,c,args,ctx,depth):
        q=c.get("rpath") or c.get("path") or ""
        if q.endswith("::for_prec") and any(s.dep(a) for a in args): s.ev.setdefault(("computed",fn["path"],q),ctx)
    def dep(s,t): return type(t) is T and "p" in t.syms
    def panic(s,st,fn,b,kind,depth,ctx,c,want):
        if c is not None and not s.dep(c): return
        if c is None: s.ev.setdefault(("panic",fn["path"],str(kind)),ctx)
        else: s.ev.setdefault(("overflow",fn["path"],str(kind)),ctx)
    def note_alloc(s,st,c,args,name):
        for a in args:
            if s.dep(a): s.ev.setdefault(("alloc",c.get("rpath") or c.get("path")),name)
def sect(rep,path,I):
    for k,ctx in sorted(I.ev.items()):
        if k[0]=="alloc": rep.bad("%s | alloc %s"%(path,k[1]),"%s: memory in proportion to an unsupported precision is requested (%s in %s)"%(path,k[1],ctx[:120]))
        elif k[0]=="computed": rep.bad("%s | %s reached"%(path,k[2]),"%s: the computation of a constant (%s) is started with an unsupported precision"%(path,k[2]))
        elif k[0]=="overflow": rep.bad("%s | overflow in %s"%(path,k[1]),"%s: arithmetic on an unsupported precision can fail: %s in %s"%(path,k[2],k[1]))
        else: rep.bad("%s | panic in %s"%(path,k[1]),"%s: a panic can be reached with an unsupported precision: %s in %s"%(path,k[2],k[1]))
    if not I.ev: rep.ok("%s: no overflow, panic or allocation before the refusal"%path)
def run(tier):
    P=prog(); rep=Report("C07",RULE); cnt=0
    for n in c04.CONS+UN+UNC+BIN+BINC+POW+["set_precision","try_set_precision"]:
        fn=numfn(P,n)
        if not fn: rep.undecided("%s not found"%n); continue
        cnt+=1; rep.unit(fn["path"])
        p=Sym("p",0,WHOLE); pi,rmi=pargs(P,fn)
        if pi is None: pi=c04.usize_arg(P,fn)
        r=one(P,fn,pi,rmi,False)
        for I,lab,outs,err in r:
            rep.fns|=I.stats["fns"]
            if err: rep.undecided("%s: %s"%(fn["path"],err)); continue
            sect(rep,fn["path"],I)
            for x,v in outs:
                v=I.norm(v,x)
                if type(v) is A and P.ty[v.ty].get("path")=="std::result::Result" and v.var==1: rep.ok("%s: refused"%fn["path"]); continue
                rep.bad("%s | accepted"%fn["path"],"%s: returns successfully for an unsupported precision"%fn["path"])
    rep.count("number_level_functions",cnt)
    if cnt<45: rep.bad("floor","only %d of the functions taking a precision were found"%cnt)
    cnt=0
    for n in c04.ECONS+c04.EOPS+["set_precision"]:
        fn=extfn(P,n)
        if not fn: rep.undecided("BigFloat::%s not found"%n); continue
        cnt+=1; rep.unit(fn["path"])
        pi,rmi=pargs(P,fn)
        if pi is None: pi=c04.usize_arg(P,fn)
        for I,lab,outs,err in one(P,fn,pi,rmi,True):
            rep.fns|=I.stats["fns"]
            if err: rep.undecided("%s (%s): %s"%(fn["path"],lab,err)); continue
            sect(rep,fn["path"]+(" for "+lab if lab else ""),I)
            for x,v in outs:
                v=I.norm(v,x)
                if type(v) is A and P.ty[v.ty].get("path")=="std::result::Result":
                    if v.var==1: rep.ok()
                    elif n=="set_precision" and notnum(P,x): rep.ok("%s: nothing to do for a special value"%fn["path"])
                    else: rep.bad("%s | accepted"%fn["path"],"%s: returns successfully for an unsupported precision (%s)"%(fn["path"],lab))
                    continue
                for t in flavs(I,x,v):
                    if t[1]=="Value": rep.bad("%s | accepted for %s"%(fn["path"],lab),"%s: returns a finite number for an unsupported precision (%s)"%(fn["path"],lab))
                    elif t[1]=="?": rep.undecided("%s (%s): result not identified"%(fn["path"],lab))
                    else: rep.ok("%s: %s for %s"%(fn["path"],t[1],lab or "any argument"))
    rep.count("BigFloat_level_functions",cnt)
    if cnt<40: rep.bad("floor ext","only %d BigFloat functions found"%cnt)
    consts(rep,P)
    return rep
def notnum(P,x):
    tf=P.tyid("ext::Flavor"); vs=[v["n"] for v in P.ty[tf]["variants"]]
    d=x.vals(Sym("a.fl.#",0,len(vs)-1)); return d is not None and vs.index("Value") not in d
def one(P,fn,pi,rmi,ext):
    ops=extops(P,fn) if ext else []
    I=C7(P,root=fn["id"],ext=True); st=State(); p=Sym("p",0,WHOLE)
    def hk(i,nm,ty,st):
        if i==pi: return p
        if i==rmi: return E(I.trm,Sym("rm.#",0,6),"rm")
        return None
    args=mkargs(I,st,fn,hook=hk)
    for q in "abcd":
        if ("H",q) in st.mem and getattr(st.mem[("H",q)],"ty",None) in(I.tnum,P.tyid("ext::BigFloat")): consistent(st,q)
    I.pinned=set("abcdefgh"[:fn["argc"]])|{"p","rm"}
    # usize::MAX means "choose a precision" where text is converted
    if "convert_from_radix" in fn["path"] or "parse" in fn["path"]: st.refine(le(p,K(WHOLE-1)),True)
    sts=[]
    I.onpanic=None
    for x,v in I.run(I.limit_fid,[p],st,1,"gate"):
        v=I.norm(v,x)
        if type(v) is A and v.var!=0: sts.append(x)
    I.onpanic=I.panic
    for s0 in sts:
        for labs,x in splits(s0,[classes(I,q,False) for q in ops]):
            I.budget=600000; I.ev={}
            lab=", ".join("%s=%s"%(q,l) for q,l in zip(ops,labs))
            try: yield I,lab,I.run(fn["id"],list(args),x),None
            except Abort as e: yield I,lab,[],str(e)
            except (KeyError,IndexError,AttributeError,TypeError,ValueError) as e: yield I,lab,[],"not analysable: %r"%e
def consts(rep,P):
    k=0
    for path,fs in P.bypath.items():
        if not path.startswith("ops::consts::"): continue
        f=fs[0]; n=path.split("::")[-1]
        if n not in("pi","e","ln_2","ln_10","pi_num","e_num","ln_2_num","ln_10_num"): continue
        pi,rmi=pargs(P,f)
        if rmi is None: continue
        k+=1; rep.unit(path)
        for I,lab,outs,err in one(P,f,pi,rmi,False):
            rep.fns|=I.stats["fns"]
            if err: rep.undecided("%s: %s"%(path,err)); continue
            sect(rep,path,I)
            for x,v in outs:
                v=I.norm(v,x)
                if getattr(v,"ty",None)==P.tyid("ext::BigFloat"):
                    for t in flavs(I,x,v):
                        if t[1]=="NaN": rep.ok("%s: NaN"%path)
                        elif t[1]=="?": rep.undecided("%s: result not identified"%path)
                        else: rep.bad("%s | accepted"%path,"%s: returns %s for an unsupported precision"%(path,t[1]))
                elif type(v) is A and v.var==1: rep.ok("%s: refused"%path)
                else: rep.bad("%s | accepted"%path,"%s: returns successfully for an unsupported precision"%path)
    rep.count("constants",k)
    if k<8: rep.bad("floor consts","only %d functions for constants found"%k)
