"""C05: the caller's rounding mode and precision drive the final rounding."""
from ops import *
from report import Report
import c04
RULE=("Interprocedural abstract interpretation with ghost state: every rounding step leaves a mark on the number it produced (words kept, mode value, "
 "sign at that moment, whether closeness was tested, whether the input was exact). At each successful return of an operation the mark of the result must be: "
 "the caller's precision; the caller's mode, mirrored exactly on the paths where the sign was changed after rounding; and tested, or made from an exact value "
 "or from an exact value with a sticky correction. Results made without rounding must be exact, or be the special value that the mode selects on that path.")
NAMES=["None","Up","Down","ToZero","FromZero","ToEven","ToOdd"]
UP,DOWN,TOZERO,FROMZERO=1,2,3,4
WHOLE=(1<<64)-1
CMP=re.compile(r"num::BigFloatNumber::(cmp|abs_cmp)\Z")
def c_cmp(I,st,c,args,dty,name,d):
    """comparison of two numbers: decided by C03, here only remembered as such"""
    st.purge(name)
    return [(st,opaque("ncmp",(Sym(name+".cmp",-1,1),),-1,1))]
class C5(CI):
    """keeps roundings of different kind apart, and records comparisons that established equality"""
    rdepth=0
    def __init__(s,*a,**k):
        k["over"]=tuple(k.get("over",()))+((lambda c: bool(CMP.search(c.get("rpath") or c.get("path") or "")),c_cmp),)
        CI.__init__(s,*a,**k); s.ie=fidx(s)["e"]
    def metashape(s,meta): return tuple((k,None if k!="fin" else (v[1] if type(v[1]) is A else 0,v[3],v[4])) for k,v in meta)
    fine=False
    def shapekey(s,st):
        r=[]
        for l,v in st.mem.items():
            s.fine=l[0]=="ret" or l[0] in(0,1)
            r.append((l,s.shape(v)))
        s.fine=False
        return (frozenset(r),st.g,s.classkey(st))
    def shape(s,v):
        """results that are zero or the smallest number stay apart from others"""
        if s.fine and type(v) is A and v.ty==s.tman and isk(v.f[1]) and kv(v.f[1])<2: return ("man",kv(v.f[1]),Interp.shape(s,v))
        if s.fine and type(v) is A and v.ty==s.tnum and isk(v.f[s.ie]): return ("num",kv(v.f[s.ie]),Interp.shape(s,v))
        return Interp.shape(s,v)
    def term(s,x,depth,fn,b,ctx,results,live):
        t=fn["blocks"][b]["t"]
        if depth!=s.rdepth or t["k"]!="switch": return Interp.term(s,x,depth,fn,b,ctx,results,live)
        d=s.operand(x.copy(),depth,fn,t["d"],ctx)
        outs=Interp.term(s,x,depth,fn,b,ctx,results,live)
        if type(d) is T:
            c=[a for a in atoms(d) if a.op=="ncmp"]
            if c:
                for y,_ in outs: y.g=("eq",) if any(y.iv(a)==(0,0) for a in c) else ()
        return outs
def modes(P):
    t=P.ty[P.tyid("defs::RoundingMode")]; return [v["n"] for v in t["variants"]]
def show(V): return "{"+",".join(NAMES[i] for i in sorted(V))+"}"
def mirror(k): return DOWN if k==UP else UP if k==DOWN else k
def judge(rep,I,path,x,v,p,rm,ops,lab="",bound1=False,sticky=False):
    """one successful result"""
    st=signterm(v.s)
    for pos in(True,False):
        y=x.copy()
        if type(st) is T and not (y.refine(st,pos) and y.settle()): continue
        judge1(rep,I,path,y,v,pos,p,rm,ops,lab,bound1,sticky)
def judge1(rep,I,path,y,v,pos,p,rm,ops,lab,bound1,sticky):
    V=set(y.vals(rm.sym) or range(len(NAMES))) if type(rm) is E else {rm.var}
    away={FROMZERO,UP if pos else DOWN}; toward={TOZERO,DOWN if pos else UP}
    key="%s%s"%(path,lab)
    sg="positive" if pos else "negative"
    zero=y.iv(v.n)==(0,0)
    if v.mark("bad") is not None: rep.bad(key+" | refused","%s: returns a result whose rounding was refused as uncertain"%key); return
    f=v.mark("fin")
    if f is not None:
        w,rmv,sr,tested,exact=f
        if zero and y.iv(exact)[0]>=1: rep.ok(); return
        corr=v.mark("corr") is not None
        d=y.iv(sub(w,words(p)))
        sub_=y.iv(v.e)==(EMIN,EMIN) and y.iv(sub(v.len,words(p)))==(0,0)
        if d!=(0,0) and not sub_: rep.bad(key+" | precision","%s: the last rounding keeps %s words, not ceil(p/64)"%(key,str(w)[:100])); return
        c=y.iv(sr) if type(sr) is T else (0,1)
        # a sign that is overwritten afterwards belongs to a magnitude
        at=bool(c[0]) if c[0]==c[1] else (pos if sr is signterm(v.s) else True)
        flip=at!=pos
        if type(rmv) is E and rmv.sym is rm.sym if type(rm) is E else False:
            if flip and V&{UP,DOWN} and not zero:
                rep.bad(key+" | mirror","%s: the sign of a %s result is changed after rounding, and the mode is not mirrored for %s"%(key,sg,show(V&{UP,DOWN}))); return
        elif type(rmv) is A:
            want={mirror(k) if flip else k for k in V}
            if want!={rmv.var} and not(zero and y.iv(exact)[0]>=1):
                rep.bad(key+" | mode","%s: a %s result is rounded with mode %s where the caller asked for %s%s"%(key,sg,NAMES[rmv.var],show(V)," and the sign is changed afterwards" if flip else "")); return
        elif type(rmv) is E:
            R_=set(y.vals(rmv.sym) or range(len(NAMES)))
            want={mirror(k) if flip else k for k in V}
            if not(len(want)==1 and R_==want): rep.undecided("%s: mode of the last rounding not determined (%s for %s)"%(key,rmv.sym,show(V))); return
        else: rep.undecided("%s: mode of the last rounding not tracked"%key); return
        if y.iv(tested)==(1,1): rep.ok("%s: %s result rounded with the caller's mode to ceil(p/64) words, closeness tested"%(key,sg)); return
        if y.iv(exact)[0]>=1: rep.ok("%s: exact value rounded with the caller's mode"%key); return
        if corr: rep.ok("%s: value with sticky correction rounded with the caller's mode"%key); return
        if sub_: rep.ok("%s: subnormal result rounded with the caller's mode"%key); return
        if sticky: rep.ok("%s: digits read exactly, dropped ones kept as a sticky digit"%key); return
        if equality(y): rep.ok("%s: the result was compared equal to the exact value"%key); return
        rep.bad(key+" | untested","%s: an approximation is rounded without testing whether it is close enough (%s result)"%(key,sg)); return
    # no rounding step
    z=y.copy()
    clear=all(z.refine(Sym(o+".inx",0,1),False) for o in ops) and z.settle()
    if v.mark("ex") is not None and (not clear or all(w.iv(v.inx)==(0,0) for w in zsplit(z,ops))): rep.ok("%s: exact result"%key); return
    minpos=y.iv(v.n)==(1,1) and y.iv(v.e)==(EMIN,EMIN)
    if zero:
        if V&away: rep.bad(key+" | underflow","%s: a %s value that underflows becomes zero for %s"%(key,sg,show(V&away)))
        else: rep.ok("%s: underflow to zero for %s"%(key,show(V)))
        return
    if minpos:
        if V-away: rep.bad(key+" | underflow","%s: a %s value that underflows becomes the smallest positive number for %s"%(key,sg,show(V-away)))
        else: rep.ok("%s: underflow to the smallest number for %s"%(key,show(V)))
        return
    if v.mark("ex") is not None:
        # an exact number standing for an inexact value
        if bound1:
            e=y.iv(v.e)
            if e!=(0,0) and V&toward: rep.bad(key+" | bound","%s: 1 stands for a smaller magnitude for %s"%(key,show(V&toward)))
            elif e==(0,0) and V&away: rep.bad(key+" | bound","%s: a number below 1 stands for a larger magnitude for %s"%(key,show(V&away)))
            else: rep.ok("%s: neighbour of 1 selected by the mode"%key)
            return
        if V&away and V&toward: rep.bad(key+" | special","%s: an inexact value is replaced by one number in both directed modes"%key)
        else: rep.ok()
        return
    rep.bad(key+" | none","%s: a %s result is returned without a final rounding step"%(key,sg))
def zsplit(z,ops):
    sts=[z]
    for o in ops:
        n=[]
        for x in sts:
            for b in(True,False):
                w=x.copy()
                if w.refine(eq(Sym(o+".n",0,BLMAX),K(0)),b) and w.settle(): n.append(w)
        sts=n
    return sts
def equality(y):
    return "eq" in y.g
def keys(ops):
    """facts kept apart when paths meet"""
    r=[Sym("rm.#",0,6)]
    for o in ops: r+=[Sym(o+".s.#",0,1),eq(Sym(o+".n",0,BLMAX),K(0))]
    return tuple(r)
def notdec(P,x):
    """the radix on this path is a power of two (the digits are copied, not computed)"""
    vs=[v["n"] for v in P.ty[P.tyid("defs::Radix")]["variants"]]
    for t in x.dom:
        if t.op=="s" and t.args[0]=="d.#":
            d=x.vals(t); return d is not None and vs.index("Dec") not in d
    return False
def run(tier):
    P=prog(); rep=Report("C05",RULE); cnt=0
    if modes(P)!=NAMES: rep.undecided("the rounding modes are %s"%modes(P)); return rep
    for n in UN+UNC+BIN+BINC+POW+["convert_from_radix","random_normal"]:
        fn=numfn(P,n)
        if not fn: rep.undecided("%s not found"%n); continue
        pi,rmi=pargs(P,fn)
        if rmi is None: continue
        cnt+=1; rep.unit(fn["path"])
        def pre(I,x): return x.refine(le(Sym("p",0,WHOLE),K(WHOLE-1)),True)
        r=run_op(P,fn,budget=4000000,cls=C5,pre=pre,keys=keys(operands(P,fn)))
        rep.fns|=r.I.stats["fns"]
        if r.err: rep.undecided("%s: %s"%(fn["path"],r.err)); continue
        for x,k,v,e in results(r):
            if k=="ok": judge(rep,r.I,fn["path"],x,v,r.p,r.rm,operands(P,fn),"",n=="tanh",n=="convert_from_radix" and notdec(P,x))
            elif k!="err": rep.undecided("%s: result not identified"%fn["path"])
    rep.count("number_level_functions",cnt)
    if cnt<27: rep.bad("floor","only %d of the functions taking a rounding mode were found"%cnt)
    inplace(rep,P); mant(rep,P); ext(rep,P); consts(rep,P)
    return rep
def mant(rep,P):
    """the mantissa operations round with the mode and sign they are given"""
    k=0; trm=P.tyid("defs::RoundingMode")
    for f,ix in boolacc(P):
        if f["path"].endswith("round_mantissa"): continue
        us=[i for i in range(f["argc"]) if P.tys(f["locals"][i+1])=="usize"]
        if not us: continue
        k+=1; rep.unit(f["path"])
        I=C5(P,root=f["id"]); I.budget=2000000; st=State(); p=Sym("p",1,(1<<62)-1); bools=[]; rms=[]; acc={}
        I.pinned={"p"}
        def hk(i,nm,ty,st):
            s=P.tys(ty)
            if i==us[0]: return p
            if s=="&mut bool":
                l=("H",nm); st.mem[l]=K(0); acc[i]=l; return R(l,(),True)
            if s=="bool": bools.append(Sym(nm,0,1)); return bools[-1]
            if ty==trm: rms.append(E(trm,Sym(nm+".#",0,6),nm)); return rms[-1]
            if s=="&mantissa::mantissa::Mantissa":
                l=("H",nm); st.mem[l]=I.man(Sym(nm+".len",1,LENMAX),Sym(nm+".n",0,BLMAX),(("ex",K(1)),)); return R(l,(),True)
        args=mkargs(I,st,f,hook=hk)
        if len(rms)!=1 or not bools: continue
        sgn=bools[0]
        if len(bools)>1: st.refine(bools[-1],False)
        try: outs=I.run(f["id"],args,st)
        except Abort as e: rep.undecided("%s: %s"%(f["path"],e)); continue
        except (KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(f["path"],e)); continue
        rep.fns|=I.stats["fns"]
        for x,v in outs:
            v=I.norm(v,x)
            if type(v) is not A or P.ty[v.ty].get("path")!="std::result::Result" or v.var!=0: continue
            meta=metaof(I,x,v.f[0])
            if meta is None: rep.undecided("%s: mantissa of the result not identified"%f["path"]); continue
            fm=dict(meta).get("fin")
            inx=[x.mem[acc[ix]]]
            if fm is None:
                if all(x.iv(t)==(0,0) for t in inx) or dict(meta).get("ex") is not None: rep.ok("%s: exact result"%f["path"])
                else: rep.bad("%s | none"%f["path"],"%s: a result that lost digits is returned without rounding (%s)"%(f["path"],[str(t)[:60] for t in inx]+[str(meta)[:60]]))
                continue
            w,rmv,sr,_,_=fm
            if not(type(rmv) is E and rmv.sym is rms[0].sym) and not(type(rmv) is A and x.vals(rms[0].sym)=={rmv.var}):
                rep.bad("%s | mode"%f["path"],"%s: rounds with %s instead of the mode it is given"%(f["path"],rmv)); continue
            if not(sr is sgn or (type(sr) is T and x.iv(sub(sr,sgn))==(0,0))):
                rep.bad("%s | sign"%f["path"],"%s: rounds for sign %s instead of the sign it is given"%(f["path"],sr)); continue
            if x.iv(sub(w,words(p)))!=(0,0): rep.bad("%s | precision"%f["path"],"%s: rounds to %s words"%(f["path"],w)); continue
            rep.ok("%s: rounds with the given mode, sign and precision"%f["path"])
    rep.count("mantissa_operations",k)
    if k<6: rep.bad("floor mantissa","only %d mantissa operations found"%k)
def metaof(I,x,v):
    if type(v) is L: v=I.expand(v,x)
    if type(v) is not A: return None
    if v.ty==I.tman: return full(I,x,v).f[0].f[0].meta
    for y in v.f:
        if type(y) in(A,L):
            r=metaof(I,x,y)
            if r is not None: return r
    return None
def inplace(rep,P):
    fn=numfn(P,"set_precision")
    if not fn: rep.undecided("set_precision not found"); return
    rep.unit(fn["path"])
    r=run_op(P,fn,budget=2000000,cls=C5)
    if r.err: rep.undecided("%s: %s"%(fn["path"],r.err)); return
    for x,v in r.out:
        v=r.I.norm(v,x)
        if v.var!=0: continue
        nv=NumView(r.I,x,x.mem[("H","a")])
        judge(rep,r.I,fn["path"],x,nv,r.p,r.rm,["a"])
def ext(rep,P):
    cnt=0
    for n in UN+UNC+BIN+BINC+["powi","convert_from_radix"]:
        fn=extfn(P,n)
        if not fn: rep.undecided("BigFloat::%s not found"%n); continue
        pi,rmi=pargs(P,fn)
        if rmi is None: continue
        cnt+=1; rep.unit(fn["path"])
        p=Sym("p",0,WHOLE)
        hk=lambda I,i,nm,ty,st: p if i==pi else None
        def pre(I,x): return x.refine(le(p,K(WHOLE-1)),True)
        ops=extops(P,fn)
        for I,lab,outs,err in c04.run_split(P,fn,hk,pre,ops,rmi,cls=C5,keys=(Sym('rm.#',0,6),)):
            rep.fns|=I.stats["fns"]
            if err: rep.undecided("%s (%s): %s"%(fn["path"],lab,err)); continue
            rm=E(I.trm,Sym("rm.#",0,6),"rm")
            for x,v in outs:
                for t in flavs(I,x,v):
                    if t[1]=="Value": judge(rep,I,fn["path"],t[0],t[2],p,rm,ops," for "+lab if lab else "",n=="tanh",n=="convert_from_radix" and notdec(P,t[0]))
                    elif t[1]=="?": rep.undecided("%s (%s): result not identified"%(fn["path"],lab))
    rep.count("BigFloat_level_functions",cnt)
    if cnt<25: rep.bad("floor ext","only %d BigFloat functions found"%cnt)
def consts(rep,P):
    k=0
    for path,fs in P.bypath.items():
        if not path.startswith("ops::consts::"): continue
        f=fs[0]; n=path.split("::")[-1]
        if n not in("for_prec","pi","e","ln_2","ln_10","pi_num","e_num","ln_2_num","ln_10_num"): continue
        pi,rmi=pargs(P,f)
        if rmi is None: continue
        k+=1; rep.unit(path)
        r=run_op(P,f,ext=True,budget=2000000,cls=C5)
        if r.err: rep.undecided("%s: %s"%(path,r.err)); continue
        rep.fns|=r.I.stats["fns"]; I=r.I
        for x,v in r.out:
            v=I.norm(v,x)
            if getattr(v,"ty",None)==P.tyid("ext::BigFloat"):
                for t in flavs(I,x,v):
                    if t[1]=="Value": judge(rep,I,path,t[0],t[2],r.p,r.rm,[])
                    elif t[1]=="?": rep.undecided("%s: result not identified"%path)
            elif type(v) is A and v.var==0 and getattr(v.f[0],"ty",None)==I.tnum: judge(rep,I,path,x,NumView(I,x,v.f[0]),r.p,r.rm,[])
            elif type(v) is A and v.var==1: pass
            else: rep.undecided("%s: result not identified"%path)
    rep.count("constants",k)
    if k<12: rep.bad("floor consts","only %d functions for constants found"%k)
