"""Contracts of the numeric core, used at call sites while a caller is analysed.

Every contract is established separately: the function it belongs to is analysed on its own body as the root of another
run (see the checks), so a caller's analysis is modular. Kernels on digit slices are opaque: they change digits only."""
from interp import *
import models,re
from models import ok,err,none,some,deref
EMIN,EMAX=-(1<<31),(1<<31)-1
WORD=64
LENMAX=(1<<57)-1   # words of an existing buffer: isize::MAX bytes / 8, rounded down
BLMAX=LENMAX*WORD

def words(p): return div(add(p,K(WORD-1)),K(WORD),nonneg=True)

class CI(Interp):
    def __init__(s,prog,root=None,over=(),ext=False,**kw):
        Interp.__init__(s,prog,None,**kw)
        s.root=root
        s.ext=ext
        c=C_EXT+C if ext else C
        s.models=list(over)+[(p,h) for p,h in c]+models.M
        ty=prog.tyid
        s.tnum=ty("num::BigFloatNumber"); s.tman=ty("mantissa::mantissa::Mantissa"); s.tbuf=ty("common::buf::WordBuf")
        s.tsign=ty("defs::Sign"); s.terr=ty("defs::Error"); s.trm=ty("defs::RoundingMode"); s.tvec=ty("std::vec::Vec<u64>")
        s.kern={}
        s.events=[]
        s.errsum=None
        s.limit_fid=next((f["id"] for f in prog.bypath.get("num::BigFloatNumber::p_assertion",[])),None)
    # -- kernels
    def is_kernel(s,g):
        r=s.kern.get(g["id"])
        if r is None:
            tys=[g["locals"][i+1] for i in range(g["argc"])]
            has=False; good=True
            for t in tys:
                x=s.P.ty[t]
                while x["k"] in("ref","ptr"): x=s.P.ty[x["to"]]
                if x["k"] in("int","bool","char"): continue
                if x["k"] in("slice","array"): has=True; continue
                if x["k"]=="adt" and ("WordBuf" in x["s"] or "SliceWithSign" in x["s"]): has=True; continue
                good=False
            r=s.kern[g["id"]]=bool(good and has and len(g["blocks"])>3)
        return r
    def inline_ok(s,c,g,depth):
        if g["local"]:
            if g["path"].startswith("common::buf::WordBuf::") and len(g["blocks"])<=22 and "zeroes" not in g["path"]: return True
            if s.is_kernel(g): return False
            if HELPER.search(g["path"]): return False
            return True
        return models.base_inline(c,g)
    # -- error effects: which variants of the crate's error type a function can produce
    def errvars(s,fid):
        if s.errsum is None: s.errsum=error_effects(s.P)
        return s.errsum.get(fid)
    def havoc(s,st,c,args,dty,name):
        outs=Interp.havoc(s,st,c,args,dty,name)
        fid=c.get("id")
        t=s.P.ty.get(dty) if dty is not None else None
        if t and t.get("path")=="std::result::Result" and fid in s.P.fns and s.P.fns[fid]["local"]:
            ev=s.errvars(fid)
            x,v=outs[0]
            v=s.expand(v,x)
            if type(v) is E and t["args"][1]==s.terr and ev is not None:
                es=Sym(name+".ev",0,len(s.P.ty[s.terr]["variants"])-1)
                x.purge(name+".ev")
                if ev: x.dom[es]=frozenset(ev)
                v=E(v.ty,v.sym,v.name,((1,(E(s.terr,es,name+".err"),)),))
                if not ev: x.refine(eq(v.sym,K(0)),True)
                outs=[(x,v)]
        return outs
    # -- values
    def num(s,e,sign,ln,n,inexact,meta=()):
        return A(s.tnum,0,order_num(s,e,sign,s.man(ln,n,meta),inexact))
    def man(s,ln,n,meta=()):
        return A(s.tman,0,(A(s.tbuf,0,(A(s.tvec,0,(ln,),meta),)),n))
    def fresh_num(s,st,name,ln=None,sign=None,inexact=None,meta=(),nonzero=False):
        st.purge(name)
        if ln is None: ln=Sym(name+".m.len",0,LENMAX)
        n=Sym(name+".n",1 if nonzero else 0,BLMAX)
        if sign is None: sign=E(s.tsign,Sym(name+".s.#",0,1),name+".s")
        if inexact is None: inexact=Sym(name+".inx",0,1)
        return s.num(Sym(name+".e",EMIN,EMAX),sign,ln,n,inexact,meta)
    def sign_of(s,term,name):
        """sign value from a 0/1 term (1: positive)"""
        if isk(term): return A(s.tsign,kv(term),())
        return E(s.tsign,term,name)
    def rmname(s,v): return None
    def joinmark(s,k,a,b,nm,sa,sb,out,widen):
        """two roundings of the same kind, with different precision or sign terms"""
        if k!="fin" or type(a) is not tuple or type(b) is not tuple or len(a)!=len(b): return None
        r=[]
        for i,(x,y) in enumerate(zip(a,b)):
            if x is y or x==y: r.append(x); continue
            if s.shape(x)!=s.shape(y): return None
            r.append(s.joinval(x,y,"%s.f%d"%(nm,i),sa,sb,out,widen))
        return tuple(r)
HELPER=re.compile(r"_(series|arg_reduce|arg_restore)$|::(pqr?|pqr?_inc|calc_\w+|series_\w+|b_factor|reduction_\w+|get_optimal_\w+|\w+_cost)$")

def order_num(I,e,s,m,inx):
    fs=[n for n,_ in I.P.ty[I.tnum]["variants"][0]["f"]]
    d={"e":e,"s":s,"m":m,"inexact":inx}
    return [d[n] for n in fs]
def fidx(I):
    return {n:i for i,(n,_) in enumerate(I.P.ty[I.tnum]["variants"][0]["f"])}

class NumView:
    """access to the parts of a number value"""
    __slots__=("v","e","s","m","inx","len","n","meta")
    def __init__(s,I,st,v):
        v=full(I,st,v)
        ix=fidx(I); s.v=v
        s.e=v.f[ix["e"]]; s.s=v.f[ix["s"]]; s.m=v.f[ix["m"]]; s.inx=v.f[ix["inexact"]]
        vec=s.m.f[0].f[0]
        s.len=vec.f[0]; s.n=s.m.f[1]; s.meta=vec.meta
    def mark(s,k,d=None):
        for a,b in s.meta:
            if a==k: return b
        return d
def full(I,st,v):
    """fully expanded number value"""
    if type(v) is L: v=I.expand(v,st)
    if type(v) is A:
        f=[]
        for x in v.f:
            if type(x) is L and I.P.ty[x.ty]["k"]=="adt": x=full(I,st,x)
            elif type(x) is A and x.ty is not None and I.P.ty[x.ty].get("path")!="std::vec::Vec": x=full(I,st,x)
            f.append(x)
        return A(v.ty,v.var,f,v.meta)
    return v
def numof(I,st,r,name):
    """NumView of the number behind a reference (or a number value)"""
    if type(r) is R:
        v,r2=deref(I,st,r,name)
    else: v,r2=r,None
    if v is None or getattr(v,"ty",None)!=I.tnum: return None,r2
    v=full(I,st,v)
    if type(v) is not A: return None,r2
    if r2 is not None: I.setp(st,r2.loc,r2.proj,v)
    return NumView(I,st,v),r2
def manof(I,st,r,name):
    v,r2=deref(I,st,r,name) if type(r) is R else (r,None)
    if v is None or getattr(v,"ty",None)!=I.tman: return None,r2
    v=full(I,st,v)
    if r2 is not None: I.setp(st,r2.loc,r2.proj,v)
    return v,r2
def signterm(v):
    """0/1 term of a sign value (1: positive)"""
    if type(v) is A: return K(v.var)
    if type(v) is E: return v.sym
    return None
def pos(v): return v
def errval(I,dty,var,payload=()):
    return A(dty,1,(A(I.terr,var,payload),))
OVF,DIV0,INVARG,MEM=0,1,2,3

# ------------------------------------------------------------ error effects
def error_effects(P):
    """per function: set of Error variants it may construct itself or through callees (fixpoint over the call graph)"""
    terr=P.tyid("defs::Error")
    direct={};calls={}
    def scan_const(c,d):
        if not isinstance(c,dict): return
        if c.get("c")=="adt" and c.get("ty")==terr: d.add(c["var"])
        for x in c.get("f",[]) or []: 
            if isinstance(x,dict): scan_const(x,d)
        if isinstance(c.get("v"),dict): scan_const(c["v"],d)
    for i,f in P.fns.items():
        d=set();cs=set()
        def op(o):
            if o.get("o")=="c" and isinstance(o["v"],dict):
                scan_const(o["v"],d)
                c=o["v"]
                if c.get("c") in("fn","closure") and c.get("id"): cs.add(c["id"])
        for b in f["blocks"]:
            for x in b["s"]:
                if "v" in x:
                    v=x["v"]
                    if v["r"]=="agg":
                        if v["k"]=="adt" and v["ty"]==terr: d.add(v["var"])
                        if v["k"]=="closure" and v.get("id"): cs.add(v["id"])
                        for o in v["f"]: op(o)
                    else:
                        for k in("a","b"):
                            if isinstance(v.get(k),dict): op(v[k])
            t=b["t"]
            if t["k"]=="call":
                op(t["f"])
                for o in t["a"]: op(o)
        direct[i]=d;calls[i]=cs
    ch=True
    while ch:
        ch=False
        for i in direct:
            n=set(direct[i])
            for c in calls[i]: n|=direct.get(c,set())
            if n!=direct[i]: direct[i]=n;ch=True
    return direct

# ------------------------------------------------------------ contract table
C=[];C_EXT=[]
def contract(names,cls="Num",argc=None):
    if cls=="Num": r=re.compile(r"(num::BigFloatNumber|.*<impl num::BigFloatNumber>)::(%s)\Z"%names)
    elif cls=="Man": r=re.compile(r"(mantissa::mantissa::Mantissa|.*<impl mantissa::mantissa::Mantissa>)::(%s)\Z"%names)
    else: r=re.compile(names+r"\Z")
    def d(h):
        C.append((lambda c,r=r: bool(r.match(c.get("rpath") or c.get("path") or "")),h)); return h
    return d
def tail(c): return (c.get("rpath") or c.get("path")).split("::")[-1]

@contract(r"common::util::invert_rm_for_sign",cls="")
def c_invert(I,st,c,args,dty,name,d): return None   # inlined: body is branches on the mode

def precision_gate(I,st,p,dty,name,d):
    """(states where p is supported, outcomes where it is not): the library's own precision assertion, analysed"""
    good=[];bad=[]
    if I.limit_fid is None: return [st],[]
    for x,v in I.run(I.limit_fid,[p],st,d+1,name+">plim"):
        v=I.norm(v,x)
        if type(v) is A:
            (good if v.var==0 else bad).append(x if v.var==0 else (x,errval(I,dty,INVARG)))
        else:
            y=x.copy()
            good.append(x); bad.append((y,errval(I,dty,INVARG)))
    return good,bad
def common_errors(I,st,dty,variants,signs=None,name=""):
    out=[]
    for v in variants:
        x=st.copy()
        if v==OVF:
            sg=signs if signs is not None else E(I.tsign,Sym(name+".os",0,1),name+".osg")
            out.append((x,errval(I,dty,OVF,(sg,))))
        else: out.append((x,errval(I,dty,v)))
    return out

def fin_mark(I,p,rm,sg,tested,exact):
    m=[("fin",(words(p),rm,sg,K(1 if tested else 0),K(1 if exact else 0)))]
    return tuple(m)
def finish(I,st,dty,name,p,rm,inx_ops,sign=None,tested=True,exact=True,errs=(MEM,),ovf=None,nonzero=False,meta=None):
    """outcomes of a correctly finished operation"""
    sg=sign if sign is not None else E(I.tsign,Sym(name+".s.#",0,1),name+".s")
    inx=Sym(name+".inx",0,1)
    st.purge(name)
    for x in inx_ops: inx=or_(inx,x)
    t=signterm(sg)
    v=I.fresh_num(st,name,words(p),sg,inx,meta if meta is not None else fin_mark(I,p,rm,t,tested,exact),nonzero)
    out=common_errors(I,st,dty,[e for e in errs],ovf,name)
    out.append((st,ok(dty,v)))
    return out
def isex(st,a):
    """the number is an exact value: an operand, built from exact values only, or its flag is known to be clear"""
    return a.mark("ex") is not None or (a.mark("bad") is None and a.mark("corr") is None and st.iv(a.inx)==(0,0))
def isnone_rm(I,st,rm):
    """True/False/None: is the rounding mode `None`"""
    if type(rm) is A: return rm.var==0
    if type(rm) is E:
        vs=st.vals(rm.sym)
        if vs is not None:
            if 0 not in vs: return False
            if vs=={0}: return True
    return None

def binop(I,st,c,args,dty,name,d):
    a,_=numof(I,st,args[0],name+"a"); b,_=numof(I,st,args[1],name+"b")
    if a is None or b is None: return None
    op=tail(c); fp=op.endswith("_full_prec"); base=op.replace("_full_prec","")
    sa,sb=signterm(a.s),signterm(b.s)
    exact=isex(st,a) and isex(st,b)
    if base in("mul","div"):
        same=eq(sa,sb); sg=I.sign_of(same,name+".s")
    else:
        # equal effective signs: that sign; otherwise unknown
        eff=sb if base=="add" else not_(sb)
        x=st.iv(eq(sa,eff))
        sg=I.sign_of(sa,name+".s") if x==(1,1) else E(I.tsign,Sym(name+".s.#",0,1),name+".s")
    inxs=[a.inx,b.inx]
    outs=[]
    if fp:
        st.purge(name)
        inx=or_(a.inx,b.inx)
        v=I.fresh_num(st,name,None,sg,inx,(("ex",K(1)),) if exact else ())
        outs+=common_errors(I,st,dty,[MEM,OVF],sg,name)
        outs.append((st,ok(dty,v)))
        return outs
    p,rm=args[2],args[3]
    if base=="div":
        z=st.copy()
        if z.refine(eq(b.n,K(0)),True):
            zz=z.copy()
            if zz.refine(eq(a.n,K(0)),True): outs.append((zz,errval(I,dty,INVARG)))
            if z.refine(eq(a.n,K(0)),False): outs.append((z,errval(I,dty,DIV0)))
        if not st.refine(eq(b.n,K(0)),False): return outs
    good,bad=precision_gate(I,st,p,dty,name,d); outs+=bad
    for x in good:
        outs+=finish(I,x,dty,name,p,rm,inxs,sg,False,exact,(MEM,OVF),sg)
    return outs
contract(r"(add|sub|mul|div)|(add|sub|mul)_full_prec")(binop)

@contract("reciprocal")
def c_recip(I,st,c,args,dty,name,d):
    a,_=numof(I,st,args[0],name+"a")
    if a is None: return None
    p,rm=args[1],args[2]; outs=[]
    z=st.copy()
    if z.refine(eq(a.n,K(0)),True): outs.append((z,errval(I,dty,DIV0)))
    if not st.refine(eq(a.n,K(0)),False): return outs
    good,bad=precision_gate(I,st,p,dty,name,d); outs+=bad
    for x in good: outs+=finish(I,x,dty,name,p,rm,[a.inx],a.s,False,isex(st,a),(MEM,OVF),a.s)
    return outs

@contract("rem")
def c_rem(I,st,c,args,dty,name,d):
    a,_=numof(I,st,args[0],name+"a"); b,_=numof(I,st,args[1],name+"b")
    if a is None or b is None: return None
    outs=[]
    z=st.copy()
    if z.refine(eq(b.n,K(0)),True): outs.append((z,errval(I,dty,INVARG)))
    if not st.refine(eq(b.n,K(0)),False): return outs
    ex=a.mark("ex") is not None and b.mark("ex") is not None
    outs+=common_errors(I,st,dty,[MEM,OVF],a.s,name)
    v=I.fresh_num(st,name,None,a.s,or_(a.inx,b.inx),(("ex",K(1)),) if ex else ())
    outs.append((st,ok(dty,v)))
    return outs

ODD=("sin","tan","asin","atan","sinh","tanh","asinh","atanh","cbrt")
DOMAIN=("sqrt","asin","acos","acosh","atanh","ln","log2","log10","log","pow","powi","powsi")
NOOVF=("sqrt","cbrt","ln","log2","log10","sin","cos","asin","acos","atan","tanh","asinh","acosh","atanh","log")
@contract(r"sqrt|cbrt|exp|ln|log2|log10|sin|cos|tan|asin|acos|atan|sinh|cosh|tanh|asinh|acosh|atanh")
def c_fun(I,st,c,args,dty,name,d):
    a,_=numof(I,st,args[0],name+"a")
    if a is None: return None
    p,rm=args[1],args[2]; op=tail(c)
    clob_cc(I,st,args[3:],name)
    sg=None
    if op in("exp","cosh","acos","acosh"): sg=A(I.tsign,1,())
    elif op in ODD or op=="sqrt": sg=a.s
    outs=[]
    errs=[MEM,INVARG]
    if op not in("sqrt","cbrt","sin","cos","asin","acos","atan","tanh"): errs.append(OVF)
    if op=="atanh": errs.append(OVF)
    good,bad=precision_gate(I,st,p,dty,name,d); outs+=bad
    if op in("sin","cos","tan","atan","exp","sinh","cosh","tanh","asinh","cbrt"): errs.remove(INVARG)
    for x in good: outs+=finish(I,x,dty,name,p,rm,[a.inx],sg,True,True,errs,None if op not in("exp","cosh","acosh") else A(I.tsign,1,()))
    return outs
@contract(r"log|pow")
def c_fun2(I,st,c,args,dty,name,d):
    a,_=numof(I,st,args[0],name+"a"); b,_=numof(I,st,args[1],name+"b")
    if a is None or b is None: return None
    p,rm=args[2],args[3]
    clob_cc(I,st,args[4:],name)
    outs=[]
    good,bad=precision_gate(I,st,p,dty,name,d); outs+=bad
    for x in good: outs+=finish(I,x,dty,name,p,rm,[a.inx,b.inx],None,True,True,(MEM,INVARG,DIV0,OVF))
    return outs
@contract(r"powi|powsi")
def c_powi(I,st,c,args,dty,name,d):
    a,_=numof(I,st,args[0],name+"a")
    if a is None: return None
    p,rm=args[2],args[3]
    outs=[]
    good,bad=precision_gate(I,st,p,dty,name,d); outs+=bad
    for x in good: outs+=finish(I,x,dty,name,p,rm,[a.inx],None,True,True,(MEM,OVF,DIV0) if tail(c)=="powsi" else (MEM,OVF))
    return outs
def clob_cc(I,st,rs,name):
    for i,r in enumerate(rs):
        if type(r) is R: I.clobber(st,r,name+".cc%d"%i)
@contract(r"ops::consts::Consts::(pi_num|e_num|ln_2_num|ln_10_num)|ops::consts::\w+::\w+Cache::for_prec",cls="")
def c_const(I,st,c,args,dty,name,d):
    p,rm=args[1],args[2]
    clob_cc(I,st,args[:1],name)
    outs=[]
    good,bad=precision_gate(I,st,p,dty,name,d); outs+=bad
    for x in good: outs+=finish(I,x,dty,name,p,rm,[K(1)],A(I.tsign,1,()),True,True,(MEM,),nonzero=True)
    return outs

@contract("set_precision|try_set_precision")
def c_setp(I,st,c,args,dty,name,d):
    a,r=numof(I,st,args[0],name+"a")
    if a is None or r is None: return None
    p,rm=args[1],args[2]; tr=tail(c)=="try_set_precision"
    outs=[]
    good,bad=precision_gate(I,st,p,dty,name,d); outs+=bad
    t=signterm(a.s)
    ex=isex(st,a); corr=a.mark("corr") is not None
    # the smallest positive number at the working precision stands for a value below everything representable
    tiny=st.iv(a.e)==(EMIN,EMIN) and st.iv(sub(a.n,K(1)))==(0,0)
    for x in good:
        outs+=common_errors(I,x,dty,[MEM] if st.iv(a.n)==(0,0) or isnone_rm(I,st,rm) else [MEM,OVF],a.s,name)
        y=x.copy() if tr else None
        x.purge(name)
        w=words(p)
        inx=or_(a.inx,Sym(name+".inx",0,1))
        # extending the precision never makes a value inexact
        if x.iv(sub(a.len,w))[1]<=0: inx=a.inx
        # a correction below the last bit is dropped: the result is not exact
        if corr and x.iv(sub(a.len,w))[0]>0: inx=TRUE
        # zero stays zero
        zz=x.iv(a.n)
        n=K(0) if zz==(0,0) else Sym(name+".n",0,BLMAX)
        keep=x.iv(sub(a.len,w))[1]<=0 and ex
        if keep: meta=(("ex",K(1)),)
        else:
            m=[("fin",(w,rm,t,K(1 if tr else 0),K(1 if ex else 2 if tiny else 0)))]
            if corr: m.insert(0,("corr",K(1)))
            meta=tuple(m)
        nv=I.num(Sym(name+".e",EMIN,EMAX),a.s,w,n,inx,meta)
        I.setp(x,r.loc,r.proj,nv)
        if not tr: outs.append((x,ok(dty,A(None,0,()))))
        else:
            outs.append((x,ok(dty,TRUE)))
            # refused: only if the value is inexact and the mode is not None
            if x.iv(a.inx)!=(0,0) and isnone_rm(I,y,rm) is not True:
                if y.refine(a.inx,True) or True:
                    I.setp(y,r.loc,r.proj,I.num(Sym(name+".e",EMIN,EMAX),a.s,Sym(name+".m.len",0,LENMAX),Sym(name+".n",0,BLMAX),TRUE,(("bad",K(1)),)))
                    outs.append((y,ok(dty,FALSE)))
    return outs

@contract("add_correction")
def c_corr(I,st,c,args,dty,name,d):
    a,_=numof(I,st,args[0],name+"a")
    if a is None: return None
    outs=common_errors(I,st,dty,[MEM,INVARG],None,name)
    st.purge(name)
    v=I.fresh_num(st,name,add(a.len,K(1)),a.s,a.inx,(("corr",K(1)),))
    outs.append((st,ok(dty,v)))
    return outs

@contract("random_normal")
def c_rand(I,st,c,args,dty,name,d): return None
# ------------------------------------------------------------ mantissa level
@contract("clone",cls="Man")
def c_mclone(I,st,c,args,dty,name,d):
    m,_=manof(I,st,args[0],name)
    if m is None: return None
    return [(st.copy(),errval(I,dty,MEM)),(st,ok(dty,m))]
@contract("abs_cmp",cls="Man")
def c_mcmp(I,st,c,args,dty,name,d):
    a,_=manof(I,st,args[0],name+"a"); b,_=manof(I,st,args[1],name+"b")
    if a is None or b is None: return None
    ida,idb=a.f[1],b.f[1]
    la,lb=a.f[0].f[0].f[0],b.f[0].f[0].f[0]
    x,y=(la,ida),(lb,idb)
    if x==y: return [(st,opaque("mcmp0",(la,ida),-1,1))]
    nz=args[2] if type(args[2]) is T else K(0)
    if (la.uid,ida.uid)<(lb.uid,idb.uid): return [(st,opaque("mcmp",(la,ida,lb,idb,nz),-1,1))]
    return [(st,scale(opaque("mcmp",(lb,idb,la,ida,nz),-1,1),-1))]
@contract("normilize",cls="Man")
def c_mnorm(I,st,c,args,dty,name,d):
    m,_=manof(I,st,args[0],name)
    if m is None: return None
    l=m.f[0].f[0].f[0]
    st.purge(name)
    t=I.P.ty[dty]["args"][0]
    nm=A(I.tman,0,(A(I.tbuf,0,(A(I.tvec,0,(l,),m.f[0].f[0].meta),)),scale(l,WORD)))
    return [(st.copy(),errval(I,dty,MEM)),(st,ok(dty,A(t,0,(Sym(name+".sh",0,BLMAX),nm))))]
@contract("abs_add|abs_sub|mul|div|sqrt|cbrt",cls="Man")
def c_mop(I,st,c,args,dty,name,d):
    op=tail(c)
    a,_=manof(I,st,args[0],name+"a")
    if a is None: return None
    exa=any(k=="ex" for k,_ in a.f[0].f[0].meta); i=1
    if op not in("sqrt","cbrt"):
        b,_=manof(I,st,args[1],name+"b"); i=2
        if b is None: return None
        exa=exa and any(k=="ex" for k,_ in b.f[0].f[0].meta)
    p=args[i]; i+=1
    if op in("abs_add","abs_sub"): i+=1
    rm=args[i]; ispos=args[i+1]; i+=2
    fullp=FALSE
    if op in("abs_add","abs_sub","mul"): fullp=args[i]; i+=1
    inxr=args[i]
    if type(ispos) is not T or type(inxr) is not R: return None
    t=I.P.ty[dty]["args"][0]
    outs=[(st.copy(),errval(I,dty,MEM))]
    for fp in(True,False):
        x=st.copy()
        if not x.refine(fullp,fp): continue
        x.purge(name)
        old=I.getp(x,inxr.loc,inxr.proj,None,name)
        nm="%s.%d"%(name,fp)
        if fp:
            ln=Sym(nm+".m.len",1,LENMAX); meta=(("ex",K(1)),) if exa else ()
            new=old
        else:
            ln=words(p); meta=(("fin",(ln,rm,ispos,K(0),K(1 if exa else 0))),)
            new=or_(old,Sym(nm+".inx",0,1)) if type(old) is T else Sym(nm+".inx",0,1)
        I.setp(x,inxr.loc,inxr.proj,new)
        sh=Sym("%s.%s.sh"%(nm,op),-(1<<62),1<<62)
        x.refine(le(K(-2 if op=="abs_add" else -1),sh),True) if op in("abs_add","mul") else None
        if op in("sqrt","cbrt"): x.refine(le(K(0),sh),True); x.refine(le(sh,K(1)),True)
        n=scale(ln,WORD)
        outs.append((x,ok(dty,A(t,0,(sh,A(I.tman,0,(A(I.tbuf,0,(A(I.tvec,0,(ln,),meta),)),n)))))))
    return outs
@contract("round_mantissa",cls="Man")
def c_mround(I,st,c,args,dty,name,d):
    m,r=manof(I,st,args[0],name)
    if m is None or r is None: return None
    n,rm,ispos,chk,sr,inxr=args[1:7]
    if type(chk) is not R or type(inxr) is not R: return None
    st.purge(name)
    buf=m.f[0]; vec=buf.f[0]; ln=vec.f[0]
    dd=dict(vec.meta)
    old=I.getp(st,inxr.loc,inxr.proj,None,name)
    ck=I.getp(st,chk.loc,chk.proj,None,name)
    outs=[]
    for tested in(0,1,2):
        # 0: not asked; 1: asked and certain; 2: asked and refused
        x=st.copy()
        if type(ck) is T:
            if not x.refine(ck,tested>0): continue
        if tested==2 and isnone_rm(I,x,rm) is True: continue
        rounded=sub(scale(ln,WORD),n)
        meta=(("fin",(words(rounded),rm,ispos if type(ispos) is T else K(0),K(1 if tested==1 else 0),K(1 if "ex" in dd else 0))),)
        if "corr" in dd: meta=(("corr",K(1)),)+meta
        if tested==2: meta=(("bad",K(1)),)
        I.setp(x,r.loc,r.proj,A(m.ty,0,(A(buf.ty,0,(A(vec.ty,0,(ln,),meta),)),m.f[1])))
        nm="%s.%d"%(name,tested)
        I.setp(x,inxr.loc,inxr.proj,or_(old,Sym(nm+".inx",0,1)) if type(old) is T else Sym(nm+".inx",0,1))
        I.setp(x,chk.loc,chk.proj,TRUE if tested==2 else FALSE)
        outs.append((x,FALSE if tested==2 else Sym(nm+".ovf",0,1)))
    return outs
@contract(r"common::buf::WordBuf::(trunc_to|try_extend)",cls="")
def c_btrunc(I,st,c,args,dty,name,d):
    """data is shifted along with the length: the value is unchanged (rounded digits below are zero)"""
    v,r=deref(I,st,args[0],name)
    if v is None or getattr(v,"ty",None)!=I.tbuf: return None
    v=full(I,st,v); vec=v.f[0]
    w=words(args[1])
    nv=A(v.ty,0,(A(vec.ty,0,(w,),vec.meta),))
    if tail(c)=="trunc_to":
        I.setp(st,r.loc,r.proj,nv); return [(st,A(dty,0,()))]
    e=st.copy()
    I.note_alloc(st,c,args,name)
    I.setp(st,r.loc,r.proj,nv)
    return [(e,errval(I,dty,MEM)),(st,ok(dty,A(None,0,())))]
@contract(r"common::buf::WordBuf::(trunc_trailing_zeroes|trunc_leading_zeroes)",cls="")
def c_bzero(I,st,c,args,dty,name,d):
    v,r=deref(I,st,args[0],name)
    if v is None or getattr(v,"ty",None)!=I.tbuf: return None
    v=full(I,st,v); vec=v.f[0]
    st.purge(name)
    w=Sym(name+".l",0,LENMAX)
    st.refine(le(w,vec.f[0]),True)
    I.setp(st,r.loc,r.proj,A(v.ty,0,(A(vec.ty,0,(w,),vec.meta),)))
    return [(st,A(dty,0,()))]
@contract("update_bit_len",cls="Man")
def c_mubl(I,st,c,args,dty,name,d):
    m,r=manof(I,st,args[0],name)
    if m is None or r is None: return None
    st.purge(name)
    n=Sym(name+".n",0,BLMAX)
    st.refine(le(n,scale(m.f[0].f[0].f[0],WORD)),True)
    I.setp(st,r.loc,r.proj,A(m.ty,0,(m.f[0],n)))
    return [(st,A(dty,0,()))]
@contract("normilize2",cls="Man")
def c_mn2(I,st,c,args,dty,name,d):
    m,r=manof(I,st,args[0],name)
    if m is None or r is None: return None
    st.purge(name)
    I.setp(st,r.loc,r.proj,A(m.ty,0,(m.f[0],scale(m.f[0].f[0].f[0],WORD))))
    return [(st,Sym(name+".sh",0,BLMAX))]
@contract("shift_right|shift_left",cls="Man")
def c_msh(I,st,c,args,dty,name,d):
    # digits move, quality of the value is unaffected (exponent is adjusted by the caller)
    return [(st,A(dty,0,()))]
@contract("find_bit_len",cls="Man")
def c_mfbl(I,st,c,args,dty,name,d):
    st.purge(name); return [(st,Sym(name+".n",0,BLMAX))]
@contract("rem|mul_mod|pow_mod",cls="Man")
def c_mrem(I,st,c,args,dty,name,d):
    a,_=manof(I,st,args[0],name)
    ex=a is not None and any(k=="ex" for k,_ in a.f[0].f[0].meta)
    e=st.copy(); st.purge(name)
    return [(e,errval(I,dty,MEM)),(st,ok(dty,I.man(Sym(name+".l",0,LENMAX),Sym(name+".n",0,BLMAX),(("ex",K(1)),) if ex else ())))]
@contract("is_odd_int|is_all_zero",cls="Man")
def c_modd(I,st,c,args,dty,name,d):
    st.purge(name); return [(st,Sym(name+".b",0,1))]
# constructors of exact mantissas
@contract("new|oned_mantissa|min|from_word|from_words|from_usize|from_u64|from_raw_parts",cls="Man")
def c_mnew(I,st,c,args,dty,name,d):
    return mnew(I,st,c,args,dty,name,d)
def mnew(I,st,c,args,dty,name,d):
    op=tail(c); t=I.P.ty[dty]["args"][0]
    outs=[(st.copy(),errval(I,dty,MEM))]
    I.note_alloc(st,c,args,name)
    st.purge(name)
    ex=(("ex",K(1)),)
    if op in("from_usize",): 
        outs.append((st,ok(dty,A(t,0,(Sym(name+".sh",0,64),I.man(K(1),Sym(name+".n",0,64),ex)))))); return outs
    if op=="from_u64":
        l=words(args[0])
        z=st.copy()
        if z.refine(lt(l,K(1)),True): outs.append((z,errval(I,dty,INVARG)))
        if not st.refine(le(K(1),l),True): return outs
        outs.append((st,ok(dty,A(t,0,(Sym(name+".sh",0,64),I.man(l,scale(l,WORD),ex)))))); return outs
    if op=="from_raw_parts":
        l=models.slicelen(I,st,args[0],name)
        outs.append((st,ok(dty,I.man(l,args[1],ex)))); return outs
    l=words(args[0])
    if op=="new": n=K(0)
    elif op=="min": n=K(1)
    elif op=="oned_mantissa": n=scale(l,WORD)
    else: n=Sym("%s.%s.n"%(name,op),1 if op!="from_words" else 0,BLMAX)
    if op in("from_word","from_words"): st.refine(le(n,scale(l,WORD)),True)
    outs.append((st,ok(dty,I.man(l,n,ex))))
    return outs
# ------------------------------------------------------------ predefined constants
@contract(r"<(common::consts|ext)::\w+ as (std|core)::ops::Deref>::deref",cls="")
def c_lazy(I,st,c,args,dty,name,d):
    nm=c["rpath"].split(" as ")[0].split("::")[-1]
    loc=("H","static:"+nm)
    t=I.P.ty[dty]["to"]
    if loc not in st.mem:
        if t==I.tnum:
            st.mem[loc]=I.num(Sym("const:%s.e"%nm,0,64),A(I.tsign,1,()),K(2),Sym("const:%s.n"%nm,128,128),FALSE,(("ex",K(1)),))
        else: st.mem[loc]=L(t,"const:"+nm)
    return [(st,R(loc,(),False))]
