"""Outcome of a BigFloat operation for each combination of operand classes."""
from ops import *
INV,MEM_=2,3
class CO(CI):
    absone=False; par=False; par_ops=()
    """comparison of an operand with the constant one, and the parity test, are split on beforehand"""
    def __init__(s,*a,**k):
        rid=k.get("target")
        if "target" in k: del k["target"]
        s.target=rid
        k["over"]=tuple(k.get("over",()))+((lambda c: bool(re.search(r"BigFloatNumber>?::(ln|log2|log10)\Z",c.get("rpath") or c.get("path") or "")),o_log),)
        if rid is not None: k["over"]=tuple(k.get("over",()))+((lambda c: c.get("id")==rid,o_target),)
        k["over"]=tuple(k.get("over",()))+((lambda c: bool(re.search(r"num::BigFloatNumber::(cmp|abs_cmp|is_odd_int|is_int)\Z",c.get("rpath") or c.get("path") or "")),o_cmp),(lambda c: bool(re.search(r"num::BigFloatNumber::from_word\Z",c.get("rpath") or c.get("path") or "")),o_word))
        CI.__init__(s,*a,**k)
def o_log(I,st,c,args,dty,name,d):
    """logarithm of an argument outside the domain (established on the logarithms' own bodies)"""
    if c.get("id")==I.target: return o_target(I,st,c,args,dty,name,d)
    n,_=numof(I,st,args[0],name+"a")
    if n is None: return None
    s=signs(I,st,n.s)
    if s=={"-"} or st.iv(n.n)==(0,0): return [(st,A(dty,1,(A(I.terr,INV,()),)))]
    for p,h in I.models:
        if h not in(o_log,o_target) and p(c): return h(I,st,c,args,dty,name,d)
    return None
def o_target(I,st,c,args,dty,name,d):
    """the operation under analysis is entered; its contract serves only for calls it makes to itself"""
    if d<=2: return None
    for p,h in I.models:
        if h is not o_target and p(c): return h(I,st,c,args,dty,name,d)
    return None
def o_word(I,st,c,args,dty,name,d):
    """a number made from a constant word: its exponent is the constant's bit length"""
    if not(type(args[0]) is T and args[0].op=="k" and args[0].args[0]>0): return None
    good,bad=precision_gate(I,st,args[1],dty,name,d)
    outs=list(bad)
    for x in good:
        for y,v in finish(I,x,dty,name,args[1],None,[FALSE],A(I.tsign,1,()),nonzero=True,meta=(("ex",1),)):
            w=v.f[0] if type(v) is A and v.var==0 else None
            if w is not None and not y.refine(eq(NumView(I,y,w).e,K(args[0].args[0].bit_length())),True): continue
            outs.append((y,v))
    return outs
def isone(r): return type(r) is R and r.loc[0]=="H" and "ONE" in str(r.loc[1])
def opname(I,st,r):
    n,_=numof(I,st,r,"q")
    if n is not None and type(n.e) is T and n.e.op=="s" and n.e.args[0].endswith(".e"): return n.e.args[0][:-2]
    return None
def o_cmp(I,st,c,args,dty,name,d):
    q=(c.get("rpath") or c.get("path"))
    if q.endswith("::is_int"):
        a=opname(I,st,args[0]) if I.par else None
        return [(st,Sym(a+".int",0,1))] if a in I.par_ops else None
    if q.endswith("is_odd_int"):
        a=opname(I,st,args[0])
        return [(st,Sym(a+".odd",0,1))] if a else None
    for i,j,sg in((0,1,1),(1,0,-1)):
        if isone(args[j]):
            a=opname(I,st,args[i])
            if a:
                t=Sym(a+".cmp1",-1,1)
                if I.absone or a in I.par_ops:
                    # relation of the magnitude to one; the sign settles the rest
                    t=Sym(a+".abs1",-1,1)
                    if not q.endswith("abs_cmp"):
                        outs=[]; sgn=Sym(a+".s.#",0,1)
                        for v in(True,False):
                            y=st.copy()
                            if y.refine(sgn,v) and y.settle(): 
                                w=t if v else K(-1)
                                outs.append((y,w if sg==1 else sub(K(0),w)))
                        return outs
                elif q.endswith("abs_cmp"): return None
                return [(st,t if sg==1 else sub(K(0),t))]
    return None
def fine(I,nm,kind):
    """classes of operand nm; kind None, 'one' (relation to 1), 'odd' (parity), 'e' (exponent positive or not)"""
    r=[]
    V=classes(I,nm,True)
    for lab,cs in V:
        if kind is None or lab in("NaN","+Inf","-Inf"): r.append((lab,cs)); continue
        if kind=="one":
            t=Sym(nm+".cmp1",-1,1)
            if lab!="pos": r.append((lab,cs+[(eq(t,K(-1)),True)])); continue
            for l,v in(("pos<1",-1),("pos=1",0),("pos>1",1)): r.append((l,cs+[(eq(t,K(v)),True)]))
        elif kind=="abs1":
            t=Sym(nm+".abs1",-1,1); e=Sym(nm+".e",EMIN,EMAX)
            if lab in("+0","-0"): r.append((lab,cs+[(eq(t,K(-1)),True)])); continue
            for l,v,c in(("<1",-1,le(e,K(0))),("=1",0,eq(e,K(1))),(">1",1,le(K(1),e))): r.append((lab+l,cs+[(eq(t,K(v)),True),(c,True)]))
        elif kind=="par":
            t=Sym(nm+".odd",0,1); u=Sym(nm+".int",0,1)
            if lab in("+0","-0"): r.append((lab,cs+[(t,False),(u,True)]))
            else: r+=[(lab+" odd",cs+[(t,True),(u,True)]),(lab+" even",cs+[(t,False),(u,True),(eq(Sym(nm+".abs1",-1,1),K(0)),False)]),(lab+" frac",cs+[(t,False),(u,False),(eq(Sym(nm+".abs1",-1,1),K(0)),False)])]
        elif kind=="odd":
            t=Sym(nm+".odd",0,1)
            if lab in("+0","-0"): r.append((lab,cs+[(t,False)]))
            else: r+=[(lab+" odd",cs+[(t,True)]),(lab,cs+[(t,False)])]
        elif kind=="e":
            t=Sym(nm+".e",EMIN,EMAX)
            if lab=="pos": r+=[("pos<1",cs+[(le(t,K(0)),True)]),("pos>=1",cs+[(le(K(1),t),True)])]
            else: r.append((lab,cs))
    return r
def tok(I,x,v,P,one=True):
    """outcome tokens of a result value"""
    v=I.norm(v,x); o=set()
    ty=getattr(v,"ty",None)
    if ty==P.tyid("ext::BigFloat"):
        for y,k,w in flavs(I,x,v):
            if k=="Inf": o|={s+"Inf" for s in signs(I,y,w)}
            elif k=="NaN":
                t=nantok(I,y,w); o|=t if type(t) is set else {t}
            elif k=="Value":
                iv=y.iv(w.n)
                e=y.iv(w.e)
                z="0" if iv==(0,0) else "v" if iv[0]>0 else "?"
                if z=="v" and e==(1,1) and one: z="1"
                o|={s+z for s in signs(I,y,w.s)}
            else: o.add("?")
        return o
    return {"?"}
def feasible(x,sym,i):
    y=x.copy(); return bool(y.refine(eq(sym,K(i)),True))
def nantok(I,x,w):
    w=I.norm(w,x)
    if type(w) is E or type(w) is L:
        n=str(w.sym if type(w) is E else w)
        m=re.match(r"([a-h])\.NaN",n)
        if m: return "NaN:"+m.group(1)
        return "NaN:?"
    if type(w) is A:
        if w.var==0: return "NaN:none"
        e=I.norm(w.f[0],x)
        if type(e) is A: return "NaN:err%d"%e.var
        m=re.match(r"[^a-z]*([a-h])\.NaN",str(e))
        if m: return "NaN:"+m.group(1)
        if type(e) is E:
            a,b=x.iv(e.sym)
            if a==b: return "NaN:err%d"%a
            if 0<=a and b<=3: return {"NaN:err%d"%i for i in range(a,b+1) if feasible(x,e.sym,i)}
        return "NaN:err?"
    return "NaN:?"
def runs(P,fn,cls=CO,kinds={},skip=None,budget=900000,ext=True,extra=None,root=None):
    """yields (labels, interpreter, outcomes [(state,value)] or None, error)"""
    ops=extops(P,fn)
    pi,rmi=pargs(P,fn)
    I=cls(P,root=fn["id"],target=root,ext=ext); st=State(); I.absone="abs1" in kinds.values()
    I.par_ops=[q for q in kinds if kinds[q]=="par"]; I.par=bool(I.par_ops)
    p=Sym("p",0,(1<<64)-1)
    if pi is None and fn["path"].endswith("set_precision"): pi=1
    def hk(i,nm,ty,st):
        if i==pi: return p
        if i==rmi: return E(I.trm,Sym("rm.#",0,6),"rm")
        return None
    args=mkargs(I,st,fn,hook=hk)
    for q in ops: consistent(st,q)
    I.pinned=set("abcdefgh"[:fn["argc"]])|{"p","rm"}
    sts=[st]
    if pi is not None:
        sts=[]; st.refine(le(K(1),p),True)
        for x,v in I.run(I.limit_fid,[p],st,1,"gate"):
            v=I.norm(v,x)
            if type(v) is A and v.var==0: sts.append(x)
    for s0 in sts:
        for labs,x in splits(s0,[fine(I,q,kinds.get(q)) for q in ops]+([extra(args)] if extra else [])):
            if skip is not None and skip(labs): continue
            I.budget=budget
            try: yield labs,I,I.run(fn["id"],list(args),x),None
            except Abort as e: yield labs,I,None,str(e)
            except (KeyError,IndexError,AttributeError,TypeError,ValueError,RecursionError) as e: yield labs,I,None,"not analysable: %r"%e

SP=("NaN","+Inf","-Inf")
def outcomes(P,fn,nf,kinds,skip=lambda l:bool(set(l)&set(SP)),extra=None):
    """finite operand classes with the body of the number-level operation: (labels, tokens or None, error)"""
    for labs,I,outs,err in runs(P,fn,kinds=kinds,root=nf and nf["id"],skip=skip,budget=3000000,extra=extra):
        if err: yield labs,None,err,I; continue
        got=set()
        for x,v in outs: got|=tok(I,x,v,P)
        yield labs,got,None,I
def powi_extra(args):
    n=args[1]
    return [("n=0",[(eq(n,K(0)),True)]),("odd",[(eq(n,K(0)),False),(eq(rem(n,K(2)),K(1)),True)]),("even",[(eq(n,K(0)),False),(eq(rem(n,K(2)),K(0)),True)])]
def isval(t): return t[0] in "+-" and t[1:] in("0","1","v","?")
