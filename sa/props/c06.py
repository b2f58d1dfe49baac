"""C06: inexactness of an operand is never forgotten."""
from ops import *
from report import Report
RULE=("Interprocedural abstract interpretation (boolean dataflow of the inexact flag with path conditions) of every operation on "
 "symbolic operands, once per operand with that operand's flag set: at every successful return the flag of the result must be "
 "set on that path, except where the operand does not influence the value (exact zero factor or dividend, zeroth power, zero base, "
 "dividend returned as the remainder). The mantissa operations are separately shown never to clear the accumulator they are given.")
def z(x,nm): return x.iv(Sym(nm+".n",0,BLMAX))==(0,0)
def zero_possible(x,nm): return x.iv(Sym(nm+".n",0,BLMAX))[0]==0
def exempt(x,op,o,other,v,r,args):
    """the operand does not influence the value on this path"""
    if op in("mul","mul_full_prec","div"):
        if op=="div" and o=="a": return False
        return z(x,other) and x.iv(Sym(other+".inx",0,1))==(0,0)
    if op in("powi","powsi"):
        n=args[1]
        return type(n) is T and x.iv(n)==(0,0)
    if op=="pow":
        if o=="a": return z(x,"b") and x.iv(Sym("b.inx",0,1))==(0,0)
        return z(x,"a") or is_one(x,"a")
    if op=="rem": return o=="b" and type(v.n) is T and repr(v.n)=="a.n"
    return False
def is_one(x,nm):
    """the path has established that the magnitude of the operand equals a constant's (1 to any power is 1)"""
    n=Sym(nm+".n",0,BLMAX)
    return any(a.op=="mcmp" and n in a.args and x.iv(a)==(0,0) for t in x.dom for a in atoms(t))
def cases(x,other):
    """split on the other operand's flag and on whether it is zero"""
    if other is None: return [x]
    out=[]
    for inx in(True,False):
        y=x.copy()
        if not y.refine(Sym(other+".inx",0,1),inx): continue
        for zz in(True,False):
            w=y.copy()
            if w.refine(eq(Sym(other+".n",0,BLMAX),K(0)),zz) and w.settle(): out.append(w)
    return out
def run(tier):
    P=prog(); rep=Report("C06",RULE)
    names=UN+UNC+BIN+BINC+POW+FULL+MISC
    cnt=0
    for n in names:
        fn=numfn(P,n)
        if not fn: rep.undecided("operation %s not found"%n); continue
        cnt+=1; rep.unit(fn["path"])
        os_=operands(P,fn)
        for o in os_:
            other=next((q for q in os_ if q!=o),None)
            r=run_op(P,fn,inx={o:True},budget=4000000)
            rep.fns|=r.I.stats["fns"]
            if r.err: rep.undecided("%s: %s"%(fn["path"],r.err)); continue
            k=0
            for x,kind,v,e in results(r):
                if kind=="?": rep.undecided("%s: result not identified"%fn["path"]); continue
                if kind!="ok": continue
                if x.iv(v.inx)==(1,1): rep.ok("%s: operand %s inexact -> result marked"%(fn["path"],o)); continue
                for y in cases(x,other):
                    iv=y.iv(v.inx)
                    if iv==(1,1): rep.ok(); continue
                    if exempt(y,n,o,other,v,r,r.args): rep.ok("%s: operand %s has no influence"%(fn["path"],o)); continue
                    k+=1
                    w=witness(y,v,os_)
                    rep.bad("%s | operand %s | %s"%(fn["path"],o,w),"%s: a path returns a result whose inexact flag %s although operand %s is inexact (%s)"%(fn["path"],"is clear" if iv==(0,0) else "can be clear ("+str(v.inx)[:60]+")",o,w))
    rep.count("operations",cnt)
    if cnt<35: rep.bad("floor","only %d of the operations were found"%cnt)
    mantissa(rep,P)
    return rep
def witness(y,v,os_):
    d=[]
    for q in os_:
        if z(y,q): d.append("%s=0"%q)
        elif not zero_possible(y,q): d.append("%s!=0"%q)
    if z2(y,v): d.append("result zero")
    return ", ".join(d) or "any operands"
def z2(y,v):
    return type(v.n) is T and y.iv(v.n)==(0,0)
def mantissa(rep,P):
    fs=boolacc(P)
    for f,ix in fs:
        rep.unit(f["path"])
        I=CI(P,root=f["id"]); I.budget=2000000; st=State(); loc=[None]
        def hk(i,nm,ty,st):
            s=P.tys(ty)
            if s=="&mut bool":
                l=("H",nm); st.mem[l]=Sym(nm+".b",0,1)
                if i==ix: loc[0]=l; st.mem[l]=K(1)
                return R(l,(),True)
            if s in("&mantissa::mantissa::Mantissa","&mut mantissa::mantissa::Mantissa"):
                l=("H",nm); st.mem[l]=I.man(Sym(nm+".len",0,LENMAX),Sym(nm+".n",0,BLMAX),(("ex",K(1)),)); return R(l,(),True)
        args=mkargs(I,st,f,hook=hk)
        try: outs=I.run(f["id"],args,st)
        except Abort as e: rep.undecided("%s: %s"%(f["path"],e)); continue
        except (KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(f["path"],e)); continue
        rep.fns|=I.stats["fns"]
        for x,v in outs:
            b=x.mem[loc[0]]
            iv=x.iv(b) if type(b) is T else None
            if iv==(1,1): rep.ok("%s keeps a set inexact accumulator"%f["path"])
            elif iv is None: rep.undecided("%s: accumulator not tracked"%f["path"])
            else: rep.bad("%s | accumulator"%f["path"],"%s: a path clears the inexact flag it was given"%f["path"])
    rep.count("mantissa_operations",len(fs))
    if len(fs)<6: rep.bad("floor mantissa","only %d mantissa operations with an inexact accumulator found"%len(fs))
