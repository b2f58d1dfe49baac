"""C22: signs of results."""
from oc import *
from report import Report
import c02
from c02 import sg,zero
RULE=("Abstract interpretation of each operation (BigFloat method with the body of the number-level operation, or the number-level operation alone) once per combination of the signs of its finite operands, zeros apart, "
 "for all precisions, modes and remaining state: every possible finite or infinite outcome must have the sign that the function's symmetry gives, and zero arguments must give the function's value at zero.")
KEEP0=["sqrt","cbrt","sin","tan","asin","atan","sinh","tanh","asinh","atanh","int","fract","ceil","floor","round"]
ONE0=["cos","cosh","exp"]
SAME=["cbrt","int","fract","ceil","floor","round","reciprocal"]
def spec(n,l):
    """(sign, kind) with kind '0' zero, '1' one, '*' anything; None: not determined by symmetry"""
    a=l[0]; s=sg(a)
    if n=="abs": return 1,"0" if zero(a) else "*"
    if n=="neg": return -s,"0" if zero(a) else "*"
    if n in KEEP0 and zero(a): return s,"0"
    if n in ONE0 and zero(a): return 1,"1"
    if n=="sqrt" and a=="pos": return 1,"*"
    if n in SAME: return s,"*"
    if n=="signum" and not zero(a): return s,"1"
    if n in("mul","mul_full_prec"): return s*sg(l[1]),"0" if zero(a) or zero(l[1]) else "*"
    if n=="div":
        if zero(l[1]) and zero(a): return None
        return s*sg(l[1]),"0" if zero(a) else "*"
    if n=="rem":
        if zero(l[1]): return None
        return s,"0" if zero(a) else "*"
    if n in("add","add_full_prec") and not zero(a) and sg(l[1])==s: return s,"*"
    if n in("sub","sub_full_prec") and not zero(a) and sg(l[1])==-s: return s,"*"
    if n=="pow":
        b=l[1]
        if zero(b): return 1,"1"
        if zero(a): return (s if b.endswith("odd") else 1),"0" if b.startswith("pos") else "*"
        if a=="pos": return (1,"*") if b.startswith("pos") else (1,"v")
        if b.endswith("frac"): return None
        return (-1 if b.endswith("odd") else 1),"*" if b=="pos odd" else "v"
    if n in("powi","powsi"):
        if l[1]=="n=0": return 1,"1"
        if a=="neg": return None    # the sign accumulated by the multiplications follows the digits of the exponent
        return (s if "odd" in l[1] else 1),"0" if zero(a) and not "neg" in l[1] else "*"
    return None
def judge(rep,n,path,l,got,e):
    lab="%s(%s)"%(n,", ".join(l)); s,k=e
    if "?" in got: rep.undecided("%s: outcome %s"%(lab,sorted(got))); return
    c="+" if s>0 else "-"; w="-" if s>0 else "+"
    num=[t for t in got if t[0] in "+-" and not(k=="v" and t[1:]=="Inf")]
    bad=[t for t in num if t[0]==w]
    if k=="0": bad+=[t for t in num if t[0]==c and t[1:]!="0" and t[1:]!="Inf"]
    if k=="1": bad+=[t for t in num if t[0]==c and t[1:]!="1"]
    if not num: rep.undecided("%s: no number among %s"%(lab,sorted(got))); return
    what={"0":c+"0","1":c+"1"}.get(k,"positive" if s>0 else "negative")
    if bad: rep.bad("%s | %s"%(path,lab),"%s must be %s, but %s is possible"%(lab,what,", ".join(sorted(bad))))
    else: rep.ok("%s: %s"%(lab,what))
def powi_extra(args):
    n=args[1]; o=eq(rem(n,K(2)),K(1))
    return [("n=0",[(eq(n,K(0)),True)]),("odd",[(eq(n,K(0)),False),(o,True)]),("even",[(eq(n,K(0)),False),(eq(rem(n,K(2)),K(0)),True)])]
# sign of the result for operands that are not zero, from the range of the function
ODD=["sinh","tanh","asinh","atanh","asin","atan"]
POSV=["cosh","exp","acos","acosh"]
SMALL=["sin","tan"]   # near zero only: the shortcut for small arguments is the only exit whose sign does not depend on digits
def nonzero(rep,P,n,fn,nf):
    """every exit whose sign is known, whatever the digits, must have the function's sign; exits whose sign is an opaque
    result of inner operations are left to N04"""
    for labs,I,outs,err in runs(P,fn,root=nf and nf["id"],skip=lambda l:l[0] not in("pos","neg"),budget=3000000):
        lab="%s(%s)"%(n,", ".join(labs))
        if err: rep.undecided("%s: %s"%(lab,err)); continue
        rep.fns|=I.stats["fns"]
        want="+" if n in POSV else "+" if sg(labs[0])>0 else "-"
        bad=set(); ok_=set(); amb=0
        for x,v in outs:
            t={q for q in tok(I,x,v,P) if q[0] in "+-" and not(q[1:]=="Inf" and n!="cosh") and not q[1:]=="0"}
            if not t: continue
            if len({q[0] for q in t})>1: amb+=1; continue
            (ok_ if all(q[0]==want for q in t) else bad).update(t)
        if bad: rep.bad("%s | %s"%(fn["path"],lab),"%s must be %s, but %s is possible on an exit of its own"%(lab,"positive" if want=="+" else "negative",", ".join(sorted(bad))))
        for q in sorted(ok_): rep.ok("%s: exits with %s have the function's sign"%(lab,q))
        if not ok_ and not bad and not amb and n not in("acosh","acos"): rep.undecided("%s: no number among the outcomes"%lab)
def run(tier):
    P=prog(); rep=Report("C22",RULE); cnt=0
    for n in c02.UN1+c02.BI+["powi"]:
        fn=extfn(P,n); nf=numfn(P,n)
        if not fn: rep.bad("missing %s"%n,"BigFloat::%s not found"%n); continue
        sp=lambda l:spec(n,l)
        k={"pow":{"b":"par"}}.get(n,{})
        any_=False
        for labs,got,err,I in outcomes(P,fn,nf,k,skip=lambda l:bool(set(l)&set(SP)) or(n not in("powi",) and sp(l) is None),extra=powi_extra if n=="powi" else None):
            rep.fns|=I.stats["fns"]; any_=True
            if err: rep.undecided("%s(%s): %s"%(n,", ".join(labs),err)); continue
            if spec(n,labs) is not None: judge(rep,n,fn["path"],labs,got,spec(n,labs))
        if n in ODD+POSV+SMALL: nonzero(rep,P,n,fn,nf); any_=True
        if any_: rep.unit(fn["path"]); cnt+=1
    rep.count("operations",cnt)
    if cnt<30: rep.bad("floor","only %d operations found"%cnt)
    return rep
