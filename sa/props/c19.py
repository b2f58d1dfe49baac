"""C19: exponents are narrowed to their storage type only within range."""
from ops import *
from report import Report
RULE=("Abstract interpretation of every operation and conversion with symbolic operands: at each narrowing cast of a signed value to the type exponents are stored in, and at each addition, subtraction, multiplication or negation in that type, "
 "the interval of the value, under the conditions of the path, lies within the type. A violation is reported when the value is a linear combination of the operands' own exponents, sizes and the precision "
 "(digit shifts, which can all be zero, set to zero) and leaves the type on a path nothing rules out.")
LW=1<<24      # assumed bound on operand lengths, in words
LP=1<<30      # assumed bound on precisions and digit counts, in bits
I32=(-(1<<31),(1<<31)-1)
OPSYM=re.compile(r"(?:[a-d]\.(?:e|len|n|slen)|p|[a-h]|v|.*\.from_words\.n)\Z")
SHIFT=re.compile(r".*\.sh\Z")
# shifts reported by the digit kernels: values that certainly occur for operands of any exponent
ATT={"abs_add":(-1,0),"abs_sub":(0,63),"mul":(0,1),"div":(0,1)}
class C19(CI):
    def __init__(s,*a,**k):
        CI.__init__(s,*a,**k); s.oncast=s.incast; s.onpanic=s.inpanic; s.oncall=s.incall; s.site={}; s.bad={}; s.open={}
    def classkey(s,st):
        # paths on which a flag that is still in a variable is known to be different are kept apart
        fl=[]
        for l,v in st.mem.items():
            if type(v) is T and v.op=="s" and v.args[1:3]==(0,1):
                k=st.const(v)
                if k is not None: fl.append((l,k))
        return CI.classkey(s,st)+tuple(sorted(fl,key=str))
    def incall(s,st,fn,b,c,args,ctx,depth):
        p=c.get("rpath") or c.get("path") or ""
        if p.endswith("::find_one_from") and type(args[-1]) is T:
            t=s.placety(fn,fn["blocks"][b]["t"]["p"])
            pos=Sym(ctx+".pos",0,WORD*LW)
            x=st.copy(); out=[(x,A(t,0,()))]
            st.purge(ctx)
            if st.refine(le(args[-1],pos),True): out.append((st,A(t,1,(pos,))))
            return out
        return None
    def incast(s,st,fn,a,iv,rng,ctx):
        if rng!=I32 or not s.P.ty[s.castsrc].get("signed"): return
        s.rec(st,fn,"a narrowing cast",a,iv)
    def rec(s,st,fn,kind,a,iv):
        if not st.settle(): return
        key=(fn["path"],kind)
        lo,hi=bound(st,a)
        if lo>=I32[0] and hi<=I32[1]: return
        w=s.witness(st,a)
        if w: s.bad.setdefault(key,w)
        else: s.open.setdefault(key,str(a)[:200])
    def witness(s,st,a):
        L={}; leaves(a,L)
        sh=[t for n,t in L.items() if SHIFT.match(n)]
        if not plain(a): return None
        if any(not OPSYM.match(n) and not SHIFT.match(n) for n in L): return None
        x=st.copy()
        for z in sh:
            u,v=ATT.get(z.args[0].split(".")[-2],(0,0))
            if not(x.refine(le(K(u),z),True) and x.refine(le(z,K(v)),True)): return None
        if not x.settle(): return None
        lo,hi=bound(x,a)
        if hi>I32[1]: return "can be as large as %d: %s"%(hi,a)
        if lo<I32[0]: return "can be as small as %d: %s"%(lo,a)
        return None
    def inpanic(s,st,fn,b,kind,depth,ctx,c,want):
        o=findovf(c)
        if o is not None and (o.args[1],o.args[2])==I32: s.rec(st,fn,str(kind),o.args[0],None)
def bound(st,a,d=2):
    """interval of a linear term, using the relations known on the path"""
    lo,hi=st.iv(a)
    if d==0 or a.op!="lin": return lo,hi
    mine=dict(a.args[1])
    for f in st.dom:
        if f.op!="lin" or lo>=I32[0] and hi<=I32[1]: continue
        fs=dict(f.args[1]); com=[q for q in fs if q in mine]
        if len(com)<2: continue
        for k in {mine[q]//fs[q] for q in com if mine[q]%fs[q]==0}:
            r=lincomb(a,1,f,-k)
            n=len(r.args[1]) if r.op=="lin" else 1
            if n>=len(a.args[1])+(len(fs)-len(com)): continue
            x=st.iv(scale(f,k)); y=bound(st,r,d-1)
            lo=max(lo,x[0]+y[0]); hi=min(hi,x[1]+y[1])
    return lo,hi
def plain(t):
    """linear in its symbols, up to divisions by constants and masks of bits"""
    if t.op in("k","s"): return True
    if t.op=="lin": return all(plain(q) for q,_ in t.args[1])
    if t.op in("div","band","rem"): return isk(t.args[1]) and plain(t.args[0])
    return False
def leaves(t,L):
    if t.op=="s": L[t.args[0]]=t
    elif t.syms:
        for a in t.args:
            if type(a) is T: leaves(a,L)
            elif type(a) is tuple:
                for q in a:
                    q=q[0] if type(q) is tuple else q
                    if type(q) is T: leaves(q,L)
def findovf(t):
    if type(t) is not T: return None
    if t.op=="ovf": return t
    for a in t.args:
        o=findovf(a)
        if o is not None: return o
    return None
CONV=["set_exponent","set_precision","from_words","from_raw_parts","from_word","from_u128","from_i128","from_usize","from_u64_internal","convert_from_radix","convert_to_radix","ulp","min_positive","max_value","min_value","min_positive_normal"]
def sites(P,f):
    """narrowing casts of signed values and arithmetic in the exponents' type"""
    n=0
    for b in f["blocks"]:
        for q in b["s"]:
            v=q.get("v")
            if not v: continue
            if v["r"]=="cast" and v["k"]=="IntToInt" and P.tys(v["ty"])=="i32":
                a=v["a"]; t=a.get("ty") if a["o"]=="c" else (f["locals"][a["p"][0]] if len(a["p"])==1 else None)
                if t is None or P.tys(t) in("isize","i64","i128"): n+=1
            elif v["r"]=="bin" and v["op"].endswith("WithOverflow") and any(a["o"]!="c" and len(a["p"])==1 and P.tys(f["locals"][a["p"][0]])=="i32" or a["o"]=="c" and P.tys(a["ty"])=="i32" for a in(v["a"],v["b"])): n+=1
    return n
def run(tier):
    rep=Report("C19",RULE); P=prog()
    rep.assume=["operands have at most 2^30 bits and precisions are at most 2^30 bits (mantissas of more than 128 MiB are not considered)",
                "casts of unsigned sizes (bit counts of a mantissa) to the exponents' type are covered by that assumption and are not obligations"]
    seen=set(); bad={}; opn={}
    for n in UN+UNC+BIN+BINC+POW+FULL+MISC+CONV:
        try: fn=numfn(P,n)
        except Exception: fn=None
        if fn is None:
            if n in CONV: continue
            rep.bad("missing %s"%n,"operation %s not found"%n); continue
        rep.unit(fn["path"])
        def pre(I,x):
            r=x.refine(le(Sym("a.slen",0,(1<<63)-1),K(LW)),True)
            if any(P.tys(t)=="usize" for t in fn["locals"][1:fn["argc"]+1]): r=x.refine(le(Sym("p",0,(1<<64)-1),K(LP)),True)
            for o in "ab":
                if ("H",o) in x.mem: r=r and x.refine(le(Sym(o+".len",0,LENMAX),K(LW)),True)
            return r
        r=run_op(P,fn,cls=C19,budget=4000000,pre=pre)
        if r.err: rep.undecided("%s: %s"%(fn["path"],r.err))
        seen|=r.I.stats["fns"]; rep.fns|=r.I.stats["fns"]
        for k,v in r.I.bad.items(): bad.setdefault(k,[]).append((n,v))
        for k,v in r.I.open.items(): opn.setdefault(k,[]).append((n,v))
    tot=0; by={}
    for q in seen:
        f=P.fns.get(q) or (P.bypath.get(q) or [None])[0]
        if f: by[f["path"]]=sites(P,f); tot+=by[f["path"]]
    for p,k in sorted(by.items()):
        b=[x for x in bad if x[0]==p]; o=[x for x in opn if x[0]==p and x not in bad]
        for _ in range(max(0,k-len(b)-len(o))): rep.ok("%s: %d places where an exponent is computed or narrowed"%(p,k))
    for (p,kind),l in sorted(bad.items()): rep.bad("%s | %s"%(p,kind),"%s: %s may not fit the exponent's type: %s (in %s)"%(p,kind,l[0][1][:200],", ".join(sorted({a for a,_ in l}))))
    for (p,kind),l in sorted(opn.items()):
        if (p,kind) not in bad: rep.undecided("%s: %s of %s (in %s)"%(p,kind,l[0][1][:160],", ".join(sorted({a for a,_ in l}))))
    rep.count("places",tot)
    if tot<24: rep.bad("floor places","only %d places found where exponents are computed"%tot)
    return rep
