"""C12: the expr! macro builds the computation its input denotes."""
import os,re,hashlib
from fractions import Fraction
from interp import *
import facts,models
from report import Report
RULE=("A crate with one function per form of the macro's input (every operator and function over variables, constants, literals and one nested operation in every argument position; grouping; macro fragments; "
 "variables named like the generated code's own; several kinds of context) is type-checked against the current macro and library, and the MIR the macro expanded to is interpreted abstractly: library operations are "
 "uninterpreted constructors, so that the value returned is a term which is compared with the tree the text denotes; integer terms give the precision of each step, the error allowances, and what holds when an attempt is accepted.")
UN1=["recip","sqrt","cbrt","exp","atan","sinh","cosh","tanh","asinh"]
CHK=["ln","log2","log10","sin","cos","tan","asin","acos","acosh","atanh"]
CHK2=["log","pow"]
CONST=["pi","e","ln_2","ln_10"]
METH={"recip":"reciprocal"}
OPS={"add":"+","sub":"-","mul":"*","div":"/","rem":"%"}
WIDE={"exp","sinh","cosh"}         # error grows with the magnitude of the argument: the exponent's bits
ALGO={"ln":("Log",),"log2":("Log",),"log10":("Log",),"asin":("Asin",),"acos":("Acos",),"acosh":("Acosh",),"atanh":("Atanh",)}
BACK={METH.get(n,n):n for n in UN1+CHK+CHK2}
# ------------------------------------------------------------------ forms
def V(n): return ("var",n)
def txt(t,prec=0):
    k=t[0]
    if k=="var": return t[1]
    if k=="const": return t[1]
    if k=="lit": return t[1]
    if k=="neg":
        s="-"+txt(t[1],3); return s
    if k in OPS:
        p=1 if k in("add","sub") else 2
        s="%s %s %s"%(txt(t[1],p),OPS[k],txt(t[2],p+1))
        return "(%s)"%s if p<prec else s
    return "%s(%s)"%(k,", ".join(txt(x) for x in t[1:]))
def norm_(t):
    """the tree as the interpretation shows it"""
    if t[0]=="lit": return ("lit",t[2])
    if t[0] in("var","const"): return t
    return (t[0],)+tuple(norm_(x) for x in t[1:])
def lit(s,v=None): return ("lit",s,Fraction(v if v is not None else s))
def forms():
    """(name, tree, expression text, variables, context)"""
    out=[];seen=set()
    x,y,z=V("x"),V("y"),V("z")
    def add(t,vs=None,ctx="ctx",text=None,pre=""):
        s=text or txt(t)
        if (s,ctx,pre) in seen: return
        seen.add((s,ctx,pre)); out.append((t,s,ctx,pre))
    leaves=[x]+[("const",c) for c in CONST]+[lit("3"),lit("1.5")]
    ops2=list(OPS)+CHK2; ops1=["neg"]+UN1+CHK
    for l in leaves: add(l)
    for o in ops2:
        add((o,x,y)); add((o,x,x))
    for o in ops1: add((o,x))
    inner=[("add",x,y),("sub",x,y),("mul",x,y),("div",x,y),("rem",x,y),("neg",x),("sin",x),("ln",x),("exp",x),("sqrt",x),("log",x,y),("pow",x,y),("const","pi"),lit("2"),lit("0.1")]
    for o in ops2:
        for i in inner:
            add((o,i,z)); add((o,z,i))
    for o in ops1:
        for i in inner: add((o,i))
    for o in ops1+ops2:
        # each operation inside another one
        n=(o,x,y) if o in ops2 else (o,x)
        for c in("sub","mul","exp","log"): add((c,n,z) if c!="exp" else (c,n)); 
        for c in("div","pow"): add((c,z,n))
    # chains: associativity
    for o in OPS:
        for q in OPS: add((o,(q,x,y),z)); add((o,x,(q,y,z)))
    add(("sub",("sub",("sub",x,y),z),lit("4"))); add(("neg",("neg",x))); add(("neg",("pow",("neg",x),("neg",y))))
    add(("pow",("pow",x,y),z)); add(("log",("log",x,y),z)); add(("log",z,("pow",x,y)))
    add(("add",("mul",x,y),("div",z,x))); add(("mul",("add",x,y),("sub",z,x)))
    # literals
    for s,v in [("0",None),("7",None),("42",None),("0x1f",31),("0b101",5),("0o17",15),("1_000",1000),("18446744073709551616",None),("340282366920938463463374607431768211457",None),
                ("0.1",None),("1.0",None),("2.5e3",None),("1e-3",None),("0.5",None),("123.456e-2",None),("1.25e2",None),("7u32",7),("3usize",3),("1.5f64","1.5"),("1e30",None),("0.00390625",None),
                ("\"1.5\"","1.5"),("\"-2.75\"","-2.75"),("\"0.3\"","0.3"),("\"-1e5\"","-1e5"),("\"12345678901234567890123456789.25\"","12345678901234567890123456789.25"),("\"-0.7\"","-0.7"),("\"-0.25\"","-0.25"),("\"-0.0009765625\"","-0.0009765625"),("\"-3\"","-3"),("\"0.015625\"","0.015625"),("\"36893488147419103232\"","36893488147419103232"),("\"-18446744073709551617.5\"","-18446744073709551617.5")]:
        add(("lit",s,Fraction(v if v is not None else s)))
        add(("sub",x,("lit",s,Fraction(v if v is not None else s)))) 
    for s,v in (("\"inf\"","inf"),("\"-inf\"","-inf"),("\"nan\"","nan")): add(("lit",s,v)); add(("add",("lit",s,v),x))
    # grouping
    add(("mul",("add",x,y),z),text="((x + y)) * (z)"); add(("sub",x,("sub",y,z)),text="(x) - ((y - z))"); add(("neg",("add",x,y)),text="-(x + y)")
    add(("mul",("add",x,y),z),text="frag!(x + y, z, ctx)",ctx=None); add(("sin",("sub",x,y)),text="frag1!(x - y, ctx)",ctx=None)
    # names the generated code uses itself
    for n in("arg","arg1","arg2","ret","p","rm","cc","errs","p_wrk","p_rnd","emin","emax","err","newerr","e1","e2","e3","ctx_"): 
        add(("add",("sin",("sub",x,V(n))),("log",V(n),y)),pre=n)
    for n in("p","cc","rm","errs","arg","ret"): add(("add",("ln",x),("div",x,y)),ctx="ctx:"+n)
    # other contexts
    for c in("&mut ctx","*ctx","(p, rm, cc)","(p, rm, cc, emin, emax)","(p, rm, &mut *cc, emin, emax)"): add(("add",("exp",x),("sub",y,z)),ctx=c); add(("sub",x,y),ctx=c)
    # paths and other variables
    add(("add",lit("5"),x),text="self_::k + x")
    return out
HEAD="""#![allow(unused,non_upper_case_globals,dead_code)]
use astro_float::{BigFloat,Consts,RoundingMode,expr};
use astro_float::ctx::Context;
pub mod self_ { pub const k: u32 = 5; }
macro_rules! frag { ($a:expr, $b:expr, $c:expr) => { expr!($a * $b, $c) } }
macro_rules! frag1 { ($a:expr, $c:expr) => { expr!(sin($a), $c) } }
"""
def source(fs):
    L=HEAD.rstrip("\n").split("\n"); where={}
    for i,(t,s,c,pre) in enumerate(fs):
        vs=[];
        def w(t):
            if t[0]=="var" and "::" not in t[1] and t[1] not in vs: vs.append(t[1])
            elif t[0] not in("var","const","lit"):
                for x in t[1:]: w(x)
        w(t)
        cn="ctx"
        cargs="mut ctx: &mut Context"
        if c and c.startswith("ctx:"): cn=c[4:]; cargs="mut %s: &mut Context"%cn; c=cn
        elif c=="*ctx" : cargs="ctx: &mut Context"
        elif c and c.startswith("("):
            cargs="p: usize, rm: RoundingMode, %scc: &mut Consts"%("" if "&mut" in c else "")
            if "emin" in c: cargs+=", emin: i32, emax: i32"
        ar=", ".join(["%s: BigFloat"%v for v in vs]+[cargs])
        body=s if c is None else "expr!(%s, %s)"%(s,c)
        where[len(L)+1]=i
        L.append("pub fn w%d(%s) -> BigFloat { %s }"%(i,ar,body))
    return "\n".join(L)+"\n",where
CARGO="""[package]
name="witness"
version="0.0.0"
edition="2021"
[dependencies]
astro-float={path="%s"}
[patch.crates-io]
astro-float-num={path="%s/astro-float-num"}
astro-float-macro={path="%s/astro-float-macro"}
[workspace]
"""
def crate(src):
    d=os.path.join(facts.WORK,"witness"); os.makedirs(os.path.join(d,"src"),exist_ok=True)
    def put(p,s):
        if not os.path.exists(p) or open(p).read()!=s: open(p,"w").write(s)
    put(os.path.join(d,"Cargo.toml"),CARGO%((facts.REPO,)*3)); put(os.path.join(d,"src","lib.rs"),src)
    return os.path.join(d,"Cargo.toml")
# ------------------------------------------------------------------ interpretation
def strip(t):
    """without range checks, which C13 covers"""
    while t[0]=="range": t=t[1]
    if t[0] in("var","const","lit","parse","badlit"): return t
    return (t[0],)+tuple(strip(x) if type(x) is tuple else x for x in t[1:])
def key(t): return hashlib.md5(repr(strip(t)).encode()).hexdigest()[:10]
class Unsup(Exception): pass
class CW(Interp):
    def __init__(s,P):
        Interp.__init__(s,P,models.M,cap=4000); s.oncall=s.incall
        s.bf=next(i for i,t in P.ty.items() if t["k"]=="adt" and t.get("path","").split("::")[-1]=="BigFloat" and t["path"].startswith("astro_float"))
        s.prec=[]; s.problems=[]; s.init=None; s.n=0; s.inits=None
        s.S=None; s.budget=400000
        s.pinned=set()
    def gcdom(s,st): pass
    heads=0
    def athead(s,fn,cfg,b,sts,table,ctx,depth):
        # every attempt but the first ends where it adds up its allowances
        s.heads+=1
        if s.heads>1 and any(not x.g for x in sts) or s.heads>2000: raise Unsup("the attempts are not recognised")
        return sts
    def merge(s,sts):
        by={}
        for st in sts:
            k=(frozenset(st.mem.items()),st.g,frozenset(st.dom.items()))
            by.setdefault(k,st)
        return list(by.values())
    def tok(s,t): return A(s.bf,("tok",t),())
    def tree(s,st,v):
        n=0
        while type(v) is R and n<6: v=s.getp(st,v.loc,v.proj,None,"t"); n+=1
        if type(v) is A and type(v.var) is tuple and v.var and v.var[0]=="tok": return v.var[1]
        return None
    def problem(s,k,m):
        if (k,m) not in s.problems: s.problems.append((k,m))
    def const(s,c,ty,st,ctx):
        n=(c.get("name") or "").split("::")[-1]
        if n in("INF_POS","INF_NEG","NAN") and ty is not None and ty==s.bf: return s.tok(("lit",{"INF_POS":"inf","INF_NEG":"-inf","NAN":"nan"}[n]))
        if c.get("c")=="ref" and c.get("ty")==s.bf and n in("INF_POS","INF_NEG","NAN"): pass
        return Interp.const(s,c,ty,st,ctx)
    def isctx(s,st,v,nm):
        return type(v) is T and v==s.ctx[nm] if nm in("p","emin","emax") else (type(v) is E and v.name==nm)
    def atleast(s,st,v):
        if s.S is None or type(v) is not T: return False
        return st.iv(sub(v,add(s.ctx["p"],add(s.S,K(64)))))[0]>=0
    def incall(s,st,fn,b,c,args,ctx,depth):
        p=c.get("rpath") or c.get("path") or ""; full=c.get("full") or p; q=p.split("::")[-1]
        dty=s.placety(fn,fn["blocks"][b]["t"]["p"]) if depth==0 and b is not None else None
        cr=c.get("rcrate") or c.get("crate") or ""
        if cr.startswith("astro_float") or "astro_float" in p: return s.lib(st,fn,b,c,p,q,args,dty)
        tr=s.tree(st,args[0]) if args else None
        if tr is not None and q in("clone","into","from","borrow","as_ref","to_owned"):
            if q in("borrow","as_ref"): return [(st,args[0])]
            return [(st,s.tok(tr))]
        if q in("eq","ne") and "Option" in full and len(args)==2:
            v=[]
            for a in args:
                k=0
                while type(a) is R and k<4: a=s.getp(st,a.loc,a.proj,None,"q"); k+=1
                v.append(a)
            if all(type(a) is E and a.name.startswith("sg") for a in v):
                n=sorted(a.name[2:] for a in v)
                y=Sym("sgeq:%s:%s"%tuple(n),0,1)
                return [(st,y if q=="eq" else not_(y))]
        if q in("iter","into_iter","copied","cloned") and args and dty is not None and s.errsof(st,args[0])[0] is not None: return [(st,A(dty,("it",),(args[0],)))]
        if q in("max","min","last","next","unwrap_or","unwrap_or_default") and args and s.errsof(st,args[0])[0] is not None and "Iterator" in p:
            # one allowance instead of all
            r=s.attempt(st,args,ctx)
            return [(x,A(dty,1,(Sym("oneE",0,1<<40),))) for x,_ in r]
        if q=="sum" and "Iterator" in p: return s.attempt(st,args,ctx)
        if q=="saturating_add" and all(type(a) is T for a in args): return [(st,add(*args))]   # precisions and allowances far below the limit are assumed
        if q=="drop" or q=="drop_in_place": return [(st,A(dty,0,()))]
        return None
    def errsof(s,st,v):
        """location of the allowances an iterator runs over"""
        todo=[v]; n=0
        while todo and n<40:
            v=todo.pop(0); n+=1
            if type(v) is R:
                x=s.getp(st,v.loc,v.proj[:-1] if v.proj and v.proj[-1:]==SLICE else v.proj,None,"s")
                if type(x) is A and s.P.ty.get(x.ty,{}).get("k")=="array": return v.loc,x
                todo.append(x)
            elif type(v) is A: todo.extend(v.f); todo.extend(y for k,y in v.meta if not isinstance(y,(str,int)))
        return None,None
    def attempt(s,st,args,ctx):
        loc,arr=s.errsof(st,args[0])
        if arr is None: raise Unsup("the sum of the error allowances is not recognised")
        if not st.g:
            s.inits=[st.iv(x)[0] if type(x) is T else 0 for x in arr.f]
            es=tuple(Sym("E%d"%j,lo,1<<40) for j,lo in enumerate(s.inits))
            st.mem[loc]=A(arr.ty,arr.var,es,arr.meta)
            s.E=es; s.errloc=loc
            tot=K(0)
            for e in es: tot=add(tot,e)
            s.S=tot
            st.g=("it",)
            return [(st,tot)]
        # a second attempt: no allowance went down and one went up
        ok=all(type(x) is T and st.iv(sub(x,e))[0]>=0 for x,e in zip(arr.f,s.E))
        up=any(type(x) is T and st.iv(sub(x,e))[0]>=1 for x,e in zip(arr.f,s.E))
        if not ok: s.problem("retry","an attempt is repeated with an error allowance lowered")
        if not up: s.problem("retry","an attempt is repeated although no error allowance was raised")
        return []
    def opt(s,ty,nm,pay): return E(ty,Sym(nm+".#",0,1),nm,((1,(pay,)),))
    def lib(s,st,fn,b,c,p,q,args,dty):
        t=[s.tree(st,a) for a in args]
        if q in OPS or q in BACK or q in("neg","set_precision"):
            settle(s,st,[x for x in t if x is not None],s.problem)
        elif q=="compute_added_err":
            a=s.norm(args[0],st)
            settle(s,st,[x for x in(s.tree(st,f) for f in (a.f if type(a) is A else ())) if x is not None],s.problem)
        if "ctx::" in p or "Contextable" in p:
            if q in("precision",): return [(st,s.ctx["p"])]
            if q=="rounding_mode": return [(st,E(dty,Sym("rm.#",0,6),"rm"))]
            if q in("emin","emax"): return [(st,s.ctx[q])]
            if q=="consts": return [(st,A(None,("cc",),()))]
        if q=="from_ext":
            if t[0] is None: 
                x=s.intconst(st,args[0])
                if x is None: raise Unsup("from_ext of something else")
                t[0]=("lit",Fraction(x))
            if not s.atleast(st,args[1]): s.problem("precision","an operand is converted at less than the working precision")
            return [(st,s.tok(t[0]))]
        if q in("clone","into","from"):
            if t and t[0] is not None: return [(st,s.tok(t[0]))]
        if q=="set_inexact": return [(st,A(dty,0,()))]
        if q=="check_exponent_range" and t[0] is not None:
            if not(s.isctx(st,args[1],"emin") and s.isctx(st,args[2],"emax")): s.problem("range","a range check does not use the context's smallest and largest exponent")
            return [(st,s.tok(("range",t[0])))]
        if q in("pi","e","ln_2","ln_10"):
            if not s.atleast(st,args[1]): s.problem("precision","the constant %s is computed with less than the working precision"%q)
            return [(st,s.tok(("const",q)))]
        if q=="parse" and "BigFloat" in p:
            v=args[0]
            if type(v) is R: v=s.getp(st,v.loc,v.proj,None,"s")
            if type(v) is not S: raise Unsup("parse of something else")
            rd=s.norm(args[1],st)
            rn=s.P.ty[rd.ty]["variants"][rd.var]["n"] if type(rd) is A else None
            if rn!="Dec": s.problem("literal","a literal is parsed with radix %s"%rn)
            if not s.atleast(st,args[2]): s.problem("precision","a literal is parsed with less than the working precision")
            return [(st,s.tok(("lit",self_frac(v.v))))]
        if q=="from_raw_parts":
            v=args[0]
            if type(v) is R: v=s.getp(st,v.loc,v.proj[:-1] if v.proj[-1:]==SLICE else v.proj,None,"s")
            e=st.const(args[3]) if type(args[3]) is T else None
            sg=s.norm(args[2],st)
            if type(v) is not A or e is None or type(sg) is not A: raise Unsup("from_raw_parts of something else")
            m=0
            for i,w in enumerate(v.f): m|=st.const(w)<<(64*i)
            f=Fraction(m)/Fraction(2)**(64*len(v.f))*Fraction(2)**e if abs(e)<100000 else None
            if s.P.ty[sg.ty]["variants"][sg.var]["n"]=="Neg": f=-f
            if m and not m>>(64*len(v.f)-1): s.problem("literal","a literal's mantissa is not normalised")
            if m and (type(args[1]) is not T or st.const(args[1])!=64*len(v.f)): s.problem("literal","a literal's significant bits are not those of its mantissa")
            return [(st,s.tok(("lit",f)))]
        if q in("from_word","from_u8","from_u16","from_u32","from_u64","from_u128","from_i8","from_i16","from_i32","from_i64","from_i128"): 
            x=s.intconst(st,args[0])
            if x is not None: return [(st,s.tok(("lit",Fraction(x))))]
        if q in OPS and len(args)>=2 and t[0] and t[1]:
            if q!="rem" and not s.atleast(st,args[2]): s.problem("precision","%s runs with less than the working precision"%q)
            return [(st,s.tok((q,t[0],t[1])))]
        if q=="neg" and t[0]: return [(st,s.tok(("neg",t[0])))]
        if q in BACK and t and t[0]:
            n=BACK[q]; k=2 if n in CHK2 else 1
            if not all(t[:k]): raise Unsup("operand of %s"%q)
            if not s.atleast(st,args[k]): s.problem("precision","%s runs with less than the working precision"%q)
            return [(st,s.tok((n,)+tuple(t[:k])))]
        if q in("inexact","is_positive","is_negative") and t and t[0]:
            y=Sym(("inx:" if q=="inexact" else "pos:")+key(t[0]),0,1)
            return [(st,y if q!="is_negative" else not_(y))]
        if q=="exponent" and t and t[0]:
            k=key(t[0]); return [(st,s.opt(dty,"ex"+k,Sym("exv"+k,-2**31,2**31-1)))]
        if q=="sign" and t and t[0]:
            k=key(t[0]); sty=s.P.ty[dty]["args"][0]
            return [(st,s.opt(dty,"sg"+k,E(sty,Sym("pos:"+k,0,1),"sgv"+k)))]
        if q=="compute_added_err":
            a=s.norm(args[0],st)
            if type(a) is not A: raise Unsup("error algorithm unknown")
            n=s.P.ty[a.ty]["variants"][a.var]["n"]
            sig=[n]
            for f in a.f:
                x=s.tree(st,f)
                if x is not None: sig.append(strip(x)); continue
                f=s.norm(f,st) if type(f) in(L,E,A) else f
                if type(f) is A and f.ty is not None and s.P.ty[f.ty].get("path","").endswith("TrigFun"): sig.append(s.P.ty[f.ty]["variants"][f.var]["n"])
                elif type(f) is T:
                    if s.isctx(st,f,"emin"): continue
                    if n=="Trig":
                        if not s.atleast(st,f): s.problem("errors","the added error of %s is computed with less than the working precision"%n)
                    elif st.const(f) is not None:
                        sig.append(("c",st.const(f)))
                    else: s.problem("errors","the added error of %s is computed with another smallest exponent than the context's"%n)
            nm="NE:"+hashlib.md5(repr(sig).encode()).hexdigest()[:10]
            s.algs[nm]=tuple(sig)
            st.g=st.g+((nm,tuple(sig)),) if (nm,tuple(sig)) not in st.g else st.g
            return [(st,Sym(nm,0,1<<40))]
        if q=="set_precision" and t[0]:
            if not s.isctx(st,args[1],"p"): s.problem("final","the result is not rounded to the context's precision")
            if not s.isctx(st,args[2],"rm"): s.problem("final","the result is not rounded with the context's rounding mode")
            o=st.copy(); rty=dty
            r=args[0]
            s.setp(st,r.loc,r.proj,s.tok(("round",t[0])))
            ety=s.P.ty[rty]["args"][1]
            return [(st,A(rty,0,(A(s.P.ty[rty]["args"][0],0,()),))),(o,A(rty,1,(L(ety,"prerr"),)))]
        if q=="nan":
            a=s.norm(args[0],st)
            if type(a) is A and a.var==1:
                x=a.f[0]
                return [(st,s.tok(("nan",getattr(x,"name",None) or "?")))]
            return [(st,s.tok(("nan","none")))]
        raise Unsup("call of %s"%p)
    def intconst(s,st,v):
        n=0
        while type(v) is R and n<4: v=s.getp(st,v.loc,v.proj,None,"i"); n+=1
        return st.const(v) if type(v) is T else None
def self_frac(x):
    y=x.replace("_","").lower()
    try: return Fraction(y)
    except ValueError: return y
# ------------------------------------------------------------------ obligations
def nodes(t):
    if t[0] in("var","const","lit"): return []
    r=[]
    for x in t[1:]: r+=nodes(x)
    return r+[t]
def checknode(I,st,n,add_):
    """the error check of one operation holds for the allowances of this attempt; -> the slots that show it (None: nothing to show)"""
    o=n[0]; n=strip(n)
    if o in CHK or o in CHK2:
        g=dict(x for x in st.g if type(x) is tuple and x[0]!="done")
        want=want_alg(n)
        have=[nm for nm,sig in g.items() if okalg(sig,want)]
        if not have:
            o2=[sig for sig in g.values() if sig[0]==want[0]]
            add_("errors","the error added by %s is not computed%s"%(show(n),"" if not o2 else ", or with other operands or constants than its own (%s)"%showsig(o2[0]))); return None
        sl={j for j,e in enumerate(I.E) if any(st.iv(sub(e,Sym(nm,0,1<<40)))[0]>=0 for nm in have)}
        if not sl: add_("errors","a result is accepted although the error added by %s exceeds its allowance"%show(n)); return None
        return frozenset(sl)
    if o in("add","sub"):
        sl=None
        for x in cancel(I,st,n,o):
            k=key(n); e3=Sym("exv"+k,-2**31,2**31-1); l,r=Sym("exv"+key(n[1]),-2**31,2**31-1),Sym("exv"+key(n[2]),-2**31,2**31-1)
            js=set(range(len(I.E)))
            for big,sm in((l,r),(r,l)):
                y=x.copy()
                if not y.refine(le(sm,big),True): continue
                same=[big]                      # terms equal to the larger exponent
                d=y.iv(sub(big,sm))
                if d[0]==d[1]: same.append(add(sm,K(d[0])))
                if not all(y.refine(le(e3,z),True) for z in same): continue
                js={j for j in js if any(y.iv(sub(I.E[j],sub(z,e3)))[0]>=1 for z in same)}
            sl=js if sl is None else sl&js
            if not sl: add_("cancellation","a result is accepted although %s lost more bits than its allowance"%show(n)); return None
        return frozenset(sl) if sl is not None and len(sl)<len(I.E) else None
    return None
def settle(I,st,ns,add_):
    """operations whose results are used: check each once, then forget the facts about their operands"""
    todo=[]
    for n in ns:
        n=strip(n)
        while n[0]=="neg": n=strip(n[1])
        if n[0] in("var","const","lit","round","nan") or I.S is None or n in todo: continue
        if not any(type(x) is tuple and x[:2]==("done",key(n)) for x in st.g): todo.append(n)
    sl=[checknode(I,st,n,add_) for n in todo]
    for n,l in zip(todo,sl):
        ks=[key(c) for c in n[1:]]
        drop={f%q for q in ks for f in("inx:%s","pos:%s","exv%s","ex%s.#","sg%s.#")}
        drop.add("sgeq:%s:%s"%tuple(sorted((ks*2)[:2])))
        g=[x for x in st.g if not(type(x) is tuple and x[0]!="done" and l is not None and okany(x[1],n))]
        drop|={x[0] for x in st.g if x not in g}
        for t in list(st.dom):
            if any(y in drop for y in t.syms): del st.dom[t]
        st.g=tuple(g)+(("done",key(n),l),)
def okany(sig,n): return n[0] in CHK+CHK2 and okalg(sig,want_alg(n))
def accepted(I,st,tree,add_):
    """at acceptance: each operation has an allowance of its own"""
    cand=[x[2] for x in st.g if type(x) is tuple and x[0]=="done" and x[2] is not None]
    def match(i,used):
        if i==len(cand): return True
        return any(j not in used and match(i+1,used|{j}) for j in cand[i])
    if not match(0,frozenset()): add_("slots","two operations share one error allowance")
def cancel(I,st,n,o):
    """states where the operation cancels and an operand is inexact"""
    kl,kr,k=key(n[1]),key(n[2]),key(n)
    l,r=Sym("exv"+kl,-2**31,2**31-1),Sym("exv"+kr,-2**31,2**31-1)
    if strip(n[1])==strip(n[2]): return
    for il,ir in((1,0),(0,1),(1,1)):
        for pl in(0,1):
            pr=1-pl if o=="add" else pl
            x=st.copy()
            ok=True
            for sy,v in(("inx:"+kl,il),("inx:"+kr,ir),("pos:"+kl,pl),("pos:"+kr,pr),("sgeq:%s:%s"%tuple(sorted(("sg"+kl)[2:] if 0 else q for q in(kl,kr))),int(pl==pr)),("ex%s.#"%kl,1),("ex%s.#"%kr,1),("ex%s.#"%k,1),("sg%s.#"%kl,1),("sg%s.#"%kr,1)):
                ok=ok and x.refine(eq(Sym(sy,0,1),K(v)),True)
            ok=ok and x.refine(le(sub(l,r),K(1)),True) and x.refine(le(sub(r,l),K(1)),True)
            if ok: yield x
def want_alg(n):
    o=n[0]
    a=[strip(x) for x in n[1:]]
    if o in("sin","cos","tan"): return ("Trig",a[0],o.capitalize())
    if o=="log": return ("Log2",frozenset(a))
    if o=="pow": return ("Pow",a[0],a[1])
    return (ALGO[o][0],a[0])
def okalg(sig,want):
    if sig[0]!=want[0]: return False
    r=[x for x in sig[1:] if not(type(x) is tuple and x and x[0]=="c")]
    c=[x[1] for x in sig[1:] if type(x) is tuple and x and x[0]=="c"]
    if want[0]=="Log2": return frozenset(r)==want[1]
    if want[0]=="Log" and not(c and c[0]>=2): return False
    return tuple(r)==tuple(want[1:])
def show(t):
    try: return txt(tt(t))
    except Exception: return str(t)
def tt(t):
    if t[0]=="lit": return ("lit",str(t[1]))
    if t[0] in("var","const"): return t
    if t[0] in("range","round"): return (t[0],tt(t[1]))
    return (t[0],)+tuple(tt(x) for x in t[1:])
def showsig(sig): return "%s(%s)"%(sig[0],", ".join(show(x) if type(x) is tuple and x[0]!="c" else str(x) for x in sig[1:]))
def need(tree):
    n=0
    for t in nodes(tree):
        o=t[0]
        if o in WIDE: n+=32
        elif o in("rem","neg"): pass
        else: n+=1
    return n
def analyse(P,fn,form,rep,i):
    tree,text,c,pre=form
    want=norm_(tree)
    I=CW(P); st=State()
    nm="expr!(%s)"%text+("" if c in("ctx",None) else " with context %s"%c)
    I.algs={}
    I.ctx={"p":Sym("cp",1,1<<40),"emin":Sym("cemin",-2**31,0),"emax":Sym("cemax",0,2**31-1)}
    args=[];vn=[]
    for j in range(1,fn["argc"]+1):
        ty=fn["locals"][j]; n=fn["names"].get(str(j)) if isinstance(fn["names"],dict) else None
        if ty==I.bf: args.append(("v",n))
        else:
            ps=P.tys(ty)
            if ps=="usize": args.append(I.ctx["p"])
            elif ps.endswith("RoundingMode"): args.append(E(ty,Sym("rm.#",0,6),"rm"))
            elif ps=="i32": args.append(I.ctx["emin"] if I.ctx["emin"] not in args else I.ctx["emax"])
            else: args.append(I.expand(L(ty,"ctx"),st))
    vs=[]
    def w(t):
        if t[0]=="var" and "::" not in t[1] and t[1] not in vs: vs.append(t[1])
        elif t[0] not in("var","const","lit"):
            for x in t[1:]: w(x)
    w(tree); k=0
    for j,a in enumerate(args):
        if type(a) is tuple: args[j]=I.tok(("var",vs[k])); k+=1
    bad=[]
    def add_(k,m):
        if (k,m) not in bad: bad.append((k,m))
    try: outs=I.run(fn["id"],args,st)
    except Unsup as e: rep.undecided("%s: %s"%(nm,e)); return
    except Abort as e: rep.undecided("%s: %s"%(nm,e)); return
    except (KeyError,IndexError,AttributeError,TypeError,ValueError,RecursionError) as e: rep.undecided("%s: not analysable: %s %s"%(nm,type(e).__name__,e)); return
    if os.environ.get("C12DBG"):
        print(nm,len(outs)); 
    if not outs: rep.undecided("%s: no path returns"%nm); return
    for k,m in I.problems: add_(k,m)
    wantx=want
    for x,v in outs:
        t=I.tree(x,v)
        if t is None: rep.undecided("%s: the value returned is not known"%nm); return
        u=t; rng=False
        while u[0]=="range": u=u[1]; rng=True
        if not rng: add_("final","the result is returned without the final range check")
        if u[0]=="nan":
            if u[1]!="prerr": add_("final","a failure of the final rounding is returned with another error")
            continue
        if u[0]!="round": add_("final","the result is returned without rounding it to the context's precision")
        u=u[1] if u[0]=="round" else u
        inner=str(u)
        if "'round'" in inner: add_("final","an intermediate result is rounded to the final precision")
        got=strip(u)
        if got!=wantx:
            add_("tree","computes %s instead of %s"%(show(got),show(wantx))); continue
        if I.S is not None: accepted(I,x,want,add_)
    if I.inits is not None:
        if sum(I.inits)<need(tree): add_("allowance","the allowances of the first attempt add up to %d bits, below %d"%(sum(I.inits),need(tree)))
    fm="/".join(sorted({o[0] for o in nodes(want)}) or [want[0]])
    if not bad: rep.ok(nm); rep.count("accepting_paths",len(outs))
    else:
        for k,m in bad: rep.bad("expr %s %s"%(k,fm),"astro-float-macro: %s %s (%s)"%(nm,m,k))
    rep.unit(nm)
    rep.fns|={f["path"] for f in [fn]}
def run(tier):
    rep=Report("C12",RULE)
    fs=forms()
    src,where=source(fs)
    man=crate(src)
    try: F=facts.dump(man,["witness"],tag="wit",extra_key=src)["witness"]
    except facts.BuildError as e:
        o=str(e)
        # errors inside the expansion of a form: that form is refused or does not type-check
        hit={}
        for m in re.finditer(r"error[^\n]*: ([^\n]*)\n(?:[^\n]*\n){0,2}?\s*--> src/lib\.rs:(\d+):",o):
            i=where.get(int(m.group(2)))
            if i is not None: hit.setdefault(i,m.group(1))
        if not hit: raise
        for i,msg in sorted(hit.items())[:20]:
            rep.bad("expr refused %s"%("/".join(sorted({o[0] for o in nodes(norm_(fs[i][0]))}) or [fs[i][0][0]])),"astro-float-macro: expr!(%s) does not compile: %s"%(fs[i][1],msg[:200]))
        return rep
    P=Program(F)
    for i,f in enumerate(fs):
        fn=P.fns.get("w%d"%i)
        if fn is None: rep.undecided("w%d missing"%i); continue
        analyse(P,fn,f,rep,i)
    rep.count("forms",len(fs))
    rep.assume.append("precisions and error allowances stay below 2^40 bits (saturating additions are exact); the library's operations and compute_added_err themselves are covered by the other properties")
    return rep
