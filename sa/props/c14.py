"""C14: text input and output agree on digits, radix and exponent syntax."""
from ops import *
from report import Report
from oc import signs
from c19 import leaves
RULE=("Abstract interpretation of the parser on abstract texts (positions carrying an interval of characters, possibly repeated without bound), per radix and per class of a partition of all characters: which characters are taken as digits, the value stored for each, "
 "each stored exactly once, the sign, names, separators, and the exponent as a linear term of its digits; abstract interpretation of the formatter per radix, digit and class of number, whose abstract text must have exactly the form the parser reads, with the radix of the exponent; "
 "dispatch of each radix to the conversion of its base, in both directions, and of each formatting trait to its radix.")
RAD={"Bin":2,"Oct":8,"Dec":10,"Hex":16}
CUT=sorted({0}|{ord(c) for c in "+,-./01289:AEFGIJNO_`aefgijno"}|{ord(c)+1 for c in "BDMHbdhm"}|{0x5b,0x7b,0x80,0x110000})
CLS=[(a,b-1) for a,b in zip(CUT,CUT[1:])]
def low(lo,hi): return (lo+32,hi+32) if 65<=lo and hi<=90 else (lo,hi)
def isdig(c,r):
    lo,hi=low(*c)
    return 48<=lo and hi<=57 and hi-48<r or 97<=lo and hi<=102 and hi-87<r
def dval(c,s):
    return sub(s,K(48 if c[1]<=57 else 55 if c[1]<=90 else 87))
def nm(c):
    f=lambda x: repr(chr(x))[1:-1] if 32<x<127 else "U+%04X"%x
    return f(c[0]) if c[0]==c[1] else f(c[0])+".."+f(c[1])
class Pos:
    """one position of an abstract text"""
    def __init__(s,c,kind="x",rep=False,opt=False): s.c=c; s.kind=kind; s.rep=rep; s.opt=opt
def ch(c,kind="x",**k): return Pos((ord(c),ord(c)),kind,**k)
class C14(CI):
    softwiden=True
    def __init__(s,*a,**k):
        CI.__init__(s,*a,**k); s.oncall=s.incall; s.onpanic=s.inpanic; s.text=[]; s.bad=[]; s.used=False; s.odd=[]; s.pan=[]
    def inpanic(s,st,fn,b,kind,depth,ctx,*r):
        if s.alive(st): s.pan.append((fn["path"],str(kind)))
    def sym(s,i): return K(s.text[i].c[0]) if s.text[i].c[0]==s.text[i].c[1] else Sym("ch%d"%i,*s.text[i].c)
    def follow(s,i):
        """positions that can come after position i (len = end)"""
        out=[]; j=i+1
        if i>=0 and s.text[i].rep: out.append(i)
        while True:
            out.append(j)
            if j>=len(s.text) or not s.text[j].opt: break
            j+=1
        return out
    def snap(s,lo,hi):
        # one more step than the default between 32 and 63 bits: values checked against an exponent limit before they grow by one digit
        if -(1<<40)<=lo<-(1<<31): lo=-(1<<40)
        if (1<<32)<=hi<(1<<40): return CI.snap(s,lo,0)[0],(1<<40)-1
        return CI.snap(s,lo,hi)
    def place(s,fn,b):
        t=b["t"] if isinstance(b,dict) else fn["blocks"][b]["t"]
        return t["p"][0] if t["k"]=="call" and len(t["p"])==1 else None
    def apply(s,st,v,args,depth,ctx):
        """[(state, value)] of calling the closure value v, or None"""
        v=s.norm(v,st); loc=None
        if type(v) is R: loc=v; v=s.norm(s.getp(st,v.loc,v.proj,None,ctx),st)
        if not(type(v) is A and isinstance(v.var,tuple) and v.var[0]=="closure" and v.var[1] in s.P.fns): return None
        f=s.P.fns[v.var[1]]; k=s.P.ty[f["locals"][1]]["k"]
        if k=="ref":
            if loc is None: l=("H","cl%d"%depth); st.mem[l]=v; loc=R(l,(),True)
            v=loc
        if f["argc"]!=1+len(args): return None
        return s.run(f["id"],[v]+args,st,depth+1,ctx+">cl")
    def havoc(s,st,c,args,dty,name):
        """the result of an unknown function of a character says nothing about it"""
        for a in args:
            if type(a) is R: a=s.norm(s.getp(st,a.loc,a.proj,None,name),st)
            if type(a) is T and any(p is not None and s.sym(i) is a for i,p in enumerate(s.text)):
                s.odd.append("the result of %s is not known"%(c.get("full") or c.get("rpath"))); break
        return CI.havoc(s,st,c,args,dty,name)
    def leave(s,st):
        """the current position is left or the text is done: its digit must have been stored"""
        i,fl=st.g[:2]
        if 0<=i<len(s.text) and s.text[i].kind=="dig" and not fl: s.bad.append(("digit dropped",nm(s.text[i].c)))
    def incall(s,st,fn,b,c,args,ctx,depth):
        p=c.get("rpath") or c.get("path") or ""; full=c.get("full") or p; q=p.split("::")[-1]
        if q in("next","peek","next_if","next_if_eq","nth") and re.search(r"Peekable|CharIndices|Bytes|Chars",full):
            if not re.search(r"std::str::Chars<'_> as std::iter::Iterator>::next\Z|^<std::str::Bytes<'_> as std::iter::Iterator>::next",full): s.odd.append(full); return None
            s.used=True; i,fl=st.g[:2]
            if i>=len(s.text): nx=[len(s.text)]
            else: s.leave(st); nx=s.follow(i)
            out=[]
            for j in nx:
                n=st.copy(); n.g=(j,0)+st.g[2:]
                if j>=len(s.text): out.append((n,A(None,0,())))
                else: out.append((n,A(None,1,(s.sym(j),))))
            return out
        if re.search(r"std::vec::Vec::<u8>::(push|extend.*|insert|append)\Z",full) or re.search(r"Vec<u8> as .*Extend",full):
            if q!="push": s.odd.append(full); return None
            v=s.norm(args[1],st); i,fl=st.g[:2]; g=st.g
            n=st
            if 0<=i<len(s.text) and s.text[i].kind in("dig","zero"):
                pos=s.text[i]; w=dval(pos.c,s.sym(i))
                if fl: s.bad.append(("digit stored twice",nm(pos.c)))
                if type(v) is not T: s.odd.append("value of a stored digit")
                elif not(v is w or st.iv(sub(v,w))==(0,0)): s.bad.append(("digit value","%s is stored as %s"%(nm(pos.c),"%d..%d"%st.iv(v))))
                n.g=(i,1)+g[2:]
            else: n.g=(i,fl)+g[2:]+(("push",(st.iv(v) if type(v) is T else None),i),) if len(g)<6 else g
            return [(n,A(None,None,()))]
        if q in("saturating_add","saturating_mul","saturating_sub") and len(args)==2 and all(type(a) is T for a in args):
            m={"add":add,"mul":mul,"sub":sub}[q[11:]](*args); r=s.P.int_range(fn["locals"][s.place(fn,b)]) if s.place(fn,b) is not None else None
            if r is None: return None
            out=[]
            for cond,v in ((lt(K(r[1]),m),K(r[1])),(lt(m,K(r[0])),K(r[0])),(None,m)):
                n=st.copy()
                if cond is None:
                    if n.refine(le(m,K(r[1])),True) and n.refine(le(K(r[0]),m),True): out.append((n,v))
                elif n.refine(cond,True): out.append((n,v))
            return out
        if q=="from_digit" and len(args)==2:
            v,r=s.norm(args[0],st),s.norm(args[1],st)
            if type(v) is T and type(r) is T and st.const(v) is not None and st.const(r) is not None:
                k=st.const(v); return [(st,A(None,1,(K(48+k if k<10 else 87+k),)) if k<st.const(r) else A(None,0,()))]
        if q in("to_ascii_lowercase","to_ascii_uppercase","to_digit","is_digit","is_ascii_digit","is_ascii_hexdigit","eq_ignore_ascii_case","is_ascii_alphabetic","is_ascii_alphanumeric","to_lowercase","is_numeric","is_alphabetic"):
            a=s.norm(args[0],st)
            if type(a) is R: a=s.norm(s.getp(st,a.loc,a.proj,None,ctx),st)
            if type(a) is not T: return None
            lo,hi=st.iv(a); up=65<=lo and hi<=90; lw=97<=lo and hi<=122; al=up or lw; dg=48<=lo and hi<=57
            mixed=not(up or hi<65 or lo>90) or not(lw or hi<97 or lo>122) or not(dg or hi<48 or lo>57)
            if mixed: s.odd.append("%s of %d..%d"%(q,lo,hi)); return None
            if q=="to_ascii_lowercase": return [(st,add(a,K(32)) if up else a)]
            if q=="to_ascii_uppercase": return [(st,sub(a,K(32)) if lw else a)]
            if q in("to_digit","is_digit"):
                r=s.norm(args[1],st); rl,rh=st.iv(r) if type(r) is T else (0,0)
                if rl!=rh: s.odd.append("radix of to_digit"); return None
                v=sub(a,K(48)) if dg else sub(a,K(55 if up else 87)) if al else None
                if v is None or st.iv(v)[0]>=rl: return [(st,A(None,0,()) if q=="to_digit" else K(0))]
                if st.iv(v)[1]>=rl: s.odd.append("to_digit of %d..%d"%(lo,hi)); return None
                return [(st,A(None,1,(v,)) if q=="to_digit" else K(1))]
            if q=="is_ascii_digit": return [(st,K(int(dg)))]
            if q=="is_ascii_alphabetic": return [(st,K(int(al)))]
            if q=="is_ascii_alphanumeric": return [(st,K(int(al or dg)))]
            if q=="is_ascii_hexdigit":
                if al and not(hi<=(70 if up else 102) or lo>(70 if up else 102)): return None
                return [(st,K(int(dg or al and hi<=(70 if up else 102))))]
            return None
        if q in("all","any") and "slice::Iter<'_, u8>" in full:
            # over the stored digits: decided when they all are zeros
            if [p.c for p in s.text if p.kind in("dig","zero")] and all(p.c==(48,48) for p in s.text if p.kind in("dig","zero")):
                st.mem[("H","zd")]=K(0)
                return s.apply(st,args[1],[R(("H","zd"),(),False)],depth,ctx)
            return None
        if q=="try_reserve_exact" or q=="try_reserve":
            return [(st,A(None,0,(A(None,None,()),)))]
        return None

def radval(P,n):
    t=P.tyid("defs::Radix"); vs=[v["n"] for v in P.ty[t]["variants"]]
    return A(t,vs.index(n),())
def parse(P,rdx,text,fn):
    """[(state, what the accessors report)] for the abstract text"""
    I=C14(P,root=fn["id"],ext=True); I.budget=200000; st=State(); st.g=(-1,0); I.text=text
    st.mem[("H","txt")]=A(None,("text",),())
    args=[R(("H","txt"),(),False,Sym("slen",len([p for p in text if not p.opt]),(1<<62))),radval(P,rdx)]
    acc={f["path"].split("::")[-1]:i for i,f in P.fns.items() if f["local"] and re.match(r"parser::ParserState::<.*>::(is_inf|is_nan|sign|raw_parts)\Z",f["path"])}
    out=[]
    for x,v in I.run(fn["id"],args,st):
        v=I.norm(v,x)
        if not(type(v) is A and v.var in(0,1)): out.append((x,None)); continue
        if v.var==1: out.append((x,"err")); continue
        I.leave(x)
        x.mem[("H","ps")]=v.f[0]; r={}
        for n,i in acc.items():
            oc=I.oncall; I.oncall=None
            try: q=I.run(i,[R(("H","ps"),(),False)],x.copy())
            finally: I.oncall=oc
            if len(q)==1: r[n]=I.norm(q[0][1],q[0][0]); r[n+".st"]=q[0][0]
        out.append((x,r))
    return I,out
SEP={"Bin":["e"],"Oct":["e"],"Dec":["e"],"Hex":["_e"]}
def variants(s):
    out=[""]
    for c in s: out=[o+d for o in out for d in dict.fromkeys((c.lower(),c.upper()))]
    return out
def texts(rdx):
    """(label, text, expectation): expectation may fix nan, inf, sign ('+'/'-') and e (function of the symbols at the positions)"""
    r=RAD[rdx]; T=[]
    sg=[("",[]),("+",[ch("+")]),("-",[ch("-")])]
    one=lambda: ch("1","dig")
    seps=[[ch(c) for c in v] for v in variants(SEP[rdx][0])]
    for w,sp in sg:
        T.append(("'%s' alone"%w,list(sp),dict(nan=1)))
        for c in CLS:
            d=isdig(c,r); k="zero" if c==(48,48) else "dig" if d else "x"
            if not w and c[0] in(43,45): continue
            e=dict(nan=0,inf=0,sign=w or "+",zero=c==(48,48)) if d else dict(nan=1,inf=0)
            if k=="dig": e["e"]=lambda s: K(1)
            T.append(("%s[%s]"%(w,nm(c)),sp+[Pos(c,k)],e))
    for c in CLS:
        d=isdig(c,r); k="dig" if d else "x"
        if not any(lowc(c)==lowc((ord(v[0]),)*2) for v in SEP[rdx]):
            T.append(("1[%s]*"%nm(c),[one(),Pos(c,k,rep=True)],dict(nan=0) if d else dict(nan=0,inf=0,e=lambda s: K(1))))
        if c[0]==46: continue
        T.append(("1.[%s]*"%nm(c),[one(),ch("."),Pos(c,k,rep=True)],dict(nan=0,inf=0,e=lambda s: K(1))))
        if d:
            T.append((".[%s]"%nm(c),[ch("."),Pos(c,k)],dict(nan=0,inf=0,e=lambda s: K(0))))
            T.append((".[%s]*"%nm(c),[ch("."),Pos(c,"zero" if c[0]==48 else k,rep=True)],dict(nan=0,inf=0)))
            T.append(("1[%s].1"%nm(c),[one(),Pos(c,k),ch("."),one()],dict(nan=0,inf=0,e=lambda s: K(2))))
    for sp in seps:
        l="".join(chr(p.c[0]) for p in sp); n=1+len(sp)
        for w,sw,m in (("",[],1),("+",[ch("+")],1),("-",[ch("-")],-1)):
            for c in CLS:
                d=isdig(c,r); j=n+len(sw)
                if not w and c[0] in(43,45): continue
                if d:
                    T.append(("1%s%s[%s]"%(l,w,nm(c)),[one()]+sp+sw+[Pos(c)],dict(nan=0,inf=0,e=lambda s,j=j,c=c,m=m: add(K(1),scale(dval(c,s(j)),m)))))
                    T.append(("11.1%s%s[%s][%s]"%(l,w,nm(c),nm(c)),[one(),one(),ch("."),one()]+sp+sw+[Pos(c),Pos(c)],dict(nan=0,inf=0,e=lambda s,j=j+3,c=c,m=m: add(K(2),scale(add(scale(dval(c,s(j)),r),dval(c,s(j+1))),m)))))
                    T.append(("1%s%s[%s]*"%(l,w,nm(c)),[one()]+sp+sw+[Pos(c,rep=True)],dict(nan=0,exact=1,**({"inf":0} if m<0 else {}))))
                    T.append((".0%s%s[%s]*"%(l,w,nm(c)),[ch("."),ch("0","zero")]+sp+sw+[Pos(c,rep=True)],dict(nan=0,inf=0)))
                    T.append(("0.00*%s%s[%s]*"%(l,w,nm(c)),[ch("0","zero"),ch("."),ch("0","zero"),ch("0","zero",rep=True,opt=True)]+sp+sw+[Pos(c,rep=True)],dict(nan=0,inf=0)))
                else:
                    T.append(("1%s%s[%s]"%(l,w,nm(c)),[one()]+sp+sw+[Pos(c)],dict(nan=0,inf=0,e=lambda s: K(1))))
    for w,sp in sg:
        for v in variants("inf"): T.append((w+v,sp+[ch(c) for c in v],dict(nan=0,inf=1,sign=w or "+")))
        for v in variants("nan"): T.append((w+v,sp+[ch(c) for c in v],dict(nan=1,inf=0)))
    for i in range(3):
        for c in CLS:
            if i==0 and (isdig(c,r) or c[0] in(43,45,46)): continue
            if lowc(c)==(ord("inf"[i]),)*2: continue
            q=[ch(x) for x in "inf"]; q[i]=Pos(c); T.append(("".join("[%s]"%nm(p.c) for p in q),q,dict(nan=1,inf=0)))
    return T
def lowc(c): return low(*c)
def parser(rep,P):
    fn=P.fn("parser::parse") if hasattr(P,"fn") else None
    fs=[f for f in P.fns.values() if f["local"] and f["path"]=="parser::parse"]
    if not fs: rep.undecided("no function parser::parse"); return
    fn=fs[0]; rep.unit(fn["path"]); n=0
    for rdx in RAD:
        seen=False
        for lab,text,ex in texts(rdx):
            what="parse('%s', %s)"%(lab,rdx)
            try: I,outs=parse(P,rdx,text,fn)
            except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(what,e)); continue
            rep.fns|=I.stats["fns"]; n+=1
            if not I.used: rep.undecided("%s: the way the text is read is not known"%what); continue
            if I.odd: rep.undecided("%s: %s"%(what,I.odd[0])); continue
            verdict(rep,P,rdx,what,text,ex,I,outs)
    rep.count("abstract_texts",n)
def verdict(rep,P,rdx,what,text,ex,I,outs):
    ok=True
    def bad(k,m):
        nonlocal ok
        if ok: rep.bad("%s | %s"%(rdx,k),"%s: %s"%(what,m))
        ok=False
    for k,m in sorted(set(I.bad)): bad(k+" "+m.split(" is ")[0],"%s: %s"%(k,m))
    rest=[g for g in outs if g[1]!="err"]
    if not rest: bad("refused","every path ends in an error"); return
    for x,r in rest:
        if r is None or not all(k in r for k in("is_nan","is_inf","sign","raw_parts")): rep.undecided("%s: outcome not identified"%what); return
        nan,inf=(x.iv(r[k]) if type(r[k]) is T else None for k in("is_nan","is_inf"))
        if nan is None or inf is None or nan[0]!=nan[1] or inf[0]!=inf[1]: rep.undecided("%s: kind of the result not identified"%what); return
        if nan[0] and inf[0]: bad("NaN and Inf","the result is both NaN and infinite")
        if "nan" in ex and nan[0]!=ex["nan"]: bad("NaN %s"%("expected" if ex["nan"] else "unexpected"),"the text %s NaN"%("is not taken for" if ex["nan"] else "is taken for"))
        if "inf" in ex and inf[0]!=ex["inf"]: bad("Inf %s"%("expected" if ex["inf"] else "unexpected"),"the text %s infinity"%("is not taken for" if ex["inf"] else "is taken for"))
        rp=r["raw_parts"]; y=r["raw_parts.st"]
        for g in x.g[2:]:
            # a digit stored without being read: only the zero replacing an underflow
            if g[1]!=(0,0): bad("stray digit","%s is stored at position %d, which is no digit"%(g[1],g[2]))
        if nan[0] or inf[0]:
            if inf[0] and "sign" in ex: sgn(rep,I,x,r["sign"],ex["sign"],bad)
            continue
        if "sign" in ex: sgn(rep,I,x,r["sign"],ex["sign"],bad)
        e=I.norm(rp.f[2],y) if type(rp) is A and len(rp.f)==3 else None
        s2=I.norm(rp.f[1],y) if type(rp) is A and len(rp.f)==3 else None
        if "sign" in ex: sgn(rep,I,y,s2,ex["sign"],bad)
        if "e" in ex:
            w=ex["e"](I.sym)
            if type(e) is not T: rep.undecided("%s: exponent not identified"%what); return
            if not(e is w or y.iv(sub(e,w))==(0,0)): bad("exponent","the exponent is %s (%s) instead of %s"%(e,y.iv(e),w))
        if ex.get("exact") and type(e) is T and "wrap(" in str(e): bad("exponent truncated","an exponent outside the range is neither infinite nor zero")
    if ok: rep.ok(what)
def sgn(rep,I,x,s,want,bad):
    d=signs(I,x,s) if s is not None else None
    w={want}
    if d is not None and set(d)!=w: bad("sign","the sign is not that of the text")

DECODE={"binary":2,"octal":8,"display":10,"lower_hex":16,"upper_hex":16,"debug":10}
class Fmt(C14):
    """strings under construction are A(("str", tokens)); digits come from an abstract vector: the first one, then any number of another one"""
    def __init__(s,*a,**k):
        C14.__init__(s,*a,**k); s.d=(1,2); s.empty=False; s.conv=None; s.sub=None; s.made=[]
    def val(s,st,v,ctx="v"):
        v=s.norm(v,st); n=0
        while type(v) is R and n<5:
            v=s.norm(s.getp(st,v.loc,tuple(p for p in v.proj if p not in(SL,)),None,ctx),st); n+=1
        return v
    def put(s,st,ref,toks):
        r=s.norm(ref,st); n=0
        while type(r) is R and n<5:
            v=s.norm(s.getp(st,r.loc,r.proj,None,"v"),st)
            if type(v) is R: r=v; n+=1
            else: break
        if type(r) is not R: return False
        v=s.norm(s.getp(st,r.loc,r.proj,None,"v"),st)
        if not is_(v,"str"): return False
        log=list(v.var[1]); g=st.g
        for t in toks:
            d=(DIG(s.d[0]),DIG(s.d[1]))
            if g[:1]==("it",) and g[2] is not None and isinstance(t,str):
                want=d[g[2]]
                if t.upper()!=want:
                    if want!=".": s.bad.append(("digit text","the digit %d is written as '%s'"%(s.d[g[2]],t)))
                if g[2]==1 and log and log[-1]==t and t.upper()==d[1]: g=("it",g[1],None)
                else: log.append(t); g=("it",g[1],None)
            else: log.append(t)
        if len(log)>24: raise Abort("text grows")
        st.g=g; s.setp(st,r.loc,r.proj,A(v.ty,("str",tuple(log)),()))
        return True
    def deliver(s,st,k):
        """next element of the digits: [(state, ref or None, next k)]"""
        out=[]
        if st.g[2] is not None: s.bad.append(("digit lost","the digit %d is skipped"%s.d[st.g[2]]))
        def one(j,y):
            l=("H","dg%d"%j); y.mem[l]=K(s.d[j]); y.g=("it",1,j); out.append((y,R(l,(),False),1))
        if k==0: one(0,st.copy())
        else:
            one(1,st.copy()); y=st.copy(); y.g=("it",1,None); out.append((y,None,1))
        return out
    def incall(s,st,fn,b,c,args,ctx,depth):
        p=c.get("rpath") or c.get("path") or ""; full=c.get("full") or p; q=p.split("::")[-1]; q=q.rstrip(">") if q.endswith(">") and "<" not in q else q
        U=A(None,None,())
        f=s.P.fns.get(c.get("id"))
        if f is not None and f["local"]:
            if f["path"].endswith("::convert_to_radix") and s.conv is not None:
                s.made.append(("conv",s.radof(st,args[1])))
                return s.conv(st)
            if f["path"].endswith("BigFloatNumber::is_subnormal") and s.sub is not None: return [(st,K(int(s.sub)))]
            return None
        a0=args[0] if args else None
        if re.search(r"std::string::String::(new|with_capacity)\Z",full): return [(st,A(None,("str",()),()))]
        if q in("try_reserve_exact","try_reserve"): return [(st,A(None,0,(U,)))]
        if q in("reserve","reserve_exact","shrink_to_fit"): return [(st,U)]
        if re.search(r"std::string::String::push\Z|<std::string::String as std::fmt::Write>::write_char\Z",full):
            v=s.norm(args[1],st); x=st.const(v) if type(v) is T else None
            if s.put(st,a0,[chr(x) if x is not None else "?"]): return [(st,U if "push" in full else A(None,0,(U,)))]
            return None
        if re.search(r"std::string::String::push_str\Z|<std::string::String as std::fmt::Write>::write_str\Z|<std::string::String as std::ops::AddAssign<&str>>::add_assign\Z",full):
            t=s.textof(st,args[1])
            if s.put(st,a0,t): return [(st,U if "write" not in full else A(None,0,(U,)))]
            return None
        if re.search(r"fmt::Write>?::write_fmt\Z",full):
            v=s.val(st,args[1])
            if s.put(st,a0,v.var[1] if is_(v,"args") else ["?"]): return [(st,A(None,0,(U,)))]
            return None
        m=re.search(r"fmt::rt::Argument::<'_>::new_(\w+)::<",full)
        if m:
            v=s.val(st,a0)
            if type(v) is T and re.search(r"::<&*char>\Z",full):
                k=st.const(v)
                if m.group(1)=="display" and k is not None: return [(st,A(None,("arg","text",(chr(k),)),()))]
                return [(st,A(None,("arg","?",None),()))]
            if type(v) is T: return [(st,A(None,("arg",m.group(1),v),()))]
            if m.group(1)=="display" and (is_(v,"str") or type(v) is S): return [(st,A(None,("arg","text",s.textof(st,a0)),()))]
            return [(st,A(None,("arg","?",None),()))]
        if "std::fmt::Arguments" in full and q.startswith("from_str"): return [(st,A(None,("args",s.textof(st,a0)),()))]
        if "std::fmt::Arguments" in full and re.search(r"::new(::<|\Z)",full): return [(st,A(None,("args",s.template(st,args)),()))]
        if full.endswith("std::string::ToString>::to_string") or re.search(r"<str as .*ToOwned>::to_owned|String as std::convert::From<&str>>::from",full):
            return [(st,A(None,("str",s.textof(st,a0)),()))]
        if q=="format" and "fmt" in full or full.endswith("std::fmt::format"):
            v=s.val(st,a0); return [(st,A(None,("str",v.var[1] if is_(v,"args") else ("?",)),()))]
        if q in("must_use",): return [(st,a0)]
        # the vector of digits
        v=s.val(st,a0) if a0 is not None else None
        if is_(v,"digits"):
            if q=="is_empty": return [(st,K(int(s.empty)))]
            if q=="len":
                return [(st,K(0) if s.empty else Sym("dlen",1,LENMAX))]
            if q in("deref","as_slice","as_ref","borrow"): return [(st,a0)]
            if q in("iter","into_iter"): st.g=("it",0,None); return [(st,A(None,("iter",0),()))]
            if q in("first","split_first"): s.odd.append(full); return None
            if q=="index":
                i=s.norm(args[1],st)
                if type(i) is T:
                    j=0 if st.iv(i)==(0,0) else 1 if st.iv(i)[0]>0 else None
                    if j is None: s.odd.append("index of a digit"); return None
                    l=("H","dg%d"%j); st.mem[l]=K(s.d[j]); return [(st,R(l,(),False))]
        if is_(v,"iter"):
            k=v.var[1]; fns=v.f
            if q in("into_iter","by_ref"): return [(st,a0)]
            if q in("map","copied","cloned","enumerate","skip","for_each","next","fold","extend"):
                if q=="map": return [(st,A(None,("iter",k),fns+(args[1],)))]
                if q in("copied","cloned"): return [(st,A(None,("iter",k),fns+(A(None,("copy",),()),)))]
                if q=="next":
                    out=[]
                    for y,r,k2 in s.empties(st) if s.empty else s.deliver(st,k):
                        rr=s.norm(a0,y); 
                        while type(s.norm(s.getp(y,rr.loc,rr.proj,None,"v"),y)) is R: rr=s.norm(s.getp(y,rr.loc,rr.proj,None,"v"),y)
                        s.setp(y,rr.loc,rr.proj,A(v.ty,("iter",k2),fns))
                        if r is None: out.append((y,A(None,0,()))); continue
                        for z,e in s.through(y,fns,r,depth,ctx): out.append((z,A(None,1,(e,))))
                    return out
                if q=="for_each":
                    todo=[(st,k)]; out=[]
                    for _ in range(3):
                        nxt=[]
                        for x,kk in todo:
                            for y,r,k2 in s.empties(x) if s.empty else s.deliver(x,kk):
                                if r is None: out.append((y,U)); continue
                                for z,e in s.through(y,fns,r,depth,ctx):
                                    w=s.apply(z,args[1],[e],depth,ctx)
                                    if w is None: s.odd.append("closure of for_each"); return None
                                    for u,_r in w: nxt.append((u,k2))
                        todo=nxt
                    return out
                s.odd.append(full); return None
        if re.search(r"Vec<u8>|slice::Iter<'_, u8>|\[u8\]",full) and a0 is not None and (is_(v,"digits") or is_(v,"iter")): s.odd.append(full)
        if q in("deref","as_str","as_ref","borrow") and is_(v,"str"): return [(st,a0)]
        return C14.incall(s,st,fn,b,c,args,ctx,depth) if not re.search("Chars|Vec::<u8>::push",full) else None
    def empties(s,st): return [(st.copy(),None,0)]
    def through(s,st,fns,e,depth,ctx):
        xs=[(st,e)]
        for f in fns:
            ys=[]
            for x,v in xs:
                if is_(f,"copy"): ys.append((x,s.val(x,v)))
                else:
                    w=s.apply(x,f,[v],depth,ctx)
                    if w is None: s.odd.append("closure of map"); return []
                    ys+=w
            xs=ys
        return xs
    def textof(s,st,v):
        v=s.val(st,v)
        if type(v) is S and isinstance(v.v,str): return tuple(v.v)
        if is_(v,"str"): return v.var[1]
        return ("?",)
    def radof(s,st,v):
        v=s.norm(v,st)
        return [x["n"] for x in s.P.ty[s.P.tyid("defs::Radix")]["variants"]][v.var] if type(v) is A and isinstance(v.var,int) else None
    def template(s,st,args):
        """pieces of a format string in the compact encoding of the compiler"""
        t=s.val(st,args[0]); a=s.val(st,args[1]) if len(args)>1 else None
        if type(t) is S and isinstance(t.v,(str,bytes)): by=t.v if isinstance(t.v,bytes) else t.v.encode("latin1")
        elif type(t) is A and all(type(x) is T for x in t.f) and t.f: by=bytes(st.const(x) for x in t.f)
        else: return ("?",)
        al=list(a.f) if type(a) is A else []
        out=[]; i=0; j=0
        while i<len(by) and by[i]!=0:
            n=by[i]; i+=1
            if n<0x80: out+=list(by[i:i+n].decode("utf8")); i+=n
            elif n==0x80: k=by[i]|by[i+1]<<8; out+=list(by[i+2:i+2+k].decode("utf8")); i+=2+k
            elif n>=0xC0:
                fl=0; wd=0
                if n&1: fl=int.from_bytes(by[i:i+4],"little"); i+=4
                if n&2: wd=by[i]|by[i+1]<<8; i+=2
                if n&4: i+=2
                if n&8: j=by[i]|by[i+1]<<8; i+=2
                if n&0x30 or wd and not fl>>24&1: return tuple(out)+("?",)
                x=s.norm(al[j],st) if j<len(al) else None; j+=1
                if is_(x,"arg") and x.var[1]=="text": out+=list(x.var[2])
                elif is_(x,"arg") and x.var[1] in DECODE and type(x.var[2]) is T:
                    if fl>>23&1: out+={2:"0b",8:"0o",16:"0x"}.get(DECODE[x.var[1]],"")
                    out.append(("N",DECODE[x.var[1]],x.var[2]))
                else: out.append("?")
            else: return tuple(out)+("?",)
        return tuple(out)
def is_(v,k): return type(v) is A and isinstance(v.var,tuple) and v.var[:1]==(k,)
def DIG(d): return "0123456789ABCDEF"[d]
def formatter(rep,P):
    fs=[f for f in P.fns.values() if f["local"] and re.search(r"BigFloatNumber>::format\Z",f["path"])]
    if not fs: rep.undecided("no BigFloatNumber::format"); return
    fn=fs[0]; rep.unit(fn["path"]); n=0; tres=None
    for rdx,r in RAD.items():
        jobs=[(None,False,"zero")]
        for d in range(r): jobs.append((d,False,"normal")); jobs.append((d,True,"subnormal"))
        for d,sub_,lab in jobs:
            for sg in (0,1):
                for el,(lo,hi) in (("e<1",(EMIN,0)),("e>=1",(1,EMAX))):
                    if d is None and el!="e<1": continue
                    if sub_ and el!="e<1": continue
                    if d is not None and d>2 and sg==0: continue
                    what="format(%s, %s%s, %s%s)"%(rdx,"-" if sg==0 else "",lab,el,"" if d is None else ", digits %d, %d"%(d,(d+1)%r))
                    I=Fmt(P,root=fn["id"],ext=True); I.budget=100000; st=State(); st.g=("it",0,None)
                    I.d=(d or 0,((d or 0)+1)%r); I.empty=d is None; I.sub=sub_; I.pinned=set(I.pinned)|{"xe"}
                    e=Sym("xe",lo,hi) if d is not None else K(0)
                    I.conv=lambda x: [(x,A(None,0,(A(None,None,(A(I.tsign,sg,()),A(None,("digits",),()),e)),)))]
                    args=mkargs(I,st,fn,hook=lambda i,nm_,t,s_: radval(P,rdx) if P.tys(t)=="defs::Radix" else None)
                    try: outs=I.run(fn["id"],args,st)
                    except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as ex: rep.undecided("%s: %r"%(what,ex)); continue
                    rep.fns|=I.stats["fns"]; n+=1
                    if I.odd: rep.undecided("%s: %s"%(what,I.odd[0])); continue
                    judge(rep,P,I,rdx,r,what,d,sg,sub_,e,outs)
    rep.count("formatted_classes",n)
def judge(rep,P,I,rdx,r,what,d,sg,sub_,e,outs):
    ok=[True]
    def bad(k,m):
        if ok[0]: rep.bad("format %s | %s"%(rdx,k),"%s: %s"%(what,m))
        ok[0]=False
    if not any(k=="conv" for k,_ in I.made): rep.undecided("%s: no conversion of the digits identified"%what); return
    for k,x in I.made:
        if x!=rdx: bad("radix","the digits are taken in radix %s"%x); return
    for k,m in sorted(set(I.bad)): bad(k,m)
    n=0
    for x,v in outs:
        v=I.norm(v,x)
        if type(v) is A and v.var==1: continue
        t=I.val(x,v.f[0]) if type(v) is A and v.var==0 else None
        if not is_(t,"str") or "?" in t.var[1]: rep.undecided("%s: text not identified"%what); return
        n+=1; tk=list(t.var[1]); txt=shown(tk)
        if x.g[2] is not None: bad("digit lost","the text '%s' lacks a digit"%txt)
        if tk[:1]==["-"]:
            if sg!=0: bad("sign","the text '%s' of a positive number has a minus"%txt)
            tk=tk[1:]
        else:
            if sg==0: bad("sign","the text '%s' of a negative number has no minus"%txt)
            if tk[:1]==["+"]: tk=tk[1:]
        if d is None:
            if not re.match(r"0+(\.0*)?\Z|\.0+\Z","".join(c if isinstance(c,str) else "N" for c in tk)): bad("zero","zero is written as '%s'"%txt)
            continue
        A_=[]; j=0
        while j<len(tk) and isinstance(tk[j],str) and tk[j].upper() in "0123456789ABCDEF"[:r]: A_.append(tk[j].upper()); j+=1
        B_=[]; dot=j<len(tk) and tk[j]=="."
        if dot:
            j+=1
            while j<len(tk) and isinstance(tk[j],str) and tk[j].upper() in "0123456789ABCDEF"[:r]: B_.append(tk[j].upper()); j+=1
        w=[DIG(I.d[0]),DIG(I.d[1])]
        seq=A_+B_; shift=len(A_)
        if seq[:1]==["0"] and seq[1:] in (w,w[:1]) and len(A_)==1 and not(seq in(w,w[:1]) and not sub_): shift=0; seq=seq[1:]
        if seq not in(w,w[:1]): bad("digits","the digits of '%s' are not the number's (%s and any number of %s)"%(txt,w[0],w[1])); continue
        sp=SEP[rdx][0]; got="".join(c.lower() if isinstance(c,str) else "N" for c in tk[j:j+len(sp)])
        if got!=sp: bad("separator","'%s': the exponent does not begin with '%s', which the parser expects"%(txt,sp)); continue
        j+=len(sp); m=1
        if j<len(tk) and tk[j] in("+","-"): m=-1 if tk[j]=="-" else 1; j+=1
        if not(j==len(tk)-1 and isinstance(tk[j],tuple)): bad("exponent","'%s': no exponent, or text after it"%txt); continue
        _,er,et=tk[j]
        if er!=r: bad("exponent radix","the exponent is written in radix %d, and read in radix %d"%(er,r)); continue
        if x.iv(et)[0]<0 and not(er==10 and j>0 and tk[j-1] not in("+","-")): bad("exponent sign","'%s': the exponent written after the sign can be negative (%s)"%(txt,x.iv(et)[0])); continue
        want=sub(e,K(shift)); df=sub(scale(et,m),want)
        if x.iv(df)!=(0,0): bad("exponent value","'%s' has the exponent %s for digits 0.%s.. with exponent e: %s off by %s"%(txt,scale(et,m),w[0],"",x.iv(df))); continue
    if n==0: rep.undecided("%s: no text"%what); return
    if ok[0]: rep.ok(what)
def shown(tk): return "".join(c if isinstance(c,str) else "<number>" for c in tk)

def dispatch(rep,P):
    """each radix reaches the conversion of its base"""
    LG={"Bin":1,"Oct":3,"Hex":4}
    for way in("to","from"):
        fs=[f for f in P.fns.values() if f["local"] and re.search(r"BigFloatNumber>?::convert_%s_radix\Z"%way,f["path"])]
        if not fs: rep.undecided("no convert_%s_radix"%way); continue
        fn=fs[0]; rep.unit(fn["path"])
        for rdx in RAD:
            I=CI(P,root=fn["id"],ext=True); I.budget=100000; st=State(); got=[]
            def inc(x,f,b,c,args,ctx,depth):
                g=P.fns.get(c.get("id"))
                if g is None or not g["local"]: return None
                n=g["path"].split("::")[-1]
                if "conv_" in n:
                    got.append((n,[x.const(a) for a in (I.norm(a,x) for a in args) if type(a) is T and x.const(a) is not None])); return [(x,I.fresh(g["locals"][0],"r",None))]
                return None
            I.oncall=inc
            args=mkargs(I,st,fn,hook=lambda i,nm_,t,s_: radval(P,rdx) if P.tys(t)=="defs::Radix" else None)
            try: I.run(fn["id"],args,st)
            except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("convert_%s_radix(%s): %r"%(way,rdx,e)); continue
            what="convert_%s_radix(%s)"%(way,rdx)
            if not got: rep.undecided("%s: no conversion identified"%what); continue
            for n,k in got:
                b="dec" if "dec" in n else "bin" if "bin" in n else "comm" if "comm" in n else None
                if b is None: rep.undecided("%s: %s"%(what,n)); continue
                if rdx=="Dec": g=b=="dec"
                elif b=="bin": g=rdx=="Bin"
                elif b=="comm":
                    sh=[z for z in k if z in(1,3,4)]
                    if not sh: rep.undecided("%s: bits per digit not identified"%what); continue
                    g=LG[rdx] in sh
                else: g=False
                if g: rep.ok(what)
                else: rep.bad("%s | dispatch"%what,"%s calls %s%s"%(what,n,tuple(k)))
class Parts(CI):
    """the conversion of a number to decimal digits by halves: the number of digits of every part, and which part comes first"""
    def __init__(s,f,*a,**k):
        CI.__init__(s,*a,**k); s.f=f; s.oncall=s.incall; s.rt=f["locals"][0]; s.vt=s.P.ty[s.rt]["args"][0]; s.rec=[]
    def two(s,x,rt,v,name):
        e=x.copy(); return [(x,models.ok(rt,v)),(e,models.err(rt,s.fresh(s.P.ty[rt]["args"][1],name+".e",None)))]
    def incall(s,x,fn,b,c,args,ctx,depth):
        name="%s/%d.t"%(ctx,b); g=s.P.fns.get(c.get("id")); p=c.get("rpath") or c.get("path") or ""
        if g is not None and g["id"]==s.f["id"]:
            x.purge(name); v=args[0]
            w=s.norm(s.getp(x,v.loc,v.proj,None,name),x) if type(v) is R else v
            role=dict(w.meta).get("role","?") if type(w) is A else "?"
            l=args[s.il]; out=[]
            for m,y in ((0,x.copy()),(1,x)):
                if type(args[s.im]) is T and not(y.refine(eq(args[s.im],K(m)),True) and y.settle()): continue
                s.rec.append((y.copy(),l,args[s.ip],m,role))
                r=s.norm(s.fresh(s.vt,name+".v",y),y)
                n=l if m==0 else Sym(name+".n",0,1<<40)
                if m!=0 and type(l) is T: y.refine(le(n,l),True)
                out+=s.two(y,s.rt,A(r.ty,r.var,(n,)+r.f[1:],(("part",(role if m==0 else role.upper(),)),)),name)
            return out
        if g is not None and g["local"]:
            dty=g["locals"][0]; ts=s.P.tys(dty)
            if ts.startswith("std::result::Result<(common::buf::WordBuf, common::buf::WordBuf)"):
                x.purge(name); r=s.norm(s.fresh(s.P.ty[dty]["args"][0],name+".qr",x),x)
                f=[s.norm(z,x) for z in r.f]
                return s.two(x,dty,A(r.ty,r.var,tuple(A(w.ty,w.var,w.f,w.meta+(("role",k),)) for w,k in zip(f,"qr")),r.meta),name)
            if dty==s.tman and len(args)==1:
                w=s.norm(args[0],x)
                if type(w) is A and dict(w.meta).get("role"):
                    x.purge(name); v=s.norm(s.fresh(s.tman,name+".m",x),x)
                    return [(x,A(v.ty,v.var,v.f,v.meta+(("role",dict(w.meta)["role"]),)))]
        if re.search(r"Vec::<T, A>::append$",p):
            v,r=models.vecof(s,x,args[0],name); w,r2=models.vecof(s,x,args[1],name)
            if v is not None and w is not None:
                pa=dict(v.meta).get("part",("?",))+dict(w.meta).get("part",("?",))
                s.setp(x,r.loc,r.proj,A(v.ty,v.var,(add(v.f[0],w.f[0]),)+v.f[1:],(("part",pa),)))
                s.setp(x,r2.loc,r2.proj,A(w.ty,w.var,(K(0),)+w.f[1:],()))
                return [(x,A(s.placety(fn,fn["blocks"][b]["t"]["p"]),0,()))]
        return None
def places(rep,P):
    """a part that is not the leading one gives exactly the number of digits it stands for, zeros included, and the upper part comes first"""
    fs=[f for f in P.fns.values() if f["local"] and f["path"].startswith("mantissa::") and f["path"].split("::")[-1]=="conv_to_dec"]
    if not fs: rep.undecided("decimal conversion by parts: function not found"); return
    f=fs[0]; rep.unit(f["path"]); W=f["path"]
    # parameters by type: number, digit count (first integer), powers (slice), level (second integer), leading part (bool)
    kinds=[P.ty[f["locals"][i+1]]["k"] for i in range(f["argc"])]
    ints=[i for i,k in enumerate(kinds) if k=="int"]; bl=[i for i,k in enumerate(kinds) if k=="bool"]
    if len(ints)!=2 or len(bl)!=1 or P.ty[f["locals"][0]].get("path")!="std::result::Result": rep.undecided("%s: parameters"%W); return
    H=Sym("half",1,1<<40)
    for lead in(0,1):
        I=Parts(f,P,root=f["id"]); I.budget=200000; I.il,I.ip=ints; I.im=bl[0]
        st=State(); args=mkargs(I,st,f,hook=lambda i,n,t,s_: scale(H,2) if i==ints[0] else K(lead) if i==bl[0] else None)
        try: outs=I.run(f["id"],list(args),st)
        except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(W,e)); continue
        rep.fns|=I.stats["fns"]
        what="%s, %s part"%(W,"leading" if lead else "other")
        lv=args[ints[1]]
        for x,l,p,m,role in I.rec:
            if type(l) is not T or type(p) is not T: rep.undecided("%s: arguments of the recursion"%what); continue
            y=x.copy()
            if not y.settle(): continue
            if sub(l,H)==K(0) and sub(p,sub(lv,K(1)))==K(0): rep.ok("%s: a part has half of the digits and the next smaller power"%what)
            elif sub(l,H).op=="k" or sub(p,lv).op=="k": rep.bad("%s | recursion"%W,"%s: a part is converted with %s digits at level %s, from %s digits at level %s"%(what,l,p,scale(H,2),lv))
            else: rep.undecided("%s: recursion with %s, %s"%(what,l,p))
        for x,v in outs:
            v=I.norm(v,x)
            if type(v) is not A or v.var!=0 or not x.settle(): continue
            w=I.norm(v.f[0],x); n=w.f[0] if type(w) is A and w.f else None
            pa=dict(w.meta).get("part") if type(w) is A else None
            if pa and "?" not in pa:
                # part order: the quotient is the upper half
                low=tuple(q.lower() for q in pa)
                if low in(("q","r"),("r",)): rep.ok("%s: upper part first"%what)
                else: rep.bad("%s | order"%W,"%s: the result consists of the parts %s (q the upper, r the lower half)"%(what," ".join(low)))
                if any(q.isupper() for q in pa[1:]): rep.bad("%s | lower part leading"%W,"%s: a part is converted without its leading zeros although another part precedes it"%what)
            if not lead:
                if type(n) is not T: rep.undecided("%s: number of digits"%what); continue
                d=sub(n,scale(H,2))
                if d==K(0) or x.iv(d)==(0,0): rep.ok("%s: as many digits as the part stands for"%what)
                elif d.op in("k","lin","s") and set(names(d))<={"half"} : rep.bad("%s | digits"%W,"%s: a result has %s digits where the part stands for %s: digits after it get the wrong place"%(what,n,scale(H,2)))
                else: rep.undecided("%s: %s digits"%(what,n))
    # every use from outside: 2^k digits at level k-1, as the leading part
    cnt=0
    for g in sorted((g for g in P.fns.values() if g["local"] and g["id"]!=f["id"]),key=lambda g:g["path"]):
        if not any(B["t"]["k"]=="call" and (B["t"]["f"].get("v") or {}).get("id")==f["id"] for B in g["blocks"]): continue
        cnt+=1
        I=Parts(f,P,root=g["id"]); I.budget=300000; I.il,I.ip=ints; I.im=bl[0]; st=State()
        try: I.run(g["id"],list(mkargs(I,st,g)),st)
        except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(g["path"],e)); continue
        rep.fns|=I.stats["fns"]; rep.unit(g["path"])
        if not I.rec: rep.undecided("%s: conversion not reached"%g["path"])
        for x,l,p,m,role in I.rec:
            k=None
            if type(l) is T and type(p) is T:
                if l.op=="shl" and (x.const(l.args[0]) or 0) in(1,2,4,8): k=sub(add(l.args[1],K(x.const(l.args[0]).bit_length()-1)),p)
                elif x.const(l) is not None and x.const(p) is not None and x.const(l)>0 and x.const(l)&(x.const(l)-1)==0: k=K(x.const(l).bit_length()-1-x.const(p))
            if k==K(1): rep.ok("%s: 2^k digits are split by the power of ten at level k-1"%g["path"])
            elif k is not None and k.op=="k": rep.bad("%s | level"%g["path"],"%s: %s digits are split at level %s"%(g["path"],l,p))
            else: rep.undecided("%s: %s digits at level %s"%(g["path"],l,p))
    rep.count("callers of the conversion by parts",cnt)
def names(t):
    L={}; leaves(t,L); return L
def extfmt(rep,P):
    """infinities and NaN at BigFloat level, both ways"""
    fs=[f for f in P.fns.values() if f["local"] and f["path"]=="ext::BigFloat::format"]
    tb=P.tyid("ext::BigFloat"); tf=P.tyid("ext::Flavor"); vs=[v["n"] for v in P.ty[tf]["variants"]]
    for fn in fs:
        rep.unit(fn["path"])
        for lab,want in (("Inf",r"\+?inf\Z"),("-Inf",r"-inf\Z"),("NaN",r"[+-]?nan\Z")):
          for rdx in RAD:
            I=Fmt(P,root=fn["id"],ext=True); I.budget=100000; st=State(); st.g=("it",0,None); I.conv=None
            what="BigFloat::format(%s, %s)"%(lab,rdx)
            st.mem[("H","self")]=A(tb,0,(A(tf,vs.index("NaN"),(I.fresh(P.ty[tf]["variants"][vs.index("NaN")]["f"][0][1],"er",None),)) if lab=="NaN" else A(tf,vs.index("Inf"),(A(I.tsign,0 if lab[0]=="-" else 1,()),)),))
            args=mkargs(I,st,fn,hook=lambda i,nm_,t,s_: R(("H","self"),(),False) if i==0 else radval(P,rdx) if P.tys(t)=="defs::Radix" else None)
            try: outs=I.run(fn["id"],args,st)
            except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(what,e)); continue
            rep.fns|=I.stats["fns"]; n=0; good=True
            for x,v in outs:
                v=I.norm(v,x)
                if type(v) is A and v.var==1: continue
                t=I.val(x,v.f[0]) if type(v) is A and v.var==0 else None
                if not is_(t,"str") or not all(isinstance(c,str) and c!="?" for c in t.var[1]): rep.undecided("%s: text not identified"%what); good=None; break
                n+=1; tx="".join(t.var[1])
                if not re.match(want,tx.lower()): rep.bad("BigFloat::format %s | name"%lab,"%s writes '%s', which the parser does not read back as %s"%(what,tx,lab)); good=False
            if good and n: rep.ok(what)
            elif good and not n: rep.bad("BigFloat::format %s | refused"%lab,"%s always fails"%what)
    ps=[f for f in P.fns.values() if f["local"] and f["path"]=="ext::BigFloat::parse"]
    for fn in ps:
        rep.unit(fn["path"])
        for rdx in RAD:
            for lab,text,want in (("inf",[ch(c) for c in "inf"],("Inf","+")),("-inf",[ch(c) for c in "-inf"],("Inf","-")),("nan",[ch(c) for c in "nan"],("NaN",None)),("",[],("NaN",None)),
                                  ("1",[ch("1","dig")],("Value","+",1)),("-1",[ch("-"),ch("1","dig")],("Value","-",1)),("11.1",[ch("1","dig"),ch("1","dig"),ch("."),ch("1","dig")],("Value","+",2)),
                                  ("1 and a long exponent",[ch("1","dig")]+[ch(c) for c in SEP[rdx][0]]+[ch("1",rep=True)],("Inf or Value","+")),
                                  ("-1 and a long exponent",[ch("-"),ch("1","dig")]+[ch(c) for c in SEP[rdx][0]]+[ch("1",rep=True)],("Inf or Value","-")),
                                  ("-1 and a long negative exponent",[ch("-"),ch("1","dig")]+[ch(c) for c in SEP[rdx][0]]+[ch("-"),ch("1",rep=True)],("Value","-"))):
                what="BigFloat::parse('%s', %s)"%(lab,rdx)
                I=C14(P,root=fn["id"],ext=True); I.budget=200000; st=State(); st.g=(-1,0); I.text=text; rec=[]
                st.mem[("H","txt")]=A(None,("text",),())
                base=I.oncall
                def inc(x,f,b,c,args,ctx,depth):
                    g=P.fns.get(c.get("id"))
                    if g is not None and g["path"].endswith("::convert_from_radix"):
                        rec.append((x.copy(),[I.norm(a,x) for a in args],g)); x.g=x.g+(("conv",),)
                        return [(x,A(g["locals"][0],0,(symnum(I,"cv",n=Sym("cv.n",1,BLMAX)),)))]
                    return base(x,f,b,c,args,ctx,depth)
                I.oncall=inc
                args=mkargs(I,st,fn,hook=lambda i,nm_,t,s_: R(("H","txt"),(),False,Sym("slen",0,1<<62)) if P.tys(t)=="&str" else radval(P,rdx) if P.tys(t)=="defs::Radix" else None)
                try: outs=I.run(fn["id"],args,st)
                except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(what,e)); continue
                rep.fns|=I.stats["fns"]; good=True
                if I.odd or not I.used: rep.undecided("%s: %s"%(what,(I.odd+["the way the text is read is not known"])[0])); continue
                for x,v in outs:
                    for y,k,pay in flavs(I,x,v):
                        if k=="NaN" and want[0]!="NaN": good=False; rep.bad("BigFloat::parse | NaN","%s can give NaN"%what); continue
                        conv=any(g==("conv",) for g in y.g[2:])
                        kk="Value" if conv and k=="Value" else k
                        if kk not in want[0] or (kk=="Value" and not conv): good=False; rep.bad("BigFloat::parse | %s %s"%(want[0],kk),"%s gives %s%s instead of %s"%(what,k,"" if conv or k!="Value" else " that does not come from the digits",want[0]))
                        elif kk=="Inf":
                            sg=signs(I,y,pay)
                            if sg!={want[1]}: good=False; rep.bad("BigFloat::parse | Inf sign","%s gives the infinity of sign %s"%(what,"/".join(sorted(sg))))
                kinds={k for x,v in outs for y,k,pay in flavs(I,x,v)}
                if want[0]!="NaN" and not(kinds&{w for w in("Inf","Value") if w in want[0]}): good=False; rep.bad("BigFloat::parse | %s refused"%want[0],"%s is never %s"%(what,want[0]))
                for x,a,g in rec:
                    if want[0] in("NaN","Inf"): continue
                    tys=[P.tys(t) for t in g["locals"][1:1+g["argc"]]]
                    for t,v in zip(tys,a):
                        if t=="defs::Sign":
                            if signs(I,x,v)!={want[1]}: good=False; rep.bad("BigFloat::parse | sign","%s: the digits are converted with sign %s"%(what,"/".join(sorted(signs(I,x,v)))))
                        elif t=="defs::Radix":
                            n=[z["n"] for z in P.ty[P.tyid("defs::Radix")]["variants"]][v.var] if type(v) is A else None
                            if n is None: rep.undecided("%s: radix"%what)
                            elif n!=rdx: good=False; rep.bad("BigFloat::parse | radix","%s: the digits are converted in radix %s"%(what,n))
                        elif t=="i32" and len(want)>2:
                            if type(v) is not T or x.iv(v)!=(want[2],)*2: good=False; rep.bad("BigFloat::parse | exponent","%s: the digits are converted with exponent %s instead of %d"%(what,v,want[2]))
                if good: rep.ok(what)
def traits(rep,P):
    TR={"Binary":"Bin","Octal":"Oct","Display":"Dec","UpperHex":"Hex","LowerHex":"Hex"}
    n=0
    for i,fn in sorted(P.fns.items()):
        m=re.search(r"<(?:impl )?(?:ext::BigFloat as )?std::fmt::(\w+)(?: for ext::BigFloat)?>::fmt\Z",fn["path"]) if fn["local"] and "BigFloat" in fn["path"] else None
        if not m or m.group(1) not in TR: continue
        n+=1; rep.unit(fn["path"]); I=Fmt(P,root=fn["id"],ext=True); I.budget=100000; st=State(); st.g=("it",0,None); got=[]; wr=[]
        tr=m.group(1); fmtd=A(None,("str",("formatted",)),())
        def inc(x,f,b,c,args,ctx,depth):
            g=P.fns.get(c.get("id")); p=c.get("full") or c.get("path") or ""
            if g is not None and g["path"]=="ext::BigFloat::format":
                got.append(([z["n"] for z in P.ty[P.tyid("defs::Radix")]["variants"]][I.norm(args[1],x).var] if type(I.norm(args[1],x)) is A else None,[I.norm(a,x) for a in args]))
                t=g["locals"][0]
                return [(x,A(t,0,(fmtd,))),(x.copy(),A(t,1,(I.fresh(P.ty[t]["args"][1],"er",None),)))]
            if re.search(r"LocalKey<.*>::(with|with_borrow_mut|try_with|with_borrow)",p) or re.search(r"LocalKey::<.*>::(with|with_borrow_mut|with_borrow)",p):
                st_=I.apply(x,args[1],[I.fresh(P.ty[I.norm(args[1],x).ty]["id"],"tp",None) if False else R(("H","tp"),(),True)],depth,ctx)
                return st_
            if re.search(r"Formatter::<'_>::(write_str|pad|pad_integral)\Z",p) or p.endswith("fmt::Write>::write_str"):
                wr.append(I.textof(x,args[-1])); return [(x,A(None,0,(A(None,None,()),)))]
            return Fmt.incall(I,x,f,b,c,args,ctx,depth)
        I.oncall=inc
        args=mkargs(I,st,fn)
        try: I.run(fn["id"],args,st)
        except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(fn["path"],e)); continue
        rep.fns|=I.stats["fns"]
        if not got: rep.undecided("%s: no call of format identified"%fn["path"]); continue
        for r,a in got:
            if r==TR[tr]: rep.ok("%s formats in %s"%(tr,r))
            elif r is None: rep.undecided("%s: radix not identified"%tr)
            else: rep.bad("trait %s"%tr,"%s formats in radix %s instead of %s"%(tr,r,TR[tr]))
        if ("formatted",) in wr: rep.ok("%s writes the formatted text"%tr)
        elif wr and all("?" not in w for w in wr): rep.bad("trait %s text"%tr,"%s never writes the formatted text"%tr)
        else: rep.undecided("%s: text written not identified"%tr)
    if n<4: rep.undecided("only %d formatting traits found"%n)
def run(tier="quick"):
    P=prog(); rep=Report("C14",RULE)
    formatter(rep,P); dispatch(rep,P); places(rep,P); extfmt(rep,P); traits(rep,P)
    if tier!="dev": parser(rep,P)
    rep.assume+=["strings are delivered character by character in order by Chars::next","Vec::push, String::push and the formatting machinery of core write what they are given","what the conversions make of digits and exponent is not decided here (N03)"]
    return rep
