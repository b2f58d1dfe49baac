"""C03: comparisons. Every outcome of every comparison function is classified (zero / sign / relation of the effective
exponents / relation of the digits, or NaN / Inf at the BigFloat level) and its sign is compared with the order."""
from roots import *
from report import Report
RULE=("Disjunctive abstract interpretation of each comparison entry point on two fully symbolic operands. Each outcome is split "
 "over the finite classes of the operands (NaN, ±Inf, zero, sign; relation of the exponents and, if equal, of the digits) "
 "and the sign of the returned value is compared with the total order on numbers; the digit comparison itself is opaque.")
def terms(nm):
    e=Sym(nm+".e",EMIN,EMAX); ln=Sym(nm+".len",0,LENMAX); n=Sym(nm+".n",0,BLMAX); sg=Sym(nm+".s.#",0,1)
    return e,ln,n,sg
def mcmps(st,vals):
    r=set()
    for t in list(st.dom)+[v for v in vals if type(v) is T]:
        for a in atoms(t):
            if a.op=="mcmp": r.add(a)
    return r
def zcl(nm):
    e,l,n,sg=terms(nm)
    return [(nm+"=+0",[(eq(n,K(0)),True),(sg,True)]),(nm+"=-0",[(eq(n,K(0)),True),(sg,False)]),
            (nm+">0",[(eq(n,K(0)),False),(sg,True)]),(nm+"<0",[(eq(n,K(0)),False),(sg,False)])]
def fcl(I,nm):
    tf=I.P.tyid("ext::Flavor"); vs=[v["n"] for v in I.P.ty[tf]["variants"]]
    f=Sym(nm+".fl.#",0,len(vs)-1); s=Sym(nm+".inf.#",0,1); V=(eq(f,K(vs.index("Value"))),True)
    return [(nm+"=NaN",[(eq(f,K(vs.index("NaN"))),True)]),(nm+"=+Inf",[(eq(f,K(vs.index("Inf"))),True),(s,True)]),
            (nm+"=-Inf",[(eq(f,K(vs.index("Inf"))),True),(s,False)])]+[(l,[V]+c) for l,c in zcl(nm)]
def rank(l):
    """(major rank, needs comparison) of an operand class"""
    c=l[1:]
    return {"=NaN":None,"=+Inf":3,"=-Inf":-3,"=+0":0,"=-0":0,">0":1,"<0":-1}[c]
def D(a,b):
    ea,la,na,sa=terms(a); eb,lb,nb,sb=terms(b)
    return sub(add(ea,sub(na,scale(la,WORD))),add(eb,sub(nb,scale(lb,WORD))))
def rel_classes(a,b,la,lb,absolute):
    """relation classes of two finite non-zero operands that must be compared by magnitude"""
    ra,rb=rank(la),rank(lb)
    if absolute: ra,rb=(None if ra is None else abs(ra)),(None if rb is None else abs(rb))
    if ra is None or rb is None or ra!=rb or abs(ra)!=1: return [("",[])]
    d=D(a,b)
    return [("exp %s>%s"%(a,b),[(lt(K(0),d),True)]),("exp %s<%s"%(a,b),[(ltz(d),True)]),("exp %s=%s"%(a,b),[(eq(d,K(0)),True)])]
def order(la,lb,rel,dig,absolute):
    ra,rb=rank(la),rank(lb)
    if ra is None or rb is None: return None
    if absolute: ra,rb=abs(ra),abs(rb)
    if ra!=rb or abs(ra)!=1: return (ra>rb)-(ra<rb)
    m=1 if ">" in rel else -1 if "<" in rel else dig
    return m*ra
def starts(I,st,names,ext,absolute):
    for nm in names: consistent(st,nm)
    for labs,x in splits(st,[(fcl(I,n) if ext else zcl(n)) for n in names]):
        pairs=list(itertools.combinations(range(len(names)),2))
        if any(rank(l) is None for l in labs): pairs=[]
        rc=[rel_classes(names[i],names[j],labs[i],labs[j],absolute) for i,j in pairs]
        for rels,y in splits(x,rc): yield labs,{pairs[k]:rels[k] for k in range(len(pairs))},y
def digit_split(y,names,labs,rels,vals):
    """split an outcome over the digit comparisons it depends on"""
    need=[p for p,r in rels.items() if "=" in r]
    if not need: yield {},y; return
    for combo in itertools.product((1,0,-1),repeat=len(need)):
        d=dict(zip(need,combo))
        if not trans(d): continue
        z=y.copy(); good=True
        for (i,j),rel in d.items():
            na=terms(names[i])[2]; nb=terms(names[j])[2]
            for m in mcmps(z,vals):
                if {m.args[1],m.args[3]}=={na,nb}:
                    o=1 if m.args[1] is na else -1
                    good=good and z.constrain(m,rel*o,rel*o)
        if good and z.settle(): yield d,z
def trans(d):
    if len(d)<3: return True
    ab,ac,bc=d[(0,1)],d[(0,2)],d[(1,2)]
    return not(ab==bc and ac!=ab) and not(ab==0 and ac!=bc) and not(bc==0 and ac!=ab)
def sgn(n): return "+" if n>0 else "-" if n<0 else "0"
def run(tier):
    P=prog(); rep=Report("C03",RULE)
    roots=[]
    for n,absol in(("cmp",False),("abs_cmp",True)):
        roots.append((numfn(P,n),"num",absol,"int"))
        roots.append((extfn(P,n),"ext",absol,"optint"))
    for path in P.bypath:
        if path.startswith("<") and "ext::BigFloat" in path and path.split("::")[-1] in("eq","ne","partial_cmp","lt","le","gt","ge") and "PartialOrd" in path+"PartialEq" :
            m=path.split("::")[-1]
            roots.append((P.bypath[path][0],"ext",False,{"eq":"eq","ne":"ne","partial_cmp":"optord"}.get(m,m)))
        if path.startswith("<") and "num::BigFloatNumber" in path and path.split("::")[-1] in("eq","partial_cmp") and "Flavor" not in path:
            m=path.split("::")[-1]
            roots.append((P.bypath[path][0],"num",False,{"eq":"eq","partial_cmp":"optord"}[m]))
    for n in("max","min"): roots.append((extfn(P,n),"ext",False,n))
    roots.append((extfn(P,"clamp"),"ext",False,"clamp"))
    cnt=0
    for fn,lev,absol,kind in roots:
        if fn is None: rep.undecided("comparison entry point missing"); continue
        cnt+=1; rep.unit(fn["path"])
        I=CI(P,root=fn["id"]); st0=State()
        args=mkargs(I,st0,fn)
        names=("a","b","c")[:fn["argc"]]
        for nm,src in(("a",1),("b",2),("c",3)):
            for loc in(("H",nm),("H",nm+"2")):
                v=st0.mem.get(loc)
                if type(v) is A: st0.mem[loc]=stamp(I,v,src,st0)
        for labs,rels,st in starts(I,st0.copy(),names,lev=="ext",absol):
            I.pinned=set(names); I.budget=200000
            lab=", ".join(labs+tuple(r for r in rels.values() if r))
            try: outs=I.run(fn["id"],args,st)
            except Abort as e: rep.undecided("%s: %s"%(fn["path"],e)); continue
            for x,v in outs:
                v=I.norm(v,x)
                vals=[v] if type(v) is T else [f for f in getattr(v,"f",()) if type(f) is T]
                for dig,y in digit_split(x,names,labs,rels,vals):
                    dl=lab+"".join(", digits %s%s%s"%(names[i],"<=>"[d+1],names[j]) for (i,j),d in dig.items())
                    key="%s | %s"%(fn["path"],dl)
                    if kind in("max","min","clamp"):
                        got=picked(I,y,v); want=pick_want(kind,labs,rels,dig)
                        if got is None: rep.undecided("%s (%s): result not identified"%(fn["path"],dl))
                        elif got in want or (got=="NaN(memory)" and any(type(w) is tuple for w in want)): rep.ok("%s (%s) -> %s"%(fn["path"],dl,got))
                        else: rep.bad(key,"%s: for %s the result is %s, the order requires one of %s"%(fn["path"],dl,got,want))
                        continue
                    exp=order(labs[0],labs[1],rels.get((0,1),""),dig.get((0,1)),absol)
                    got=observe(I,y,v,kind); want=wanted(kind,exp)
                    if got is None: rep.undecided("%s (%s): outcome not determined: %r"%(fn["path"],dl,v)); continue
                    if got==want: rep.ok("%s (%s) -> %s"%(fn["path"],dl,got))
                    else: rep.bad(key,"%s: for %s the result is %s, the order requires %s"%(fn["path"],dl,got,want))
        rep.fns|=I.stats["fns"]
    rep.count("comparison_entry_points",cnt)
    if cnt<8: rep.bad("floor","only %d comparison entry points found"%cnt)
    mantissa_words(rep,P)
    return rep
def mantissa_words(rep,P): pass
def observe(I,y,v,kind):
    if kind=="int": s=signof(y,v); return None if s=="?" else s
    if kind=="optint":
        k,t=decode_opt(I,y,v)
        if not k: return None
        if t is None: return "None"
        s=signof(y,t); return None if s=="?" else s
    if kind=="optord":
        k,t=decode_opt(I,y,v)
        if not k: return None
        if t is None: return "None"
        t=I.norm(t,y)
        if type(t) is A: return "-0+"[t.var]
        return None
    if type(v) is T:
        c=y.const(v); return None if c is None else str(bool(c))
    return None
def wanted(kind,exp):
    if kind in("int","optint","optord"): return "None" if exp is None else sgn(exp)
    f={"eq":lambda e:e==0,"ne":lambda e:e!=0,"lt":lambda e:e is not None and e<0,"le":lambda e:e is not None and e<=0,"gt":lambda e:e is not None and e>0,"ge":lambda e:e is not None and e>=0}
    return str(f[kind](exp))
def stamp(I,v,src,st):
    def go(v):
        if type(v) is A:
            if v.ty==I.tvec: return v.with_meta(src=K(src))
            return A(v.ty,v.var,[go(x) for x in v.f],v.meta)
        if type(v) is E: return E(v.ty,v.sym,v.name,tuple((i,tuple(go(x) for x in p)) for i,p in v.pay))
        if type(v) is L and I.P.ty[v.ty]["k"]=="adt":
            w=I.expand(v,None)
            return go(w) if type(w) is A else v
        return v
    return go(v)
def picked(I,x,v):
    """which operand a BigFloat result is: 'NaN', ('num',i), '+Inf'/'-Inf', or None"""
    v=full(I,x,v)
    if type(v) is not A: return None
    f=I.norm(v.f[0],x)
    if type(f) is not A: return None
    vn=I.P.ty[f.ty]["variants"][f.var]["n"]
    if vn=="NaN":
        p=I.norm(f.f[0],x)
        if type(p) is A and p.var==1:
            e=I.norm(p.f[0],x)
            if type(e) is A and e.var==MEM: return "NaN(memory)"
        return "NaN"
    if vn=="Inf":
        s=signterm(I.norm(f.f[0],x)); c=x.const(s) if s is not None else None
        return None if c is None else "+Inf" if c else "-Inf"
    n=NumView(I,x,f.f[0]); m=n.mark("src")
    return ("num",kv(m)) if m is not None else None
def pick_want(kind,labs,rels,dig):
    if any(rank(l) is None for l in labs): return ["NaN"]
    def val(i):
        c=labs[i][1:]
        return c[1:] if "Inf" in c else ("num",i+1)
    def o(i,j):
        if (i,j) in rels: return order(labs[i],labs[j],rels[(i,j)],dig.get((i,j)),False)
        return -o(j,i)
    if kind in("max","min"):
        e=o(0,1)*(1 if kind=="max" else -1)
        return [val(0)] if e>0 else [val(1)] if e<0 else [val(0),val(1)]
    if o(1,2)>0: return ["NaN"]
    if o(0,1)<0: return [val(1)]
    if o(0,2)>0: return [val(2)]
    return [val(0)]+([val(1)] if o(0,1)==0 else [])+([val(2)] if o(0,2)==0 else [])
