"""Hash-consed integer/boolean terms in a linear normal form, and interval evaluation.

Terms are value numbers: two equal terms denote equal runtime values. Linear combinations are kept canonical, and
facts about them are intervals (a zone-like domain); no solver is involved."""
INF=10**60
class T:
    __slots__=("op","args","lo","hi","syms","uid","_h")
    def __repr__(self): return show(self)
    def __hash__(self): return self._h
    def __eq__(self,o): return self is o
    def __lt__(self,o): return self.uid<o.uid
_tab={}
_n=[0]
def _mk(op,args,lo,hi,syms):
    key=(op,)+args
    t=_tab.get(key)
    if t is None:
        t=T(); t.op=op; t.args=args; t.lo=lo; t.hi=hi; t.syms=syms
        _n[0]+=1; t.uid=_n[0]; t._h=hash(("T",t.uid)); _tab[key]=t
    return t
def K(n):
    return _mk("k",(int(n),),int(n),int(n),frozenset())
def Sym(name,lo,hi):
    return _mk("s",(name,lo,hi),lo,hi,frozenset((name,)))
TRUE=K(1); FALSE=K(0)
def isk(t): return t.op=="k"
def kv(t): return t.args[0]
def _u(*ts):
    s=frozenset()
    for t in ts:
        if t.syms: s=s|t.syms if s else t.syms
    return s
def lin_parts(t):
    if t.op=="k": return t.args[0],()
    if t.op=="lin": return t.args[0],t.args[1]
    return 0,((t,1),)
def mk_lin(c,parts):
    parts=tuple((a,k) for a,k in parts if k!=0)
    if not parts: return K(c)
    if c==0 and len(parts)==1 and parts[0][1]==1: return parts[0][0]
    lo=hi=c
    for a,k in parts:
        x,y=a.lo*k,a.hi*k
        if k<0: x,y=y,x
        lo+=x; hi+=y
    return _mk("lin",(c,parts),max(lo,-INF),min(hi,INF),_u(*[a for a,_ in parts]))
def lincomb(a,ka,b,kb):
    ca,pa=lin_parts(a); cb,pb=lin_parts(b)
    d={}
    for x,k in pa: d[x]=d.get(x,0)+k*ka
    for x,k in pb: d[x]=d.get(x,0)+k*kb
    return mk_lin(ca*ka+cb*kb,tuple(sorted(d.items(),key=lambda z:z[0].uid)))
def add(a,b): return lincomb(a,1,b,1)
def sub(a,b): return lincomb(a,1,b,-1)
def scale(a,k): return lincomb(a,k,K(0),1)
def mul(a,b):
    if isk(a): return scale(b,kv(a))
    if isk(b): return scale(a,kv(b))
    c=[x*y for x in (a.lo,a.hi) for y in (b.lo,b.hi)]
    if a.uid>b.uid: a,b=b,a
    return _mk("mul",(a,b),max(min(c),-INF),min(max(c),INF),_u(a,b))
def tdiv(x,y):
    q=abs(x)//abs(y)
    return q if (x>=0)==(y>=0) else -q
def div(a,b,nonneg=None):
    """truncating division; nonneg: the caller knows a>=0 (from an interval)"""
    if isk(a) and isk(b) and kv(b)!=0: return K(tdiv(kv(a),kv(b)))
    if isk(b) and kv(b)>0:
        c=kv(b)
        if c==1: return a
        nn=a.lo>=0 if nonneg is None else (nonneg or a.lo>=0)
        if nn:
            c0,ps=lin_parts(a)
            if ps and all(k%c==0 for _,k in ps):
                rest=mk_lin(0,tuple((x,k//c) for x,k in ps))
                if c0>=0 or c0%c==0: return add(rest,K(c0//c))
            if a.op=="div" and isk(a.args[1]) and kv(a.args[1])>0:
                return div(a.args[0],K(kv(a.args[1])*c),nonneg=True)
        lo,hi=tdiv(a.lo,c),tdiv(a.hi,c)
        return _mk("div",(a,b),lo,hi,_u(a,b))
    m=max(abs(a.lo),abs(a.hi))
    lo=0 if a.lo>=0 and b.lo>=0 else -m
    return _mk("div",(a,b),lo,m,_u(a,b))
def rem(a,b):
    if isk(a) and isk(b) and kv(b)!=0:
        return K(kv(a)-tdiv(kv(a),kv(b))*kv(b))
    if isk(b) and kv(b)>0:
        c=kv(b); c0,ps=lin_parts(a)
        if a.lo>=0 and a.hi<c: return a
        if a.lo>=0 and ps and all(k%c==0 for _,k in ps) and c0>=0: return K(c0%c)
        return _mk("rem",(a,b),0 if a.lo>=0 else -(c-1),min(c-1,max(a.hi,0)),_u(a,b))
    m=max(abs(b.lo),abs(b.hi)); 
    return _mk("rem",(a,b),0 if a.lo>=0 else -m,m,_u(a,b))
def tmin(a,b):
    if isk(a) and isk(b): return K(min(kv(a),kv(b)))
    if a is b: return a
    if a.hi<=b.lo: return a
    if b.hi<=a.lo: return b
    if a.uid>b.uid: a,b=b,a
    return _mk("min",(a,b),min(a.lo,b.lo),min(a.hi,b.hi),_u(a,b))
def tmax(a,b):
    if isk(a) and isk(b): return K(max(kv(a),kv(b)))
    if a is b: return a
    if a.lo>=b.hi: return a
    if b.lo>=a.hi: return b
    if a.uid>b.uid: a,b=b,a
    return _mk("max",(a,b),max(a.lo,b.lo),max(a.hi,b.hi),_u(a,b))
def wrap(a,lo,hi):
    if a.lo>=lo and a.hi<=hi: return a
    if isk(a):
        w=hi-lo+1; return K((kv(a)-lo)%w+lo)
    return _mk("wrap",(a,lo,hi),lo,hi,a.syms)
def opaque(op,args,lo,hi):
    return _mk(op,tuple(args),lo,hi,_u(*[a for a in args if isinstance(a,T)]))
# --- booleans
def not_(a):
    if isk(a): return K(1-kv(a))
    if a.op=="not": return a.args[0]
    return _mk("not",(a,),0,1,a.syms)
def norm_diff(d):
    """d = c + g*D0 with canonical D0 (first coefficient positive, gcd 1)"""
    from math import gcd
    c,ps=lin_parts(d)
    if not ps: return c,0,None
    g=0
    for _,k in ps: g=gcd(g,abs(k))
    if ps[0][1]<0: g=-g
    return c,g,mk_lin(0,tuple((a,k//g) for a,k in ps))
def ltz(d):
    if d.hi<0: return TRUE
    if d.lo>=0: return FALSE
    return _mk("ltz",(d,),0,1,d.syms)
def lt(a,b): return ltz(sub(a,b))
def le(a,b): return not_(lt(b,a))
def eq(a,b):
    d=sub(a,b)
    if d.lo>0 or d.hi<0: return FALSE
    if isk(d): return K(1 if kv(d)==0 else 0)
    c,g,d0=norm_diff(d)
    if c%g: return FALSE
    if d0.lo==0 and d0.hi==1:      # boolean atom compared with a constant
        if d0.op!="lin":
            v=-c//g
            return d0 if v==1 else not_(d0) if v==0 else FALSE
    d=mk_lin(c//g,lin_parts(d0)[1])
    return _mk("eqz",(d,),0,1,d.syms)
def and_(a,b):
    if isk(a): return b if kv(a) else FALSE
    if isk(b): return a if kv(b) else FALSE
    if a is b: return a
    if a.uid>b.uid: a,b=b,a
    return _mk("and",(a,b),0,1,_u(a,b))
def or_(a,b): 
    if isk(a): return TRUE if kv(a) else b
    if isk(b): return TRUE if kv(b) else a
    if a is b: return a
    if a.uid>b.uid: a,b=b,a
    return _mk("or",(a,b),0,1,_u(a,b))
def xor_(a,b):
    if isk(a): return not_(b) if kv(a) else b
    if isk(b): return not_(a) if kv(b) else a
    if a is b: return FALSE
    if a.uid>b.uid: a,b=b,a
    return _mk("xorb",(a,b),0,1,_u(a,b))
def tmap(sym,table):
    """table: tuple of values, indexed by the symbol's value"""
    if isk(sym): return K(table[kv(sym)])
    if all(v==i for i,v in enumerate(table)): return sym
    return _mk("map",(sym,table),min(table),max(table),sym.syms)
def subst(t,f):
    """rename symbols by f(name)->name or None; rebuilds the term"""
    if not t.syms or not any(f(s) for s in t.syms): return t
    op=t.op
    if op=="s":
        n=f(t.args[0]); return Sym(n,t.args[1],t.args[2]) if n else t
    if op=="lin":
        r=K(t.args[0])
        for a,k in t.args[1]: r=lincomb(r,1,subst(a,f),k)
        return r
    args=tuple(subst(a,f) if isinstance(a,T) else a for a in t.args)
    r=_mk(op,args,t.lo,t.hi,_u(*[a for a in args if isinstance(a,T)]))
    return r
def show(t):
    if t.op=="k": return str(t.args[0])
    if t.op=="s": return str(t.args[0])
    if t.op=="lin":
        s=" + ".join((str(a) if k==1 else "%s*%s"%(k,a)) for a,k in t.args[1])
        return "(%s%s)"%(s," + %d"%t.args[0] if t.args[0] else "")
    return "%s(%s)"%(t.op,", ".join(map(str,t.args)))
def atoms(t,acc=None):
    if acc is None: acc=set()
    if t in acc: return acc
    acc.add(t)
    for a in t.args:
        if isinstance(a,T): atoms(a,acc)
        elif isinstance(a,tuple):
            for x in a:
                if isinstance(x,tuple) and x and isinstance(x[0],T): atoms(x[0],acc)
    return acc
