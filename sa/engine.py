"""Disjunctive abstract interpreter over MIR facts.

State = abstract memory (location -> value tree) + interval facts about terms. Control flow is followed block by block
in reverse postorder; equal memories merge (facts are joined), loops are generalised at their heads (changed values
become phi symbols, intervals are widened) and run to a fixpoint. Nothing is executed on concrete inputs."""
import heapq,sys
from term import *
sys.setrecursionlimit(20000)

class Abort(Exception): pass

# ---------------------------------------------------------------- values
class A:            # struct / tuple / array / closure / enum with known variant / Vec pseudo-object
    __slots__=("ty","var","f","meta","_h")
    def __init__(s,ty,var,f,meta=()):
        s.ty=ty; s.var=var; s.f=tuple(f); s.meta=meta; s._h=None
    def key(s): return (s.ty,s.var,s.f,s.meta)
    def __hash__(s):
        if s._h is None: s._h=hash(("A",)+s.key())
        return s._h
    def __eq__(s,o): return s is o or (type(o) is A and hash(s)==hash(o) and s.key()==o.key())
    def __repr__(s): return "A%s#%s%r%s"%(s.ty,s.var,list(s.f),dict(s.meta) if s.meta else "")
    def with_f(s,i,v):
        f=list(s.f); f[i]=v
        return A(s.ty,s.var,f,s.meta)
    def with_meta(s,**kw):
        d=dict(s.meta); d.update(kw)
        return A(s.ty,s.var,s.f,tuple(sorted((k,v) for k,v in d.items() if v is not None)))
    def m(s,k,d=None):
        for a,b in s.meta:
            if a==k: return b
        return d
class L:            # unknown value of a type, expanded on demand
    __slots__=("ty","name")
    def __init__(s,ty,name): s.ty=ty; s.name=name
    def __hash__(s): return hash(("L",s.ty,s.name))
    def __eq__(s,o): return type(o) is L and s.ty==o.ty and s.name==o.name
    def __repr__(s): return "L(%s:%s)"%(s.name,s.ty)
class E:            # enum whose variant is the value of symbol `sym`
    __slots__=("ty","sym","pay","name","_h")
    def __init__(s,ty,sym,name,pay=()):
        s.ty=ty; s.sym=sym; s.name=name; s.pay=pay; s._h=hash(("E",ty,sym,name,pay))
    def __hash__(s): return s._h
    def __eq__(s,o): return type(o) is E and s._h==o._h and s.ty==o.ty and s.sym is o.sym and s.name==o.name and s.pay==o.pay
    def __repr__(s): return "E(%s:%s)"%(s.name,s.ty)
class R:            # reference
    __slots__=("loc","proj","mut","len")
    def __init__(s,loc,proj=(),mut=False,len=None): s.loc=loc; s.proj=proj; s.mut=mut; s.len=len
    def __hash__(s): return hash(("R",s.loc,s.proj,s.mut,s.len))
    def __eq__(s,o): return type(o) is R and (s.loc,s.proj,s.mut)==(o.loc,o.proj,o.mut) and s.len is o.len
    def __repr__(s): return "&%s%s%s%s"%("mut " if s.mut else "",s.loc,list(s.proj) or "","" if s.len is None else "[%s]"%s.len)
class F:            # function item / closure without captures
    __slots__=("c",)
    def __init__(s,c): s.c=c
    def __hash__(s): return hash(("F",s.c.get("id"),s.c.get("full")))
    def __eq__(s,o): return type(o) is F and s.c.get("id")==o.c.get("id") and s.c.get("full")==o.c.get("full")
    def __repr__(s): return "fn %s"%(s.c.get("full") or s.c.get("id"))
class S:            # string constant
    __slots__=("v",)
    def __init__(s,v): s.v=v
    def __hash__(s): return hash(("S",s.v))
    def __eq__(s,o): return type(o) is S and s.v==o.v
    def __repr__(s): return "str %r"%s.v

SLICE=(("[]",),)
SL=("[]",)

# ---------------------------------------------------------------- program
class Program:
    def __init__(s,facts):
        s.ty=facts["ty"]; s.fns=facts["fns"]; s.items=facts["items"]; s.statics=facts["statics"]
        s.poly=facts.get("poly",{})
        s.bypath={}
        for i,f in s.fns.items(): s.bypath.setdefault(f["path"],[]).append(f)
        s._cfg={}; s._byname={}
        for i,t in s.ty.items(): s._byname.setdefault(t["s"],i)
    def tyid(s,name):
        return s._byname.get(name)
    def cfg(s,f):
        c=s._cfg.get(f["id"])
        if c is None: c=s._cfg[f["id"]]=CFG(f)
        return c
    def tinfo(s,t): return s.ty[t]
    def tys(s,t): return s.ty[t]["s"] if t is not None else "?"
    def int_range(s,t):
        i=s.ty[t]
        if i["k"]=="bool": return (0,1)
        if i["k"]=="char": return (0,0x10ffff)
        if i["k"]=="int":
            b=i["bits"]
            return (-(1<<(b-1)),(1<<(b-1))-1) if i["signed"] else (0,(1<<b)-1)
        return None

def succs(t):
    k=t["k"]
    if k=="goto": return [t["t"]]
    if k=="switch": return [x[1] for x in t["c"]]+[t["else"]]
    if k in("drop","assert"): return [t["t"]]
    if k=="call": return [t["t"]] if t["t"] is not None else []
    return []

class CFG:
    def __init__(s,f):
        bl=f["blocks"]; n=len(bl)
        s.succ=[succs(b["t"]) for b in bl]
        order=[]; state=[0]*n
        st=[(0,iter(s.succ[0]))]; state[0]=1; s.back=set()
        while st:
            b,it=st[-1]
            for x in it:
                if state[x]==0:
                    state[x]=1; st.append((x,iter(s.succ[x]))); break
                elif state[x]==1: s.back.add((b,x))
            else:
                state[b]=2; order.append(b); st.pop()
        order.reverse()
        s.rpo={b:i for i,b in enumerate(order)}
        s.order=order
        s.heads={h for _,h in s.back}
        s.pred={b:[] for b in order}
        for b in order:
            for x in s.succ[b]: s.pred[x].append(b)
        # natural loops
        s.loops={}
        for t,h in s.back:
            body=s.loops.setdefault(h,{h})
            w=[t]
            while w:
                x=w.pop()
                if x in body: continue
                body.add(x); w.extend(s.pred[x])
        s._live(f)
    def _live(s,f):
        """live locals at block entry; address-taken locals are live until StorageDead"""
        bl=f["blocks"]
        taken=set()
        def pl(p,use):
            use.add(p[0])
            for e in p[1:]:
                if isinstance(e,list) and e[0]=="i": use.add(e[1])
        def op(o,use):
            if o.get("o") in("cp","mv"): pl(o["p"],use)
        use={};deff={}
        for b in s.order:
            u=set();d=set()
            B=bl[b]
            for x in B["s"]:
                cu=set()
                if "v" in x:
                    v=x["v"]; r=v["r"]
                    if r in("ref","raw"):
                        pl(v["p"],cu)
                        if len(v["p"])==1 or v["p"][1]!="*": taken.add(v["p"][0])
                    elif r in("discr","len"): pl(v["p"],cu)
                    elif r=="bin": op(v["a"],cu); op(v["b"],cu)
                    elif r=="agg":
                        for o in v["f"]: op(o,cu)
                    elif "a" in v: op(v["a"],cu)
                    if len(x["p"])==1:
                        u|=cu-d; d.add(x["p"][0])
                    else:
                        pl(x["p"],cu); u|=cu-d
                elif "setd" in x: pl(x["p"],cu); u|=cu-d
                elif "copy" in x:
                    for o in x["copy"]: op(o,cu)
                    u|=cu-d
            t=B["t"];cu=set();k=t["k"]
            if k=="switch": op(t["d"],cu)
            elif k=="assert": op(t["c"],cu)
            elif k=="call":
                op(t["f"],cu)
                for o in t["a"]: op(o,cu)
                if len(t["p"])>1: pl(t["p"],cu)
            elif k=="ret": cu.add(0)
            u|=cu-d
            if k=="call" and len(t["p"])==1: d.add(t["p"][0])
            use[b]=u;deff[b]=d
        live={b:set(use[b]) for b in s.order}
        ch=True
        while ch:
            ch=False
            for b in reversed(s.order):
                o=set()
                for x in s.succ[b]: o|=live[x]
                n=use[b]|(o-deff[b])
                if n!=live[b]: live[b]=n; ch=True
        s.live={b:live[b]|taken for b in s.order}
        s.taken=taken

# ---------------------------------------------------------------- state
class State:
    __slots__=("mem","dom","g")
    def __init__(s,mem=None,dom=None,g=()):
        s.mem=mem if mem is not None else {}
        s.dom=dom if dom is not None else {}
        s.g=g          # ghost record: tuple, part of the merge key
    def copy(s): return State(dict(s.mem),dict(s.dom),s.g)
    # ---- intervals
    def iv(s,t,depth=0):
        d=s.dom.get(t)
        op=t.op
        if op=="k": return (t.args[0],t.args[0])
        if d is not None:
            if isinstance(d,frozenset): d=(min(d),max(d)) if d else (1,0)
        if op=="lin":
            lo=hi=t.args[0]
            for a,k in t.args[1]:
                x,y=s.iv(a,depth+1)
                if k<0: x,y=y*k,x*k
                else: x,y=x*k,y*k
                lo+=x;hi+=y
            if t.args[0]!=0 or t.args[1][0][1]<0 or len(t.args[1])==1:
                c,g,d0=norm_diff(t)
                dd=s.dom.get(d0)
                if dd is not None and not isinstance(dd,frozenset):
                    x,y=dd[0]*g,dd[1]*g
                    if g<0:x,y=y,x
                    lo=max(lo,x+c);hi=min(hi,y+c)
            if depth<3 and lo!=hi and len(t.args[1])<=4:
                for a,k in t.args[1]:
                    if a.op!="max" and a.op!="min": continue
                    # k*max(u,v)+r lies between the two substitutions; one end is at least as tight as each of them
                    rest=lincomb(t,1,a,-k)
                    if not any(z in a.args or z.op in("max","min") for z,_ in (rest.args[1] if rest.op=="lin" else ((rest,1),))): continue
                    iu=s.iv(lincomb(rest,1,a.args[0],k),depth+1); jv=s.iv(lincomb(rest,1,a.args[1],k),depth+1)
                    if (k>0)==(a.op=="max"): x,y=max(iu[0],jv[0]),max(iu[1],jv[1])
                    else: x,y=min(iu[0],jv[0]),min(iu[1],jv[1])
                    lo=max(lo,x);hi=min(hi,y)
        elif op=="div" and isk(t.args[1]) and kv(t.args[1])>0:
            x,y=s.iv(t.args[0],depth+1); c=kv(t.args[1]); lo,hi=tdiv(x,c),tdiv(y,c)
        elif op=="mul":
            x=s.iv(t.args[0],depth+1); y=s.iv(t.args[1],depth+1)
            c=[p*q for p in x for q in y]; lo,hi=min(c),max(c)
        elif op in("min","max"):
            x=s.iv(t.args[0],depth+1); y=s.iv(t.args[1],depth+1)
            fn=min if op=="min" else max
            lo,hi=fn(x[0],y[0]),fn(x[1],y[1])
        elif op=="wrap":
            x=s.iv(t.args[0],depth+1)
            if x[0]>=t.args[1] and x[1]<=t.args[2]: lo,hi=x
            else: lo,hi=t.lo,t.hi
        elif op=="map":
            ds=s.vals(t.args[0]); vs=[t.args[1][i] for i in ds] if ds else list(t.args[1])
            lo,hi=min(vs),max(vs)
        elif op=="not":
            x,y=s.iv(t.args[0],depth+1); lo,hi=1-y,1-x
        elif op=="ltz":
            x,y=s.iv(t.args[0],depth+1)
            lo,hi=(1,1) if y<0 else (0,0) if x>=0 else (0,1)
        elif op=="eqz":
            x,y=s.iv(t.args[0],depth+1)
            lo,hi=(0,0) if (x>0 or y<0) else (1,1) if x==y==0 else (0,1)
            if lo!=hi and t.args[0].op in("lin","map","s"):
                # finite-set atoms
                c,ps=lin_parts(t.args[0])
                if len(ps)==1:
                    vs=s.vals(ps[0][0])
                    if vs is not None:
                        if all(v*ps[0][1]+c!=0 for v in vs): lo=hi=0
        elif op=="and":
            x=s.iv(t.args[0]);y=s.iv(t.args[1]); lo,hi=min(x[0],y[0]),min(x[1],y[1])
        elif op=="or":
            x=s.iv(t.args[0]);y=s.iv(t.args[1]); lo,hi=max(x[0],y[0]),max(x[1],y[1])
        elif op=="ovf":
            x,y=s.iv(t.args[0]); a,b=t.args[1],t.args[2]
            lo,hi=(0,0) if x>=a and y<=b else (1,1) if (y<a or x>b) else (0,1)
        else: lo,hi=t.lo,t.hi
        if t.lo>lo: lo=t.lo
        if t.hi<hi: hi=t.hi
        if d is not None: lo=max(lo,d[0]);hi=min(hi,d[1])
        return (lo,hi)
    def vals(s,t):
        """finite value set of an enum symbol / map term, or None"""
        if t.op=="k": return frozenset((kv(t),))
        d=s.dom.get(t)
        if isinstance(d,frozenset): return d
        if t.op=="map":
            v=s.vals(t.args[0])
            r=frozenset(t.args[1][i] for i in v) if v is not None else frozenset(t.args[1])
            if d is not None: r=frozenset(x for x in r if d[0]<=x<=d[1])
            return r
        if t.hi-t.lo<=40:
            lo,hi=s.iv(t)
            return frozenset(range(lo,hi+1))
        return None
    def const(s,t):
        x,y=s.iv(t)
        return x if x==y else None
    # ---- refinement
    def setdom(s,t,lo,hi,depth=0):
        if isk(t): return lo<=kv(t)<=hi
        a,b=s.iv(t)
        nlo,nhi=max(a,lo),min(b,hi)
        if nlo>nhi: return False
        if (nlo,nhi)==(a,b) and depth>0: return True
        d=s.dom.get(t)
        if isinstance(d,frozenset):
            n=frozenset(v for v in d if nlo<=v<=nhi)
            if not n: return False
            s.dom[t]=n
            return True
        if (nlo,nhi)!=(a,b) or d is not None: s.dom[t]=(nlo,nhi)
        if depth>4: return True
        # backward propagation
        op=t.op
        if op=="lin":
            c,ps=lin_parts(t)
            for a_,k in ps:
                # k*a = t - c - rest
                rl=rh=c
                for b_,k2 in ps:
                    if b_ is a_: continue
                    x,y=s.iv(b_)
                    if k2<0: x,y=y*k2,x*k2
                    else: x,y=x*k2,y*k2
                    rl+=x;rh+=y
                lo_,hi_=nlo-rh,nhi-rl
                if k>0: lo2,hi2=-((-lo_)//k),hi_//k
                else: lo2,hi2=-(hi_//-k),(-lo_)//(-k)
                x,y=s.iv(a_)
                if lo2>x or hi2<y:
                    if not s.setdom(a_,lo2,hi2,depth+1): return False
        elif op=="div" and isk(t.args[1]) and kv(t.args[1])>0:
            c=kv(t.args[1])
            if nlo>0: 
                if not s.setdom(t.args[0],nlo*c,INF,depth+1): return False
            if nhi>=0:
                if not s.setdom(t.args[0],-INF,nhi*c+c-1,depth+1): return False
        elif op=="min":
            if not all(s.setdom(x,nlo,INF,depth+1) for x in t.args): return False
        elif op=="max":
            if not all(s.setdom(x,-INF,nhi,depth+1) for x in t.args): return False
        elif op=="wrap":
            x=s.iv(t.args[0])
            if x[0]>=t.args[1] and x[1]<=t.args[2]:
                if not s.setdom(t.args[0],nlo,nhi,depth+1): return False
        elif op=="map":
            v=s.vals(t.args[0])
            if v is not None:
                n=frozenset(i for i in v if nlo<=t.args[1][i]<=nhi)
                if not n: return False
                s.dom[t.args[0]]=n
        elif op=="s" and t.hi-t.lo<=40 and t.hi-t.lo>1:
            s.dom[t]=frozenset(range(nlo,nhi+1)) if not isinstance(s.dom.get(t),frozenset) else s.dom[t]
        return True
    def setne(s,t,v):
        """t != v"""
        if isk(t): return kv(t)!=v
        vs=s.vals(t)
        if vs is not None:
            n=vs-{v}
            if not n: return False
            if t.op=="map":
                src=s.vals(t.args[0])
                m=frozenset(i for i in src if t.args[1][i]!=v)
                if not m: return False
                s.dom[t.args[0]]=m
            else: s.dom[t]=frozenset(n)
            return True
        lo,hi=s.iv(t)
        if lo==hi==v: return False
        if lo==v: return s.setdom(t,lo+1,hi)
        if hi==v: return s.setdom(t,lo,hi-1)
        return True
    def constrain(s,d,lo,hi):
        """lo <= d <= hi for a (linear) term"""
        if isk(d): return lo<=kv(d)<=hi
        c,g,d0=norm_diff(d)
        l,h=lo-c,hi-c
        if g<0: l,h=-h,-l; g=-g
        l=-((-l)//g) if l>-INF else -INF
        h=h//g if h<INF else INF
        return s.setdom(d0,l,h)
    def refine(s,t,val):
        """assume boolean term t has value val"""
        op=t.op
        if op=="k": return bool(kv(t))==bool(val)
        x,y=s.iv(t)
        if x==y: return x==int(val)
        if op=="not": return s.refine(t.args[0],not val)
        if op=="ltz":
            if val: return s.constrain(t.args[0],-INF,-1)
            return s.constrain(t.args[0],0,INF)
        if op=="eqz":
            d=t.args[0]
            if val: 
                if not s.constrain(d,0,0): return False
                s.dom[t]=(1,1)
                return True
            c,ps=lin_parts(d)
            if len(ps)==1 and (-c)%abs(ps[0][1])==0:
                if not s.setne(ps[0][0],-c//ps[0][1]): return False
            else:
                a,b=s.iv(d)
                if a==0:
                    if not s.constrain(d,1,INF): return False
                elif b==0:
                    if not s.constrain(d,-INF,-1): return False
            s.dom[t]=(0,0)
            return True
        if op=="and" and val: return s.refine(t.args[0],True) and s.refine(t.args[1],True)
        if op=="or" and not val: return s.refine(t.args[0],False) and s.refine(t.args[1],False)
        if op=="and" and not val:
            for i in (0,1):
                if s.iv(t.args[i])==(1,1): return s.refine(t.args[1-i],False)
        if op=="or" and val:
            for i in (0,1):
                if s.iv(t.args[i])==(0,0): return s.refine(t.args[1-i],True)
        if op=="ovf" and not val:
            if not s.constrain(t.args[0],t.args[1],t.args[2]): return False
        s.dom[t]=(int(val),int(val))
        return True
    def settle(s,rounds=2):
        """propagate all recorded facts again; False if they contradict each other"""
        for _ in range(rounds):
            n=len(s.dom); before=dict(s.dom)
            for t,d in list(s.dom.items()):
                if isinstance(d,frozenset):
                    if not d: return False
                    a,b=min(d),max(d)
                else: a,b=d
                lo,hi=s.iv(t)
                if lo>hi: return False
                if isk(t): continue
                if t.op in("eqz","ltz","not","and","or","ovf"):
                    v=s.bool0(t)
                    if v is not None and not (a<=v<=b): return False
                    if a==b and t.op!="ovf":
                        del s.dom[t]
                        if not s.refine(t,bool(a)): return False
                        s.dom[t]=(a,a)
                elif t.op in("mul","lin","map","min","max","div","wrap"):
                    if not s.setdom(t,lo,hi,0): return False
                    if t.op=="mul":
                        for i in(0,1):
                            k=s.const(t.args[i])
                            if k:
                                x,y=s.iv(t); 
                                if k<0: x,y=-y,-x; k=-k
                                if not s.setdom(t.args[1-i],-((-x)//k),y//k,1): return False
            if s.dom==before: break
        return True
    def bool0(s,t):
        """value of a boolean term from its parts alone"""
        d=s.dom.pop(t,None)
        x,y=s.iv(t)
        if d is not None: s.dom[t]=d
        return x if x==y else None
    def purge(s,name):
        """forget facts about symbols created under `name`"""
        dead=[t for t in s.dom if any(x.startswith(name) for x in t.syms)]
        for t in dead: del s.dom[t]

def joindom(a,b):
    """facts valid in both; a,b are dom dicts"""
    r={}
    for t,x in a.items():
        y=b.get(t)
        if y is None: continue
        if isinstance(x,frozenset) and isinstance(y,frozenset): r[t]=x|y
        elif isinstance(x,frozenset) or isinstance(y,frozenset): continue
        else: r[t]=(min(x[0],y[0]),max(x[1],y[1]))
    return r
def joindom2(sa,sb):
    """like joindom, but a fact on one side may be implied by intervals on the other"""
    r={}
    keys=set(sa.dom)|set(sb.dom)
    for t in keys:
        x=sa.dom.get(t);y=sb.dom.get(t)
        if x is not None and y is not None:
            if isinstance(x,frozenset) and isinstance(y,frozenset): r[t]=x|y; continue
            if isinstance(x,frozenset): x=(min(x),max(x))
            if isinstance(y,frozenset): y=(min(y),max(y))
            r[t]=(min(x[0],y[0]),max(x[1],y[1]))
        else:
            if isinstance(x,frozenset) or isinstance(y,frozenset):
                vx=sa.vals(t);vy=sb.vals(t)
                if vx is not None and vy is not None: r[t]=vx|vy
                continue
            x=sa.iv(t);y=sb.iv(t)
            h=(min(x[0],y[0]),max(x[1],y[1]))
            if h!=(t.lo,t.hi): r[t]=h
    return r
