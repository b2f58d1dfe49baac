"""Abstract semantics of the standard-library functions the crate uses."""
from engine import *
import re
USZ=(0,(1<<64)-1)
LENMAX=(1<<63)-1

def ok(dty,v): return A(dty,0,(v,))
def err(dty,v): return A(dty,1,(v,))
def none(dty): return A(dty,0,())
def some(dty,v): return A(dty,1,(v,))

def rx(p):
    r=re.compile(p+r"\Z")
    return lambda c: bool(r.match(c.get("rpath") or c.get("path") or ""))
def deref(I,st,r,name):
    """value behind a reference value"""
    n=0
    while type(r) is R and n<4:
        v=I.getp(st,r.loc,r.proj,None,name)
        if type(v) is L:
            v2=I.expand(v,st)
            if v2 is not v: I.setp(st,r.loc,r.proj,v2); v=v2
        if type(v) is R: r=v;n+=1
        else: return v,r
    return None,r
def slicelen(I,st,r,name):
    if type(r) is R:
        if r.len is not None: return r.len
        if SL not in r.proj:
            v=I.getp(st,r.loc,r.proj,None,name)
            if type(v) is R: return slicelen(I,st,v,name)
    if type(r) is S and isinstance(r.v,str): return K(len(r.v.encode()))
    return I.fresh_int(st,name+".len",0,LENMAX)

M=[]
def model(p):
    def d(h):
        M.append((rx(p),h)); return h
    return d

# ---------------------------------------------------------------- panics
@model(r"core::panicking::.*|std::panicking::.*|core::option::(unwrap_failed|expect_failed)|core::result::unwrap_failed|std::option::(unwrap_failed|expect_failed)|std::result::unwrap_failed|core::slice::index::slice_.*fail.*|.*handle_alloc_error|std::process::.*|core::str::slice_error_fail.*")
def m_panic(I,st,c,args,dty,name,d): return []
# ---------------------------------------------------------------- integers
def intrange(I,st,dty): return I.P.int_range(dty)
@model(r".*::unsigned_abs|.*num::<impl i\d+>::abs|.*num::<impl isize>::abs")
def m_abs(I,st,c,args,dty,name,d):
    a=args[0]
    if type(a) is not T: return None
    x,y=st.iv(a)
    if x>=0: return [(st,a)]
    if y<0: return [(st,scale(a,-1))]
    out=[]
    n=st.copy()
    if n.refine(ltz(a),True): out.append((n,scale(a,-1)))
    if st.refine(ltz(a),False): out.append((st,a))
    return out
@model(r".*num::<impl \w+>::saturating_(add|sub|mul)")
def m_sat(I,st,c,args,dty,name,d):
    op=c["rpath"].split("_")[-1]; a,b=args
    if type(a) is not T or type(b) is not T: return None
    m={"add":add,"sub":sub,"mul":mul}[op](a,b)
    lo,hi=intrange(I,st,dty)
    return [(st,smin(st,smax(st,m,K(lo)),K(hi)))]
@model(r".*num::<impl \w+>::wrapping_(add|sub|mul|neg)")
def m_wrap(I,st,c,args,dty,name,d):
    op=c["rpath"].split("_")[-1]
    if not all(type(a) is T for a in args): return None
    m=scale(args[0],-1) if op=="neg" else {"add":add,"sub":sub,"mul":mul}[op](*args)
    lo,hi=intrange(I,st,dty)
    x,y=st.iv(m)
    return [(st,m if x>=lo and y<=hi else wrap(m,lo,hi))]
@model(r".*num::<impl \w+>::checked_(add|sub|mul|neg)")
def m_chk(I,st,c,args,dty,name,d):
    op=c["rpath"].split("_")[-1]
    if not all(type(a) is T for a in args): return None
    m=scale(args[0],-1) if op=="neg" else {"add":add,"sub":sub,"mul":mul}[op](*args)
    lo,hi=I.P.int_range(I.P.ty[dty]["args"][0])
    x,y=st.iv(m)
    if x>=lo and y<=hi: return [(st,some(dty,m))]
    if y<lo or x>hi: return [(st,none(dty))]
    n=st.copy(); out=[]
    o=opaque("ovf",(m,lo,hi),0,1)
    if n.refine(o,False): out.append((n,some(dty,m)))
    if st.refine(o,True): out.append((st,none(dty)))
    return out
@model(r".*num::<impl \w+>::overflowing_(add|sub|mul)")
def m_ovfl(I,st,c,args,dty,name,d):
    op=c["rpath"].split("_")[-1]
    if not all(type(a) is T for a in args): return None
    m={"add":add,"sub":sub,"mul":mul}[op](*args)
    lo,hi=I.P.int_range(I.P.ty[dty]["of"][0])
    x,y=st.iv(m)
    if x>=lo and y<=hi: return [(st,A(dty,0,(m,FALSE)))]
    return [(st,A(dty,0,(wrap(m,lo,hi),opaque("ovf",(m,lo,hi),0,1))))]
@model(r"(std|core)::ops::(RangeInclusive|Range|RangeFrom|RangeTo|RangeToInclusive)::<\w+>::contains|<(std|core)::ops::.*Range.* as (std|core)::ops::RangeBounds<.*>>::contains")
def m_contains(I,st,c,args,dty,name,depth):
    full=c.get("full") or ""
    m=re.search(r"ops::(Range\w*)(?:::)?<",full)
    r,_=deref(I,st,args[0],name); x,_=deref(I,st,args[1],name)
    if m is None or type(r) is not A or type(x) is not T: return None
    f=[I.norm(v,st) for v in r.f]; k=m.group(1)
    if any(type(v) is not T for v in f): return None
    if k=="RangeInclusive" and st.const(f[2])!=0: return None
    lo=f[0] if k in("Range","RangeFrom","RangeInclusive") else None
    hi=f[1] if k in("Range","RangeInclusive") else f[0] if k!="RangeFrom" else None
    out=[]; cs=([le(lo,x)] if lo is not None else [])+([(le if "Inclusive" in k else lt)(x,hi)] if hi is not None else [])
    cur=st
    for cond in cs:
        n=cur.copy()
        if n.refine(cond,False): out.append((n,K(0)))
        n=cur.copy()
        if not n.refine(cond,True): return out
        cur=n
    return out+[(cur,K(1))]
@model(r".*cmp::impls::<impl .*Ord for \w+>::(min|max|clamp)|std::cmp::Ord::(min|max|clamp)|std::cmp::(min|max)|core::cmp::(min|max)")
def m_minmax(I,st,c,args,dty,name,d):
    op=(c.get("rpath") or c["path"]).split("::")[-1]
    if not all(type(a) is T for a in args): return None
    if op=="clamp": return [(st,smin(st,smax(st,args[0],args[1]),args[2]))]
    return [(st,(smin if op=="min" else smax)(st,*args))]
@model(r".*cmp::impls::<impl .*(Partial)?Ord.* for \w+>::(cmp|partial_cmp)")
def m_ordcmp(I,st,c,args,dty,name,d):
    a,_=deref(I,st,args[0],name); b,_=deref(I,st,args[1],name)
    if type(a) is not T or type(b) is not T: return None
    opt=c["rpath"].endswith("partial_cmp"); oty=I.P.ty[dty]["args"][0] if opt else dty
    ds=[int(x["d"]) if x["d"] is not None else i for i,x in enumerate(I.P.ty[oty]["variants"])]
    out=[]
    for i,cond in enumerate((lt(a,b),eq(a,b),lt(b,a))):
        n=st.copy()
        if n.refine(cond,True):
            v=A(oty,i,()); out.append((n,some(dty,v) if opt else v))
    return out
@model(r"(std|core)::num::<impl i\w+>::signum")
def m_signum(I,st,c,args,dty,name,d):
    a=args[0]; out=[]
    if type(a) is not T: return None
    for k,cond in ((-1,lt(a,K(0))),(0,eq(a,K(0))),(1,lt(K(0),a))):
        n=st.copy()
        if n.refine(cond,True): out.append((n,K(k)))
    return out
def smin(st,a,b):
    x,y=st.iv(a),st.iv(b)
    if x[1]<=y[0]: return a
    if y[1]<=x[0]: return b
    z=st.iv(sub(a,b))
    if z[1]<=0: return a
    if z[0]>=0: return b
    return tmin(a,b)
def smax(st,a,b):
    x,y=st.iv(a),st.iv(b)
    if x[0]>=y[1]: return a
    if y[0]>=x[1]: return b
    z=st.iv(sub(a,b))
    if z[0]>=0: return a
    if z[1]<=0: return b
    return tmax(a,b)
@model(r".*num::<impl \w+>::abs_diff")
def m_absdiff(I,st,c,args,dty,name,d):
    a,b=args
    if type(a) is not T or type(b) is not T: return None
    out=[]
    n=st.copy()
    if n.refine(lt(a,b),True): out.append((n,sub(b,a)))
    if st.refine(lt(a,b),False): out.append((st,sub(a,b)))
    return out
@model(r".*num::<impl \w+>::(div_ceil)")
def m_divceil(I,st,c,args,dty,name,d):
    a,b=args
    if type(a) is not T or type(b) is not T: return None
    cb=st.const(b)
    if cb is None or cb<=0: return None
    return [(st,div(add(a,K(cb-1)),K(cb),nonneg=st.iv(a)[0]>=0))]
@model(r".*num::<impl \w+>::(next_multiple_of)")
def m_nmo(I,st,c,args,dty,name,d):
    a,b=args
    if type(a) is not T or type(b) is not T: return None
    cb=st.const(b)
    if cb is None or cb<=0: return None
    return [(st,scale(div(add(a,K(cb-1)),K(cb),nonneg=st.iv(a)[0]>=0),cb))]
@model(r".*num::<impl \w+>::(signum)")
def m_signum(I,st,c,args,dty,name,d): return None
@model(r".*num::<impl \w+>::(leading_zeros|trailing_zeros|count_ones|count_zeros|leading_ones|trailing_ones|ilog2)")
def m_lz(I,st,c,args,dty,name,d):
    if type(args[0]) is T: return [(st,opaque(c["rpath"].split("::")[-1],(args[0],),0,128))]
    return [(st,I.fresh_int(st,name,0,128))]
@model(r".*num::<impl \w+>::is_positive|.*num::<impl \w+>::is_negative")
def m_isneg(I,st,c,args,dty,name,d):
    if type(args[0]) is not T: return None
    return [(st,lt(K(0),args[0]) if c["rpath"].endswith("positive") else ltz(args[0]))]
@model(r"std::mem::size_of|core::mem::size_of")
def m_sizeof(I,st,c,args,dty,name,d):
    t=(c.get("targs") or [None])[0]
    if t is not None:
        try: ti=I.P.ty[t]
        except Exception: return None
        if ti["k"]=="int": return [(st,K(ti["bits"]//8))]
        if ti["k"]=="bool": return [(st,K(1))]
    return None
@model(r"std::cmp::impls::<impl (std::cmp::)?(PartialEq|PartialOrd|Ord)(<.*>)? for .*>::(eq|ne|lt|le|gt|ge)|std::cmp::Partial(Eq|Ord)::(ne|lt|le|gt|ge)")
def m_cmp(I,st,c,args,dty,name,d):
    a,_=deref(I,st,args[0],name); b,_=deref(I,st,args[1],name)
    op=c["rpath"].split("::")[-1]
    if type(a) is T and type(b) is T:
        f={"eq":eq,"ne":lambda x,y:not_(eq(x,y)),"lt":lt,"le":le,"gt":lambda x,y:lt(y,x),"ge":lambda x,y:le(y,x)}[op]
        return [(st,f(a,b))]
    if op in("eq","ne"):
        r=enum_eq(I,st,a,b)
        if r is not None: return [(st,r if op=="eq" else not_(r))]
        # a derived `ne` calls `eq` of the type itself
        if op=="ne" and c.get("rpath","").startswith("std::cmp::PartialEq"):
            e=I.find_eq(a)
            if e:
                out=[]
                for s2,v in I.run(e,[args[0],args[1]],st,d+1,name+">eq"): out.append((s2,not_(v) if type(v) is T else v))
                return out
    return None
def enum_eq(I,st,a,b):
    """equality of field-less enums"""
    if type(a) not in(A,E) or type(b) not in(A,E) or a.ty!=b.ty or a.ty is None: return None
    t=I.P.ty[a.ty]
    if t["k"]!="adt" or not t["enum"] or any(v["f"] for v in t["variants"]): return None
    def s(v): return K(v.var) if type(v) is A else v.sym
    return eq(s(a),s(b))
@model(r"<.* as std::cmp::PartialEq>::(eq|ne)")
def m_derived_eq(I,st,c,args,dty,name,d):
    a,_=deref(I,st,args[0],name); b,_=deref(I,st,args[1],name)
    r=enum_eq(I,st,a,b)
    if r is None: return None
    return [(st,r if c["rpath"].endswith("eq") else not_(r))]
# ---------------------------------------------------------------- mem
@model(r"std::mem::swap|core::mem::swap")
def m_swap(I,st,c,args,dty,name,d):
    a,b=args
    if type(a) is R and type(b) is R and SL not in a.proj+b.proj:
        x=I.getp(st,a.loc,a.proj,None,name+"x"); y=I.getp(st,b.loc,b.proj,None,name+"y")
        I.setp(st,a.loc,a.proj,y); I.setp(st,b.loc,b.proj,x)
        return [(st,A(dty,0,()))]
    return None
@model(r"std::mem::replace|core::mem::replace")
def m_repl(I,st,c,args,dty,name,d):
    a,b=args
    if type(a) is R:
        x=I.getp(st,a.loc,a.proj,dty,name)
        I.setp(st,a.loc,a.proj,b); return [(st,x)]
    return None
@model(r"std::mem::drop|core::mem::drop|std::mem::forget|std::ptr::drop_in_place|core::hint::.*|std::hint::black_box")
def m_drop(I,st,c,args,dty,name,d):
    if c["rpath"].endswith("black_box"): return [(st,args[0])]
    return [(st,A(dty,0,()))]
# ---------------------------------------------------------------- Result / Option plumbing
@model(r"<std::result::Result<T, E> as std::ops::Try>::branch")
def m_branch(I,st,c,args,dty,name,d):
    v=I.norm(args[0],st)
    cf=I.P.ty[dty]; rty=cf["args"][0]  # ControlFlow<Residual, T>
    if type(v) is A:
        if v.var==0: return [(st,A(dty,0,(v.f[0],)))]
        return [(st,A(dty,1,(A(rty,1,(v.f[0],)),)))]
    if type(v) is E:
        out=[]
        n=st.copy()
        if n.refine(eq(v.sym,K(0)),True): out.append((n,A(dty,0,(I.payload(v,0)[0],))))
        if st.refine(eq(v.sym,K(1)),True): out.append((st,A(dty,1,(A(rty,1,(I.payload(v,1)[0],)),))))
        return out
    return None
@model(r"<std::option::Option<T> as std::ops::Try>::branch")
def m_obranch(I,st,c,args,dty,name,d):
    v=I.norm(args[0],st)
    cf=I.P.ty[dty]; rty=cf["args"][0]
    if type(v) is A:
        return [(st,A(dty,0,(v.f[0],)) if v.var==1 else A(dty,1,(A(rty,0,()),)))]
    if type(v) is E:
        out=[]
        n=st.copy()
        if n.refine(eq(v.sym,K(1)),True): out.append((n,A(dty,0,(I.payload(v,1)[0],))))
        if st.refine(eq(v.sym,K(0)),True): out.append((st,A(dty,1,(A(rty,0,()),))))
        return out
    return None
@model(r"std::option::Option::<T>::(as_ref|as_mut)|std::result::Result::<T, E>::(as_ref|as_mut)|std::option::Option::<T>::as_deref.*")
def m_asref(I,st,c,args,dty,name,d):
    if "as_deref" in c["rpath"]: return None
    r=args[0]
    if type(r) is not R: return None
    v=I.norm(I.getp(st,r.loc,r.proj,None,name),st)
    mut=c["rpath"].endswith("mut")
    opt="option" in c["rpath"].lower()
    def mk(i,nf):
        if nf==0: return A(dty,i,())
        return A(dty,i,(R(r.loc,r.proj+(("v",i),("f",0)),mut),))
    if type(v) is A and v.ty is not None:
        I.setp(st,r.loc,r.proj,v)
        return [(st,mk(v.var,len(v.f)))]
    if type(v) is E:
        n=st.copy(); out=[]
        vs=I.P.ty[v.ty]["variants"]
        for i,s2 in ((0,n),(1,st)):
            if s2.refine(eq(v.sym,K(i)),True):
                I.setp(s2,r.loc,r.proj,I.norm(v,s2)); out.append((s2,mk(i,len(vs[i]["f"]))))
        return out
    return None
# ---------------------------------------------------------------- Vec
def vecof(I,st,r,name):
    """(value, ref) of the Vec behind a reference"""
    v,r=deref(I,st,r,name)
    if type(v) is A and v.ty is not None and I.P.ty[v.ty].get("path")=="std::vec::Vec": return v,r
    return None,r
@model(r"std::vec::Vec::<T>::new|std::vec::Vec::<T>::with_capacity|<std::vec::Vec<T> as std::default::Default>::default")
def m_vnew(I,st,c,args,dty,name,d): return [(st,A(dty,0,(K(0),)))]
@model(r"std::vec::Vec::<T, A>::len|std::vec::Vec::<T, A>::is_empty")
def m_vlen(I,st,c,args,dty,name,d):
    v,r=vecof(I,st,args[0],name)
    if v is None: return None
    return [(st,v.f[0] if c["rpath"].endswith("len") else eq(v.f[0],K(0)))]
@model(r"std::vec::Vec::<T, A>::capacity")
def m_vcap(I,st,c,args,dty,name,d):
    v,r=vecof(I,st,args[0],name)
    if v is None: return None
    n=I.fresh_int(st,name,0,LENMAX)
    st.refine(le(v.f[0],n),True)
    return [(st,n)]
@model(r"std::vec::Vec::<T, A>::(try_reserve|try_reserve_exact)|std::string::String::try_reserve.*")
def m_vres(I,st,c,args,dty,name,d):
    I.note_alloc(st,c,args,name)
    st.purge(name)
    return [(st.copy(),ok(dty,A(None,0,()))),(st,err(dty,I.fresh(I.P.ty[dty]["variants"][1]["f"][0][1],name+".e",None)))]
@model(r"std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit|dedup|sort\w*)")
def m_vres2(I,st,c,args,dty,name,d): I.note_alloc(st,c,args,name); return [(st,A(dty,0,()))]
def setveclen(I,st,r,v,n,drop=True):
    I.setp(st,r.loc,r.proj,A(v.ty,v.var,(n,),() if drop else v.meta))
@model(r"std::vec::Vec::<T, A>::(set_len|resize|truncate|push|pop|clear|insert|remove|append|extend_from_slice|swap_remove)")
def m_vmut(I,st,c,args,dty,name,d):
    v,r=vecof(I,st,args[0],name)
    op=c["rpath"].split("::")[-1]
    if v is None: return None
    I.note_alloc(st,c,args,name)
    l=v.f[0]; u=A(dty,0,())
    if op in("set_len","resize"): setveclen(I,st,r,v,args[1]); return [(st,u)]
    if op=="truncate": setveclen(I,st,r,v,smin(st,l,args[1])); return [(st,u)]
    if op=="clear": setveclen(I,st,r,v,K(0)); return [(st,u)]
    if op in("push","insert"): setveclen(I,st,r,v,add(l,K(1))); return [(st,u)]
    if op=="pop":
        n=st.copy(); out=[]
        if n.refine(eq(l,K(0)),True): out.append((n,none(dty)))
        if st.refine(eq(l,K(0)),False):
            setveclen(I,st,r,v,sub(l,K(1))); out.append((st,some(dty,I.fresh(I.P.ty[dty]["args"][0],name,st))))
        return out
    if op in("remove","swap_remove"):
        if not st.refine(le(K(1),l),True): return []
        setveclen(I,st,r,v,sub(l,K(1))); return [(st,I.fresh(dty,name,st))]
    if op=="extend_from_slice": setveclen(I,st,r,v,add(l,slicelen(I,st,args[1],name))); return [(st,u)]
    if op=="append":
        w,r2=vecof(I,st,args[1],name)
        if w is None: return None
        setveclen(I,st,r,v,add(l,w.f[0])); setveclen(I,st,r2,w,K(0)); return [(st,u)]
    return None
@model(r"<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?|std::vec::Vec::<T, A>::as_(mut_)?slice")
def m_vderef(I,st,c,args,dty,name,d):
    v,r=vecof(I,st,args[0],name)
    if v is None: return None
    return [(st,R(r.loc,r.proj+SLICE,"mut" in c["rpath"],v.f[0]))]
# ---------------------------------------------------------------- slices
@model(r"core::slice::<impl \[T\]>::(len|is_empty)|core::str::<impl str>::(len|is_empty)")
def m_slen(I,st,c,args,dty,name,d):
    n=slicelen(I,st,args[0],name)
    return [(st,n if c["rpath"].endswith("len") else eq(n,K(0)))]
@model(r"(<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>|core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>)::index(_mut)?")
def m_index(I,st,c,args,dty,name,d):
    r=args[0]; mut=c["rpath"].endswith("mut")
    v,vr=vecof(I,st,r,name)
    if v is not None: base=R(vr.loc,vr.proj+SLICE,mut,v.f[0])
    elif type(r) is R: base=R(r.loc,r.proj if r.proj and r.proj[-1]==SL else r.proj+SLICE,mut,slicelen(I,st,r,name))
    else: return None
    ix=args[1]
    to=I.P.ty[I.P.ty[dty]["to"]]
    n=base.len
    if to["k"]=="slice":
        ty=I.P.ty[ix.ty]["path"] if type(ix) is A and ix.ty is not None and I.P.ty[ix.ty]["k"]=="adt" else ""
        if ty.endswith("ops::Range") or ty.endswith("range::Range"): a,b=ix.f[0],ix.f[1]
        elif "RangeFrom" in ty: a,b=ix.f[0],n
        elif "RangeToInclusive" in ty: a,b=K(0),None
        elif "RangeTo" in ty: a,b=K(0),ix.f[0]
        elif "RangeFull" in ty: a,b=K(0),n
        else: a=b=None
        if type(a) is T and type(b) is T:
            if not st.refine(le(a,b),True) or not st.refine(le(b,n),True): return []
            return [(st,R(base.loc,base.proj,mut,sub(b,a)))]
        return [(st,R(base.loc,base.proj,mut,I.fresh_int(st,name+".l",0,LENMAX)))]
    if type(ix) is T:
        if not st.refine(lt(ix,n),True): return []
    return [(st,R(base.loc,base.proj+(("i",None),),mut))]
@model(r"core::slice::<impl \[T\]>::(split_at|split_at_mut)")
def m_split(I,st,c,args,dty,name,d):
    r=args[0]
    if type(r) is not R: return None
    n=slicelen(I,st,r,name); m=args[1]
    if not st.refine(le(m,n),True): return []
    p=r.proj if r.proj and r.proj[-1]==SL else r.proj+SLICE
    return [(st,A(dty,0,(R(r.loc,p,r.mut,m),R(r.loc,p,r.mut,sub(n,m)))))]
@model(r"core::slice::<impl \[T\]>::(first|last|first_mut|last_mut|get|get_mut)")
def m_first(I,st,c,args,dty,name,d):
    r=args[0]
    if type(r) is not R: return None
    n=slicelen(I,st,r,name); op=c["rpath"].split("::")[-1]
    if op.startswith("get") and not(len(args)>1 and type(args[1]) is T): return None
    p=r.proj if r.proj and r.proj[-1]==SL else r.proj+SLICE
    cond=lt(args[1],n) if op.startswith("get") else lt(K(0),n)
    o=[];m=st.copy()
    if m.refine(cond,True): o.append((m,some(dty,R(r.loc,p+(("i",None),),op.endswith("mut")))))
    if st.refine(cond,False): o.append((st,none(dty)))
    return o
@model(r"core::slice::<impl \[T\]>::(fill|copy_from_slice|clone_from_slice|copy_within|rotate_right|rotate_left|reverse|sort\w*)")
def m_fill(I,st,c,args,dty,name,d):
    I.clobber(st,args[0],name); return [(st,A(dty,0,()))]
# ---------------------------------------------------------------- iteration over integer ranges
@model(r"std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def m_rnext(I,st,c,args,dty,name,d):
    r=args[0]
    if type(r) is not R: return None
    v=I.getp(st,r.loc,r.proj,None,name)
    if type(v) is not A or len(v.f)!=2 or not all(type(x) is T for x in v.f): return None
    a,b=v.f; out=[]
    n=st.copy()
    if n.refine(lt(a,b),True):
        I.setp(n,r.loc,r.proj,v.with_f(0,add(a,K(1)))); out.append((n,some(dty,a)))
    if st.refine(lt(a,b),False): out.append((st,none(dty)))
    return out
@model(r"<I as std::iter::IntoIterator>::into_iter|<T as std::convert::From<T>>::from|std::iter::Iterator::by_ref")
def m_id(I,st,c,args,dty,name,d): return [(st,args[0])]
# ---------------------------------------------------------------- floats by class
INLINE=re.compile(r"(std|core)::(option|result|cmp|ops|convert|mem|num|clone|iter::range|bool)::.*|<.* as (std|core)::(ops::(Try|FromResidual|Fn\w*|Deref\w*|Index\w*|Not|Neg|Add|Sub|Mul|Div|\w+Assign)|convert::\w+|cmp::\w+|clone::Clone|default::Default).*|(std|core)::cmp::.*|core::bool::.*|core::num::.*|<.*closure.*")
def base_inline(c,g):
    if g["local"]: return True
    p=g["path"]
    if g.get("shim"): return True
    return bool(INLINE.match(p)) and len(g["blocks"])<=40
