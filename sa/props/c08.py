"""C08: growth of buffers is fallible."""
import re
from ops import *
from effects import *
from report import Report
RULE=("Typestate analysis of every container in every function of the crate (all instances): a call that can grow a Vec or String (push, resize, append, extend, write_str ...) must be preceded on every path by a fallible reservation of that same container whose failure is tested; "
 "a reservation of a constant amount covers that many single pushes; obligations on containers passed in by reference or captured move to the caller. "
 "Allocations with no fallible form (clone of a Vec, with_capacity, collect, to_vec, Box::new, format!, vec![..]) are not permitted outside initialisation of constants, Debug and serde.")
GROW=re.compile(r"::(push|push_str|resize|resize_with|append|extend_from_slice|extend_from_within|extend|insert|insert_str|reserve|reserve_exact|write_str|write_char|write_fmt|push_within_capacity|add_assign|splice)$")
RES=re.compile(r"::(try_reserve|try_reserve_exact)$")
ALLOC=re.compile(r"(::with_capacity(_in)?$|Vec<.*as std::clone::Clone>::clone$|String as std::clone::Clone>::clone$|::to_vec(_in)?$|::to_owned$|::into_owned$|::collect$|::from_iter$|::from_elem$|Box::<.*>::new$|boxed::box_new|exchange_malloc|::to_string$|alloc::fmt::format|std::fmt::format$|::repeat$|::concat$|::join$|Rc::<.*>::new$|Arc::<.*>::new$|::split_off$|::shrink_to_fit$|::shrink_to$|::into_boxed_slice$|::into_vec$|box_assume_init_into_vec|write_via_move|<impl std::convert::From<.*> for (alloc|std)::|::try_reserve_unwrap$|::unzip$|::partition$|to_lowercase$|to_uppercase$|from_utf8_lossy$|::replace$|::sort$|::sort_by$|::sort_by_key$)")
SAFEMOD=re.compile(r"Option::|Cell|mem::replace|ptr::")
EXEMPT=re.compile(r"Debug>::fmt|::for_3rd::|^for_3rd::|<for_3rd|as serde")
def cont(P,t):
    x=P.ty.get(t) or {}
    while x.get("s","").startswith("&"):
        t=x.get("to"); x=P.ty.get(t) or {}
    return x.get("path") in("std::vec::Vec","std::string::String","std::collections::VecDeque","std::collections::BTreeMap","std::collections::HashMap")
class Fn:
    """resolution of references to containers to stable places within one function"""
    def __init__(s,P,f):
        s.P=P; s.f=f; s.d={}
        for b in f["blocks"]:
            for x in b["s"]:
                if x.get("p") and len(x["p"])==1 and isinstance(x.get("v"),dict): s.d.setdefault(x["p"][0],[]).append(x["v"])
            t=b["t"]
            if t["k"]=="call" and t.get("p") and len(t["p"])==1: s.d.setdefault(t["p"][0],[]).append(t)
    def res(s,p,n=0):
        """canonical place behind place p (a tuple) or None"""
        l=p[0]; rest=tuple(str(x) for x in p[1:])
        if n>12: return None
        if rest and rest[0]=="*":
            q=s.deref(l,n)
            return None if q is None else q+rest[1:]
        if s.f["locals"] and not rest: return (l,)
        return (l,)+rest
    def deref(s,l,n=0):
        """place that the reference held in local l refers to"""
        if 0<l<=s.f["argc"]: return ("arg",l,"*")
        ds=s.d.get(l,[])
        if len(ds)!=1: return None
        v=ds[0]
        if v.get("k")=="call":
            q=(v["f"].get("v") or {}).get("rpath") or ""
            if q.endswith(("::deref_mut","::borrow_mut","::as_mut","::by_ref","::from_mut")) and v["a"] and v["a"][0].get("o") in("cp","mv"):
                r=s.val(v["a"][0]["p"],n+1)
                return None if r is None else r+("deref",)
            return None
        if v.get("r")=="ref" or v.get("r")=="raw": return s.res(tuple(v["p"]),n+1)
        if v.get("r")=="use" and v["a"].get("o") in("cp","mv"): return s.val(v["a"]["p"],n+1)
        if v.get("r")=="cast" and v["a"].get("o") in("cp","mv"): return s.val(v["a"]["p"],n+1)
        return None
    def val(s,p,n=0):
        """place that the reference stored in place p refers to"""
        if len(p)==1: return s.deref(p[0],n)
        r=s.res(tuple(p),n)
        return None if r is None else r+("*",)
    def arg(s,o):
        if o.get("o") not in("cp","mv"): return None
        return s.val(o["p"])
def origin(F,o,n=0):
    """definition an operand's value comes from"""
    if n>10 or not isinstance(o,dict) or o.get("o") not in("cp","mv"): return None
    p=o["p"]
    if len(p)==2 and isinstance(p[1],list) and p[1][0]=="f" and p[1][1]==0: pass
    elif len(p)!=1: return None
    ds=F.d.get(p[0],[])
    if len(ds)!=1: return None
    v=ds[0]
    if v.get("r")=="use": return origin(F,v["a"],n+1)
    return v
def shrinks(F,pl,o):
    """the amount is the container's length less something, or a minimum with it"""
    v=origin(F,o)
    if v is None: return False
    if v.get("r")=="bin" and v["op"] in("Sub","SubWithOverflow","SubUnchecked"): return lenof(F,origin(F,v["a"]),pl,"len")
    if v.get("k")=="call":
        q=(v["f"].get("v") or {}).get("rpath") or ""
        if q.endswith(("::min","::saturating_sub")): return any(lenof(F,origin(F,a),pl,"len") for a in v["a"])
        return lenof(F,v,pl,"len")
    return False
def lenof(F,v,pl,what):
    if not v or v.get("k")!="call": return False
    q=(v["f"].get("v") or {}).get("rpath") or ""
    return q.endswith("::"+what) and bool(v["a"]) and F.arg(v["a"][0]) in(pl,pl+("deref",))
def canon(F,o,n=0):
    """name of an operand's value: the local it was copied from, or the constant"""
    if o.get("o")=="c": return ("c",str((o.get("v") or {}).get("v")))
    p=o["p"]
    if len(p)==1 and n<10:
        ds=F.d.get(p[0],[])
        if len(ds)==1 and ds[0].get("r")=="use": return canon(F,ds[0]["a"],n+1)
    return ("l",str(p))
def lenedges(F,t):
    """edges of a switch on which a container is known to be at least as long as a value: [(place, value, truth)]"""
    r=[]; v=origin(F,t["d"]); neg=False
    if v and v.get("r")=="un" and v.get("op")=="Not": neg=True; v=origin(F,v["a"])
    if not v or v.get("r")!="bin" or v["op"] not in("Lt","Le","Gt","Ge"): return r
    for side,oth in(("a","b"),("b","a")):
        c=origin(F,v[side])
        if c and c.get("k")=="call" and ((c["f"].get("v") or {}).get("rpath") or "").endswith("::len") and c["a"]:
            pl=F.arg(c["a"][0])
            if pl is not None and pl[-1:]==("deref",): pl=pl[:-1]
            op=v["op"] if side=="a" else {"Lt":"Gt","Le":"Ge","Gt":"Lt","Ge":"Le"}[v["op"]]
            if pl is not None: r.append((pl,canon(F,v[oth]),(op in("Gt","Ge"))!=neg))
    return r
def capedges(F,t):
    """edges of a switch on which a container's capacity is known to be sufficient: {target: place}"""
    r=[]
    v=origin(F,t["d"])
    neg=False
    if v and v.get("r")=="un" and v.get("op")=="Not": neg=True; v=origin(F,v["a"])
    if not v or v.get("r")!="bin" or v["op"] not in("Lt","Le","Gt","Ge"): return r
    for side in("a","b"):
        c=origin(F,v[side])
        if c and c.get("k")=="call" and ((c["f"].get("v") or {}).get("rpath") or "").endswith("::capacity") and c["a"]:
            pl=F.arg(c["a"][0])
            # capacity op n: sufficient when the comparison says capacity >= n (or > n)
            op=v["op"] if side=="a" else {"Lt":"Gt","Le":"Ge","Gt":"Lt","Ge":"Le"}[v["op"]]
            good=op in("Gt","Ge")
            if op in("Gt","Ge","Lt"): r.append((pl,good!=neg))
    return r
def const_amount(f,fn,o):
    if o.get("o")=="c" and isinstance(o.get("v"),dict) and o["v"].get("c")=="int": return int(o["v"]["v"])
    return None
INFC=1<<30
def analyse(P,f,oblig,rep,bad,und):
    """forward must-analysis: container place -> number of insertions it has room for; returns obligations on arguments"""
    F=Fn(P,f); bl=f["blocks"]; need={}
    ins={0:{}}; todo=[0]; sites={}
    tested=set()
    def succs(t):
        r=[]
        if t["k"]=="goto": r=[t["t"]]
        elif t["k"]=="switch": r=[x[1] for x in t["c"]]+([t["else"]] if t.get("else") is not None else [])
        elif t["k"] in("call","assert","drop"): r=[t["t"]] if t.get("t") is not None else []
        return r
    def use_of(l):
        for b in bl:
            for x in b["s"]:
                u=[]; locs(x.get("v"),u)
                if l in u: return True
            t=b["t"]; u=[]
            if t["k"]=="switch": locs(t["d"],u)
            elif t["k"]=="call": locs(t["a"],u)
            if l in u or (t["k"]=="ret" and l==0): return True
        return l==0
    it=0
    while todo:
        n=todo.pop(); st=dict(ins[n]); b=bl[n]; t=b["t"]; it+=1
        if it>20000: und("%s: typestate does not settle"%f["path"]); return {}
        for x in b["s"]:
            # a container that is moved or overwritten loses its room
            if x.get("p") and isinstance(x.get("v"),dict):
                pl=F.res(tuple(x["p"]))
                v=x["v"]
                if pl is not None:
                    for k in [k for k in st if k[:len(pl)]==pl or (k[0]=="shr" and (k[1][:len(pl)]==pl or k[2]==("l",str(list(pl)))))]: del st[k]
                if v.get("r")=="use" and v["a"].get("o")=="mv":
                    src=F.res(tuple(v["a"]["p"]))
                    if src is not None and pl is not None:
                        for k in [k for k in st if k[:len(src)]==src]: st[pl+k[len(src):]]=st.pop(k)
        if t["k"]=="call":
            c=t["f"].get("v") or {}; q=c.get("rpath") or c.get("path") or "?"; a=t["a"]; local=P.fns.get(c.get("id"))
            line=t.get("cl")
            isloc=local is not None and local["local"]
            if isloc:
                for k,cnt in oblig.get(local["id"],{}).items():
                    # k: place relative to an argument
                    i=k[1]
                    if i-1>=len(a): continue
                    base_=F.val(a[i-1]["p"]) if a[i-1].get("o") in("cp","mv") else None
                    if k[2:3]==("*",): pl=None if base_ is None else base_+k[3:]
                    else:
                        r=F.res(tuple(a[i-1]["p"])) if a[i-1].get("o") in("cp","mv") else None
                        pl=None if r is None else r+k[2:]
                    grow(P,f,F,st,need,pl,"%s in %s"%(cnt,local["path"]),line,bad,und,sites,None)
            elif RES.search(q):
                pl=F.arg(a[0])
                if pl is None: und("%s: container reserved at line %s not identified"%(f["path"],line))
                elif not use_of(t["p"][0]): bad("reserve result unused %s"%f["path"],"%s (%s:%s): the result of %s is not examined"%(f["path"],f["file"],line,q))
                else:
                    n_=const_amount(f,F,a[1]); st[pl]=max(st.get(pl,0),INFC if n_ is None else n_)
            elif GROW.search(q) and a and a[0].get("o") in("cp","mv"):
                cl=cont(P,ptype(P,f,a[0]["p"]))
                isstr="std::string::String as" in q
                if cl or isstr:
                    pl=F.arg(a[0]) if ptype_s(P,f,a[0]["p"]).startswith("&") else F.res(tuple(a[0]["p"]))
                    if q.endswith("::resize") and pl is not None and (shrinks(F,pl,a[1]) or ("shr",pl,canon(F,a[1])) in st): sites.setdefault((q,line),"ok")
                    else: grow(P,f,F,st,need,pl,q,line,bad,und,sites,1 if q.endswith("::push") else None)
            elif ALLOC.search(q) and not SAFEMOD.search(q): pass
            # closures handed to library functions run here
            for o in a:
                if o.get("o") not in("cp","mv"): continue
                ty=P.ty.get(ptype(P,f,o["p"])) or {}
                if ty.get("k")=="closure" or "{closure" in ty.get("s",""):
                    for g in closures(P,f,ty):
                        for k,cnt in oblig.get(g["id"],{}).items():
                            pl=upvar(F,o["p"],k)
                            grow(P,f,F,st,need,pl,"%s in %s"%(cnt,g["path"]),line,bad,und,sites,None)
            if t.get("p"):
                pl=F.res(tuple(t["p"]))
                if pl is not None:
                    for k in [k for k in st if k[:len(pl)]==pl or (k[0]=="shr" and (k[1][:len(pl)]==pl or k[2]==("l",str(list(pl)))))]: del st[k]
        ce=capedges(F,t) if t["k"]=="switch" else []
        le=lenedges(F,t) if t["k"]=="switch" else []
        for m in succs(t):
            so=st; st_=st
            for pl,x,good in le:
                val=0 if [y for y in t["c"] if y[1]==m and str(y[0])=="0"] else 1
                if (val==1)==good: st_=dict(st_); st_[("shr",pl,x)]=INFC
            for pl,good in ce:
                val=0 if [x for x in t["c"] if x[1]==m and str(x[0])=="0"] else 1
                if pl is not None and (val==1)==good: st_=dict(st_); st_[pl]=INFC
            if m not in ins: ins[m]=dict(st_); todo.append(m)
            else:
                st=st_
                old=ins[m]; new={k:min(v,st[k]) for k,v in old.items() if k in st}
                if new!=old: ins[m]=new; todo.append(m)
                st=so
    return need,sites
def locs(o,out):
    if isinstance(o,dict):
        if o.get("o") in("cp","mv"): out.append(o["p"][0])
        elif "p" in o and isinstance(o["p"],list) and o["p"]: out.append(o["p"][0])
        for k,v in o.items():
            if k!="p": locs(v,out)
    elif isinstance(o,list):
        for v in o: locs(v,out)
def ptype(P,f,p):
    t=f["locals"][p[0]]
    for st in p[1:]:
        x=P.ty.get(t) or {}
        if st=="*": t=x.get("to")
        elif isinstance(st,(list,tuple)) and st[0]=="f": t=st[2] if len(st)>2 else None
        elif isinstance(st,(list,tuple)) and st[0]=="v": pass
        else: t=None
        if t is None: return None
    return t
def ptype_s(P,f,p): return (P.ty.get(ptype(P,f,p)) or {}).get("s","")
def closures(P,f,ty):
    return [g for g in P.fns.values() if g["local"] and g["path"].startswith(f["path"]+"::{closure#") and ty.get("path")==g["path"]]
def upvar(F,p,k):
    """place of the parent behind capture place k=('arg',1,[*],('f',i)...,'*',...)"""
    ks=list(k[2:])
    if ks and ks[0]=="*": ks=ks[1:]
    if not ks: return None
    m=re.match(r"\['f', (\d+)",ks[0]) or re.match(r"\('f', (\d+)",ks[0])
    if not m: return None
    i=int(m.group(1))
    ds=F.d.get(p[0],[])
    if len(ds)!=1: return None
    v=ds[0]
    if v.get("r")!="agg": return None
    ops=v.get("f") or v.get("a") or v.get("ops") or []
    if i>=len(ops) or ops[i].get("o") not in("cp","mv"): return None
    r=ks[1:]
    if r and r[0]=="*":
        q=F.val(ops[i]["p"]); r=r[1:]
    else: q=F.res(tuple(ops[i]["p"]))
    return None if q is None else q+tuple(r)
def grow(P,f,F,st,need,pl,what,line,bad,und,sites,n):
    key=(what,line)
    if pl is None:
        sites[key]="?"; return
    have=st.get(pl)
    if have is None or have<=0:
        if pl[0]=="arg":
            need[pl]=what; sites[key]="moved to the caller"
        else: sites[key]="bad"
        return
    if n is not None and have<INFC: st[pl]=have-n
    elif n is None and have<INFC: pass
    sites.setdefault(key,"ok")
def run(tier):
    P=prog(); rep=Report("C08",RULE); G=Graph(P)
    fs={i:f for i,f in P.fns.items() if f["local"]}
    for i,f in P.poly.items():
        if f["path"] not in {g["path"] for g in fs.values()} and f["path"] in reached_generic(P): fs[i]=f
    callers={}
    for i in G.out:
        for j in G.out[i]: callers.setdefault(j,set()).add(i)
    def isconst(i,seen=None):
        """only run to build a constant: reached from the initialiser of a static alone"""
        seen=seen or set()
        if i in seen: return True
        seen.add(i); p=P.fns[i]["path"] if i in P.fns else ""
        if any(p.startswith(d["path"]+"::") or "__static_ref_initialize" in p for d in P.statics): return True
        c=callers.get(i,())
        return bool(c) and all(isconst(x,seen) for x in c)
    oblig={}; ch=True; rounds=0; res={}
    while ch and rounds<12:
        ch=False; rounds+=1
        for i,f in fs.items():
            if rounds>1 and not any(j in oblig for j in G.out.get(i,())) : continue
            b=[]; u=[]
            r=analyse(P,f,oblig,rep,lambda k,m:b.append((k,m)),u.append)
            if not r: res[i]=({},{},b,u); continue
            need,sites=r; res[i]=(need,sites,b,u)
            if need!=oblig.get(i,{}): 
                if need: oblig[i]=need
                else: oblig.pop(i,None)
                ch=True
    called={j for i in G.out for j in G.out[i]}
    for i,f in sorted(fs.items()):
        rep.fns.add(f["path"])
        if i not in res: continue
        need,sites,b,u=res[i]
        if EXEMPT.search(f["path"]): continue
        if sites: rep.unit(f["path"])
        for k,m in b: rep.bad(k,m)
        for x in u: rep.undecided(x)
        for (what,line),v in sorted(sites.items(),key=str):
            rep.count("growth_sites")
            if v=="ok": rep.ok("%s: %s is covered by a reservation"%(f["path"],what))
            elif v=="moved to the caller":
                if i not in called: rep.bad("unreserved %s"%f["path"],"%s (%s:%s): %s grows a container of the caller without a fallible reservation"%(f["path"],f["file"],line,what))
                else: rep.ok()
            elif v=="?": rep.undecided("%s (line %s): container of %s not identified"%(f["path"],line,what))
            else: rep.bad("unreserved %s"%f["path"],"%s (%s:%s): %s can grow a container for which no memory was fallibly reserved on some path (allocation failure aborts)"%(f["path"],f["file"],line,what))
        for c,p in sorted(G.ext.get(i,())):
            if not ALLOC.search(p) or SAFEMOD.search(p): continue
            if p.endswith("String as std::clone::Clone>::clone") : pass
            if isconst(i): rep.ok(); continue
            rep.bad("infallible allocation %s"%f["path"],"%s (%s:%s) allocates with %s, which aborts when memory is exhausted"%(f["path"],f["file"],f["line"],p))
    if rep.cnt.get("growth_sites",0)<8: rep.undecided("only %d growth sites found: the query may be blind"%rep.cnt.get("growth_sites",0))
    rep.assume.append("a non-constant reservation is large enough for the insertions that follow it (amounts are compared for constants only)")
    return rep
def reached_generic(P): return set()
