"""C16: values are immutable, thread-safe data."""
import re
from ops import *
from effects import *
from report import Report
RULE=("Type and effect queries on the type-checked crate: the types of values, contexts and caches own nothing with interior mutability, raw pointers, shared ownership or trait objects; "
 "every place through which memory is written is reached from an owned local or an exclusive reference, and a raw pointer used for writing comes from an exclusive reference (never from a shared one); "
 "no function turns a shared reference into a writable pointer or a transmuted reference; no hand-written Send/Sync.")
VAL=["ext::BigFloat","num::BigFloatNumber","ctx::Context","ops::consts::Consts","defs::Error","defs::RoundingMode","defs::Radix","defs::Sign"]
BADTY=re.compile(r"\bstd::cell::|\bUnsafeCell\b|\bstd::rc::|\bRc<|\bArc<|\bstd::sync::|^\*const|^\*mut|\bdyn |\bPhantomData<\*|\bManuallyDrop\b|\bMaybeUninit\b")
# inside Vec
VECIN=re.compile(r"^(std::vec::Vec<|alloc::raw_vec::|std::alloc::Global|std::ptr::Unique<|std::ptr::NonNull<|std::marker::PhantomData<u64>|\*const u64|\*const u8)")
def fieldtypes(P,t,seen,out,vec=False):
    """types owned by t, not looking inside Vec and String (owned storage of the standard library)"""
    if t in seen or t not in P.ty: return
    seen.add(t); x=P.ty[t]; out.add(t)
    if x.get("path") in("std::vec::Vec","std::string::String","std::boxed::Box","std::collections::BTreeMap"):
        for a in x.get("args") or []:
            if isinstance(a,int): fieldtypes(P,a,seen,out)
        return
    for v in x.get("variants") or []:
        for _,ft in v["f"]: fieldtypes(P,ft,seen,out)
    for k in("to","elem"):
        if isinstance(x.get(k),int): fieldtypes(P,x[k],seen,out)
    for k in("args","f","of"):
        for a in x.get(k) or []:
            if isinstance(a,int): fieldtypes(P,a,seen,out)
def sname(P,t): return (P.ty.get(t) or {}).get("s","?")
WRITERS=re.compile(r"::(write|write_unaligned|write_volatile|write_bytes|copy_to|copy_from|copy_to_nonoverlapping|copy_from_nonoverlapping|copy|copy_nonoverlapping|swap_nonoverlapping|replace|drop_in_place|from_raw_parts_mut|slice_from_raw_parts_mut|from_raw_parts|from_raw|as_mut|as_uninit_mut)$")
MOVE=re.compile(r"mut_ptr::<impl \*mut T>::(add|sub|offset|wrapping_add|wrapping_sub|wrapping_offset|cast|byte_add|byte_sub)$")
SRC=re.compile(r"::(as_mut_ptr|as_mut_ptr_range)$|NonNull.*::as_ptr$")
def one(o): return o["p"][0] if isinstance(o,dict) and o.get("o") in("cp","mv") and len(o["p"])==1 else None
def mutref(P,f,p):
    """the place p is owned by a local or reached through exclusive references only"""
    t=f["locals"][p[0]]
    if "*" not in p: return True
    i=p.index("*")
    return i==1 and sname(P,t).startswith("&mut") and "*" not in p[2:]
class Prov:
    """does a raw pointer come from an exclusive reference?"""
    def __init__(s,P,f):
        s.P=P; s.f=f; s.d={}
        for b in f["blocks"]:
            for x in b["s"]:
                if x.get("p") and len(x["p"])==1 and isinstance(x.get("v"),dict): s.d.setdefault(x["p"][0],[]).append(("v",x["v"],x.get("l")))
            t=b["t"]
            if t["k"]=="call" and t.get("p") and len(t["p"])==1: s.d.setdefault(t["p"][0],[]).append(("c",t,t.get("cl")))
        s.memo={}
    def bad(s,l,seen=()):
        """None if fine, otherwise (verdict, why)"""
        if l in seen: return None
        if l in s.memo: return s.memo[l]
        if 0<l<=s.f["argc"]: r=None if sname(s.P,s.f["locals"][l]).startswith("*mut") else ("?","argument")
        else: r=None
        for k,v,line in s.d.get(l,[]):
            if r: break
            if k=="v":
                w=v.get("r")
                if w=="use" and one(v.get("a")) is not None: r=s.bad(one(v["a"]),seen+(l,))
                elif w=="raw": r=None if mutref(s.P,s.f,v["p"]) else ("bad","taken through a shared reference (line %s)"%line)
                elif w=="cast":
                    o=one(v.get("a")); src=sname(s.P,s.f["locals"][o]) if o is not None else "?"
                    if src.startswith("*mut"): r=s.bad(o,seen+(l,))
                    elif src.startswith("&mut"): r=None
                    elif src.startswith(("*const","&")): r=("bad","made from %s (line %s)"%(src,line))
                    else: r=("?","made from %s"%src)
                else: r=("?","%s (line %s)"%(w,line))
            else:
                q=(v["f"].get("v") or {}).get("rpath") or (v["f"].get("v") or {}).get("path") or "?"
                if SRC.search(q): r=None
                elif MOVE.search(q): r=s.bad(one(v["a"][0]),seen+(l,)) if one(v["a"][0]) is not None else ("?",q)
                elif q.endswith("::cast_mut"): r=("bad","a shared pointer made writable by cast_mut (line %s)"%line)
                else: r=("?","result of %s"%q)
        if not r and not (0<l<=s.f["argc"]) and not s.d.get(l): r=("?","no definition found")
        s.memo[l]=r
        return r
def run(tier):
    P=prog(); rep=Report("C16",RULE)
    for n in VAL:
        t=P.tyid(n)
        if t is None: rep.undecided("type %s not found"%n); continue
        rep.unit(n); seen=set(); out=set(); fieldtypes(P,t,seen,out)
        for u in sorted(out):
            s=sname(P,u)
            if BADTY.search(s) or s.startswith("&"): rep.bad("%s holds %s"%(n,s),"%s contains %s"%(n,s))
            else: rep.ok("%s owns %s"%(n,s))
        if P.ty[t].get("freeze") is not True: rep.bad("%s not freeze"%n,"%s has interior mutability"%n)
        else: rep.ok()
    nraw=0
    for i,f in sorted(list(P.fns.items())+[(i,f) for i,f in P.poly.items()]):
        if not f["local"]: continue
        rep.fns.add(f["path"]); pv=None
        def chk(l,what,line):
            v=pv.bad(l)
            if v is None: rep.ok("%s: %s through a pointer from an exclusive reference"%(f["path"],what))
            elif v[0]=="bad": rep.bad("shared write %s"%base(f["path"]),"%s (%s:%s): %s through a pointer %s"%(f["path"],f["file"],line,what,v[1]))
            else: rep.undecided("%s (line %s): origin of a written pointer not known: %s"%(f["path"],line,v[1]))
        pv=Prov(P,f)
        for b in f["blocks"]:
            for x in b["s"]:
                v=x.get("v")
                if x.get("p") and "*" in x["p"]:
                    t=sname(P,f["locals"][x["p"][0]])
                    if x["p"][1]=="*" and t.startswith("*"):
                        nraw+=1
                        if t.startswith("*const"): rep.bad("shared write %s"%base(f["path"]),"%s (%s:%s) writes through a *const pointer"%(f["path"],f["file"],x.get("l")))
                        else: chk(x["p"][0],"a write",x.get("l"))
                    else: rep.ok()
                if not isinstance(v,dict): continue
                if v.get("r")=="ref" and v.get("mut") and len(v["p"])>1 and v["p"][1]=="*" and sname(P,f["locals"][v["p"][0]]).startswith("*"):
                    nraw+=1; chk(v["p"][0],"an exclusive reference",x.get("l"))
                if v.get("r")=="cast":
                    o=one(v.get("a")); src=sname(P,f["locals"][o]) if o is not None else ""; dst=sname(P,v.get("ty"))
                    if src.startswith(("&","*const")) and not src.startswith("&mut") and dst.startswith(("*mut","&mut")): rep.bad("shared to mutable %s"%base(f["path"]),"%s (%s:%s) turns %s into %s"%(f["path"],f["file"],x.get("l"),src,dst))
            t=b["t"]
            if t["k"]!="call": continue
            c=t["f"].get("v") or {}; q=c.get("rpath") or c.get("path") or ""
            if q.endswith(("mem::transmute","mem::transmute_copy","intrinsics::transmute")):
                w=[sname(P,a) for a in c.get("targs") or [] if isinstance(a,int)]
                if len(w)==2 and ("&" in w[0] or "*" in w[0]) and ("&mut" in w[1] or "*mut" in w[1]) and "&mut" not in w[0]: rep.bad("shared to mutable %s"%base(f["path"]),"%s (%s:%s) transmutes %s into %s"%(f["path"],f["file"],t.get("cl"),w[0],w[1]))
                else: rep.undecided("%s: transmute %s"%(f["path"],w))
            elif q.endswith("::cast_mut"): rep.bad("shared to mutable %s"%base(f["path"]),"%s (%s:%s) makes a shared pointer writable (cast_mut)"%(f["path"],f["file"],t.get("cl")))
            elif "UnsafeCell" in q: rep.undecided("%s: %s"%(f["path"],q))
            elif WRITERS.search(q) and ("ptr::" in q or "slice::from_raw" in q or "slice::raw" in q or q.startswith("std::intrinsics") or "Vec::<T>::from_raw" in q):
                for a in t["a"]:
                    l=one(a)
                    if l is not None and sname(P,f["locals"][l]).startswith("*mut"): nraw+=1; chk(l,q,t.get("cl"))
    rep.count("raw_writes",nraw)
    rep.assume.append("safe Rust: the borrow checker keeps shared references unwritable; core and alloc are sound")
    return rep
