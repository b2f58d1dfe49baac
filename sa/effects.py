"""Call graph and effect queries over the dumped MIR of the crate."""
import re
def consts(o,out):
    if isinstance(o,dict):
        if o.get("o")=="c" and isinstance(o.get("v"),dict): cwalk(o["v"],out)
        for k,v in o.items():
            if k!="v" or o.get("o")!="c": consts(v,out)
    elif isinstance(o,list):
        for v in o: consts(v,out)
def cwalk(v,out):
    if isinstance(v,dict):
        if v.get("c") in("fn","static","closure"): out.append(v)
        for x in v.values(): cwalk(x,out)
    elif isinstance(v,list):
        for x in v: cwalk(x,out)
def refs(fn):
    out=[]; consts(fn["blocks"],out)
    for b in fn["blocks"]:
        for s in b["s"]:
            v=s.get("v")
            if isinstance(v,dict) and v.get("r")=="agg" and v.get("k")=="closure": out.append({"c":"fn","id":v.get("id"),"rpath":v.get("path") or v.get("id"),"rcrate":fn["crate"]})
    return out
def base(path):
    return re.sub(r"(::\{closure#\d+\})+$","",path)
def last(path): return base(path).split("::")[-1]
class Graph:
    def __init__(s,P):
        s.P=P; s.out={}; s.ext={}; s.stat={}
        for fid,f in P.fns.items():
            if not f["local"]: continue
            o=set(); e=set(); st=set()
            for c in refs(f):
                if c["c"]=="static": st.add(c.get("path") or "?"); continue
                g=P.fns.get(c.get("id"))
                if g is not None and g["local"]: o.add(g["id"])
                else: e.add((c.get("rcrate") or c.get("crate") or "?",c.get("rpath") or c.get("path") or "?"))
                for p in (c.get("targs") or []): pass
            s.out[fid]=o; s.ext[fid]=e; s.stat[fid]=st
        # closures belong to the function that contains them
        bypath={}
        for fid,f in P.fns.items():
            if f["local"]: bypath.setdefault(f["path"],[]).append(fid)
        for fid,f in P.fns.items():
            if f["local"] and "{closure#" in f["path"]:
                par=f["path"].rsplit("::{closure#",1)[0]
                for q in bypath.get(par,[]): s.out[q].add(fid)
    def reach(s,fid):
        seen={fid}; todo=[fid]
        while todo:
            for g in s.out.get(todo.pop(),()):
                if g not in seen: seen.add(g); todo.append(g)
        return seen
    def path_to(s,fid,pred):
        """shortest call path from fid to a function satisfying pred"""
        from collections import deque
        prev={fid:None}; q=deque([fid])
        while q:
            x=q.popleft()
            if pred(x):
                r=[]
                while x is not None: r.append((s.P.fns.get(x) or s.P.poly[x])["path"]); x=prev[x]
                return r[::-1]
            for g in sorted(s.out.get(x,())):
                if g not in prev: prev[g]=x; q.append(g)
        return None
def tyname(P,t): return P.ty[t]["s"] if t in P.ty else "?"
def subtypes(P,t,seen=None):
    """types a value of type t owns or refers to"""
    seen=set() if seen is None else seen
    if t in seen or t not in P.ty: return seen
    seen.add(t); x=P.ty[t]
    for k in("to","elem"):
        if isinstance(x.get(k),int): subtypes(P,x[k],seen)
    for v in x.get("variants") or []:
        for _,ft in v["f"]: subtypes(P,ft,seen)
    for a in x.get("args") or []:
        if isinstance(a,int): subtypes(P,a,seen)
    for a in x.get("of") or []:
        if isinstance(a,int): subtypes(P,a,seen)
    for a in x.get("f") or []:
        if isinstance(a,int): subtypes(P,a,seen)
    return seen
