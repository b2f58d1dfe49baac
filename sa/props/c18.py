"""C18: serde support."""
import c21
from c21 import *
RULE=("Query over the visitor's methods (every kind of number and text a self-describing format can hand over reaches a method of the crate) and abstract interpretation of each of them per class of the number visited: "
 "the magnitude and sign reaching the conversion are the visited value's, nothing panics or is refused, non-finite floats and failed conversions are an error or the same non-finite value; text goes to the parser whole; "
 "serialisation writes what Display writes, and deserialisation asks for any kind.")
NEED={"visit_u64":"u64","visit_i64":"i64","visit_u128":"u128","visit_i128":"i128","visit_f64":"f64","visit_str":"&str"}
OPT={"visit_f32":"f32","visit_u8":"u8","visit_u16":"u16","visit_u32":"u32","visit_i8":"i8","visit_i16":"i16","visit_i32":"i32"}
class C18(C21):
    """no allocation fails here: what happens then is C08 and C09's subject"""
    def __init__(s,*a,**k):
        C21.__init__(s,*a,**k); s.fwd=[]; s.memerr=False
    def incall(s,st,fn,b,c,args,ctx,depth):
        p=c.get("full") or c.get("path") or ""; q=p.split("::<")[0].split("::")[-1]
        if c.get("id") is None and "Visitor" in p and re.search(r"::visit_\w+",p):
            s.fwd.append((re.search(r"visit_\w+",p).group(0),[s.norm(a,st) for a in args]))
        r=C21.incall(s,st,fn,b,c,args,ctx,depth)
        if r is not None:
            return [(x,v) for x,v in r if not(type(v) is A and v.var==1 and s.P.ty.get(v.ty,{}).get("path")=="std::result::Result")]
        return None
def run(tier="quick"):
    P=prog(); rep=Report("C18",RULE)
    for i,f in P.poly.items():
        if "for_3rd" in i: P.fns[i]=f
    vis={}
    for i,f in P.fns.items():
        m=re.search(r"as serde::de::Visitor<.*>>::(visit_\w+)\Z",f["path"])
        if m and f["local"]: vis[m.group(1)]=f
    for n,t in sorted(NEED.items()):
        if n in vis: rep.ok("the visitor accepts %s"%t)
        else: rep.bad("missing %s"%n,"the visitor has no method for %s: such a value is refused although it is a number or its text"%t)
    for n,f in sorted(vis.items()):
        rep.unit(f["path"]); rep.fns.add(f["path"])
        t=P.tys(f["locals"][2])
        if t in PRIM: number(rep,P,f,n,t)
        elif "str" in t.lower(): text(rep,P,f,n)
    entry(rep,P)
    rep.assume+=["serde's default methods forward u8..u32 and i8..i32 to the 64-bit methods, f32 to f64, borrowed and owned strings to visit_str","no allocation fails (C08, C09)","what BigFloat::from_str does with a text is C14's subject"]
    return rep
def number(rep,P,f,n,t):
    for lab,lo,hi in (fclasses(t) if t in FL else iclasses(t)):
        I=C18(P,root=f["id"],ext=True); I.budget=300000; st=State(); v=Sym("v",lo,hi)
        arg=A(f["locals"][2],"float",(v,)) if t in FL else v
        args=[I.fresh(f["locals"][1],"a",None),arg]
        what="%s(%s)"%(n,lab)
        try: outs=I.run(f["id"],args,st)
        except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(what,e)); continue
        rep.fns|=I.stats["fns"]
        for w,kd in sorted(set(I.pan)): rep.bad("%s | panic"%n,"%s: can panic in %s (%s)"%(what,w,kd[:80]))
        for w,kd in sorted(set(I.lossy)): rep.bad("%s | narrowing"%n,"%s: %s"%(what,kd))
        cls=lab.lstrip("+-") if t in FL else lab
        good=False; tmp=Report("C18","")
        for x,r in outs:
            r=I.norm(r,x)
            if not(type(r) is A and P.ty.get(r.ty,{}).get("path")=="std::result::Result"): rep.undecided("%s: outcome not identified"%what); good=None; continue
            if r.var==1:
                if cls in("NaN","infinity"): rep.ok(what)
                continue
            good=True
            judge2(rep,P,I,f,t,lab,lo,hi,v,what,n,x,r)
        if cls in("NaN","infinity"): continue
        if I.fwd and good is None: continue
        if good is False:
            if I.fwd: rep.ok("%s is forwarded to %s"%(what,I.fwd[0][0]))
            else: rep.bad("%s | refused"%n,"%s: every such value ends in a deserialisation error"%what)
def judge2(rep,P,I,f,t,lab,lo,hi,v,what,n,x,r):
    """the successful value, judged like a conversion"""
    g=dict(f); ty=P.tyid("ext::BigFloat")
    rr=Report("C18","")
    c21.judge(rr,P,I,f,t,lab,lo,hi,v,what,n,x,r)
    rep.obl+=rr.obl; rep.held+=rr.held; rep.und+=rr.und
    for k,ms in rr.viol.items():
        if t in FL and "subnormal" in k and "exponent" in k: rep.note("exponent of subnormal floats: see C21's known finding"); continue
        rep.viol.setdefault(k,[]).extend(ms)
def text(rep,P,f,n):
    I=C18(P,root=f["id"],ext=True); I.budget=300000; st=State(); got=[]
    def inc(s,fn,b,c,args,ctx,depth):
        p=c.get("full") or c.get("path") or ""
        if re.search(r"FromStr>::from_str|BigFloat::parse\Z|::visit_str(::<.*)?\Z",p) and not(c.get("id")==f["id"]):
            got.append((p,[describe(I,s,a) for a in args]))
            if "visit_str" in p: return None
            dty=None
            return None
        if (c.get("rpath") or p).endswith("Deref>::deref") and args: return [(s,args[0])]
        return None
    args=mkargs(I,st,f,hook=lambda i,nm,t,s_: A(t,("text",),()) if i==1 and P.ty[t]["k"]!="ref" else R(("H","text"),(),False) if i==1 else None)
    st.mem[("H","text")]=A(None,("text",),())
    I.oncall=inc
    try: outs=I.run(f["id"],args,st)
    except (Abort,KeyError,IndexError,AttributeError,TypeError,ValueError) as e: rep.undecided("%s: %r"%(n,e)); return
    whole=[g for g in got if "text" in g[1]]
    if whole: rep.ok("%s hands the whole text to %s"%(n,whole[0][0]))
    elif got: rep.bad("%s | text"%n,"%s: the text handed to %s is not the visited text"%(n,got[0][0]))
    else: rep.undecided("%s: no use of the text identified"%n)
    kinds=set()
    for x,r in outs:
        r=I.norm(r,x)
        kinds.add(r.var if type(r) is A else "?")
def describe(I,st,a):
    a=I.norm(a,st)
    for _ in range(4):
        if type(a) is R:
            if a.loc==("H","text"): return "text"
            a=I.norm(I.getp(st,a.loc,a.proj,None,"d"),st) if a.loc in st.mem else None
        else: break
    if type(a) is A and a.var==("text",): return "text"
    return "?"
def entry(rep,P):
    de=[f for i,f in P.fns.items() if f["local"] and re.search(r"serde::Deserialize<.*BigFloat>::deserialize\Z",f["path"])]
    se=[f for i,f in P.fns.items() if f["local"] and re.search(r"serde::Serialize for ext::BigFloat>::serialize\Z",f["path"])]
    def calls(f):
        seen=set(); todo=[f]; out=[]
        while todo:
            g=todo.pop()
            if g["id"] in seen: continue
            seen.add(g["id"])
            for b in g["blocks"]:
                t=b["t"]
                if t["k"]=="call" and isinstance(t["f"],dict) and t["f"].get("v",{}).get("c")=="fn":
                    c=t["f"]["v"]; out.append(c.get("full") or c["path"])
                    h=P.fns.get(c.get("id")) or next((y for k,y in P.fns.items() if k.startswith("poly ") and y["path"]==c["path"]),None)
                    if h and h["local"] and "for_3rd" in h["path"]: todo.append(h)
        return out
    if not de: rep.bad("no Deserialize","BigFloat does not implement Deserialize")
    if not se: rep.bad("no Serialize","BigFloat does not implement Serialize")
    for f in de:
        rep.unit(f["path"]); c=calls(f); d=[x for x in c if re.search(r"Deserializer<.*>>::deserialize_\w+",x)]
        if any("deserialize_any" in x for x in d): rep.ok("deserialisation asks for any kind")
        elif d: rep.bad("deserialize kind","%s asks for %s only: other kinds of number are refused by formats that honour the hint"%(f["path"],re.search(r"deserialize_\w+",d[0]).group(0)))
        else: rep.undecided("%s: no call of the deserialiser identified"%f["path"])
    for f in se:
        rep.unit(f["path"]); c=calls(f); d=[x for x in c if re.search(r"Serializer>::(serialize_\w+|collect_str)",x)]
        txt=[x for x in c if re.search(r"ext::BigFloat as std::string::ToString>::to_string|BigFloat as std::fmt::Display>::fmt|BigFloat::format|collect_str::<",x)]
        names={re.search(r"Serializer>::(\w+)",x).group(1) for x in d}
        bad=names-{"serialize_str","collect_str"}
        for x in sorted(bad): rep.bad("serialize kind","%s writes a %s instead of the text"%(f["path"],x))
        if not d: rep.undecided("%s: no call of the serialiser identified"%f["path"])
        elif not bad:
            if txt: rep.ok("serialisation writes the text form")
            else: rep.undecided("%s: origin of the text not identified"%f["path"])
        for x in c:
            if re.search(r"(LowerExp|UpperHex|LowerHex|Binary|Octal|Debug)>?::fmt|new_(upper_hex|lower_hex|binary|octal|debug|lower_exp)|to_f64|as f64",x): rep.bad("serialize form","%s uses %s, which deserialisation does not read back"%(f["path"],x))
