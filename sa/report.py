"""Verdicts, known findings and evidence of one check."""
import json,os,sys,time,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class Report:
    def __init__(s,pid,rule):
        s.pid=pid; s.rule=rule; s.t0=time.time()
        s.viol={}; s.und=[]; s.obl=0; s.held=0; s.cnt={}; s.units=[]; s.fns=set(); s.notes=[]; s.samples=[]; s.assume=[]
    def ok(s,what=None):
        s.obl+=1; s.held+=1
        if what and len(s.samples)<40: s.samples.append(what)
    def bad(s,key,msg):
        """key: stable identity of the construct (no line numbers)"""
        s.obl+=1
        s.viol.setdefault(key,[]).append(msg)
    def undecided(s,what): s.obl+=1; s.und.append(what)
    def count(s,k,n=1): s.cnt[k]=s.cnt.get(k,0)+n
    def unit(s,u): s.units.append(u)
    def note(s,x): s.notes.append(x)
    def known(s):
        r={}
        p=os.path.join(V,"known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l=l.strip()
                if l.startswith("known: property=%s "%s.pid):
                    rest=l[len("known: property=%s "%s.pid):]
                    if rest.startswith("key=["):
                        k,_,d=rest[5:].partition("] "); r[k]=d
        return r
    def finish(s,tier):
        known=s.known()
        new={k:v for k,v in s.viol.items() if k not in known}
        hit={k:v for k,v in s.viol.items() if k in known}
        wd=os.path.join(V,".work","reports"); os.makedirs(wd,exist_ok=True)
        rp=os.path.join(wd,s.pid+".txt")
        with open(rp,"w") as f:
            f.write("property %s\nrule: %s\n"%(s.pid,s.rule))
            for k,v in sorted(new.items()):
                f.write("\nVIOLATION [%s]\n"%k)
                for m in v[:20]: f.write("  "+m+"\n")
            for k,v in sorted(hit.items()): f.write("\nKNOWN [%s] %s\n"%(k,v[0]))
            for u in s.und: f.write("\nundecided: %s\n"%u)
        cov={"explanation":s.rule,"obligations":s.obl,"discharged":s.held,"undecided":len(s.und),"units_analysed":len(s.units),
             "functions_analysed":len(s.fns),"known_findings":len(hit)}
        cov.update(s.cnt)
        cov["units"]=s.units[:400]; cov["samples"]=s.samples[:40]; cov["undecided_list"]=s.und[:60]; cov["notes"]=s.notes[:40]
        cov["functions"]=sorted(s.fns)[:600]
        ev={"property":s.pid,"tier":tier,"seed":int(os.environ.get("VERIF_SEED","1") or 1),"level":"other","coverage":cov,
            "assumptions":s.assume,"wall_s":round(time.time()-s.t0,2),"violations":len(new)}
        os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
        json.dump(ev,open(os.path.join(V,"evidence",s.pid+".json"),"w"),indent=1)
        print("%s: %d units, %d obligations, %d held, %d undecided, %d violations, %.1f s"%(s.pid,len(s.units),s.obl,s.held,len(s.und),len(new),time.time()-s.t0))
        for k,v in sorted(hit.items()): print("KNOWN-FINDING: property=%s [%s] %s"%(s.pid,k,v[0]))
        for k,v in sorted(new.items())[:12]: print("  "+v[0][:400])
        if new:
            print("VIOLATION property=%s replay=%s"%(s.pid,rp)); return 1
        return 0
