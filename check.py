#!/usr/bin/env python3
import sys,os,importlib
V=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(V,"sa")); sys.path.insert(0,os.path.join(V,"sa","props"))
sys.setrecursionlimit(50000)
def main():
    pid=sys.argv[1]; tier="thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER")=="thorough" else "quick"
    import facts
    m=importlib.import_module(pid.lower())
    try: rep=m.run(tier)
    except facts.BuildError as e:
        print("the analysed tree does not build:\n"+str(e)[-3000:]); return 2
    except Exception:
        # the analysis itself gave up: nothing is claimed about this tree, and that is said
        import traceback
        from report import Report
        rep=Report(pid,"no verdict: the analysis of this tree failed"); rep.undecided(traceback.format_exc()[-1500:])
        print("UNDECIDED: property=%s the analysis failed on this tree\n%s"%(pid,traceback.format_exc()[-1500:]))
    return rep.finish(tier)
sys.exit(main())
