"""check ID: decides one property on /repo's working tree.  Exit 0 held, 1 violated, 2 the check itself failed."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, pipe, conc, design


def main():
    prop = sys.argv[1]
    rep = vp.Report(prop)
    try:
        binary = vp.build()
        if prop in pipe.PROPS:
            pipe.run(rep, binary)
        if prop in conc.PROPS:
            conc.run(rep, binary)
        if not rep.viol:
            design.run(rep)
        return rep.finish()
    except vp.ToolError as x:
        print("check failed: %s" % x)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
