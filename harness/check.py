"""check.py <property> [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import props  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = None
    try:
        if not os.environ.get("VERIF_NO_BUILD"):
            common.build_module()
        chk = common.Check(pid, tier, seed)
        props.PROPS[pid](chk)
        chk.evidence(0)
        for k in chk.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("OK property=%s states=%d executions=%d wall=%.0fs" % (pid, chk.states, chk.traces, __import__("time").time() - chk.t0))
        return 0
    except common.Violation as v:
        chk.evidence(1)
        print(v.what[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        return 1
    except common.CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        if chk:
            chk.close()


if __name__ == "__main__":
    sys.exit(main())
