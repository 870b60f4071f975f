"""replay.py FILE: runs the case (or the sequence of cases) of a replay file; prints the verdict; exit 0 ok, 1 violation."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf


def main():
    import resource

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with open(sys.argv[1]) as f:
        rep = json.load(f)
    mod = vf.load_check(rep["property"])
    fams = vf.families(mod)
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = open(os.devnull, "w")
    verdict = "ok"
    for name, case in rep["cases"]:
        verdict, msg, labels, nontrivial = vf.judge(fams[name], case)
        if verdict == "violation":
            out.write("violation in family %s on case %s\n%s\n" % (name, json.dumps(case), msg))
            out.flush()
            os._exit(1)
        if verdict == "error":
            out.write("error in family %s on case %s\n%s\n" % (name, json.dumps(case), msg))
            out.flush()
            os._exit(7)
    out.write("%s\n" % verdict)
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
