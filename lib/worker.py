"""worker.py PROPERTY TIER SEED INDEX NWORKERS OUTDIR BUDGET_S

Runs this worker's share of every family's cases; writes what it did to OUTDIR/<INDEX>.*; the driver reads that."""
import json, os, sys, time, hashlib, faulthandler

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

SHRINK_S = 45


def main():
    prop, tier, seed, index, nworkers, outdir, budget = sys.argv[1:8]
    seed, index, nworkers, budget = int(seed), int(index), int(nworkers), float(budget)
    only = sys.argv[8].split(",") if len(sys.argv) > 8 else None
    import resource

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.stdout = open(os.devnull, "w")  # the code under test prints
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck, seed as hseed

    mod = vf.load_check(prop)
    fams = [f for f in mod.FAMILIES if only is None or f.name in only]
    known = getattr(mod, "in_known_finding", lambda fam, case: False)
    base = os.path.join(outdir, str(index))
    current = base + ".current"
    hist = open(base + ".history", "w")
    stats = {}
    t_start = time.time()
    total_weight = sum(f.weight for f in fams)
    # different workers start with different families, so that a time cap does not always starve the same one
    order = fams[index % len(fams):] + fams[: index % len(fams)]
    used_weight = 0.0
    for fam in order:
        n = fam.quick if tier == "quick" else fam.thorough
        share = n // nworkers + (1 if index < n % nworkers else 0)
        used_weight += fam.weight
        deadline = t_start + budget * used_weight / total_weight
        st = stats[fam.name] = dict(evaluations=0, nontrivial=set(), labels={}, rejected=0, capped=False, samples=[],
                                    seconds=0.0, known=0)
        if share == 0:
            continue
        fail = {"best": None, "msg": None, "until": None}
        t_fam = time.time()

        def body(case):
            now = time.time()
            if fail["until"] is None and now > deadline:
                st["capped"] = True
                return
            if fail["until"] is not None and now > fail["until"]:
                return
            if known(fam.name, case):
                st["known"] += 1
                return
            text = json.dumps(case, sort_keys=True)
            with open(current, "w") as f:
                f.write(json.dumps([fam.name, case, now]))
            hist.write(json.dumps([fam.name, case]) + "\n")
            hist.flush()
            verdict, msg, labels, nontrivial = vf.judge(fam, case)
            if fail["until"] is None:
                st["evaluations"] += 1
                for l in labels:
                    st["labels"][l] = st["labels"].get(l, 0) + 1
                if nontrivial:
                    st["nontrivial"].add(vf.case_hash(fam.name, case))
                    if len(st["samples"]) < 2:
                        st["samples"].append(case)
            if verdict == "reject":
                st["rejected"] += 1
                return
            if verdict == "error":
                with open(base + ".error", "w") as f:
                    f.write(json.dumps([fam.name, case, msg]))
                os._exit(7)
            if verdict == "violation":
                if fail["best"] is None:
                    fail["until"] = time.time() + SHRINK_S
                    with open(base + ".firstfail", "w") as f:
                        f.write(json.dumps([fam.name, case, msg]))
                if fail["best"] is None or len(text) <= len(fail["best"][0]):
                    fail["best"] = (text, case, msg)
                    with open(base + ".fail.new", "w") as f:
                        f.write(json.dumps([fam.name, case, msg]))
                    os.replace(base + ".fail.new", base + ".fail")
                raise vf.Violation("case fails")

        s = int(hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, fam.name, index)).encode()).hexdigest()[:12], 16)
        test = given(fam.strategy())(body)
        test = settings(max_examples=share, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)(test)
        test = hseed(s)(test)
        try:
            test()
        except BaseException as e:
            if fail["best"] is None:
                import traceback
                with open(base + ".error", "w") as f:
                    f.write(json.dumps([fam.name, None, traceback.format_exc()]))
                os._exit(7)
        st["seconds"] = time.time() - t_fam
        if fail["best"] is not None:
            break
    for st in stats.values():
        st["nontrivial"] = sorted(st["nontrivial"])
    with open(base + ".stats.new", "w") as f:
        json.dump(stats, f)
    os.replace(base + ".stats.new", base + ".stats")
    try:
        os.remove(current)
    except OSError:
        pass
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
