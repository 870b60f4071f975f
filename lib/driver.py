"""The driver of one check: starts the workers, watches them, confirms failures in a fresh process, writes evidence."""
import glob, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
HANG_S = 150          # a case normally takes well under a second
NWORKERS = 8


def py(script, *args):
    return [sys.executable, "-W", "ignore", os.path.join(HERE, script)] + [str(a) for a in args]


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                rec = json.loads(line)
                if rec.get("property") == prop:
                    out.append(rec)
    return out


def run_replay(path, timeout=HANG_S + 60):
    """-> (reproduced, text)"""
    try:
        r = subprocess.run(py("replay.py", path), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        return True, "the case does not end within %d s" % timeout
    if r.returncode == 1:
        return True, r.stdout
    if r.returncode < 0:
        return True, "killed by signal %d\n%s" % (-r.returncode, r.stdout)
    if r.returncode not in (0, 7):
        return True, "the process died with code %d\n%s" % (r.returncode, r.stdout)
    return False, r.stdout


def write_replay(prop, cases, note, tag):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, tag))
    with open(path, "w") as f:
        json.dump({"property": prop, "cases": cases, "note": note}, f, indent=1)
    return path


def confirm(prop, base, family, case, msg):
    """A failing case, replayed in a fresh process: alone, and if it needs its predecessors, with them."""
    import hashlib

    tag = hashlib.sha256(json.dumps([family, case], sort_keys=True).encode()).hexdigest()[:10]
    path = write_replay(prop, [[family, case]], msg, tag)
    ok, text = run_replay(path)
    if ok:
        return path, text
    first = base + ".firstfail"
    cases = [json.loads(l) for l in open(base + ".history")] if os.path.exists(base + ".history") else []
    if os.path.exists(first):
        ff = json.load(open(first))[:2]
        key = json.dumps(ff, sort_keys=True)
        upto = []
        for c in cases:
            upto.append(c)
            if json.dumps(c, sort_keys=True) == key:
                break
        cases = upto
    path = write_replay(prop, cases, msg + " (needs the cases before it)", tag)
    ok, text = run_replay(path, timeout=300)
    if ok:
        return path, text
    return None, "not reproduced in a fresh process: %s\n%s" % (json.dumps([family, case]), msg)


def main():
    if sys.argv[1] == "--replay":
        ok, text = run_replay(sys.argv[2])
        print(text)
        sys.exit(1 if ok else 0)
    if sys.argv[1] == "--case":
        p = write_replay(sys.argv[2], [[sys.argv[3], json.loads(sys.argv[4])]], "by hand", "hand")
        ok, text = run_replay(p)
        print(text)
        sys.exit(1 if ok else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET", 240 if tier == "quick" else 3000))
    t0 = time.time()
    import vf

    mod = vf.load_check(prop)
    outdir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rc = 3
    try:
        rc = drive(prop, tier, seed, budget, only, mod, outdir, t0)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    sys.exit(rc)


def drive(prop, tier, seed, budget, only, mod, outdir, t0):
    # known findings first: each is replayed, and named if it still fails
    for rec in load_known(prop):
        p = os.path.join(outdir, "known.json")
        json.dump({"property": prop, "cases": rec["cases"]}, open(p, "w"))
        bad, text = run_replay(p)
        if bad:
            print("KNOWN-FINDING: property=%s %s" % (prop, rec["what"]), flush=True)
    procs = {}
    for i in range(NWORKERS):
        args = [prop, tier, seed, i, NWORKERS, outdir, budget] + ([only] if only else [])
        err = open(os.path.join(outdir, "%d.stderr" % i), "w")
        procs[i] = subprocess.Popen(py("worker.py", *args), stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
    failures, errors, died = [], [], []
    stop_at = None
    while procs:
        time.sleep(0.1)
        for i, p in list(procs.items()):
            base = os.path.join(outdir, str(i))
            rc = p.poll()
            if rc is not None:
                del procs[i]
                if os.path.exists(base + ".fail"):
                    failures.append((i, json.load(open(base + ".fail"))))
                elif rc == 7 and os.path.exists(base + ".error"):
                    errors.append(json.load(open(base + ".error")))
                elif rc != 0:
                    died.append((i, rc, None))
                continue
            cur = base + ".current"
            try:
                age = time.time() - os.stat(cur).st_mtime
            except OSError:
                continue
            if age > HANG_S:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                del procs[i]
                died.append((i, "hang", None))
        if (failures or died) and stop_at is None:
            stop_at = time.time() + (5 if failures else 1)
        if stop_at is None and glob.glob(os.path.join(outdir, "*.fail")):
            stop_at = time.time() + 60  # while the others shrink
        if stop_at is not None and time.time() > stop_at:
            for i, p in list(procs.items()):
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                base = os.path.join(outdir, str(i))
                if os.path.exists(base + ".fail"):
                    failures.append((i, json.load(open(base + ".fail"))))
                del procs[i]
    rc = 0
    violations = []
    for i, (fam, case, msg) in sorted(failures, key=lambda f: len(json.dumps(f[1][1]))):
        path, text = confirm(prop, os.path.join(outdir, str(i)), fam, case, msg)
        if path:
            violations.append((path, text))
            break
        errors.append([fam, case, text])
    if not violations:
        for i, how, _ in died:
            base = os.path.join(outdir, str(i))
            try:
                fam, case, _t = json.load(open(base + ".current"))
            except (OSError, ValueError):
                errors.append([None, None, "worker %d ended with %s\n%s" % (i, how, open(base + ".stderr").read()[-3000:])])
                continue
            path, text = confirm(prop, base, fam, case, "worker ended: %s" % how)
            if path:
                violations.append((path, text))
                break
            errors.append([fam, case, "worker %d ended with %s, and the case does not do it again" % (i, how)])
    write_evidence(prop, tier, seed, mod, outdir, t0, len(violations))
    if violations:
        path, text = violations[0]
        print("\n".join(text.splitlines()[:40]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        for e in errors[:2]:
            print("harness error: %s" % (e,), file=sys.stderr)
            print(str(e[2])[-3000:], file=sys.stderr)
        return 3
    return 0


def write_evidence(prop, tier, seed, mod, outdir, t0, nviol):
    fams = {}
    nontriv = set()
    total = 0
    samples = []
    for p in sorted(glob.glob(os.path.join(outdir, "*.stats"))):
        for name, st in json.load(open(p)).items():
            f = fams.setdefault(name, dict(evaluations=0, distinct_nontrivial=set(), labels={}, rejected=0, capped_workers=0,
                                           worker_seconds=0.0, in_known_findings=0))
            f["evaluations"] += st["evaluations"]
            f["distinct_nontrivial"].update(st["nontrivial"])
            f["rejected"] += st["rejected"]
            f["capped_workers"] += bool(st["capped"])
            f["worker_seconds"] += st["seconds"]
            f["in_known_findings"] += st["known"]
            for l, c in st["labels"].items():
                f["labels"][l] = f["labels"].get(l, 0) + c
            if st["samples"] and sum(s["family"] == name for s in samples) < 2:
                samples.append({"family": name, "case": st["samples"][0]})
            total += st["evaluations"]
            nontriv.update(st["nontrivial"])
    for f in fams.values():
        f["distinct_nontrivial"] = len(f["distinct_nontrivial"])
        f["worker_seconds"] = round(f["worker_seconds"], 1)
        f["labels"] = dict(sorted(f["labels"].items()))
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {"evaluations": total, "distinct_nontrivial": len(nontriv), "rule": mod.RULE, "samples": samples,
                     "families": fams},
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".new", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".new", path)


if __name__ == "__main__":
    main()
