"""Makes sure the compiled extensions in /repo are those of /repo's current sources.

The state that needs no build is recognised by content: the sha256 over every compiled input together with the
sha256 over every extension module.  Known good pairs are in lib/build_stamp.json (committed; the unchanged tree) and
in /repo/build/verif_stamp.json (git-ignored; what was built here before).  Anything else is built in place.
"""
import fcntl, glob, hashlib, json, os, subprocess, sys, time

REPO = "/repo"
HERE = os.path.dirname(os.path.abspath(__file__))
LOCAL = os.path.join(REPO, "build", "verif_stamp.json")
COMMITTED = os.path.join(HERE, "build_stamp.json")
GENERATED = ("oputils_impl.h", "expm_multiply_parallel_impl.h")


def inputs_digest():
    h = hashlib.sha256()
    paths = []
    for root, dirs, files in os.walk(os.path.join(REPO, "quspin")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f in GENERATED:
                continue
            p = os.path.join(root, f)
            if f.endswith((".pyx", ".pxd", ".pxi", ".h", ".hpp")) or f == "setup.py" or f.startswith("generate_"):
                paths.append(p)
    paths.append(os.path.join(REPO, "setup.py"))
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def so_digest():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(REPO, "quspin", "**", "*.so"), recursive=True)):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def known():
    for path in (LOCAL, COMMITTED):
        try:
            with open(path) as f:
                for pair in json.load(f):
                    yield tuple(pair)
        except (OSError, ValueError):
            pass


def main():
    os.makedirs(os.path.join(REPO, "build"), exist_ok=True)
    with open(os.path.join(REPO, "build", "verif_build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        pair = (inputs_digest(), so_digest())
        if pair in set(known()) and "--force" not in sys.argv:
            return 0
        t = time.time()
        log = os.path.join(REPO, "build", "verif_build.log")
        with open(log, "w") as out:
            rc = subprocess.call([sys.executable, "-W", "ignore", os.path.join(HERE, "build_ext.py")],
                                 stdout=out, stderr=subprocess.STDOUT)
        if rc:
            sys.stderr.write("".join(open(log, errors="replace").readlines()[-30:]))
            print("harness: /repo's extensions do not build", file=sys.stderr)
            return 3
        new = [inputs_digest(), so_digest()]
        try:
            old = json.load(open(LOCAL))
        except (OSError, ValueError):
            old = []
        json.dump([p for p in old if p != new][-20:] + [new], open(LOCAL, "w"))
        if "--stamp" in sys.argv:
            json.dump([new], open(COMMITTED, "w"))
        print("built /repo's extensions in %.0f s" % (time.time() - t), file=sys.stderr)
    return 0


if __name__ == "__main__":
    sys.exit(main())
