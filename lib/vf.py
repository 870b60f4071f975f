"""What every check module uses: the Violation exception, families of cases, and how one case is judged."""
import os, sys, traceback, warnings, hashlib, json, importlib, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
for p in (REPO, HERE, VERIF):
    if p not in sys.path:
        sys.path.insert(0, p)
_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)  # last: only hypothesis and what it needs are to come from there
warnings.filterwarnings("ignore")


class Violation(Exception):
    """The code under test broke the property on this case."""


class Reject(Exception):
    """The generated case is outside the property's domain (kept rare; counted)."""


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Family:
    """One kind of case of a property.

    strategy: callable giving a hypothesis strategy of JSON-serialisable cases (called lazily).
    run:      callable(case) judging the case against the real code; raises Violation; returns (labels, nontrivial).
    quick / thorough: number of cases over all workers.
    known:    callable(case) -> True where the case is inside a recorded known finding (see known_findings.jsonl).
    """

    def __init__(self, name, strategy, run, quick, thorough=None, weight=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 20
        self.weight = weight or 1.0


def load_check(prop):
    return importlib.import_module("checks." + prop.lower())


def families(mod):
    return {f.name: f for f in mod.FAMILIES}


def signature(exc):
    """Where the code under test raised: exception type and innermost frame in the repository."""
    site = None
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(REPO + "/") or "/quspin/" in fr.filename or fr.filename.startswith("quspin/"):
            site = "%s:%s" % (os.path.basename(fr.filename), fr.name)
    return site


def judge(fam, case):
    """-> (verdict, message, labels, nontrivial); verdict: ok, violation, error, reject"""
    import numpy as np

    np.seterr(all="ignore")
    np.random.seed(0)  # the code under test draws from the global generator in places; a case is judged from the same state
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = fam.run(json.loads(json.dumps(case)))
        labels, nontrivial = res if res is not None else ((), True)
        return "ok", "", tuple(labels), bool(nontrivial)
    except Violation as e:
        return "violation", str(e), (), True
    except Reject as e:
        return "reject", str(e), (), False
    except (MemoryError, KeyboardInterrupt, SystemExit) as e:
        return "error", "%s: %s" % (type(e).__name__, e), (), False
    except BaseException as e:
        site = signature(e)
        tb = traceback.format_exc()
        if site is not None:
            return "violation", "unexpected %s at %s: %s\n%s" % (type(e).__name__, site, e, tb), (), True
        return "error", tb, (), False


def case_hash(family, case):
    return hashlib.sha256((family + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]


class quiet:
    """Silences prints of the code under test (python level)."""

    def __enter__(self):
        self._o, self._e = sys.stdout, sys.stderr
        self._f = open(os.devnull, "w")
        sys.stdout = self._f
        return self

    def __exit__(self, *a):
        sys.stdout = self._o
        self._f.close()
        return False
