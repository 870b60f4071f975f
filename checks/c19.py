"""C19: Floquet analysis and the stroboscopic time vector."""
import cmath
import math
import warnings

import numpy as np
import scipy.linalg as la
from scipy.integrate import solve_ivp
from hypothesis import strategies as st

import gen, hams, ref
from vf import Family, Reject, check, fail

ID = "C19"
TECHNIQUE = ("property-based testing: random periodic drives (continuous, step lists, lists of Hamiltonians), with degenerate and symmetric ones, against the product of matrix exponentials or a "
             "high-order integrator and the definitions of the eigen-data; time vectors against integer arithmetic on their indices")
LEVEL_NOTE = ("sampled, not exhaustive: up to 8 states, up to 6 steps, periods up to 6 (continuous: norm times period up to about 30); time vectors up to 60 periods of up to 120 points; trusts scipy's "
              "expm and a high-order integrator at tight tolerance")

RULE = "cases: a drive and the requested outputs, or the numbers of a time vector; non-trivial: the one-period unitary is not symmetric (drives), at least two regimes or two periods (vectors)"


def g_cos(t, w, a):
    return np.cos(w * t + a)


def g_mix(t, w, a):
    return a + np.sin(w * t) ** 2


def g_pos(t, w):
    return np.exp(1j * w * t)


def g_neg(t, w):
    return np.exp(-1j * w * t)


def matrices(c, n):
    """static part, list of (matrix, function, arguments) of a Hermitian drive with period 2 pi / w"""
    w = 2 * np.pi / c["T"]
    real = c["real"]

    def one(m):
        A = hams.raw(m, n)
        return hams.herm(A.real if real else A)

    S = sum([one(m) for m in c["static"]], np.zeros((n, n)))
    D = []
    for m, f, k, a in c["dynamic"]:
        A = one(m)
        if f == "pair" and not real:
            B = hams.raw(m, n)
            D += [(B, g_pos, (k * w,)), (B.conj().T, g_neg, (k * w,))]
        elif f == "mix":
            D.append((A, g_mix, (k * w, a)))
        else:
            D.append((A, g_cos, (k * w, a)))
    if c.get("deg"):  # two copies of the same problem: every quasi-energy is degenerate
        S = np.kron(S, np.eye(2)) if c["deg"] == "inner" else np.kron(np.eye(2), S)
        D = [(np.kron(A, np.eye(2)) if c["deg"] == "inner" else np.kron(np.eye(2), A), f, a) for A, f, a in D]
    return S, D


def make(c, S, D):
    from quspin.operators import hamiltonian

    kw = {"static_fmt": c["fmt"], "dynamic_fmt": c["fmt"]} if c["fmt"] else {}
    return hamiltonian([S], [[A, f, list(a)] for A, f, a in D], shape=S.shape, dtype=np.float64 if c["real"] else np.complex128, **kw)


def at(S, D, t):
    return sum([A * f(t, *a) for A, f, a in D], S.astype(complex))


def expmi(H, dt):
    w, U = la.eigh(H)
    return (U * np.exp(-1j * w * dt)) @ U.conj().T


def judge(F, c, U, T, tol):
    """every attribute of the Floquet object against the one-period unitary of the reference"""
    n = len(U)
    check(F.T == T or abs(F.T - T) <= 1e-13 * abs(T), lambda: "T is %r instead of %r" % (F.T, T))
    want = {k: bool(c[k]) for k in ("UF", "HF", "VF", "thetaF")}
    for k in want:
        try:
            x = getattr(F, k)
            check(want[k], "attribute %s although it was not asked for" % k)
            check(np.isfinite(np.asarray(x)).all(), "%s is not finite" % k)
        except AttributeError:
            check(not want[k], "no attribute %s although it was asked for" % k)
    # quasi-energies: sorted, in the zone, and a set of eigenvalues
    EF = F.EF
    check(isinstance(EF, np.ndarray) and EF.shape == (n,) and EF.dtype.kind == "f", "EF is no real vector")
    check((np.diff(EF) >= 0).all(), "EF is not sorted")
    check((np.abs(EF) <= np.pi / abs(T) * (1 + 1e-9)).all(), "EF outside of the zone")
    ev = la.eigvals(U)
    z = np.exp(-1j * EF * T)
    # matching of the two sets on the circle
    rest = list(ev)
    for x in z:
        i = int(np.argmin([abs(x - y) for y in rest]))
        check(abs(x - rest[i]) <= tol, lambda: "exp(-i EF T) = %s is no eigenvalue of the one-period unitary (%s)" % (x, ev))
        rest.pop(i)
    if c["UF"]:
        check(F.UF.shape == (n, n) and np.abs(F.UF - U).max() <= tol, lambda: "UF is not the one-period unitary (off by %.3g; transposed: %.3g)" % (
            np.abs(F.UF - U).max(), np.abs(F.UF.T - U).max()))
    if c["thetaF"]:
        check(F.thetaF.shape == (n,) and np.abs(F.thetaF - z).max() <= tol, "thetaF is not exp(-i EF T)")
    if c["VF"]:
        V = F.VF
        check(V.shape == (n, n), "VF has shape %s" % (V.shape,))
        check(np.abs(U @ V - V * z).max() <= tol * 10, lambda: "the columns of VF are no Floquet states to the quasi-energies EF (off by %.3g)" % np.abs(U @ V - V * z).max())
        check(np.abs(np.linalg.norm(V, axis=0) - 1).max() <= 1e-10, "VF is not normalised")
        G = np.abs(V.conj().T @ V - np.eye(n))
        check(G.max() <= 1e-10, lambda: "VF is not orthonormal (off by %.3g)" % G.max())
    if c["HF"]:
        HF = F.HF
        check(HF.shape == (n, n), "HF has shape %s" % (HF.shape,))
        s = abs(T)
        check(np.abs(la.expm(-1j * T * HF) - U).max() <= tol * 10, lambda: "exp(-i T HF) is not the one-period unitary (off by %.3g)" % np.abs(la.expm(-1j * T * HF) - U).max())
        if np.abs(ev + 1).min() > 1e-4:  # the branch is fixed
            check(np.abs(HF - HF.conj().T).max() * s <= tol * 10, lambda: "HF is not Hermitian (off by %.3g)" % np.abs(HF - HF.conj().T).max())
            check(np.abs(la.eigvalsh(hams.herm(HF)) - EF).max() * s <= tol * 10, "the eigenvalues of HF are not EF")
    return bool(np.abs(U - U.T).max() > 1e-3)


def opts(c):
    kw = {k: True for k in ("UF", "HF", "VF", "thetaF") if c[k]}
    if c["jobs"] != 1:
        kw["n_jobs"] = c["jobs"]
    return kw


def call(c, d):
    from quspin.tools.Floquet import Floquet

    before = repr({k: v for k, v in d.items() if k not in ("H", "H_list")})
    F = Floquet(d, **opts(c))
    check(repr({k: v for k, v in d.items() if k not in ("H", "H_list")}) == before, "Floquet changed its arguments")
    return F


def run_cont(c):
    n = c["n"]
    S, D = matrices(c, n)
    T = c["T"]
    nn = len(S)
    top = sum(np.abs(la.norm(A, 2)) * (1 + abs(a[1]) if f is g_mix else 1) for A, f, a in D) + la.norm(S, 2)
    scale = min(1.0, 25.0 / max(top * T, 1e-9))
    S, D = S * scale, [(A * scale, f, a) for A, f, a in D]
    H = make(c, S, D)
    before = H.toarray(time=0.37 * T)
    d = {"H": H, "T": T}
    if c["tol"]:
        d.update(c["tol"])
    F = call(c, d)
    check(np.array_equal(H.toarray(time=0.37 * T), before), "Floquet changed the Hamiltonian")
    if D:
        U = np.eye(nn, dtype=complex)
        s = solve_ivp(lambda t, u: (-1j * at(S, D, t) @ u.reshape(nn, nn)).ravel(), (0, T), U.ravel(), method="DOP853", rtol=1e-12, atol=1e-13)
        U = s.y[:, -1].reshape(nn, nn)
    else:
        U = expmi(S, T)
    if D and c["jobs"] == 1 and c["UF"]:
        from quspin.tools.Floquet import Floquet

        try:
            Floquet({"H": H, "T": 0.77 * T})
        except TypeError:
            pass
        else:
            fail("a period that is not one of the drive was accepted")
    return ["continuous", "real" if c["real"] else "complex", "%d drives" % len(D)], judge(F, c, U, T, 1e-7) and bool(D)


def run_step(c):
    n = c["n"]
    S, D = matrices(c, n)
    H = make(c, S, D)
    ts, dts = c["ts"], c["dts"][:len(c["ts"])]
    top = max(la.norm(at(S, D, t), 2) for t in ts)
    scale = min(1.0, 60.0 / max(top * sum(np.abs(dts)), 1e-9))
    H = H * scale
    T = sum(dts)
    d = {"H": H, "t_list": np.array(ts) if c["arr"] else list(ts), "dt_list": np.array(dts) if c["arr"] else list(dts)}
    if c["giveT"]:
        T = d["T"] = c["T2"]
    F = call(c, d)
    U = np.eye(len(S), dtype=complex)
    for t, dt in zip(ts, dts):
        U = expmi(at(S, D, t) * scale, dt) @ U
    return ["steps", "T given" if c["giveT"] else "T summed", str(c["deg"])], judge(F, c, U, T, 1e-8)


def run_list(c):
    n = c["n"]
    Hs, M = [], []
    dts = c["dts"][:len(c["parts"])]
    for p in c["parts"]:
        S, D = matrices(dict(c, **p), n)
        M.append(at(S, D, 0))
        Hs.append(make(c, S, D))
    top = max(la.norm(A, 2) for A in M)
    scale = min(1.0, 60.0 / max(top * sum(np.abs(dts)), 1e-9))
    Hs, M = [h * scale for h in Hs], [A * scale for A in M]
    T = sum(dts)
    d = {"H_list": tuple(Hs) if c["arr"] else Hs, "dt_list": np.array(dts) if c["arr"] else list(dts)}
    if c["giveT"]:
        T = d["T"] = c["T2"]
    F = call(c, d)
    U = np.eye(len(M[0]), dtype=complex)
    for A, dt in zip(M, dts):
        U = expmi(A, dt) @ U
    try:
        from quspin.tools.Floquet import Floquet

        Floquet(dict(d, dt_list=list(dts) + [0.1]))
    except ValueError:
        pass
    else:
        fail("lists of different lengths were accepted")
    return ["list", "%d steps" % len(M), str(c["deg"])], judge(F, c, U, T, 1e-8)


# ---------------------------------------------------------------- the time vector
def run_vec(c):
    from quspin.tools.Floquet import Floquet_t_vec

    Om, Nc, L, Nu, Nd = c["Omega"], c["N_const"], c["len_T"], c["N_up"], c["N_down"]
    kw = {}
    if c["kw"] or Nu:
        kw["N_up"] = Nu
    if c["kw"] or Nd:
        kw["N_down"] = Nd
    t = Floquet_t_vec(Om, Nc, len_T=L, **kw)
    N = Nu + Nc + Nd
    T = 2 * np.pi / Om
    want = np.array([T * (-Nu + k / L) for k in range(N * L + 1)])
    eps = 1e-12 * T * (N + 1)
    close = lambda a, b: np.shape(a) == np.shape(b) and np.abs(np.asarray(a) - b).max(initial=0) <= eps
    check(close(t.vals, want), "vals are not the times of the periods")
    check(t.N == N and t.len_T == L and abs(t.T - T) <= 1e-14 * T, "N, len_T or T is wrong")
    check(abs(t.dt - T / L) <= 1e-14 * T and t.len == len(t) == N * L + 1 and tuple(t.shape) == (N * L + 1,), "dt, len or shape is wrong")
    check(t.i == t.vals[0] and t.f == t.vals[-1] and abs(t.tot - N * T) <= eps, "i, f or tot is wrong")
    check(np.array_equal(np.array(list(t)), t.vals) and np.array_equal(t[:], t.vals), "iteration or slicing differs from vals")
    check(np.array_equal(t * 2.5, t.vals * 2.5) and np.array_equal(t / 2.5, t.vals / 2.5) and str(t) == str(t.vals), "* or / or str differs from vals")
    inds = np.arange(N + 1) * L
    check(np.array_equal(t.strobo.inds, inds) and np.array_equal(t.strobo.vals, t.vals[inds]), "strobo is not the start of each period")
    check(len(t.strobo) == N + 1 and np.array_equal(np.array(list(t.strobo)), t.strobo.vals) and np.array_equal(t.strobo[:], t.strobo.vals), "strobo as a sequence")
    check(np.array_equal(t.strobo * 2.0, t.strobo.vals * 2.0) and np.array_equal(t.strobo / 2.0, t.strobo.vals / 2.0), "strobo * or /")
    regimes = {"up": (0, Nu * L, Nu), "const": (Nu * L, (Nu + Nc) * L + 1, Nc), "down": ((Nu + Nc) * L + 1, N * L + 1, Nd)}
    for r, (a, b, n) in regimes.items():
        if r != "const" and not n:
            try:
                getattr(t, r)
            except AttributeError:
                continue
            fail("regime %s exists although it has no periods" % r)
        if not Nu + Nd and not hasattr(t, r):
            continue  # without ramps the vector has no separate regimes
        x = getattr(t, r)
        check(np.array_equal(x.vals, t.vals[a:b]), "%s.vals are not the regime's times" % r)
        check(x.N == n and len(x) == b - a and x.len == b - a, "%s: N or len is wrong" % r)
        check(x.i == t.vals[a] and x.f == t.vals[b - 1] and abs(x.tot - n * T) <= eps, "%s: i, f or tot is wrong" % r)
        k = inds[(inds >= a) & (inds < b)]
        check(np.array_equal(x.strobo.inds, k), lambda: "%s.strobo.inds: %s instead of %s" % (r, x.strobo.inds, k))
        check(np.array_equal(x.strobo.vals, t.vals[k]), lambda: "%s.strobo.vals are not the times at strobo.inds: %s instead of %s" % (r, x.strobo.vals, t.vals[k]))
        check(np.array_equal(np.array(list(x)), x.vals) and np.array_equal(x[:], x.vals) and np.array_equal(x * 2.0, x.vals * 2.0) and np.array_equal(x / 2.0, x.vals / 2.0), "%s as a sequence" % r)
    for k in c["at"]:
        k = k % (N * L + 1)
        for idx in (k, np.int64(k)) + ((k - (N * L + 1),) if c["neg"] else ()):
            got = t.get_coordinates(idx)
            check(tuple(got) == (k // L, k % L), lambda: "get_coordinates(%d) is %s instead of %s (%d points per period, %d periods)" % (idx, got, (k // L, k % L), L, N))
    return ["vector", "up" if Nu else "", "down" if Nd else ""], N > 1 or Nu + Nd > 0


# ---------------------------------------------------------------- generators
flags = {k: st.booleans() for k in ("UF", "HF", "VF", "thetaF")}
FREQ = st.sampled_from([1, 1, 2, 3])
drv = st.tuples(hams.mats, st.sampled_from(["cos", "cos", "mix", "pair"]), FREQ, st.sampled_from([0, 0.0, 0.5, 1.3, -2.0])).map(list)
common = dict(flags, real=st.booleans(), fmt=st.sampled_from([None, None, "csr", "csc", "dia", "dense"]), jobs=st.sampled_from([1] * 40 + [2]))
TT = st.sampled_from([1.0, 2.0, 0.3, 3.7, 2 * math.pi, 0.05])
ns = st.sampled_from([1, 2, 3, 4, 5])
degs = st.sampled_from([None, None, None, "inner", "outer"])
DT = st.sampled_from([0.1, 0.5, 1.0, 0.25, 2.0, 0.0, 1, 3, -0.4])


def s_cont():
    return st.fixed_dictionaries(dict(common, n=ns, T=TT, static=st.lists(hams.mats, min_size=1, max_size=2), dynamic=st.lists(drv, min_size=0, max_size=3),
                                      tol=st.sampled_from([None, None, {"atol": 1e-10}, {"rtol": 1e-10}, {"atol": 1e-11, "rtol": 1e-10}])))


def nonzero(c):
    return abs(sum(c["dts"][:len(c["ts"] if "ts" in c else c["parts"])])) > 1e-3


def s_step():
    return st.fixed_dictionaries(dict(common, n=ns, T=TT, static=st.lists(hams.mats, min_size=0, max_size=2), dynamic=st.lists(drv, min_size=0, max_size=3), deg=degs,
                                      ts=st.lists(st.sampled_from([0, 0.1, 0.3, 0.7, 1.0, 1.9, -0.4]), min_size=1, max_size=6), dts=st.lists(DT, min_size=6, max_size=6),
                                      arr=st.booleans(), giveT=st.sampled_from([False, False, True]), T2=st.sampled_from([1.0, 0.5, 2.5, 3]))).filter(nonzero)


def s_list():
    part = st.fixed_dictionaries({"static": st.lists(hams.mats, min_size=0, max_size=2), "dynamic": st.lists(drv, min_size=0, max_size=1)})
    return st.fixed_dictionaries(dict(common, n=ns, T=TT, deg=degs, parts=st.lists(part, min_size=1, max_size=5), dts=st.lists(DT, min_size=5, max_size=5),
                                      arr=st.booleans(), giveT=st.sampled_from([False, False, True]), T2=st.sampled_from([1.0, 0.5, 2.5, 3]))).filter(nonzero)


def s_vec():
    ups = st.sampled_from([0, 0, 1, 2, 3, 7, 20])
    return st.fixed_dictionaries({"Omega": st.sampled_from([1.0, 2, 0.1, 10.0, 0.37, 2 * math.pi, 123.4, 1e-3, 1e3]) | st.floats(0.01, 50), "N_const": st.sampled_from([1, 2, 3, 10, 20]),
                                  "len_T": st.sampled_from([1, 2, 3, 5, 10, 100, 7, 64, 120]), "N_up": ups, "N_down": ups, "kw": st.booleans(), "neg": st.booleans(),
                                  "at": st.lists(st.integers(0, 6000), min_size=1, max_size=12)})


FAMILIES = [Family("continuous", s_cont, run_cont, 400), Family("steps", s_step, run_step, 600), Family("list", s_list, run_list, 500), Family("vector", s_vec, run_vec, 1500)]
