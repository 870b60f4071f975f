"""C13: time evolution."""
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

import gen, hams
from vf import Family, check, fail, quiet

ID = "C13"
TECHNIQUE = "property-based testing: random driven Hamiltonians, initial states, equations, time orders and solver options against an independent high-order integration and dense exponentials"
LEVEL_NOTE = ("sampled, not exhaustive: dimensions 1 to 16 (40 for the matrix exponential), at most three driven terms, up to six times in any order within |H| t <= 8, "
              "accuracy judged at 1e-5 for the integrators (their defaults are 1e-9 per step) and at the conditioning of the exponential for the shortcuts; trusts "
              "scipy's solve_ivp and expm")

RULE = "cases: an operator, initial state, equation, times and options; non-trivial: the state changes"
DT = {"float64": np.float64, "complex128": np.complex128, "float32": np.float32, "complex64": np.complex64}


def size(val):
    return max(np.abs(val(t)).sum(axis=0).max(initial=0) for t in np.linspace(-4, 4, 9))


def reference(f, y0, t0, times):
    """y(t) at every time by an independent integration; f(t,y) on complex vectors"""
    out = {}
    y0 = np.asarray(y0, complex)
    for sign in (1, -1):
        ts = sorted({t for t in times if (t - t0) * sign > 1e-14}, key=lambda t: sign * t)
        if ts:
            r = solve_ivp(f, (t0, ts[-1]), y0.ravel(), method="DOP853", t_eval=ts, rtol=1e-11, atol=1e-12)
            for i, t in enumerate(ts):
                out[t] = r.y[:, i].reshape(y0.shape)
    for t in times:
        if abs(t - t0) <= 1e-14:  # solve_ivp is no use for such a span
            out[t] = y0.copy()
    return [out[t] for t in times]


def arr(V, layout):
    if layout == "F":
        return np.asfortranarray(V)
    if layout == "strided":
        b = np.zeros(tuple(2 * s for s in V.shape), V.dtype)
        b[tuple(slice(None, None, 2) for _ in V.shape)] = V
        return b[tuple(slice(None, None, 2) for _ in V.shape)]
    if layout == "list":
        return V.tolist()
    return V


def collect(r, times, scalar, iterate, shape, what):
    """results at the times, whatever the form; mangles what an iterator gives after taking it"""
    if scalar:
        check(isinstance(r, np.ndarray) and r.shape == shape, lambda: "%s: result %s instead of an array of shape %s" % (what, getattr(r, "shape", type(r)), shape))
        out = [r.copy()]
        r[...] = 7
        return out
    if iterate:
        check(hasattr(r, "__next__"), lambda: "%s: iterate gives %s" % (what, type(r).__name__))
        out = []
        for x in r:
            check(x.shape == shape, lambda: "%s: shape %s instead of %s" % (what, x.shape, shape))
            out.append(x.copy())
            if iterate == "mangle":
                x[...] = 7
        check(len(out) == len(times), lambda: "%s: %d states for %d times" % (what, len(out), len(times)))
        return out
    check(isinstance(r, np.ndarray) and r.shape == shape + (len(times),), lambda: "%s: shape %s instead of %s" % (what, r.shape, shape + (len(times),)))
    return [r[..., i] for i in range(len(times))]


def times_of(case, scale):
    """the start and the requested times, shrunk to keep the evolution short"""
    f = min(1.0, 8.0 / (scale * (max(abs(t) for t in case["times"] + [0]) + abs(case["t0"])) + 1e-30))
    t0 = case["t0"] * f
    ts = [t0 if t == "t0" else t0 + t * f for t in case["times_rel"]]
    return t0, ts


def passtimes(ts, case):
    if case["scalar"]:
        return ts[0]
    return {"list": list, "tuple": tuple, "array": np.array}[case["ttype"]](ts)


def solver_kw(case):
    kw = {}
    s = case["solver"]
    if s != "default":
        kw["solver_name"] = s
        if s in ("vode", "lsoda"):
            kw.update(rtol=1e-9, atol=1e-10, nsteps=200000)
    if case["tight"]:
        kw.update(rtol=1e-10, atol=1e-11)
    return kw


def run_hamiltonian(case):
    n = case["n"]
    basis = hams.basis(case["L"]) if case["L"] else None
    H, val = hams.build(case["ham"], n, basis)
    eq = case["eq"]
    scale = size(val)
    c2 = dict(case)
    c2["times"] = [t for t in case["times_rel"] if t != "t0"]
    t0, ts = times_of(c2, scale)
    if np.finfo(H.dtype).eps > 1e-10:
        case = dict(case, tight=False)  # tolerances below the rounding of the matrix elements stall the step control
    dt = DT[case["vdt"]]
    shape = {"vector": (n,), "column": (n, 1), "matrix": (n, case["k"])}[case["shape"]]
    if eq == "LvNE":
        shape = (n, n)
    v = gen.vec(case["seeds"], int(np.prod(shape)), case["vdt"].startswith("c")).reshape(shape).astype(dt)
    v = v / np.sqrt(n) + dt(0.1)
    V = arr(v, case["layout"])
    v0c = v.astype(complex)
    kw = solver_kw(case)
    if eq == "SE":
        f = lambda t, y: (-1j * (val(t) @ y.reshape(shape))).ravel()
    elif eq == "stack":
        if np.dtype(H.dtype).kind == "c":
            try:
                H.evolve(V, t0, passtimes(ts, case), stack_state=True)
            except ValueError:
                return ["stack complex refused"], False
            fail("stack_state with a complex Hamiltonian is accepted")
        f = lambda t, y: (-1j * (val(t) @ y.reshape(shape))).ravel()
        kw["stack_state"] = True
    elif eq == "imag":
        f = lambda t, y: (-(val(t) @ y.reshape(shape))).ravel()
        kw["imag_time"] = True
    else:
        def f(t, y):
            y = y.reshape(shape)
            M = val(t)
            return (-1j * (M @ y - y @ M)).ravel()
        kw["eom"] = "LvNE"
    if eq == "SE" and case["explicit"]:
        kw["eom"] = "SE"
    iterate = case["iterate"]
    if iterate:
        kw["iterate"] = True
    if case["verbose"]:
        kw["verbose"] = True
    scalar = case["scalar"]
    if scalar:
        ts = ts[:1]
    with quiet():
        r = H.evolve(V, t0, passtimes(ts, case), **kw)
        got = collect(r, ts, scalar, iterate, shape, eq)
    want = reference(f, v0c, t0, ts)
    if eq == "imag":
        nrm = np.linalg.norm(v0c, axis=0)
        want = [w * (nrm / np.linalg.norm(w, axis=0)) for w in want]
    real = eq == "imag" and np.dtype(H.dtype).kind == "f" and not case["vdt"].startswith("c")
    e = 1e-5 if np.finfo(H.dtype).eps < 1e-10 and np.finfo(dt).eps < 1e-10 else 2e-4
    for g, w, t in zip(got, want, ts):
        check(g.dtype == (np.float64 if real else np.complex128), lambda: "%s: dtype %s" % (eq, g.dtype))
        d = np.abs(g - w).max(initial=0)
        s = max(1.0, np.abs(w).max(initial=0))
        check(np.isfinite(d) and d <= e * s, lambda: "%s at t=%.4g from t0=%.4g: off by %.3g (scale %.3g), solver %s" % (eq, t, t0, d, s, case["solver"]))
    same = np.array_equal(np.asarray(V), v)
    check(same, "%s: the initial state was changed" % eq)
    for t in (0.3, -2.2):
        check(np.abs(H.toarray(time=t) - val(t)).max(initial=0) <= 1e3 * np.finfo(H.dtype).eps * max(1.0, scale), "the Hamiltonian was changed")
    moved = max([np.abs(w - v0c).max(initial=0) for w in want] + [0])
    return [eq, case["shape"], "iterate" if iterate else "list", case["solver"]], moved > 1e-3


# ---------------------------------------------------------------- user-defined right-hand sides
def run_user(case):
    from quspin.tools.evolution import evolve

    n = case["n"]
    kind = case["kind"]
    A = gen.matrix(case["seeds"], n, complex_=True) / n
    B = gen.matrix([3] + case["seeds"], n, complex_=True) / n
    shape = (n,) if case["shape"] == "vector" else (n, case["k"])
    w, g = 1.3, 0.5
    c2 = dict(case)
    c2["times"] = [t for t in case["times_rel"] if t != "t0"]
    t0, ts = times_of(c2, 4.0)
    scalar, iterate = case["scalar"], case["iterate"]
    if scalar:
        ts = ts[:1]
    dt = DT[case["vdt"]]
    v = gen.vec(case["seeds"], int(np.prod(shape)), case["vdt"].startswith("c")).reshape(shape).astype(dt) / 2 + dt(0.2)
    kw = solver_kw(case)
    params = [w, g][: case["np"]]
    W = w if case["np"] > 0 else 0.0
    G = g if case["np"] > 1 else 0.0
    nrm = None
    if kind == "complex":
        # i dpsi/dt = A psi + cos(w t) B psi + g |psi|^2 psi
        def F(t, y, w, g):
            Y = np.reshape(y, shape)
            return (-1j * (A @ Y + np.cos(w * t) * (B @ Y) + g * np.abs(Y) ** 2 * Y / 10)).ravel()
        def f(t, y, *p):
            check(y.dtype == np.complex128 and y.shape == (int(np.prod(shape)),), "the right-hand side gets a %s of shape %s" % (y.dtype, y.shape))
            check(len(p) == len(params), "%d parameters instead of %d" % (len(p), len(params)))
            return F(t, y, *(list(p) + [0.0, 0.0][len(p):]))
        fref = lambda t, y: F(t, y, W, G)
        odt = np.complex128
        v0 = v
    elif kind == "real":
        v = v.real.copy()
        Ar, Br = A.real, B.real
        def F(t, y, w, g):
            Y = np.reshape(y, shape)
            return (Ar @ Y + np.cos(w * t) * (Br @ Y) - g * Y**3 / 10).ravel()
        f = lambda t, y, *p: F(t, y, *(list(p) + [0.0, 0.0][len(p):]))
        fref = lambda t, y: F(t, y, W, G)
        kw["real"] = True
        odt = np.float64
        v0 = v
    elif kind == "stack":
        # the same complex equation, written for [real part, imaginary part]
        def F(t, Y, w, g):
            return -1j * (A @ Y + np.cos(w * t) * (B @ Y) + g * np.abs(Y) ** 2 * Y / 10)
        N = int(np.prod(shape))
        def f(t, y, *p):
            check(y.shape == (2 * N,) and y.dtype.kind == "f", "the right-hand side gets a %s of shape %s" % (y.dtype, y.shape))
            Y = (y[:N] + 1j * y[N:]).reshape(shape)
            d = F(t, Y, *(list(p) + [0.0, 0.0][len(p):])).ravel()
            return np.concatenate([d.real, d.imag])
        fref = lambda t, y: F(t, y.reshape(shape), W, G).ravel()
        kw["stack_state"] = True
        odt = np.complex128
    else:  # linear imaginary time
        Hm = (A + A.conj().T) / 2
        r = not case["vdt"].startswith("c")
        if r:
            Hm = Hm.real
            kw["real"] = True
        f = lambda t, y, *p: -(Hm @ np.reshape(y, shape)).ravel()
        fref = lambda t, y: -(Hm @ np.reshape(y, shape)).ravel()
        kw["imag_time"] = True
        odt = np.float64 if r else np.complex128
        nrm = True
    V = arr(v, case["layout"] if case["layout"] != "list" else "C")
    if params:
        kw["f_params"] = tuple(params) if case["verbose"] else list(params)
    if iterate:
        kw["iterate"] = True
    # scipy's solvers want functions of fixed arity
    g = {0: lambda t, y: f(t, y), 1: lambda t, y, a: f(t, y, a), 2: lambda t, y, a, b: f(t, y, a, b)}[len(params)]
    r = evolve(V, t0, passtimes(ts, case), g, **kw)
    got = collect(r, ts, scalar, iterate, shape, kind)
    want = reference(fref, v, t0, ts)
    if nrm:
        q = np.linalg.norm(v.astype(complex), axis=0)
        want = [x * (q / np.linalg.norm(x, axis=0)) for x in want]
    e = 1e-5 if np.finfo(dt).eps < 1e-10 else 1e-4
    for x, y, t in zip(got, want, ts):
        check(x.dtype == odt, lambda: "%s: dtype %s instead of %s" % (kind, x.dtype, odt))
        d = np.abs(x - y).max(initial=0)
        check(np.isfinite(d) and d <= e * max(1.0, np.abs(y).max(initial=0)), lambda: "%s at t=%.4g from t0=%.4g: off by %.3g, solver %s" % (kind, t, t0, d, case["solver"]))
    check(np.array_equal(V, v), "%s: the initial state was changed" % kind)
    moved = max([np.abs(y - v).max(initial=0) for y in want] + [0])
    return [kind, case["shape"], "iterate" if iterate else "list", case["solver"]], moved > 1e-3


# ---------------------------------------------------------------- exact diagonalisation
def run_ed(case):
    from quspin.tools.evolution import ED_state_vs_time

    n = case["n"]
    A = hams.herm(gen.matrix(case["seeds"], n, complex_=case["cx"]))
    if not case["cx"]:
        A = A.real
    E, U = la.eigh(A)
    if case["layout"] == "F":
        U = np.ascontiguousarray(U)
    ts = [0.0 if t == "t0" else t for t in case["times_rel"]]
    rho = case["shape"] == "rho"
    shape = (n, n) if rho else ((n, 1) if case["shape"] == "column" else (n,))
    if rho and n == 1:
        shape = (1,)
        rho = False
    dt = DT[case["vdt"]]
    v = gen.vec(case["seeds"] + [2], int(np.prod(shape)), case["vdt"].startswith("c")).reshape(shape).astype(dt)
    V = arr(v, case["layout"])
    r = ED_state_vs_time(V, E, U, {"list": list, "tuple": tuple, "array": np.array}[case["ttype"]](ts), **({"iterate": True} if case["iterate"] else {}))
    got = collect(r, ts, False, case["iterate"], (n, n) if rho else (n,), "ED_state_vs_time")
    for g, t in zip(got, ts):
        P = la.expm(-1j * t * A)
        w = P @ v.astype(complex) @ P.conj().T if rho else P @ v.astype(complex).ravel()
        d = np.abs(g - w).max(initial=0)
        check(d <= 1e4 * np.finfo(dt).eps * max(1, np.abs(A).sum()) * max(1, np.abs(v).sum()), lambda: "ED_state_vs_time at t=%.3g: off by %.3g" % (t, d))
    check(np.array_equal(np.asarray(V), v), "the initial state was changed")
    check(np.abs(U @ np.diag(E) @ U.conj().T - A).max(initial=0) < 1e-8, "the eigensystem was changed")
    return [case["shape"], "iterate" if case["iterate"] else "list"], bool(np.any(A)) and any(ts)


# ---------------------------------------------------------------- expm_multiply_parallel
def run_expm(case):
    from quspin.tools.evolution import expm_multiply_parallel

    n = case["n"]
    mdt = DT[case["mdt"]]
    A = gen.matrix(case["seeds"], n, complex_=case["mdt"].startswith("c")) * (case["amp"] / max(1, n) ** 0.5)
    u = np.abs(gen.matrix([case["seeds"][0] + 3, 5], n, complex_=False)) * 50
    A = np.where((u.astype(int) % 10) < case["density"], A, 0)
    s = case["struct"]
    if s == "herm":
        A = hams.herm(A)
    elif s == "column":
        A[:, 1:] *= 0.01
    elif s == "row":
        A[1:] *= 0.01
    elif s == "shifted":
        A = A * 0.3 + np.diag([-5.0] + [3.0] * (n - 1)) * case["amp"] / 4
    elif s == "identity":
        A = A * 0 + np.eye(n) * case["amp"]
    elif s == "nilpotent":
        A = np.triu(A, 1)
    if mdt in (np.float32, np.float64):
        A = A.real
    A = A.astype(mdt)
    if s == "herm" and case["mdt"].startswith("c"):
        A = A.astype(mdt)
    X = {"dense": lambda: A.copy(), "csr": lambda: sp.csr_matrix(A), "csc": lambda: sp.csc_matrix(A), "i64": lambda: sp.csr_matrix(A)}[case["fmt"]]()
    if case["fmt"] == "i64":
        X.indices, X.indptr = X.indices.astype(np.int64), X.indptr.astype(np.int64)
    a = gen.cplx(case["a"])
    kw = {}
    if a != 1 or case["copy"]:
        kw["a"] = a
    if case["copy"]:
        kw["copy"] = True
    dtype = None
    single = False

    def odtype(a, d):
        if d is not None:
            return np.dtype(d)
        return np.result_type(A.dtype, np.float64, np.complex64 if isinstance(a, complex) else np.float64)

    def choose(a, want):
        """a dtype that can hold the product, or the default"""
        if want is None:
            return None
        cx = isinstance(a, complex) or A.dtype.kind == "c"
        lo = A.dtype in (np.float32, np.complex64)
        if want == "single" and lo:
            return np.complex64 if cx else np.float32
        if want == "complex":
            return np.complex128
        return np.complex128 if cx else np.float64

    d = choose(a, case["dtype"])
    if d is not None:
        kw["dtype"] = d
    E = expm_multiply_parallel(X, **kw)
    hist = ["new"]
    labels = [case["struct"], case["fmt"]]
    nz = False
    for step in [["dot", case["first"]]] + case["ops"]:
        if step[0] == "a":
            a = gen.cplx(step[1])
            d = choose(a, step[2])
            E.set_a(a, **({} if d is None else {"dtype": d}))
            check(E.a == a, "the property 'a'")
            hist.append("set_a %s" % (d.__name__ if d else ""))
            continue
        o = step[1]
        hist.append("dot")
        vdt = DT[o["vdt"]]
        v = gen.vec(o["seeds"], n, o["vdt"].startswith("c")).astype(vdt)
        if o["basis"]:
            v = np.zeros(n, vdt)
            v[o["seeds"][0] % n] = 1
        rdt = np.result_type(odtype(a, d), vdt)
        kw = {}
        over = o["over"]
        if over:
            v = v.astype(rdt)
            kw["overwrite_v"] = True
            V = v.copy()
        else:
            V = arr(v, "strided" if o["strided"] else "C")
        if o["work"]:
            kw["work_array"] = np.full(2 * n, 7, dtype=rdt)
        r = E.dot(V, **kw)
        M = a * A.astype(complex)
        want = la.expm(M) @ v.astype(complex)
        check(r.shape == (n,) and r.dtype == rdt, lambda: "after %s: shape %s, dtype %s instead of %s" % (hist, r.shape, r.dtype, rdt))
        if over:
            check(r is V or np.shares_memory(r, V), "overwrite_v does not overwrite")
        else:
            check(np.array_equal(V, v), "the vector was changed")
        # condition of the exponential along the way
        nm = np.linalg.norm(M, 1)
        K = 1.0
        for x in (0.0, 0.25, 0.5, 0.75, 1.0):
            K = max(K, np.linalg.norm(la.expm(x * M), 2) * np.linalg.norm(la.expm((1 - x) * M), 2))
        # the truncated series of a piece with theta <= 10 is evaluated in floating point
        eps = max(np.finfo(odtype(a, d)).eps, np.finfo(A.dtype).eps if odtype(a, d) in (np.float32, np.complex64) else 0)
        tol = 100 * eps * max(1.0, nm) * K * np.linalg.norm(v)
        dd = np.abs(r - want).max(initial=0)
        check(np.isfinite(dd) and dd <= tol, lambda: "after %s: off by %.3g (tolerance %.3g, norm %.3g, condition %.3g)" % (hist, dd, tol, nm, K))
        nz = nz or bool(np.any(A)) and a != 0
        labels += ["over" if over else "new", o["vdt"]]
    check(np.array_equal(E.A.toarray(), A), "the operator was changed")
    check(np.array_equal(X.toarray() if sp.issparse(X) else X, A), "the given matrix was changed")
    return labels, nz


reltimes = st.lists(st.sampled_from(["t0", 4e-16, 0.4, 1.0, 2.3, -0.7, -1.6, 3.1, 0.4]), min_size=1, max_size=6)


@st.composite
def common(draw):
    ts = draw(reltimes)
    return {"seeds": draw(gen.seeds), "vdt": draw(st.sampled_from(list(DT))), "layout": draw(st.sampled_from(["C", "F", "strided", "list"])), "k": draw(st.integers(1, 4)),
            "t0": draw(st.sampled_from([0, 0.0, 0.5, -1.2])), "times_rel": ts, "scalar": draw(st.sampled_from([False, False, False, True])),
            "ttype": draw(st.sampled_from(["list", "array", "tuple"])), "iterate": draw(st.sampled_from([False, False, True, "mangle"])),
            "solver": draw(st.sampled_from(["default", "default", "dopri5", "vode", "lsoda"])), "tight": draw(st.booleans()), "verbose": draw(st.booleans())}


@st.composite
def hcases(draw):
    L = draw(st.sampled_from([0, 1, 2, 3, 4]))
    n = 2**L if L else draw(st.sampled_from([1, 2, 3, 5]))
    c = draw(common())
    eq = draw(st.sampled_from(["SE", "SE", "stack", "imag", "LvNE"]))
    kw = {"hermitian": draw(st.sampled_from([True, True, False])), "maxdyn": 3}
    if eq == "stack" and draw(st.integers(0, 4)):
        kw["dtypes"] = ["float64", "float32"]
    if eq == "imag":
        kw["hermitian"] = True
    c.update(L=L, n=n, ham=draw(hams.ham_specs(L=L or None, **kw)), eq=eq, shape=draw(st.sampled_from(["vector", "vector", "column", "matrix"])), explicit=draw(st.booleans()))
    return c


@st.composite
def ucases(draw):
    c = draw(common())
    c.update(n=draw(st.integers(1, 5)), kind=draw(st.sampled_from(["complex", "real", "stack", "imag"])), shape=draw(st.sampled_from(["vector", "matrix"])), np=draw(st.integers(0, 2)))
    return c


@st.composite
def edcases(draw):
    c = draw(common())
    c.update(n=draw(st.integers(1, 6)), cx=draw(st.booleans()), shape=draw(st.sampled_from(["vector", "column", "rho"])))
    return c


@st.composite
def xcases(draw):
    dot = st.fixed_dictionaries({"vdt": st.sampled_from(list(DT)), "seeds": gen.seeds, "over": st.booleans(), "strided": st.booleans(), "work": st.booleans(), "basis": st.booleans()})
    op = st.one_of(st.tuples(st.just("a"), gen.amplitudes(True), st.sampled_from([None, None, "single", "double", "complex"])).map(list), st.tuples(st.just("dot"), dot).map(list))
    return {"n": draw(st.sampled_from([1, 2, 3, 5, 8, 40])), "seeds": draw(gen.seeds), "mdt": draw(st.sampled_from(list(DT))), "amp": draw(st.sampled_from([0.01, 1, 1, 4, 10])),
            "density": draw(st.sampled_from([0, 1, 4, 10])), "struct": draw(st.sampled_from(["herm", "general", "column", "row", "shifted", "identity", "nilpotent"])),
            "fmt": draw(st.sampled_from(["csr", "csc", "dense", "i64"])), "a": draw(st.one_of(st.just(1.0), gen.amplitudes(True))), "copy": draw(st.booleans()),
            "dtype": draw(st.sampled_from([None, None, "single", "double", "complex"])), "first": draw(dot), "ops": draw(st.lists(op, max_size=4))}


FAMILIES = [
    Family("hamiltonian", hcases, run_hamiltonian, 1000, 20000, weight=3),
    Family("user", ucases, run_user, 500, 10000, weight=2),
    Family("ed", edcases, run_ed, 400, 8000),
    Family("expm", xcases, run_expm, 800, 16000),
]
