"""C12: queries on a Hamiltonian."""
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
import scipy.sparse.linalg as sla
from hypothesis import strategies as st

import gen, hams, ref
from vf import Family, check, fail

ID = "C12"
TECHNIQUE = "property-based testing: random Hamiltonians, states and query options against dense linear algebra on reference matrices"
LEVEL_NOTE = ("sampled, not exhaustive: dimensions 1 to 16 and 130, at most three driven terms, all formats and dtypes, single, stacked, mixed and sparse states; "
              "fluctuations and eigenproblems on hermitian operators; tolerances scaled with dtype and magnitude; trusts numpy and scipy.linalg")

RULE = "cases: a Hamiltonian, a query with its options and inputs; non-trivial: the operator's value at the queried time is not zero"
DT = {"float64": np.float64, "complex128": np.complex128, "float32": np.float32, "complex64": np.complex64}


def eps(*dts):
    return max(np.finfo(np.dtype(d)).eps for d in dts)


def close(a, b, scale, e, what, squeeze=True):
    a, b = np.asarray(a), np.asarray(b)
    if squeeze:
        a, b = a.squeeze(), b.squeeze()
    check(a.shape == b.shape, lambda: "%s: shape %s instead of %s" % (what, a.shape, b.shape))
    check(a.dtype.kind in "fc", lambda: "%s: dtype %s" % (what, a.dtype))
    d = np.abs(a - b).max(initial=0)
    check(np.isfinite(a).all() and d <= 500 * e * max(1.0, scale), lambda: "%s: differs by %.3g (scale %.3g)" % (what, d, scale))


def setup(case):
    n = case["n"]
    basis = hams.basis(case["L"]) if case["L"] else None
    H, val = hams.build(case["ham"], n, basis)
    return n, H, val


def unchanged(H, val, case, what="the query"):
    n = case["n"]
    for t in (0.3, -2.2):
        R = val(t)
        d = np.abs(H.toarray(time=t) - R).max(initial=0)
        check(d <= 1e3 * eps(case["ham"]["dtype"]) * max(1.0, np.abs(R).max(initial=0)), "%s changed the Hamiltonian" % what)
    check(H.dtype == case["ham"]["dtype"], "%s changed the dtype" % what)


def arr(a, layout):
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return np.ascontiguousarray(a)


def state(case, n, shape):
    dt = DT[case["vdt"]]
    v = gen.vec(case["seeds"], int(np.prod(shape)), case["vdt"].startswith("c")).astype(dt).reshape(shape)
    if np.prod(shape) and not np.any(v):
        v = v + 1
    return arr(v.astype(dt), case["layout"])


def times_of(case, k):
    ts = [case["t"], 1.7, -2.2, 0.3, 0.9, 2.5, -0.6, 1.1][:k]
    while len(ts) < k:
        ts.append(0.1 * len(ts))
    return {"list": list, "array": np.array, "tuple": tuple}[case["ttype"]](ts)


def run_apply(case):
    n, H, val = setup(case)
    k = case["k"]
    how = case["how"]
    right = case["right"]
    e = eps(case["ham"]["dtype"], case["vdt"])
    a = gen.cplx(case["a"])
    op = H.rdot if right else H.dot
    kw = {}
    if a != 1:
        kw["a"] = a
    if not case["check"]:
        kw["check"] = False

    def one(v, t):
        M = val(t)
        return a * (v @ M if right else M @ v)

    t = case["t"]
    nz = np.any(val(t))
    if how == "ham":
        H2, val2 = hams.build(case["ham2"], n, None)
        r = op(H2, **({"a": a} if a != 1 else {}))
        for tt in (0.3, 1.7):
            R = one(val2(tt), tt)
            close(r.toarray(time=tt), R, np.abs(R).max(initial=0) * n + np.abs(val(tt)).max(initial=0) * np.abs(val2(tt)).max(initial=0) * n,
                  max(e, eps(case["ham2"]["dtype"])), "product of Hamiltonians", False)
        unchanged(H, val, case)
        return ["ham", "rdot" if right else "dot"], bool(nz)
    if how == "sparse":
        if right:
            V = state(case, n, (k, n))
        else:
            V = state(case, n, (n, k))
        V = V * (np.abs(V) > 0.5)
        V = getattr(sp, case["sfmt"] + "_matrix")(V)
        keep = V.copy()
        if case["multi"] and not right:
            ts = times_of(case, k)
            r = op(V, time=ts, **kw)
            R = np.stack([one(V.toarray()[:, i], ts[i]) for i in range(k)], axis=-1)
        else:
            r = op(V, time=t, **kw)
            R = one(V.toarray(), t)
        check(sp.issparse(r), "the product with a sparse state is not sparse")
        close(r.toarray(), R, np.abs(R).max(initial=0) * n, e, "sparse product", False)
        check((keep != V).nnz == 0, "the sparse input was changed")
        unchanged(H, val, case)
        return ["sparse", "multi" if case["multi"] else "single", "rdot" if right else "dot"], bool(nz)
    if how == "vector":
        V = state(case, n, (n,))
    elif how == "matrix":
        V = state(case, n, (k, n) if right else (n, k))
    elif how == "square":
        V = state(case, n, (n, n))
    elif how == "times2":
        V = state(case, n, (n, k))
    elif how == "times3":
        V = state(case, n, (n, n, k))
    keep = V.copy()
    rdt = np.result_type(V.dtype, np.dtype(case["ham"]["dtype"]))
    if how.startswith("times"):
        ts = times_of(case, k)
        r = op(V, time=ts, **kw)
        R = np.stack([one(V[..., i], ts[i]) for i in range(k)], axis=-1)
        close(r, R, np.abs(R).max(initial=0) * n, e, "product at several times", False)
    else:
        R = one(V, t)
        out = case["out"]
        if isinstance(a, complex) and rdt.kind != "c":
            out = None
        if out is None:
            r = op(V, time=t, **kw)
        else:
            base = gen.vec([4, 9], R.size, rdt.kind == "c").reshape(R.shape).astype(rdt)
            o = np.ascontiguousarray(base.copy())
            r = op(V, time=t, out=o, overwrite_out=(out == "over"), **kw)
            want = R if out == "over" else R + base
            close(o, want, np.abs(want).max(initial=0) * n, e, "product written to 'out' (%s)" % out, False)
            R = want
        close(r, R, np.abs(R).max(initial=0) * n + 4, e, "product", False)
    check(np.array_equal(keep, V), "the input state was changed")
    unchanged(H, val, case)
    return [how, "rdot" if right else "dot", "out" if case["out"] and not how.startswith("times") else "new"], bool(nz)


# ---------------------------------------------------------------- expectation values
def mixed(case, n, k=None):
    """density matrices"""
    if k is None:
        A = gen.matrix(case["seeds"], n, complex_=True)
        r = A @ A.conj().T + np.eye(n) * 0.1
        return r / np.trace(r)
    return np.stack([mixed(dict(case, seeds=[s + i for s in case["seeds"]]), n) for i in range(k)], axis=-1)


def run_expect(case):
    n, H, val = setup(case)
    k, how, q = case["k"], case["how"], case["q"]
    e = max(eps(case["ham"]["dtype"]), 1e-15)
    t = case["t"]
    kw = {}
    if not case["check"]:
        kw["check"] = False
    single = lambda v, M: np.vdot(v, M @ v)

    def pure(v, t):
        M = val(t)
        x = np.vdot(v, M @ v)
        return x if q == "expt" else np.vdot(M.conj().T @ v, M @ v) - x**2

    def dens(r, t):
        M = val(t)
        x = np.trace(M @ r)
        return x if q == "expt" else np.trace(M @ M @ r) - x**2

    f = H.expt_value if q == "expt" else H.quant_fluct
    cs = dict(case, layout=case["layout"])
    if how in ("pure", "purecol"):
        V = gen.normed(state(dict(cs, vdt="complex128"), n, (n,)))
        R = pure(V, t)
        if how == "purecol":
            V = V.reshape(n, 1)
        kw["time"] = t
    elif how == "many":
        k = k if k != n else k + 1
        V = state(dict(cs, vdt="complex128"), n, (n, k)) / np.sqrt(n)
        R = np.array([pure(V[:, i], t) for i in range(k)])
        kw["time"] = t
    elif how == "enforce":
        V = state(dict(cs, vdt="complex128"), n, (n, n)) / np.sqrt(n)
        R = np.array([pure(V[:, i], t) for i in range(n)])
        kw["time"] = t
        kw["enforce_pure"] = True
    elif how == "rho":
        V = arr(mixed(case, n), case["layout"])
        R = dens(V, t)
        kw["time"] = t
    elif how == "times2":
        V = state(dict(cs, vdt="complex128"), n, (n, k)) / np.sqrt(n)
        ts = times_of(case, k)
        R = np.array([pure(V[:, i], ts[i]) for i in range(k)])
        kw["time"] = ts
        if case["check"] and k == n:
            kw["enforce_pure"] = True
    elif how == "times3":
        V = arr(mixed(case, n, k), case["layout"])
        ts = times_of(case, k)
        R = np.array([dens(V[..., i], ts[i]) for i in range(k)])
        kw["time"] = ts
    elif how == "sparse1":
        v = gen.normed(state(dict(cs, vdt="complex128"), n, (n,)))
        R = pure(v, t)
        V = getattr(sp, case["sfmt"] + "_matrix")(v.reshape(n, 1))
        kw["time"] = t
    elif how == "sparserho":
        if n == 1:
            return ["n=1"], False
        r = mixed(case, n)
        R = dens(r, t)
        V = getattr(sp, case["sfmt"] + "_matrix")(r)
        kw["time"] = t
    elif how == "sparsetimes":
        k = k if k != n else k + 1
        v = state(dict(cs, vdt="complex128"), n, (n, k)) / np.sqrt(n)
        ts = times_of(case, k)
        R = np.array([pure(v[:, i], ts[i]) for i in range(k)])
        V = sp.csc_matrix(v)
        kw["time"] = ts
    keep = V.copy()
    r = f(V, **kw)
    m = max([np.abs(val(t)).max(initial=0)] + [np.abs(val(x)).max(initial=0) for x in np.atleast_1d(kw["time"])])
    close(r, R, (m * n) ** (1 if q == "expt" else 2) * 4 + 1, e, "%s (%s)" % (q, how))
    same = (keep != V).nnz == 0 if sp.issparse(V) else np.array_equal(keep, V)
    check(same, "the input state was changed")
    unchanged(H, val, case)
    return [q, how], m > 0


def run_element(case):
    n, H, val = setup(case)
    t = case["t"]
    e = max(eps(case["ham"]["dtype"]), 1e-15)
    kl, kr = case["k"], case["k2"]
    kw = {}
    if not case["check"]:
        kw["check"] = False
    how = case["how"]
    if how == "vectors":
        L, R = state(dict(case, vdt="complex128"), n, (n,)), state(dict(case, vdt="complex128", seeds=[5] + case["seeds"]), n, (n,))
        ref_ = np.vdot(L, val(t) @ R)
        kw["time"] = t
    else:
        diag = how.startswith("diag")
        if diag or how == "times":
            kl = kr
        L = state(dict(case, vdt="complex128"), n, (n, kl))
        R = state(dict(case, vdt="complex128", seeds=[5] + case["seeds"]), n, (n, kr))
        if how == "times" or (diag and case["multi"]):
            ts = times_of(case, kr)
            HR = np.stack([val(ts[i]) @ R[:, i] for i in range(kr)], axis=-1)
            kw["time"] = ts
        else:
            HR = val(t) @ R
            kw["time"] = t
        ref_ = L.conj().T @ HR
        if diag:
            ref_ = np.diagonal(ref_)
            kw["diagonal"] = True
        if case["lsp"]:
            L = getattr(sp, case["sfmt"] + "_matrix")(L)
        if case["rsp"] and "time" in kw and np.ndim(kw["time"]) == 0:
            R = getattr(sp, case["sfmt"] + "_matrix")(R)
    keep = L.copy(), R.copy()
    r = H.matrix_ele(L, R, **kw)
    if sp.issparse(r):
        r = r.toarray()
    m = max([np.abs(val(x)).max(initial=0) for x in np.atleast_1d(kw["time"])])
    close(r, ref_, m * n * n * 16 + 1, e, "matrix_ele (%s)" % how)
    for x, y in zip(keep, (L, R)):
        same = (x != y).nnz == 0 if sp.issparse(x) else np.array_equal(x, y)
        check(same, "an input state was changed")
    unchanged(H, val, case)
    return [how, "sparse" if case["lsp"] or case["rsp"] else "dense"], m > 0


# ---------------------------------------------------------------- conversions and spectra
def run_convert(case):
    n, H, val = setup(case)
    t = case["t"]
    R = val(t)
    e = eps(case["ham"]["dtype"])
    s = np.abs(R).max(initial=0) + 4 * max([np.abs(val(x)).max(initial=0) for x in (0.3, 1.7, 0.0)])
    q = case["q"]
    dt = DT[case["ham"]["dtype"]]
    check(H.Ns == n and tuple(H.get_shape) == (n, n) and H.ndim == 2, "Ns or shape")
    check(H.dtype == case["ham"]["dtype"], "dtype %s" % H.dtype)
    if q in ("toarray", "todense"):
        f = getattr(H, q)
        kw = {}
        if case["opt"] == 1:
            kw["order"] = "F"
        if case["opt"] == 2:
            kw["out"] = np.asfortranarray(np.full((n, n), 7, dtype=dt)) if case["opt2"] else np.full((n, n), 7, dtype=dt)
            if q == "todense":
                kw["out"] = np.asmatrix(kw["out"])
        A = f(time=t, **kw)
        close(np.asarray(A), R, s, e, q, False)
        check(A.dtype == dt, lambda: "%s has dtype %s" % (q, A.dtype))
        if "order" in kw:
            check(A.flags["F_CONTIGUOUS"], q + " does not have the memory order asked for")
        if q == "toarray":
            check(type(A) is np.ndarray, "toarray gives a %s" % type(A).__name__)
        if "out" in kw:
            close(np.asarray(kw["out"]), R, s, e, q + " with out", False)
        A[...] = 3  # a copy
    elif q in ("tocsr", "tocsc"):
        A = getattr(H, q)(time=t)
        check(A.format == q[2:], "%s gives %s" % (q, A.format))
        close(A.toarray(), R, s, e, q, False)
        A *= 0
    elif q == "call":
        A = H(t)
        check(sp.issparse(A) != H.is_dense, "H(time) is sparse: %s, is_dense: %s" % (sp.issparse(A), H.is_dense))
        close(A.toarray() if sp.issparse(A) else A, R, s, e, q, False)
        anyd = not sp.issparse(H.static) or any(not sp.issparse(x) for x in H.dynamic.values())
        check(H.is_dense == anyd, "is_dense")
    elif q == "getitem":
        i, j = case["ij"][0] % n, case["ij"][1] % n
        key = [(i, j), (slice(None), j), (i, slice(None)), (slice(0, n, 2), slice(None)), (-1, j)][case["opt"]]
        if case["opt2"]:
            ts = [t, 0.3, 1.7]
            r = H[(ts,) + key]
            check(len(r) == 3, "indexing with three times")
            for x, y in zip(r, ts):
                close(x.toarray() if sp.issparse(x) else x, val(y)[key], s, e, "H[times,row,col]")
        else:
            r = H[(t,) + key]
            close(r.toarray() if sp.issparse(r) else r, R[key], s, e, "H[t,row,col]")
    elif q == "linop":
        A = H.aslinearoperator(time=t)
        v = gen.vec(case["seeds"], n)
        close(A.matvec(v), R @ v, s * n, e, "linear operator")
        close(A.rmatvec(v), R.conj().T @ v, s * n, e, "adjoint of the linear operator")
        V = gen.matrix(case["seeds"], n, 3)
        close(A.matmat(V), R @ V, s * n, e, "linear operator on a matrix")
        check(tuple(A.shape) == (n, n), "shape of the linear operator")
    elif q == "diagonal":
        for _ in range(2):
            close(H.diagonal(time=t), np.diagonal(R), s, e, "diagonal")
    elif q == "trace":
        close(H.trace(time=t), np.trace(R), s * n, e, "trace")
    elif q == "nbytes":
        check(H.nbytes >= 0, "nbytes")
    elif q == "parts":
        tot = H.static.toarray() if sp.issparse(H.static) else np.asarray(H.static)
        tot = tot.astype(complex)
        for f, M in H.dynamic.items():
            tot = tot + f(t) * (M.toarray() if sp.issparse(M) else np.asarray(M))
        close(tot, R, s, e, "static and dynamic parts", False)
        str(H), repr(H)
    unchanged(H, val, case)
    return [q], bool(np.any(R))


def run_spectrum(case):
    n, H, val = setup(case)
    t = case["t"]
    R = val(t)
    e = eps(case["ham"]["dtype"])
    s = np.abs(R).max(initial=0) * n + 1
    w = la.eigvalsh(R)
    q = case["q"]
    if q == "eigh":
        E, V = H.eigh(time=t)
        close(E, w, s, e, "eigenvalues", False)
        close(V.conj().T @ V, np.eye(n), n, e, "orthonormality", False)
        close(R @ V, V * E, s, e, "eigenvectors", False)
    elif q == "eigvalsh":
        close(H.eigvalsh(time=t), w, s, e, "eigenvalues", False)
    elif q == "subset":
        lo = case["k"] % n
        hi = min(n - 1, lo + case["k2"])
        E, V = H.eigh(time=t, subset_by_index=[lo, hi])
        close(E, w[lo : hi + 1], s, e, "some eigenvalues", False)
        close(R @ V, V * E, s, e, "some eigenvectors", False)
        close(H.eigvalsh(time=t, subset_by_index=[lo, hi]), w[lo : hi + 1], s, e, "some eigenvalues", False)
    else:
        if n < 4 or not np.any(np.abs(R) > 0.1):
            return ["too small"], False
        k = 1 + case["k"] % (n - 2)
        which = ["SA", "LA"][case["k2"] % 2]
        try:
            E, V = H.eigsh(time=t, k=k, which=which, v0=gen.vec([3, 8], n).astype(H.dtype) if H.dtype.startswith("c") else gen.vec([3, 8], n, False).astype(H.dtype),
                           maxiter=3000)
            E2 = H.eigsh(time=t, k=k, which=which, return_eigenvectors=False, v0=gen.vec([3, 8], n, False).astype(H.dtype), maxiter=3000)
        except sla.ArpackError as ex:
            return ["arpack gave up"], False
        # a Krylov method sees each degenerate level at least once: eigenvalues must be true ones, the extreme among them
        for name, X in (("values and vectors", E), ("values only", E2)):
            check(X.shape == (k,), lambda: "eigsh returns %s" % (X.shape,))
            d = np.abs(X[:, None] - w[None, :]).min(axis=1).max()
            check(d <= 1e4 * e * s, lambda: "eigsh (%s): not an eigenvalue, off by %.3g" % (name, d))
            x = X.min() if which == "SA" else X.max()
            check(abs(x - (w[0] if which == "SA" else w[-1])) <= 1e4 * e * s, "eigsh (%s): the extreme eigenvalue is missing" % name)
        close(R @ V, V * E, s * 20, e, "sparse eigenvectors", False)
    unchanged(H, val, case)
    return [q], bool(np.any(R))


# ---------------------------------------------------------------- transformations
def run_transform(case):
    n, H, val = setup(case)
    m = min(case["k"], n)
    e = eps(case["ham"]["dtype"])
    q = case["q"]
    P = gen.matrix(case["seeds"], n, m, complex_=case["vdt"].startswith("c")) / n
    if q in ("sparse", "dense", "matrix"):
        if q == "sparse":
            P = P * (np.abs(P) * n > 0.6)
            A = getattr(sp, case["sfmt"] + "_matrix")(P.astype(DT[case["vdt"]]))
        elif q == "dense":
            A = arr(P.astype(DT[case["vdt"]]), case["layout"])
        else:
            A = np.asmatrix(P.astype(DT[case["vdt"]]))
        e = max(e, eps(case["vdt"]))
        keep = A.copy()
        G = H.rotate_by(A) if case["multi"] else H.project_to(A)
        same = (keep != A).nnz == 0 if sp.issparse(A) else np.array_equal(keep, A)
        check(same, "the projector was changed")
        ref_ = lambda t: P.conj().T @ val(t) @ P
        rows = m
    elif q == "ham":
        K, kval = hams.build(case["ham2"], n, None)
        e = max(e, eps(case["ham2"]["dtype"]))
        G = H.rotate_by(K) if case["multi"] else H.project_to(K)
        ref_ = lambda t: kval(t).conj().T @ val(t) @ kval(t)
        rows = n
        unchanged(K, kval, dict(case, ham=case["ham2"]), "project_to (the operator)")
    else:
        K = gen.matrix(case["seeds"], n, complex_=True) / n
        a = gen.cplx(case["a"]) * 0.5
        e = max(e, 1e-14)
        X = sp.csr_matrix(K) if case["sfmt"] == "csr" else K
        G = H.rotate_by(X, generator=True, a=a)
        U = la.expm(a * K)
        ref_ = lambda t: U.conj().T @ val(t) @ U
        rows = n
    nz = False
    check(G.Ns == rows and tuple(G.get_shape) == (rows, rows), lambda: "the transformed operator has Ns=%s and shape %s instead of %d" % (G.Ns, G.get_shape, rows))
    for t in (0.3, -2.2):
        R = ref_(t)
        s = np.abs(R).max(initial=0) * n + np.abs(val(t)).max(initial=0) * n
        if q == "ham":
            s *= max(1, np.abs(kval(t)).max(initial=0)) ** 2 * n
        if q == "generator":
            s *= np.abs(U).max() ** 2 * n
        close(G.toarray(time=t), R, s, e, "transformed operator (%s)" % q, False)
        v = gen.vec([5], rows)
        close(G.dot(v, time=t), R @ v, s * n * 2, e, "transformed operator (%s) on a vector" % q, False)
        nz = nz or bool(np.any(R))
    unchanged(H, val, case)
    return [q, "rectangular" if rows < n else "square"], nz


# ---------------------------------------------------------------- strategies
@st.composite
def base(draw, hermitian=False, big=True):
    L = draw(st.sampled_from([0, 0, 1, 2, 3, 4]))
    n = 2**L if L else draw(st.sampled_from([1, 2, 3, 5, 6] + ([130] if big else [])))
    return {"L": L, "n": n, "ham": draw(hams.ham_specs(L=L, hermitian=hermitian)), "seeds": draw(gen.seeds), "vdt": draw(st.sampled_from(list(DT))),
            "layout": draw(st.sampled_from(["C", "F", "strided"])), "k": draw(st.integers(1, 5)), "k2": draw(st.integers(1, 4)),
            "t": draw(st.sampled_from([0, 0.3, 1.7, -2.2, 3])), "ttype": draw(st.sampled_from(["list", "array", "tuple"])), "check": draw(st.booleans()),
            "multi": draw(st.booleans()), "sfmt": draw(st.sampled_from(["csr", "csc", "coo"])), "a": draw(st.one_of(st.just(1), gen.amplitudes(True)))}


@st.composite
def applies(draw):
    c = draw(base())
    c.update(how=draw(st.sampled_from(["vector", "matrix", "square", "times2", "times3", "sparse", "ham"])), right=draw(st.booleans()),
             out=draw(st.sampled_from([None, "over", "add"])))
    if c["n"] > 20 and c["how"] in ("times3", "square"):
        c["how"] = "matrix"
    if c["how"] == "ham":
        c["ham2"] = draw(hams.ham_specs(L=None))
    return c


@st.composite
def expects(draw):
    q = draw(st.sampled_from(["expt", "fluct"]))
    c = draw(base(hermitian=q == "fluct", big=False))
    c.update(q=q, how=draw(st.sampled_from(["pure", "purecol", "many", "enforce", "rho", "times2", "times3", "sparse1", "sparserho", "sparsetimes"])))
    return c


@st.composite
def elements(draw):
    c = draw(base(big=False))
    c.update(how=draw(st.sampled_from(["vectors", "matrices", "diag", "times"])), lsp=draw(st.booleans()), rsp=draw(st.booleans()))
    return c


@st.composite
def converts(draw):
    c = draw(base())
    c.update(q=draw(st.sampled_from(["toarray", "todense", "tocsr", "tocsc", "call", "getitem", "linop", "diagonal", "trace", "nbytes", "parts"])),
             opt=draw(st.integers(0, 4)), opt2=draw(st.booleans()), ij=[draw(st.integers(0, 200)), draw(st.integers(0, 200))])
    return c


@st.composite
def spectra(draw):
    c = draw(base(hermitian=True, big=False))
    c.update(q=draw(st.sampled_from(["eigh", "eigvalsh", "subset", "eigsh"])))
    return c


@st.composite
def transforms(draw):
    c = draw(base(big=False))
    c.update(q=draw(st.sampled_from(["sparse", "dense", "matrix", "ham", "generator"])))
    if c["q"] == "ham":
        c["ham2"] = draw(hams.ham_specs(L=None))
    return c


FAMILIES = [
    Family("apply", applies, run_apply, 1500, 30000),
    Family("expect", expects, run_expect, 1000, 20000),
    Family("element", elements, run_element, 500, 10000),
    Family("convert", converts, run_convert, 1000, 20000),
    Family("spectrum", spectra, run_spectrum, 500, 10000),
    Family("transform", transforms, run_transform, 600, 12000),
]
