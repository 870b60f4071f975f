"""C17: Lanczos iterations and the methods built on them."""
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, hams
from vf import Family, Reject, check, fail

ID = "C17"
TECHNIQUE = ("property-based testing: random Hermitian operators in every representation, start vectors, Krylov dimensions and breakdowns; defining relations of the "
             "Krylov data, closed formulas in terms of these data, and dense exponentials where the space is complete")
LEVEL_NOTE = ("sampled, not exhaustive: dimensions 2 to 40, Krylov dimensions 1 to 14; the tolerance follows the loss of orthogonality of a plain recursion run by the "
              "check on the same input, and inputs where that exceeds 1e-3 are rejected; breakdown is tested where it is exact or an explicit eps is passed")

RULE = "cases: an operator, a start vector, a Krylov dimension and a method; non-trivial: at least two Lanczos vectors"
DT = {"float64": np.float64, "complex128": np.complex128, "float32": np.float32, "complex64": np.complex64}


# ---------------------------------------------------------------- operators
def matrix(c):
    """-> Hermitian matrix (complex128 or float64), start vector, Krylov dimension or None, eps or None"""
    rng = np.random.RandomState(c["seed"])
    n, d = c["n"], c["d"]
    cplx = c["dt"].startswith("c")
    vc = c["vdt"].startswith("c")
    if c["how"] == "random":
        A = rng.randn(n, n) + (1j * rng.randn(n, n) if cplx else 0)
        if c["sparse"]:
            A = A * (rng.rand(n, n) < 0.4)
        A = (A + A.conj().T) / 2 / np.sqrt(n) + c["shift"] * np.eye(n)
        v = rng.randn(n) + (1j * rng.randn(n) if vc else 0)
        kdim, eps = None, None
    elif c["how"] == "levels":  # d distinct levels, all in the start vector
        d = min(d, n)
        M = rng.randn(n, n) + (1j * rng.randn(n, n) if cplx else 0)
        U = np.linalg.qr(M)[0]
        lev = np.arange(d) - (d - 1) / 2.0 + c["shift"]
        lam = np.concatenate([lev, rng.choice(lev, n - d)])
        A = (U * lam) @ U.conj().T
        A = (A + A.conj().T) / 2
        co = (0.5 + rng.rand(n)) * rng.choice([-1.0, 1.0], n)
        if vc:
            co = co * np.exp(2j * np.pi * rng.rand(n))
        v = U @ co
        if not vc:
            v = v.real
        kdim, eps = d, 1e-7
    else:  # an exact invariant subspace: a path graph of d sites next to other sites
        d = min(d, n)
        A = np.zeros((n, n), complex)
        for i in range(d - 1):
            A[i, i + 1] = 1j if cplx and i % 2 else 1
            A[i + 1, i] = np.conj(A[i, i + 1])
        A[np.arange(d), np.arange(d)] = rng.randint(-1, 2, d) if c["shift"] else 0
        B = rng.randint(-2, 3, (n - d, n - d))
        A[d:, d:] = B + B.T
        perm = rng.permutation(n)
        v = np.zeros(n, complex)
        v[0] = 1j if vc else rng.choice([1, -1])
        A, v = A[np.ix_(perm, perm)], v[perm]
        kdim, eps = d, None
    A = np.asarray(A, DT[c["dt"]] if cplx else complex)
    A = A if cplx else A.real.astype(DT[c["dt"]])
    v = v * c["norm"]
    v = v.astype(DT[c["vdt"]]) if vc else v.real.astype(DT[c["vdt"]])
    return A, v, kdim, eps


def wrap(A, kind):
    from quspin.operators import hamiltonian, quantum_operator, quantum_LinearOperator
    from scipy.sparse.linalg import LinearOperator, aslinearoperator

    if kind == "C":
        return np.ascontiguousarray(A)
    if kind == "F":
        return np.asfortranarray(A)
    if kind in ("csr", "csc", "coo", "dia"):
        return getattr(sp, kind + "_matrix")(A)
    if kind == "linop":
        return aslinearoperator(A)
    if kind == "matvec":
        return LinearOperator(A.shape, matvec=lambda x: A @ x, dtype=A.dtype)
    if kind == "ham":
        return hamiltonian([A], [], dtype=A.dtype.type, check_herm=False)
    if kind == "qop":
        return quantum_operator({"a": [A.copy()]}, dtype=A.dtype.type, check_herm=False)
    raise KeyError(kind)


def plain(A, v, m, kdim):
    """the textbook recursion at the working precision -> number of vectors, Q, loss of orthogonality, smallest b"""
    dt = np.result_type(A.dtype, v.dtype)
    A0, v0 = A, v
    A, q = A.astype(dt), v.astype(dt)
    q = q / np.linalg.norm(q)
    Q, bs = [q], []
    mm = m if kdim is None else min(m, kdim)
    for i in range(mm - 1):
        r = A @ Q[-1]
        r = r - np.vdot(Q[-1], r).real * Q[-1]
        if len(Q) > 1:
            r = r - bs[-1] * Q[-2]
        b = np.linalg.norm(r)
        if b <= 1e-6:
            raise Reject("early breakdown")
        bs.append(b)
        Q.append(r / b)
    Q = np.array(Q)
    loss = np.abs(Q.conj() @ Q.T - np.eye(len(Q))).max()
    e = max(np.finfo(X.dtype).eps for X in (A0, v0))  # rounding of the input counts where it breaks degeneracies
    amp = 1.0
    for b in bs:
        amp = max(amp, (np.abs(A).sum(axis=0).max() + 1) / b)
    return mm, Q, max(loss, e * amp * len(A)), e


def verify(A, v, m, out, kdim, tol, what):
    E, V, Q = out
    dt = np.result_type(A.dtype, v.dtype)
    k = len(E)
    mm = m if kdim is None else min(m, kdim)
    n = len(v)
    check(k == mm, lambda: "%s: %d Lanczos vectors instead of %d" % (what, k, mm))
    check(E.shape == (k,) and V.shape == (k, k) and Q.shape == (k, n), lambda: "%s: shapes %s %s %s" % (what, E.shape, V.shape, Q.shape))
    check(Q.dtype == dt, lambda: "%s: vectors of type %s, not %s" % (what, Q.dtype, dt))
    check(not np.iscomplexobj(E) and not np.iscomplexobj(V), what + ": complex eigensystem of the real tridiagonal matrix")
    check(np.isfinite(E).all() and np.isfinite(V).all() and np.isfinite(Q).all(), what + ": not finite")
    check((np.diff(E) >= -1e-12 * (1 + np.abs(E).max())).all(), what + ": eigenvalues not ascending")

    def small(X, tol_, w):
        d = np.abs(X).max(initial=0)
        check(d <= tol_, lambda: "%s: %s (off by %.3g, tolerance %.3g)" % (what, w, d, tol_))

    s = 1 + np.abs(A).sum(axis=0).max()
    small(Q.conj() @ Q.T - np.eye(k), tol, "Lanczos vectors are not orthonormal")
    small(Q[0] - v / np.linalg.norm(v), tol, "the first vector is not the start vector")
    e = np.finfo(V.dtype).eps
    small(V.T @ V - np.eye(k), 100 * k * max(e, np.finfo(dt).eps), "V is not orthogonal")
    T = Q.conj() @ A @ Q.T
    small((V * E) @ V.T - T, tol * s, "E, V are not the eigensystem of the projected operator")
    small(np.triu(T, 2), tol * s, "the projected operator is not tridiagonal")
    W = A @ Q.T  # n x k
    R = W - Q.T @ (Q.conj() @ W)
    cols = k if (kdim is not None and k == kdim) else k - 1
    small(R[:, :cols], tol * s, "the vectors do not span a Krylov space")


def run_basis(c):
    from quspin.tools.lanczos import lanczos_full, lanczos_iter

    A, v, kdim, eps = matrix(c)
    m = min(c["m"], c["n"] - 1)
    dt = np.result_type(A.dtype, v.dtype)
    if c["how"] == "levels" and max(np.finfo(X.dtype).eps for X in (A, v)) > 1e-10:
        eps = 1e-2
    mm, Qp, loss, e = plain(A, v, m, kdim)
    tol = 1e3 * loss
    if loss > 1e-3:
        raise Reject("loss of orthogonality")
    O = wrap(A, c["kind"])
    v0, A0 = v.copy(), A.copy()
    kw = {} if eps is None else {"eps": eps}
    if c["strided"]:
        w = np.zeros(2 * len(v), v.dtype)
        w[::2] = v
        v = w[::2]
    for bad in (c["n"], c["n"] + 1):
        for f in (lanczos_full, lanczos_iter):
            try:
                f(O, v, bad)
            except ValueError:
                pass
            else:
                fail("%s accepted m=%d for dimension %d" % (f.__name__, bad, c["n"]))
    full = lanczos_full(O, v, m, full_ortho=c["ortho"], **kw)
    verify(A, v0, m, full, kdim, tol, "lanczos_full(full_ortho=%s)" % c["ortho"])
    if c["ortho"]:
        d = np.abs(full[2].conj() @ full[2].T - np.eye(mm)).max()
        check(d <= 100 * np.finfo(dt).eps * c["n"], lambda: "full_ortho: vectors orthonormal only to %.3g" % d)
    buf = np.full((m, c["n"]), 3, dt)
    E, V, Q = lanczos_full(O, v, m, full_ortho=c["ortho"], out=buf, **kw)
    check(np.shares_memory(Q, buf), "lanczos_full(out=...) returns vectors that are not in out")
    check(np.array_equal(Q, full[2]) and np.array_equal(E, full[0]), "lanczos_full(out=...) differs from the call without")
    verify(A, v0, m, (E, V, Q), kdim, tol, "lanczos_full(out)")
    for badout in (np.zeros((m, c["n"] + 1), dt), np.zeros((m, c["n"]), np.int64), np.zeros((c["n"], m), dt).T):
        if badout.shape == (m, c["n"]) and badout.flags["CARRAY"] and badout.dtype == dt:
            continue
        try:
            lanczos_full(O, v, m, out=badout, **kw)
        except ValueError:
            pass
        else:
            fail("lanczos_full accepted out of shape %s, type %s, flags %s" % (badout.shape, badout.dtype, badout.flags["CARRAY"]))
    copy_A = c["copy"] and c["kind"] != "linop" and c["kind"] != "matvec"

    def scale(x):
        """in-place change of the operator, exact in floating point"""
        if c["kind"] in ("C", "F"):
            np.multiply(O, x, out=O)
        elif c["kind"] in ("csr", "csc", "coo", "dia"):
            O.data *= x
        elif c["kind"] == "ham":
            D = O.static.data if sp.issparse(O.static) else O.static
            np.multiply(D, x, out=D)

    res = lanczos_iter(O, v, m, return_vec_iter=True, copy_v0=c["copy"], copy_A=copy_A, **kw)
    check(len(res) == 3, "lanczos_iter: no iterator")
    E, V, it = res
    copies = []
    for rep in range(2):
        Qs = []
        for q in it:
            check(not q.flags["WRITEABLE"], "lanczos_iter yields writable views of its memory")
            Qs.append(q.copy())
            if c["copy"] and rep == 0 and len(Qs) == 1:
                v[:] = 7  # must not matter: v0 and A were copied
                if copy_A:
                    scale(2.0)
        copies.append(np.array(Qs))
    v[:] = v0
    if c["copy"] and copy_A:
        scale(0.5)
    check(copies[0].shape == copies[1].shape and np.array_equal(copies[0], copies[1]), "the second pass over the Lanczos vectors differs from the first")
    verify(A, v0, m, (E, V, copies[0]), kdim, tol, "lanczos_iter")
    E2, V2 = lanczos_iter(O, v, m, return_vec_iter=False, **kw)
    check(np.array_equal(E, E2) and np.array_equal(V, V2), "lanczos_iter without vectors: other eigensystem")
    check(np.array_equal(v, v0), "the start vector was changed")
    if c["kind"] in ("C", "F"):
        check(np.array_equal(O, A0), "the operator was changed")
    return [c["how"], c["kind"]], mm > 1


# ---------------------------------------------------------------- methods
def krylov(c, O, v, m, eps):
    from quspin.tools.lanczos import lanczos_full, lanczos_iter

    kw = {} if eps is None else {"eps": eps}
    if c["src"] == "iter":
        E, V, it = lanczos_iter(O, v, m, **kw)
        return E, V, it, np.array([q.copy() for q in it])
    E, V, Q = lanczos_full(O, v, m, full_ortho=c["src"] == "ortho", **kw)
    if c["src"] == "list":
        return E, V, [q for q in Q], Q
    return E, V, Q, Q


def betas(c):
    b = c["beta"]
    if c["bshape"] == 0:
        return b[0]
    if c["bshape"] == 1:
        return list(b[:3]) if c["blist"] else np.array(b[:3])
    if c["bshape"] == 2:
        return np.array(b).reshape(2, 3)
    return np.array(b[:1])


def observable(seed, n, kind, dt, herm=True):
    rng = np.random.RandomState(seed)
    X = rng.randn(n, n) + (1j * rng.randn(n, n) if dt.startswith("c") else 0)
    if herm:
        X = (X + X.conj().T) / 2
    X = X.astype(DT[dt])
    return X, wrap(X, kind)


def run_methods(c):
    from quspin.tools.lanczos import expm_lanczos, lin_comb_Q_T, FTLM_static_iteration, LTLM_static_iteration

    A, v, kdim, eps = matrix(c)
    n = c["n"]
    m = min(c["m"], n - 1)
    dt = np.result_type(A.dtype, v.dtype)
    if c["how"] == "levels" and max(np.finfo(X.dtype).eps for X in (A, v)) > 1e-10:
        eps = 1e-2
    mm, Qp, loss, e = plain(A, v, m, kdim)
    if loss > 1e-3:
        raise Reject("loss of orthogonality")
    O = wrap(A, c["kind"])
    E, V, Qt, Q = krylov(c, O, v, m, eps)
    k = len(E)
    if k != mm:
        raise Reject("number of vectors: judged by the family basis")
    complete = kdim is not None and k == kdim
    E0, V0, Q0 = E.copy(), V.copy(), Q.copy()
    nv = v / np.linalg.norm(v)
    spread = np.abs(E).max() + 1

    def close(x, R, what, tol):
        x, R = np.asarray(x), np.asarray(R)
        check(x.shape == R.shape, lambda: "%s: shape %s instead of %s" % (what, x.shape, R.shape))
        d = np.abs(x - R).max(initial=0)
        s = 1 + np.abs(R).max(initial=0)
        check(np.isfinite(x).all() and d <= tol * s, lambda: "%s: differs by %.3g (tolerance %.3g)" % (what, d, tol * s))

    meth = c["meth"]
    Ac = A.astype(complex)
    if meth == "comb":
        rng = np.random.RandomState(c["seed2"])
        co = rng.randn(k) + (1j * rng.randn(k) if c["cc"] else 0)
        if c["clist"]:
            co = co.tolist()
        R = np.asarray(co) @ Q
        t = 50 * k * e
        x = lin_comb_Q_T(co, Qt)
        close(x, R, "lin_comb_Q_T", t)
        check(x.dtype == R.dtype, lambda: "lin_comb_Q_T: type %s, not %s" % (x.dtype, R.dtype))
        out = np.full(n, 5, R.dtype)
        y = lin_comb_Q_T(co, Qt, out=out)
        check(y is out, "lin_comb_Q_T(out=...) does not return out")
        close(out, R, "lin_comb_Q_T(out)", t)
        for bad in (np.zeros(n + 1, R.dtype), np.zeros(n, np.int64), np.zeros(2 * n, R.dtype)[::2]):
            try:
                lin_comb_Q_T(co, Qt, out=bad)
            except ValueError:
                continue
            fail("lin_comb_Q_T accepted out of shape %s, type %s" % (bad.shape, bad.dtype))
    elif meth == "expm":
        a = gen.cplx(c["a"])
        if not c["ac"]:
            a = a.real
        a = a * min(1.0, 3.0 / spread / max(abs(a), 1e-3))
        g = np.exp(abs(a) * spread)
        R = (V @ (np.exp(a * E) * V[0])) @ Q
        t = 100 * k * e * g
        x = expm_lanczos(E, V, Qt, a=a)
        close(x, R, "expm_lanczos", t)
        out = np.full(n, 5, np.result_type(np.result_type(V.dtype, type(a)) if isinstance(a, complex) else V.dtype, dt))
        out = np.full(n, 5, x.dtype)
        y = expm_lanczos(E, V, Qt, a=a, out=out)
        check(y is out, "expm_lanczos(out=...) does not return out")
        close(out, R, "expm_lanczos(out)", t)
        if complete:
            close(x, la.expm(a * Ac) @ nv, "expm_lanczos in a complete Krylov space", 1e3 * loss * g * n)
        x1 = expm_lanczos(E, V, Qt)
        close(x1, (V @ (np.exp(E) * V[0])) @ Q, "expm_lanczos (default a)", 100 * k * e * np.exp(spread))
    else:
        beta = betas(c)
        barr = np.asarray(beta, float)
        obs, mats = {}, {}
        for i, (key, kd, odt, hm) in enumerate(c["obs"]):
            X, W = observable(c["seed2"] + i, n, kd, odt, hm)
            obs[key], mats[key] = W, X
        g = np.exp(np.abs(barr).max() * spread)
        oe = max([np.finfo(X.dtype).eps for X in mats.values()] + [e])
        f = FTLM_static_iteration if meth == "ftlm" else LTLM_static_iteration
        b0 = np.array(barr)
        res, Id = f(obs, E, V, Qt, beta=beta)
        check(set(res) == set(obs), lambda: "%s: results for %s" % (meth, sorted(res)))
        check(np.array_equal(np.asarray(beta, float), b0), "beta was changed")
        w = lambda x, b: np.exp(-b * x)
        IdR = np.array([np.sum(V[0] ** 2 * w(E, b)) for b in barr.ravel()]).reshape(barr.shape)
        t = 200 * k * n * oe * g
        close(Id, IdR, meth + ": identity", t)
        if complete:
            ex = np.array([np.vdot(nv, la.expm(-b * Ac) @ nv).real for b in barr.ravel()]).reshape(barr.shape)
            close(Id, ex, meth + ": identity in a complete Krylov space", 1e3 * loss * g * n)
        for key, X in mats.items():
            r = Q[0]
            if meth == "ftlm":
                M = np.array([np.vdot(q, X @ r) for q in Q])
                R = np.array([np.sum(V[0] * w(E, b) * (V.T @ M)) for b in barr.ravel()])
                ex = lambda b: np.vdot(nv, la.expm(-b * Ac) @ X @ nv)
            else:
                XX = Q.conj() @ X @ Q.T
                R = []
                for b in barr.ravel():
                    u = V @ (w(E, b / 2) * V[0])
                    R.append(u @ XX @ u)
                R = np.array(R)
                def ex(b):
                    u = la.expm(-b / 2 * Ac) @ nv
                    return np.vdot(u, X @ u)
            close(res[key], R.reshape(barr.shape), "%s: observable %s" % (meth, key), t * (1 + np.abs(X).max()))
            if complete:
                z = np.array([ex(b) for b in barr.ravel()]).reshape(barr.shape)
                close(res[key], z, "%s: observable %s in a complete Krylov space" % (meth, key), 1e3 * loss * g * n * (1 + np.abs(X).max()) * n)
        if k > 1 and c["src"] != "list":
            pass
        d0, _ = f(obs, E, V, Qt)  # default: infinite temperature
        for key, X in mats.items():
            close(d0[key], np.vdot(Q[0], X @ Q[0]), meth + ": default beta", 200 * k * n * max(loss, oe) * (1 + np.abs(X).max()) * n)
    check(np.array_equal(E, E0) and np.array_equal(V, V0), meth + " changed E or V")
    if c["src"] != "iter":
        check(np.array_equal(Q, Q0), meth + " changed the Lanczos vectors")
    return [meth, c["src"], "complete" if complete else "partial"], k > 1


# ---------------------------------------------------------------- start-vector averages
def run_trace(c):
    """FTLM over all basis vectors with complete Krylov spaces is the thermal trace"""
    from quspin.tools.lanczos import lanczos_full, lanczos_iter, FTLM_static_iteration, LTLM_static_iteration

    rng = np.random.RandomState(c["seed"])
    n, d = c["n"], c["d"]
    U = np.linalg.qr(rng.randn(n, n) + (1j * rng.randn(n, n) if c["c"] else 0))[0]
    W = np.linalg.qr(rng.randn(n, n) + (1j * rng.randn(n, n) if c["c"] else 0))[0]
    d = max(1, min(d, n - 1))
    lev = (np.arange(d) - (d - 1) / 2.0) * c["gap"]
    A = (U * np.concatenate([lev, rng.choice(lev, n - d)])) @ U.conj().T
    A = (A + A.conj().T) / 2
    X = rng.randn(n, n) + (1j * rng.randn(n, n) if c["c"] else 0)
    X = (X + X.conj().T) / 2
    beta = np.array(c["beta"])
    tot, Z, ref, zref = 0, 0, 0, 0
    for i in range(n):
        v = W[:, i]
        if c["it"]:
            E, V, Q = lanczos_iter(A, v, n - 1, eps=1e-6)
        else:
            E, V, Q = lanczos_full(A, v, n - 1, eps=1e-6)
        f = FTLM_static_iteration if c["ft"] else LTLM_static_iteration
        r, Id = f({"X": X}, E, V, Q, beta=beta)
        tot, Z = tot + r["X"], Z + Id
    ref = np.array([np.trace(la.expm(-b * A) @ X).real for b in beta])
    zref = np.array([np.trace(la.expm(-b * A)).real for b in beta])
    g = np.exp(np.abs(beta).max() * np.abs(lev).max())
    for x, R, w in ((tot, ref, "trace of the observable"), (Z, zref, "partition function")):
        dd = np.abs(x - R).max()
        check(dd <= 1e-7 * g * n * n, lambda: "%s from all start vectors: off by %.3g" % (w, dd))
    return ["trace"], n > 2


# ---------------------------------------------------------------- generators
KINDS = ["C", "F", "csr", "csc", "coo", "dia", "linop", "matvec", "ham", "qop"]


@st.composite
def operators(draw, small=False):
    how = draw(st.sampled_from(["random", "random", "levels", "path"]))
    n = draw(st.integers(2, 12 if small else 40))
    d = draw(st.integers(1, 8))
    prec = draw(st.sampled_from(["float64", "complex128", "float64", "complex128", "float32", "complex64"]))
    return {"how": how, "n": n, "d": d, "seed": draw(st.integers(0, 2**31 - 1)), "dt": prec,
            "vdt": draw(st.sampled_from(["float64", "complex128", "float32", "complex64"] if prec in ("float32", "complex64") else ["float64", "complex128"])),
            "sparse": draw(st.booleans()), "shift": draw(st.sampled_from([0, 0, 1, -2, 0.5])), "norm": draw(st.sampled_from([1, 1, 2, 0.01, 30])),
            "m": draw(st.integers(1, 14)), "kind": draw(st.sampled_from(KINDS))}


@st.composite
def basis_case(draw):
    c = draw(operators())
    c.update(ortho=draw(st.booleans()), strided=draw(st.booleans()), copy=draw(st.booleans()))
    return c


@st.composite
def method_case(draw):
    c = draw(operators())
    c.update(src=draw(st.sampled_from(["full", "ortho", "iter", "list"])), meth=draw(st.sampled_from(["comb", "expm", "ftlm", "ltlm"])),
             seed2=draw(st.integers(0, 2**31 - 1)), cc=draw(st.booleans()), clist=draw(st.booleans()),
             a=draw(st.lists(st.floats(-2, 2).map(lambda x: round(x, 3)), min_size=2, max_size=2)), ac=draw(st.booleans()),
             beta=draw(st.lists(st.floats(0, 2).map(lambda x: round(x, 3)), min_size=6, max_size=6)), bshape=draw(st.integers(0, 3)), blist=draw(st.booleans()),
             obs=draw(st.lists(st.tuples(st.sampled_from(["A", "B", "long name"]), st.sampled_from(KINDS), st.sampled_from(list(DT)), st.booleans()).map(list),
                               min_size=1, max_size=2, unique_by=lambda x: x[0])))
    return c


def trace_case():
    return st.fixed_dictionaries({"seed": st.integers(0, 2**31 - 1), "n": st.integers(2, 9), "d": st.integers(1, 5), "c": st.booleans(), "it": st.booleans(),
                                  "ft": st.booleans(), "gap": st.sampled_from([0.5, 1, 1.5]), "beta": st.lists(st.floats(0, 1.5).map(lambda x: round(x, 3)), min_size=1, max_size=3)})


FAMILIES = [
    Family("basis", basis_case, run_basis, 4000),
    Family("methods", method_case, run_methods, 5000),
    Family("trace", trace_case, run_trace, 600),
]
