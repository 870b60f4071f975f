"""C16: the exponential-operator object."""
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, hams
from checks import c14
from vf import Family, check, fail

ID = "C16"
TECHNIQUE = "property-based testing: random operators, coefficients, grids and histories of changes against scipy's dense matrix exponential of the reference operator"
LEVEL_NOTE = ("sampled, not exhaustive: dimensions 1 to 16, exponents of 1-norm up to about 6, grids of 2 to 7 points in both directions, histories up to eight "
              "changes; tolerances scaled with dtype and growth; trusts scipy.linalg.expm on small dense matrices")

RULE = "cases: an operator with coefficient and grid, a history of changes, an action with its operand; non-trivial: the exponential differs from the identity"
DT = {"float64": np.float64, "complex128": np.complex128, "float32": np.float32, "complex64": np.complex64}


class Model:
    def __init__(self, val, a, grid, iterate):
        self.val, self.a, self.grid, self.iterate = val, a, grid, iterate

    def copy(self):
        return Model(self.val, self.a, self.grid, self.iterate)

    def points(self):
        if self.grid is None:
            return [1.0]
        s, e, n, ep = self.grid
        return list(np.linspace(s, e, 50 if n is None else n, endpoint=True if ep is None else ep))

    def U(self, t, x=1.0, shift=None):
        M = self.val(t)
        if shift is not None:
            M = M + shift * np.eye(len(M))
        return la.expm(self.a * x * M)


def pars_at(case, t):
    """parameters of the quantum_operator, varied with t"""
    return {k: float(v) * np.cos(3 * t) for k, v in case["pars"].items() if k in [x for x, _ in case["qop"]["keys"]]}


def make(case):
    from quspin.operators import exp_op, hamiltonian

    n = case["n"]
    basis = hams.basis(case["L"]) if case["L"] else None
    kind = case["kind"]
    if kind == "ham":
        O, val = hams.build(case["ham"], n, basis)
        e = np.finfo(case["ham"]["dtype"]).eps
        dyn = bool(case["ham"]["dynamic"] or case["ham"].get("odynamic"))
    elif kind == "qop":
        O, M, _ = c14.build(case["qop"], n, case["L"] or None)
        val = lambda t: c14.total(M, pars_at(case, t), n)
        e = np.finfo(case["qop"]["dtype"]).eps
        dyn = True
    else:
        dt = DT[case["vdt"]]
        A = hams.raw({"seeds": case["seeds"] + [3], "c": case["vdt"].startswith("c"), "d": case["d"]}, n)
        if kind == "herm":
            A, kind = hams.herm(A), "dense"
        A = A if dt in (np.complex64, np.complex128) else A.real
        O = A.tolist() if kind == "list" else hams.as_fmt(A, kind, dt)
        val = lambda t: A.astype(complex)
        e = np.finfo(dt).eps if kind != "list" else 1e-16
        dyn = False
    return O, val, max(e, 1e-16), dyn


def size(val):
    return max(np.abs(val(t)).sum(axis=0).max(initial=0) for t in hams.TIMES + [0.0])


def tame(a, val, points=(1.0,), shift=None):
    """the coefficient, reduced where the exponent would get large"""
    g = (size(val) + (abs(shift) if shift else 0)) * max(np.abs(points)) * abs(a)
    return a * min(1.0, 4.0 / g) if g > 0 else a


def arr(V, layout):
    if layout == "F":
        return np.asfortranarray(V)
    if layout == "strided":
        b = np.zeros(tuple(2 * s for s in V.shape), V.dtype)
        b[tuple(slice(None, None, 2) for _ in V.shape)] = V
        return b[tuple(slice(None, None, 2) for _ in V.shape)]
    return V


def dense(x):
    return x.toarray() if sp.issparse(x) else np.asarray(x)


def act(E, m, act_, case, e, dyn):
    """one action of the object against the model"""
    from quspin.operators import ishamiltonian

    n = case["n"]
    how, opd = act_["how"], act_["operand"]
    k = act_["k"]
    t = act_["t"] if dyn else 0
    kw = {} if not dyn else {"pars": pars_at(case, t)} if case["kind"] == "qop" else {"time": t}
    shift = gen.cplx(act_["shift"]) if act_["shift"] is not None else None
    # a complex shift of a real operator, a real coefficient with complex shift: all admissible
    growth = la.expm(np.abs(m.a) * max(np.abs(m.points())) * (np.abs(m.val(t)) + (abs(shift) if shift else 0) * np.eye(n)))
    growth = np.abs(growth).sum(axis=0).max() if n else 1
    tol = 300 * e * max(1.0, growth) ** (2 if how == "sandwich" else 1) * n * 6

    def close(x, R, what):
        check(x.shape == R.shape, lambda: "%s: shape %s instead of %s" % (what, x.shape, R.shape))
        d = np.abs(x - R).max(initial=0)
        check(np.isfinite(d) and d <= tol, lambda: "%s: differs by %.3g (tolerance %.3g)" % (what, d, tol))

    if how == "get_mat":
        x = E.get_mat(dense=act_["dense"], **kw)
        check(not act_["dense"] or not sp.issparse(x), "get_mat(dense=True) is sparse")
        close(dense(x), m.U(t), "get_mat")
        return
    if opd == "vector" and how == "sandwich":
        opd = "square"
    shape = {"vector": (n,), "square": (n, n)}.get(opd, (k, n) if how == "rdot" else (n, k))
    if how == "sandwich" or opd in ("ham", "square"):
        shape = (n, n)
    dt = DT[act_["vdt"]]
    if opd == "ham":
        X, xval = hams.build(act_["ham"], n, None)
        tol *= max(1.0, size(xval)) * n
        tol = max(tol, tol / e * np.finfo(act_["ham"]["dtype"]).eps)
    else:
        V = gen.vec(act_["seeds"], int(np.prod(shape)), act_["vdt"].startswith("c")).reshape(shape).astype(dt)
        tol = max(tol, tol / e * np.finfo(dt).eps)
        if opd in ("csr", "csc"):
            V = V * (np.abs(V) > 0.4)
            X = getattr(sp, opd + "_matrix")(V)
        elif opd == "list":
            X = V.tolist()
        else:
            X = arr(V, act_["layout"])
        keep = X.copy()
        xval = lambda tt: V.astype(complex)

    def ref_(x, tt):
        U = m.U(t, x, shift)
        C = xval(tt)
        return U @ C if how == "dot" else (C @ U if how == "rdot" else U.conj().T @ C @ U)

    if shift is not None:
        kw["shift"] = shift if act_["shift_complex"] or shift.imag else shift.real
    r = getattr(E, how)(X, **kw)
    pts = m.points()
    what = "%s on %s" % (how, opd)
    if m.grid is None:
        items = [r]
    elif m.iterate:
        check(not isinstance(r, np.ndarray) and hasattr(r, "__next__"), lambda: "%s: iterate does not give an iterator but %s" % (what, type(r).__name__))
        items = []
        spoil = opd != "ham" and sum(act_["seeds"]) % 3 != 0  # what the user does with a result does not matter to the next one
        for x in r:
            items.append(x.copy() if spoil else x)
            if spoil:
                (x.data if sp.issparse(x) else x)[...] = 17
            check(len(items) <= len(pts), "%s: the iterator goes on after the grid's end" % what)
        what += ", iterated"
    elif opd in ("csr", "csc", "ham"):
        check(isinstance(r, np.ndarray) or isinstance(r, list), "%s: type %s" % (what, type(r).__name__))
        if opd != "ham" and how == "sandwich":
            items = [r[..., i] for i in range(r.shape[-1])] if r.ndim == 3 else list(r)
        else:
            items = list(r)
    else:
        # documented axis order: 1-D operands (n, num); 2-D: rdot (num, k, n), dot (k, n, num), sandwich (n, n, num)
        axis = 0 if how == "rdot" else -1
        items = [np.take(r, i, axis=axis) for i in range(r.shape[axis])]
        if how == "dot" and len(shape) == 2:
            items = [x.T for x in items]
    check(len(items) == len(pts), lambda: "%s: %d results for %d grid points" % (what, len(items), len(pts)))
    tts = (0.3, -2.2) if opd == "ham" else (0,)
    for i, (x, p) in enumerate(zip(items, pts)):
        for tt in tts:
            if opd == "ham":
                check(ishamiltonian(x), lambda: "%s gives a %s" % (what, type(x).__name__))
                close(x.toarray(time=tt), ref_(p, tt), what + " (point %d)" % i)
                v = gen.vec([5], n)
                d = np.abs(x.dot(v, time=tt) - ref_(p, tt) @ v).max(initial=0)
                check(d <= 5 * tol * n, lambda: "%s: the product's action on a vector is off by %.3g" % (what, d))
            else:
                close(dense(x), ref_(p, tt), what + " (point %d)" % i)
    if opd != "ham":
        same = (keep != X).nnz == 0 if sp.issparse(X) else (keep == X if opd == "list" else np.array_equal(keep, X))
        check(same, "%s changed its operand" % what)
    else:
        d = np.abs(X.toarray(time=0.3) - xval(0.3)).max(initial=0)
        check(d <= 100 * np.finfo(act_["ham"]["dtype"]).eps * max(1, size(xval)), "%s changed its operand" % what)


def attributes(E, m, n, dyn):
    check(E.Ns == n and tuple(E.get_shape) == (n, n) and E.ndim == 2, "Ns, shape or ndim")
    check(abs(E.a - m.a) <= 1e-14 * abs(m.a), lambda: "a=%s instead of %s" % (E.a, m.a))
    check(E.iterate is (m.iterate and m.grid is not None), lambda: "iterate=%s instead of %s" % (E.iterate, m.iterate))
    if m.grid is None:
        check(E.grid is None and E.step is None, "a grid where there is none")
    else:
        p = np.array(m.points())
        check(E.grid is not None and E.grid.shape == p.shape and np.allclose(E.grid, p, rtol=0, atol=1e-13 * np.abs(p).max()), "grid")
        check(abs(E.step - (p[1] - p[0])) < 1e-13, "step")


def run(case):
    from quspin.operators import exp_op, isexp_op

    n = case["n"]
    O, val, e, dyn = make(case)
    grid, iterate = case["grid"], case["iterate"] and case["grid"] is not None
    allpts = [1.0]
    for o in case["ops"]:
        if o[0] == "grid":
            allpts += [o[1][0], o[1][1]]
    if grid:
        allpts += grid[:2]
    sh = max([0.0] + [abs(gen.cplx(x["shift"])) for x in case["acts"] if x["shift"] is not None])
    a = tame(gen.cplx(case["a"]), val, allpts, sh)
    kw = {}
    if grid is not None:
        kw.update(start=grid[0], stop=grid[1])
        if grid[2] is not None:
            kw["num"] = grid[2]
        if grid[3] is not None:
            kw["endpoint"] = grid[3]
    if iterate:
        kw["iterate"] = True
    E = exp_op(O, a=a, **kw)
    check(isexp_op(E) and not isexp_op(O), "isexp_op")
    entries = [(E, Model(val, a, tuple(grid) if grid else None, iterate))]
    labels = [case["kind"]]
    hist = ["new"]
    try:
        for o in case["ops"]:
            name = o[0]
            labels.append(name)
            hist.append(name)
            i = o[2] % len(entries)
            E, m = entries[i]
            if name == "a":
                x = tame(gen.cplx(o[1]), val, allpts, sh)
                E.set_a(x)
                m.a = x
            elif name == "grid":
                s, f, num, ep = o[1]
                kw = {}
                if num is not None:
                    kw["num"] = num
                if ep is not None:
                    kw["endpoint"] = ep
                E.set_grid(s, f, **kw)
                m.grid = (s, f, num, ep)
            elif name == "unset":
                E.unset_grid()
                m.grid, m.iterate = None, False
            elif name == "iterate":
                if o[1] and m.grid is None:
                    try:
                        E.set_iterate(True)
                    except ValueError:
                        pass
                    else:
                        fail("set_iterate(True) is accepted without a grid")
                else:
                    E.set_iterate(o[1])
                    m.iterate = o[1]
            elif name == "act":
                A = case["acts"][o[1] % len(case["acts"])]
                act(E, m, A, case, e, dyn)
                labels.append(A["how"] + " " + A["operand"])
            else:
                m2 = m.copy()
                old = m.val
                if name in ("T", "Tcopy"):
                    F = E.T if name == "T" else E.transpose(copy=True)
                    m2.val = lambda t, old=old: old(t).T
                elif name == "conj":
                    F = E.conj()
                    m2.val = lambda t, old=old: old(t).conj()
                    m2.a = np.conj(m.a)
                elif name in ("H", "Hcopy"):
                    F = E.H if name == "H" else E.getH(copy=True)
                    m2.val = lambda t, old=old: old(t).conj().T
                    m2.a = np.conj(m.a)
                else:
                    F = E.copy()
                entries.append((F, m2))
        A = case["acts"][0]
        for j, (E, m) in enumerate(entries):
            attributes(E, m, n, dyn)
            if j == len(entries) - 1:
                act(E, m, A, case, e, dyn)
                labels.append(A["how"] + " " + A["operand"] + (" grid" if m.grid else "") + (" iterate" if m.iterate else ""))
            act(E, m, {"how": "get_mat", "dense": True, "operand": "", "k": 1, "t": 0.3, "shift": None}, case, e, dyn)
    except Exception as ex:
        from vf import Violation

        if isinstance(ex, Violation):
            raise Violation("after %s: %s" % (hist, ex))
        raise
    U = entries[-1][1].U(0.3)
    return labels, bool(np.abs(U - np.eye(n)).max(initial=0) > 1e-6)


grids = st.one_of(st.none(), st.tuples(st.sampled_from([0, 0.0, -0.5, 0.4, 1]), st.sampled_from([1.5, 2, 0.7, -1.0]),
                                       st.sampled_from([None, 2, 3, 5, 7]), st.sampled_from([None, True, False])).map(list))


@st.composite
def acts(draw):
    opd = draw(st.sampled_from(["vector", "matrix", "square", "csr", "csc", "ham", "vector", "matrix", "list"]))
    A = {"how": draw(st.sampled_from(["dot", "rdot", "sandwich", "get_mat"])), "operand": opd, "k": draw(st.integers(1, 4)), "seeds": draw(gen.seeds),
         "vdt": draw(st.sampled_from(list(DT))), "layout": draw(st.sampled_from(["C", "F", "strided"])), "t": draw(st.sampled_from([0.3, 1.7, -2.2, 0])),
         "shift": draw(st.one_of(st.none(), gen.amplitudes(True))), "shift_complex": draw(st.booleans()), "dense": draw(st.booleans())}
    if opd == "ham":
        A["ham"] = draw(hams.ham_specs(L=None, maxdyn=2))
    return A


@st.composite
def cases(draw):
    L = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4]))
    n = 2**L if L else draw(st.sampled_from([1, 2, 3, 5, 6]))
    c = {"L": L, "n": n, "kind": draw(st.sampled_from(["ham", "ham", "ham", "qop", "qop", "csr", "csc", "dia", "coo", "dense", "matrix", "list", "herm"])), "seeds": draw(gen.seeds),
         "vdt": draw(st.sampled_from(list(DT))), "d": draw(st.sampled_from([1, 3, 10])), "a": draw(st.one_of(st.just(1.0), gen.amplitudes(True))),
         "grid": draw(grids), "iterate": draw(st.booleans()), "acts": draw(st.lists(acts(), min_size=1, max_size=2))}
    if c["kind"] == "ham":
        c["ham"] = draw(hams.ham_specs(L=L or None))
    elif c["kind"] == "qop":
        c["qop"] = draw(c14.op_specs(L or None))
        c["pars"] = draw(st.dictionaries(st.sampled_from(c14.KEYS), st.sampled_from([0.5, -1.0, 1.5, 0.0, 2]), max_size=4))
    op = st.one_of(
        st.tuples(st.just("a"), gen.amplitudes(True), st.integers(0, 5)), st.tuples(st.just("grid"), grids.filter(lambda g: g is not None), st.integers(0, 5)),
        st.tuples(st.sampled_from(["unset", "T", "Tcopy", "conj", "H", "Hcopy", "copy"]), st.none(), st.integers(0, 5)),
        st.tuples(st.just("iterate"), st.booleans(), st.integers(0, 5)), st.tuples(st.just("act"), st.integers(0, 1), st.integers(0, 5)))
    c["ops"] = draw(st.lists(op.map(list), max_size=draw(st.sampled_from([0, 0, 3, 8]))))
    return c


FAMILIES = [Family("exponential", cases, run, 3000, 50000)]
