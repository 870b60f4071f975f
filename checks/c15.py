"""C15: the matrix-free operator."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, hams, ref, symm
from checks import c02, c03, c04, c05
from vf import Family, Reject, check, fail

ID = "C15"
TECHNIQUE = "property-based testing: random bases, blocks, operator lists, diagonals and histories of operations on matrix-free operators against the assembled matrix"
LEVEL_NOTE = ("sampled, not exhaustive: blocks of up to about 300 states of the chain and general classes, histories of up to eight operations on up to six objects; "
              "the assembled matrix is QuSpin's own (decided by C01 to C03); tolerances scaled with dtype and magnitude")

RULE = "cases: a basis, an operator list, an optional diagonal, a history of operations and queries; non-trivial: at least two states and a matrix that is not zero"
DT = {"float64": np.float64, "complex128": np.complex128, "float32": np.float32, "complex64": np.complex64}


def eps(*dts):
    return max(np.finfo(np.dtype(d)).eps for d in dts)


def arr(V, layout):
    if layout == "F":
        return np.asfortranarray(V)
    if layout == "strided":
        b = np.zeros(tuple(2 * s for s in V.shape), V.dtype)
        b[tuple(slice(None, None, 2) for _ in V.shape)] = V
        return b[tuple(slice(None, None, 2) for _ in V.shape)]
    return V


def run(case):
    from quspin.operators import hamiltonian, quantum_LinearOperator, isquantum_LinearOperator

    spec = case["basis"]
    gens = c04.ops_of(spec)
    static = case["static"]
    if case["herm"]:
        static = gen.hermitian_closure(spec, static)
    try:
        static = symm.symmetrise(spec, static, gens) if gens else static
    except symm.TooLarge:
        raise Reject("large group")
    b = c04.build(spec, "plain")
    n = b.Ns
    if n == 0 or n > 300:
        return ["empty"], False
    cx = case["dtype"].startswith("c")
    if not cx and not (c05.is_real(spec) and all("y" not in s for s, _ in static)):
        cx = True
    dt = np.dtype(case["dtype"]) if case["dtype"].startswith("c") == cx else np.dtype({"float64": "complex128", "float32": "complex64"}[case["dtype"]])
    ql = gen.q_list(static)
    if not cx:
        ql = [[s, [[np.real(c[0])] + c[1:] for c in cs]] for s, cs in ql]
    M = hamiltonian(ql, [], basis=b, dtype=dt.type, **gen.NOCHECK).toarray().astype(complex)
    kw = {}
    diag = None
    if case["diag"]:
        diag = gen.vec([s + 1 for s in case["seeds"]], n, cx and not case["herm"]).astype(dt)
        kw["diagonal"] = diag
        M = M + np.diag(diag)
        if case["diagcopy"]:
            kw["copy"] = True
    if case.get("byN") and spec["kind"] == "spin1d" and spec["twoS"] == 1 and not gens and spec.get("pcon") is None:
        # the default basis of a chain
        O = quantum_LinearOperator(tuple(ql) if case["diagcopy"] else ql, N=spec["N"], pauli=spec["pauli"], dtype=dt.type, **kw, **gen.NOCHECK)
        labels0 = {"byN"}
    else:
        O = quantum_LinearOperator(ql, basis=b, dtype=dt.type, **kw, **gen.NOCHECK)
        labels0 = set()
    keep_diag = None if diag is None else diag.copy()
    keep_ql = [[s, [list(c) for c in cs]] for s, cs in ql]
    objs = [[O, M, dt]]
    labels = {spec["kind"], dt.name, "blocks" if gens else "noblocks"} | labels0
    v0 = gen.vec(case["seeds"], n, True)
    v0r = v0.real.copy()
    e0 = [eps(dt)]

    def close(a, W, scale, e, what):
        a, W = np.asarray(a), np.asarray(W)
        check(a.shape == W.shape, lambda: "%s: shape %s instead of %s" % (what, a.shape, W.shape))
        d = np.abs(a - W).max(initial=0)
        check(np.isfinite(a).all() and d <= 300 * e * max(1.0, scale) * (1 + np.sqrt(n)), lambda: "%s: differs by %.3g (scale %.3g)" % (what, d, scale))

    def size(M):
        return np.abs(M).sum(axis=0).max(initial=0) + np.abs(M).sum(axis=1).max(initial=0) + big[0]

    big = [sum(abs(gen.cplx(c[0])) for _, cs in static for c in cs)]

    def verify(what):
        for i, (O, M, d) in enumerate(objs):
            check(O.shape == (n, n), "shape")
            check(np.dtype(O.dtype) == d, lambda: "%s: operator %d has dtype %s instead of %s" % (what, i, O.dtype, d))
            close(O.matvec(v0r), M @ v0r, size(M) * 3, e0[0], "%s: product of operator %d" % (what, i))
        if keep_diag is not None:
            check(np.array_equal(diag, keep_diag), "%s changed the diagonal given by the user" % what)
        check([[s, [list(c) for c in cs]] for s, cs in ql] == keep_ql, "%s changed the operator list given by the user" % what)

    verify("construction")
    check(isquantum_LinearOperator(O) and O.Ns == n and O.get_shape == (n, n) and O.ndim == 2, "attributes")
    for step in case["steps"]:
        how = step["how"]
        i, j = step["i"] % len(objs), step["j"] % len(objs)
        O, M, d = objs[i]
        P, Q, f = objs[j]
        native = isquantum_LinearOperator(O)
        s = gen.cplx(step["s"])
        s = s if s.imag else s.real
        if step["stype"] == "np":
            s = np.complex128(s) if isinstance(s, complex) else np.float64(s)
        elif step["stype"] == "int":
            s = int(np.real(s)) or 2
        sd = np.result_type(d, np.complex64 if np.iscomplexobj(s) else np.float32)
        vt = np.dtype(step["vdt"])
        k = step["k"]
        shape = {"vector": (n,), "column": (n, 1), "matrix": (n, k), "square": (n, n)}[step["shape"]]
        if shape == (n, n) and n > 40:
            shape = (n, k)
        V = gen.vec(step["seeds"], int(np.prod(shape)), vt.kind == "c").reshape(shape).astype(vt)
        e = max(e0[0], eps(vt))
        labels.add(how)
        what = how + " on " + step["shape"]
        if how in ("dot", "mul_array", "rmul_array", "matvec", "out", "call"):
            X = arr(V, step["layout"])
            K = X.copy()
            if how == "dot":
                a = s if (np.iscomplexobj(s) or True) else s
                r = O.dot(X, a=a) if native and step["c"] else O.dot(X)
                W = (a if native and step["c"] else 1) * (M @ V)
            elif how == "mul_array":
                r, W = (O * X if step["c"] else O @ X), M @ V
            elif how == "call":
                r, W = O(X), M @ V
            elif how == "rmul_array":
                if not native:
                    continue
                XT = X.T if X.ndim == 2 else X
                r, W = (XT * O if step["c"] else XT @ O), V.T @ M
            elif how == "matvec":
                if X.ndim == 1:
                    r, W = (O.matvec(X), M @ V) if step["c"] else (O.rmatvec(X), M.conj().T @ V)
                else:
                    r, W = (O.matmat(X), M @ V) if step["c"] else (O.rmatmat(X), M.conj().T @ V)
            else:
                if not native:
                    continue
                rdt = np.result_type(d, vt)
                a = s if rdt.kind == "c" or not np.iscomplexobj(s) else abs(s)
                out = np.full(shape, 3, dtype=rdt)
                r = O.dot(X, out=out, a=a)
                W = a * (M @ V)
                close(out, W, size(M) * 3 * max(1, abs(a)), e, what + ": the array given as out")
            close(r, W, size(M) * 3 * max(1, abs(s)), e, what)
            if native and how != "dot":
                check(r.dtype == np.result_type(d, vt), lambda: "%s: dtype %s from %s and %s" % (what, r.dtype, d, vt))
            check(np.array_equal(X, K), what + " changed the state")
        elif how == "sparse":
            if not native:
                continue
            Vs = (V.reshape(n, -1) * (np.abs(V.reshape(n, -1)) > 0.4))
            S = sp.csr_matrix(Vs) if step["c"] else sp.csc_matrix(Vs)
            r = O * S if step["layout"] == "C" else O.dot(S)
            check(sp.issparse(r), "the product with a sparse matrix is not sparse")
            close(r.toarray(), M @ Vs, size(M) * 3, e, "sparse product")
        elif how == "ham":
            if not native or n > 40:
                continue
            A = gen.matrix(step["seeds"], n, complex_=True)
            B = gen.matrix([x + 2 for x in step["seeds"]], n, complex_=False)
            fn, args = hams.DRIVES[0]
            H = hamiltonian([A if step["c"] else sp.csr_matrix(A)], [[B, fn, list(args)]], dtype=np.complex128)
            r = O * H
            for t in (0.3, -2.2):
                close(r.toarray(time=t), M @ (A + B * fn(t, *args)), size(M) * 3 * n, e, "product with a hamiltonian")
        elif how == "query":
            if not native:
                continue
            single = V.ndim == 1 or V.shape[1] == 1
            pure = single or V.shape[0] != V.shape[1] or step["c"]
            kw = {"enforce_pure": True} if step["c"] else {}
            X = V.reshape(n, -1).astype(complex)
            Y = sp.csr_matrix(V) if V.ndim == 2 and step["layout"] == "F" else V
            W1 = np.einsum("ij,ij->j", X.conj(), M @ X) if pure else np.trace(M @ X)
            close(np.squeeze(O.expt_value(Y, **kw)), np.squeeze(W1), size(M) * 5 * n * (n if not pure else 1), e, "expt_value")
            if case["herm"] and np.allclose(M, M.conj().T, atol=1e3 * e):
                W2 = np.einsum("ij,ij->j", X.conj(), M @ M @ X) if pure else np.trace(M @ M @ X)
                close(np.squeeze(O.quant_fluct(Y, **kw)), np.squeeze(W2 - W1 ** 2), (size(M) * 5 * n) ** 2 * (n if not pure else 1), e, "quant_fluct")
            Z = gen.vec([x + 3 for x in step["seeds"]], int(np.prod(shape)), vt.kind == "c").reshape(shape).astype(vt)
            dg = step["c"] and V.ndim == 2
            W = np.asarray(Z.conj().T @ (M @ V))
            Zs = sp.csr_matrix(Z) if Z.ndim == 2 and step["stype"] == "np" else Z
            r = O.matrix_ele(Zs, Y, **({"diagonal": True} if dg else {}))
            close(r.toarray() if sp.issparse(r) else r, W.diagonal() if dg else W, size(M) * 5 * n, e, "matrix_ele")
        elif how == "eigsh":
            if not native or n < 4 or not np.allclose(M, M.conj().T, atol=1e3 * e0[0]) or e0[0] > 1e-10:
                continue
            E = np.linalg.eigvalsh(M)
            if np.abs(M).max() == 0:
                continue
            w, X = O.eigsh(k=1, which="LA", v0=(v0 if d.kind == "c" else v0r) + 0.37, maxiter=50000)
            close(w, E[-1:], size(M), 1e-10, "eigsh")
            close(M @ X, X * w, size(M), 1e-7, "eigsh: eigenvector")
        elif how == "diagonal":
            if not native:
                continue
            g = O.diagonal
            off = M - (np.diag(g) if g is not None else 0)
            if g is not None:
                try:
                    g[0] = 5
                    fail("the diagonal can be written to")
                except ValueError:
                    pass
            if step["c"] and all(isquantum_LinearOperator(x[0]) for x in objs):
                nd = gen.vec(step["seeds"], n, d.kind == "c").astype(d)
                O.set_diagonal(nd if step["layout"] != "F" else list(nd), **({} if step["stype"] == "np" else {"copy": True}))
                objs[i] = [O, off + np.diag(nd), d]
        elif how in ("mul", "rmul", "div", "neg"):
            if how == "neg":
                s = -1
                sd = d
            new = O * s if how == "mul" else s * O if how == "rmul" else O / s if how == "div" else -O
            c = 1 / s if how == "div" else s
            if isquantum_LinearOperator(new):
                check(np.dtype(new.dtype).kind == sd.kind, lambda: "%s of %s by %r gives %s" % (how, d, s, new.dtype))
            objs.append([new, c * M, np.dtype(new.dtype)])
        elif how == "imul":
            if not native or any(not isquantum_LinearOperator(x[0]) for x in objs):
                continue  # scipy's sums and products refer to their parts
            O *= s
            objs[i] = [O, s * M, np.dtype(O.dtype)]
            check(np.dtype(O.dtype).kind == sd.kind, lambda: "imul of %s by %r gives %s" % (d, s, O.dtype))
        elif how == "T" and native:
            objs.append([O.T if step["c"] else O.transpose(copy=step["layout"] == "C"), M.T, d])
        elif how == "H":
            objs.append([O.H if step["c"] or not native else O.getH(copy=step["layout"] == "C"), M.conj().T, d])
        elif how == "conj" and native:
            objs.append([O.conj() if step["c"] else O.conjugate(), M.conj(), d])
        elif how == "copy" and native:
            objs.append([O.copy(), M, d])
        elif how in ("add", "sub"):
            new = O + P if how == "add" else O - P
            objs.append([new, M + Q if how == "add" else M - Q, np.dtype(new.dtype)])
        elif how == "prod":
            new = O * P if step["c"] else O.dot(P)
            big[0] = max(big[0], size(M) * size(Q))
            objs.append([new, M @ Q, np.dtype(new.dtype)])
        e0[0] = max(e0[0], max(eps(x[2]) for x in objs))
        verify(how)
        if len(objs) > 6 or big[0] > 1e4:
            break
    return sorted(labels), n > 1 and np.abs(objs[0][1]).max() > 0


HOW = ["dot", "mul_array", "rmul_array", "matvec", "out", "out", "call", "sparse", "sparse", "ham", "query", "query", "eigsh", "diagonal", "diagonal",
       "mul", "rmul", "div", "neg", "imul", "T", "T", "H", "H", "conj", "conj", "copy", "add", "sub", "prod"]


@st.composite
def cases(draw):
    spec = draw(c04.cases())["basis"]
    conserve = (spec.get("pcon") is not None and draw(st.integers(0, 3)) > 0) or "blocks" in spec or "maps" in spec
    if spec.get("docc") is False:
        conserve = True
    chars = gen.op_chars(spec)
    if "maps" in spec:
        chars = c03.chars_of(spec, False)
    elif "blocks" in spec and any(any(g[1]) for g in c02.generators(spec).values()):
        chars = chars.replace("n", "")
        if spec.get("sps", 2) > 2:
            chars = "Iz"
    if "+" not in chars:
        conserve = False
    dt = draw(st.sampled_from(list(DT)))
    if not dt.startswith("c"):
        chars = chars.replace("y", "")
    static = draw(gen.op_lists(spec, conserve=conserve, maxlen=3, maxterms=3, maxcoup=2, complex_=dt.startswith("c"), chars=chars))
    steps = draw(st.lists(st.fixed_dictionaries({
        "how": st.sampled_from(HOW), "i": st.integers(0, 5), "j": st.integers(0, 5), "s": gen.amplitudes(True), "stype": st.sampled_from(["py", "np", "int"]),
        "vdt": st.sampled_from(list(DT)), "c": st.booleans(), "k": st.integers(1, 3), "shape": st.sampled_from(["vector", "column", "matrix", "square"]),
        "layout": st.sampled_from(["C", "F", "strided"]), "seeds": gen.seeds}), min_size=1, max_size=8))
    return {"basis": spec, "static": static, "herm": draw(st.booleans()), "dtype": dt, "diag": draw(st.booleans()), "diagcopy": draw(st.booleans()), "byN": draw(st.booleans()),
            "seeds": draw(gen.seeds), "steps": steps}


FAMILIES = [
    Family("history", cases, run, 6000, 100000),
]
