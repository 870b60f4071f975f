"""C14: the parametrised operator."""
import copy as copymod

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, hams, ref
from vf import Family, check, fail

ID = "C14"
TECHNIQUE = "property-based testing: random dictionaries of matrices and operator lists with random parameters, and random histories of arithmetic and conversions, against a model holding the dense component matrices"
LEVEL_NOTE = ("sampled, not exhaustive: dimensions 1 to 16, up to four keys with up to three parts each, all formats and dtypes, histories up to eight operations on up to six "
              "objects; tolerances scaled with dtype and magnitude; trusts numpy and scipy.linalg")

RULE = "cases: a dictionary with parameters and a query, or a history; non-trivial: at least two keys, or a parameter different from one"
DT = {"float64": np.float64, "complex128": np.complex128, "float32": np.float32, "complex64": np.complex64}
KEYS = ["J", "h", "sparse_x", "dense_y"]


def eps(*dts):
    return max(np.finfo(np.dtype(d)).eps for d in dts)


def close(a, b, scale, e, what):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, lambda: "%s: shape %s instead of %s" % (what, a.shape, b.shape))
    check(a.dtype.kind in "fc", lambda: "%s: dtype %s" % (what, a.dtype))
    d = np.abs(a - b).max(initial=0)
    check(np.isfinite(a).all() and d <= 500 * e * max(1.0, scale), lambda: "%s: differs by %.3g (scale %.3g)" % (what, d, scale))


# ------------------------------------------------------------ construction
def part_dtype(part, dt):
    """the dtype the user's matrix has: the operator's, or a narrower one"""
    if not part["narrow"]:
        return dt
    return {"float64": "float32", "complex128": "float64", "complex64": "float32", "float32": "float32"}[dt]


def build(spec, n, L):
    """(operator, model {key: dense matrix}, user's inputs and copies of them)"""
    from quspin.operators import quantum_operator

    dt = spec["dtype"]
    cx = dt.startswith("complex")
    basis = hams.basis(L) if L else None
    d, M, kept = {}, {}, []
    ops = False
    for key, parts in spec["keys"]:
        lst, A = [], np.zeros((n, n), complex)
        for p in parts:
            if p["kind"] == "op":
                ops = True
                q = gen.q_list([p["op"]])
                if not cx:
                    q = [[s, [[np.real(c[0])] + c[1:] for c in cs]] for s, cs in q]
                m = gen.model_of({"kind": "spin1d", "N": L, "twoS": 1, "pauli": 1})
                A += ref.dense(m.matrix([(s, c[1:], c[0]) for s, cs in q for c in cs], m.all_digits()[::-1]))
                lst += q
            else:
                pd = part_dtype(p, dt)
                B = hams.raw(p, n)
                if spec["herm"]:
                    B = hams.herm(B)
                if not pd.startswith("complex"):
                    B = B.real
                X = hams.as_fmt(B, "dense" if p["fmt"] == "list" and n == 2 else p["fmt"], pd)  # two rows would be an operator string
                kept.append((X, copymod.deepcopy(X)))
                lst.append(X)
                A = A + B
        d[key] = lst
        M[key] = A
    kw = {}
    if ops or (L and spec["basis"]):
        kw["basis"] = basis
    if not ops and (not spec["basis"] or not any(hasattr(x, "shape") for l in d.values() for x in l)):
        kw["shape"] = (n, n)
    if spec["fmts"]:
        kw["matrix_formats"] = {k: f for k, f in spec["fmts"].items() if k in d}
    if spec["copy"] is not None:
        kw["copy"] = spec["copy"]
    O = quantum_operator(d, dtype=DT[dt], **kw, **gen.NOCHECK)
    return O, M, kept


@st.composite
def op_specs(draw, L, herm=False, dts=("float64", "complex128", "complex128", "float32", "complex64")):
    dt = draw(st.sampled_from(dts))
    cx = dt.startswith("complex")
    keys = []
    for key in KEYS[: draw(st.sampled_from([1, 2, 2, 3, 4]))]:
        parts = []
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            if L and draw(st.booleans()):
                bs = {"kind": "spin1d", "N": L, "twoS": 1, "pauli": 1}
                s, ix = draw(gen.op_strings(bs, maxlen=3, chars="I+-xyz" if cx else "I+-xz"))
                e = [s, [[draw(gen.amplitudes(cx))] + ix]]
                for x in gen.hermitian_closure(bs, [e]) if herm else [e]:
                    parts.append({"kind": "op", "op": x})
            else:
                parts.append(dict(draw(hams.mats), kind="mat", fmt=draw(st.sampled_from(hams.FMT)), narrow=draw(st.integers(0, 3)) == 0))
        keys.append([key, parts])
    return {"dtype": dt, "keys": keys, "herm": herm, "basis": draw(st.booleans()),
            "fmts": draw(st.one_of(st.just({}), st.dictionaries(st.sampled_from(KEYS), st.sampled_from(["dia", "csr", "csc", "dense"]), max_size=3))),
            "copy": draw(st.sampled_from([None, True, False]))}


@st.composite
def pars_dicts(draw, cx):
    d = {}
    for k in draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=4)):
        d[k] = [draw(st.sampled_from(["int", "float", "np", "0d"] + (["complex"] if cx else []))), draw(st.sampled_from([0, 1, -1, 2, -3, 1, 2])), draw(st.integers(-3, 3))]
    return d


def pars_of(spec, keys):
    out = {}
    for k, (ty, a, b) in spec.items():
        if k not in keys:
            continue
        out[k] = {"int": a, "float": a + 0.25 * b, "np": np.float64(a - 0.5 * b), "0d": np.array(0.5 * a + b), "complex": a + 0.5j * b}[ty]
    return out


def total(M, pars, n):
    R = np.zeros((n, n), complex)
    for k, A in M.items():
        R = R + (complex(pars[k]) if k in pars else 1.0) * A
    return R


def size(M, pars):
    return sum(np.abs(A).max(initial=0) * max(1, abs(complex(pars.get(k, 1)))) for k, A in M.items()) + 1


def same(x, y):
    if sp.issparse(x):
        return x.dtype == y.dtype and (x != y).nnz == 0
    if isinstance(x, list):
        return x == y
    return x.dtype == y.dtype and np.array_equal(x, y)


def unchanged(O, M, kept, n, dt, what):
    check(np.dtype(O.dtype) == np.dtype(dt), lambda: "%s: the dtype is %s" % (what, O.dtype))
    close(O.toarray(), total(M, {}, n), size(M, {}), eps(dt), what + ": the operator at default parameters afterwards")
    for X, Y in kept:
        check(same(X, Y), "%s changed a matrix the operator was made from" % what)


# ------------------------------------------------------------ queries
def run_query(case):
    n, L = case["n"], case["L"]
    spec = case["op"]
    dt = spec["dtype"]
    O, M, kept = build(spec, n, L)
    pars = pars_of(case["pars"], M)
    before = dict(pars)
    R = total(M, pars, n)
    sc = size(M, pars)
    how = case["how"]
    e = eps(dt)
    labels = [how]
    check(O.shape == (n, n) and O.Ns == n and O.ndim == 2, "shape")
    if how == "convert":
        for name, x in (("tocsr", O.tocsr(pars)), ("tocsc", O.tocsc(pars=pars))):
            check(sp.issparse(x) and x.format == name[2:], lambda: "%s gives %s" % (name, type(x).__name__))
            close(x.toarray(), R, sc, e, name)
        x = O.toarray(pars)
        check(type(x) is np.ndarray, lambda: "toarray gives %s" % type(x).__name__)
        close(x, R, sc, e, "toarray")
        close(O.todense(pars=pars), R, sc, e, "todense")
        for name in ("toarray", "todense"):
            out = np.full((n, n), 3, dtype=DT[dt])
            x = getattr(O, name)(pars, out=out)
            close(x, R, sc, e, name + " with out")
            close(out, R, sc, e, name + ": the array given as out")
        x = O(**pars)
        close(x.toarray() if sp.issparse(x) else x, R, sc, e, "call")
        d = O.diagonal(pars)
        close(d, R.diagonal(), sc, e, "diagonal")
        close(O.trace(pars), R.trace(), sc * n, e, "trace")
        for k, A in M.items():
            x = O.get_operators(k)
            close(x.toarray() if sp.issparse(x) else x, A, sc, e, "get_operators")
        H = O.tohamiltonian(pars)
        check(np.dtype(H.dtype) == np.dtype(dt), "tohamiltonian: dtype")
        close(H.toarray(), R, sc, e, "tohamiltonian")
        dyn = {}
        for i, k in enumerate(M):
            if case["drives"][i] is not None and not (case["drives"][i] >= hams.NREAL and not dt.startswith("c")):
                f, a = hams.DRIVES[case["drives"][i]]
                dyn[k] = (f, list(a))
        if dyn:
            p2 = dict(pars, **dyn)
            keep2 = dict(p2)
            H = O.tohamiltonian(p2)
            check(p2 == keep2, "tohamiltonian changed the parameters")
            for t in hams.TIMES:
                at = {k: (p2[k][0](t, *p2[k][1]) if isinstance(p2[k], tuple) else p2[k]) for k in p2}
                close(H.toarray(time=t), total(M, at, n), size(M, at), e, "tohamiltonian with driven parameters")
        X = O.aslinearoperator(pars)
        v = gen.vec(case["seeds"], n, dt.startswith("c"))
        W = gen.matrix(case["seeds"], n, 3, complex_=dt.startswith("c"))
        close(X.matvec(v), R @ v, sc * n * 4, e, "aslinearoperator.matvec")
        close(X.rmatvec(v), R.conj().T @ v, sc * n * 4, e, "aslinearoperator.rmatvec")
        close(X.matmat(W), R @ W, sc * n * 4, e, "aslinearoperator.matmat")
        labels.append("dynamic" if dyn else "static")
    elif how == "eig":
        E = np.linalg.eigvalsh(R)
        tol = sc * n * 4
        close(O.eigvalsh(pars), E, tol, e, "eigvalsh")
        E1, V = O.eigh(pars)
        close(E1, E, tol, e, "eigh")
        close(R @ V, V * E1, tol, e, "eigh: eigenvectors")
        close(V.conj().T @ V, np.eye(n), n, e, "eigh: orthonormality")
        if n >= 3:
            E2, V = O.eigsh(pars, k=1, which="LA", v0=gen.vec(case["seeds"], n, False) + 0.37, maxiter=20000) if np.abs(R).max() > 0 else (E[-1:], None)
            if V is not None:
                close(E2, E[-1:], tol * 30, e, "eigsh")
                close(R @ V, V * E2, tol * 100, max(e, 1e-9), "eigsh: eigenvector")
    else:
        e = eps(dt, case["vdt"])
        cv = case["vdt"].startswith("c")
        k = case["k"]
        opd = case["operand"]
        vt = DT[case["vdt"]]
        right = how == "rdot"
        shape = {"vector": (n,), "square": (n, n)}.get(opd, (k, n) if right else (n, k))
        V = gen.vec(case["seeds"], int(np.prod(shape)), cv).reshape(shape).astype(vt)
        Vd = V.astype(complex)
        if opd == "sparse":
            V = V * (np.abs(V) > 0.4)
            Vd = V.astype(complex)
            V = getattr(sp, case["sfmt"] + "_matrix")(V)
        elif opd != "list":
            if case["layout"] == "F":
                V = np.asfortranarray(V)
            elif case["layout"] == "strided":
                b = np.zeros(tuple(2 * s for s in V.shape), V.dtype)
                b[tuple(slice(None, None, 2) for _ in V.shape)] = V
                V = b[tuple(slice(None, None, 2) for _ in V.shape)]
        keep = copymod.deepcopy(V)
        kw = {}
        a = gen.cplx(case["a"])
        tol = sc * n * 6 * max(1, abs(a)) * 4
        if how in ("dot", "rdot"):
            if not case["check"]:
                kw["check"] = False
            if a != 1 and (dt.startswith("c") or cv or not a.imag):
                kw["a"] = a if a.imag else a.real
            else:
                a = 1
            W = a * (Vd @ R if right else R @ Vd)
            rdt = np.result_type(vt, DT[dt])
            f = getattr(O, how)
            if case["out"] and opd != "sparse":
                out = np.full(W.shape, 2, dtype=rdt) if case["layout"] != "F" else np.full(W.shape, 2, dtype=rdt, order="F")
                ow = case["overwrite"]
                r = f(V, pars=pars, out=out, overwrite_out=ow, **kw)
                close(r, W + (0 if ow else 2), tol, e, how + " with out")
                close(out, W + (0 if ow else 2), tol, e, how + ": the array given as out")
                labels.append("out")
            else:
                r = f(V, pars=pars, **kw)
                if opd == "sparse":
                    check(sp.issparse(r), "the product with a sparse state is not sparse")
                    r = r.toarray()
                close(r, W, tol, e, how)
            check(r.dtype == rdt, lambda: "%s: dtype %s instead of %s" % (how, r.dtype, rdt))
            if case["tiny"]:  # the result scales with the parameters, however small
                small = 1e-18
                r = f(V, pars={k: pars.get(k, 1) * small for k in M})
                close((r.toarray() if sp.issparse(r) else np.asarray(r)).astype(complex) / small, Vd @ R if right else R @ Vd, tol, e, how + " with tiny parameters")
            if opd != "sparse" and not right:
                if opd == "vector":
                    close(O.matvec(V), total(M, {}, n) @ Vd, tol, e, "matvec")
                    close(O.rmatvec(V), total(M, {}, n).conj().T @ Vd, tol, e, "rmatvec")
                else:
                    close(O.matmat(V), total(M, {}, n) @ Vd, tol, e, "matmat")
        elif how == "matrix_ele":
            k2 = k if case["diagonal"] or opd == "vector" else case["k2"]
            Vl = gen.vec([s + 5 for s in case["seeds"]], int(np.prod(shape)) if k2 == k or len(shape) == 1 or shape[1] != k else n * k2, cv)
            Vl = Vl.reshape(shape if Vl.size == np.prod(shape) else (n, k2)).astype(vt)
            Ld = Vl.astype(complex)
            if (opd == "sparse") != bool(case["enforce"] and Vl.ndim == 2):  # also mixed
                Vl = sp.csr_matrix(Vl)
            diag = case["diagonal"] and opd != "vector"
            r = O.matrix_ele(Vl, V, pars=pars, diagonal=diag)
            W = Ld.conj().T @ R @ Vd
            if diag:
                W = W.diagonal()
            r = r.toarray() if sp.issparse(r) else r
            close(r, W, tol * n * 4, e, "matrix_ele")
        else:
            pure = not (opd == "square" or (opd == "sparse" and shape[0] == shape[1]) or (len(shape) == 2 and shape[0] == shape[1]))
            kw = {}
            if len(shape) == 2 and shape[1] == 1:
                pure = True
            if case["enforce"]:
                kw["enforce_pure"] = True
                pure = True
            r = getattr(O, how)(V, pars=pars, **kw)
            X = Vd if Vd.ndim == 2 else Vd[:, None]
            if pure:
                W1 = np.einsum("ij,ij->j", X.conj(), R @ X)
                W2 = np.einsum("ij,ij->j", X.conj(), R @ R @ X)
            else:
                W1, W2 = np.trace(R @ X), np.trace(R @ R @ X)
            W = W1 if how == "expt_value" else W2 - W1 ** 2
            if how == "quant_fluct":
                tol = tol ** 2
            if sp.issparse(r):
                r = r.toarray()
            r, W = np.squeeze(r), np.squeeze(W)
            close(r, W, max(tol, tol ** 2) * n * 16, e, how)
            labels.append("pure" if pure else "mixed")
        check(same(V, keep), "%s changed the state" % how)
        labels.append(opd)
    check(list(pars) == list(before) and all(pars[k] is before[k] for k in pars), "the query changed the parameters")
    unchanged(O, M, kept, n, dt, how)
    return labels, len(M) > 1 or any(np.any(x != 1) for x in pars.values())


@st.composite
def query_cases(draw):
    how = draw(st.sampled_from(["convert", "convert", "eig", "dot", "dot", "dot", "rdot", "rdot", "expt_value", "expt_value", "quant_fluct", "matrix_ele", "matrix_ele"]))
    herm = how in ("eig", "quant_fluct")
    L = draw(st.sampled_from([None, None, 1, 2, 3]))
    n = 2 ** L if L else draw(st.integers(1, 9))
    op = draw(op_specs(L, herm))
    cx = op["dtype"].startswith("c")
    return {"n": n, "L": L, "op": op, "how": how, "pars": draw(pars_dicts(cx and not herm)), "seeds": draw(gen.seeds), "k": draw(st.integers(1, 4)), "k2": draw(st.integers(1, 4)), "tiny": draw(st.booleans()),
            "vdt": draw(st.sampled_from(list(DT))), "operand": draw(st.sampled_from(["vector", "matrix", "square", "sparse"])), "sfmt": draw(st.sampled_from(["csr", "csc", "coo"])),
            "layout": draw(st.sampled_from(["C", "F", "strided"])), "a": draw(gen.amplitudes(True)), "check": draw(st.booleans()), "out": draw(st.booleans()), "overwrite": draw(st.booleans()),
            "diagonal": draw(st.booleans()), "enforce": draw(st.booleans()), "drives": [draw(st.sampled_from([None, 0, 1, 3, 5, 6])) for _ in range(4)]}


# ------------------------------------------------------------ histories
def castable(a, b):
    return np.can_cast(a, b, casting="same_kind")


def run_history(case):
    """objs: [operator, model, dtype]"""
    n, L = case["n"], case["L"]
    objs, kept = [], []
    for spec in case["ops"]:
        O, M, k = build(spec, n, L)
        objs.append([O, M, np.dtype(spec["dtype"])])
        kept += k
    labels = set()
    lossy = [max(eps(o[2]) for o in objs)]

    def verify(what):
        for i, (O, M, d) in enumerate(objs):
            check(np.dtype(O.dtype) == d, lambda: "%s: operator %d has dtype %s instead of %s" % (what, i, O.dtype, d))
            for pars in ({}, {k: 2 + j for j, k in enumerate(M)}):
                R = total(M, pars, n)
                close(O.toarray(dict(pars)), R, size(M, pars) * 8, lossy[0], "%s: operator %d" % (what, i))
                v = np.arange(1.0, n + 1)
                close(O.dot(v, pars=dict(pars)), R @ v, size(M, pars) * 8 * n * n, lossy[0], "%s: product of operator %d" % (what, i))
            dense = any(not sp.issparse(O.get_operators(k)) for k in M)
            check(bool(O.is_dense) == dense, lambda: "%s: is_dense of operator %d is %s" % (what, i, O.is_dense))
        for X, Y in kept:
            check(same(X, Y), "%s changed a matrix given by the user" % what)

    verify("construction")
    for step in case["steps"]:
        how = step["how"]
        i, j = step["i"] % len(objs), step["j"] % len(objs)
        O, M, d = objs[i]
        P, Q, f = objs[j]
        s = gen.cplx(step["s"])
        s = s if s.imag else s.real
        if step["stype"] == "np":
            s = np.complex128(s) if isinstance(s, complex) else np.float64(s)
        elif step["stype"] == "int":
            s = int(np.real(s)) or 2
        labels.add(how)
        sd = np.result_type(d, np.complex64 if np.iscomplexobj(s) else np.float32)

        def comb(sign, new):
            """the sum of the models; a key that cancels may be dropped"""
            X = dict(M)
            for k, A in Q.items():
                X[k] = X[k] + sign * A if k in X else sign * A
                if np.abs(X[k]).max(initial=0) <= 1e3 * lossy[0] * max(1, np.abs(A).max(initial=0)):
                    try:
                        new.get_operators(k)
                    except KeyError:
                        del X[k]
            return X

        if how in ("add", "sub"):
            new = O + P if how == "add" else O - P
            objs.append([new, comb(1 if how == "add" else -1, new), np.result_type(d, f)])
        elif how in ("iadd", "isub"):
            try:
                keep = O
                if how == "iadd":
                    O += P
                else:
                    O -= P
                check(O is keep, "%s does not work in place" % how)
                check(castable(f, d), "%s of a complex operator to a real one was accepted" % how)
                objs[i] = [O, comb(1 if how == "iadd" else -1, O), d]
            except TypeError as ex:
                if castable(f, d):
                    raise
        elif how in ("mul", "rmul", "div"):
            new = O * s if how == "mul" else s * O if how == "rmul" else O / s
            c = 1 / s if how == "div" else s
            got = np.dtype(new.dtype)
            check(got.kind == sd.kind and got.itemsize >= d.itemsize, lambda: "%s of %s by %r gives %s" % (how, d, s, got))
            objs.append([new, {k: c * A for k, A in M.items()}, got])
        elif how in ("imul", "idiv"):
            try:
                keep = O
                if how == "imul":
                    O *= s
                else:
                    O /= s
                check(O is keep, "%s does not work in place" % how)
                check(castable(sd, d) or not np.iscomplexobj(s), "%s of a real operator with a complex number was accepted" % how)
                c = 1 / s if how == "idiv" else s
                objs[i] = [O, {k: c * A for k, A in M.items()}, d]
            except TypeError as ex:
                if castable(sd, d):
                    raise
        elif how == "neg":
            objs.append([-O, {k: -A for k, A in M.items()}, d])
        elif how == "copy":
            objs.append([O.copy(), dict(M), d])
        elif how == "astype":
            nd = np.dtype(step["dt"])
            new = O.astype(DT[step["dt"]], copy=step["c"])
            lossy[0] = max(lossy[0], eps(nd))
            objs.append([new, {k: (A if nd.kind == "c" else A.real) for k, A in M.items()}, nd])
        elif how == "T":
            new = O.T if step["c"] else O.transpose(copy=step["k"] == 1)
            objs.append([new, {k: A.T for k, A in M.items()}, d])
        elif how == "H":
            new = O.H if step["c"] else O.getH(copy=step["k"] == 1)
            objs.append([new, {k: A.conj().T for k, A in M.items()}, d])
        elif how == "conj":
            new = O.conj() if step["c"] else O.conjugate()
            objs.append([new, {k: A.conj() for k, A in M.items()}, d])
        elif how == "formats":
            fm = {k: x for k, x in step["fmts"].items() if k in M}
            O.update_matrix_formats(fm)
            for k, x in fm.items():
                got = O.get_operators(k)
                check((got.format if sp.issparse(got) else "dense") == x, lambda: "update_matrix_formats: %s is not %s" % (type(got).__name__, x))
        elif how == "zero":
            if step["c"]:
                O += 0
            else:
                O -= 0
        elif how == "extra":
            try:
                O.dot(np.ones(n), pars={"nokey": 1.0})
                fail("parameters with an unknown key were accepted")
            except ValueError:
                pass
        elif how == "dot":
            O.dot(np.ones(n), pars={k: 0.5 for k in list(M)[:1]})
        elif how == "query":
            O.toarray({k: 0.5 for k in list(M)[:1]}), O.tocsr({k: 3 for k in list(M)[:1]}), O.expt_value(np.ones(n)), O.eigvalsh() if np.allclose(total(M, {}, n), total(M, {}, n).conj().T) else 0
        verify(how)
        if len(objs) > 6:
            break
    return sorted(labels), len(labels) > 1


HOW = ["add", "sub", "iadd", "isub", "mul", "rmul", "div", "imul", "idiv", "neg", "copy", "astype", "T", "H", "conj", "formats", "zero", "extra", "dot", "query"]


@st.composite
def history_cases(draw):
    L = draw(st.sampled_from([None, None, 1, 2]))
    n = 2 ** L if L else draw(st.integers(1, 5))
    steps = draw(st.lists(st.fixed_dictionaries({
        "how": st.sampled_from(HOW), "i": st.integers(0, 5), "j": st.integers(0, 5), "s": gen.amplitudes(True), "stype": st.sampled_from(["py", "np", "int"]),
        "dt": st.sampled_from(list(DT)), "c": st.booleans(), "k": st.integers(0, 1),
        "fmts": st.dictionaries(st.sampled_from(KEYS), st.sampled_from(["dia", "csr", "csc", "dense"]), min_size=1, max_size=3)}), min_size=1, max_size=8))
    return {"n": n, "L": L, "ops": [draw(op_specs(L)) for _ in range(draw(st.integers(1, 3)))], "steps": steps}


FAMILIES = [
    Family("query", query_cases, run_query, 6000, 120000),
    Family("history", history_cases, run_history, 4000, 80000),
]
