"""C11: the algebra of time-dependent Hamiltonians."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, hams, ref
from vf import Family, check, fail

ID = "C11"
TECHNIQUE = "stateful property-based testing: random histories of algebraic operations on Hamiltonians, matrices and numbers against pointwise dense arithmetic"
LEVEL_NOTE = ("sampled, not exhaustive: up to 12 operations on pools of up to 5 starting objects of dimension 1 to 8, three probe times, tolerances scaled with the magnitude of the operands; "
              "results of copy=False conversions may share memory with their source and are not followed after an in-place change of either; trusts numpy's dense arithmetic")

RULE = ("cases: a pool of Hamiltonians (from operator lists or matrices, all formats and dtypes), matrices and numbers and a history of operations; "
        "non-trivial: at least one binary operation or in-place change was applied to a non-zero Hamiltonian")
TIMES = hams.TIMES


class Item:
    def __init__(self, kind, obj, val, eps, cx, scale, share=None):
        self.kind, self.obj, self.val, self.eps, self.cx, self.scale = kind, obj, val, eps, cx, scale
        self.share = share  # objects that may share memory (copy=False) carry the same token


def tol(it):
    return it.eps * 2000 * max(1.0, it.scale)


def verify(it, what, full=True):
    if it.kind != "ham":
        M = it.obj
        if it.kind == "mat":
            M = M.toarray() if sp.issparse(M) else np.asarray(M)
            check(np.array_equal(M, it.val[0]), lambda: "%s: an operand matrix changed" % what)
        return
    H = it.obj
    check(type(H).__name__ == "hamiltonian", lambda: "%s: the result is a %s" % (what, type(H).__name__))
    n = it.val.shape[1]
    v = gen.vec([7, 3], n, it.cx)
    for k, t in enumerate(TIMES if full else TIMES[:2]):
        R = it.val[k]
        A = H.toarray(time=t) if (k + n) % 2 else H.tocsr(time=t).toarray()
        check(A.shape == R.shape, lambda: "%s: shape %s" % (what, A.shape))
        d = np.abs(A - R).max(initial=0)
        check(d <= tol(it), lambda: "%s: value at t=%s differs by %.3g (scale %.3g)" % (what, t, d, it.scale))
        w = H.dot(v, time=t)
        d = np.abs(np.asarray(w).ravel() - R.dot(v)).max(initial=0)
        check(d <= tol(it) * 3 * n, lambda: "%s: product with a vector at t=%s differs by %.3g (scale %.3g)" % (what, t, d, it.scale))


def fl32(dt):
    return np.dtype(dt) in (np.float32, np.complex64)


def eps_of(dt):
    return np.finfo(np.float32).eps if fl32(dt) else np.finfo(np.float64).eps


def make(e, n, basis):
    if e["k"] == "ham":
        H, val = hams.build(e["ham"], n, basis)
        V = np.array([val(t) for t in TIMES])
        return Item("ham", H, V, eps_of(e["ham"]["dtype"]), np.dtype(e["ham"]["dtype"]).kind == "c", max(1.0, np.abs(V).max(initial=0) * n))
    if e["k"] == "mat":
        A = hams.raw(e["mat"], n)
        M = hams.as_fmt(A, e["mat"]["fmt"], e["dtype"])
        A = M.toarray() if sp.issparse(M) else np.asarray(M)
        return Item("mat", M, np.array([A.astype(complex)] * 3), eps_of(A.dtype), A.dtype.kind == "c", max(1.0, np.abs(A).max(initial=0) * n))
    x = gen.cplx(e["v"])
    if e["type"] == "np":
        x = np.complex128(x) if isinstance(x, complex) else np.float64(x)
    elif e["type"] == "np32":
        x = np.complex64(x) if isinstance(x, complex) else np.float32(x)
    elif e["type"] == "int":
        x = int(round(np.real(x))) or 2
    return Item("num", x, np.array([x] * 3), 2.3e-16, isinstance(x, (complex, np.complexfloating)), max(1.0, abs(x)))


def numval(it):
    return it.kind == "num"


def mul(a, b):
    if a.kind == "num" or b.kind == "num":
        x, y = (a, b) if a.kind == "num" else (b, a)
        return np.array([x.val[k] * y.val[k] for k in range(3)])
    return np.array([a.val[k] @ b.val[k] for k in range(3)])


def run(case):
    from quspin.operators import commutator, anti_commutator

    n = case["n"]
    basis = hams.basis(case["L"]) if case["L"] else None
    pool = [make(e, n, basis) for e in case["pool"]]
    hidx = lambda: [i for i, x in enumerate(pool) if x.kind == "ham"]
    labels, nontriv = set(), False
    for it in pool:
        verify(it, "construction")
    for step, op in enumerate(case["ops"]):
        hi = hidx()
        i = hi[op["i"] % len(hi)]
        a = pool[i]
        b = pool[op["j"] % len(pool)]
        name = op["op"]
        what = "step %d %s" % (step, name)
        new = None
        if name in ("add", "sub", "mul", "radd", "rsub", "rmul", "comm", "acomm"):
            what += " " + b.kind + (" " + type(b.obj).__name__)
            scale = a.scale * b.scale if "m" in name else a.scale + b.scale
            if scale > 1e7:
                continue
            if b.kind == "num" and name not in ("mul", "rmul"):
                # only zero can be added
                for z in (0, 0.0):
                    r = {"add": lambda: a.obj + z, "sub": lambda: a.obj - z, "radd": lambda: z + a.obj, "rsub": lambda: z - a.obj}.get(name, lambda: None)()
                    if r is not None:
                        new = Item("ham", r, -a.val if name == "rsub" else a.val.copy(), a.eps, a.cx, a.scale)
                        verify(new, what + " zero")
                if new is None:
                    continue
            else:
                if name == "add":
                    r, V = a.obj + b.obj, a.val + b.val
                elif name == "radd":
                    r, V = b.obj + a.obj, a.val + b.val
                elif name == "sub":
                    r, V = a.obj - b.obj, a.val - b.val
                elif name == "rsub":
                    r, V = b.obj - a.obj, b.val - a.val
                elif name == "mul":
                    r, V = a.obj * b.obj, mul(a, b)
                elif name == "rmul":
                    r, V = b.obj * a.obj, mul(b, a)
                elif isinstance(b.obj, list):
                    continue
                elif name == "comm":
                    r, V = commutator(a.obj, b.obj), mul(a, b) - mul(b, a)
                else:
                    r, V = anti_commutator(a.obj, b.obj), mul(a, b) + mul(b, a)
                new = Item("ham", r, V, max(a.eps, b.eps), a.cx or b.cx, scale)
                nontriv = nontriv or np.abs(V).max(initial=0) > 0
        elif name in ("div", "idiv"):  # there is no in-place division: x /= y rebinds x
            if b.kind != "num":
                continue
            new = Item("ham", a.obj / b.obj, np.array([a.val[k] / b.val[k] for k in range(3)]), max(a.eps, b.eps, 1e-7 if isinstance(b.obj, (np.float32, np.complex64)) else 0), a.cx or b.cx, a.scale * 4)
        elif name == "neg":
            new = Item("ham", -a.obj, -a.val, a.eps, a.cx, a.scale)
        elif name == "pow":
            p = op["p"]
            if a.scale ** p > 1e7:
                continue
            new = Item("ham", a.obj ** p, np.array([np.linalg.matrix_power(x, p) for x in a.val]), a.eps, a.cx, a.scale ** p)
        elif name in ("T", "transpose"):
            r = a.obj.T if name == "T" else a.obj.transpose(copy=bool(op["p"] % 2))
            a.share = a.share or object()
            new = Item("ham", r, a.val.transpose(0, 2, 1), a.eps, a.cx, a.scale, a.share if name == "T" or op["p"] % 2 == 0 else None)
        elif name == "conj":
            new = Item("ham", a.obj.conj(), a.val.conj(), a.eps, a.cx, a.scale)
        elif name in ("H", "getH"):
            r = a.obj.H if name == "H" else a.obj.getH(copy=bool(op["p"] % 2))
            new = Item("ham", r, a.val.conj().transpose(0, 2, 1), a.eps, a.cx, a.scale)
        elif name == "copy":
            new = Item("ham", a.obj.copy(), a.val.copy(), a.eps, a.cx, a.scale)
        elif name == "astype":
            dt = {1: "complex128", 2: "complex64", 3: "complex128"}[op["p"]] if a.cx else ["float64", "float32", "complex128", "complex64"][op["p"]]
            cp = bool(op["j"] % 2)
            r = a.obj.astype(np.dtype(dt).type, copy=cp)
            check(r.dtype == dt, "%s: dtype %s instead of %s" % (what, r.dtype, dt))
            a.share = a.share or object()
            new = Item("ham", r, a.val.copy(), max(a.eps, eps_of(dt)), a.cx or dt.startswith("c"), a.scale, None if cp else a.share)
        elif name in ("dense", "sparse"):
            cp = bool(op["j"] % 2)
            a.share = a.share or object()
            if name == "dense":
                r = a.obj.as_dense_format(copy=cp)
                check(r.is_dense, "%s: not dense" % what)
            else:
                r = a.obj.as_sparse_format(static_fmt=["csr", "csc", "dia", "csr"][op["p"]], copy=cp)
            new = Item("ham", r, a.val.copy(), a.eps, a.cx, a.scale, None if cp else a.share)
        elif name == "update":
            a.obj.update_matrix_formats(["csr", "csc", "dia", "dense"][op["p"]], ["dense", "csr", "csc", "dia", None][op["j"] % 5])
            verify(a, what)
        elif name in ("iadd", "isub", "imul"):
            what += " " + b.kind + (" " + type(b.obj).__name__)
            x = a.obj
            scale = a.scale * b.scale if name == "imul" else a.scale + b.scale
            if scale > 1e7:
                continue
            ok = True
            if b.cx and not a.cx:
                ok = False  # a real Hamiltonian cannot take a complex part
            zero = b.kind == "num" and name in ("iadd", "isub")
            y = 0.0 if zero else b.obj
            try:
                if name == "iadd":
                    x += y
                elif name == "isub":
                    x -= y
                else:
                    x *= y
            except (ValueError, TypeError) as e:
                check((not ok and not zero) and "cast" in str(e), lambda: "%s refused: %s: %s" % (what, type(e).__name__, e))
                verify(a, what + " (refused)")
                continue
            if not zero:
                check(ok, "%s: a complex operand was taken into a real Hamiltonian" % what)
                if name == "iadd":
                    a_val = a.val + b.val
                elif name == "isub":
                    a_val = a.val - b.val
                else:
                    a_val = mul(a, b)
                nontriv = nontriv or np.abs(a_val - a.val).max(initial=0) > 0
                eps = max(a.eps, b.eps, 1e-7 if isinstance(b.obj, (np.float32, np.complex64)) else 0)
                it = Item("ham", x, a_val, eps, a.cx, scale)
            else:
                it = Item("ham", x, a.val, a.eps, a.cx, a.scale)
            share = a.share
            same = [q for q in pool if q.obj is a.obj]
            pool = [it if q.obj is a.obj else q for q in pool]
            if share is not None:
                pool = [q for q in pool if q.share is not share or q is it]
            verify(it, what)
            for q in pool:
                if q is not it:
                    verify(q, what + " (another object)", full=False)
        if new is not None:
            verify(new, what)
            if any(new.obj is q.obj for q in pool) and name in ("add", "sub", "radd", "mul", "rmul", "neg", "copy", "pow", "conj"):
                # the very operand was returned: in-place changes of the result would change it
                if not (name == "pow" and op["p"] == 1):
                    fail("%s: the result is the operand itself" % what)
                new.share = a.share = a.share or object()
            if len(pool) < 9:
                pool.append(new)
            else:
                pool[5 + step % 4] = new
        labels.add(name + (":" + b.kind if name in ("add", "sub", "mul", "radd", "rsub", "rmul", "iadd", "isub", "imul", "comm", "acomm") else ""))
    for it in pool:
        verify(it, "at the end")
    return sorted(labels), nontriv


@st.composite
def entries(draw, L, k):
    if k == "ham":
        return {"k": "ham", "ham": draw(hams.ham_specs(L=L))}
    if k == "mat":
        dt = draw(st.sampled_from(["float64", "complex128", "float32", "complex64", "int64"]))
        return {"k": "mat", "mat": dict(draw(hams.mats), fmt=draw(st.sampled_from(hams.FMT))), "dtype": dt}
    return {"k": "num", "v": draw(gen.amplitudes(True)), "type": draw(st.sampled_from(["py", "np", "np32", "int"]))}


OPS = ["add", "add", "sub", "sub", "mul", "mul", "mul", "radd", "rsub", "rmul", "rmul", "comm", "acomm", "div", "neg", "pow", "T", "transpose", "conj", "H", "getH",
       "copy", "astype", "dense", "sparse", "update", "iadd", "iadd", "isub", "isub", "imul", "imul", "idiv"]


@st.composite
def cases(draw):
    L = draw(st.sampled_from([0, 1, 2, 2, 3]))
    n = 2 ** L if L else draw(st.sampled_from([1, 2, 3, 5]))
    kinds = ["ham"] + [draw(st.sampled_from(["ham", "ham", "mat", "num"])) for _ in range(draw(st.integers(1, 4)))]
    pool = [draw(entries(L, k)) for k in kinds]
    ops = [{"op": draw(st.sampled_from(OPS)), "i": draw(st.integers(0, 8)), "j": draw(st.integers(0, 8)), "p": draw(st.integers(1, 3))}
           for _ in range(draw(st.integers(1, 12)))]
    return {"L": L, "n": n, "pool": pool, "ops": ops}


def run_units(case):
    """the algebra does not depend on the unit of energy: every number here is far below 1"""
    n, c = case["n"], case["c"]
    basis = hams.basis(case["L"]) if case["L"] else None
    H, val = hams.build(case["a"], n, basis)
    K, kval = hams.build(case["b"], n, basis)
    V, W = np.array([val(t) for t in TIMES]), np.array([kval(t) for t in TIMES])
    e = max(eps_of(case["a"]["dtype"]), eps_of(case["b"]["dtype"]))
    how = case["how"]
    if how == "left":
        h = c * H
    elif how == "right":
        h = H * c
    elif how == "div":
        h = H / (1 / c)
    elif how == "in place":
        h = H.copy()
        h *= c
    else:  # from matrices which are small
        h, _ = hams.build(case["a"], n, basis)
        from quspin.operators import hamiltonian
        dt = np.dtype(case["a"]["dtype"]).type
        h = hamiltonian([h.static * dt(c)], [[M * dt(c), f] for f, M in h.dynamic.items()], dtype=dt)
    k = c * K
    sv, sw = max(1.0, np.abs(V).max(initial=0)), max(1.0, np.abs(W).max(initial=0))

    def same(x, R, unit, scale, what):
        for i, t in enumerate(TIMES):
            d = np.abs(x.toarray(time=t).astype(complex) / unit - R[i]).max(initial=0)
            check(d <= e * 3000 * n * scale, lambda: "%s with elements of size %g: value at t=%s, in units of %g, differs by %.3g (scale %.3g)" % (what, c, t, unit, d, scale))

    same(h, V, c, sv, "multiple (%s)" % how)
    same(h + k, V + W, c, sv + sw, "sum")
    same(h - k, V - W, c, sv + sw, "difference")
    same(h + k.static, V + np.array([K.toarray(time=0) * 0 + (K.static.toarray() if sp.issparse(K.static) else K.static)] * 3), c, sv + sw, "sum with a matrix")
    same(h * K, np.array([x @ y for x, y in zip(V, W)]), c, sv * sw * n, "product")
    same(K * h, np.array([y @ x for x, y in zip(V, W)]), c, sv * sw * n, "product from the left")
    if np.can_cast(k.dtype, h.dtype, casting="same_kind"):
        h2 = h.copy()
        h2 += k
        same(h2, V + W, c, sv + sw, "in-place sum")
        h2 -= k
        same(h2, V, c, sv + sw, "in-place difference")
    same(h.T, V.transpose(0, 2, 1), c, sv, "transpose")
    same(h.H, V.conj().transpose(0, 2, 1), c, sv, "adjoint")
    same(h * (1 / c), V, 1.0, sv, "multiple of the multiple")
    nz = bool(H.dynamic), bool(np.abs(V).max(initial=0) > 0)
    return ["c=%g" % c, how, case["a"]["dtype"], "dynamic" if nz[0] else "static"], nz[1]


@st.composite
def units_cases(draw):
    L = draw(st.sampled_from([0, 1, 2, 2]))
    n = 2 ** L if L else draw(st.sampled_from([1, 2, 3, 5]))
    return {"L": L, "n": n, "a": draw(hams.ham_specs(L=L)), "b": draw(hams.ham_specs(L=L)), "c": draw(st.sampled_from([1e-6, 1e-6, 1e-9, 1e-12, 1e-15])),
            "how": draw(st.sampled_from(["left", "right", "div", "in place", "matrices"]))}


FAMILIES = [
    Family("history", cases, run, 4000, 80000),
    Family("units", units_cases, run_units, 1500, 30000),
]
