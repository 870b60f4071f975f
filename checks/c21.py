"""C21: compiled matrix-vector products."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import gen
from vf import Family, check, fail

ID = "C21"
TECHNIQUE = "property-based testing: random sparse and dense matrices, vectors, scales and memory layouts against the dense product in numpy"
LEVEL_NOTE = ("sampled, not exhaustive: up to 220 rows and columns and 6 vectors, all four formats and dtypes, both index types; the build has no OpenMP, so one "
              "thread; tolerances scaled with dtype and magnitude; trusts numpy's dense product")

RULE = "cases: a matrix, vectors, scale, output and layouts; non-trivial: the product is not zero"
DT = {"float32": np.float32, "float64": np.float64, "complex64": np.complex64, "complex128": np.complex128}


def layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "rows":
        b = np.full((2 * a.shape[0],) + a.shape[1:], 7, a.dtype)
        v = b[::2]
    elif how == "cols" and a.ndim == 2:
        b = np.full((a.shape[0], 3 * a.shape[1]), 7, a.dtype)
        v = b[:, 1::3]
    elif how == "Fslice" and a.ndim == 2:
        b = np.full((a.shape[0] + 3, a.shape[1]), 7, a.dtype, order="F")
        v = b[2:-1]
    elif how == "reverse":
        v = np.full(a.shape, 7, a.dtype)[::-1]
    elif how == "both" and a.ndim == 2:
        v = np.full((2 * a.shape[0], 2 * a.shape[1]), 7, a.dtype)[::2, 1::2]
    else:
        return np.ascontiguousarray(a)
    v[...] = a
    return v


LAYOUTS = ["C", "F", "rows", "cols", "Fslice", "reverse", "both"]


def build(case):
    m, n = case["shape"]
    A = gen.matrix(case["seeds"], m, n, complex_=True)
    u = np.abs(gen.matrix([case["seeds"][0] + 3, 5], m, n, complex_=False)) * 50
    keep = (u.astype(int) % 10) < case["density"]
    if case["band"]:
        i, j = np.indices((m, n))
        keep &= ((j - i) % 7 == case["band"] % 7) | (j - i == -1)
    A = np.where(keep, A, 0)
    dt = DT[case["mdt"]]
    A = A.astype(dt) if case["mdt"].startswith("c") else A.real.astype(dt)
    f = case["fmt"]
    if f == "dense":
        return A, layout(A, case["mlay"])
    M = sp.csr_matrix(A)
    if f == "dup":  # unsorted, repeated entries
        C = M.tocoo()
        M = sp.csr_matrix((m, n), dtype=dt)
        h = C.nnz // 2
        data = np.concatenate([C.data[h:], C.data[:h], C.data[:h]])
        row = np.concatenate([C.row[h:], C.row[:h], C.row[:h]])
        col = np.concatenate([C.col[h:], C.col[:h], C.col[:h]])
        o = np.argsort(row, kind="stable")
        ptr = np.searchsorted(row[o], np.arange(m + 1)).astype(np.int32)
        M = sp.csr_matrix((data[o], col[o].astype(np.int32), ptr), shape=(m, n))
        D = np.zeros((m, n), dt)
        np.add.at(D, (row, col), data)
        A = D
    else:
        M = M.asformat(f)
    if case["i64"] and f in ("csr", "csc"):
        M = M.copy()
        M.indices = M.indices.astype(np.int64)
        M.indptr = M.indptr.astype(np.int64)
    if f == "dia":
        if case["i64"]:
            M.offsets = M.offsets.astype(np.int64)
        if case["longdia"]:  # rows of the data longer or shorter than the matrix
            L = M.data.shape[1]
            M = sp.dia_matrix((np.concatenate([M.data, np.zeros((M.data.shape[0], max(0, n - L)), dt), np.full((M.data.shape[0], 2), 9, dt)], axis=1), M.offsets), shape=(m, n))
    return A, M


def run(case):
    from quspin.tools import misc

    A, M = build(case)
    m, n = case["shape"]
    a = gen.cplx(case["a"])
    vdt = DT[case["vdt"]]
    # the kernels take vectors at least as general as the matrix
    vdt = np.result_type(vdt, A.dtype)
    k = case["k"]
    if case["fn"] == "csr":
        k = 0 if k != 1 else 1
    sh = (n,) if k == 0 else (n, k)
    v = gen.vec(case["seeds"] + [7], int(np.prod(sh)), vdt.kind == "c").reshape(sh).astype(vdt)
    v = layout(v, case["xlay"])
    keep = v.copy()
    R = a * (A.astype(complex) @ v)
    odt = vdt if not isinstance(a, complex) else np.result_type(vdt, np.complex64)
    if case["fn"] == "csr":
        if not sp.issparse(M):
            M = sp.csr_matrix(A)
        f = lambda *args, **kw: misc.csr_matvec(M, v, **kw)
        odt = np.result_type(v.dtype, M.dtype, a)
    elif case["fn"] == "matvec":
        f = lambda **kw: misc.matvec(M, v, **kw)
    else:
        g = misc.get_matvec_function(M)
        f = lambda **kw: g(M, v, **kw)
    kw = {"a": a} if a != 1 or case["i64"] else {}
    e = max(np.finfo(A.dtype).eps, np.finfo(odt).eps)
    s = abs(a) * (np.abs(A).astype(float) @ np.abs(v).astype(float)).max(initial=0)
    out = case["out"]
    if out == "new":
        r = f(**kw)
    else:
        base = gen.vec([4, 9], R.size, odt.kind == "c").reshape(R.shape).astype(odt)
        o = layout(base.copy(), case["ylay"])
        if out == "over" or case["i64"] or case["fn"] == "csr":
            kw["overwrite_out"] = out == "over"  # by default the product is added
        r = f(out=o, **kw)
        R = R if out == "over" else R + base
        s += np.abs(base).max(initial=0)
        check(r is o or np.shares_memory(r, o) or o.size == 0, "the result is not 'out'")
    check(r.shape == R.shape, lambda: "shape %s instead of %s" % (r.shape, R.shape))
    check(r.dtype == odt, lambda: "dtype %s instead of %s" % (r.dtype, odt))
    d = np.abs(r - R).max(initial=0)
    check(np.isfinite(r).all() and d <= 50 * e * max(1, n) ** 0.5 * max(s, 1e-30), lambda: "product off by %.3g (scale %.3g)" % (d, s))
    check(np.array_equal(keep, v), "the input was changed")
    return [case["fmt"], case["fn"], out, case["ylay"] if out != "new" else case["xlay"]], bool(np.any(R))


@st.composite
def cases(draw):
    big = draw(st.sampled_from([False, False, True]))
    sizes = st.sampled_from([99, 100, 101, 150, 220]) if big else st.integers(1, 9)
    m = draw(sizes)
    n = m if draw(st.booleans()) else draw(sizes)
    return {"shape": [m, n], "seeds": draw(gen.seeds), "density": draw(st.sampled_from([0, 1, 4, 10])), "band": draw(st.sampled_from([0, 0, 1, 4])),
            "mdt": draw(st.sampled_from(list(DT))), "vdt": draw(st.sampled_from(list(DT))), "fmt": draw(st.sampled_from(["csr", "csc", "dia", "dense", "dup", "coo"])),
            "mlay": draw(st.sampled_from(["C", "F", "both"])), "i64": draw(st.booleans()), "longdia": draw(st.booleans()),
            "k": draw(st.integers(0, 6)), "xlay": draw(st.sampled_from(LAYOUTS)), "ylay": draw(st.sampled_from(LAYOUTS)),
            "a": draw(st.one_of(st.just(1), gen.amplitudes(True))), "out": draw(st.sampled_from(["new", "over", "add"])),
            "fn": draw(st.sampled_from(["function", "matvec", "csr"]))}


FAMILIES = [Family("product", cases, run, 4000, 80000)]
