"""Time-dependent Hamiltonians from JSON: from operator lists or from matrices, with driving functions; and their values."""
import copy as copymod

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, ref
from vf import check

TIMES = [0.3, 1.7, -2.2]


def f_cos(t, w):
    return np.cos(w * t)


def f_lin(t, a, b):
    return a + b * t


def f_pos(t, w):
    return np.exp(1j * w * t)


def f_neg(t, w):
    return np.exp(-1j * w * t)


def f_sq(t):
    return t * t - 0.5


# real: cos, shifted lines (two of them with arguments of equal hash), square; complex: the exponentials
DRIVES = [(f_cos, (0.7,)), (f_lin, (-1, 0.5)), (f_lin, (-2, 0.5)), (f_sq, ()), (f_cos, (1.3,)), (f_pos, (1.1,)), (f_neg, (1.1,)), (f_pos, (-0.4,))]
NREAL = 5
DTYPES = ["float64", "complex128", "float32", "complex64"]
FMT = ["csr", "csc", "dia", "coo", "dense", "matrix", "list"]


def fval(d, t):
    f, a = DRIVES[d]
    return f(t, *a)


def raw(m, n):
    """an n x n complex or real array with zeros"""
    seeds, cplx, density = m["seeds"], m["c"], m["d"]
    A = gen.matrix(seeds, n, complex_=cplx)
    if density < 10:
        u = gen.matrix([seeds[0] + 3, 5], n, complex_=False) * 50
        A = A * ((np.abs(u).astype(int) % 10) < density)
    A = np.round(A * 4) / 4
    return A


def herm(A):
    return (A + A.conj().T) / 2


def as_fmt(A, fmt, dtype):
    A = np.array(A if np.dtype(dtype).kind == "c" else A.real, dtype=dtype)
    if fmt == "dense":
        return A
    if fmt == "fortran":
        return np.asfortranarray(A)
    if fmt == "matrix":
        return np.asmatrix(A)
    if fmt == "list":
        return A.tolist()
    return getattr(sp, fmt + "_matrix")(A)


def hermitise(spec):
    return spec.get("herm", False)


def build(spec, n, basis=None):
    """(hamiltonian, value at a time -> complex array); spec: how, dtype, static [..], dynamic [[.., drive], ..], sfmt, dfmt"""
    from quspin.operators import hamiltonian

    dt = np.dtype(spec["dtype"]).type
    cx = np.dtype(dt).kind == "c"
    h = herm if spec.get("herm") else (lambda A: A)
    kw = {}
    if spec.get("sfmt"):
        kw["static_fmt"] = spec["sfmt"]
    if spec.get("dfmt"):
        kw["dynamic_fmt"] = spec["dfmt"]
    S = np.zeros((n, n), complex)
    D = []
    static, dynamic = [], []
    ops = [("s", e) for e in (spec["static"] if spec["how"] == "ops" else spec.get("ostatic", []))]
    dyn_ops = spec["dynamic"] if spec["how"] == "ops" else spec.get("odynamic", [])
    if ops or dyn_ops:
        L = basis.N
        bs = {"kind": "spin1d", "N": L, "twoS": 1, "pauli": 1}
        m = gen.model_of(bs)
        digits = m.all_digits()[::-1]

        def terms(ent):
            q = gen.q_list([ent])
            if not cx:
                q = [[s, [[np.real(c[0])] + c[1:] for c in cs]] for s, cs in q]
            return q, ref.dense(m.matrix([(s, c[1:], c[0]) for s, cs in q for c in cs], digits))

        for _, ent in ops:
            q, A = terms(ent)
            static += q
            S += A
        for ent, d in dyn_ops:
            f, a = DRIVES[d]
            q, A = terms(ent)
            dynamic += [[s, cs, f, list(a)] for s, cs in q]
            D.append((A, d))
    if spec["how"] == "ops":
        if spec.get("byN"):  # the default basis
            kw["N"] = basis.N
        else:
            kw["basis"] = basis
        H = hamiltonian(static, dynamic, dtype=dt, **gen.NOCHECK, **kw)
    else:
        shaped = bool(static or dynamic)
        if shaped:
            kw["basis"] = basis
            kw.update(gen.NOCHECK)
        mats_ = []
        for mm in spec["static"]:
            A = h(raw(mm, n))
            if not cx:
                A = A.real
            M = as_fmt(A, mm["fmt"], dt)
            shaped = shaped or (spec.get("noshape") and hasattr(M, "shape"))
            mats_.append(M)
            S += A
        if spec.get("front"):  # matrices before the operators
            static = mats_ + static
        else:
            static = static + mats_
        mats_ = []
        for k, (mm, d) in enumerate(spec["dynamic"]):
            A = h(raw(mm, n))
            if not cx:
                A = A.real
            f, a = DRIVES[d]
            M = as_fmt(A, mm["fmt"], dt)
            shaped = shaped or (spec.get("noshape") and hasattr(M, "shape"))
            mats_.append([M, f, list(a)])
            D.append((A, d))
        dynamic = mats_ + dynamic if spec.get("front") else dynamic + mats_
        if basis is not None and spec.get("basis"):
            kw["basis"] = basis
        if spec.get("copy") is not None:
            kw["copy"] = spec["copy"]
        given = [x for x in static if not isinstance(x, list)] + [x[0] for x in dynamic if hasattr(x[0], "shape")]
        kept = copymod.deepcopy(given)
        if not static and not dynamic and "basis" in kw:
            H = hamiltonian([], [], dtype=dt, **kw)
        elif shaped:
            H = hamiltonian(static, dynamic, dtype=dt, **kw)
        else:
            H = hamiltonian(static, dynamic, shape=(n, n), dtype=dt, **kw)
        for x, y in zip(given, kept):
            x, y = ref.dense(x), ref.dense(y)
            check(x.dtype == y.dtype and np.array_equal(x, y), "the constructor changed a matrix it was given")

    def value(t):
        out = S.copy()
        for A, d in D:
            out = out + A * fval(d, t)
        return out

    return H, value


mats = st.fixed_dictionaries({"seeds": gen.seeds, "c": st.booleans(), "d": st.sampled_from([1, 3, 5, 10])})


@st.composite
def ham_specs(draw, L=None, how=("ops", "mat", "mat"), dtypes=DTYPES, dynamic=True, hermitian=False, maxstatic=2, maxdyn=3, fmts=None):
    """L: number of spins of the basis, if there is one"""
    how = draw(st.sampled_from(how if L else ("mat",)))
    dt = draw(st.sampled_from(dtypes))
    cx = dt.startswith("complex")
    drives = range(len(DRIVES)) if cx and not hermitian else range(NREAL)
    spec = {"how": how, "dtype": dt}
    ns = draw(st.integers(0, maxstatic))
    nd = draw(st.sampled_from([0, 0, 1, 2, maxdyn])) if dynamic else 0
    bs = {"kind": "spin1d", "N": L, "twoS": 1, "pauli": 1}
    chars = "I+-xyz" if cx else "I+-xz"

    def one():
        s, ix = draw(gen.op_strings(bs, maxlen=3, chars=chars))
        return [s, [[draw(gen.amplitudes(cx))] + ix]]

    def closed(e):
        return gen.hermitian_closure(bs, [e]) if hermitian else [e]

    if how == "ops":
        spec["byN"] = draw(st.integers(0, 3)) == 0
        spec["static"] = [x for _ in range(ns) for x in closed(one())]
        dyn = []
        for _ in range(nd):
            d = draw(st.sampled_from(drives))
            dyn += [[x, d] for x in closed(one())]
        spec["dynamic"] = dyn
        if not spec["static"] and not dyn:
            spec["static"] = closed(one())
    else:
        fm = st.sampled_from(fmts or FMT[:-1])
        spec["static"] = [dict(draw(mats), fmt=draw(fm)) for _ in range(ns)]
        spec["dynamic"] = [[dict(draw(mats), fmt=draw(fm)), draw(st.sampled_from(drives))] for _ in range(nd)]
        spec["basis"] = draw(st.booleans()) if L else False
        spec["noshape"] = draw(st.booleans())
        if L and draw(st.integers(0, 2)) == 0:  # operator strings and matrices in the same lists
            spec["front"] = draw(st.booleans())
            spec["ostatic"] = [x for _ in range(draw(st.integers(0, 1))) for x in closed(one())]
            spec["odynamic"] = [[x, d] for _ in range(draw(st.integers(0, 1)) if dynamic else 0) for d in [draw(st.sampled_from(drives))] for x in closed(one())]
        if hermitian:
            spec["herm"] = True
        spec["copy"] = draw(st.sampled_from([None, True, False, False]))
    spec["sfmt"] = draw(st.sampled_from([None, None, "csr", "csc", "dia", "dense"]))
    spec["dfmt"] = draw(st.sampled_from([None, None, "csr", "csc", "dia", "dense"]))
    return spec


def basis(L):
    from quspin.basis import spin_basis_1d

    return spin_basis_1d(L, pauli=1)
