"""C05: projectors between a block and the full space."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, ref, symm
from checks import c02, c03, c04
from vf import Family, check, fail

ID = "C05"
TECHNIQUE = "property-based testing: random bases, blocks, data types, layouts and states against the projector built from the reference symmetry operations"
LEVEL_NOTE = ("sampled, not exhaustive: all classes with full spaces up to 300 states and small sectors of up to 130 sites (particle-sector projector); "
              "trusts lib/ref.py, lib/symm.py and numpy")

RULE = ("cases: a basis (no blocks, 1d blocks or user maps), a data type, one or several states and an option; "
        "non-trivial: the block has at least 2 states and leaves out at least one")
DT = {"f": np.float32, "d": np.float64, "F": np.complex64, "D": np.complex128}
TOL = {"f": 3e-5, "F": 3e-5, "d": 1e-10, "D": 1e-10}


def block_projector(spec, m, digits):
    """dense projector on the block within the rows given, or None (projective maps)"""
    if "blocks" in spec:
        return c02.projector(spec, m, digits)
    if "maps" in spec:
        us = c03.usable(spec, m, digits)
        return None if us is None else c03.projector(us, len(digits))
    return np.eye(len(digits), dtype=complex)


def is_real(spec):
    if "blocks" in spec:
        b = spec["blocks"]
        return "k" not in b or "p" in b or "pz" in b or (2 * b["k"]) % (spec["N"] // b.get("a", 1)) == 0
    return all((2 * q) % symm.order(c03.op_of(spec, mp)) == 0 for _, mp, q in spec.get("maps", []))


def lay(v, layout):
    if layout == "F":
        return np.asfortranarray(v)
    if layout == "strided":
        big = np.zeros((2 * v.shape[0],) + v.shape[1:], dtype=v.dtype)
        big[::2] = v
        return big[::2]
    return np.ascontiguousarray(v)


def single_sector(spec):
    p = spec.get("pcon")
    if p is None:
        return False
    return not isinstance(p[0], list) if spec["kind"].startswith("uf") or spec.get("halves") else not isinstance(p, list)


def apply_check(f, v, want, sparse, tol, what):
    keep = v.copy()
    out = f(v, sparse=sparse)
    check(bool(sp.issparse(out)) == bool(sparse), lambda: "%s: sparse=%s returned %s" % (what, sparse, type(out).__name__))
    o = ref.dense(out)
    w = want
    if w.ndim == 1 and o.ndim == 2 and sparse:
        w = w.reshape(-1, 1)
        if o.shape[0] != w.shape[0]:
            o = o.T
    if w.size == 1 and o.size == 1:
        o = o.reshape(w.shape)
    check(o.shape == w.shape, lambda: "%s: shape %s instead of %s" % (what, o.shape, w.shape))
    check(ref.close(o, w, tol), lambda: "%s: differs from the projector by %s" % (what, ref.maxdiff(o, w)))
    check(o.dtype == v.dtype, lambda: "%s: data type %s from %s" % (what, o.dtype, v.dtype))
    check(np.array_equal(v if not sp.issparse(v) else v.toarray(), keep if not sp.issparse(keep) else keep.toarray()), "%s: changed its input" % what)


def run(case):
    spec = case["basis"]
    m = gen.model_of(spec)
    digits = c03.digits_of({"basis": spec, "large": case.get("large")}, m)
    Pi = block_projector(spec, m, digits)
    if Pi is None:
        return ["projective"], False
    b = c04.build(spec, "plain")
    rank = int(round(np.trace(Pi).real))
    check(b.Ns == rank, lambda: "the block has %d states instead of %d" % (b.Ns, rank))
    real = is_real(spec)
    ch = case["dtype"]
    if ch in "fd" and not real:
        ch = {"f": "F", "d": "D"}[ch]
    dt, tol = DT[ch], TOL[ch]
    labels = [spec["kind"], "blocks" if "blocks" in spec else "maps" if "maps" in spec else "nosymm", ch, case["layout"], "pcon" if case["pcon"] else "full"]
    if rank == 0:
        P = b.get_proj(dt, pcon=True) if case.get("large") else b.get_proj(dt)
        check(P.shape[1] == 0 and P.shape[0] == m.sps ** m.N if not case.get("large") else True, "projector of an empty block")
        return labels + ["empty"], False
    # 1d bases offer pcon for one sector; general ones give the span of the sectors they have, the full space if none
    pcon = (case["pcon"] and (single_sector(spec) or hasattr(b, "project_to"))) or bool(case.get("large"))
    if (spec.get("docc") is False or (spec.get("user") or {}).get("pairs")) and pcon:
        if case.get("large"):
            return labels + ["constrained"], False
        pcon = False
    P = b.get_proj(dt, pcon=True) if pcon else b.get_proj(dt)
    check(sp.issparse(P) and P.dtype == dt, lambda: "projector of type %s, dtype %s" % (type(P), P.dtype))
    A = P.toarray()
    if pcon:
        n = len(digits)
        rows = np.empty(n, dtype=np.int64)  # states in descending order
        rows[np.argsort(-np.array(m.digits_to_ints(digits), dtype=object), kind="stable")] = np.arange(n)
    else:
        n = m.sps ** m.N
        rows = n - 1 - np.array(m.digits_to_ints(digits), dtype=np.int64)
    check(A.shape == (n, b.Ns), lambda: "projector of shape %s instead of %s" % (A.shape, (n, b.Ns)))
    full = np.zeros((n, n), dtype=complex)
    full[np.ix_(rows, rows)] = Pi
    check(ref.close(A.conj().T @ A, np.eye(b.Ns), tol), lambda: "the projector is not an isometry: %s" % ref.maxdiff(A.conj().T @ A, np.eye(b.Ns)))
    check(ref.close(A @ A.conj().T, full, tol), lambda: "the projector's range is not the block: %s" % ref.maxdiff(A @ A.conj().T, full))
    # lifting and projecting states
    k = case["cols"]
    c = ch in "FD"
    v = gen.matrix(case["vec"], b.Ns, k, c).astype(dt) if k else gen.vec(case["vec"], b.Ns, c).astype(dt)
    w = gen.matrix(case["vec"], n, k, c).astype(dt) if k else gen.vec(case["vec"], n, c).astype(dt)
    v, w = lay(v, case["layout"]), lay(w, case["layout"])
    general = hasattr(b, "project_to")
    kw = {"pcon": True} if pcon else {}
    sparse = case["sparse"]
    if general or not pcon:
        for name in ("project_from", "get_vec"):
            apply_check(lambda x, sparse: getattr(b, name)(x, sparse=sparse, **kw), v, A @ v, sparse, tol, name)
        if not general and k:
            apply_check(lambda x, sparse: b.project_from(x, sparse=sparse), sp.csc_matrix(v), A @ v, True, tol, "project_from(sparse)")
    if general:
        apply_check(lambda x, sparse: b.project_to(x, sparse=sparse, **kw), w, A.conj().T @ w, sparse, tol, "project_to")
        back = b.project_to(b.project_from(v, sparse=False, **kw).reshape((n,) + v.shape[1:]), sparse=False, **kw)
        check(ref.close(np.asarray(back).reshape(v.shape), v, tol), "projecting does not undo lifting")
    A2 = (b.get_proj(dt, pcon=True) if pcon else b.get_proj(dt)).toarray()
    check(np.array_equal(A, A2), "the projector differs when asked for again")
    return labels + (["sparse"] if sparse else []), b.Ns > 1 and b.Ns < n


@st.composite
def cases(draw):
    c = draw(c04.cases())
    return {"basis": c["basis"], "dtype": draw(st.sampled_from("dDDfF")), "pcon": draw(st.booleans()), "sparse": draw(st.booleans()),
            "cols": draw(st.sampled_from([0, 0, 1, 2, 3])), "vec": draw(gen.seeds), "layout": draw(st.sampled_from(["C", "C", "F", "strided"]))}


@st.composite
def large(draw):
    c = draw(c04.large())
    return {"basis": c["basis"], "dtype": draw(st.sampled_from("dDDfF")), "pcon": True, "sparse": draw(st.booleans()),
            "cols": draw(st.sampled_from([0, 0, 1, 2, 3])), "vec": draw(gen.seeds), "layout": "C", "large": True}


@st.composite
def big_groups(draw):
    spec = draw(c03.big_groups())["basis"]
    return {"basis": spec, "dtype": draw(st.sampled_from("dD")), "pcon": True, "sparse": draw(st.booleans()),
            "cols": draw(st.sampled_from([0, 0, 1, 2])), "vec": draw(gen.seeds), "layout": "C", "large": True}


FAMILIES = [
    Family("projectors", cases, run, 3000, 60000),
    Family("large_sectors", large, run, 240, 5000),
    Family("big_groups", big_groups, run, 120, 3000),
]
