"""C10: reduced density matrices and entanglement entropies."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, ref
from checks import c04, c05
from vf import Family, Reject, check, fail

ID = "C10"
TECHNIQUE = "property-based testing: random bases, bipartitions and pure, stacked and mixed states, dense and sparse, against the partial trace of the state lifted to the product space"
LEVEL_NOTE = ("sampled, not exhaustive: lattices of up to 11 sites and 1024 product states, tensor and photon products of such bases; fermionic subsystems as in the "
              "occupation product space (no reordering signs), Renyi index >= 1/2; trusts get_proj (C05), lib/ref.py and numpy")

RULE = ("cases: a basis, a bipartition, one or several pure or mixed states, and options of partial_trace and ent_entropy; "
        "non-trivial: both parts have dimension >= 2 and the state is not a product basis state")
DT = {"f": np.float32, "d": np.float64, "F": np.complex64, "D": np.complex128}
ALPHAS = [1.0, 1.0, 0.5, 2.0, 3.0, 1.5]


# ------------------------------------------------------------ reference
def ref_traces(states, kind, dims_perm):
    """rho_A and rho_B (the latter complex conjugated: Psi^dagger Psi, as QuSpin and its tests have it) for every state of the list (vectors or matrices over the product space); dims_perm: how to bring an
    index of the product space to (A,B)"""
    out = []
    for s in states:
        if s.ndim == 1:
            m = dims_perm(s)
            out.append((m @ m.conj().T, m.conj().T @ m))
        else:
            r = dims_perm(s)
            out.append((np.einsum("ikjk->ij", r), np.einsum("kikj->ij", r).conj()))
    return out


def lattice_perm(sps, N, A):
    B = [i for i in range(N) if i not in A]
    order = list(A) + B
    dA, dB = sps ** len(A), sps ** len(B)

    def f(s):
        if s.ndim == 1:
            return s.reshape((sps,) * N).transpose(order).reshape(dA, dB)
        return s.reshape((sps,) * (2 * N)).transpose(order + [N + i for i in order]).reshape(dA, dB, dA, dB)

    return f, dA, dB


def product_perm(nl, nr, left):
    def f(s):
        if s.ndim == 1:
            m = s.reshape(nl, nr)
            return m if left else m.T
        r = s.reshape(nl, nr, nl, nr)
        return r if left else r.transpose(1, 0, 3, 2)

    return f, (nl if left else nr), (nr if left else nl)


def entropy(ev, alpha):
    p = np.clip(ev, 0, None)
    if alpha == 1.0:
        q = p[p > 1e-300]
        return float(-(q * np.log(q)).sum())
    return float(np.log((p ** alpha).sum()) / (1 - alpha))


# ------------------------------------------------------------ judging
def arr(x):
    return x.toarray() if sp.issparse(x) else np.asarray(x)


def split(x, k, d, what):
    """the k density matrices in a returned object"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        x = list(x.ravel())
    if isinstance(x, (list, tuple)):
        check(len(x) == k, lambda: "%s: %d results for %d states" % (what, len(x), k))
        ms = [arr(m) for m in x]
    else:
        a = arr(x)
        check(a.size == k * d * d, lambda: "%s: shape %s for %d states and dimension %d" % (what, a.shape, k, d))
        ms = list(a.reshape(k, d, d))
    for m in ms:
        check(m.shape == (d, d), lambda: "%s: shape %s instead of %s" % (what, m.shape, (d, d)))
    return ms


def compare(x, want, d, tol, what, sparse):
    for got, w in zip(split(x, len(want), d, what), want):
        check(ref.close(got, w, tol), lambda: "%s differs from the partial trace by %s" % (what, ref.maxdiff(got, w)))
    if sparse:
        first = x.ravel()[0] if isinstance(x, np.ndarray) and x.dtype == object else x
        check(sp.issparse(first), lambda: "%s: not sparse (%s)" % (what, type(first).__name__))


def judge_all(case, trace, entr, build, lift, perm, dA, dB, sizes, nmixed_ok=True):
    """trace(state, **kw), entr(state, **kw): the two functions, subsystem filled in; build: the states as passed;
    lift: from a reduced state to the product space"""
    o = case["opt"]
    ch = o["dtype"]
    kind, k = o["state"], o["k"]
    c = ch in "FD"
    n = case["_n"]
    single = ch in "fF"
    tol = 2e-5 if single else 1e-10
    cols = []
    if kind == "mixed":
        for j in range(k):
            g = gen.matrix([x + j for x in o["vec"]], n, 1 + o["rank"] % 3, c)
            g = g @ g.conj().T
            tr = np.trace(g).real
            cols.append(g / tr if tr > 0 else np.eye(n) / n)
    else:
        for j in range(k):
            v = gen.normed(gen.vec([x + 5 * j for x in o["vec"]], n, c))
            if o["rank"] == 0:
                v = np.zeros(n, dtype=v.dtype)
                v[o["vec"][0] % n] = 1
            cols.append(v)
    stacked = k > 1 or o["stack"]
    if kind == "mixed":
        state = np.stack(cols, axis=-1) if stacked else cols[0]
    else:
        state = np.stack(cols, axis=-1) if stacked else cols[0]
    state = np.ascontiguousarray(state.astype(DT[ch]))
    if o["layout"] == "F":
        state = np.asfortranarray(state)
    if kind == "mixed" and stacked:
        reduced = [state[:, :, j].astype(complex) for j in range(k)]
    elif stacked:
        reduced = [state[:, j].astype(complex) for j in range(k)]
    else:
        reduced = [state.astype(complex)]
    full = [lift(r) for r in reduced]
    want = ref_traces(full, kind, perm)
    kw = {}
    if kind == "pure":
        if o["enforce"] or (stacked and k == n):
            kw["enforce_pure"] = True
    sparse_in = o["fmt"] if (kind == "pure") else None
    sparse = False
    passed = state
    if sparse_in in ("csr", "csc", "coo"):
        passed = getattr(sp, sparse_in + "_matrix")(state if state.ndim == 2 else state.reshape(-1, 1))
        sparse = True
        if n == 1:
            kw["enforce_pure"] = True
    elif sparse_in == "flag":
        kw["sparse"] = sparse = True
    keep = passed.copy()

    def same():
        a, b = arr(passed), arr(keep)
        check(np.array_equal(a, b), "the state passed in was changed")
        if sp.issparse(passed):
            for att in ("indices", "indptr", "row", "col"):
                if hasattr(passed, att):
                    check(np.array_equal(getattr(passed, att), getattr(keep, att)), "the sparse state passed in was changed (%s)" % att)

    for side in ("A", "B", "both"):
        if side not in o["sides"]:
            continue
        out = trace(passed, return_rdm=side, **kw)
        same()
        if side == "both":
            check(isinstance(out, tuple) and len(out) == 2, "return_rdm='both' does not return two results")
        ra, rb = out if side == "both" else (out, out)
        if side != "B":
            compare(ra, [w[0] for w in want], dA, tol, "rho_A from partial_trace(%s)" % side, sparse)
        if side != "A":
            compare(rb, [w[1] for w in want], dB, tol, "rho_B from partial_trace(%s)" % side, sparse)
    # entropies
    alpha = o["alpha"]
    for side in [None, "A", "B", "both"]:
        if str(side) not in o["esides"]:
            continue
        ekw = dict(kw)
        if o["evs"]:
            ekw["return_rdm_EVs"] = True
        if sparse:
            ekw["sparse_diag"] = o["sparse_diag"]
        elif o.get("svd") and kind == "pure" and case["what"] == "lattice":
            import scipy.linalg

            if o["svd"] == "scipy":
                ekw["svd_solver"], ekw["svd_kwargs"] = scipy.linalg.svd, {"full_matrices": False}
            elif o["svd"] == "scipy_full":
                ekw["svd_solver"] = scipy.linalg.svd
            elif o["svd"] == "values" and side is None:
                ekw["svd_solver"], ekw["svd_kwargs"] = scipy.linalg.svd, {"compute_uv": False}
            elif o["svd"] == "numpy":
                ekw["svd_solver"] = np.linalg.svd
        out = entr(passed, return_rdm=side, alpha=alpha, **ekw)
        same()
        what = "ent_entropy(%s)" % side
        need = set()
        pure = kind == "pure"
        if pure or side != "B":
            need.add("Sent_A")
        if side in ("B", "both"):
            need |= {"Sent_B", "rdm_B"}
        if side in ("A", "both"):
            need.add("rdm_A")
        if o["evs"]:
            if pure or side != "B":
                need.add("p_A")
            if side in ("B", "both"):
                need.add("p_B")
        check(need <= set(out), lambda: "%s: keys %s, expected %s" % (what, sorted(out), sorted(need)))
        e_abs = (2e-6 if single else 1e-13) * max(4, min(dA, dB))
        for X, d, i in (("A", dA, 0), ("B", dB, 1)):
            if "rdm_" + X in out:
                compare(out["rdm_" + X], [w[i] for w in want], d, tol, "%s: rdm_%s" % (what, X), sparse)
            evs = [np.sort(np.linalg.eigvalsh(w[i]))[::-1] for w in want]
            if "p_" + X in out:
                p = np.asarray(out["p_" + X])
                p = p.reshape(len(want), -1)
                for row, ev in zip(p, evs):
                    m = max(len(row), len(ev))
                    a, b = np.zeros(m), np.zeros(m)
                    a[:len(row)], b[:len(ev)] = np.sort(row.real)[::-1], ev
                    check(ref.close(a, b, 10 * e_abs), lambda: "%s: spectrum p_%s differs by %s" % (what, X, ref.maxdiff(a, b)))
            if "Sent_" + X in out:
                S = np.asarray(out["Sent_" + X]).reshape(-1)
                check(len(S) == len(want), lambda: "%s: %d entropies for %d states" % (what, len(S), len(want)))
                norm = sizes[i] if (sizes and o["density"]) else 1
                for s, ev in zip(S, evs):
                    w = entropy(ev, alpha) / norm
                    d_ = max(dA, dB) if not pure else min(dA, dB)
                    if alpha == 1.0:
                        t = d_ * e_abs * 60 + 1e-11
                    elif alpha < 1:
                        t = 3 * d_ * e_abs ** alpha / (1 - alpha)
                    else:
                        t = 5 * alpha * d_ ** alpha * e_abs / (alpha - 1)
                    check(abs(s - w) <= t + 1e-12, lambda: "%s: S_%s(alpha=%s)=%.12g instead of %.12g" % (what, X, alpha, s, w))
    labels = [case["what"], kind, "k=%d" % k if stacked else "single", ch, "sparse" if sparse else "dense"] + (["renyi"] if alpha != 1.0 else [])
    nontrivial = dA > 1 and dB > 1 and o["rank"] != 0 and n > 1
    return labels, nontrivial


def run_lattice(case):
    spec = case["basis"]
    m = gen.model_of(spec)
    N = m.N
    if N < 2:
        raise Reject("one site")
    b = c04.build(spec, "plain")
    n = b.Ns
    if n == 0:
        return ["empty"], False
    if case["opt"]["state"] == "mixed" and m.sps ** N > 260:
        case["opt"]["state"] = "pure"
    if case["opt"]["state"] == "pure" and not c05.is_real(spec):  # real states are refused in complex blocks (project_from)
        case["opt"]["dtype"] = {"f": "F", "d": "D"}.get(case["opt"]["dtype"], case["opt"]["dtype"])
    if case["opt"]["state"] != "mixed" and n == 1 and (case["opt"]["k"] > 1 or case["opt"]["stack"]):
        case["opt"]["enforce"] = True
    mask = case["A"]
    order = sorted(range(N), key=lambda i: (mask[i % len(mask)] * 31 + i * 17 * mask[0]) % 101)
    A = order[: 1 + mask[-1] % (N - 1)]
    ordered = case["ordered"]
    P = b.get_proj(np.complex128)
    uf = spec["kind"].startswith("uf")
    nested_t = nested_e = False
    if uf:
        L = spec["N"]
        adv = spec.get("kw", {}).get("simple_symm") is False
        nested_t = spec["kind"] == "uf1d"
        nested_e = not adv
        A = [i for i in A if i < L] + [i for i in A if i >= L]
    Aeff = sorted(A) if ordered else list(A)

    def pair(a):
        return ([i for i in a if i < L], [i - L for i in a if i >= L])

    typ = tuple if case["tuple"] else list
    kw = {} if ordered else {"subsys_ordering": False}

    def sub(nested):
        return pair(A) if nested else typ(A)

    default = case["default"]
    if default:  # the documented default: the first half of the chain
        if uf:
            L = spec["N"]
            A_ = list(range(L // 2)) + [L + i for i in range(L // 2)]
        else:
            A_ = list(range(N // 2))
        if not A_ or (uf and not nested_t):
            default = False
        else:
            Aeff = A_
    perm, dA, dB = lattice_perm(m.sps, N, Aeff)

    def trace(s, **k):
        return b.partial_trace(s, sub_sys_A=None if default else sub(nested_t), **dict(k, **kw))

    def entr(s, **k):
        k = dict(k, **kw)
        if not case["opt"]["density"]:
            k["density"] = False
        return b.ent_entropy(s, sub_sys_A=None if default else sub(nested_e), **k)

    def lift(r):
        return P @ r if r.ndim == 1 else (P @ (P.conj() @ r.T).T)

    case["what"], case["_n"] = "lattice", n
    labels, nt = judge_all(case, trace, entr, None, lift, perm, dA, dB, (len(Aeff), N - len(Aeff)))
    return labels + [spec["kind"]] + (["N>=9"] if N >= 9 else []) + (["blocks"] if "blocks" in spec or "maps" in spec else []), nt


def run_tensor(case):
    from quspin.basis import tensor_basis

    bs = [c04.build(s, "plain") for s in case["parts"]]
    if any(x.Ns == 0 for x in bs):
        return ["empty"], False
    dims = [x.Ns for x in bs]
    if np.prod(dims) > 400:
        raise Reject("large")
    b = tensor_basis(*bs)
    nl, nr = dims[0], int(np.prod(dims[1:]))
    left = case["side"] != "right"
    perm, dA, dB = product_perm(nl, nr, left)
    n = nl * nr
    if case["opt"]["state"] == "mixed" and n > 130:
        case["opt"]["state"] = "pure"
    case["what"], case["_n"] = "tensor", n

    def trace(s, **k):
        if case["side"] == "both":  # sub_sys_A="both" sets return_rdm; "left" and rho_A are the defaults
            if k["return_rdm"] == "both":
                return b.partial_trace(s, sub_sys_A="both", **{x: v for x, v in k.items() if x != "return_rdm"})
            return b.partial_trace(s, **{x: v for x, v in k.items() if x != "return_rdm" or v != "A"})
        return b.partial_trace(s, sub_sys_A=case["side"], **k)

    def entr(s, **k):
        if case["side"] == "both":
            return b.ent_entropy(s, **k)
        return b.ent_entropy(s, sub_sys_A=case["side"], **k)

    labels, nt = judge_all(case, trace, entr, None, lambda r: r, perm, dA, dB, None)
    return labels + ["parts=%d" % len(bs)], nt


def run_photon(case):
    from checks import c08

    b = c08.photon(case)
    n = b.Ns
    if n == 0:
        return ["empty"], False
    nr = case["nph"] + 1
    nl = b.particle_basis.Ns if hasattr(b, "particle_basis") else b.basis_left.Ns
    if case["conserved"]:
        nphot = c08.photon_numbers(case, b)
        lifted = np.arange(nl) * nr + nphot
    else:
        lifted = np.arange(n)
    full = nl * nr

    def lift(r):
        if r.ndim == 1:
            out = np.zeros(full, dtype=complex)
            out[lifted] = r
        else:
            out = np.zeros((full, full), dtype=complex)
            out[np.ix_(lifted, lifted)] = r
        return out

    if case["opt"]["state"] == "mixed" and full > 130:
        case["opt"]["state"] = "pure"
    left = case["side"] != "photons"
    perm, dA, dB = product_perm(nl, nr, left)
    case["what"], case["_n"] = "photon", n
    side = case["side"]
    kw = {} if side == "default" else {"sub_sys_A": side}
    labels, nt = judge_all(case, lambda s, **k: b.partial_trace(s, **dict(k, **kw)), lambda s, **k: b.ent_entropy(s, **dict(k, **kw)),
                           None, lift, perm, dA, dB, None)
    return labels + [case["particles"]["kind"], "conserved" if case["conserved"] else "cutoff"], nt


# ------------------------------------------------------------ generators
def options():
    return st.fixed_dictionaries({
        "dtype": st.sampled_from("dDDDfF"), "state": st.sampled_from(["pure", "pure", "pure", "mixed"]), "k": st.sampled_from([1, 1, 1, 2, 3]),
        "stack": st.booleans(), "rank": st.sampled_from([0, 1, 1, 2, 3]), "vec": gen.seeds, "enforce": st.booleans(), "layout": st.sampled_from("CCF"),
        "fmt": st.sampled_from(["dense", "dense", "csr", "csc", "coo", "flag"]), "sides": st.sampled_from([["A"], ["B"], ["both"], ["A", "B", "both"]]),
        "esides": st.sampled_from([["None"], ["A"], ["B"], ["both"], ["None", "A", "B", "both"]]), "alpha": st.sampled_from(ALPHAS), "evs": st.booleans(),
        "sparse_diag": st.booleans(), "density": st.booleans(), "svd": st.sampled_from([None, None, "numpy", "scipy", "scipy_full", "values"])})


SUB = dict(A=st.lists(st.integers(0, 60), min_size=2, max_size=6), ordered=st.booleans(), tuple=st.booleans(), default=st.sampled_from([False] * 7 + [True]))


@st.composite
def lattice_cases(draw):
    c = draw(c04.cases())
    return dict({"basis": c["basis"], "opt": draw(options())}, **{k: draw(v) for k, v in SUB.items()})


@st.composite
def long_cases(draw):
    kind = draw(st.sampled_from(["spin1d", "boson1d", "sf1d", "spingen", "bosongen", "sfgen", "uf1d"]))
    N = draw(st.integers(9, 10))
    spec = {"kind": kind, "N": N, "pcon": draw(st.integers(1, 2))}
    if kind == "uf1d":
        spec["N"] = 5
        spec["pcon"] = draw(st.sampled_from([[1, 1], [1, 0], [2, 1]]))
    if kind.startswith("spin"):
        spec.update(twoS=1, pauli=1)
    if kind.startswith("boson"):
        spec["sps"] = 2
    o = draw(options())
    o["state"] = "pure"
    return dict({"basis": spec, "opt": o}, **{k: draw(v) for k, v in SUB.items()})


@st.composite
def tensor_cases(draw):
    parts = []
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        parts.append(draw(c04.cases().filter(lambda c: True))["basis"] if draw(st.integers(0, 3)) == 0 else draw(gen.basis_specs(maxdim=draw(st.sampled_from([4, 9, 16])))))
    return {"parts": parts, "side": draw(st.sampled_from(["left", "right", "both"])), "opt": draw(options())}


@st.composite
def photon_cases(draw):
    from checks import c08

    c = draw(c08.photon_specs(maxdim=40))
    return dict(c, side=draw(st.sampled_from(["particles", "photons", "default", "left", "right"]).map(lambda s: {"left": "particles", "right": "photons"}.get(s, s))),
                opt=draw(options()))


FAMILIES = [
    Family("lattice", lattice_cases, run_lattice, 2500, 50000),
    Family("long", long_cases, run_lattice, 300, 6000),
    Family("tensor", tensor_cases, run_tensor, 1500, 30000),
    Family("photon", photon_cases, run_photon, 900, 20000),
]
