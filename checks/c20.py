"""C20: measurement and utility functions."""
import math

import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, hams, ref
from vf import Family, Reject, check, fail

ID = "C20"
TECHNIQUE = ("property-based testing: random ensembles, observables, eigenbases, time series and distributions against the documented formulas evaluated directly, with partial traces and projections "
             "computed in the full product space")
LEVEL_NOTE = "sampled, not exhaustive: spin, boson and fermion chains up to 20 states, symmetry blocks included; Renyi orders 1/2 to 3 and real or complex data; trusts lib/ref.py and numpy's linear algebra"

RULE = "cases: states, eigenbasis, observables and options; non-trivial: more than one state and complex eigenvectors or several quantities at once"


def rmat(rng, n, cplx, m=None):
    A = rng.randn(n, m or n)
    return A + 1j * rng.randn(*A.shape) if cplx else A


def rherm(rng, n, cplx):
    A = rmat(rng, n, cplx)
    return (A + A.conj().T) / 2


def runit(rng, n, cplx):
    return la.qr(rmat(rng, n, cplx))[0]


BASES = [("spin", 2, {}), ("spin", 3, {}), ("spin", 4, {"Nup": 2}), ("spin", 4, {"kblock": 1}), ("spin", 4, {"kblock": 0, "pblock": 1}), ("spin", 5, {"Nup": 2}), ("boson", 2, {"sps": 3}),
         ("boson", 3, {"Nb": 2}), ("fermion", 3, {}), ("fermion", 4, {"Nf": 2}), ("fermion", 4, {"Nf": 2, "kblock": 1}), ("spin", 1, {}), ("spin", 4, {"Nup": 2, "kblock": 2, "pblock": -1})]


COMPLEX = (3, 10)  # blocks with complex states, which do not take real vectors


def basis_of(k):
    import quspin.basis as qb

    kind, L, kw = BASES[k]
    con = {"spin": qb.spin_basis_1d, "boson": qb.boson_basis_1d, "fermion": qb.spinless_fermion_basis_1d}[kind]
    return con(L, **kw)


def lift(b, V):
    """states in the full product space: the Fock states of the basis class in descending order, site 0 first"""
    n = b.sps ** b.L
    P = ref.dense(b.get_proj(np.complex128))
    P = np.asarray(P)
    check(P.shape == (n, b.Ns), "projector shape")
    return P @ V


def rdm_A(b, v, A):
    """reduced density matrix of a pure state of the full product space on the sites A (in this order)"""
    t = v.reshape((b.sps,) * b.L)
    rest = [i for i in range(b.L) if i not in A]
    t = t.transpose(list(A) + rest).reshape(b.sps ** len(A), -1)
    return t @ t.conj().T


def renyi(p, al):
    p = np.clip(np.real(p), 0, None)
    p = p[p > 1e-14]
    return float(-(p * np.log(p)).sum() if al == 1 else np.log((p ** al).sum()) / (1 - al))


def close(got, want, tol, what):
    got, want = np.asarray(got), np.asarray(want)
    check(got.shape == want.shape, lambda: "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    d = np.abs(got - want).max(initial=0)
    check(d <= tol, lambda: "%s: %s instead of %s (off by %.3g)" % (what, got, want, d))


def obs_as(A, form):
    from quspin.operators import hamiltonian

    if form == "hamiltonian":
        return hamiltonian([A], [], dtype=A.dtype)
    if form == "csr":
        return sp.csr_matrix(A)
    if form == "list":
        return A.tolist()
    return A.copy()


# ---------------------------------------------------------------- diag_ensemble
def f_custom(E, b):
    return 1.0 / (1.0 + np.abs(E - E[0]) * b)


def f_gauss(E, b):
    return np.exp(-b * (E - 0.3) ** 2)


def run_diag(c):
    from quspin.tools.measurements import diag_ensemble

    if c["basis"] in COMPLEX:
        c = dict(c, cplx=True, scplx=True)
    b = basis_of(c["basis"])
    n = b.Ns
    rng = np.random.RandomState(c["seed"])
    V2 = runit(rng, n, c["cplx"])
    E2 = rng.permutation(np.cumsum(0.1 + rng.rand(n)))
    al = c["alpha"]
    A = {"random": lambda: rherm(rng, n, c["ocplx"]), "identity": lambda: np.eye(n) * 0.7, "diagonal": lambda: np.diag(np.arange(n) * 0.5), "commuting": lambda: (V2 * rng.randn(n)) @ V2.conj().T,
         "zero": lambda: np.zeros((n, n))}[c["obs"]]()
    s = 1 + np.abs(A).max()
    # probabilities (state, weight): rho has a column for every pure state in question
    kind = c["state"]
    kw, extra = {}, {}
    names = {"pure": "pure", "eigen": "pure", "dm": "DM", "thermal": "thermal", "mixed": "mixed"}[kind]
    W = None
    if kind in ("pure", "eigen"):
        psi = rmat(rng, n, c["scplx"], 1)[:, 0] if kind == "pure" else V2[:, c["seed"] % n].copy()
        psi = psi / la.norm(psi)
        state = psi
        rho = np.abs(V2.conj().T @ psi) ** 2
        keep = psi.copy()
    elif kind == "dm":
        X = rmat(rng, n, c["scplx"])
        R = X @ X.conj().T
        R = R / np.trace(R).real
        state, keep = R, R.copy()
        rho = np.real(np.diag(V2.conj().T @ R @ V2))
    else:
        V1 = runit(rng, n, c["scplx"])
        E1 = np.sort(rng.randn(n))
        args = c["args"]
        fa = np.array(args) if c["arr"] else list(args)
        state = {"V1": V1, "E1": E1, "f_args": [fa]}
        if kind == "mixed":
            f = f_custom if c["f"] else f_gauss
            state["f"] = f
        else:
            f = lambda E, beta: np.exp(-beta * (E - E[0]))
        if c["vstate"]:
            state["V1_state"] = [x % n for x in c["vstate"]]
        if c["fnorm"] is not None:
            state["f_norm"] = c["fnorm"]
        rho = np.abs(V2.conj().T @ V1) ** 2  # (n2, n1)
        W = np.array([f(E1, a) for a in args], float).T  # (n1, number of arguments)
        norms = W.sum(axis=0)
        if c["fnorm"] is not False:
            W = W / norms
        keep = {k: (np.array(v) if k in ("V1", "E1") else v) for k, v in state.items()}
        keepargs = np.array(args, float)
    cols = rho if rho.ndim == 2 else rho[:, None]
    want = {}
    O = V2.conj().T @ A @ V2
    N = b.L
    dens = c["density"] in (None, True)
    D = N if dens else 1
    if c["Obs"]:
        want["Obs"] = (np.diag(O).real @ cols) / D
        kw["Obs"] = obs_as(A, c["form"])
        if c["dt"] or c["dq"]:
            O2 = np.abs(O) ** 2
            np.fill_diagonal(O2, 0)
            t2 = np.array([x @ O2 @ x for x in cols.T])
            want["delta_t_Obs"] = np.sqrt(t2) / D
            if c["dt"]:
                kw["delta_t_Obs"] = True
            if c["dq"]:
                kw["delta_q_Obs"] = True
                q2 = np.real(np.diag(O @ O)) @ cols - t2 - (np.diag(O).real @ cols) ** 2
                want["delta_q_Obs"] = np.sqrt(np.clip(q2, 0, None)) / D
    ren = "" if al == 1 else "_Renyi"
    if c["Sd"]:
        kw["Sd_Renyi"] = True
        want["Sd" + ren] = np.array([renyi(x, al) for x in cols.T]) / D
    if c["Srdm"]:
        sa = {"basis": b}
        sub = sorted(x for x in set(c["sub"]) if x < N)
        if sub and len(sub) < N:
            sa["sub_sys_A" if c["subname"] else "chain_subsys"] = tuple(sub)
        else:
            sub = list(range(N // 2))
            if not sub:
                raise Reject("no subsystem")
        kw["Srdm_Renyi"] = True
        kw["Srdm_args"] = sa
        keepsa = dict(sa)
        F = lift(b, V2)
        r = [rdm_A(b, F[:, i], sub) for i in range(n)]
        want["Srdm" + ren] = np.array([renyi(la.eigvalsh(sum(w * x for w, x in zip(col, r))), al) for col in cols.T]) / (len(sub) if dens else 1)
    if c["rho_d"]:
        kw["rho_d"] = True
    if al != 1 or c["seed"] % 2:
        kw["alpha"] = al
    if c["density"] is not None:
        kw["density"] = c["density"]
    V2k, E2k, Ak = V2.copy(), E2.copy(), A.copy()
    out = diag_ensemble(N, state, E2.tolist() if c["arr"] else E2, V2, **kw)
    check(np.array_equal(V2, V2k) and np.array_equal(E2, E2k), "diag_ensemble changed V2 or E2")
    if "Obs" in kw:
        B = kw["Obs"]
        check(np.array_equal(B if isinstance(B, np.ndarray) else B.toarray(), Ak), "diag_ensemble changed the observable")
    if isinstance(state, dict):
        check(set(state) == set(keep) and all(np.array_equal(state[k], keep[k]) for k in ("V1", "E1")) and np.array_equal(np.array(state["f_args"][0], float), keepargs), "diag_ensemble changed its state dictionary")
    else:
        check(np.array_equal(state, keep), "diag_ensemble changed the state")
    if c["Srdm"]:
        check(set(kw["Srdm_args"]) == set(keepsa) and kw["Srdm_args"]["basis"] is b, "diag_ensemble changed Srdm_args")
    tol = 1e-9 * s if al >= 1 else 3e-6
    keys = set()
    for k, x in want.items():
        t = tol
        if k.startswith("delta"):
            t = 3e-7 * s  # square root of a difference
        key = "%s_%s" % (k, names)
        keys.add(key)
        check(key in out, lambda: "no key %s (%s)" % (key, sorted(out)))
        got = out[key]
        check(np.isrealobj(got) and np.isfinite(np.asarray(got)).all(), lambda: "%s is not real and finite: %s" % (key, got))
        if W is None:
            close(got, x[0], t, key)
        else:
            close(got, x @ W, t * max(1, np.abs(W).sum(axis=0).max()), key)
            if c["vstate"]:
                key = k + "_V1_state"
                keys.add(key)
                check(key in out, lambda: "no key %s (%s)" % (key, sorted(out)))
                close(out[key], x[state["V1_state"]], t, key)
    if W is not None and c["fnorm"] is False:
        keys.add("f_norm")
        check("f_norm" in out, "no key f_norm")
        close(out["f_norm"], norms, 1e-9 * (1 + norms.max()), "f_norm")
    if c["rho_d"]:
        keys.add("rho_d")
        close(out["rho_d"], rho[:, state["V1_state"]] if W is not None and c["vstate"] else rho, 1e-11, "rho_d")
    check(set(out) == keys, lambda: "keys %s instead of %s" % (sorted(out), sorted(keys)))
    if n > 1 and c["seed"] % 5 == 0:
        E2[1] = E2[0]
        try:
            diag_ensemble(N, state, E2, V2, **kw)
        except TypeError:
            pass
        else:
            fail("degenerate eigenvalues were accepted")
    return [kind, "alpha %s" % al] + sorted(k for k in want), n > 1 and bool(want) and (c["cplx"] or len(want) > 1)


# ---------------------------------------------------------------- obs_vs_time
def run_obs(c):
    from quspin.operators import hamiltonian
    from quspin.tools.measurements import obs_vs_time

    if c["basis"] in COMPLEX:
        c = dict(c, cplx=True, scplx=True)
    b = basis_of(c["basis"])
    n = b.Ns
    rng = np.random.RandomState(c["seed"])
    V, E = runit(rng, n, c["cplx"]), rng.randn(n)
    times = np.array(c["times"], float)
    if c["nt"] == "n":
        times = np.linspace(0.1, 2.0, n)
    nt = len(times)
    kind = c["state"]
    k = {"many": c["k"], "square": n}.get(kind, 1)
    U = [(V * np.exp(-1j * E * t)) @ V.conj().T for t in times]
    if kind == "dm":
        X = rmat(rng, n, c["scplx"])
        X0 = X @ X.conj().T
        X0 = X0 / np.trace(X0).real
        X = [u @ X0 @ u.conj().T for u in U]
        pure = None
    elif kind == "one":
        X0 = rmat(rng, n, c["scplx"], 1)[:, 0]
        X0 = X0 / la.norm(X0)
        X = [u @ X0 for u in U]
    else:
        X0 = rmat(rng, n, c["scplx"], k)
        X0 = X0 / la.norm(X0, axis=0)
        X = [u @ X0 for u in U]
    # observables
    obs, vals = {}, {}
    for i, (form, d, cp) in enumerate(c["obs"]):
        A = rherm(rng, n, cp)
        key = ["O", "energy", "a b", 3][i]
        if form in ("dynamic", "both"):
            B = rherm(rng, n, cp)
            f, a = hams.DRIVES[d]
            S = A if form == "both" else np.zeros((n, n))
            obs[key] = hamiltonian([A] if form == "both" else [], [[B, f, list(a)]], dtype=A.dtype)
            vals[key] = [S + hams.fval(d, t) * B for t in times]
        else:
            obs[key] = obs_as(A, form)
            vals[key] = [A] * nt
    kw = {}
    src = c["source"]
    if kind in ("many", "square") and src == "ed":
        src = "array"
    if kind in ("many", "square"):
        kw["enforce_pure"] = True
    if src == "ed":
        psi = (X0.copy(), E.copy(), V.copy())
        keep = [x.copy() for x in psi]
    elif src == "array":
        psi = np.stack(X, axis=-1)
        keep = psi.copy()
    else:
        psi = (x for x in X)
    if c["ret"]:
        kw["return_state"] = True
    sent = None
    if c["sent"] and b.L > 1 and kind in ("one", "dm"):
        sub = list(range(b.L // 2))
        sent = {"basis": b}
        if c["sub"]:
            sub = sorted(x for x in set(c["sub"]) if x < b.L)
            if sub and len(sub) < b.L:
                sent["chain_subsys" if c["old"] else "sub_sys_A"] = tuple(sub)
            else:
                sub = list(range(b.L // 2))
        if c["old"]:
            if c["dm"]:
                sent["DM"] = "chain_subsys"
        elif c["dm"]:
            sent["return_rdm"] = "A"
        kw["Sent_args"] = sent
    before = dict(obs)
    keepsent = dict(sent) if sent else None
    out = obs_vs_time(psi, times.tolist() if c["tlist"] else times, obs, **kw)
    check(set(obs) == set(before) and all(obs[x] is before[x] for x in obs), "obs_vs_time changed the dictionary of observables")
    if sent:
        check(sent == keepsent, "obs_vs_time changed Sent_args")
    if src == "ed":
        check(all(np.array_equal(x, y) for x, y in zip(psi, keep)), "obs_vs_time changed the state data")
    elif src == "array":
        check(np.array_equal(psi, keep), "obs_vs_time changed the states")
    for key in obs:
        check(key in out, lambda: "no key %r" % (key,))
        A = vals[key]
        if kind == "dm":
            want = np.array([np.trace(x @ a) for x, a in zip(X, A)])
        elif kind == "one":
            want = np.array([np.vdot(x, a @ x) for x, a in zip(X, A)])
        else:
            want = np.array([np.einsum("ij,ij->j", x.conj(), a @ x) for x, a in zip(X, A)])
            if src == "array" or c["ret"]:
                want = want.T
        got = np.asarray(out[key])
        if kind in ("many", "square") and (k == 1 or nt == 1) and got.size == want.size:
            got = got.reshape(want.shape)
        close(got, want, 1e-9 * n, "expectation of %r (%s)" % (key, src))
    keys = set(obs)
    if c["ret"]:
        keys.add("psi_t")
        check("psi_t" in out, "no key psi_t")
        got, want = np.asarray(out["psi_t"]), np.stack(X, axis=-1)
        close(got.reshape(want.shape) if got.size == want.size else got, want, 1e-9, "psi_t")
    if sent:
        keys.add("Sent_time")
        F = lift(b, np.eye(n))
        rs = []
        for x in X:
            if kind == "one":
                rs.append(rdm_A(b, F @ x, sub))
            else:
                w, u = la.eigh(x)
                rs.append(sum(wi * rdm_A(b, F @ u[:, i], sub) for i, wi in enumerate(w)))
        S = np.array([renyi(la.eigvalsh(r), 1) for r in rs])
        St = out["Sent_time"]
        names = ["Sent" if c["old"] and ("chain_subsys" in sent or "DM" in sent) else "Sent_A"]
        for nm in names:
            check(nm in St, lambda: "no %s in Sent_time: %s" % (nm, sorted(St)))
            got = np.asarray(St[nm])
            want = S
            # the entropy of the library is per site of the subsystem by default
            want = S / len(sub)
            close(got.reshape(want.shape) if got.size == want.size else got, want, 1e-6, "entanglement entropy over time")
        if c["dm"]:
            nm = "DM_chain_subsys" if c["old"] else "rdm_A"
            got = np.asarray(St[nm])
            want = np.array(rs)
            close(got.reshape(want.shape) if got.size == want.size else got, want, 1e-8, "reduced density matrices over time")
    check(set(out) == keys, lambda: "keys %s instead of %s" % (sorted(map(str, out)), sorted(map(str, keys))))
    return [src, kind, "entropy" if sent else "", "nt = n" if nt == n else ""], n > 1 and bool(obs)


# ---------------------------------------------------------------- project_op
def run_proj(c):
    from quspin.operators import hamiltonian, ishamiltonian
    from quspin.tools.measurements import project_op

    rng = np.random.RandomState(c["seed"])
    if c["basis"] in COMPLEX:
        c = dict(c, cplx=True, scplx=True)
    b = basis_of(c["basis"])
    P = np.asarray(ref.dense(b.get_proj(np.complex128)))
    big, small = P.shape
    if c["random"]:
        small = min(max(1, small), big)
        P = runit(rng, big, c["cplx"])[:, :small]
    n = big if c["down"] else small
    A = rherm(rng, n, c["ocplx"])
    form = c["form"]
    if form == "dynamic":
        B = rherm(rng, n, c["ocplx"])
        f, a = hams.DRIVES[0]
        O = hamiltonian([A], [[B, f, list(a)]], dtype=A.dtype)
    else:
        O = obs_as(A, form)
        B = np.zeros_like(A)
    if not c["random"] and c["usebasis"]:
        pr = b
    else:
        pr = {"dense": P, "csr": sp.csr_matrix(P), "csc": sp.csc_matrix(P)}[c["pform"]].copy()
    kw = {"dtype": np.complex128} if c["seed"] % 2 else {}
    out = project_op(O, pr, **kw)
    check(set(out) == {"Proj_Obs"}, "keys")
    R = out["Proj_Obs"]
    check(ishamiltonian(R) == ishamiltonian(O), "a hamiltonian is projected to a hamiltonian, a matrix to a matrix")
    for t in (0.0, 0.7):
        M = A + B * hams.fval(0, t)
        want = P.conj().T @ M @ P if c["down"] or big == small else P @ M @ P.conj().T
        got = R.toarray(time=t) if ishamiltonian(R) else ref.dense(R)
        close(np.asarray(got), want, 1e-9 * n, "projected observable")
        same = O.toarray(time=t) if ishamiltonian(O) else np.asarray(ref.dense(O))
        check(np.array_equal(same, M) or np.abs(same - M).max() < 1e-13, "project_op changed the observable")
    return [form, "down" if c["down"] else "up"], small < big and small > 1


# ---------------------------------------------------------------- KL_div, mean_level_spacing
def run_misc(c):
    from quspin.tools.misc import KL_div, mean_level_spacing

    p1, p2 = np.array(c["p1"], float), np.array(c["p2"], float)
    k = min(len(p1), len(p2))
    p1, p2 = p1[:k], p2[:k]
    if not p1.sum() or not p2.sum():
        raise Reject("no distribution")
    p1, p2 = p1 / p1.sum(), p2 / p2.sum()
    for _ in range(3):
        p1, p2 = p1 / p1.sum(), p2 / p2.sum()
    if max(abs(sum(p1) - 1), abs(sum(p2) - 1)) < 5e-14:
        a, b = (p1.tolist(), p2.tolist()) if c["lists"] else (p1.copy(), p2.copy())
        inf = any(x > 0 and y == 0 for x, y in zip(p1, p2))
        got = KL_div(a, b)
        check(np.array_equal(a, p1) and np.array_equal(b, p2), "KL_div changed its arguments")
        if inf:
            check(got == np.inf, lambda: "KL_div is %r instead of inf" % got)
        else:
            want = math.fsum(x * math.log(x / y) for x, y in zip(p1, p2) if x > 0)
            check(abs(got - want) <= 1e-12 * (1 + abs(want)) * k, lambda: "KL_div is %r instead of %r for %s and %s" % (got, want, p1, p2))
            check(got >= -1e-12, "KL_div is negative")
        for bad in (([*p1, 0.0], p2), (p1 * 1.1, p2), (p1, p2 * 0.9), (p1 + np.eye(k)[0] * -2, p2 + 0)):
            try:
                KL_div(*bad)
            except (TypeError, ValueError):
                continue
            fail("KL_div accepted %s" % (bad,))
    # level spacings
    E = np.array(sorted(c["E"]), float if not c["int"] else int)
    given = E.tolist() if c["lists"] else E.copy()
    got = mean_level_spacing(given, **({"verbose": False} if c["quiet"] else {}))
    check(np.array_equal(given, E), "mean_level_spacing changed its argument")
    if len(set(E.tolist())) < len(E):
        check(np.isnan(got), "mean_level_spacing of a degenerate spectrum is not nan")
    elif len(E) >= 3:
        s = [float(y - x) for x, y in zip(E, E[1:])]
        want = math.fsum(min(x, y) / max(x, y) for x, y in zip(s, s[1:])) / (len(s) - 1)
        check(abs(got - want) <= 1e-12, lambda: "mean_level_spacing is %r instead of %r for %s" % (got, want, E))
    if len(set(E.tolist())) > 1:
        try:
            mean_level_spacing(E[::-1].copy())
        except TypeError:
            pass
        else:
            fail("mean_level_spacing accepted a descending spectrum")
    return ["k=%d" % min(k, 5), "degenerate" if len(set(E.tolist())) < len(E) else "distinct"], k > 1 and len(E) > 3


# ---------------------------------------------------------------- the old ent_entropy function
def run_ent(c):
    from quspin.tools.measurements import ent_entropy

    if c["basis"] in COMPLEX:
        c = dict(c, cplx=True, scplx=True)
    b = basis_of(c["basis"])
    if b.L < 2:
        raise Reject("one site")
    n = b.Ns
    rng = np.random.RandomState(c["seed"])
    kind = c["state"]
    sub = sorted(x for x in set(c["sub"]) if x < b.L)
    if not sub or len(sub) == b.L:
        sub = list(range(b.L // 2))
    arg = tuple(sub) if c["seed"] % 3 else None
    if arg is None:
        sub = list(range(b.L // 2))
    F = lift(b, np.eye(n))
    if kind == "pure":
        v = rmat(rng, n, c["scplx"], 1)[:, 0]
        v = v / la.norm(v)
        state, parts = v, [[(1.0, v)]]
    elif kind == "states":
        V = rmat(rng, n, c["scplx"], c["k"])
        V = V / la.norm(V, axis=0)
        state, parts = {"V_states": V}, [[(1.0, V[:, i])] for i in range(c["k"])]
    else:
        V = runit(rng, n, c["scplx"])
        p = rng.rand(n)
        p = p / p.sum()
        parts = [[(p[i], V[:, i]) for i in range(n)]]
        state = {"V_rho": V, "rho_d": p} if kind == "diagonal" else (V * p) @ V.conj().T
    full = [[(w, F @ v) for w, v in pt] for pt in parts]
    rA = np.array([sum(w * rdm_A(b, v, sub) for w, v in pt) for pt in full])
    rest = [i for i in range(b.L) if i not in sub]
    rB = np.array([sum(w * rdm_A(b, v, rest) for w, v in pt) for pt in full])
    kw = {}
    al = c["alpha"]
    if al != 1:
        kw["alpha"] = al
    if c["density"] is not None:
        kw["density"] = c["density"]
    if c["DM"]:
        kw["DM"] = c["DM"]
    if c["lm"]:
        kw["svd_return_vec"] = [False, True, False]
    keep = {k: x.copy() for k, x in state.items()} if isinstance(state, dict) else state.copy()
    out = ent_entropy(state, b, chain_subsys=arg, **kw)
    if isinstance(state, dict):
        check(set(state) == set(keep) and all(np.array_equal(state[k], keep[k]) for k in keep), "ent_entropy changed its state")
    else:
        check(np.array_equal(state, keep), "ent_entropy changed its state")
    B = c["DM"] == "other_subsys"
    R, m = (rB, len(rest)) if B else (rA, len(sub))
    want = np.array([renyi(la.eigvalsh(r), al) for r in R])
    dens = c["density"] in (None, True)
    if dens:
        want = want / m
    check("Sent" in out, "no key Sent")
    close(np.asarray(out["Sent"]).reshape(-1), want, 1e-8 if al >= 1 else 1e-5, "Sent")
    sq = lambda x: np.asarray(x).reshape((len(parts),) + np.asarray(x).shape[-2:])
    if c["DM"] in ("chain_subsys", "both"):
        close(sq(out["DM_chain_subsys"]), rA, 1e-9, "DM_chain_subsys")
    if c["DM"] in ("other_subsys", "both"):
        got = sq(out["DM_other_subsys"])
        ok = min(np.abs(got - rB).max(), np.abs(got - rB.conj()).max())  # see C10 about the convention
        check(ok <= 1e-9, lambda: "DM_other_subsys is off by %.3g" % ok)
    if c["lm"]:
        got = np.sort(np.asarray(out["lmbda"]).reshape(len(parts), -1), axis=1)
        for g, r in zip(got, R):
            w = np.sort(np.sqrt(np.clip(la.eigvalsh(r), 0, None)))
            k = max(len(w), len(g))
            g, w = np.concatenate([np.zeros(k - len(g)), g]), np.concatenate([np.zeros(k - len(w)), w])
            check(np.abs(g - w).max() <= 1e-6, lambda: "lmbda %s instead of %s" % (g, w))
    return [kind, str(c["DM"])], n > 1 and kind != "pure" or c["scplx"]


# ---------------------------------------------------------------- generators
BI = st.integers(0, len(BASES) - 1)
SEED = st.integers(0, 10 ** 6)
SUB = st.lists(st.integers(0, 4), min_size=0, max_size=3)


def s_diag():
    return st.fixed_dictionaries({
        "basis": BI, "seed": SEED, "cplx": st.booleans(), "ocplx": st.booleans(), "scplx": st.booleans(), "alpha": st.sampled_from([1.0, 1.0, 1, 2.0, 2, 0.5, 3.0]),
        "obs": st.sampled_from(["random", "random", "random", "identity", "diagonal", "commuting", "zero"]), "form": st.sampled_from(["dense", "hamiltonian", "csr"]),
        "state": st.sampled_from(["pure", "pure", "eigen", "dm", "thermal", "mixed"]), "args": st.lists(st.sampled_from([0.5, 1.0, 2.0, 0, 1, 3]), min_size=1, max_size=3), "arr": st.booleans(),
        "f": st.booleans(), "vstate": st.one_of(st.none(), st.lists(st.integers(0, 20), min_size=1, max_size=3)), "fnorm": st.sampled_from([None, None, True, False, False]), "Obs": st.sampled_from([True, True, False]),
        "dt": st.booleans(), "dq": st.booleans(), "Sd": st.booleans(), "Srdm": st.booleans(), "sub": SUB, "subname": st.booleans(), "rho_d": st.booleans(), "density": st.sampled_from([None, True, False, False])})


def s_obs():
    return st.fixed_dictionaries({
        "basis": BI, "seed": SEED, "cplx": st.booleans(), "scplx": st.booleans(), "times": st.lists(st.sampled_from([0.0, 0.3, 1.0, 2.5, -0.7]), min_size=1, max_size=5), "nt": st.sampled_from(["list", "list", "n"]),
        "state": st.sampled_from(["one", "one", "one", "dm", "many", "square"]), "k": st.integers(1, 3),
        "obs": st.lists(st.tuples(st.sampled_from(["dense", "hamiltonian", "csr", "list", "dynamic", "both"]), st.integers(0, hams.NREAL - 1), st.booleans()).map(list), min_size=0, max_size=4),
        "source": st.sampled_from(["ed", "ed", "array", "generator"]), "ret": st.booleans(), "sent": st.booleans(), "sub": SUB, "old": st.booleans(), "dm": st.booleans(), "tlist": st.booleans()})


def s_proj():
    return st.fixed_dictionaries({"basis": BI, "seed": SEED, "random": st.booleans(), "cplx": st.booleans(), "ocplx": st.booleans(), "down": st.booleans(), "usebasis": st.booleans(),
                                  "form": st.sampled_from(["dense", "csr", "hamiltonian", "dynamic"]), "pform": st.sampled_from(["dense", "csr", "csc"])})


def s_misc():
    w = st.lists(st.sampled_from([0, 0.0, 1, 2, 0.5, 3.7, 1e-3, 1e-12]) | st.floats(0.01, 10), min_size=1, max_size=8)
    return st.fixed_dictionaries({"p1": w, "p2": w, "lists": st.booleans(), "quiet": st.booleans(), "int": st.booleans(),
                                  "E": st.lists(st.integers(-20, 20), min_size=1, max_size=8) | st.lists(st.floats(-10, 10), min_size=3, max_size=12, unique=True)})


def s_ent():
    return st.fixed_dictionaries({"basis": st.integers(0, len(BASES) - 1).filter(lambda i: BASES[i][1] > 1), "seed": SEED, "state": st.sampled_from(["pure", "states", "dm", "diagonal", "diagonal"]), "scplx": st.booleans(),
                                  "k": st.integers(1, 3), "sub": SUB, "alpha": st.sampled_from([1.0, 1.0, 2.0, 0.5]), "density": st.sampled_from([None, True, False]),
                                  "DM": st.sampled_from([False, "chain_subsys", "other_subsys", "both"]), "lm": st.booleans()})


FAMILIES = [Family("diagonal ensemble", s_diag, run_diag, 1200), Family("over time", s_obs, run_obs, 1000), Family("project_op", s_proj, run_proj, 400), Family("spectra", s_misc, run_misc, 800),
            Family("entropy", s_ent, run_ent, 500)]
