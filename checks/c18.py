"""C18: block-diagonal construction and evolution through blocks."""
import copy as copymod
import itertools
import types

import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
from scipy.integrate import solve_ivp
from hypothesis import strategies as st

import gen, hams, ref, symm
from checks import c02, c03, c04, c05
from vf import Family, Reject, check, fail

ID = "C18"
TECHNIQUE = ("property-based testing: random symmetric operators with several drives, all or some of the blocks of every combination of symmetries; projectors, block matrices and "
             "evolved states against the full problem of the reference model")
LEVEL_NOTE = ("sampled, not exhaustive: full spaces up to 70 states, up to three drives, up to seven times; several processes in a small family; trusts lib/ref.py, scipy's expm and a "
              "high-order integrator at tight tolerance")

RULE = "cases: a basis class with a set of blocks, a symmetric operator, a state, times and options; non-trivial: at least two blocks with states"


# ---------------------------------------------------------------- blocks
def constructor(spec):
    """basis constructor, its arguments, keyword arguments common to all blocks"""
    import quspin.basis as qb

    k = spec["kind"]
    con = getattr(qb, {"spin1d": "spin_basis_1d", "spingen": "spin_basis_general", "boson1d": "boson_basis_1d", "bosongen": "boson_basis_general", "sf1d": "spinless_fermion_basis_1d",
                       "sfgen": "spinless_fermion_basis_general", "uf1d": "spinful_fermion_basis_1d", "ufgen": "spinful_fermion_basis_general"}[k])
    kw = {}
    if k.startswith("spin"):
        kw = {"S": gen.S_NAME[spec["twoS"]], "pauli": spec.get("pauli", 1)}
    elif k.startswith("boson"):
        kw = {"sps": spec["sps"]}
    if spec.get("docc") is False:
        kw["double_occupancy"] = False
    if spec.get("nozcheck"):
        kw["check_z_symm"] = False
    return con, (spec["N"],), kw


PCON = {"spin": "Nup", "boson": "Nb", "sf": "Nf", "uf": "Nf"}


def pcon_name(spec):
    return PCON[next(p for p in PCON if spec["kind"].startswith(p))]


def partition(spec, split):
    """the block dictionaries of all quantum numbers of the spec's symmetries (and of all particle numbers)"""
    out = [({}, spec)]
    if "blocks" in spec:
        b = spec["blocks"]
        m = spec["N"] // b.get("a", 1)
        ranges = {n: [1, -1] for n in b if n not in "ka"}
        if "k" in b:
            ranges["k"] = list(range(m // 2 + 1)) if "p" in b or "pz" in b else list(range(m))
        out = []
        for qs in itertools.product(*ranges.values()):
            s = dict(spec, blocks=dict(dict(zip(ranges, qs)), **({"a": b["a"]} if "a" in b else {})))
            kw = c02.blocks_kw(s)
            kw.pop("check_z_symm", None)
            out.append((kw, s))
    elif "maps" in spec:
        out = []
        pers = [symm.order(c03.op_of(spec, mp)) for _, mp, _ in spec["maps"]]
        if np.prod(pers) > 60:
            raise Reject("many blocks")
        gs = [c03.op_of(spec, mp) for _, mp, _ in spec["maps"]]
        if any(symm.key(symm.compose(a, b)) != symm.key(symm.compose(b, a)) for a in gs for b in gs):
            return [(c03.maps_kw(spec), spec)]  # only some quantum numbers are admissible
        for qs in itertools.product(*[range(p) for p in pers]):
            s = dict(spec, maps=[[n, mp, q] for (n, mp, _), q in zip(spec["maps"], qs)])
            out.append((c03.maps_kw(s), s))
    if split:
        name = pcon_name(spec)
        m = gen.model_of(spec)
        if spec["kind"].startswith("uf"):
            ps = [[i, j] for i in range(spec["N"] + 1) for j in range(spec["N"] + 1) if spec.get("docc") is not False or i + j <= spec["N"]]
        else:
            ps = list(range(spec["N"] * (m.sps - 1) + 1))
        out = [(dict(kw, **{name: tuple(p) if isinstance(p, list) else p}), dict(s, pcon=p)) for kw, s in out for p in ps]
    return out


class Problem:
    pass


def setup(c):
    from quspin.operators import hamiltonian

    spec = c["basis"]
    q = Problem()
    m = gen.model_of(spec)
    digits = gen.sector_digits(spec, m)
    ints = m.digits_to_ints(digits)
    order = sorted(range(len(ints)), key=lambda i: -ints[i])
    digits = digits[order]
    ints = [ints[i] for i in order]
    if not len(digits) or len(digits) > 70:
        raise Reject("size")
    gens = c04.ops_of(spec)
    if "maps" in spec and c03.usable(spec, m, digits) is None:
        return None
    split = c["split"] and spec.get("pcon") is None
    if split and any(any(g[1]) for g in gens):
        split = False
    N = spec["N"]
    if split and spec["kind"].startswith("uf") and any((i < N) != (g[0][i] < N) for g in gens for i in range(2 * N)):
        split = False
    q.m, q.digits = m, digits
    blocks = partition(spec, split)
    static, dynamic, dense_s, drives = [], [], 0, []
    real = c["real"]
    try:
        parts = [(c["static"], None)] + [(s, d) for s, d in c["dynamic"]]
        for lst, d in parts:
            lst = gen.hermitian_closure(spec, lst)
            lst = symm.symmetrise(spec, lst, gens) if gens else lst
            if sum(len(cs) for _, cs in lst) > 400:
                raise Reject("many terms")
            ql = gen.q_list(lst)
            R = ref.dense(m.matrix(gen.terms(spec, lst), digits))
            if m.leaks:
                raise Reject("leaves the sector")
            if real:
                if np.abs(R.imag).max(initial=0) > 0 or any("y" in s for s, _ in ql) or any(np.imag(x[0]) for s, cs in ql for x in cs):
                    raise Reject("complex")
                ql = [[s, [[np.real(x[0])] + x[1:] for x in cs]] for s, cs in ql]
            if d is None:
                static += ql
                dense_s = dense_s + R
            else:
                f, a = hams.DRIVES[d]
                dynamic += [[s, cs, f, list(a)] for s, cs in ql]
                drives.append((R, d))
    except symm.TooLarge:
        raise Reject("large group")
    if np.isscalar(dense_s):
        dense_s = np.zeros((len(digits),) * 2, complex)
    # scaled down so that evolution stays gentle
    size = np.abs(dense_s).sum(axis=0).max() + sum(np.abs(R).sum(axis=0).max() for R, _ in drives)
    sc = min(1.0, 4.0 / size) if size else 1.0
    scale = lambda cs: [[x[0] * sc] + x[1:] for x in cs]
    q.static = [[s, scale(cs)] for s, cs in static]
    q.dynamic = [[s, scale(cs), f, a] for s, cs, f, a in dynamic]
    q.S, q.D = dense_s * sc, [(R * sc, d) for R, d in drives]
    q.real = real and all(blk_real(s) for _, s in blocks)
    q.dtype = np.float64 if q.real else np.complex128
    if c.get("single"):
        q.dtype = np.float32 if q.real else np.complex64
    q.eps = np.finfo(q.dtype).eps
    q.con, q.args, q.kw = constructor(spec)
    if spec.get("adv"):
        q.kw["simple_symm"] = False
    name = pcon_name(spec)
    if spec.get("pcon") is not None:
        q.kw[name] = gen.pcon_arg(spec)
    single = spec.get("pcon") is not None and (not isinstance(spec["pcon"], list) or spec["kind"].startswith("uf") and not isinstance(spec["pcon"][0], list))
    q.pcon = bool(c["pcon"] and single and spec.get("docc") is not False and not split)
    if c["subset"]:
        keep = [i for i in range(len(blocks)) if (c["subset"] >> (i % 8)) & 1]
        blocks = [blocks[i] for i in keep] or blocks[:1]
        q.complete = len(keep) == len(partition(spec, split)) and bool(keep)
    else:
        q.complete = True
    if "maps" in spec and len(blocks) == 1:
        q.complete = False
    if c["reverse"]:
        blocks = blocks[::-1]
    q.blocks = [kw for kw, _ in blocks]
    q.gpk = {"pcon": True} if q.pcon else {}
    if q.pcon:
        q.n = len(digits)
        q.rows = np.arange(q.n)
    else:
        q.n = m.sps ** m.N
        q.rows = q.n - 1 - np.array(ints, dtype=np.int64)
    if q.n > 300:
        raise Reject("size")
    return q


def blk_real(spec):
    b = spec.get("blocks", {})
    if "k" in b and 2 * b["k"] % (spec["N"] // b.get("a", 1)) and not ("p" in b or "pz" in b):
        return False
    return all(2 * q % symm.order(c03.op_of(spec, mp)) == 0 for _, mp, q in spec.get("maps", []))


def H_at(q, t):
    return q.S + sum((R * hams.fval(d, t) for R, d in q.D), np.zeros_like(q.S))


def inputs(q, c):
    """the arguments as the user gives them, and a copy"""
    blocks = [dict(b) for b in q.blocks]
    kw = dict(q.kw)
    if c["merged"]:
        blocks = [dict(b, **kw) for b in blocks]
        kw = {}
    return blocks, kw


def same_inputs(a, b, what):
    check(repr(a) == repr(b), lambda: "%s changed its arguments: %s instead of %s" % (what, repr(a)[:300], repr(b)[:300]))


# ---------------------------------------------------------------- block_diag_hamiltonian
def run_diag(c):
    from quspin.tools.block_tools import block_diag_hamiltonian
    from quspin.operators import ishamiltonian

    q = setup(c)
    if q is None:
        return ["projective"], False
    blocks, kw = inputs(q, c)
    given = (blocks, q.static, q.dynamic, kw, q.gpk)
    keep = repr(given)
    out = block_diag_hamiltonian(iter(blocks) if c["iter"] else blocks, q.static, q.dynamic, q.con, q.args, q.dtype, basis_kwargs=kw, get_proj_kwargs=q.gpk, get_proj=c["proj"],
                                 **gen.NOCHECK)
    check(repr(given) == keep, lambda: "block_diag_hamiltonian changed its arguments: %s" % repr(given)[:400])
    bs = [q.con(*q.args, **dict(b, **q.kw)) for b in q.blocks]
    sizes = [b.Ns for b in bs]
    Ps = [ref.dense(b.get_proj(q.dtype, **q.gpk)) for b in bs]
    P0 = np.hstack(Ps)
    n = P0.shape[1]
    tol = 1e4 * q.eps
    if c["proj"]:
        check(isinstance(out, tuple) and len(out) == 2, "block_diag_hamiltonian(get_proj=True) does not give two objects")
        P, H = out
        check(sp.issparse(P), "the projector is not sparse")
        P = ref.dense(P)
        check(P.shape == (q.n, n), lambda: "projector of shape %s instead of %s" % (P.shape, (q.n, n)))
        check(np.abs(P - P0).max(initial=0) <= tol, "the projector is not the blocks' projectors side by side")
    else:
        H, P = out, P0
    check(ishamiltonian(H), "no hamiltonian")
    check(np.dtype(H.dtype) == np.dtype(q.dtype), lambda: "the hamiltonian has dtype %s instead of %s" % (H.dtype, np.dtype(q.dtype)))
    check(H.get_shape == (n, n), lambda: "shape %s instead of %s" % (H.get_shape, (n, n)))
    check(np.abs(P.conj().T @ P - np.eye(n)).max(initial=0) <= tol, "the blocks' states are not orthonormal")
    Pr = P[q.rows]
    if q.complete:
        check(n == len(q.digits), lambda: "%d states in all blocks instead of %d" % (n, len(q.digits)))
        check(np.abs(Pr @ Pr.conj().T - np.eye(len(q.digits))).max(initial=0) <= tol, "all blocks together do not span the space")
    off = np.cumsum([0] + sizes)
    mask = np.zeros((n, n), bool)
    for i in range(len(sizes)):
        mask[off[i]:off[i + 1], off[i]:off[i + 1]] = True
    for t in hams.TIMES:
        F = H_at(q, t)
        A = H.toarray(time=t)
        want = Pr.conj().T @ F @ Pr
        s = 1 + np.abs(want).max(initial=0)
        check(np.abs(A - want).max(initial=0) <= tol * s, lambda: "the block-diagonal matrix at time %g is not the projected full one (off by %.3g)" % (t, np.abs(A - want).max()))
        check(np.abs(A[~mask]).max(initial=0) == 0, "matrix elements between blocks")
        if q.complete:
            check(np.abs(Pr @ A @ Pr.conj().T - F).max(initial=0) <= tol * s * 10, "the blocks do not add up to the full matrix")
    return [c["basis"]["kind"], "%d drives" % len(q.D), "complete" if q.complete else "some"], sum(x > 0 for x in sizes) > 1


# ---------------------------------------------------------------- block_ops
def make_ops(q, c):
    from quspin.tools.block_tools import block_ops

    blocks, kw = inputs(q, c)
    late = []
    if c["late"] and not kw:
        late = blocks[1:]
        blocks = blocks[:1]
    given = (blocks, late, q.static, q.dynamic, kw, q.gpk)
    keep = repr(given)
    opt = {"compute_all_blocks": True} if c["compute"] else {}
    if c["save"] is not None:
        opt["save_previous_data"] = c["save"]
    B = block_ops(blocks, q.static, q.dynamic, q.con, q.args, q.dtype, basis_kwargs=kw, get_proj_kwargs=q.gpk, **opt, **gen.NOCHECK)
    if late:
        B.update_blocks(late, q.con, q.args, compute_all_blocks=c["compute"])
        B.update_blocks(late + blocks, q.con, q.args)  # known blocks: no change
    check(repr(given) == keep, lambda: "block_ops changed its arguments: %s" % repr(given)[:400])
    q.bs = [q.con(*q.args, **dict(b, **q.kw)) for b in q.blocks]
    q.P = np.hstack([ref.dense(b.get_proj(np.complex128, **q.gpk)) for b in q.bs])
    nz = sum(b.Ns > 0 for b in q.bs)
    check(len(B.basis_dict) == nz, lambda: "%d bases in basis_dict, %d blocks with states" % (len(B.basis_dict), nz))
    check(sorted(b.Ns for b in B.basis_dict.values()) == sorted(b.Ns for b in q.bs if b.Ns), "basis_dict: other sizes")
    check(B.dtype == q.dtype, "dtype")
    check(B.save_previous_data == (True if c["compute"] or c["save"] is None else c["save"]), "save_previous_data")
    if c["compute"]:
        check(set(B.H_dict) == set(B.basis_dict) == set(B.P_dict), "compute_all_blocks did not compute all blocks")
        for k, b in B.basis_dict.items():
            P = ref.dense(B.P_dict[k])
            for t in hams.TIMES[:2]:
                A = B.H_dict[k].toarray(time=t)
                Pr = P[q.rows]
                check(np.abs(A - Pr.conj().T @ H_at(q, t) @ Pr).max(initial=0) <= 1e4 * q.eps * 10, "H_dict: not the projected matrix")
    elif not c["late"]:
        check(not B.H_dict and not B.P_dict, "blocks were computed early")
    check(repr(B.static) == repr(list(q.static)) and repr(B.dynamic) == repr(list(q.dynamic)), "static / dynamic lists differ")
    return B


def state_of(q, c):
    rng = np.random.RandomState(c["seed"])
    if c["inside"]:  # a state of one block
        ok = [i for i, b in enumerate(q.bs) if b.Ns]
        if not ok:
            raise Reject("no states")
        i = ok[c["seed"] % len(ok)]
        off = np.cumsum([0] + [b.Ns for b in q.bs])
        P = q.P[:, off[i]:off[i + 1]]
        v = P @ (rng.randn(P.shape[1]) + 1j * rng.randn(P.shape[1]))
    else:
        v = np.zeros(q.n, complex)
        v[q.rows] = rng.randn(len(q.rows)) + 1j * rng.randn(len(q.rows))
    if c["vreal"]:
        v = v.real.copy()
    if np.linalg.norm(v) < 1e-3:
        raise Reject("no state")
    v = v / np.linalg.norm(v)
    return v


def form(v, how):
    if how == "list":
        return v.tolist()
    if how == "tuple":
        return tuple(v.tolist())
    if how == "column":
        return v.reshape(-1, 1)
    if how == "csr":
        return sp.csr_matrix(v.reshape(-1, 1))
    if how == "csc":
        return sp.csc_matrix(v.reshape(-1, 1))
    return v.copy()


def compare(x, R, tol, what):
    x = np.asarray(x)
    check(x.shape == R.shape, lambda: "%s: shape %s instead of %s" % (what, x.shape, R.shape))
    d = np.abs(x - R).max(initial=0)
    check(np.isfinite(x).all() and d <= tol, lambda: "%s: differs by %.3g (tolerance %.3g)" % (what, d, tol))


def evolve_ref(q, v, t0, times):
    """in the sector, columns are times; any order of times after t0 in either direction, one after another"""
    y = (q.P @ (q.P.conj().T @ v))[q.rows].astype(complex)
    out = np.zeros((q.n, len(times)), complex)
    if not q.D:
        w, U = la.eigh(q.S)
        z = U.conj().T @ y
        for i, t in enumerate(times):
            out[q.rows, i] = U @ (np.exp(-1j * w * (t - t0)) * z)
        return out
    t = t0
    for i, tt in enumerate(times):
        if tt != t:
            s = solve_ivp(lambda s, u: -1j * (H_at(q, s) @ u), (t, tt), y, method="DOP853", rtol=1e-11, atol=1e-12)
            y, t = s.y[:, -1], tt
        out[q.rows, i] = y
    return out


def run_evolve(c):
    q = setup(c)
    if q is None:
        return ["projective"], False
    B = make_ops(q, c)
    v = state_of(q, c)
    inside = np.linalg.norm(q.P.conj().T @ v)
    t0 = c["t0"]
    times = [t0 + x for x in c["times"]] if not c["back"] else [t0 - x for x in c["times"]]
    R = evolve_ref(q, v, t0, times)
    u = c["unit"]  # states need not be normalised
    V = form(v * u, c["form"])
    opt = {"atol": 1e-11 * u, "rtol": 1e-11}
    if c["bd"]:
        opt["block_diag"] = True
    if c["jobs"] != 1:
        opt["n_jobs"] = c["jobs"]
    if c["stack"] and q.real:
        opt["stack_state"] = True
    if inside < 1e-8:
        try:
            B.evolve(V, t0, times, **opt)
        except RuntimeError:
            return ["outside"], False
        fail("a state outside of all blocks was evolved")
    if inside < 1e-5:
        raise Reject("nearly outside")
    for rep in range(2):
        ts = np.array(times) if c["tarr"] else list(times)
        if c["scalar"]:
            x = B.evolve(V, t0, times[0], **opt)
            compare(x / u, R[:, 0], 1e-7, "evolve to a single time")
        elif c["iterate"]:
            it = B.evolve(V, t0, ts, iterate=True, **opt)
            check(isinstance(it, types.GeneratorType), "evolve(iterate=True) is no generator")
            xs = [np.array(x) for x in it]
            check(len(xs) == len(times), lambda: "evolve(iterate=True) gives %d states for %d times" % (len(xs), len(times)))
            compare(np.array(xs).T / u, R, 1e-7, "evolve(iterate=True)")
        else:
            compare(B.evolve(V, t0, ts, **opt) / u, R, 1e-7, "evolve")
        if not c["again"]:
            break
    for bad in ({"imag_time": True}, {"iterate": True}):
        try:
            B.evolve(V, t0, times if "imag_time" in bad else times[0], **bad)
        except ValueError:
            continue
        fail("evolve accepted %s%s" % (bad, "" if "imag_time" in bad else " with a single time"))
    saved(B, c)
    return [c["basis"]["kind"], "jobs" if c["jobs"] != 1 else "one job", "bd" if c["bd"] else "list"], sum(b.Ns > 0 for b in q.bs) > 1


def saved(B, c):
    if not B.save_previous_data:
        check(not B.H_dict and not B.P_dict, "save_previous_data=False, but blocks were kept")
    else:
        check(set(B.H_dict) <= set(B.basis_dict), "H_dict: unknown keys")


def run_expm(c):
    q = setup(c)
    if q is None:
        return ["projective"], False
    B = make_ops(q, c)
    v = state_of(q, c)
    inside = np.linalg.norm(q.P.conj().T @ v)
    te = c["te"]
    a = -1j if c["a"] is None else gen.cplx(c["a"])
    M = H_at(q, te if c["te_given"] else 0.0)
    opt = {} if c["a"] is None else {"a": a}
    if c["te_given"]:
        opt["H_time_eval"] = te
    if c["shift"] is not None:
        sh = gen.cplx(c["shift"])
        opt["shift"] = sh
        M = M + sh * np.eye(len(M))
    if c["bd"]:
        opt["block_diag"] = True
    if c["jobs"] != 1:
        opt["n_jobs"] = c["jobs"]
    pts = [1.0]
    grid = c["grid"]
    if grid:
        s, e, num, ep = grid
        opt.update(start=s, stop=e)
        if num is not None:
            opt["num"] = num
        if ep is not None:
            opt["endpoint"] = ep
        pts = np.linspace(s, e, 50 if num is None else num, endpoint=True if ep is None else ep)
        if c["iterate"]:
            opt["iterate"] = True
    u = c["unit"]
    V = form(v * u, c["form"])
    if inside < 1e-8:
        try:
            B.expm(V, **opt)
        except RuntimeError:
            return ["outside"], False
        fail("a state outside of all blocks was evolved")
    if inside < 1e-5:
        raise Reject("nearly outside")
    y = (q.P @ (q.P.conj().T @ v))[q.rows]
    big = max(np.linalg.norm(a * x * M, 1) for x in pts)
    if big > 12:
        raise Reject("large exponent")
    R = np.zeros((q.n, len(pts)), complex)
    for i, x in enumerate(pts):
        R[q.rows, i] = la.expm(a * x * M) @ y
    tol = 1e-9 * np.exp(big)
    for rep in range(2):
        x = B.expm(V, **opt)
        if grid and c["iterate"]:
            check(isinstance(x, types.GeneratorType), "expm(iterate=True) is no generator")
            xs = [np.array(z) for z in x]
            check(len(xs) == len(pts), lambda: "expm(iterate=True) gives %d states for %d points" % (len(xs), len(pts)))
            compare(np.array(xs).T / u, R, tol, "expm(iterate=True)")
        elif grid:
            compare(x / u, R, tol, "expm on a grid")
        else:
            compare(x / u, R[:, 0], tol, "expm")
        if not c["again"]:
            break
    bads = [{"iterate": True}, {"num": 3}, {"endpoint": True}, {"start": 0, "stop": 1, "num": 2.5}, {"start": 0, "stop": 1, "endpoint": 1}, {"start": [0], "stop": 1},
            {"start": 0, "stop": 1j}]
    for bad in bads:
        try:
            B.expm(V, **bad)
        except ValueError:
            continue
        fail("expm accepted %s" % bad)
    saved(B, c)
    return [c["basis"]["kind"], "grid" if grid else "single", "bd" if c["bd"] else "list"], sum(b.Ns > 0 for b in q.bs) > 1


# ---------------------------------------------------------------- generators
@st.composite
def problems(draw, single=False):
    spec = draw(gen.basis_specs(maxdim=70, minN=1))
    w = draw(st.integers(0, 4))
    if w and spec["N"] > 1:
        spec = draw(c02.blocks(spec)) if spec["kind"] in gen.KINDS_1D else draw(c03.with_maps(spec, False))
    real = draw(st.booleans())
    chars = None
    if "maps" in spec:
        chars = c03.chars_of(spec, False)
    elif "blocks" in spec:
        chars = gen.op_chars(spec)
        if any(any(g[1]) for g in c02.generators(spec).values()):
            chars = chars.replace("n", "")
            if spec.get("sps", 2) > 2:
                chars = "Iz"
    chars = chars or gen.op_chars(spec)
    if real:
        chars = chars.replace("y", "")
    split = draw(st.booleans())
    conserve = spec.get("pcon") is not None or split or spec.get("docc") is False
    if conserve:
        chars = chars.replace("x", "").replace("y", "")
    if "+" not in chars:
        conserve = False
    ol = lambda mx: gen.op_lists(spec, conserve=conserve, maxlen=3, maxterms=mx, maxcoup=2, complex_=not real, chars=chars)
    nd = draw(st.sampled_from([0, 0, 1, 2, 3]))
    ds = draw(st.lists(st.integers(0, hams.NREAL - 1), min_size=nd, max_size=nd))
    return {"basis": spec, "split": split, "real": real, "static": draw(ol(3)), "dynamic": [[draw(ol(2)), d] for d in ds], "pcon": draw(st.booleans()),
            "subset": draw(st.sampled_from([0, 0, 0, 5, 2, 93, 170])), "reverse": draw(st.booleans()), "merged": draw(st.booleans())}


@st.composite
def diag_case(draw):
    c = draw(problems())
    c.update(single=draw(st.integers(0, 4)) == 0, proj=draw(st.booleans()), iter=draw(st.booleans()))
    return c


@st.composite
def ops_case(draw, which, jobs=(1,)):
    c = draw(problems())
    r3 = lambda lo, hi: st.floats(lo, hi).map(lambda x: round(x, 3))
    c.update(late=draw(st.booleans()), compute=draw(st.booleans()), save=draw(st.sampled_from([None, True, False])), seed=draw(st.integers(0, 2**31 - 1)),
             inside=draw(st.integers(0, 3)) == 0, vreal=draw(st.booleans()), unit=draw(st.sampled_from([1.0, 1.0, 1e-14, 1e-6, 1e5])), form=draw(st.sampled_from(["array", "array", "list", "tuple", "column", "csr", "csc"])),
             bd=draw(st.booleans()), jobs=draw(st.sampled_from(jobs)), iterate=draw(st.booleans()), again=draw(st.booleans()))
    if which == "evolve":
        c.update(t0=draw(st.sampled_from([0, 0.0, 0.7, -1.2])), times=sorted(draw(st.lists(r3(0, 2), min_size=1, max_size=5, unique=True))), back=draw(st.integers(0, 4)) == 0,
                 stack=draw(st.integers(0, 3)) == 0, tarr=draw(st.booleans()), scalar=draw(st.integers(0, 5)) == 0)
    else:
        c.update(te=draw(r3(-2, 2)), te_given=draw(st.booleans()), a=draw(st.one_of(st.none(), st.sampled_from([1.0, -0.5, 2]), st.lists(r3(-1, 1), min_size=2, max_size=2))),
                 shift=draw(st.one_of(st.none(), st.sampled_from([1.0, -0.5, 1]), st.lists(r3(-1, 1), min_size=2, max_size=2))),
                 grid=draw(st.one_of(st.none(), st.tuples(r3(-1.5, 1.5), r3(-1.5, 1.5), st.sampled_from([None, 2, 3, 5]), st.sampled_from([None, True, False])).map(list))))
    return c


FAMILIES = [
    Family("diag", diag_case, run_diag, 1200),
    Family("evolve", lambda: ops_case("evolve"), run_evolve, 700),
    Family("expm", lambda: ops_case("expm"), run_expm, 900),
    Family("evolve jobs", lambda: ops_case("evolve", (2, 3, 7)), run_evolve, 40, 400),
    Family("expm jobs", lambda: ops_case("expm", (2, 3, 7)), run_expm, 40, 400),
]
