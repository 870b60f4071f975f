"""C08: tensor products and photon / oscillator bases."""
import re

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, ref
from checks import c02, c03, c04, c05, c07
from vf import Family, Reject, check, fail

ID = "C08"
TECHNIQUE = "property-based testing: random products of two or three bases, and photon bases with a cutoff or a conserved total, against Kronecker products of the factors' operators"
LEVEL_NOTE = ("sampled, not exhaustive: products of up to 400 states of the lattice bases and oscillators (spinful chains as the last factor), photon bases of all particle classes up to 300 states; "
              "right-nested products; trusts the factors' own operators and projectors in symmetry blocks (C02, C03, C05), lib/ref.py and numpy")

RULE = ("cases: the factors (with sectors and blocks) or the particles and the photon cutoff, operators, and states to look up or lift; "
        "non-trivial: both sides have at least 2 states")
DT = c05.DT
TOL = {"f": 3e-5, "F": 3e-5, "d": 1e-10, "D": 1e-10}


# ------------------------------------------------------------ factors
def build(spec):
    import quspin.basis as qb
    from quspin.basis.photon import ho_basis

    if spec["kind"] == "ho":
        return ho_basis(spec["np"])
    return c04.build(spec, "plain")


def ho_amp(opstr, n):
    """oscillator string on |n>: new n, amplitude"""
    a = 1.0
    for o in opstr[::-1]:
        if o == "n":
            a *= n
        elif o == "+":
            n += 1
            a *= np.sqrt(n)
        elif o == "-":
            if n == 0:
                return 0, 0.0
            a *= np.sqrt(n)
            n -= 1
    return n, a


def ho_matrix(opstr, np_):
    M = np.zeros((np_ + 1, np_ + 1))
    for c in range(np_ + 1):
        r, a = ho_amp(opstr, c)
        if a and r <= np_:
            M[r, c] = a
    return M


def has_symm(spec):
    return bool(spec.get("blocks") or spec.get("maps"))


def factor_op(spec, b, opstr, ix):
    if spec["kind"] == "ho":
        return ho_matrix(opstr, spec["np"])
    if has_symm(spec):
        ME, row, col = b.Op(opstr, np.asarray(ix, dtype=np.int32), 1.0, np.complex128)
        M = np.zeros((b.Ns, b.Ns), complex)
        np.add.at(M, (np.asarray(row, int), np.asarray(col, int)), ME)
        return M
    m = gen.model_of(spec)
    fs, fi = gen.flat(spec, opstr, list(ix))
    return ref.dense(m.matrix([(fs, fi, 1.0)], m.ints_to_digits([ref.pyint(s) for s in b.states])))


def factor_real(spec, opstr):
    return spec["kind"] == "ho" or ("y" not in opstr and (not has_symm(spec) or c05.is_real(spec)))


@st.composite
def factors(draw, maxdim, last=False, blocks=True):
    w = draw(st.integers(0, 7))
    if w == 0:
        return {"kind": "ho", "N": 1, "np": draw(st.integers(0, max(0, min(5, maxdim - 1))))}
    kinds = gen.KINDS if last else [k for k in gen.KINDS if not k.startswith("uf")]
    spec = draw(gen.basis_specs(kinds=kinds, maxdim=maxdim))
    if blocks and w <= 2 and spec["N"] > 1:
        spec = draw(c02.blocks(spec)) if spec["kind"] in gen.KINDS_1D else draw(c03.with_maps(spec, False))
    return spec


@st.composite
def part_lists(draw, blocks=True):
    n = draw(st.sampled_from([2, 2, 3]))
    dims = draw(st.sampled_from([[4, 60], [16, 16], [60, 4], [8, 8], [30, 9]])) if n == 2 else draw(st.sampled_from([[4, 8, 9], [8, 4, 4], [3, 16, 4]]))
    return [draw(factors(max(2, d), last=i == n - 1, blocks=blocks)) for i, d in enumerate(dims)]


def part_string(draw, spec, maxlen=3):
    if spec["kind"] == "ho":
        s = draw(st.text(alphabet="I+-n", min_size=0, max_size=maxlen))
        return s, [0] * len(s)
    if draw(st.integers(0, 3)) == 0 and not spec["kind"].startswith("uf"):
        return "", []
    return draw(gen.op_strings(spec, maxlen=maxlen))


@st.composite
def product_strings(draw, parts, maxlen=3):
    s, ix = [], []
    for p in parts:
        a, b = part_string(draw, p, maxlen)
        s.append(a)
        ix.append(list(b))
    return {"s": s, "ix": ix}


def make_tensor(parts, nest):
    from quspin.basis import tensor_basis

    bs = [build(p) for p in parts]
    if any(b.Ns == 0 for b in bs):
        return bs, None
    if np.prod([b.Ns for b in bs]) > 400:
        raise Reject("large")
    if len(bs) == 3 and nest:
        return bs, tensor_basis(bs[0], tensor_basis(bs[1], bs[2]))
    return bs, tensor_basis(*bs)


def join(term):
    return "|".join(term["s"]), [i for x in term["ix"] for i in x]


def product_matrix(parts, bs, term):
    M = np.ones((1, 1))
    for p, b, s, ix in zip(parts, bs, term["s"], term["ix"]):
        try:
            M = np.kron(M, factor_op(p, b, s, ix))
        except Exception as e:
            if has_symm(p):
                raise Reject("an operator without the block's symmetry")
            raise
    return M


def dense_of(out, n, dtype):
    ME, row, col = out
    ME, row, col = np.asarray(ME), np.asarray(row), np.asarray(col)
    M = np.zeros((n, n), complex)
    if len(ME):
        check(row.min() >= 0 and col.min() >= 0 and row.max() < n and col.max() < n, "an index outside of the basis")
        np.add.at(M, (row.astype(int), col.astype(int)), ME)
        check(ME.dtype == np.dtype(dtype), lambda: "matrix elements of type %s instead of %s" % (ME.dtype, np.dtype(dtype)))
    return M


def run_op(case):
    parts, ch = case["parts"], case["dtype"]
    bs, b = make_tensor(parts, case["nest"])
    if b is None:
        return ["empty"], False
    n = int(np.prod([x.Ns for x in bs]))
    check(b.Ns == n, lambda: "Ns=%s instead of %d" % (b.Ns, n))
    flatN = []
    for x in bs:
        flatN += list(x.N) if isinstance(x.N, tuple) else [x.N]
    check(tuple(b.N) == tuple(flatN), lambda: "N=%s, parts %s" % (b.N, flatN))
    labels = ["parts=%d" % len(bs), ch]
    for t in case["terms"]:
        s, ix = join(t)
        J = gen.cplx(case["J"])
        if ch in "fd":
            J = float(np.real(J))
            if not all(factor_real(p, x) for p, x in zip(parts, t["s"])):
                continue
        W = J * product_matrix(parts, bs, t)
        arg = np.array(ix, dtype=np.int32) if case["nparray"] else list(ix)
        keep = list(arg)
        M = dense_of(b.Op(s, arg, J, DT[ch]), n, DT[ch])
        check(list(arg) == keep, "Op changed its indx argument")
        check(ref.close(M, W, TOL[ch]), lambda: "Op(%s,%s): differs from the Kronecker product by %s" % (s, ix, ref.maxdiff(M, W)))
    return labels + [p["kind"] for p in parts], min(x.Ns for x in bs) > 1


@st.composite
def op_cases(draw):
    parts = draw(part_lists())
    return {"parts": parts, "nest": draw(st.booleans()), "dtype": draw(st.sampled_from("dDDfF")), "J": draw(gen.amplitudes()), "nparray": draw(st.booleans()),
            "terms": draw(st.lists(product_strings(parts), min_size=1, max_size=3))}


# ------------------------------------------------------------ hamiltonians
def adjoint(term):
    sw = str.maketrans("+-", "-+")
    s, ix, sign = [], [], 1
    for a, b in zip(term["s"], term["ix"]):
        if "|" in a:
            i = a.index("|")
            u, d = a.split("|")
            if sum(c in "+-" for c in u) * sum(c in "+-" for c in d) % 2:
                sign = -sign
            s.append(u[::-1].translate(sw) + "|" + d[::-1].translate(sw))
            ix.append(b[:i][::-1] + b[i:][::-1])
        else:
            s.append(a[::-1].translate(sw))
            ix.append(b[::-1])
    return {"s": s, "ix": ix}, sign


def run_ham(case):
    from quspin.operators import hamiltonian

    parts = case["parts"]
    bs, b = make_tensor(parts, case["nest"])
    if b is None:
        return ["empty"], False
    n = b.Ns
    W = np.zeros((n, n), complex)
    static, dynamic = [], []
    for k, t in enumerate(case["terms"]):
        J = gen.cplx(t["J"])
        s, ix = join(t)
        h, sign = adjoint(t)
        hs, hix = join(h)
        A = J * product_matrix(parts, bs, t)
        W = W + A + sign * np.conj(J) * product_matrix(parts, bs, h)
        for lst_s, lst_i, j in ((s, ix, J), (hs, hix, sign * np.conj(J))):
            if t["dyn"]:
                dynamic.append([lst_s, [[j] + lst_i], _one, []])
            else:
                static.append([lst_s, [[j] + lst_i]])
    kw = dict(check_symm=False, check_pcon=False, check_herm=True)
    H = hamiltonian(static, dynamic, basis=b, dtype=np.complex128, **kw)
    check(ref.close(H.toarray(time=0.3), W, 1e-10), lambda: "the Hamiltonian differs from the sum of Kronecker products by %s" % ref.maxdiff(H.toarray(time=0.3), W))
    if not any(has_symm(p) for p in parts):
        es, ed = b.expanded_form(static, dynamic)
        for s, bonds in es:
            check(not any(c in s for c in "xy"), lambda: "expanded form contains %s" % s)
        E = hamiltonian(es, ed, basis=b, dtype=np.complex128, **gen.NOCHECK)
        check(ref.close(E.toarray(time=0.3), W, 1e-10), lambda: "the expanded form differs by %s" % ref.maxdiff(E.toarray(time=0.3), W))
    # one term without its adjoint
    t = case["terms"][0]
    A = gen.cplx(t["J"]) * product_matrix(parts, bs, t)
    s, ix = join(t)
    if not any(has_symm(p) for p in parts) and not ref.close(A, A.conj().T, 1e-9):
        if c07.accepted(lambda: hamiltonian([[s, [[gen.cplx(t["J"])] + ix]]], [], basis=b, dtype=np.complex128, **kw), "n"):
            fail("the non-hermitian %s was accepted with check_herm=True" % s)
    return ["parts=%d" % len(bs)], min(x.Ns for x in bs) > 1


def _one(t):
    return 1.0


@st.composite
def ham_cases(draw):
    parts = draw(part_lists())
    terms = []
    for _ in range(draw(st.integers(1, 3))):
        t = draw(product_strings(parts))
        t["J"] = draw(gen.amplitudes())
        t["dyn"] = draw(st.integers(0, 3)) == 0
        terms.append(t)
    return {"parts": parts, "nest": draw(st.booleans()), "terms": terms}


# ------------------------------------------------------------ lookups and lifting
def states_of(spec, b):
    return list(range(b.Ns)) if spec["kind"] == "ho" else [ref.pyint(s) for s in b.states]


def run_index(case):
    parts = case["parts"]
    bs, b = make_tensor(parts, case["nest"])
    if b is None:
        return ["empty"], False
    sts = [states_of(p, x) for p, x in zip(parts, bs)]
    dims = [x.Ns for x in bs]
    n = b.Ns
    nun = lambda l: len(set(l)) == len(l)
    for k in range(n) if n <= 60 else [x % n for x in case["probe"]]:
        multi = np.unravel_index(k, dims)
        if parts[-1]["kind"].startswith("uf"):
            L = parts[-1]["N"]
            s = sts[-1][multi[-1]]
            last = [s >> L, s & ((1 << L) - 1)]
        else:
            last = [sts[-1][multi[-1]]]
        if not all(nun(l) for l in sts):
            continue
        args = [sts[i][multi[i]] for i in range(len(bs) - 1)] + last
        got = int(b.index(*args))
        check(got == k, lambda: "index%s=%d instead of %d" % (tuple(args), got, k))
        for i, p in enumerate(parts):  # an oscillator beyond its cutoff
            if p["kind"] == "ho":
                try:
                    got = b.index(*args[:i], p["np"] + 1 + k, *args[i + 1:])
                except ValueError:
                    continue
                fail("index%s of a state that is not in the basis gave %s" % (tuple(args[:i] + [p["np"] + 1 + k] + args[i + 1:]), got))
    text = str(b)
    lines = [l for l in text.splitlines() if re.match(r"^\s*\d+\.\s", l)]
    if n <= 50:
        check(len(lines) == n, lambda: "printing the basis shows %d states of %d" % (len(lines), n))
    # the labels of the factors, as they print them
    if all(d <= 50 for d in dims) and n <= 50:
        parts_l = []
        for x in bs:
            ls = [l for l in str(x).splitlines() if re.match(r"^\s*\d+\.\s", l)]
            parts_l.append([re.sub(r"\s", "", l.split(".", 1)[1]) for l in ls])
        for k, l in enumerate(lines):
            num, body = l.split(".", 1)
            check(int(num) == k, lambda: "line %d of the printed basis is %r" % (k, l))
            multi = np.unravel_index(k, dims)
            want = "".join(parts_l[i][multi[i]] for i in range(len(bs)))
            check(re.sub(r"\s", "", body) == want, lambda: "line %d of the printed basis is %r, expected %s" % (k, l, want))
    return ["parts=%d" % len(bs)], min(dims) > 1


@st.composite
def index_cases(draw):
    return {"parts": draw(part_lists()), "nest": draw(st.booleans()), "probe": draw(st.lists(st.integers(0, 400), min_size=1, max_size=20))}


def full_of(spec, b, dtype):
    if spec["kind"] == "ho":
        return np.eye(spec["np"] + 1)
    return ref.dense(b.get_proj(dtype))


def lift_check(b, case, P, mode, what, flags):
    """project_from / get_vec / get_proj against the matrix P"""
    ch, k = case["dtype"], case["k"]
    n = P.shape[1]
    tol = TOL[ch]
    v = gen.vec(case["vec"], n * k, ch in "FD").reshape(n, k)
    v = v[:, 0] if not case["stack"] and k == 1 else v
    v = np.ascontiguousarray(v.astype(DT[ch])) if case["layout"] == "C" else np.asfortranarray(v.astype(DT[ch]))
    W = P @ v
    if mode == "proj":
        out = b.get_proj(DT[ch], **flags)
        check(sp.issparse(out), "get_proj is not sparse")
        check(out.shape == P.shape, lambda: "get_proj: shape %s instead of %s" % (out.shape, P.shape))
        check(out.dtype == DT[ch], lambda: "get_proj: type %s" % out.dtype)
        check(ref.close(out.toarray(), P, tol), lambda: "get_proj%s differs from the product of the projectors by %s" % (flags, ref.maxdiff(out.toarray(), P)))
        return
    f = b.get_vec if mode == "vec" else b.project_from
    passed, keep = v, v.copy()
    if case["in"] in ("csr", "csc", "coo"):
        passed = getattr(sp, case["in"] + "_matrix")(v if v.ndim == 2 else v.reshape(-1, 1))
        keep = passed.copy()
        if v.ndim == 1:
            W = W.reshape(-1, 1)
    sparse = case["sparse"]
    out = f(passed, sparse=sparse, **flags)
    a = passed.toarray() if sp.issparse(passed) else passed
    check(np.array_equal(a, keep.toarray() if sp.issparse(keep) else keep), lambda: "%s changed the state passed" % what)
    check(sp.issparse(out) == bool(sparse or sp.issparse(passed)), lambda: "%s(sparse=%s) of a %s gave a %s" % (what, sparse, type(passed).__name__, type(out).__name__))
    o = out.toarray() if sp.issparse(out) else np.asarray(out)
    if sp.issparse(out) and W.ndim == 1:
        W = W.reshape(-1, 1)
    check(o.shape == W.shape, lambda: "%s: shape %s instead of %s" % (what, o.shape, W.shape))
    check(ref.close(o, W, 20 * tol), lambda: "%s%s differs by %s" % (what, flags, ref.maxdiff(o, W)))


def run_lift(case):
    parts = case["parts"]
    if case["dtype"] in "fd" and not all(p["kind"] == "ho" or not has_symm(p) or c05.is_real(p) for p in parts):
        case["dtype"] = {"f": "F", "d": "D"}[case["dtype"]]
    bs, b = make_tensor(parts, case["nest"])
    if b is None:
        return ["empty"], False
    Ps = [full_of(p, x, np.complex128) for p, x in zip(parts, bs)]
    L = Ps[0]
    R = Ps[1] if len(Ps) == 2 else np.kron(Ps[1], Ps[2])
    flags = {}
    if case["fl"] is not None:
        flags["full_left"] = case["fl"]
    if case["fr"] is not None:
        flags["full_right"] = case["fr"]
    if case["fl"] is False:
        L = np.eye(L.shape[1])
    if case["fr"] is False:
        R = np.eye(R.shape[1])
    if L.shape[0] * R.shape[0] > 3000:
        raise Reject("large")
    P = np.kron(L, R)
    lift_check(b, case, P, case["mode"], case["mode"], flags)
    return ["parts=%d" % len(bs), case["mode"], case["dtype"], "k=%d" % case["k"]], min(x.Ns for x in bs) > 1


LIFT = dict(dtype=st.sampled_from("dDDfF"), k=st.sampled_from([1, 1, 2, 3]), stack=st.booleans(), vec=gen.seeds, layout=st.sampled_from("CCF"),
            mode=st.sampled_from(["proj", "vec", "from", "from"]), sparse=st.booleans(), **{"in": st.sampled_from(["dense", "dense", "dense", "csr", "csc", "coo"])})


@st.composite
def lift_cases(draw):
    flag = st.sampled_from([None, None, True, False])
    return dict({k: draw(v) for k, v in LIFT.items()}, parts=draw(part_lists()), nest=draw(st.booleans()), fl=draw(flag), fr=draw(flag))


# ------------------------------------------------------------ photons
CLS = {"spin1d": "spin_basis_1d", "boson1d": "boson_basis_1d", "sf1d": "spinless_fermion_basis_1d", "uf1d": "spinful_fermion_basis_1d",
       "spingen": "spin_basis_general", "bosongen": "boson_basis_general", "sfgen": "spinless_fermion_basis_general", "ufgen": "spinful_fermion_basis_general"}


def photon(case):
    import quspin.basis as qb

    s = case["particles"]
    kw = c02.blocks_kw(s) if "blocks" in s else c03.maps_kw(s) if "maps" in s else {}
    kw = dict(s.get("kw") or {}, **kw)
    if s["kind"].startswith("spin"):
        kw["S"] = gen.S_NAME[s["twoS"]]
        kw["pauli"] = s.get("pauli", 1)
    elif s["kind"].startswith("boson"):
        kw["sps"] = s["sps"]
    kw["Ntot" if case["conserved"] else "Nph"] = case["nph"]
    return qb.photon_basis(getattr(qb, CLS[s["kind"]]), s["N"], **kw)


def particle_spec(case):
    """the spec of the particle part, all sectors up to Ntot where the total is conserved"""
    s = {k: v for k, v in case["particles"].items()}
    if case["conserved"]:
        n = case["nph"]
        if s["kind"].startswith("uf"):
            s["pcon"] = [[a, c] for a in range(s["N"] + 1) for c in range(s["N"] + 1) if a + c <= n]
        else:
            sps = s.get("sps") or (2 if s["kind"].startswith("sf") else s["twoS"] + 1)
            s["pcon"] = list(range(min(n, s["N"] * (sps - 1)) + 1))
    return s


def photon_numbers(case, b):
    m = gen.model_of(particle_spec(case))
    return case["nph"] - m.ints_to_digits([ref.pyint(s) for s in b.particle_basis.states]).sum(axis=1)


def photon_parts(case):
    s = particle_spec(case)
    b = photon(case)
    a = c04.build(s, "plain")
    return s, a, b


def run_photon_states(case):
    s, a, b = photon_parts(case)
    nph, cons = case["nph"], case["conserved"]
    p = b.particle_basis
    check([ref.pyint(x) for x in p.states] == [ref.pyint(x) for x in a.states],
          lambda: "particle states %s, expected %s" % ([ref.pyint(x) for x in p.states][:30], [ref.pyint(x) for x in a.states][:30]))
    na = a.Ns
    n = na if cons else na * (nph + 1)
    check(b.Ns == n, lambda: "Ns=%s instead of %d" % (b.Ns, n))
    check(b.particle_Ns == na and b.chain_Ns == na and b.photon_Ns == nph + 1 and b.photon_sps == nph + 1, "particle_Ns / photon_Ns")
    uf = s["kind"].startswith("uf")
    if not uf:
        check(b.particle_N == s["N"] and b.chain_N == s["N"], "particle_N")
    check(b.photon_basis.Ns == nph + 1 and b.photon_basis.N == 1, "photon_basis")
    if n == 0:
        return ["empty"], False
    text = str(b)
    lines = [l for l in text.splitlines() if re.match(r"^\s*\d+\.\s", l)]
    if n <= 50:
        check(len(lines) == n, lambda: "printing the basis shows %d states of %d" % (len(lines), n))
        if cons:
            phn = photon_numbers(case, b)
        pl = [re.sub(r"\s", "", l.split(".", 1)[1]) for l in str(a).splitlines() if re.match(r"^\s*\d+\.\s", l)]
        for k, l in enumerate(lines):
            num, body = l.split(".", 1)
            check(int(num) == k, lambda: "line %d of the printed basis is %r" % (k, l))
            i, q = (k, phn[k]) if cons else divmod(k, nph + 1)
            want = pl[i] + "|%d>" % q
            check(re.sub(r"\s", "", body) == want, lambda: "line %d of the printed basis is %r, expected %s" % (k, l, want))
    check(b.particle_sps == a.sps, "particle_sps")
    sts = [ref.pyint(x) for x in a.states]
    phn = photon_numbers(case, b) if cons else None
    if len(set(sts)) == len(sts):
        for i in range(na) if na <= 20 else [0, na // 3, na // 2, na - 1]:
            if uf:
                L = s["N"]
                names = [(sts[i] >> L, sts[i] & ((1 << L) - 1))]
            else:
                names = [(sts[i],), (p.int_to_state(sts[i], bracket_notation=False),)]
            for name in names:
                for q in sorted({-1, 0, 1, nph // 2, nph, nph + 1, 3 * nph + 7}):
                    isin = q == phn[i] if cons else 0 <= q <= nph
                    try:
                        k = b.index(*name, q)
                    except ValueError:
                        check(not isin, lambda: "index%s: the state is refused" % ((*name, q),))
                        continue
                    check(isin, lambda: "index%s of a state that is not in the basis gave %s" % ((*name, q), k))
                    k0 = i if cons else i * (nph + 1) + q
                    check(int(k) == k0, lambda: "index%s=%s instead of %d" % ((*name, q), k, k0))
    return [s["kind"], "conserved" if cons else "cutoff"] + (["blocks"] if has_symm(s) else []), na > 1


def photon_term_matrix(case, s, a, b, t):
    """particle string x photon string on the basis"""
    A = factor_op(s, a, t["s"][0], t["ix"][0])
    nph = case["nph"]
    if not case["conserved"]:
        return np.kron(A, ho_matrix(t["s"][1], nph))
    n = photon_numbers(case, b)
    d = np.array([ho_amp(t["s"][1], int(x)) for x in n]) if len(n) else np.zeros((0, 2))
    M = A * d[:, 1][None, :] if len(n) else A
    for c in range(len(n)):  # the photon number has to match that of the row's particle state
        M[:, c] = np.where(n == d[c, 0], M[:, c], 0)
    return M


def run_photon_op(case):
    from quspin.operators import hamiltonian

    s, a, b = photon_parts(case)
    n = b.Ns
    if n == 0:
        return ["empty"], False
    ch = case["dtype"]
    cx = ch in "FD"
    H = np.zeros((n, n), complex)
    static, dynamic = [], []
    for t in case["terms"]:
        J = gen.cplx(t["J"])
        if not cx:
            J = float(np.real(J))
            if not factor_real(s, t["s"][0]):
                continue
        try:
            W = J * photon_term_matrix(case, s, a, b, t)
        except Exception:
            if has_symm(s):
                raise Reject("an operator without the block's symmetry")
            raise
        op = "|".join(t["s"])
        ix = list(t["ix"][0])
        keep = list(ix)
        M = dense_of(b.Op(op, ix, J, DT[ch]), n, DT[ch])
        check(ix == keep, "Op changed its indx argument")
        if not case["nparray"]:
            pass
        elif len(ix):
            M2 = dense_of(b.Op(op, np.array(ix, dtype=np.int32), J, DT[ch]), n, DT[ch])
            check(np.array_equal(M, M2), "Op with an array of sites differs")
        check(ref.close(M, W, TOL[ch]), lambda: "Op(%s,%s): differs from particle x photon matrix elements by %s" % (op, ix, ref.maxdiff(M, W)))
        h, sign = adjoint({"s": t["s"], "ix": [t["ix"][0], []]})
        H = H + W + W.conj().T
        for o, i, j in ((op, ix, J), ("|".join(h["s"]), h["ix"][0], sign * np.conj(J))):
            (dynamic.append([o, [[j] + i], _one, []]) if t["dyn"] else static.append([o, [[j] + i]]))
    if not has_symm(s):
        Q = hamiltonian(static, dynamic, basis=b, dtype=DT[ch], check_symm=False).toarray(time=0.1)
        check(ref.close(Q, H, TOL[ch]), lambda: "hamiltonian: differs by %s" % ref.maxdiff(Q, H))
        es, ed = b.expanded_form(static, dynamic)
    return [s["kind"], "conserved" if case["conserved"] else "cutoff", ch] + (["blocks"] if has_symm(s) else []), a.Ns > 1


def run_photon_pcon(case):
    """a string that changes the conserved total is refused"""
    from quspin.operators import hamiltonian

    s, a, b = photon_parts(case)
    if b.Ns == 0:
        return ["empty"], False
    t = case["terms"][0]
    h, sign = adjoint({"s": t["s"], "ix": [t["ix"][0], []]})
    delta = sum((c == "+") - (c == "-") for c in t["s"][0] + t["s"][1])
    op, ix = "|".join(t["s"]), t["ix"][0]
    J = gen.cplx(t["J"])
    # zero on every state anyway?
    m = gen.model_of(s)
    fs, fi = gen.flat(s, t["s"][0], ix)
    zero = not np.any(m.apply(fs, fi, m.all_digits())[1]) or not np.any(ho_matrix(t["s"][1], case["nph"]))
    xy = any(c in "xy" for c in t["s"][0])
    ok = c07.accepted(lambda: hamiltonian([[op, [[J] + ix]], ["|".join(h["s"]), [[sign * np.conj(J)] + h["ix"][0]]]], [], basis=b, dtype=np.complex128, check_symm=False), "n")
    if delta and not xy and not zero:
        check(not ok, lambda: "%s%s changes the total by %d and was accepted" % (op, ix, delta))
    if not delta and not xy:
        check(ok, lambda: "%s%s conserves the total and was refused" % (op, ix))
    return [s["kind"], "refused" if not ok else "accepted"], a.Ns > 1


def run_photon_lift(case):
    s, a, b = photon_parts(case)
    if b.Ns == 0:
        return ["empty"], False
    if case["dtype"] in "fd" and has_symm(s) and not c05.is_real(s):
        case["dtype"] = {"f": "F", "d": "D"}[case["dtype"]]
    A = ref.dense(a.get_proj(np.complex128))
    flags = {}
    if case["fp"] is not None:
        flags["full_part"] = case["fp"]
    if case["fp"] is False:
        A = np.eye(a.Ns)
    nph = case["nph"]
    if case["conserved"]:
        N = nph
        if case["extra"] is not None:
            N = nph + case["extra"]
            flags["Nph"] = N
        nn = photon_numbers(case, b)
        P = np.zeros((A.shape[0] * (N + 1), a.Ns), complex)
        for c in range(a.Ns):
            P[np.arange(A.shape[0]) * (N + 1) + nn[c], c] = A[:, c]
    else:
        P = np.kron(A, np.eye(nph + 1))
    if P.shape[0] > 4000:
        raise Reject("large")
    lift_check(b, case, P, case["mode"], case["mode"], flags)
    return [s["kind"], "conserved" if case["conserved"] else "cutoff", case["mode"], case["dtype"]] + (["blocks"] if has_symm(s) else []), a.Ns > 1


@st.composite
def photon_specs(draw, maxdim=200, kinds=None, blocks=True, conserved=None):
    kinds = kinds or gen.KINDS
    cons = draw(st.booleans()) if conserved is None else conserved
    nph = draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5, 6, 7]))
    spec = draw(gen.basis_specs(kinds=kinds, pcon=False, docc=False, maxdim=max(4, maxdim if cons else maxdim // (nph + 1))))
    if spec["kind"] == "ufgen":
        spec["kw"] = {"simple_symm": False}
    if blocks and spec["kind"] != "ufgen" and spec["N"] > 1 and draw(st.integers(0, 2)) == 0:
        spec = draw(c02.blocks(spec)) if spec["kind"] in gen.KINDS_1D else draw(c03.with_maps(spec, False))
        if cons:  # inversions do not keep the particle number
            if "blocks" in spec:
                spec["blocks"] = {k: v for k, v in spec["blocks"].items() if k in ("k", "a", "p", "s", "ps")}
                if not set(spec["blocks"]) - {"a"}:
                    spec.pop("blocks")
            else:
                spec["maps"] = [m for m in spec["maps"] if not any(flips(m[1]))]
                spec.pop("order", None)
                if not spec["maps"]:
                    spec.pop("maps")
    return {"particles": spec, "conserved": cons, "nph": nph}


def flips(mp):
    return [x < 0 for x in mp]


@st.composite
def photon_terms(draw, spec, conserved, keep=None):
    """conserved: most strings conserve the total"""
    lspec = spec
    if spec["kind"] == "ufgen":  # sites 0..2N-1, no bar
        lspec = {"kind": "sfgen", "N": 2 * spec["N"]}
    chars = gen.op_chars(lspec)
    if conserved:
        chars = chars.replace("x", "").replace("y", "")
    s, ix = draw(gen.op_strings(lspec, maxlen=3, chars=chars))
    if draw(st.integers(0, 5)) == 0:
        s, ix = "", []
    ph = draw(st.text(alphabet="I+-n", min_size=0, max_size=3))
    if conserved and (keep or draw(st.integers(0, 9)) < 9):
        d = s.count("+") - s.count("-") + ph.count("+") - ph.count("-")
        ph = ("-" * d if d > 0 else "+" * -d) + ph
        if draw(st.booleans()):
            ph = ph[::-1]
    return {"s": [s, ph], "ix": [list(ix), []], "J": draw(gen.amplitudes()), "dyn": draw(st.integers(0, 4)) == 0}


NOBAR = [k for k in gen.KINDS if k != "uf1d"]


@st.composite
def photon_op_cases(draw):
    c = draw(photon_specs(kinds=NOBAR))
    return dict(c, terms=draw(st.lists(photon_terms(c["particles"], c["conserved"], keep=True), min_size=1, max_size=3)), dtype=draw(st.sampled_from("dDDfF")), nparray=draw(st.booleans()))


@st.composite
def photon_pcon_cases(draw):
    c = draw(photon_specs(kinds=NOBAR, blocks=False, conserved=True))
    t = draw(photon_terms(c["particles"], draw(st.booleans())))
    return dict(c, terms=[t])


@st.composite
def photon_lift_cases(draw):
    c = draw(photon_specs())
    return dict({k: draw(v) for k, v in LIFT.items()}, fp=draw(st.sampled_from([None, None, True, False])), extra=draw(st.sampled_from([None, None, 0, 1, 3])), **c)


# ------------------------------------------------------------ oscillator and helpers
def run_misc(case):
    from scipy.special import gammaln
    from quspin.basis import photon_basis
    from quspin.basis.photon import coherent_state, photon_Hspace_dim, ho_basis

    n = case["n"]
    a = gen.cplx(case["a"])
    kw = {}
    if isinstance(a, complex):
        kw["dtype"] = np.complex128
    elif case["dt"]:
        kw["dtype"] = DT[case["dt"]]
        if case["dt"] in "fd" and a < 0:
            a = -a
    else:
        a = abs(a)
    got = coherent_state(a, n, **kw)
    k = np.arange(n)
    with np.errstate(all="ignore"):
        want = np.exp(-abs(a) ** 2 / 2 - 0.5 * gammaln(k + 1)) * np.power(complex(a), k)
    check(np.shape(got) == (n,), "coherent_state: shape %s" % (np.shape(got),))
    check(ref.close(got, want, 1e-4 if kw.get("dtype") in (np.float32, np.complex64) else 1e-10), lambda: "coherent_state(%s,%d) differs by %s" % (a, n, ref.maxdiff(got, want)))
    if "dtype" in kw:
        check(got.dtype == kw["dtype"], lambda: "coherent_state: type %s" % got.dtype)
    N, nt = case["N"], case["nt"]
    from math import comb

    check(abs(photon_Hspace_dim(N, None, nt) - 2 ** N * (nt + 1)) < 0.5, "photon_Hspace_dim with a cutoff")
    d = sum(comb(N, j) for j in range(min(nt, N) + 1))
    got = photon_Hspace_dim(N, nt, None)
    check(abs(got - d) < 1e-6 * d, lambda: "photon_Hspace_dim(%d,%d)=%s instead of %d" % (N, nt, got, d))
    # the oscillator alone
    h = ho_basis(nt)
    check(h.Ns == nt + 1 and h.N == 1 and h.sps == nt + 1 and h.Np == nt, "ho_basis: sizes")
    check(list(h) == list(range(nt + 1)) and h[nt // 2] == nt // 2 and int(h.index(nt // 2)) == nt // 2, "ho_basis: states")
    for q in (-1, nt + 1, 2 * nt + 5):
        try:
            k = h.index(q)
        except ValueError:
            continue
        fail("ho_basis(%d).index(%d) gave %s" % (nt, q, k))
    for s in case["ops"]:
        M = dense_of(h.Op(s, [0] * len(s), 0.5, np.float64), nt + 1, np.float64)
        W = 0.5 * ho_matrix(s, nt)
        check(ref.close(M, W, 1e-10), lambda: "ho_basis(%d).Op(%s) differs by %s" % (nt, s, ref.maxdiff(M, W)))
    return [], n > 1


@st.composite
def misc_cases(draw):
    return {"n": draw(st.integers(1, 40)), "a": draw(st.one_of(st.sampled_from([0.0, 0.1, 0.5, 1.0, 2.0, 3.5]), st.tuples(st.sampled_from([-2.0, 0.0, 1.0]), st.sampled_from([-1.5, 0.5, 2.0])).map(list))),
            "dt": draw(st.sampled_from([None, "f", "d", "F", "D"])), "N": draw(st.integers(1, 12)), "nt": draw(st.one_of(st.integers(0, 14), st.sampled_from([125, 126, 127, 128, 200, 255, 256]))),
            "ops": draw(st.lists(st.text(alphabet="I+-n", max_size=5), min_size=1, max_size=4))}


FAMILIES = [
    Family("tensor op", op_cases, run_op, 900, 20000),
    Family("tensor hamiltonian", ham_cases, run_ham, 500, 10000),
    Family("tensor index", index_cases, run_index, 500, 10000),
    Family("tensor lift", lift_cases, run_lift, 900, 20000),
    Family("photon states", photon_specs, run_photon_states, 500, 10000),
    Family("photon op", photon_op_cases, run_photon_op, 900, 20000),
    Family("photon conservation", photon_pcon_cases, run_photon_pcon, 300, 6000),
    Family("photon lift", photon_lift_cases, run_photon_lift, 700, 15000),
    Family("misc", misc_cases, run_misc, 300, 6000),
]
