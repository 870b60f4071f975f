"""C01: operator strings have the matrix elements of the textbook tensor-product / Jordan-Wigner operators."""
import numpy as np
from hypothesis import strategies as st

import gen, ref
from vf import Family, check, fail

ID = "C01"
TECHNIQUE = "property-based testing: random bases and operator strings against a digit-array reference model"
LEVEL_NOTE = ("sampled, not exhaustive: quick draws about 9,000 cases (full spaces up to 300 states, sectors up to 16384-bit integers); trusts the "
              "reference model in lib/ref.py and numpy")

RULE = ("cases: a basis without lattice symmetries (kind, size, local dimension, particle sector) with a list of operator strings "
        "and couplings (or one string), drawn by hypothesis; non-trivial: at least 2 basis states and a non-zero reference matrix")
DT = {"f": np.float32, "d": np.float64, "F": np.complex64, "D": np.complex128}
TOL = {"f": 2e-5, "F": 2e-5, "d": 1e-10, "D": 1e-10}


def order_of(model, basis, spec):
    """the reference configurations in the basis' own order"""
    digits = model.ints_to_digits(basis.states)
    return digits


def run_ham(case):
    from quspin.operators import hamiltonian

    spec = case["basis"]
    m = gen.model_of(spec)
    b = gen.make_basis(spec)
    digits = m.ints_to_digits(b.states)
    R = m.matrix(gen.terms(spec, case["static"]), digits)
    check(len(digits) == len(gen.sector_digits(spec, m)), "wrong number of states")
    dt = case["dtype"]
    if np.abs(R.imag).max(initial=0) > 0 or any(isinstance(c[0], list) for s, cs in case["static"] for c in cs) \
            or any("y" in s for s, cs in case["static"]):
        dt = {"f": "F", "d": "D"}.get(dt, dt)
    H = hamiltonian(gen.q_list(case["static"]), [], basis=b, dtype=DT[dt], **gen.NOCHECK)
    A = H.toarray()
    check(A.shape == R.shape, "matrix of the wrong shape")
    check(ref.close(A, R, TOL[dt]), lambda: "hamiltonian matrix differs from the reference by %s" % ref.maxdiff(A, R))
    check(A.dtype == DT[dt], "dtype %s instead of %s" % (A.dtype, dt))
    nz = np.abs(R).max(initial=0) > 0 and len(R) > 1
    off = np.abs(R - np.diag(np.diag(R))).max(initial=0) > 0
    return [spec["kind"], "sector" if spec.get("pcon") is not None else "full", "offdiag" if off else "diag"], nz


def run_op(case):
    spec = case["basis"]
    m = gen.model_of(spec)
    b = gen.make_basis(spec)
    digits = m.ints_to_digits(b.states)
    s, ix, J = case["op"]
    fs, fi = gen.flat(spec, s, ix)
    R = m.matrix([(fs, fi, gen.cplx(J))], digits)
    ME, row, col = b.Op(s, ix, gen.cplx(J), np.complex128)
    A = np.zeros_like(R)
    check(len(ME) == len(row) == len(col), "Op: arrays of different lengths")
    if len(ME):
        check(row.min() >= 0 and row.max() < b.Ns and col.min() >= 0 and col.max() < b.Ns, "Op: index outside of the basis")
    np.add.at(A, (row, col), ME)
    check(ref.close(A, R), lambda: "Op(%r,%r) differs from the reference by %s" % (s, ix, ref.maxdiff(A, R)))
    return [spec["kind"], "len%d" % len(fs)], np.abs(R).max(initial=0) > 0 and len(R) > 1


# large systems in small sectors
@st.composite
def large(draw):
    kind = draw(st.sampled_from(["spin1d", "spingen", "spingen", "boson1d", "bosongen", "bosongen", "sf1d", "sfgen", "sfgen", "uf1d", "ufgen", "ufgen"]))
    general = kind.endswith("gen")
    spec = {"kind": kind}
    if kind.startswith("spin"):
        spec["twoS"] = draw(st.sampled_from([1, 1, 2, 3]))
        spec["pauli"] = draw(st.sampled_from([1, 0, -1])) if spec["twoS"] == 1 else 0
        sps = spec["twoS"] + 1
    elif kind.startswith("boson"):
        sps = spec["sps"] = draw(st.sampled_from([2, 3, 4]))
    else:
        sps = 2
    if kind.startswith("uf"):
        N = draw(st.integers(9, 40)) if general else draw(st.integers(9, 40))
        spec["N"] = N
        npart = draw(st.sampled_from([[1, 0], [0, 1], [1, 1]]))
        if N > 25 and npart == [1, 1]:
            npart = [0, 1]
        if not general and draw(st.booleans()):
            npart = [N - 1, N] if npart[0] == 0 else [N, N - 1]
        spec["pcon"] = npart
    else:
        cap = {2: 63, 3: 41, 4: 32}[sps]
        capg = {2: 90, 3: 70, 4: 50}[sps]
        top = capg if general else cap
        edges = [n for n in (10, 15, 16, 17, 20, 21, 31, 32, 33, 40, 41, 50, 63, 64, 65, 70, 81) if n <= top]
        N = draw(st.one_of(st.integers(10, top), st.sampled_from(edges)))
        spec["N"] = N
        n = draw(st.integers(1, 2)) if N <= 40 else 1
        top = N * (sps - 1)
        spec["pcon"] = n if draw(st.booleans()) else top - n
    ops = draw(gen.op_lists(spec, conserve=True, maxlen=4, maxterms=3))
    return {"basis": spec, "static": ops, "dtype": "D"}


def run_large(case):
    spec = case["basis"]
    m = gen.model_of(spec)
    from quspin.operators import hamiltonian

    b = gen.make_basis(spec)
    digits = m.ints_to_digits(b.states)
    if spec["kind"].startswith("uf"):
        N = spec["N"]
        ups = ref.compositions(N, spec["pcon"][0], 2)
        dns = ref.compositions(N, spec["pcon"][1], 2)
        want = len(ups) * len(dns)
        ok = (digits[:, :N].sum(1) == spec["pcon"][0]).all() and (digits[:, N:].sum(1) == spec["pcon"][1]).all()
    else:
        n = spec["pcon"]
        top = spec["N"] * (m.sps - 1)
        want = len(ref.compositions(spec["N"], min(n, top - n), m.sps))
        ok = (digits.sum(1) == n).all()
    check(ok, "a state outside of the particle sector")
    check(len(digits) == want and len({r.tobytes() for r in digits}) == want, "the sector is not enumerated exactly")
    R = m.matrix(gen.terms(spec, case["static"]), digits)
    H = hamiltonian(gen.q_list(case["static"]), [], basis=b, dtype=np.complex128, **gen.NOCHECK)
    A = H.toarray()
    check(ref.close(A, R), lambda: "large system: matrix differs from the reference by %s" % ref.maxdiff(A, R))
    return [spec["kind"], "bits>64" if m.sps ** m.N > 2 ** 64 else "bits<=64"], np.abs(R).max(initial=0) > 0


@st.composite
def ham_cases(draw):
    spec = draw(gen.basis_specs(maxdim=300))
    conserve = draw(st.integers(0, 3)) > 0 if spec.get("pcon") is not None else draw(st.integers(0, 2)) == 0
    return {"basis": spec, "static": draw(gen.op_lists(spec, conserve=conserve)), "dtype": draw(st.sampled_from("dDDfF"))}


@st.composite
def op_cases(draw):
    spec = draw(gen.basis_specs(maxdim=150))
    s, ix = draw(gen.op_strings(spec, maxlen=5, conserve=draw(st.booleans())))
    return {"basis": spec, "op": [s, ix, draw(gen.amplitudes())]}


FAMILIES = [
    Family("hamiltonian_matrix", ham_cases, run_ham, 4800, 100000),
    Family("single_operator", op_cases, run_op, 4000, 80000),
    Family("large_systems", large, run_large, 640, 12000),
]
