"""C02: symmetry blocks of one-dimensional bases."""
import math

import numpy as np
from hypothesis import strategies as st

import gen, ref, symm
from vf import Family, check, fail

ID = "C02"
TECHNIQUE = "property-based testing: random chains, blocks and symmetrised operators against projectors built from the reference symmetry operations"
LEVEL_NOTE = ("sampled, not exhaustive: every combination of blocks of the four 1d classes on full spaces up to 300 states and on small sectors of chains "
              "up to 40 sites; trusts lib/ref.py, lib/symm.py and numpy")

RULE = ("cases: a 1d basis with a combination of blocks and a random operator list symmetrised under them; "
        "non-trivial: the block has at least 2 states and the operator is not zero in it")
NAMES = {"spin1d": {"z": "zblock", "zA": "zAblock", "zB": "zBblock", "pz": "pzblock"},
         "boson1d": {"z": "cblock", "zA": "cAblock", "zB": "cBblock", "pz": "pcblock"},
         "uf1d": {"z": "sblock", "pz": "psblock"}, "sf1d": {}}


def blocks_kw(spec):
    kw = {}
    for b, q in spec["blocks"].items():
        kw[{"k": "kblock", "a": "a", "p": "pblock"}.get(b) or NAMES[spec["kind"]][b]] = q
    if spec.get("nozcheck"):
        kw["check_z_symm"] = False
    return kw


def generators(spec):
    b = spec["blocks"]
    g = {}
    if "k" in b:
        g["k"] = symm.translation(spec, b.get("a", 1))
    if "p" in b:
        g["p"] = symm.reflection(spec)
    if "z" in b:
        g["z"] = symm.inversion(spec)
    if "zA" in b:
        g["zA"] = symm.inversion(spec, 0)
    if "zB" in b:
        g["zB"] = symm.inversion(spec, 1)
    if "pz" in b:
        g["pz"] = symm.compose(symm.inversion(spec), symm.reflection(spec))
    return g


def projector(spec, model, digits):
    """dense projector on the states of the requested quantum numbers"""
    b = spec["blocks"]
    g = generators(spec)
    M = np.eye(len(digits), dtype=complex)
    for name in ("p", "z", "zA", "zB", "pz"):
        if name in g:
            M = symm.project(symm.unitary(model, digits, g[name]), 2, b[name], M)
    if "k" in g:
        m = spec["N"] // b.get("a", 1)
        u = symm.unitary(model, digits, g["k"])
        ph = np.exp(-2j * math.pi * b["k"] / m)
        A = symm.project(u, m, ph, M)
        if ("p" in b or "pz" in b) and (2 * b["k"]) % m != 0:
            A = A + symm.project(u, m, ph.conjugate(), M)
        M = A
    return M


def eigen_check(spec, model, digits, P):
    """the columns of P have the block's quantum numbers"""
    b = spec["blocks"]
    for name, g in generators(spec).items():
        u = symm.unitary(model, digits, g)
        UP = symm.act(u, P)
        if name == "k":
            m = spec["N"] // b.get("a", 1)
            k = 2 * math.pi * b["k"] / m
            if "p" in b or "pz" in b:
                inv = symm.power(g, m - 1)
                UP = UP + symm.act(symm.unitary(model, digits, inv), P)
                want = 2 * math.cos(k) * P
            else:
                want = np.exp(1j * k) * P
        else:
            want = b[name] * P
        check(ref.close(UP, want, 1e-9), lambda: "the states of the block do not have the quantum number %s=%s" % (name, b[name]))


def run(case):
    from quspin.operators import hamiltonian

    spec = case["basis"]
    m = gen.model_of(spec)
    b = gen.make_basis(spec, **blocks_kw(spec))
    large = case.get("large")
    if large:
        parts = spec["pcon"] if isinstance(spec["pcon"], list) and not spec["kind"].startswith("uf") else [spec["pcon"]]
        if spec["kind"].startswith("uf"):
            up = ref.compositions(spec["N"], spec["pcon"][0], 2)
            dn = ref.compositions(spec["N"], spec["pcon"][1], 2)
            digits = np.array([np.concatenate([x, y]) for x in up for y in dn])
        else:
            digits = np.concatenate([ref.compositions(spec["N"], q, m.sps) for q in parts])
        val = np.array([sum(int(d) * m.sps ** (m.N - 1 - i) for i, d in enumerate(r)) for r in digits], dtype=object)
        digits = digits[np.argsort(-val)]
    else:
        digits = gen.sector_digits(spec, m)[::-1]  # descending integers
    Pi = projector(spec, m, digits)
    rank = int(round(np.trace(Pi).real))
    check(b.Ns == rank, lambda: "the block has %d states instead of %d" % (b.Ns, rank))
    if rank == 0:
        return [spec["kind"], "empty", "+".join(sorted(spec["blocks"]))], False
    real = case["dtype"] == "d"
    dt = np.float64 if real else np.complex128
    if large:
        P = b.get_proj(np.complex128, pcon=True)
        P = ref.dense(P)
    else:
        P = ref.dense(b.get_proj(np.complex128))
        check(P.shape == (m.sps ** m.N, b.Ns), "projector of the wrong shape")
        full = np.array(m.digits_to_ints(digits), dtype=np.int64)
        rows = m.sps ** m.N - 1 - full
        rest = np.ones(len(P), dtype=bool)
        rest[rows] = False
        check(not np.any(P[rest]), "the projector leaves the particle sector")
        P = P[rows]
    check(P.shape == (len(digits), b.Ns), "projector of the wrong shape")
    check(ref.close(P.conj().T @ P, np.eye(b.Ns)), lambda: "the projector is not an isometry: %s" % ref.maxdiff(P.conj().T @ P, np.eye(b.Ns)))
    eigen_check(spec, m, digits, P)
    gens = list(generators(spec).values())
    stat = symm.symmetrise(spec, case["static"], gens)
    ql = gen.q_list(stat)
    if real:
        ql = [[s, [[c[0].real] + c[1:] for c in cs]] for s, cs in ql]
    H = hamiltonian(ql, [], basis=b, dtype=dt, **gen.NOCHECK).toarray()
    tr = gen.terms(spec, stat)
    if real:
        tr = [(s, i, complex(J).real) for s, i, J in tr]
    R = m.matrix(tr, digits)
    if m.leaks:
        return [spec["kind"], "leak"], False
    want = P.conj().T @ R @ P
    check(ref.close(H, want), lambda: "block matrix differs from the projected full one by %s" % ref.maxdiff(H, want))
    check(ref.close(R @ P, P @ want), "reference operator does not stay in the block")
    return [spec["kind"], "+".join(sorted(x for x in spec["blocks"] if x != "a")) or "none", "a>1" if spec["blocks"].get("a", 1) > 1 else "a=1",
            "N" if spec.get("pcon") is not None else "full"], b.Ns > 1 and np.abs(H).max() > 0


def divisors(n):
    return [a for a in range(1, n + 1) if n % a == 0]


@st.composite
def blocks(draw, spec):
    """completes the spec with a combination of blocks, adapting the particle sector"""
    kind, N = spec["kind"], spec["N"]
    zok = kind == "spin1d" or kind == "uf1d" or (kind == "boson1d" and spec["sps"] == 2)
    combos = ["k", "p", "kp", "k", "kp"]
    if zok:
        combos += ["z", "kz", "pz", "kpz", "PZ", "kPZ", "kpz"]
        if kind != "uf1d":
            combos += ["A", "B", "AB", "kA", "kB", "kAB"]
    c = draw(st.sampled_from(combos))
    if any(x in c for x in "AB"):
        spec["pcon"] = None
        if "k" in c and N % 2:
            c = c.replace("k", "")
    b = {}
    if "k" in c:
        a = draw(st.sampled_from([1, 1, 1] + [x for x in divisors(N) if x < N or N == 1]))
        if any(x in c for x in "AB"):
            ev = [x for x in divisors(N) if x % 2 == 0 and x <= N]
            a = draw(st.sampled_from(ev))
        b["k"] = draw(st.integers(-N // a, 2 * N // a))
        if a != 1 or draw(st.booleans()):
            b["a"] = a
    pm = st.sampled_from([1, -1])
    if "PZ" in c:
        b["pz"] = draw(pm)
    else:
        if "p" in c:
            b["p"] = draw(pm)
        if "z" in c:
            b["z"] = draw(pm)
    if "A" in c:
        b["zA"] = draw(pm)
    if "B" in c:
        b["zB"] = draw(pm)
    if ("z" in b or "pz" in b) and spec.get("pcon") is not None:
        if kind == "uf1d":
            ps = spec["pcon"] if isinstance(spec["pcon"][0], list) else [spec["pcon"]]
            ps = sorted({tuple(x) for x in ps} | {(y, x) for x, y in ps})
            spec["pcon"] = [list(x) for x in ps]
            spec["nozcheck"] = True
            if len(ps) == 1:
                spec["pcon"] = spec["pcon"][0]
        else:
            sps = spec["sps"] if kind == "boson1d" else spec["twoS"] + 1
            top = N * (sps - 1)
            ps = spec["pcon"] if isinstance(spec["pcon"], list) else [spec["pcon"]]
            ps = sorted({x for x in ps} | {top - x for x in ps})
            if len(ps) == 1:
                spec["pcon"] = ps[0]
            elif top % 2 == 0 and draw(st.booleans()):
                spec["pcon"] = top // 2
            else:
                spec["pcon"] = ps
                spec["nozcheck"] = True
    spec["blocks"] = b
    return spec


def chars_of(spec):
    ch = gen.op_chars(spec)
    if any(x in spec["blocks"] for x in ("z", "pz", "zA", "zB")) and not spec["kind"].startswith("uf"):
        ch = ch.replace("n", "")
    return ch


@st.composite
def cases(draw):
    spec = draw(gen.basis_specs(kinds=gen.KINDS_1D, maxdim=260, minN=2))
    spec = draw(blocks(spec))
    conserve = spec.get("pcon") is not None or draw(st.booleans())
    # a term that leaves the subspace without double occupancy is projected differently before and after symmetrising
    real = "k" not in spec["blocks"] and draw(st.booleans())
    if spec.get("docc") is False and spec.get("pcon") is None:
        conserve = True
    ops = draw(gen.op_lists(spec, conserve=conserve, maxlen=4, maxterms=3, maxcoup=2, chars=chars_of(spec).replace("y", "") if real else chars_of(spec)))
    return {"basis": spec, "static": ops, "dtype": "d" if real else "D"}


@st.composite
def large(draw):
    kind = draw(st.sampled_from(gen.KINDS_1D))
    spec = {"kind": kind}
    sps = 2
    if kind == "spin1d":
        spec["twoS"] = draw(st.sampled_from([1, 1, 2, 3]))
        spec["pauli"] = 1 if spec["twoS"] == 1 else 0
        sps = spec["twoS"] + 1
    elif kind == "boson1d":
        sps = spec["sps"] = draw(st.sampled_from([2, 3, 4]))
    one = draw(st.booleans())
    if kind == "uf1d":
        N = draw(st.one_of(st.sampled_from([15, 16, 17, 31, 32, 33]), st.integers(8, 34))) if one else draw(st.integers(6, 12))
        n = draw(st.sampled_from([[1, 0], [0, 1]] if one else [[1, 1], [2, 0], [0, 2]]))
    else:
        top = 70 if sps == 2 else 36
        bound = [x for x in (16, 20, 21, 31, 32, 33, 40, 41, 63, 64, 65) if x < top]
        N = draw(st.one_of(st.sampled_from(bound), st.integers(8, top))) if one else draw(st.integers(8, 18))
        n = 1 if one else 2
        if draw(st.booleans()):
            n = N * (sps - 1) - n
    spec["N"], spec["pcon"] = N, n
    b = {}
    c = draw(st.sampled_from(["k", "p", "kp"] + (["s", "ks", "kps", "ps"] if n == [1, 1] else [])))
    if "k" in c:
        a = draw(st.sampled_from([1, 1] + [x for x in divisors(N) if x < N]))
        b["k"] = draw(st.integers(0, N // a - 1))
        b["a"] = a
    if "p" in c:
        b["p"] = draw(st.sampled_from([1, -1]))
    if "s" in c:
        b["z"] = draw(st.sampled_from([1, -1]))
        spec["nozcheck"] = True
    spec["blocks"] = b
    ops = draw(gen.op_lists(spec, conserve=True, maxlen=4, maxterms=2, maxcoup=1))
    return {"basis": spec, "static": ops, "dtype": "D", "large": True}


def run_sectors(case):
    """lists of sectors: the block is right or refused"""
    spec = case["basis"]
    m = gen.model_of(spec)
    digits = gen.sector_digits(spec, m)
    rows = {r.astype(np.int64).tobytes() for r in digits}
    closed = all(r.astype(np.int64).tobytes() in rows for g in generators(spec).values() for r in m.permute(g[0], g[1], digits)[0])
    try:
        gen.make_basis(spec, **blocks_kw(spec))
    except (ValueError, TypeError) as e:
        p = spec["pcon"]
        half = spec["N"] * ({"boson1d": spec.get("sps", 2), "spin1d": spec.get("twoS", 1) + 1}.get(spec["kind"], 2) - 1)
        single = p if not isinstance(p, list) or (spec["kind"] == "uf1d" and not isinstance(p[0], list)) else None
        if single is not None and half % 2 == 0 and single in (half // 2, [half // 2, half // 2]):
            fail("a block of the half-filled sector was refused: %s" % e)
        return [spec["kind"], "refused"], True
    check(closed, "a block was built from particle sectors that are not closed under its symmetries")
    labels, nt = run(case)
    return labels + ["accepted"], nt


@st.composite
def sectors(draw):
    spec = draw(gen.basis_specs(kinds=["spin1d", "uf1d", "boson1d"], maxdim=260, minN=2))
    if spec.get("pcon") is None or (spec["kind"] == "boson1d" and spec["sps"] > 2):
        spec["kind"], spec["twoS"], spec["pauli"] = "spin1d", 1, 1
        spec.pop("sps", None)
        spec.pop("docc", None)
        N = spec["N"] = min(spec["N"], 8)
        spec["pcon"] = draw(st.one_of(st.just(N // 2), st.lists(st.integers(0, N), min_size=1, max_size=3, unique=True)))
    elif spec["kind"] == "uf1d":
        h = spec["N"] // 2
        if draw(st.booleans()):
            ps = spec["pcon"] if isinstance(spec["pcon"][0], list) else [spec["pcon"]]
            spec["pcon"] = [[h, h]] + [x for x in ps if x != [h, h]]
            if len(spec["pcon"]) == 1 and draw(st.booleans()):
                spec["pcon"] = [h, h]
    elif draw(st.booleans()):
        sps = spec["sps"] if spec["kind"] == "boson1d" else spec["twoS"] + 1
        h = spec["N"] * (sps - 1) // 2
        ps = spec["pcon"] if isinstance(spec["pcon"], list) else [spec["pcon"]]
        spec["pcon"] = [h] + [x for x in ps if x != h]
        if draw(st.booleans()):
            spec["pcon"] = spec["pcon"] + [x for x in [spec["N"] * (sps - 1) - y for y in spec["pcon"]] if x not in spec["pcon"]]
    b = {}
    c = draw(st.sampled_from(["z", "pz", "PZ", "kz", "kPZ"]))
    if "k" in c:
        b["k"] = draw(st.integers(0, spec["N"] - 1))
    if "PZ" in c:
        b["pz"] = draw(st.sampled_from([1, -1]))
    else:
        b["z"] = draw(st.sampled_from([1, -1]))
        if "p" in c:
            b["p"] = draw(st.sampled_from([1, -1]))
    spec["blocks"] = b
    ops = draw(gen.op_lists(spec, conserve=True, maxlen=3, maxterms=2, maxcoup=2, chars=chars_of(spec)))
    return {"basis": spec, "static": ops, "dtype": "D"}


FAMILIES = [
    Family("sectors", sectors, run_sectors, 400, 8000),
    Family("blocks", cases, run, 2400, 50000),
    Family("long_chains", large, run, 320, 6000),
]
