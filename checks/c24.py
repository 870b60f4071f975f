"""C24: transformations of the square lattice."""
import numpy as np
from hypothesis import strategies as st

import gen, ref, symm
from checks import c03
from vf import Family, check, fail

ID = "C24"
TECHNIQUE = "property-based testing: random lattices against coordinates, group relations and neighbours; completeness of the enumerated blocks by reference projectors, dimensions and spectra"
LEVEL_NOTE = "sampled, not exhaustive: lattices up to 9 x 9 (blocks: up to 36 sites with 1 to 3 particles, or 9 sites); trusts lib/ref.py, lib/symm.py and numpy"

RULE = ("cases: a lattice (permutations), or a lattice with a basis and an iteration over its blocks; "
        "non-trivial: both lengths are at least 2 (permutations), there are at least 3 blocks (blocks)")


def run_perm(case):
    from quspin.basis.transformations import square_lattice_trans

    Lx, Ly = case["Lx"], case["Ly"]
    tr = square_lattice_trans(Lx, Ly)
    n = Lx * Ly
    site = lambda x, y: (x % Lx) + (y % Ly) * Lx
    xy = [(i % Lx, i // Lx) for i in range(n)]
    want = {"T_x": [site(x + 1, y) for x, y in xy], "T_y": [site(x, y + 1) for x, y in xy],
            "P_x": [site(Lx - 1 - x, y) for x, y in xy], "P_y": [site(x, Ly - 1 - y) for x, y in xy],
            "Z": [-(i + 1) for i in range(n)],
            "Z_A": [-(i + 1) if sum(xy[i]) % 2 == 0 else i for i in range(n)], "Z_B": [-(i + 1) if sum(xy[i]) % 2 == 1 else i for i in range(n)]}
    if Lx == Ly:
        want["P_d"] = [site(y, x) for x, y in xy]
        want["P_e"] = [site(Lx - 1 - y, Lx - 1 - x) for x, y in xy]
    else:
        for name in ("P_d", "P_e"):
            try:
                getattr(tr, name)
            except Exception:
                continue
            fail("%s of a lattice of %d x %d sites" % (name, Lx, Ly))
    for name, w in want.items():
        got = np.asarray(getattr(tr, name)).tolist()
        check(got == w, lambda: "%s of a %d x %d lattice is %s" % (name, Lx, Ly, got))
    info = tr.site_info
    check(info.N == n and list(info.sites) == list(range(n)) and [(int(a), int(b)) for a, b in zip(info.X, info.Y)] == xy, "site_info")
    check([(i, (int(a), int(b))) for i, (a, b) in tr.site_info.coor_iter] == list(enumerate(xy)) if hasattr(info, "_X") else True, "coor_iter")
    # neighbours stay neighbours
    bonds = {frozenset((i, site(x + 1, y))) for i, (x, y) in enumerate(xy)} | {frozenset((i, site(x, y + 1))) for i, (x, y) in enumerate(xy)}
    g = {k: ([t if t >= 0 else -(t + 1) for t in np.asarray(getattr(tr, k)).tolist()], [t < 0 for t in np.asarray(getattr(tr, k)).tolist()]) for k in want}
    for k, (p, _) in g.items():
        check({frozenset(p[i] for i in b) for b in bonds} == bonds, lambda: "%s does not keep the neighbours" % k)
    eq = lambda a, b: symm.key(a) == symm.key(b)
    e = symm.identity(n)
    mul, pw = symm.compose, symm.power
    inv = lambda a: pw(a, symm.order(a) - 1)
    check(eq(pw(g["T_x"], Lx), e) and eq(pw(g["T_y"], Ly), e), "the translations do not have the period of the lattice")
    check(all(eq(mul(g[k], g[k]), e) for k in g if k[0] in "PZ"), "a reflection or inversion is not its own inverse")
    check(eq(mul(g["T_x"], g["T_y"]), mul(g["T_y"], g["T_x"])), "the translations do not commute")
    check(eq(mul(g["P_x"], mul(g["T_x"], g["P_x"])), inv(g["T_x"])) and eq(mul(g["P_x"], mul(g["T_y"], g["P_x"])), g["T_y"]), "P_x and the translations")
    check(eq(mul(g["P_y"], mul(g["T_y"], g["P_y"])), inv(g["T_y"])) and eq(mul(g["P_y"], mul(g["T_x"], g["P_y"])), g["T_x"]), "P_y and the translations")
    check(eq(mul(g["Z_A"], g["Z_B"]), g["Z"]), "the inversions of the sublattices do not make up the inversion")
    if Lx == Ly:
        check(eq(mul(g["P_d"], mul(g["T_x"], g["P_d"])), g["T_y"]) and eq(mul(g["P_e"], mul(g["T_x"], g["P_e"])), inv(g["T_y"])), "the diagonal reflections and the translations")
    return ["%d x %d" % (Lx, Ly)], Lx > 1 and Ly > 1


def blocks_of(tr, case, sps):
    if case["iter"] == "parity":
        return tr.allowed_blocks_iter_parity()
    if case["iter"] == "inversion":
        return tr.allowed_blocks_spin_inversion_iter(case["Np"], sps)
    return tr.allowed_blocks_iter()


def run_blocks(case):
    from quspin.basis.transformations import square_lattice_trans
    from quspin.operators import hamiltonian

    Lx, Ly = case["Lx"], case["Ly"]
    n = Lx * Ly
    tr = square_lattice_trans(Lx, Ly)
    kind, Np = case["kind"], case["Np"]
    spec = {"kind": kind, "N": n, "pcon": Np}
    if kind == "spingen":
        spec.update(twoS=case["sps"] - 1, pauli=0)
    elif kind == "bosongen":
        spec["sps"] = case["sps"]
    m = gen.model_of(spec)
    blocks = list(blocks_of(tr, case, m.sps)) if case["listed"] else blocks_of(tr, case, m.sps)
    full = gen.make_basis(spec)
    xy = [(i % Lx, i // Lx) for i in range(n)]
    bonds = [[i, (x + 1) % Lx + y * Lx] for i, (x, y) in enumerate(xy)] + [[i, x + ((y + 1) % Ly) * Lx] for i, (x, y) in enumerate(xy)]
    stat = [["+-", [[1.0] + b for b in bonds]], ["+-", [[1.0] + b[::-1] for b in bonds]], ["zz", [[0.7] + b for b in bonds]]]
    E0 = np.linalg.eigvalsh(hamiltonian(stat, [], basis=full, dtype=np.float64, **gen.NOCHECK).toarray()) if full.Ns else np.zeros(0)
    E, dims, total = [], [], 0
    digits = gen.sector_digits(spec, m)[::-1] if case["small"] else None
    if digits is not None:
        total = np.zeros((len(digits), len(digits)), dtype=complex)
    nb = 0
    for bl in blocks:
        nb += 1
        check(all(isinstance(v, tuple) and len(v) == 2 and v[0] is not None and len(v[0]) == n for v in bl.values()), lambda: "a block with the values %s" % bl)
        if case["iter"] == "inversion" and case["Np"] is None:
            check("zblock" in bl, "a block without the inversion")
        b = gen.make_basis(spec, **bl)
        dims.append(b.Ns)
        if b.Ns:
            E += list(np.linalg.eigvalsh(hamiltonian(stat, [], basis=b, dtype=np.complex128, **gen.NOCHECK).toarray()))
        if digits is not None:
            us = c03.usable(dict(spec, maps=[[k, [int(t) for t in v[0]], int(v[1])] for k, v in bl.items()]), m, digits)
            if us is None:
                return ["projective"], False
            P = c03.projector(us, len(digits))
            check(int(round(np.trace(P).real)) == b.Ns, "the dimension of a block")
            total = total + P
    labels = [case["iter"], kind, "%d x %d" % (Lx, Ly), "listed" if case["listed"] else "iterated"]
    check(sum(dims) == full.Ns, lambda: "the blocks of the %d x %d lattice have %d states in all, the space %d" % (Lx, Ly, sum(dims), full.Ns))
    if digits is not None:
        check(ref.close(total, np.eye(len(digits))), "the blocks do not add up to the space")
    check(ref.close(np.sort(E), E0, 1e-8), lambda: "the spectra of the blocks are not that of the lattice: %s" % ref.maxdiff(np.sort(E), E0))
    return labels, nb >= 3


@st.composite
def perm_cases(draw):
    return {"Lx": draw(st.integers(1, 9)), "Ly": draw(st.integers(1, 9))}


@st.composite
def block_cases(draw):
    small = draw(st.booleans())
    # one row or column: its reflection is the identity, for which both quantum numbers are the same
    Lx, Ly = draw(st.integers(2, 7)), draw(st.integers(2, 7))
    if draw(st.integers(0, 2)) == 0:
        Ly = Lx
    cap = 9 if small else 36
    while Lx * Ly > cap:
        if Lx >= Ly:
            Lx -= 1
        else:
            Ly -= 1
    n = Lx * Ly
    kind = draw(st.sampled_from(["spingen", "spingen", "bosongen", "sfgen"]))
    it = draw(st.sampled_from(["all", "all", "inversion", "parity"]))
    if kind == "sfgen" and it == "inversion":
        it = "all"
    sps = 2 if kind == "sfgen" else draw(st.sampled_from([2, 2, 3]))
    if n <= 8 and sps == 2 and draw(st.booleans()):
        Np = draw(st.one_of(st.none(), st.integers(0, n), st.just(n // 2)))
    elif n <= 5 and sps == 3:
        Np = draw(st.one_of(st.none(), st.integers(0, 2 * n), st.just(n)))
    else:
        Np = draw(st.integers(0, min(n, 1 if n > 25 else 2 if n > 12 else 3)))
    return {"Lx": Lx, "Ly": Ly, "kind": kind, "iter": it, "sps": sps, "Np": Np, "small": small, "listed": draw(st.booleans())}


FAMILIES = [
    Family("permutations", perm_cases, run_perm, 200, 400),
    Family("blocks", block_cases, run_blocks, 160, 4000),
]
