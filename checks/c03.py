"""C03: symmetry blocks of general bases with user-defined maps."""
import math

import numpy as np
from hypothesis import strategies as st

import gen, ref, symm
from vf import Family, check, fail

ID = "C03"
TECHNIQUE = "property-based testing: random site permutations with inversions as symmetry maps, against projectors built from the reference symmetry operations"
LEVEL_NOTE = ("sampled, not exhaustive: random commuting maps (and reflections with invariant quantum numbers) of the four general classes on full spaces up to 300 states, "
              "and small sectors of lattices up to 130 sites; maps whose powers do not return to the identity on fermion states are outside the property; trusts lib/ref.py, lib/symm.py and numpy")

RULE = ("cases: a general basis with 1 to 4 random commuting maps with quantum numbers and a random operator list symmetrised under them; "
        "non-trivial: the block has at least 2 states, fewer than the sector, and the operator is not zero in it")


def op_of(spec, mp):
    """the model operation of QuSpin's map"""
    N = spec["N"]
    if spec["kind"].startswith("uf") and len(mp) == N:
        perm = [0] * (2 * N)
        for i, t in enumerate(mp):
            if t < 0:
                t = -(t + 1)
                perm[i], perm[i + N] = t + N, t
            else:
                perm[i], perm[i + N] = t, t + N
        return perm, [False] * (2 * N)
    return [t if t >= 0 else -(t + 1) for t in mp], [t < 0 for t in mp]


def maps_kw(spec):
    kw = {name: (np.array(m) if spec.get("asarray") else list(m), q) for name, m, q in spec["maps"]}
    if spec.get("adv"):
        kw["simple_symm"] = False
    if spec.get("order"):
        kw["block_order"] = [spec["maps"][i][0] for i in spec["order"]]
    return kw


def usable(spec, model, digits):
    """the operations on the states, or None where they are not a representation with the stated periods"""
    us = []
    for _, mp, q in spec["maps"]:
        g = op_of(spec, mp)
        u = symm.unitary(model, digits, g)
        if model.jw and any(g[1]):
            v = np.ones(len(digits))
            for _ in range(symm.order(g)):
                v = symm.act(u, v)
            if not np.all(v == 1):
                return None
        us.append((g, symm.order(g), q, u))
    if model.jw:
        rnd = np.cos(np.arange(1, len(digits) + 1) * 1.7)
        for i, a in enumerate(us):
            for b in us[:i]:
                if symm.key(symm.compose(a[0], b[0])) == symm.key(symm.compose(b[0], a[0])):
                    if not np.allclose(symm.act(a[3], symm.act(b[3], rnd)), symm.act(b[3], symm.act(a[3], rnd))):
                        return None
        if any(any(x[0][1]) for x in us):
            # with (-1)**j signs the maps may generate more than their product
            try:
                symm.words([x[0] for x in us], True, limit=int(np.prod([x[1] for x in us])))
            except symm.TooLarge:
                return None
    return us


def built(spec, store, rank):
    """the basis; `store` are options that only concern memory and speed"""
    kw = maps_kw(spec)
    if not store:
        return gen.make_basis(spec, **kw)
    est = None if store["extra"] is None else max(rank + store["extra"], 1)
    if store["how"] == "init":
        if est is not None:
            kw["Ns_block_est"] = est
        b = gen.make_basis(spec, **kw)
    else:
        b = gen.make_basis(spec, make_basis=False, **kw)
        b.make(Ns_block_est=est, N_p=store["Np"])
    if store["how"] != "make" and rank:
        b.make_basis_blocks(N_p=store["Np"])
    return b


def projector(us, n):
    M = np.eye(n, dtype=complex)
    for g, m, q, u in us:
        M = symm.project(u, m, np.exp(-2j * math.pi * q / m), M)
    return M


def digits_of(case, m):
    spec = case["basis"]
    if not case.get("large"):
        return gen.sector_digits(spec, m)[::-1]
    if spec["kind"].startswith("uf"):
        up = ref.compositions(spec["N"], spec["pcon"][0], 2)
        dn = ref.compositions(spec["N"], spec["pcon"][1], 2)
        digits = np.array([np.concatenate([x, y]) for x in up for y in dn])
    else:
        digits = ref.compositions(spec["N"], spec["pcon"], m.sps)
        digits = digits[gen.allowed(spec, digits)]
    val = np.array([sum(int(d) * m.sps ** (m.N - 1 - i) for i, d in enumerate(r)) for r in digits], dtype=object)
    return digits[np.argsort(-val)]


def run(case):
    from quspin.operators import hamiltonian

    spec = case["basis"]
    m = gen.model_of(spec)
    digits = digits_of(case, m)
    us = usable(spec, m, digits)
    if us is None:
        return [spec["kind"], "projective"], False
    Pi = projector(us, len(digits))
    rank = int(round(np.trace(Pi).real))
    b = built(spec, case.get("store"), rank)
    check(b.Ns == rank, lambda: "the block has %d states instead of %d" % (b.Ns, rank))
    labels = [spec["kind"], "maps=%d" % len(us), "maxper=%d" % max([x[1] for x in us] or [1]),
              "flips" if any(any(x[0][1]) for x in us) else "noflips", "N" if spec.get("pcon") is not None else "full"]
    if rank == 0:
        return labels + ["empty"], False
    real = case["dtype"] == "d" and all((2 * q) % p == 0 for _, p, q, _ in us)
    dt = np.float64 if real else np.complex128
    if case.get("large"):
        P = ref.dense(b.get_proj(dt, pcon=True))
        if (spec.get("user") or {}).get("pairs"):  # its rows are those of the sector without the constraint
            sector = ref.compositions(spec["N"], spec["pcon"], m.sps)
            val = np.array(m.digits_to_ints(sector), dtype=object)
            ok = gen.allowed(spec, sector)[np.argsort(-val)]
            check(P.shape[0] == len(sector) and not P[~ok].any(), "the projector leaves the constrained space")
            P = P[ok]
    else:
        P = ref.dense(b.get_proj(dt))
        check(P.shape == (m.sps ** m.N, b.Ns), lambda: "projector of the wrong shape %s" % (P.shape,))
        full = np.array(m.digits_to_ints(digits), dtype=np.int64)
        rows = m.sps ** m.N - 1 - full
        rest = np.ones(len(P), dtype=bool)
        rest[rows] = False
        check(not np.any(P[rest]), "the projector leaves the particle sector")
        P = P[rows]
    check(P.shape == (len(digits), b.Ns), lambda: "projector of the wrong shape %s" % (P.shape,))
    check(ref.close(P.conj().T @ P, np.eye(b.Ns)), lambda: "the projector is not an isometry: %s" % ref.maxdiff(P.conj().T @ P, np.eye(b.Ns)))
    for g, per, q, u in us:
        want = np.exp(2j * math.pi * q / per) * P  # QuSpin: exp(-2 pi i q/m) of the inverse map
        check(ref.close(symm.act(u, P), want), lambda: "the states of the block do not have the quantum number q=%d of a map of period %d" % (q, per))
    if spec.get("adv"):
        spec = dict(spec)
    stat = (symm.orbit_sum if case.get("big") else symm.symmetrise)(spec, case["static"], [x[0] for x in us])
    ql = gen.q_list(stat)
    tr = gen.terms(spec, stat)
    if real:
        ql = [[s, [[c[0].real] + c[1:] for c in cs]] for s, cs in ql]
        tr = [(s, i, complex(J).real) for s, i, J in tr]
    H = hamiltonian(ql, [], basis=b, dtype=dt, **gen.NOCHECK).toarray()
    R = m.matrix(tr, digits)
    if m.leaks and not (spec.get("user") or {}).get("pairs"):
        return labels + ["leak"], False
    want = P.conj().T @ R @ P
    check(ref.close(R @ P, P @ want), "reference operator does not stay in the block")
    check(ref.close(H, want), lambda: "block matrix differs from the projected full one by %s" % ref.maxdiff(H, want))
    return labels, 1 < b.Ns < len(digits) and np.abs(H).max() > 0


# ---------------------------------------------------------------- generation
def relabel(maps, p):
    """conjugates maps (lists with negative entries for inversions) by the relabelling p"""
    out = []
    for mp in maps:
        new = [0] * len(mp)
        for i, t in enumerate(mp):
            new[p[i]] = p[t] if t >= 0 else -(p[-(t + 1)] + 1)
        out.append(new)
    return out


def neg(mp, where=None):
    return [-(t + 1) if (where is None or i in where) else t for i, t in enumerate(mp)]


def factorisations(n):
    return [(a, n // a) for a in range(1, n + 1) if n % a == 0]


@st.composite
def map_sets(draw, n, inversions, partial):
    """a list of commuting maps on n sites (with possible non-commuting reflections marked): [(map, real_only)]"""
    ident = list(range(n))
    kind = draw(st.sampled_from(["lattice", "lattice", "cycle", "disjoint", "powers", "reflect"]))
    maps = []
    if kind == "lattice" or kind == "reflect":
        Lx, Ly = draw(st.sampled_from(factorisations(n)))
        tx = [((i % Lx) + 1) % Lx + Lx * (i // Lx) for i in range(n)]
        ty = [(i % Lx) + Lx * ((i // Lx + 1) % Ly) for i in range(n)]
        px = [(Lx - 1 - i % Lx) + Lx * (i // Lx) for i in range(n)]
        py = [(i % Lx) + Lx * (Ly - 1 - i // Lx) for i in range(n)]
        if kind == "lattice":
            if Lx > 1:
                maps.append([tx, False])
            if Ly > 1:
                maps += draw(st.sampled_from([[], [[ty, False]], [[py, False]]]))
        else:
            if Lx > 1:
                maps += [[tx, True], [px, True]]
            if Ly > 1 and draw(st.booleans()):
                maps.append([py, False])
    elif kind == "cycle":
        p = list(draw(st.permutations(ident)))
        maps.append([p, False])
    elif kind == "powers":
        p = list(draw(st.permutations(ident)))
        maps.append([p, False])
        k = draw(st.integers(2, 3))
        r = ident
        for _ in range(k):
            r = [p[x] for x in r]
        if r != ident:
            maps.append([r, False])
    else:
        cut = draw(st.integers(1, max(1, n - 1)))
        a = list(draw(st.permutations(ident[:cut]))) + ident[cut:]
        c = ident[:cut] + list(draw(st.permutations(ident[cut:])))
        maps += [[x, False] for x in (a, c) if x != ident]
    if inversions:
        how = draw(st.sampled_from(["none", "all", "all", "with"] + (["part", "part"] if partial else [])))
        if how == "all":
            maps.append([neg(ident), False])
        elif how == "with" and maps:
            j = draw(st.integers(0, len(maps) - 1))
            if not maps[j][1]:
                maps[j] = [neg(maps[j][0]), False]
        elif how == "part":
            # a set of sites that every map keeps
            seed = {draw(st.integers(0, n - 1))}
            while True:
                grown = seed | {mp[i] for mp, _ in maps for i in seed} | {i for mp, _ in maps for i in range(n) if mp[i] in seed}
                if grown == seed:
                    break
                seed = grown
            maps.append([neg(ident, seed), False])
    if not maps:
        maps.append([neg(ident) if inversions else ident[::-1], False])
    p = list(draw(st.permutations(ident))) if draw(st.booleans()) else ident
    new = relabel([x[0] for x in maps], p)
    return [[mp, r] for mp, (_, r) in zip(new, maps)]


@st.composite
def with_maps(draw, spec, adv):
    kind, N = spec["kind"], spec["N"]
    uf = kind == "ufgen"
    if adv:
        n = 2 * N
        inv = part = spec.get("pcon") is None and spec.get("docc") is not False
    else:
        n = N
        inv = True
        part = spec.get("pcon") is None or uf
        if kind == "bosongen" and spec.get("pcon") is None:
            part = True
    ms = draw(map_sets(n, inv, part))
    if uf and not adv and any(t < 0 for mp, _ in ms for t in mp) and spec.get("pcon") is not None:
        if all(all(t < 0 for t in mp) or all(t >= 0 for t in mp) for mp, _ in ms):
            ps = spec["pcon"] if isinstance(spec["pcon"][0], list) else [spec["pcon"]]
            ps = [list(x) for x in sorted({tuple(x) for x in ps} | {(y, x) for x, y in ps})]
            spec["pcon"] = ps if len(ps) > 1 else ps[0]
        else:
            spec["pcon"] = None
    elif uf and not adv:
        pass
    elif uf and adv:
        if spec.get("pcon") is not None or spec.get("docc") is False:
            spec["pcon"] = None
            spec.pop("docc", None)
    elif any(t < 0 for mp, _ in ms for t in mp) and spec.get("pcon") is not None:
        sps = 2 if kind == "sfgen" else spec["sps"] if kind == "bosongen" else spec["twoS"] + 1
        if all(all(t < 0 for t in mp) or all(t >= 0 for t in mp) for mp, _ in ms):
            top = N * (sps - 1)
            ps = spec["pcon"] if isinstance(spec["pcon"], list) else [spec["pcon"]]
            ps = sorted({x for x in ps} | {top - x for x in ps})
            spec["pcon"] = ps if len(ps) > 1 else ps[0]
        else:
            spec["pcon"] = None
    maps = []
    for k, (mp, r) in enumerate(ms):
        per = symm.order(op_of(spec, mp))
        if r:
            q = draw(st.sampled_from([0, per // 2] if per % 2 == 0 else [0]))
        else:
            q = draw(st.integers(0, per - 1))
        if draw(st.integers(0, 9)) == 0:
            q -= per
        maps.append(["m%d" % k, [int(t) for t in mp], int(q)])
    if draw(st.integers(0, 11)) == 0 and len(maps) < 4:
        maps.append(["e", list(range(n)), 0])
    spec["maps"] = maps
    if adv:
        spec["adv"] = True
    if draw(st.integers(0, 3)) == 0:
        spec["order"] = list(draw(st.permutations(range(len(maps)))))
    if draw(st.booleans()):
        spec["asarray"] = True
    return spec


def chars_of(spec, real):
    ch = gen.op_chars(spec)
    if any(any(op_of(spec, mp)[1]) for _, mp, _ in spec["maps"]):
        ch = ch.replace("n", "")
        if spec.get("sps", 2) > 2:
            ch = "Iz"  # n -> sps-1-n does not exchange the truncated ladder operators
    return ch.replace("y", "") if real else ch


@st.composite
def cases(draw):
    spec = draw(gen.basis_specs(kinds=gen.KINDS_GEN, maxdim=260, minN=2))
    spec = draw(with_maps(spec, spec["kind"] == "ufgen" and draw(st.booleans())))
    conserve = spec.get("pcon") is not None or draw(st.booleans())
    if spec.get("docc") is False and spec.get("pcon") is None:
        conserve = True
    real = draw(st.booleans())
    if "+" not in chars_of(spec, real):
        conserve = False
    ops = draw(gen.op_lists(spec, conserve=conserve, maxlen=4, maxterms=3, maxcoup=2, complex_=not real, chars=chars_of(spec, real)))
    case = {"basis": spec, "static": ops, "dtype": "d" if real else "D"}
    if draw(st.integers(0, 3)) == 0:
        case["store"] = {"how": draw(st.sampled_from(["init", "make", "make after"])), "extra": draw(st.sampled_from([None, 0, 0, 1, 50, 1500])),
                         "Np": draw(st.sampled_from([None, 0, 1, 2, 3, 5, 9]))}
    return case


@st.composite
def large(draw):
    kind = draw(st.sampled_from(gen.KINDS_GEN))
    spec = {"kind": kind}
    sps = 2
    if kind == "spingen":
        spec["twoS"] = draw(st.sampled_from([1, 1, 2, 3]))
        spec["pauli"] = 1 if spec["twoS"] == 1 else 0
        sps = spec["twoS"] + 1
    elif kind == "bosongen":
        sps = spec["sps"] = draw(st.sampled_from([2, 3, 4]))
    one = draw(st.booleans())
    top = {2: 130, 3: 50, 4: 40}[sps]
    if kind == "ufgen":
        N = draw(st.one_of(st.sampled_from([16, 32, 33, 64]), st.integers(8, 70))) if one else draw(st.sampled_from([6, 8, 9, 12]))
        n = draw(st.sampled_from([[1, 0], [0, 1]] if one else [[1, 1], [2, 0], [0, 2]]))
    else:
        bound = [x for x in (20, 21, 32, 40, 41, 64, 65, 128) if x < top]
        N = draw(st.one_of(st.sampled_from(bound), st.integers(8, top))) if one else draw(st.sampled_from([8, 9, 12, 16, 18]))
        n = 1 if one else 2
        if one and draw(st.booleans()):
            n = N * (sps - 1) - n
    spec["N"], spec["pcon"] = N, n
    Lx, Ly = draw(st.sampled_from(factorisations(N)))
    tx = [((i % Lx) + 1) % Lx + Lx * (i // Lx) for i in range(N)]
    ty = [(i % Lx) + Lx * ((i // Lx + 1) % Ly) for i in range(N)]
    py = [(i % Lx) + Lx * (Ly - 1 - i // Lx) for i in range(N)]
    ms = [x for x in (tx, draw(st.sampled_from([ty, py]))) if x != list(range(N))]
    if draw(st.booleans()):
        ms = relabel(ms, list(draw(st.permutations(range(N)))))
    if kind == "ufgen" and n == [1, 1] and draw(st.booleans()):
        ms.append(neg(list(range(N))))
    spec["maps"] = []
    for k, mp in enumerate(ms):
        per = symm.order(op_of(spec, mp))
        spec["maps"].append(["m%d" % k, mp, draw(st.integers(0, per - 1))])
    ops = draw(gen.op_lists(spec, conserve=True, maxlen=4, maxterms=2, maxcoup=1))
    return {"basis": spec, "static": ops, "dtype": "D", "large": True}


@st.composite
def big_groups(draw):
    """groups of up to some hundred thousand elements: cycles on disjoint sites, few particles or few holes"""
    kind = draw(st.sampled_from(["spingen", "bosongen", "sfgen", "spingen", "bosongen"]))
    spec = {"kind": kind}
    sps = 2
    if kind == "spingen":
        spec["twoS"] = draw(st.sampled_from([1, 2]))
        spec["pauli"] = 1 if spec["twoS"] == 1 else 0
        sps = spec["twoS"] + 1
    elif kind == "bosongen":
        sps = spec["sps"] = draw(st.sampled_from([2, 3]))
    cyc = draw(st.sampled_from([[4, 5, 7, 3], [2] * 9, [3] * 6, [4] * 4, [8, 8, 4], [16, 16], [2] * 8, [5, 7, 8], [16, 16, 2], [5, 7, 8, 9], [3, 4, 5, 7, 11],
                                [2, 4, 8, 16], [4] * 8, [2, 3, 5, 7, 2]]))
    extra = draw(st.integers(0, 2))
    N = sum(cyc) + extra
    p = draw(st.sampled_from([0, 1, 1])) if sum(cyc) > 20 or len(cyc) > 6 else draw(st.sampled_from([0, 1, 2]))
    if cyc == [4] * 8:
        p = 0
    if draw(st.integers(0, 3)) == 0:
        p = N * (sps - 1) - p
    spec["N"], spec["pcon"] = N, p
    order = list(draw(st.permutations(range(N)))) if draw(st.booleans()) else list(range(N))
    maps, at = [], 0
    for k, c in enumerate(cyc):
        mp = list(range(N))
        for j in range(c):
            mp[order[at + j]] = order[at + (j + 1) % c]
        at += c
        maps.append(["m%d" % k, mp, draw(st.sampled_from([0] * 9 + [1]))])
    spec["maps"] = maps
    ops = draw(gen.op_lists(spec, conserve=True, maxlen=2, maxterms=2, maxcoup=1))
    return {"basis": spec, "static": ops, "dtype": "D", "large": True, "big": True}


FAMILIES = [
    Family("blocks", cases, run, 2400, 50000),
    Family("large_lattices", large, run, 240, 5000),
    Family("big_groups", big_groups, run, 120, 3000),
]
