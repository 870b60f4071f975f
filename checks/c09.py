"""C09: a user basis with the rules of a built-in one."""
import numpy as np
from hypothesis import strategies as st

import gen, ref, symm, userb
from checks import c02, c03, c04, c05, c06, c10
from vf import Family, check, fail

ID = "C09"
TECHNIQUE = "property-based testing: user bases with compiled callbacks for random local spaces, sectors, symmetry maps and constraints, against the reference model (states, matrices, projectors, entry points, reduced states)"
LEVEL_NOTE = ("sampled, not exhaustive: one set of callbacks, with the particulars in their arguments, compiled for 32 and 64 bits; full spaces up to 300 states and small sectors up to 60 bits; "
              "states passed to callbacks only as QuSpin passes them; trusts lib/userb.py (callbacks), lib/ref.py, lib/symm.py, numba and numpy")

RULE = ("cases: the local space, sector, maps and constraint of a user basis, and operators or states in it; "
        "non-trivial: as in the corresponding property of the built-in bases (at least 2 states, operator not zero, and so on)")
KINDS = ["spingen", "bosongen", "sfgen"]


@st.composite
def user(draw, spec, count=None, pairs=True):
    """turn the spec of a general basis into one of a user basis"""
    spec = dict(spec)
    N = spec["N"]
    u = {"bits": draw(st.sampled_from([32, 64])), "table": draw(st.booleans()), "count": draw(st.booleans()) if count is None else count}
    maps = spec.get("maps", [])
    if pairs and N > 1 and draw(st.integers(0, 2)) == 0 and not any(t < 0 for _, mp, _ in maps for t in mp):
        i = draw(st.integers(0, N - 1))
        seed = {frozenset((i, (i + draw(st.integers(1, N - 1))) % N))}
        while True:
            grown = seed | {frozenset(mp[x] for x in pr) for _, mp, _ in maps for pr in seed}
            if grown == seed:
                break
            seed = grown
        u["pairs"] = sorted(sorted(p) for p in seed)
        u["truth"] = draw(st.sampled_from([1, 1, 2, 256, 1 << 20]))
    spec["user"] = u
    spec.pop("kw", None)
    return spec


@st.composite
def block_cases(draw):
    spec = draw(gen.basis_specs(kinds=KINDS, maxdim=260, minN=2))
    spec = draw(user(draw(c03.with_maps(spec, False))))
    conserve = spec.get("pcon") is not None or draw(st.integers(0, 3)) == 0
    real = draw(st.integers(0, 2)) == 0
    ch = c03.chars_of(spec, real)
    if "+" not in ch:
        conserve = False
    ops = draw(gen.op_lists(spec, conserve=conserve, maxlen=4, maxterms=3, maxcoup=2, complex_=not real, chars=ch))
    return {"basis": spec, "static": ops, "dtype": "d" if real else "D"}


@st.composite
def state_cases(draw):
    spec = draw(gen.basis_specs(kinds=KINDS, maxdim=300, multi=True, minN=2))
    if spec["N"] > 1 and draw(st.booleans()):
        spec = draw(c03.with_maps(spec, False))
    return {"basis": draw(user(spec)), "how": draw(st.sampled_from(["plain", "plain", "reversed", "one in a list", "make", "make twice"])),
            "probe": draw(st.lists(st.integers(0, 2 ** 9), max_size=6))}


@st.composite
def projector_cases(draw):
    c = draw(c05.cases())
    c["basis"] = draw(state_cases())["basis"]
    return c


@st.composite
def inplace_cases(draw):
    c = draw(c06.inplace_cases())
    b = draw(block_cases() if draw(st.integers(0, 2)) else state_cases())
    spec = b["basis"]
    if "static" not in b:
        conserve = spec.get("pcon") is not None
        ch = c03.chars_of(spec, False) if "maps" in spec else gen.op_chars(spec)
        if "+" not in ch:
            conserve = False
        b["static"] = draw(gen.op_lists(spec, conserve=conserve, maxlen=4, maxterms=3, maxcoup=2, chars=ch))
    c.update(basis=spec, static=b["static"], large=False)
    return c


@st.composite
def rep_cases(draw):
    spec = draw(gen.basis_specs(kinds=KINDS, maxdim=260, minN=2))
    spec = draw(user(draw(c03.with_maps(spec, False)), count=True))
    conserve = spec.get("pcon") is not None or draw(st.booleans())
    chars = c03.chars_of(spec, False)
    if "+" not in chars:
        conserve = False
    static = draw(gen.op_lists(spec, conserve=conserve, maxlen=3, maxterms=2, maxcoup=1, chars=chars))
    return {"basis": spec, "static": static, "vec": draw(gen.seeds), "pick": draw(st.integers(0, 10 ** 6)), "large": False}


@st.composite
def shift_cases(draw):
    c = draw(c06.shift_cases())
    k = 0
    while c["basis"]["kind"] not in KINDS and k < 20:
        c = draw(c06.shift_cases())
        k += 1
    if c["basis"]["kind"] not in KINDS:
        c["basis"] = {"kind": "spingen", "twoS": 1, "pauli": 1, "N": 2, "maps": []}
        c.update(pcon2=None, q2=[], static=[["x", [[1.0, 0]]]])
    c["basis"] = draw(user(c["basis"], pairs=False))
    return c


@st.composite
def reduced_cases(draw):
    c = draw(c10.lattice_cases())
    c["basis"] = draw(state_cases())["basis"]
    if c["basis"]["N"] < 2:
        c["basis"] = dict(c["basis"], N=2, pcon=None)
        c["basis"].pop("maps", None)
        c["basis"].pop("order", None)
    return c


@st.composite
def large_cases(draw):
    N = draw(st.integers(9, 60))
    kind = draw(st.sampled_from(["spingen", "bosongen"]))
    sps = 2
    if kind == "bosongen":
        sps = draw(st.integers(2, 4))
        N = min(N, {2: 60, 3: 37, 4: 30}[sps])
    spec = {"kind": kind, "N": N, "pcon": draw(st.integers(1, 2 if N > 14 else 3))}
    if kind == "bosongen":
        spec["sps"] = sps
    else:
        spec.update(twoS=1, pauli=draw(st.sampled_from([1, 0, -1])))
    d = [x for x in range(2, N + 1) if N % x == 0]
    maps, how = [], draw(st.sampled_from(["shift", "shift", "reflect", "two"]))
    k = draw(st.integers(1, N - 1))
    shift = [(i + k) % N for i in range(N)]
    if how in ("shift", "two"):
        per = symm.order((shift, [False] * N))
        maps.append(["t", shift, draw(st.integers(0, per - 1)) if how == "shift" else draw(st.sampled_from([0, per // 2] if per % 2 == 0 else [0]))])
    if how in ("reflect", "two"):
        maps.append(["p", list(range(N))[::-1], draw(st.integers(0, 1))])
    spec["maps"] = maps
    spec = draw(user(spec, count=True))
    spec["user"]["table"] = False
    if sps ** N > 2 ** 32:
        spec["user"]["bits"] = 64
    real = False
    ops = draw(gen.op_lists(spec, conserve=True, maxlen=3, maxterms=2, maxcoup=2, complex_=True, chars=c03.chars_of(spec, real)))
    return {"basis": spec, "static": ops, "dtype": "D", "large": True, "big": False}


def run_large(case):
    labels, nt = c03.run(dict(case, static=[list(x) for x in case["static"]]))
    k = len(case["static"][0][1])
    c5 = {"basis": case["basis"], "dtype": "D", "pcon": True, "sparse": bool(k % 2), "cols": k, "vec": [3, 1, 4, 1, 5], "layout": "C", "large": True}
    c05.run(c5)
    c04.run({"basis": case["basis"], "how": "plain", "probe": [], "large": True})
    return labels + ["bits=%d" % case["basis"]["user"]["bits"]], nt


# ---------------------------------------------------------------- two species on the two halves of the lattice
@st.composite
def species_cases(draw):
    kind = draw(st.sampled_from(KINDS + ["sfgen"]))
    spec = {"kind": kind}
    if kind == "spingen":
        spec.update(twoS=draw(st.sampled_from([1, 1, 2])), pauli=draw(st.sampled_from([1, 0, -1])))
        sps = spec["twoS"] + 1
    elif kind == "bosongen":
        sps = spec["sps"] = draw(st.integers(2, 3))
    else:
        sps = 2
    L = draw(st.integers(1, 4 if sps == 2 else 2))
    spec["N"] = 2 * L
    top = L * (sps - 1)
    one = st.tuples(st.integers(0, top), st.integers(0, top)).map(list)
    swap = draw(st.booleans())
    ps = draw(st.lists(one, min_size=1, max_size=3))
    if swap:
        ps = ps + [x[::-1] for x in ps]
    ps = [list(x) for x in sorted({tuple(x) for x in ps})]
    if draw(st.booleans()):
        ps = ps[::-1]
    maps = []
    if L > 1 and draw(st.booleans()):
        p = list(draw(st.permutations(range(L))))
        mp = p + [x + L for x in p]
        per = symm.order((mp, [False] * 2 * L))
        if per > 1:
            maps.append(["t", mp, draw(st.integers(0, per - 1))])
    if swap:
        maps.append(["s", list(range(L, 2 * L)) + list(range(L)), draw(st.integers(0, 1))])
    spec["maps"] = maps
    spec["pcon"] = ps if len(ps) > 1 else ps[0]
    spec["halves"] = True
    spec = draw(user(spec))
    ops = draw(gen.op_lists(spec, conserve=True, maxlen=4, maxterms=3, maxcoup=2, chars=c03.chars_of(spec, False)))
    return {"basis": spec, "static": ops, "dtype": "D", "pcon": draw(st.booleans()), "sparse": draw(st.booleans()),
            "cols": draw(st.sampled_from([0, 1, 2])), "vec": draw(gen.seeds), "layout": "C"}


def run_species(case):
    spec = case["basis"]
    labels, nt = c03.run({"basis": spec, "static": case["static"], "dtype": "D"})
    c05.run(case)
    c04.run({"basis": spec, "how": "plain", "probe": [5, 9]})
    return labels + ["sectors=%d" % (len(spec["pcon"]) if isinstance(spec["pcon"][0], list) else 1)], nt


FAMILIES = [
    Family("blocks", block_cases, c03.run, 1500, 20000),
    Family("states", state_cases, c04.run, 800, 20000),
    Family("projectors", projector_cases, c05.run, 800, 20000),
    Family("inplace", inplace_cases, c06.run_inplace, 800, 20000),
    Family("representatives", rep_cases, c06.run_rep, 500, 12000),
    Family("shift_sector", shift_cases, c06.run_shift, 800, 12000),
    Family("reduced", reduced_cases, c10.run_lattice, 600, 12000),
    Family("large", large_cases, run_large, 200, 6000),
    Family("species", species_cases, run_species, 800, 12000),
]
