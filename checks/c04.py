"""C04: enumeration of states; state <-> integer <-> index."""
import re

import numpy as np
from hypothesis import strategies as st

import gen, ref, symm
from checks import c02, c03
from vf import Family, check, fail

ID = "C04"
TECHNIQUE = "property-based testing: random bases, sectors, symmetry blocks and ways to name and build them, against enumeration and orbits in the reference model, with round trips over every state"
LEVEL_NOTE = ("sampled, not exhaustive: all classes with full spaces up to 300 states and small sectors of up to 130 sites; every state of each is looked up and converted both ways; "
              "trusts lib/ref.py, lib/symm.py and numpy")

RULE = ("cases: a basis (no blocks, 1d blocks, or user maps; sector named and built in one of several ways); non-trivial: it has at least 2 states and leaves out at least one")


def ops_of(spec):
    if "blocks" in spec:
        return list(c02.generators(spec).values())
    return [c03.op_of(spec, mp) for _, mp, _ in spec.get("maps", [])]


def top_of(spec):
    k = spec["kind"]
    sps = 2 if k.startswith("sf") else spec.get("sps") or spec["twoS"] + 1
    return spec["N"] * (sps - 1), sps


def build(spec, how):
    """the basis, with the sector named as `how` says"""
    kw = c02.blocks_kw(spec) if "blocks" in spec else c03.maps_kw(spec) if "maps" in spec else {}
    k, N, p = spec["kind"], spec["N"], spec.get("pcon")
    s2 = dict(spec)
    uf = k.startswith("uf")
    if not uf and p is not None:
        top, sps = top_of(spec)
        if how == "negative" and k.startswith("spin"):
            s2["pcon"] = [x - top - 1 for x in p] if isinstance(p, list) else p - top - 1
        elif how == "density" and not isinstance(p, list):
            s2.pop("pcon")
            if k.startswith("spin"):
                kw["m"] = p / N - spec["twoS"] / 2.0
            elif k.startswith("boson"):
                kw["nb"] = p / N
            else:
                kw["nf"] = p / N
        elif how == "reversed" and isinstance(p, list):
            s2["pcon"] = p[::-1]
        elif how == "one in a list" and not isinstance(p, list):
            s2["pcon"] = [p]
        elif how == "default sps" and k.startswith("boson") and sps == (max(p) if isinstance(p, list) else p) + 1:
            import quspin.basis as qb

            return (qb.boson_basis_1d if k == "boson1d" else qb.boson_basis_general)(N, Nb=p, **kw)
    if uf and p is not None:
        if how == "density" and not isinstance(p[0], list):
            s2.pop("pcon")
            kw["nf"] = (p[0] / N, p[1] / N)
        elif how == "reversed" and isinstance(p[0], list):
            s2["pcon"] = p[::-1]
        elif how == "one in a list" and not isinstance(p[0], list):
            s2["pcon"] = [p]
    if k in gen.KINDS_GEN and how.startswith("make"):
        b = gen.make_basis(s2, make_basis=False, **kw)
        b.make()
        if how == "make twice":
            b.make()
        return b
    return gen.make_basis(s2, **kw)


def expected(spec, m, digits):
    """per orbit with a state in the block: the set of its integers"""
    ints = m.digits_to_ints(digits)
    gens = ops_of(spec)
    if not gens:
        return [{s} for s in ints]
    if "blocks" in spec:
        Pi = c02.projector(spec, m, digits)
    else:
        us = c03.usable(spec, m, digits)
        if us is None:
            return None
        Pi = c03.projector(us, len(digits))
    targets = [symm.unitary(m, digits, g)[0] for g in gens]
    seen, out = set(), []
    for k in range(len(digits)):
        if k in seen:
            continue
        orbit, todo = {k}, [k]
        while todo:
            x = todo.pop()
            for t in targets:
                y = int(t[x])
                if y not in orbit:
                    orbit.add(y)
                    todo.append(y)
        seen |= orbit
        idx = sorted(orbit)
        r = int(round(np.trace(Pi[np.ix_(idx, idx)]).real))
        if r:
            out += [{ints[i] for i in idx}] * r
    return out


def run(case):
    spec, how = case["basis"], case["how"]
    m = gen.model_of(spec)
    digits = c03.digits_of({"basis": spec, "large": case.get("large")}, m)
    exp = expected(spec, m, digits)
    if exp is None:
        return ["projective"], False
    b = build(spec, how)
    got = [ref.pyint(s) for s in b.states]
    labels = [spec["kind"], how, "blocks" if "blocks" in spec else "maps" if "maps" in spec else "nosymm"]
    check(len(b.states) == b.Ns and b.Ns == len(exp), lambda: "%d states, Ns=%d, %d expected" % (len(b.states), b.Ns, len(exp)))
    check(all(x >= y for x, y in zip(got, got[1:])), lambda: "the states are not in descending order: %s" % got[:20])
    if not ops_of(spec):
        check(sorted(got) == sorted(next(iter(o)) for o in exp), "not the states of the sector")
    orb = {}
    for i, o in enumerate(exp):
        for s in o:
            orb.setdefault(s, []).append(i)
    used = {}
    for s in got:
        check(s in orb, lambda: "state %d is in no orbit of the block" % s)
        used[orb[s][0]] = used.get(orb[s][0], 0) + 1
    for i, o in enumerate(exp):
        o0 = orb[next(iter(o))]
        check(used.get(o0[0], 0) == len(o0), lambda: "an orbit is represented %d times instead of %d" % (used.get(o0[0], 0), len(o0)))
    check(b.N == spec["N"] * (2 if spec["kind"] == "ufgen" else 1) or spec["kind"].startswith("uf"), "wrong N")
    sps = top_of(spec)[1] if not spec["kind"].startswith("uf") else 2
    check(b.sps == sps, "wrong sps")
    check([ref.pyint(x) for x in b] == got, "iterating does not give the states")
    uf = spec["kind"].startswith("uf")
    N = spec["N"]
    uniq = {s: i for i, s in reversed(list(enumerate(got)))}
    small = m.N <= 64
    for i, s in enumerate(got):
        check(ref.pyint(b[i]) == s, "basis[i] is not the i-th state")
        d = m.ints_to_digits([s])[0]
        if uf:
            u, v = s >> N, s & ((1 << N) - 1)
            if got.count(s) > 1:
                continue
            for a in ((u, v), ("".join(map(str, d[:N])), "".join(map(str, d[N:])))):
                check(int(b.index(*a)) == i, lambda: "index%s is not %d" % (a, i))
            continue
        if got.count(s) > 1:  # semi-momentum blocks hold two states per representative
            continue
        check(int(b.index(s)) == i, lambda: "index(%d) is not %d" % (s, i))
        check(int(b.index(b.states[i])) == i, lambda: "index(states[%d]) is not %d" % (i, i))
        st_ = "".join(map(str, d))
        check(int(b.index(st_)) == i, lambda: "index('%s') is not %d" % (st_, i))
        check(b.state_to_int(st_) == s, lambda: "state_to_int('%s') is not %d" % (st_, s))
        if small:
            check(b.int_to_state(s, bracket_notation=False) == st_, lambda: "int_to_state(%d) is not %s" % (s, st_))
            check(b.int_to_state(s) == "|" + " ".join(map(str, d)) + ">", lambda: "int_to_state(%d) is %s" % (s, b.int_to_state(s)))
            check(b.int_to_state(b.states[i]) == b.int_to_state(s), "int_to_state of a basis element differs")
        else:
            w = b.int_to_state(s, bracket_notation=False)
            check(w == st_[:32] + "..." + st_[-32:], lambda: "abbreviated state %s" % w)
    text = str(b)
    lines = [l for l in text.splitlines() if "|" in l and ">" in l and l.strip()[:1].isdigit()]
    if b.Ns <= 50:
        check(len(lines) == b.Ns, lambda: "printing the basis shows %d states of %d" % (len(lines), b.Ns))
    if small and b.Ns:
        shown = "".join(re.findall(r"\|([^>]*)>", lines[0])).replace(" ", "")
        check(shown == "".join(map(str, m.ints_to_digits([got[0]])[0])), lambda: "printing the basis: first line %r" % lines[0])
    full = m.sps ** m.N
    outside = [s for s in ([0, 1, full - 1, full // 2, full // 3] + case["probe"]) if 0 <= s < full and s not in uniq][:6]
    for s in outside:
        try:
            i = b.index(s >> N, s & ((1 << N) - 1)) if uf else b.index(s)
        except ValueError:
            continue
        fail("index(%d) of a state that is not in the basis gave %s" % (s, i))
    return labels, 2 <= b.Ns < full


WAYS = ["plain", "plain", "negative", "density", "reversed", "one in a list", "default sps", "make", "make twice"]


@st.composite
def cases(draw):
    spec = draw(gen.basis_specs(maxdim=300, multi=True))
    sym = draw(st.booleans())
    if sym and spec["N"] > 1:
        if spec["kind"] in gen.KINDS_1D:
            spec = draw(c02.blocks(spec))
        else:
            spec = draw(c03.with_maps(spec, False))
    return {"basis": spec, "how": draw(st.sampled_from(WAYS)), "probe": draw(st.lists(st.integers(0, 2 ** 9), max_size=6))}


@st.composite
def large(draw):
    if draw(st.booleans()):
        spec = draw(c03.large())["basis"]
        if draw(st.booleans()):
            spec.pop("maps")
    else:
        spec = draw(c02.large())["basis"]
        if draw(st.booleans()):
            spec.pop("blocks")
            spec.pop("nozcheck", None)
    ways = ["plain", "density", "make", "one in a list", "negative"]
    return {"basis": spec, "how": draw(st.sampled_from(ways)), "probe": [], "large": True}


FAMILIES = [
    Family("small", cases, run, 3200, 60000),
    Family("large", large, run, 200, 4000),
]
