"""C06: the ways of applying an operator string in a basis agree."""
import math

import numpy as np
from hypothesis import strategies as st

import gen, ref, symm
from checks import c02, c03, c04, c05
from vf import Family, check, fail

ID = "C06"
TECHNIQUE = "property-based testing: random bases, blocks, sector pairs, operator strings and vectors; differential between the entry points and against the projected reference matrix"
LEVEL_NOTE = ("sampled, not exhaustive: all classes with full spaces up to 300 states and small sectors of up to 130 sites; all data types, shapes and layouts of vectors; "
              "trusts lib/ref.py, lib/symm.py and numpy")

RULE = ("cases: a basis (no blocks, 1d blocks or user maps), operator strings and vectors, or a pair of sectors and an operator between them; "
        "non-trivial: the basis has at least 2 states and the operator is not zero in it")
DT = c05.DT
TOL = c05.TOL


def jlist(static):
    """[[opstr, indx, J], ...]"""
    return [[s, list(c[1:]), gen.cplx(c[0])] for s, cs in static for c in cs]


def op_matrix(b, ops, dt=np.complex128):
    A = np.zeros((b.Ns, b.Ns), dtype=complex)
    for s, ix, J in ops:
        ME, row, col = b.Op(s, ix, J, dt)
        check(len(ME) == len(row) == len(col), "Op: arrays of different lengths")
        if len(ME):
            check(min(row.min(), col.min()) >= 0 and max(row.max(), col.max()) < b.Ns, "Op: index outside of the basis")
            np.add.at(A, (row, col), ME)
    return A


def run_inplace(case):
    spec = case["basis"]
    m = gen.model_of(spec)
    digits = c03.digits_of({"basis": spec, "large": case.get("large")}, m)
    Pi = c05.block_projector(spec, m, digits)
    if Pi is None:
        return ["projective"], False
    b = c04.build(spec, "plain")
    gens = c04.ops_of(spec)
    sym = bool(gens) and case["symmetrise"]
    static = symm.symmetrise(spec, case["static"], gens) if sym else case["static"]
    ops = jlist(static)
    labels = [spec["kind"], "blocks" if "blocks" in spec else "maps" if "maps" in spec else "nosymm", case["vdtype"] + case["dtype"], case["layout"]]
    if b.Ns == 0:
        return labels + ["empty"], False
    A = op_matrix(b, ops)
    if sym or not gens:
        R = m.matrix(gen.terms(spec, static), digits)
        if not gens:
            check(ref.close(A, R), lambda: "Op differs from the reference by %s" % ref.maxdiff(A, R))
        elif not m.leaks:
            # compare without choosing a phase convention: through the basis' own projector
            P = ref.dense(b.get_proj(np.complex128, pcon=True)) if case.get("large") else ref.dense(b.get_proj(np.complex128))
            if not case.get("large"):
                P = P[m.sps ** m.N - 1 - np.array(m.digits_to_ints(digits), dtype=np.int64)]
            want = P.conj().T @ R @ P
            check(ref.close(A, want), lambda: "Op differs from the projected reference by %s" % ref.maxdiff(A, want))
    cplx_needed = np.abs(A.imag).max() > 0 or any(isinstance(J, complex) for _, _, J in ops) or any("y" in s for s, _, _ in ops) or not c05.is_real(spec)
    od = case["dtype"]
    if cplx_needed:
        od = {"f": "F", "d": "D"}.get(od, od)
    if all(not (isinstance(J, complex) and J.imag) for _, _, J in ops) and od in "fd":
        ops = [[s, ix, complex(J).real] for s, ix, J in ops]
    k = case["cols"]
    vd = case["vdtype"]
    shape = {0: (b.Ns,), 1: (b.Ns, 1), 2: (b.Ns, 2), 3: (b.Ns, 3), 4: (b.Ns, 2, 2)}[k]
    n = int(np.prod(shape))
    if vd == "l":
        v = np.round(10 * gen.vec(case["vec"], n, False)).astype(np.int64).reshape(shape)
    else:
        v = gen.vec(case["vec"], n, vd in "FD").astype(DT[vd]).reshape(shape)
    v = c05.lay(v, case["layout"])
    keep = v.copy()
    M = A.T if case["transposed"] else A
    M = M.conj() if case["conjugated"] else M
    want = (M @ v.reshape(b.Ns, -1)).reshape(shape)
    rd = np.result_type(v.dtype, DT[od])
    kw = {}
    if case["transposed"]:
        kw["transposed"] = True
    if case["conjugated"]:
        kw["conjugated"] = True
    if case["out"]:
        kw["v_out"] = np.zeros(shape, dtype=rd)
    out = b.inplace_Op(v, ops, DT[od], **kw)
    tol = 5e-5 if (rd.char in "fF" or od in "fF" or vd in "fF") else 1e-9
    check(out.size == want.size, lambda: "inplace_Op: shape %s from %s" % (out.shape, v.shape))
    check(out.dtype == rd, lambda: "inplace_Op: data type %s instead of %s" % (out.dtype, rd))
    check(ref.close(out.reshape(shape), want, tol), lambda: "inplace_Op (transposed=%s, conjugated=%s) differs from Op by %s" % (
        case["transposed"], case["conjugated"], ref.maxdiff(out.reshape(shape), want)))
    if case["out"]:
        check(ref.close(kw["v_out"], want, tol), "inplace_Op did not write into v_out")
    check(np.array_equal(v, keep), "inplace_Op changed its input")
    return labels + (["T"] if case["transposed"] else []) + (["conj"] if case["conjugated"] else []), b.Ns > 1 and np.abs(A).max() > 0


def run_rep(case):
    spec = case["basis"]
    m = gen.model_of(spec)
    digits = c03.digits_of({"basis": spec, "large": case.get("large")}, m)
    us = c03.usable(spec, m, digits)
    if us is None:
        return ["projective"], False
    b = c04.build(spec, "plain")
    free = c04.gen.make_basis(spec, make_basis=False, **(c03.maps_kw(spec) if "maps" in spec else {}))
    ints = m.digits_to_ints(digits)
    got = [ref.pyint(s) for s in b.states]
    pos = {s: i for i, s in enumerate(ints)}
    labels = [spec["kind"], "maps=%d" % len(us), "large" if case.get("large") else "small"]
    if not len(digits):
        return labels + ["no states"], False
    from quspin.basis import python_int_to_basis_int

    def pack(vals):
        dt = b.states.dtype if b.Ns or "user" in spec else None
        if dt is not None and dt.kind == "V":
            from quspin.basis import get_basis_type

            arr = b.states[:1].repeat(len(vals))
            for i, x in enumerate(vals):
                arr[i:i + 1] = python_int_to_basis_int(x, dt)
            return arr
        return np.array(vals, dtype=dt if dt is not None else np.uint64 if max(vals) >= 2 ** 32 else np.uint32)

    if b.Ns == 0 and max(ints) >= 2 ** 64:
        return labels + ["empty"], False
    orbit = {}
    for i in range(len(digits)):
        if i in orbit:
            continue
        o, todo = {i}, [i]
        while todo:
            x = todo.pop()
            for _, _, _, u in us:
                y = int(u[0][x])
                if y not in o:
                    o.add(y)
                    todo.append(y)
        for x in o:
            orbit[x] = o
    sample = sorted({(7919 * k + case["pick"]) % len(digits) for k in range(40)} | set(range(min(40, len(digits)))))
    S = pack([ints[i] for i in sample])
    for bb, name in ((b, "basis"), (free, "basis without states")):
        r = bb.representative(S)
        rr = [ref.pyint(x) for x in r]
        rep_of = {}
        for i, x in zip(sample, rr):
            check(x in pos and pos[x] in orbit[i], lambda: "representative of %d is %d, not in its orbit" % (ints[i], x))
            o0 = min(orbit[i])
            check(rep_of.setdefault(o0, x) == x, lambda: "two representatives of one orbit: %d and %d" % (rep_of[o0], x))
            inb = [y for y in got if pos[y] in orbit[i]]
            check(not inb or inb[0] == x, lambda: "representative of %d is %d, the basis has %d" % (ints[i], x, inb[0]))
        commuting = all(symm.key(symm.compose(a[0], c[0])) == symm.key(symm.compose(c[0], a[0])) for a in us for c in us)
        if us and commuting and all(p > 1 for _, p, _, _ in us):
            r2, g, sg = bb.representative(S, return_g=True, return_sign=True)
            check([ref.pyint(x) for x in r2] == rr, "representative differs with return_g")
            names = [x[0] for x in spec["maps"]]
            cols = [names.index(x) for x in list(bb.blocks) if x in names]
            for k, i in enumerate(sample):
                x, sign = i, 1.0
                for c, j in enumerate(cols):
                    for _ in range(int(g[k, c])):
                        sign *= us[j][3][1][x]
                        x = int(us[j][3][0][x])
                check(ints[x] == rr[k], lambda: "applying the maps %s times to %d does not give its representative %d" % (g[k].tolist(), ints[i], rr[k]))
                check(sign == sg[k], lambda: "sign of the representative of %d is %s instead of %s" % (ints[i], sg[k], sign))
            g1 = bb.representative(S, return_g=True)[1]
            s1 = bb.representative(S, return_sign=True)[1]
            check(np.array_equal(g1, g) and np.array_equal(s1, sg), "return_g / return_sign alone give something else")
        buf = pack([ints[sample[0]]] * len(sample))
        bb.representative(S, out=buf)
        check([ref.pyint(x) for x in buf] == rr, "representative(out=...) differs")
    if b.Ns == 0:
        return labels + ["empty"], False
    P = ref.dense(b.get_proj(np.complex128, pcon=True)) if case.get("large") else ref.dense(b.get_proj(np.complex128))
    if not case.get("large"):
        P = P[m.sps ** m.N - 1 - np.array(ints, dtype=np.int64)]
    col = {s: k for k, s in enumerate(got)}
    reps = b.states
    nr = np.atleast_1d(b.normalization(reps)).astype(float)
    d = np.array([abs(P[pos[s], k]) ** 2 for k, s in enumerate(got)])
    check(ref.close(nr / nr[0], d / d[0], 1e-9), "the normalisations of the representatives are not those of the projector")
    for i in sample:
        if ints[i] not in col:
            check(float(np.atleast_1d(b.normalization(pack([ints[i]])))[0]) == 0, lambda: "normalization(%d) of a state that is not in the basis is not 0" % ints[i])
    C = np.atleast_1d(b.get_amp(reps))
    want = np.array([P[pos[s], k] for k, s in enumerate(got)])
    check(ref.close(C, want, 1e-9), lambda: "get_amp of the representatives differs from the projector by %s" % ref.maxdiff(C, want))
    S2 = pack([ints[i] for i in sample])
    rr = [ref.pyint(x) for x in b.representative(S)]
    want = np.array([P[i, col[x]] if x in col else 0.0 for i, x in zip(sample, rr)])
    psi = gen.vec(case["vec"], b.Ns)
    full = P @ psi
    amps = np.array([full[i] for i in sample])
    C = np.atleast_1d(b.get_amp(S2, mode="full_basis"))
    check(ref.close(C, want, 1e-9), lambda: "get_amp(full_basis) differs from the projector by %s" % ref.maxdiff(C, want))
    check([ref.pyint(x) for x in S2] == rr, "get_amp(full_basis) did not replace the states by their representatives")
    inb = [k for k in range(len(sample)) if rr[k] in col and want[k] != 0]
    if inb:
        S3, a3 = pack([ints[sample[k]] for k in inb]), amps[inb].copy()
        b.get_amp(S3, amps=a3, mode="full_basis")
        w3 = np.array([psi[col[rr[k]]] for k in inb])
        check(ref.close(a3, w3, 1e-8), "get_amp(amps, full_basis) does not give the amplitudes of the representatives")
    a4 = psi.copy()
    b.get_amp(reps, amps=a4, mode="representative")
    check(ref.close(a4, np.array([full[pos[s]] for s in got]), 1e-8), "get_amp(amps, representative) does not give the amplitudes of the state")
    # bra-ket form
    gens = [x[0] for x in us]
    nz = False
    for s, ix, J in jlist(case["static"]):
        A = op_matrix(b, [[s, ix, J]])
        for bb in (b, free):
            for reduce in (True, False):
                ME, bra, ket = bb.Op_bra_ket(s, ix, J, np.complex128, reps, reduce_output=reduce)
                B = np.zeros_like(A)
                check(len(ME) == len(bra) == len(ket), "Op_bra_ket: arrays of different lengths")
                if not reduce:
                    check(len(ME) == b.Ns and [ref.pyint(x) for x in ket] == got, "Op_bra_ket(reduce_output=False) does not return every ket")
                else:
                    check(np.all(np.abs(ME) > 0), "Op_bra_ket(reduce_output=True) returns zeros")
                for me, x, y in zip(ME, bra, ket):
                    x, y = ref.pyint(x), ref.pyint(y)
                    if me != 0:
                        check(x in col, lambda: "Op_bra_ket: the bra %d is not in the basis" % x)
                        B[col[x], col[y]] += me
                check(ref.close(B, A, 1e-9), lambda: "Op_bra_ket(%r,%r) differs from Op by %s" % (s, ix, ref.maxdiff(B, A)))
        nz = nz or np.abs(A).max() > 0
    return labels, b.Ns > 1 and nz


def run_shift(case):
    """an operator between two sectors with the same maps"""
    spec1, spec2 = case["basis"], dict(case["basis"])
    spec2["pcon"] = case["pcon2"]
    spec2["maps"] = [[n_, mp, q2] for (n_, mp, _), q2 in zip(spec1["maps"], case["q2"])]
    m = gen.model_of(spec1)
    d1, d2 = gen.sector_digits(spec1, m)[::-1], gen.sector_digits(spec2, m)[::-1]
    us1, us2 = c03.usable(spec1, m, d1), c03.usable(spec2, m, d2)
    if us1 is None or us2 is None or not len(d1) or not len(d2):
        return ["projective"], False
    for a in us1:
        for c in us1:
            if symm.key(symm.compose(a[0], c[0])) != symm.key(symm.compose(c[0], a[0])):
                return ["noncommuting"], False
    labels = [spec1["kind"], "maps=%d" % len(us1), "samesector" if spec1.get("pcon") == spec2.get("pcon") else "othersector"]
    b1 = gen.make_basis(spec1, **c03.maps_kw(spec1))
    b2 = gen.make_basis(spec2, **c03.maps_kw(spec2))
    if b1.Ns == 0 or b2.Ns == 0:
        return labels + ["empty"], False
    jw = spec1["kind"].startswith(("sf", "uf"))
    terms = list(gen.terms(spec1, case["static"]))
    for (g, per, q1, _), (_, _, q2, _) in zip(us1, us2):
        new = []
        for s, ix, J in terms:
            x = (s, ix, J)
            for k in range(per):
                new.append((x[0], x[1], x[2] * np.exp(-2j * math.pi * (q2 - q1) * k / per)))
                x = symm.image(x[0], x[1], x[2], g, jw)
        terms = new
        if len(terms) > 600:
            return labels + ["too many terms"], False
    R = m.matrix(terms, d1, digits_row=d2)
    if m.leaks:
        return labels + ["leak"], False

    def proj(b, d):
        return ref.dense(b.get_proj(np.complex128))[m.sps ** m.N - 1 - np.array(m.digits_to_ints(d), dtype=np.int64)]

    P1, P2 = proj(b1, d1), proj(b2, d2)
    if not ref.close(R @ P1, P2 @ (P2.conj().T @ R @ P1), 1e-9):
        fail("harness: the operator does not map between the sectors")
    want_m = P2.conj().T @ R @ P1
    ops = []
    for s, ix, J in terms:
        qs, qi, qJ = symm.unflat(spec1, s, ix, J)
        ops.append([qs, [int(i) for i in qi], complex(qJ)])
    k = case["cols"]
    v = gen.matrix(case["vec"], b1.Ns, k) if k else gen.vec(case["vec"], b1.Ns)
    keep = v.copy()
    want = want_m @ v
    kw = {}
    if case["out"]:
        kw["v_out"] = np.zeros((b2.Ns, k or 1), dtype=np.complex128)
    out = b2.Op_shift_sector(b1, ops, v, **kw)
    check(out.size == want.size, lambda: "Op_shift_sector: shape %s" % (out.shape,))
    check(ref.close(out.reshape(want.shape), want, 1e-9), lambda: "Op_shift_sector differs from the projected operator by %s" % ref.maxdiff(out.reshape(want.shape), want))
    if case["out"]:
        check(ref.close(kw["v_out"].reshape(want.shape), want, 1e-9), "Op_shift_sector did not write into v_out")
    check(np.array_equal(v, keep), "Op_shift_sector changed its input")
    return labels, np.abs(want_m).max() > 1e-9 and (b1.Ns > 1 or b2.Ns > 1)


@st.composite
def inplace_cases(draw):
    c = draw(c04.cases() if draw(st.integers(0, 7)) else c04.large())
    spec = c["basis"]
    conserve = (spec.get("pcon") is not None and draw(st.integers(0, 3)) > 0) or "blocks" in spec or "maps" in spec
    if spec.get("docc") is False:
        conserve = conserve or draw(st.booleans())
    chars = None
    if "maps" in spec:
        chars = c03.chars_of(spec, False)
    elif "blocks" in spec:
        chars = gen.op_chars(spec)
        if any(any(g[1]) for g in c02.generators(spec).values()):
            chars = chars.replace("n", "")
            if spec.get("sps", 2) > 2:
                chars = "Iz"
    if chars is not None and "+" not in chars:
        conserve = False
    real = draw(st.booleans())
    if real:
        chars = (chars or gen.op_chars(spec)).replace("y", "")
    static = draw(gen.op_lists(spec, conserve=conserve, maxlen=4, maxterms=3, maxcoup=2, complex_=not real, chars=chars))
    return {"basis": spec, "static": static, "symmetrise": draw(st.integers(0, 2)) > 0, "dtype": draw(st.sampled_from("dDDfF")),
            "vdtype": draw(st.sampled_from("dDDfFl")), "cols": draw(st.sampled_from([0, 0, 1, 2, 3, 4])), "vec": draw(gen.seeds),
            "layout": draw(st.sampled_from(["C", "C", "F", "strided"])), "transposed": draw(st.booleans()), "conjugated": draw(st.booleans()),
            "out": draw(st.integers(0, 2)) == 0, "large": bool(c.get("large"))}


@st.composite
def rep_cases(draw):
    if draw(st.integers(0, 6)) == 0:
        spec = draw(c03.large())["basis"]
        big = True
    else:
        spec = draw(gen.basis_specs(kinds=gen.KINDS_GEN, maxdim=260, minN=2))
        spec = draw(c03.with_maps(spec, False))
        big = False
    conserve = spec.get("pcon") is not None or draw(st.booleans()) or spec.get("docc") is False
    chars = c03.chars_of(spec, False)
    if "+" not in chars:
        conserve = False
    static = draw(gen.op_lists(spec, conserve=conserve, maxlen=3, maxterms=2, maxcoup=1, chars=chars))
    return {"basis": spec, "static": static, "vec": draw(gen.seeds), "pick": draw(st.integers(0, 10 ** 6)), "large": big}


@st.composite
def shift_cases(draw):
    spec = draw(gen.basis_specs(kinds=gen.KINDS_GEN, maxdim=200, minN=2, multi=False, docc=False))
    spec = draw(c03.with_maps(spec, spec["kind"] == "ufgen" and draw(st.integers(0, 3)) == 0))
    spec["maps"] = [x for x in spec["maps"] if x[0] != "e"]
    spec.pop("order", None)
    p = spec.get("pcon")
    flips = any(t < 0 for _, mp, _ in spec["maps"] for t in mp)
    other = p
    conserve = p is not None
    chars = c03.chars_of(spec, False)
    if "+" not in chars:
        conserve = False
    static = draw(gen.op_lists(spec, conserve=conserve, maxlen=3, maxterms=2, maxcoup=1, chars=chars))
    if p is not None and not flips and draw(st.booleans()):
        N = spec["N"]
        if spec["kind"].startswith("uf"):
            j = draw(st.integers(0, 1))
            other = list(p)
            if isinstance(p[0], list):
                other = p
            else:
                up = p[j] < N
                other[j] += 1 if up else -1
                ch = "+" if up else "-"
                static = [[(ch + "|" if j == 0 else "|" + ch), [[draw(gen.amplitudes()), draw(st.integers(0, N - 1))]]]]
        elif not isinstance(p, list):
            top = c04.top_of(spec)[0]
            up = p < top
            other = p + 1 if up else p - 1
            s, ix = draw(gen.op_strings(spec, conserve=True, maxlen=2, chars=chars))
            i = draw(st.integers(0, N - 1))
            ch = "+" if up else "-"
            static = [[ch + s, [[draw(gen.amplitudes()), i] + ix]], [ch, [[draw(gen.amplitudes()), i]]]]
    q2 = [draw(st.integers(0, symm.order(c03.op_of(spec, mp)) - 1)) for _, mp, _ in spec["maps"]]
    return {"basis": spec, "pcon2": other, "q2": q2, "static": static, "cols": draw(st.sampled_from([0, 0, 1, 2, 3])), "vec": draw(gen.seeds),
            "out": draw(st.integers(0, 2)) == 0}


FAMILIES = [
    Family("inplace", inplace_cases, run_inplace, 2000, 40000),
    Family("representatives", rep_cases, run_rep, 1200, 24000),
    Family("shift_sector", shift_cases, run_shift, 1200, 24000),
]
