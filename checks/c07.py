"""C07: the hermiticity, symmetry and particle-number checks, and expanded_form."""
import builtins

import numpy as np
from hypothesis import strategies as st

import gen, ref, symm
from checks import c02, c03, c04
from vf import Family, check, fail, quiet

ID = "C07"
TECHNIQUE = "property-based testing: random operator lists, closed under conjugation and symmetries and then damaged, against commutators of reference matrices"
LEVEL_NOTE = ("sampled, not exhaustive: the eight lattice classes on full spaces up to 130 states; acceptance is demanded of lists whose terms are pairwise images of each other, "
              "refusal of every list whose operator lacks the property; particle number means the total one; trusts lib/ref.py, lib/symm.py and numpy")

RULE = ("cases: a basis with blocks, maps or a particle sector and a static or dynamic operator list, closed under the required operations or damaged; "
        "non-trivial: the operator is not zero and the list was closed, or it was damaged and lacks a property")
TIMES = [0.3, 1.7, -2.2]


def f_cos(t, w):
    return np.cos(w * t)


def f_lin(t, a, b):
    return a + b * t


def f_pos(t, w):
    return np.exp(1j * w * t)


def f_neg(t, w):
    return np.exp(-1j * w * t)


DRIVES = {1: (f_cos, (0.7,)), 2: (f_lin, (0.5, 1.5)), 3: (f_pos, (1.1,)), 4: (f_neg, (1.1,)), 5: (f_cos, (1.3,))}
CONJ = {0: 0, 1: 1, 2: 2, 3: 4, 4: 3, 5: 5}


def fval(d, t):
    if d == 0:
        return 1.0
    f, a = DRIVES[d]
    return f(t, *a)


def generators_of(spec):
    if "blocks" in spec:
        return list(c02.generators(spec).values())
    return [c03.op_of(spec, mp) for _, mp, _ in spec.get("maps", [])]


def canon(spec, terms):
    """flat terms (opstr, sites, J, drive) sorted by site (stable, with fermionic signs) and merged"""
    jw = spec["kind"].startswith(("sf", "uf"))
    out = {}
    for s, ix, J, d in terms:
        z = list(zip(s, ix))
        order = sorted(range(len(z)), key=lambda k: (z[k][1], k))
        if jw:
            hops = [k for k in order if z[k][0] in "+-"]
            if sum(1 for a in range(len(hops)) for b in range(a) if hops[b] > hops[a]) % 2:
                J = -J
        key = ("".join(z[k][0] for k in order), tuple(z[k][1] for k in order), d)
        out[key] = out.get(key, 0) + J
    return [(s, list(ix), J, d) for (s, ix, d), J in out.items() if J != 0]


def herm_close(terms):
    sw = str.maketrans("+-", "-+")
    return terms + [(s[::-1].translate(sw), ix[::-1], np.conj(J), CONJ[d]) for s, ix, J, d in terms]


def symm_close(spec, terms, gens):
    if not gens:
        return terms
    jw = spec["kind"].startswith(("sf", "uf"))
    out = []
    for s, ix, J, d in terms:
        for w in symm.words(gens, jw):
            x = (s, ix, J)
            for k in w:
                x = symm.image(*x, gens[k], jw)
            out.append(x + (d,))
    return out


def to_lists(spec, terms, group):
    """QuSpin's static and dynamic lists; group: couplings of equal strings in one entry"""
    static, dynamic = [], []
    for s, ix, J, d in terms:
        qs, qi, qJ = symm.unflat(spec, s, list(ix), J)
        qJ = complex(qJ)
        if qJ.imag == 0:
            qJ = qJ.real
        c = [qJ] + [int(i) for i in qi]
        if d == 0:
            if group and static and static[-1][0] == qs:
                static[-1][1].append(c)
            else:
                static.append([qs, [c]])
        else:
            f, a = DRIVES[d]
            if group and dynamic and dynamic[-1][0] == qs and dynamic[-1][2] is f and dynamic[-1][3] == a:
                dynamic[-1][1].append(c)
            else:
                dynamic.append([qs, [c], f, a])
    return static, dynamic


def accepted(fn, answer):
    old = builtins.input
    builtins.input = lambda *a: answer
    try:
        with quiet():
            fn()
        return True
    except TypeError as e:
        msg = str(e)
        if "ermitian" in msg or "obey" in msg or "conserve" in msg:
            return False
        raise
    finally:
        builtins.input = old


def truth(spec, m, digits, terms, gens):
    """(hermitian, symmetric, conserving) of the operator at the probe times, and whether it is zero"""
    herm = sym = cons = True
    zero = True
    us = [symm.unitary(m, digits, g) for g in gens]
    tot = digits.sum(1)
    for t in TIMES:
        M = m.matrix([(s, i, J * fval(d, t)) for s, i, J, d in terms], digits)
        scale = max(1.0, np.abs(M).max()) if M.size else 1.0
        zero = zero and not np.any(np.abs(M) > 1e-12)
        herm = herm and np.abs(M - M.conj().T).max(initial=0) < 1e-10 * scale
        cons = cons and not np.any(np.abs(M[tot[:, None] != tot[None, :]]) > 1e-10)
        for u in us:
            UM = symm.act(u, M)
            MU = symm.act(u, UM.conj().T).conj().T  # U M U^dagger
            sym = sym and np.abs(MU - M).max(initial=0) < 1e-10 * scale
    return herm, sym, cons, zero


def single(spec):
    """one particle sector, given as a number: the only bases whose operators are checked (spinful general bases say that they are not)"""
    p = spec.get("pcon")
    if spec["kind"] == "uf1d":
        return p is not None and not isinstance(p[0], list)
    return isinstance(p, int)


def run(case):
    from quspin.operators import hamiltonian, quantum_LinearOperator, quantum_operator

    spec = case["basis"]
    m = gen.model_of(spec)
    full = dict(spec, pcon=None)
    full.pop("docc", None)
    digits = gen.sector_digits(full, m)[::-1]
    gens = generators_of(spec)
    if "maps" in spec and c03.usable(spec, m, digits) is None:
        return ["projective"], False
    b = c04.build(spec, "plain")
    terms = [(s, list(i), complex(gen.cplx(J)), d) for s, i, J, d in case["terms"]]
    closed = {"h": "h" in case["close"], "s": "s" in case["close"], "p": case["conserve"]}
    if closed["h"]:
        terms = herm_close(terms)
    if closed["s"]:
        terms = symm_close(spec, terms, gens)
    terms = canon(spec, terms)
    if spec["kind"].startswith("boson") and spec["sps"] > 2 and any(g[1][i] and c in "+-" for s, ix, _, _ in terms for c, i in zip(s, ix) for g in gens):
        closed["s"] = False  # inversion has no image of a truncated ladder operator
    dmg = case["damage"]
    if not terms:
        return ["no terms"], False
    if dmg is not None:
        k = dmg["k"] % len(terms)
        s, i, J, d = terms[k]
        how = dmg["how"]
        if how == "drop":
            terms.pop(k)
        elif how == "scale":
            terms[k] = (s, i, J * 2, d)
        elif how == "phase":
            terms[k] = (s, i, J * 1j, d)
        elif how == "double":
            terms.append((s, i, J, d))
        elif how == "drive":
            terms[k] = (s, i, J, {0: 1, 1: 5, 2: 1, 3: 5, 4: 3, 5: 2}[d])
        elif how == "cancel":
            terms.append((s, i, -J, 1 if d != 1 else 2))
        elif how == "site":
            n = spec["N"] * (2 if spec["kind"].startswith("uf") else 1)
            terms[k] = (s, [(x + 1) % n for x in i], J, d)
        closed = {}
        if not terms:
            return ["no terms"], False
    static, dynamic = to_lists(spec, terms, case["group"])
    if case["listargs"]:
        dynamic = [[a, c, f, list(x)] for a, c, f, x in dynamic]
    # recorded finding: strings with '+' or '-' under particle-hole maps of the general fermion bases are judged without the signs of the
    # transformation; judged here only where the case asks for it
    ph = spec["kind"] in ("sfgen", "ufgen") and "maps" in spec and not case.get("strict") and any(
        any(g[1]) for g in gens) and any(c in "+-" for s, _, _, _ in terms for c in s)
    if ph:
        closed["s"] = False
    herm, sym, cons, zero = truth(spec, m, digits, terms, gens)
    ans = case["answer"]
    how = case["how"]
    has_pcon = single(spec)
    labels = [spec["kind"], "blocks" if "blocks" in spec else "maps" if "maps" in spec else "nosymm", how, "damage=" + dmg["how"] if dmg else "closed=" + case["close"],
              "dynamic" if dynamic else "static"]
    if how == "basis":
        acc = accepted(lambda: b.check_hermitian(static, dynamic), ans)
        check(herm or not acc, "check_hermitian accepts a list that is not hermitian")
        check(acc or not closed.get("h"), "check_hermitian refuses a list that contains the conjugate of each of its terms")
        labels.append("herm:%s" % acc)
        if gens:
            acc = accepted(lambda: b.check_symm(static, dynamic), ans)
            check(sym or ph or not acc, "check_symm accepts a list that does not commute with the symmetries")
            check(acc or not closed.get("s"), "check_symm refuses a list that contains the images of each of its terms")
            labels.append("symm:%s" % acc)
        if has_pcon:
            acc = accepted(lambda: b.check_pcon(static, dynamic), ans)
            check(cons or not acc, "check_pcon accepts a list that changes the particle number")
            check(acc or not closed.get("p"), "check_pcon refuses a list of which every term conserves the particle number")
            labels.append("pcon:%s" % acc)
    else:
        if how == "linear" and not dynamic:
            acc = accepted(lambda: quantum_LinearOperator(static, basis=b, dtype=np.complex128), ans)
        elif how == "operator" and not dynamic:
            half = len(static) // 2
            acc = accepted(lambda: quantum_operator({"a": static}, basis=b, dtype=np.complex128), ans)
        else:
            acc = accepted(lambda: hamiltonian(static, dynamic, basis=b, dtype=np.complex128), ans)
        ok = herm and (sym or ph or not gens) and (cons or not has_pcon)
        check(ok or not acc, lambda: "an operator was built that is hermitian: %s, symmetric: %s, number conserving: %s" % (herm, sym, cons))
        if closed.get("h") and (closed.get("s") or not gens) and (closed.get("p") or spec.get("pcon") is None):
            check(acc, "the construction was refused although the list has all required properties")
        labels.append("built:%s" % acc)
    return labels, not zero and (bool(closed) or not (herm and sym and cons))


@st.composite
def raw_terms(draw, spec, conserve, complex_=True, dynamic=True, maxterms=3, chars=None, n=None):
    ops = draw(gen.op_lists(spec, conserve=conserve, maxlen=4, maxterms=maxterms, maxcoup=1, complex_=complex_, chars=chars))
    drives = [0, 0, 0, 1, 2, 3, 5] if dynamic else [0]
    out = []
    for s, coup in ops:
        for c in coup:
            if spec.get("adv"):  # operator strings on the 2N modes
                fs, fi = gen.flat(spec, s, c[1:])
                out.append([fs, fi, c[0], draw(st.sampled_from(drives))])
            else:
                fs, fi = gen.flat(spec, s, c[1:])
                out.append([fs, fi, c[0], draw(st.sampled_from(drives))])
    if conserve and spec["kind"].startswith("spin") and spec.get("twoS") == 1 and spec["N"] > 1 and draw(st.booleans()):
        i, j = draw(st.permutations(range(spec["N"])))[:2]
        J = draw(gen.amplitudes(False))
        d = draw(st.sampled_from(drives))
        out += [["xx", [i, j], J, d], ["yy", [i, j], J, d]]
    return out


@st.composite
def cases(draw):
    c = draw(c04.cases())
    spec = c["basis"]
    sps = gen.model_of(spec).sps
    if sps ** gen.model_of(spec).N > 130:
        spec = dict(spec)
        if "blocks" not in spec and "maps" not in spec:
            spec["N"] = max(1, spec["N"] - 1)
            if spec.get("pcon") is not None:
                spec["pcon"] = None
    conserve = spec.get("pcon") is not None and draw(st.integers(0, 3)) > 0 or draw(st.booleans())
    chars = None
    inv = False
    if "blocks" in spec:
        chars = c02.chars_of(spec)
    elif "maps" in spec:
        chars = c03.chars_of(spec, False)
    if chars is not None and "+" not in chars and conserve:
        conserve = spec.get("pcon") is not None  # diagonal strings only
    close = draw(st.sampled_from(["hs", "hs", "h", "s", ""]))
    odd = draw(st.integers(0, 3)) == 0
    if odd:  # strings that have no image among the strings
        chars = None
        close = close.replace("s", "")
    dmg = None
    if draw(st.booleans()):
        dmg = {"how": draw(st.sampled_from(["drop", "scale", "phase", "double", "drive", "cancel", "site"])), "k": draw(st.integers(0, 40))}
    return {"basis": spec, "terms": draw(raw_terms(spec, conserve, chars=chars)), "close": close, "conserve": conserve, "damage": dmg,
            "group": draw(st.booleans()), "listargs": draw(st.booleans()), "answer": draw(st.sampled_from("nny")),
            "how": draw(st.sampled_from(["basis", "basis", "hamiltonian", "linear", "operator"]))}


# ---------------------------------------------------------------- expanded_form
def run_expand(case):
    from quspin.operators import hamiltonian

    spec = case["basis"]
    m = gen.model_of(spec)
    digits = gen.sector_digits(spec, m)[::-1]
    b = c04.build(spec, "plain")
    terms = [(s, list(i), complex(gen.cplx(J)), d) for s, i, J, d in case["terms"]]
    static, dynamic = to_lists(spec, terms, case["group"])
    if case["listargs"]:
        dynamic = [[a, c, f, list(x)] for a, c, f, x in dynamic]
    keep = repr((static, dynamic))
    s2, d2 = b.expanded_form(static, dynamic)
    check(repr((static, dynamic)) == keep, "expanded_form changed its arguments")
    for x in list(s2) + list(d2):
        check(not set(x[0]) & set("xy"), lambda: "expanded_form leaves %r" % x[0])
    nz = False
    for t in TIMES:
        M = m.matrix([(s, i, J * fval(d, t)) for s, i, J, d in terms], digits)
        tr = gen.terms(spec, s2) if not spec.get("adv") else [(s, list(c[1:]), c[0]) for s, cs in s2 for c in cs]
        for opstr, coup, f, args in d2:
            for c in coup:
                fs, fi = gen.flat(spec, opstr, list(c[1:]))
                tr.append((fs, fi, complex(c[0]) * f(t, *args)))
        R = m.matrix([(s, i, complex(J)) for s, i, J in tr], digits)
        check(ref.close(M, R), lambda: "the expanded operator differs by %s" % ref.maxdiff(M, R))
        nz = nz or np.abs(M).max(initial=0) > 0
        H = hamiltonian(s2, d2, basis=b, dtype=np.complex128, **gen.NOCHECK)
        check(ref.close(ref.dense(H(time=t)), M), "the operator built from the expanded lists differs")
    return [spec["kind"], "dynamic" if dynamic else "static"], nz


@st.composite
def expand(draw):
    spec = draw(gen.basis_specs(maxdim=130, pcon=False, docc=False))
    return {"basis": spec, "terms": draw(raw_terms(spec, draw(st.booleans()), maxterms=4)), "group": draw(st.booleans()), "listargs": draw(st.booleans())}


FAMILIES = [
    Family("accepts", cases, run, 3000, 60000),
    Family("expanded", expand, run_expand, 1000, 20000),
]
