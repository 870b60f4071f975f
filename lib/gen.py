"""Generators shared by the checks: bases, operator lists, states; and their construction from JSON."""
import numpy as np
from hypothesis import strategies as st

import ref
import vf

S_NAME = {1: "1/2", 2: "1", 3: "3/2", 4: "2", 5: "5/2"}
KINDS_1D = ["spin1d", "boson1d", "sf1d", "uf1d"]
KINDS_GEN = ["spingen", "bosongen", "sfgen", "ufgen"]
KINDS = KINDS_1D + KINDS_GEN


def cplx(x):
    return complex(x[0], x[1]) if isinstance(x, (list, tuple)) else x


# ---------------------------------------------------------------- bases
def model_of(spec):
    k = spec["kind"]
    N = spec["N"]
    if k.startswith("spin"):
        return ref.Model(N, ref.spin_local(spec["twoS"], spec.get("pauli", 1)))
    if k.startswith("boson"):
        return ref.Model(N, ref.boson_local(spec["sps"]))
    if k.startswith("sf"):
        return ref.Model(N, ref.fermion_local(), jw=True)
    if k.startswith("uf"):
        return ref.Model(2 * N, ref.fermion_local(), jw=True)
    raise KeyError(k)


def pcon_arg(spec):
    """the particle sector in the form the constructor wants it"""
    p = spec.get("pcon")
    if p is None:
        return None
    if spec["kind"].startswith("uf"):
        if isinstance(p[0], list):
            return [tuple(x) for x in p]
        return tuple(p)
    return p if not isinstance(p, list) else list(p)


def in_sector(spec, digits):
    p = spec.get("pcon")
    mask = np.ones(len(digits), dtype=bool)
    if spec["kind"].startswith("uf"):
        N = spec["N"]
        up, dn = digits[:, :N], digits[:, N:]
        if p is not None:
            ps = p if isinstance(p[0], list) else [p]
            nu, nd = up.sum(1), dn.sum(1)
            mask = np.zeros(len(digits), dtype=bool)
            for a, b in ps:
                mask |= (nu == a) & (nd == b)
        if spec.get("docc") is False:
            mask &= ~((up * dn).any(axis=1))
        return mask
    if p is not None:
        halves = np.zeros(len(digits), dtype=bool)
        if spec.get("halves"):  # pairs of numbers for the two halves of the lattice
            L = spec["N"] // 2
            for a, b in p if isinstance(p[0], list) else [p]:
                halves |= (digits[:, :L].sum(1) == a) & (digits[:, L:].sum(1) == b)
            return halves & allowed(spec, digits)
        ps = p if isinstance(p, list) else [p]
        tot = digits.sum(1)
        mask = np.zeros(len(digits), dtype=bool)
        for a in ps:
            mask |= tot == a
    return mask & allowed(spec, digits)


def allowed(spec, digits):
    """the constraint of a user basis: no pair of sites with both at their highest"""
    ok = np.ones(len(digits), dtype=bool)
    top = (2 if spec["kind"].startswith("sf") else spec.get("sps") or spec.get("twoS", 1) + 1) - 1
    for i, j in (spec.get("user") or {}).get("pairs") or []:
        ok &= ~((digits[:, i] == top) & (digits[:, j] == top))
    return ok


def sector_digits(spec, model=None):
    m = model or model_of(spec)
    d = m.all_digits()
    return d[in_sector(spec, d)]


def make_basis(spec, **extra):
    """the QuSpin basis of a spec (blocks: extra keyword arguments)"""
    from quspin import basis as qb

    k, N, p = spec["kind"], spec["N"], pcon_arg(spec)
    kw = dict(spec.get("kw") or {})
    kw.update(extra)
    if "user" in spec:
        import userb

        return userb.make(spec, model_of(spec), kw)
    if k == "spin1d":
        return qb.spin_basis_1d(N, Nup=p, S=S_NAME[spec["twoS"]], pauli=spec.get("pauli", 1), **kw)
    if k == "spingen":
        return qb.spin_basis_general(N, Nup=p, S=S_NAME[spec["twoS"]], pauli=spec.get("pauli", 1), **kw)
    if k == "boson1d":
        return qb.boson_basis_1d(N, Nb=p, sps=spec["sps"], **kw)
    if k == "bosongen":
        return qb.boson_basis_general(N, Nb=p, sps=spec["sps"], **kw)
    if k == "sf1d":
        return qb.spinless_fermion_basis_1d(N, Nf=p, **kw)
    if k == "sfgen":
        return qb.spinless_fermion_basis_general(N, Nf=p, **kw)
    if k == "uf1d":
        if spec.get("docc") is False:
            kw["double_occupancy"] = False
        return qb.spinful_fermion_basis_1d(N, Nf=p, **kw)
    if k == "ufgen":
        if spec.get("docc") is False:
            kw["double_occupancy"] = False
        return qb.spinful_fermion_basis_general(N, Nf=p, **kw)
    raise KeyError(k)


MAXN = {  # by local dimension, so that the full space stays small
    2: 8, 3: 5, 4: 4, 5: 3,
}


@st.composite
def basis_specs(draw, kinds=KINDS, pcon=True, maxdim=300, multi=True, minN=1, docc=True, paulis=(1, 0, -1), half_only=False):
    kind = draw(st.sampled_from(kinds))
    spec = {"kind": kind}
    if kind.startswith("spin"):
        spec["twoS"] = draw(st.sampled_from([1, 1, 1, 2, 3, 4])) if not half_only else 1
        sps = spec["twoS"] + 1
        if spec["twoS"] == 1:
            spec["pauli"] = draw(st.sampled_from(list(paulis)))
        else:
            spec["pauli"] = 0
    elif kind.startswith("boson"):
        spec["sps"] = sps = draw(st.sampled_from([2, 3, 4, 5])) if not half_only else 2
    elif kind.startswith("sf"):
        sps = 2
    else:
        sps = 4
    nmax = 1
    while sps ** (nmax + 1) <= maxdim:
        nmax += 1
    N = draw(st.integers(min(minN, nmax), nmax))
    spec["N"] = N
    mode = draw(st.sampled_from(["none", "one", "list"] if (pcon and multi) else (["none", "one"] if pcon else ["none"])))
    if kind.startswith("uf"):
        pair = st.tuples(st.integers(0, N), st.integers(0, N)).map(list)
        if docc and draw(st.integers(0, 3)) == 0:
            spec["docc"] = False
        if mode == "one":
            spec["pcon"] = draw(pair)
            if spec.get("docc") is False and sum(spec["pcon"]) > N:
                spec["pcon"] = [spec["pcon"][0], N - spec["pcon"][0]]
        elif mode == "list":
            ps = draw(st.lists(pair, min_size=2, max_size=4, unique_by=tuple))
            if spec.get("docc") is False:
                ps = [list(t) for t in sorted({(a, min(b, N - a)) for a, b in ps})]
            spec["pcon"] = ps
    else:
        top = N * (sps - 1)
        if mode == "one":
            spec["pcon"] = draw(st.integers(0, top))
        elif mode == "list":
            spec["pcon"] = draw(st.lists(st.integers(0, top), min_size=1, max_size=3, unique=True))
    return spec


# ---------------------------------------------------------------- operators
QUARTERS = [-2.0, -1.5, -1.0, -0.75, -0.5, 0.25, 0.5, 1.0, 1.25, 2.0, 3.0]


def amplitudes(complex_=True):
    r = st.sampled_from(QUARTERS)
    if not complex_:
        return r
    return st.one_of(r, st.tuples(st.sampled_from(QUARTERS + [0.0]), st.sampled_from(QUARTERS)).map(list))


def op_chars(spec):
    k = spec["kind"]
    if k.startswith("spin"):
        return "I+-xyz" if spec["twoS"] == 1 else "I+-z"
    return "I+-nz"


@st.composite
def op_strings(draw, spec, maxlen=4, chars=None, conserve=False, distinct=False):
    """(opstr, indx) in QuSpin's notation for this basis; conserve: with as many '+' as '-' (per species)"""
    chars = chars or op_chars(spec)
    N = spec["N"]

    def one(maxlen):
        n = draw(st.sampled_from([0] + [k for k in range(1, maxlen + 1) for _ in range(2 if 2 <= k <= 4 else 1)]))
        if distinct:
            n = min(n, N)
        if conserve:
            npairs = draw(st.sampled_from([k for k in range(n // 2 + 1) for _ in range(2 if k else 1)]))
            diag = [c for c in chars if c not in "+-xy"]
            s = ["+"] * npairs + ["-"] * npairs + [draw(st.sampled_from(diag)) for _ in range(n - 2 * npairs)]
            if len(s) > 1:
                s = list(draw(st.permutations(s)))
        else:
            s = [draw(st.sampled_from(chars)) for _ in range(n)]
        if distinct:
            ix = list(draw(st.permutations(range(N))))[: len(s)]
        else:
            ix = [draw(st.integers(0, N - 1)) for _ in s]
        return "".join(s), ix

    if spec["kind"].startswith("uf"):
        a, ia = one(maxlen // 2 + 1)
        b, ib = one(maxlen // 2 if a else maxlen)
        if not a and not b:
            a, ia = "I", [0]
        return a + "|" + b, ia + ib
    s, ix = one(maxlen)
    if not s:
        s, ix = draw(st.sampled_from([c for c in chars if c not in "+-xy"])), [0]
    return s, ix


def flat(spec, opstr, indx):
    """the reference model's (opstr, sites) of a QuSpin operator string"""
    if "|" in opstr:
        i = opstr.index("|")
        N = spec["N"]
        return opstr.replace("|", ""), [j for j in indx[:i]] + [j + N for j in indx[i:]]
    return opstr, list(indx)


@st.composite
def op_lists(draw, spec, maxterms=4, maxcoup=3, complex_=True, conserve=None, maxlen=4, minterms=1, distinct=False, chars=None):
    """a static list: [[opstr, [[J, i, ...], ...]], ...]; J a float or [re, im]"""
    out = []
    for _ in range(draw(st.integers(minterms, maxterms))):
        s, ix = draw(op_strings(spec, conserve=bool(conserve), maxlen=maxlen, distinct=distinct, chars=chars))
        coup = [[draw(amplitudes(complex_))] + ix]
        for _ in range(draw(st.integers(0, maxcoup - 1))):
            if distinct:
                nu = s.index("|") if "|" in s else len(s)
                ix2 = list(draw(st.permutations(range(spec["N"]))))[:nu]
                if "|" in s:
                    ix2 += list(draw(st.permutations(range(spec["N"]))))[: len(ix) - nu]
            else:
                ix2 = [draw(st.integers(0, spec["N"] - 1)) for _ in ix]
            coup.append([draw(amplitudes(complex_))] + ix2)
        out.append([s, coup])
    return out


def q_list(static):
    """in QuSpin's form"""
    return [[s, [[cplx(c[0])] + list(c[1:]) for c in coup]] for s, coup in static]


def terms(spec, static):
    """in the reference model's form"""
    out = []
    for s, coup in static:
        for c in coup:
            fs, fi = flat(spec, s, c[1:])
            out.append((fs, fi, cplx(c[0])))
    return out


def hermitian_closure(spec, static):
    """the list with the hermitian conjugate of every term added (site order reversed, + and - exchanged)"""
    out = [[s, [list(c) for c in coup]] for s, coup in static]
    sw = str.maketrans("+-", "-+")
    for s, coup in static:
        for c in coup:
            J = cplx(c[0])
            Jc = [J.real, -J.imag] if isinstance(J, complex) else J
            ix = list(c[1:])
            if "|" in s:
                i = s.index("|")
                a, b = s.split("|")
                na = sum(ch in "+-" for ch in a)
                nb = sum(ch in "+-" for ch in b)
                sgn = -1 if (na * nb) % 2 else 1
                J2 = [sgn * Jc[0], sgn * Jc[1]] if isinstance(Jc, list) else sgn * Jc
                out.append([a[::-1].translate(sw) + "|" + b[::-1].translate(sw), [[J2] + ix[:i][::-1] + ix[i:][::-1]]])
            else:
                out.append([s[::-1].translate(sw), [[Jc] + ix[::-1]]])
    return out


# ---------------------------------------------------------------- vectors and matrices, from small integers
def vec(ints, n, complex_=True):
    """a deterministic vector of length n from a short list of integers (kept small in the JSON case)"""
    if not ints:
        ints = [1]
    base = np.array([((ints[k % len(ints)] * (k + 3) * 7919 + 104729 * (k // len(ints) + 1) * (ints[0] + 11)) % 201) - 100
                     for k in range(n)], dtype=float) / 50.0
    if not complex_:
        return base
    im = np.array([((ints[(k + 1) % len(ints)] * (k + 5) * 6101 + 15485863 * (k // len(ints) + 2) * (ints[-1] + 7)) % 201) - 100
                   for k in range(n)], dtype=float) / 50.0
    return base + 1j * im


def normed(v):
    n = np.linalg.norm(v)
    if n == 0:
        v = np.zeros_like(v)
        v[0] = 1
        return v
    return v / n


def matrix(ints, n, m=None, complex_=True):
    m = n if m is None else m
    return vec(ints, n * m, complex_).reshape(n, m)


seeds = st.lists(st.integers(0, 96), min_size=1, max_size=3)
NOCHECK = dict(check_symm=False, check_herm=False, check_pcon=False)
