"""Symmetry operations of the reference model, and operator lists symmetrised under them.

An operation is (perm, flip) on the model's sites: the content of site i goes to site perm[i], inverted where flip[i]."""
import numpy as np

import gen


def translation(spec, shift):
    N = spec["N"]
    p = [(i + shift) % N for i in range(N)]
    if spec["kind"].startswith("uf"):
        p = p + [N + x for x in p]
    return p, [False] * len(p)


def reflection(spec):
    N = spec["N"]
    p = [N - 1 - i for i in range(N)]
    if spec["kind"].startswith("uf"):
        p = p + [N + x for x in p]
    return p, [False] * len(p)


def inversion(spec, which=None):
    """spin / particle-hole inversion (of every site, or of the even (0) or odd (1) ones); spin exchange for spinful fermions"""
    N = spec["N"]
    if spec["kind"].startswith("uf"):
        assert which is None
        return [(i + N) % (2 * N) for i in range(2 * N)], [False] * (2 * N)
    return list(range(N)), [which is None or i % 2 == which for i in range(N)]


def compose(g, h):
    """first h, then g"""
    n = len(g[0])
    return [g[0][h[0][i]] for i in range(n)], [bool(h[1][i]) != bool(g[1][h[0][i]]) for i in range(n)]


class TooLarge(Exception):
    pass


def identity(n):
    return list(range(n)), [False] * n


def power(g, k):
    out = identity(len(g[0]))
    for _ in range(k):
        out = compose(g, out)
    return out


def key(g):
    return tuple(g[0]), tuple(bool(x) for x in g[1])


def order(g):
    e = key(identity(len(g[0])))
    h, k = g, 1
    while key(h) != e:
        h, k = compose(g, h), k + 1
    return k


def group(gens, limit=500):
    n = len(gens[0][0]) if gens else 0
    seen = {key(identity(n)): identity(n)}
    todo = [identity(n)]
    while todo:
        h = todo.pop()
        for g in gens:
            x = compose(g, h)
            if key(x) not in seen:
                seen[key(x)] = x
                todo.append(x)
                if len(seen) > limit:
                    raise TooLarge()
    return list(seen.values())


def image(opstr, indx, J, g, jw=False):
    """U (J opstr) U^dagger on flat strings"""
    out = []
    for c, i in zip(opstr, indx):
        if g[1][i]:
            if c in "zy":
                J = -J
            elif jw and c in "+-" and i % 2:
                J = -J
            if c == "+":
                c = "-"
            elif c == "-":
                c = "+"
            elif c not in "Ixyz":
                raise AssertionError("no image of %r under inversion" % c)
        out.append(c)
    return "".join(out), [g[0][i] for i in indx], J


def unflat(spec, opstr, indx, J):
    """QuSpin's form of a flat string"""
    if not spec["kind"].startswith("uf") or spec.get("adv"):
        return opstr, indx, J
    N = spec["N"]
    up, dn, sign = [], [], 1
    for c, i in zip(opstr, indx):
        if i < N:
            if c in "+-" and sum(x[0] in "+-" for x in dn) % 2:
                sign = -sign
            up.append((c, i))
        else:
            dn.append((c, i - N))
    s = "".join(c for c, _ in up) + "|" + "".join(c for c, _ in dn)
    return s, [i for _, i in up] + [i for _, i in dn], J * sign


def words(gens, jw, limit=500):
    """the group as words in the generators (told apart by what they do to every '+'): images are formed generator by generator"""
    n = len(gens[0][0])
    start = tuple(("+", i, 1) for i in range(n))
    seen = {start: ()}
    todo = [(start, ())]
    while todo:
        h, w = todo.pop(0)
        for k, g in enumerate(gens):
            x = []
            for c, i, J in h:
                c2, i2, J2 = image(c, [i], J, g, jw)
                x.append((c2, i2[0], J2))
            x = tuple(x)
            if x not in seen:
                seen[x] = w + (k,)
                todo.append((x, w + (k,)))
                if len(seen) > limit:
                    raise TooLarge()
    return list(seen.values())


def symmetrise(spec, static, gens):
    """the sum of the images of every term under the whole group, as a QuSpin list with complex couplings"""
    jw = spec["kind"].startswith(("sf", "uf"))
    els = words(gens, jw) if gens else [()]
    out = []
    for s, ix, J in gen.terms(spec, static):
        for w in els:
            fs, fi, fJ = s, ix, J
            for k in w:
                fs, fi, fJ = image(fs, fi, fJ, gens[k], jw)
            qs, qi, qJ = unflat(spec, fs, fi, fJ)
            out.append([qs, [[[complex(qJ).real, complex(qJ).imag]] + [int(i) for i in qi]]])
    return out


def orbit_sum(spec, static, perms):
    """every term summed over its orbit under site permutations (groups too large to list), as a QuSpin list"""
    out = []
    for s, ix, J in gen.terms(spec, static):
        seen, todo = {tuple(ix)}, [tuple(ix)]
        while todo:
            h = todo.pop()
            for g in perms:
                x = tuple(g[0][i] for i in h)
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        for x in sorted(seen):
            qs, qi, qJ = unflat(spec, s, list(x), J)
            out.append([qs, [[[complex(qJ).real, complex(qJ).imag]] + [int(i) for i in qi]]])
    return out


def unitary(model, digits, g):
    """the operation on the configurations given: (target row of every row, sign)"""
    new, sign = model.permute(g[0], g[1], digits)
    look = {r.astype(np.int64).tobytes(): k for k, r in enumerate(digits)}
    idx = np.array([look[r.astype(np.int64).tobytes()] for r in new], dtype=int)
    return idx, sign


def act(u, M):
    """U @ M"""
    idx, sign = u
    out = np.empty_like(M)
    out[idx] = sign.reshape((-1,) + (1,) * (M.ndim - 1)) * M
    return out


def project(u, m, q_phase, M):
    """(1/m) sum_j q_phase**j U^j M"""
    out = np.array(M, dtype=complex)
    x = np.array(M, dtype=complex)
    for j in range(1, m):
        x = act(u, x) * q_phase
        out = out + x
    return out / m
