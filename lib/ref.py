"""The reference model: many-body operators computed on explicit digit strings, without bit manipulation.

A configuration is a row of local quantum numbers d_0 .. d_{N-1} (site 0 is the most significant digit of the integer that
QuSpin uses for the state).  Every local operator maps a digit to at most one digit, so an operator string is applied
to a whole array of configurations at once.  Nothing here is taken from QuSpin's code.
"""
import itertools
import math

import numpy as np
import scipy.sparse as sp


def pyint(s):
    if isinstance(s, np.void):  # QuSpin's large integers
        from quspin.basis import basis_int_to_python_int

        return int(basis_int_to_python_int(s))
    return int(s)


class Local:
    """local operators: char -> (new digit or -1, amplitude) per digit"""

    def __init__(self, sps):
        self.sps = sps
        self.ops = {}

    def set(self, ch, mat):
        sps = self.sps
        new = np.full(sps, -1, dtype=int)
        amp = np.zeros(sps, dtype=complex)
        for c in range(sps):
            nz = [r for r in range(sps) if mat[r][c] != 0]
            assert len(nz) <= 1
            if nz:
                new[c], amp[c] = nz[0], mat[nz[0]][c]
        self.ops[ch] = (new, amp)


def spin_local(twoS, pauli):
    """digit d <-> m = d - S.  pauli: 1/True -> sigma matrices with sigma^+- = sigma^x +- i sigma^y; -1 -> sigma matrices
    with +- having unit matrix elements; 0 -> S matrices.  pauli matters for spin 1/2 only."""
    sps = twoS + 1
    S = twoS / 2.0
    loc = Local(sps)
    z = np.zeros((sps, sps), complex)
    p = np.zeros((sps, sps), complex)
    for d in range(sps):
        m = d - S
        z[d, d] = m
        if d + 1 < sps:
            p[d + 1, d] = math.sqrt(S * (S + 1) - m * (m + 1))
    mm = p.T.copy()
    loc.set("I", np.eye(sps))
    if sps == 2:
        x = (p + mm) / 2
        y = (p - mm) / 2j
        f = 1 if pauli == 0 else 2
        g = {0: 1, 1: 2, -1: 1}[int(pauli)]
        loc.set("z", f * z)
        loc.set("x", f * x)
        loc.set("y", f * y)
        loc.set("+", g * p)
        loc.set("-", g * mm)
    else:
        loc.set("z", z)
        loc.set("+", p)
        loc.set("-", mm)
    return loc


def boson_local(sps):
    loc = Local(sps)
    p = np.zeros((sps, sps), complex)
    for d in range(sps - 1):
        p[d + 1, d] = math.sqrt(d + 1)
    n = np.diag(np.arange(sps)).astype(complex)
    loc.set("I", np.eye(sps))
    loc.set("+", p)
    loc.set("-", p.T.copy())
    loc.set("n", n)
    loc.set("z", n - (sps - 1) / 2.0 * np.eye(sps))
    return loc


def fermion_local():
    loc = Local(2)
    loc.set("I", np.eye(2))
    loc.set("+", np.array([[0, 0], [1, 0]], complex))
    loc.set("-", np.array([[0, 1], [0, 0]], complex))
    loc.set("n", np.diag([0, 1]).astype(complex))
    loc.set("z", np.diag([-0.5, 0.5]).astype(complex))
    return loc


class Model:
    """N sites of one kind.  jw: the sites are fermionic; a hopping operator on site i carries (-1)**(sum of n_j, j > i)."""

    def __init__(self, N, local, jw=False):
        self.N, self.local, self.sps, self.jw = N, local, local.sps, jw

    # -- configurations
    def all_digits(self):
        if self.N == 0:
            return np.zeros((1, 0), dtype=np.int64)
        g = np.indices((self.sps,) * self.N).reshape(self.N, -1).T
        return np.ascontiguousarray(g)

    def ints_to_digits(self, ints):
        out = np.zeros((len(ints), self.N), dtype=np.int64)
        for k, s in enumerate(ints):
            s = pyint(s)
            for i in range(self.N - 1, -1, -1):
                s, out[k, i] = divmod(s, self.sps)
            assert s == 0, "state outside of the Hilbert space"
        return out

    def digits_to_ints(self, digits):
        out = []
        for row in digits:
            s = 0
            for d in row:
                s = s * self.sps + int(d)
            out.append(s)
        return out

    # -- operators
    def apply(self, opstr, indx, digits, amps=None):
        """applies the string (rightmost first) to every row; returns digits, amplitudes (0 where annihilated)"""
        digits = digits.copy()
        amps = np.ones(len(digits), dtype=complex) if amps is None else np.asarray(amps, dtype=complex).copy()
        for ch, i in list(zip(opstr, indx))[::-1]:
            new, amp = self.local.ops[ch]
            d = digits[:, i]
            amps = amps * amp[d]
            if self.jw and ch in "+-":
                amps = amps * (1 - 2 * (digits[:, i + 1:].sum(axis=1) % 2))
            nd = new[d]
            amps[nd < 0] = 0
            digits[:, i] = np.where(nd < 0, d, nd)
        return digits, amps

    def matrix(self, terms, digits, digits_row=None, strict=False):
        """dense matrix of sum of J*opstr over the configurations given (in their order); terms: (opstr, indx, J)

        A term leading outside of the rows contributes nothing (projection) unless strict."""
        rows = digits if digits_row is None else digits_row
        look = {r.astype(np.int64).tobytes(): k for k, r in enumerate(rows)}
        M = np.zeros((len(rows), len(digits)), dtype=complex)
        self.leaks = 0.0
        for opstr, indx, J in terms:
            nd, a = self.apply(opstr, indx, digits)
            for c in range(len(digits)):
                if a[c] != 0:
                    r = look.get(nd[c].astype(np.int64).tobytes())
                    if r is None:
                        self.leaks = max(self.leaks, abs(J * a[c]))
                        continue
                    M[r, c] += J * a[c]
        return M

    # -- symmetries
    def permute(self, perm, flip, digits):
        """site i goes to site perm[i]; where flip[i], the digit d becomes sps-1-d on the way.  Returns digits and the
        fermionic sign of reordering the creation operators (for jw models)."""
        out = np.zeros_like(digits)
        sign = np.ones(len(digits))
        for i in range(self.N):
            d = digits[:, i]
            out[:, perm[i]] = (self.sps - 1 - d) if flip[i] else d
        if self.jw:
            for i in range(self.N):
                for j in range(i + 1, self.N):
                    if perm[i] > perm[j]:
                        both = (digits[:, i] * digits[:, j]) % 2
                        sign = sign * (1 - 2 * both)
            if any(flip):
                # c_i -> (-1)**i c^dagger_perm[i] on the flipped sites, c_i -> c_perm[i] elsewhere: the diagonal sign that
                # makes the plain exchange of 0 and 1 act so (up to the total parity), from the ordering convention
                targets = [perm[i] for i in range(self.N) if flip[i]]
                for i in range(self.N):
                    e = sum(1 for t in targets if t > perm[i]) + (i if flip[i] else 0)
                    if e % 2:
                        sign = sign * (1 - 2 * (digits[:, i] % 2))
        return out, sign


def sector(digits, mask):
    return digits[mask]


def compositions(N, total, sps):
    """all digit rows with the given sum"""
    out = []

    def rec(prefix, left, sites):
        if sites == 0:
            if left == 0:
                out.append(prefix)
            return
        for d in range(min(sps - 1, left), -1, -1):
            if left - d <= (sites - 1) * (sps - 1):
                rec(prefix + [d], left - d, sites - 1)

    if 0 <= total <= N * (sps - 1):
        rec([], total, N)
    return np.array(out, dtype=np.int64).reshape(len(out), N)


def dense(A):
    if sp.issparse(A):
        return A.toarray()
    return np.asarray(A)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    scale = max(1.0, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * scale)


def maxdiff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shapes %s %s" % (a.shape, b.shape)
    if a.size == 0:
        return 0.0
    return float(np.max(np.abs(a - b)))
