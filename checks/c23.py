"""C23: utilities for the integers of basis states."""
import random

import numpy as np
from hypothesis import strategies as st

import ref
from vf import Family, check, fail

ID = "C23"
TECHNIQUE = "property-based testing: random integers of every width (boundary values included), masks, outputs and layouts, against Python's integers"
LEVEL_NOTE = "sampled, not exhaustive: six widths up to 16384 bits, arrays of up to 12 integers, every way to pass arguments; trusts Python's integers"

RULE = ("cases: an operation, a width, the integers, and how they are passed; get_basis_type: a lattice, local dimension and sector; "
        "non-trivial: some integer has its bits in more than one byte, or the width is the smallest that holds the states of a lattice")
WIDTHS = [32, 64, 256, 1024, 4096, 16384]


def dtype_of(w):
    import quspin.basis as qb

    return {32: np.uint32, 64: np.uint64, 256: qb.uint256, 1024: qb.uint1024, 4096: qb.uint4096, 16384: qb.uint16384}[w]


def value(w, v):
    """[kind, number] -> integer below 2**w"""
    kind, k = v
    top = (1 << w) - 1
    if kind == "small":
        return k
    if kind == "power":
        return 1 << (k % w)
    if kind == "below":
        return (1 << (k % w)) - 1
    if kind == "ones":
        return top
    if kind == "limbs":  # around the boundaries of machine words
        b = 32 * (1 + k % (w // 32))
        return min(top, (1 << b) + (k // 7) % 5 - 2) if b < w else top - k % 3
    if kind == "sparse":
        r = random.Random(k)
        return sum(1 << r.randrange(w) for _ in range(3)) & top
    return random.Random(k).getrandbits(w)


def pack(vals, w):
    from quspin.basis import basis_zeros, python_int_to_basis_int

    a = basis_zeros((len(vals),), dtype=dtype_of(w))
    for i, v in enumerate(vals):
        a[i] = python_int_to_basis_int(v, dtype=dtype_of(w))
    return a


def ints(a):
    return [ref.pyint(x) for x in a]


def lay(a, how):
    if how == "strided":
        big = np.zeros(2 * len(a), dtype=a.dtype)
        big[::2] = a
        return big[::2]
    if how == "list":
        return list(a)
    if how == "readonly":
        a = a.copy()
        a.setflags(write=False)
    return a


def run_convert(case):
    from quspin.basis import basis_int_to_python_int, basis_ones, basis_zeros, python_int_to_basis_int

    w = case["width"]
    vals = [value(w, v) for v in case["vals"]]
    for v in vals:
        for x in (python_int_to_basis_int(v, dtype=dtype_of(w)), python_int_to_basis_int(v)):
            check(type(basis_int_to_python_int(x)) is int and basis_int_to_python_int(x) == v, lambda: "%d becomes %s" % (v, basis_int_to_python_int(x)))
            check(basis_int_to_python_int(x.reshape(1)) == v, "conversion from an array with one element differs")
        least = next(k for k in WIDTHS if v < 1 << k)
        check(python_int_to_basis_int(v).dtype == dtype_of(least), lambda: "%d bits: data type %s" % (v.bit_length(), python_int_to_basis_int(v).dtype))
        check(basis_int_to_python_int(v) == v, "a Python integer is changed")
        check(int(python_int_to_basis_int(v, dtype=object)) == v, "conversion to a Python integer")
        if case["small"] < w and v >> case["small"]:
            try:
                x = python_int_to_basis_int(v, dtype=dtype_of(case["small"]))
            except ValueError:
                pass
            else:
                fail("an integer of %d bits is accepted for %d bits, as %d" % (v.bit_length(), case["small"], basis_int_to_python_int(x)))
    a = pack(vals, w)
    check(ints(a) == vals, "integers in an array are changed")
    b = a.copy()
    check(ints(b) == vals, "a copy of the array differs")
    shape = tuple(case["shape"])
    for f, n in ((basis_zeros, 0), (basis_ones, 1)):
        z = f(shape, dtype=dtype_of(w))
        check(z.shape == shape and z.dtype == dtype_of(w), "%s: shape or data type" % f.__name__)
        check(ints(z.ravel()) == [n] * z.size, "%s: values" % f.__name__)
    try:
        python_int_to_basis_int(-1 - vals[0] if vals else -1, dtype=dtype_of(w))
    except (ValueError, OverflowError):
        pass
    else:
        fail("a negative integer is accepted")
    return ["width=%d" % w], any(v > 255 for v in vals)


PY = {"and": lambda a, b, w: a & b, "or": lambda a, b, w: a | b, "xor": lambda a, b, w: a ^ b,
      "leftshift": lambda a, b, w: (a << b) & ((1 << w) - 1), "rightshift": lambda a, b, w: a >> b}


def run_bits(case):
    import quspin.basis as qb

    w, op = case["width"], case["op"]
    x1 = [value(w, v) for v in case["x1"]]
    n = len(x1)
    shift = op.endswith("shift")
    mask = (1 << w) - 1
    if op == "not":
        want, args = [~x & mask for x in x1], []
    elif shift:
        x2 = [(s[1] % (w + 1) if s[0] else s[1] % 40) for s in (case["sh"] * n)[:n]]
        sd = case["sdtype"]
        if sd == "u1":
            x2 = [min(x, 255) for x in x2]
        want = [PY[op](a, b, w) for a, b in zip(x1, x2)]
        args = [x2 if sd == "list" else lay(np.array(x2, dtype=sd), case["lay2"] if case["lay2"] != "list" else "C")]
    else:
        x2 = [value(w, v) for v in (case["x2"] * n)[:n]]
        want = [PY[op](a, b, w) for a, b in zip(x1, x2)]
        args = [lay(pack(x2, w), case["lay2"])]
    a1 = lay(pack(x1, w), case["lay"])
    kw = {}
    old = [7 + i for i in range(n)]
    if case["where"] is not None:
        m = [bool(x) for x in (case["where"] * n)[:n]]
        how = case["wherehow"]
        if how == "list":
            kw["where"] = m
        elif how == "int":  # any non-zero number selects
            kw["where"] = np.array([int(k) << (i % 12) for i, k in enumerate(m)], dtype=np.int64)
        else:
            kw["where"] = lay(np.array(m, dtype="u1" if how == "u1" else bool), case["wherelay"])
    else:
        m = [True] * n
    if case["out"] == "new":
        kw["out"] = pack(old, w)
    elif case["out"] == "x1" and case["lay"] == "C":
        kw["out"] = a1
        old = x1
    else:
        old = [0] * n
    want = [x if k else o for x, k, o in zip(want, m, old)]
    f = getattr(qb, "bitwise_" + op)
    labels = [op, "width=%d" % w, case["lay"], "out=%s" % case["out"], "where" if case["where"] is not None else "all"]
    if not n and ("where" in kw or shift or "list" in (case["lay"], case["lay2"])):
        return labels + ["empty"], False
    y = f(a1, *args, **kw)
    check(isinstance(y, np.ndarray) and y.dtype == dtype_of(w) and y.shape == (n,), lambda: "%s: result %s of type %s" % (op, getattr(y, "shape", None), getattr(y, "dtype", None)))
    got = ints(y)
    bad = [i for i in range(n) if got[i] != want[i]]
    check(not bad, lambda: "bitwise_%s of %s gives %d instead of %d (width %d)" % (op, [x1[bad[0]]] + ([x2[bad[0]]] if op != "not" else []), got[bad[0]], want[bad[0]], w))
    if "out" in kw:
        check(ints(kw["out"]) == want, "the result is not in out")
    if case["out"] != "x1" or case["lay"] != "C":
        check(ints(a1) == x1, "the first argument has changed")
    if args and not shift:
        check(ints(args[0]) == x2, "the second argument has changed")
    if n and case["other"] != w:  # arrays of other widths are refused
        tries = [dict(a=(a1,) + tuple(args), k={"out": pack([1] * n, case["other"])})]
        if args and not shift:
            tries.append(dict(a=(a1, pack([1] * n, case["other"])), k={}))
        for t in tries:
            try:
                z = f(*t["a"], **t["k"])
            except (TypeError, ValueError):
                continue
            fail("bitwise_%s of arrays of %d and %d bits is not refused" % (op, w, case["other"]))
    return labels, any(x > 255 for x in x1)


def run_type(case):
    from quspin.basis import boson_basis_general, get_basis_type

    N, sps, Np = case["N"], case["sps"], case["Np"]
    top = N * (sps - 1)
    if Np is not None:
        Np = [x % (top + 1) for x in Np] if isinstance(Np, list) else Np % (top + 1)
        big = max(Np) if isinstance(Np, list) else Np
        l, r = divmod(big, sps - 1)
        s = 0
        for i in range(N):
            s = s * sps + (sps - 1 if i < l else r if i == l else 0)
    else:
        s = sps ** N - 1
    bits = N if sps == 2 else s.bit_length()
    labels = ["sps=%d" % sps, "sector" if Np is not None else "full"]
    if bits > 16384:
        try:
            get_basis_type(N, Np, sps)
        except ValueError:
            return labels + ["too long"], True
        fail("a type is found for states of %d bits" % bits)
    d = get_basis_type(N, tuple(Np) if isinstance(Np, list) and case["tuple"] else Np, sps)
    w = next(k for k in WIDTHS if bits <= k)
    check(d == dtype_of(w), lambda: "%d sites, sps=%d, Np=%s need %d bits: type %s" % (N, sps, Np, bits, d))
    try:
        get_basis_type(N, top + 1, sps)
    except ValueError:
        pass
    else:
        fail("%d particles on %d sites with sps=%d are accepted" % (top + 1, N, sps))
    few = Np if isinstance(Np, int) and Np in (1, 2) and N <= 150 else None
    if few is not None:
        b = boson_basis_general(N, Nb=few, sps=sps)
        check(b.dtype.itemsize >= np.dtype(d).itemsize, lambda: "the basis has data type %s" % b.dtype)
        check(ref.pyint(b.states[0]) == s, "the largest state of the basis")
    return labels + ["width=%d" % w], w > 32


# ---------------------------------------------------------------- generation
def values():
    return st.tuples(st.sampled_from(["small", "power", "below", "ones", "limbs", "limbs", "sparse", "random", "random"]), st.integers(0, 20000)).map(list)


@st.composite
def convert_cases(draw):
    return {"width": draw(st.sampled_from(WIDTHS)), "vals": draw(st.lists(values(), max_size=6)), "small": draw(st.sampled_from(WIDTHS)),
            "shape": draw(st.sampled_from([[3], [0], [2, 3], [1], [7], [2, 0], [2, 2, 2]]))}


@st.composite
def bit_cases(draw):
    op = draw(st.sampled_from(["not", "and", "or", "xor", "leftshift", "leftshift", "rightshift", "rightshift"]))
    return {"op": op, "width": draw(st.sampled_from(WIDTHS)), "other": draw(st.sampled_from(WIDTHS)), "x1": draw(st.lists(values(), max_size=8)),
            "x2": draw(st.lists(values(), min_size=1, max_size=8)), "sh": draw(st.lists(st.tuples(st.booleans(), st.integers(0, 20000)).map(list), min_size=1, max_size=8)),
            "sdtype": draw(st.sampled_from(["u1", "u2", "u4", "u8", "i8", "i4", "list"])), "lay": draw(st.sampled_from(["C", "C", "strided", "readonly", "list"])),
            "lay2": draw(st.sampled_from(["C", "C", "strided", "readonly", "list"])), "out": draw(st.sampled_from([None, None, "new", "x1"])),
            "where": draw(st.none() | st.lists(st.integers(0, 1), min_size=1, max_size=5)), "wherehow": draw(st.sampled_from(["list", "bool", "bool", "u1", "u1", "int"])), "wherelay": draw(st.sampled_from(["C", "strided", "readonly"]))}


@st.composite
def type_cases(draw):
    sps = draw(st.sampled_from([2, 2, 3, 4, 5, 8, 9, 16]))
    edge = draw(st.sampled_from([32, 64, 256, 1024, 4096]))
    N = draw(st.one_of(st.integers(1, 150), st.integers(-3, 3).map(lambda k: max(1, int(edge / np.log2(sps)) + k)),
                       st.integers(1, 20000 if draw(st.integers(0, 9)) == 0 else 300)))
    Np = draw(st.one_of(st.none(), st.integers(1, 3), st.integers(0, 10 ** 6), st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=3)))
    return {"sps": sps, "N": N, "Np": Np, "tuple": draw(st.booleans())}


FAMILIES = [
    Family("conversions", convert_cases, run_convert, 1500, 30000),
    Family("bit operations", bit_cases, run_bits, 4000, 80000),
    Family("widths", type_cases, run_type, 1000, 20000),
]
