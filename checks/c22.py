"""C22: saving, loading, pickling and copying."""
import contextlib
import copy as copymod
import io
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import gen, hams, ref
import vf
from checks import c04, c05, c08, c14, c16
from vf import Family, Reject, check, fail, quiet

ID = "C22"
TECHNIQUE = ("property-based testing: random objects of every class, copied, pickled, saved and loaded (also in another process); exact comparison of a battery of observations, "
             "and histories of changes to one of the two")
LEVEL_NOTE = ("sampled, not exhaustive: all basis classes with blocks and sectors up to 300 states, operators of dimension 1 to 16, histories up to six changes; independence "
              "is asked of deep copies, pickles and archives, not of copy.copy of operators (shallow by Python's convention); user_basis with compiled callbacks cannot be pickled")

RULE = "cases: an object, a way to copy it, and observations or changes; non-trivial: dimension of at least 2"


def norm(x):
    """observation -> comparable structure"""
    if sp.issparse(x):
        y = x.tocsr(copy=True)
        y.sum_duplicates()
        return ("sparse", x.format, str(x.dtype), x.shape, norm(y.toarray()))
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes() if x.dtype != object else tuple(map(repr, x.ravel())))
    if isinstance(x, np.generic):
        return ("scalar", str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return tuple(norm(v) for v in x)
    return (type(x).__name__, repr(x))


def observe(fs):
    """[(name, callable)] -> {name: observation or the error}, number of successes"""
    out, ok = {}, 0
    for name, f in fs:
        try:
            with quiet():
                out[name] = norm(f())
            ok += 1
        except Exception as e:
            if isinstance(e, MemoryError):
                raise
            out[name] = ("error", type(e).__name__, str(e)[:80])
    return out, ok


def close(x, y):
    """the same up to rounding: hamiltonian.copy() may store its matrices in another sparse format, which adds up in another order"""
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        if len(x) == 4 and x[0] == y[0] == "array" and x[1:3] == y[1:3] and isinstance(x[3], bytes):
            u, v = np.frombuffer(x[3], x[1]), np.frombuffer(y[3], y[1])
            return bool((np.abs(u - v) <= 200 * np.finfo(x[1]).eps * (1 + np.abs(u).max(initial=0) + np.abs(v).max(initial=0))).all())
        if len(x) == 5 and x[0] == y[0] == "sparse":
            return x[2:4] == y[2:4] and close(x[4], y[4])
        if len(x) == 3 and x[0] == y[0] == "scalar" and x[1] == y[1]:
            return close(("array", x[1], (1,), x[2]), ("array", x[1], (1,), y[2]))
        return all(close(u, v) for u, v in zip(x, y))
    return x == y


def compare(a, b, what, rounding=False):
    for k in a:
        check(a[k] == b[k] or rounding and (k == "fmt" or close(a[k], b[k])), lambda: "%s: %s differs (%s / %s)" % (what, k, str(a[k])[:300], str(b[k])[:300]))


COPIES = {
    "copy": copymod.copy,
    "deepcopy": copymod.deepcopy,
    "pickle2": lambda o: pickle.loads(pickle.dumps(o, 2)),
    "pickle5": lambda o: pickle.loads(pickle.dumps(o, 5)),
    "twice": lambda o: pickle.loads(pickle.dumps(copymod.deepcopy(pickle.loads(pickle.dumps(o))))),
    "together": lambda o: pickle.loads(pickle.dumps([o, o]))[1],
}
DEEP = ["deepcopy", "pickle2", "pickle5", "twice", "together"]


# ---------------------------------------------------------------- bases
def make_basis(c):
    """-> basis, list of particle-like specs or None"""
    k = c["what"]
    if k == "lattice":
        return c04.build(c["spec"], c["how"])
    if k == "tensor":
        bs, b = c08.make_tensor(c["spec"], c["nest"])
        if b is None:
            raise Reject("empty factor")
        return b
    return c08.photon(c["spec"])


def strings(c):
    out = []
    for t in c["ops"]:
        s, ix = t
        out.append((s, list(ix)))
    return out


def basis_obs(b, c):
    rng = np.random.RandomState(c["seed"])
    Ns = b.Ns
    v = rng.randn(Ns) + 1j * rng.randn(Ns)
    V = rng.randn(Ns, 3) + 1j * rng.randn(Ns, 3)
    fs = [(a, lambda a=a: getattr(b, a)) for a in ("Ns", "N", "L", "sps", "blocks", "description", "operators", "noncommuting_bits", "dtype", "_fermion_basis", "chain_Ns", "particle_Ns",
                                                   "chain_N", "particle_N", "chain_sps", "photon_sps", "np")]
    fs += [("type", lambda: type(b).__name__), ("str", lambda: str(b)), ("states", lambda: np.array([ref.pyint(s) for s in b.states], object)), ("len", lambda: len(b.states)),
           ("iterate", lambda: np.array([ref.pyint(s) for s in b], object))]
    for i, (s, ix) in enumerate(strings(c)):
        fs += [("Op %s %s" % (s, ix), lambda s=s, ix=ix: b.Op(s, ix, 0.7, np.complex128)),
               ("inplace_Op %s %s" % (s, ix), lambda s=s, ix=ix: b.inplace_Op(v.copy(), [[s, ix, 0.5 - 0.1j]], np.complex128)),
               ("inplace_Op many %s %s" % (s, ix), lambda s=s, ix=ix: b.inplace_Op(V.copy(), [[s, ix, 1.5]], np.complex128, transposed=bool(i % 2), conjugated=bool(i % 3))),
               ("expanded %s" % s, lambda s=s, ix=ix: b.expanded_form([[s, [[1.0] + ix]]], [])),
               ("herm %s" % s, lambda s=s, ix=ix: c14_quiet(b.check_hermitian, s, ix))]
        fs.append(("bra_ket %s" % s, lambda s=s, ix=ix: b.Op_bra_ket(s, ix, 1.0, np.complex128, b.states)))
    fs += [("get_proj", lambda: b.get_proj(np.complex128)), ("get_proj pcon", lambda: b.get_proj(np.complex128, pcon=True)),
           ("project_from", lambda: b.project_from(v, sparse=False)), ("get_vec", lambda: b.get_vec(V, sparse=False)), ("project_from sparse", lambda: b.project_from(V, sparse=True)),
           ("project_from pcon", lambda: b.project_from(v, sparse=False, pcon=True)),
           ("ent_entropy", lambda: b.ent_entropy(v / np.linalg.norm(v), density=False)["Sent_A"]),
           ("partial_trace", lambda: b.partial_trace(v / np.linalg.norm(v)))]
    if Ns <= 60:
        fs += [("index", lambda: [int(b.index(ref.pyint(s))) for s in b.states]), ("int_to_state", lambda: [b.int_to_state(ref.pyint(s)) for s in b.states]),
               ("state_to_int", lambda: [b.state_to_int(b.int_to_state(ref.pyint(s), bracket_notation=False)) for s in b.states]),
               ("representative", lambda: b.representative(b.states)), ("normalization", lambda: b.normalization(b.states)),
               ("get_amp", lambda: b.get_amp(b.states.copy(), mode="representative"))]
    return fs


def c14_quiet(f, s, ix):
    f([[s, [[1.0] + ix]]], [])
    return True


def run_basis(c):
    try:
        b = make_basis(c)
    except Reject:
        raise
    if b.Ns > 400:
        raise Reject("large")
    before, ok = observe(basis_obs(b, c))
    if c["way"] == "process":
        x = other_process(b, c)
        compare(before, x, "the %s unpickled in another process" % type(b).__name__)
        return [type(b).__name__, "process"], b.Ns > 1
    with contextlib.redirect_stdout(io.StringIO()) as said:
        x = COPIES[c["way"]](b)
    check(not said.getvalue(), lambda: "copying prints %r" % said.getvalue())
    check(x is not b, "copying gives the same object")
    after, _ = observe(basis_obs(x, c))
    compare(before, after, "%s of a %s" % (c["way"], type(b).__name__))
    again, _ = observe(basis_obs(b, c))
    compare(before, again, "a %s after it was copied" % type(b).__name__)
    # the copy made again
    if hasattr(x, "make") and c["remake"]:
        x.make()
        y, _ = observe(basis_obs(x, c))
        compare(before, y, "%s of a %s, made again" % (c["way"], type(b).__name__))
        again, _ = observe(basis_obs(b, c))
        compare(before, again, "a %s after its copy was made again" % type(b).__name__)
    # arrays of the copy
    if c["way"] != "copy" and isinstance(getattr(x, "states", None), np.ndarray) and x.Ns and x.states.flags["WRITEABLE"]:
        x.states[...] = x.states[::-1].copy()
        again, _ = observe(basis_obs(b, c))
        compare(before, again, "a %s after the states of its copy were overwritten" % type(b).__name__)
    return [type(b).__name__, c["way"], "%d observations" % (10 * (ok // 10))], b.Ns > 1


CHILD = """
import sys, pickle
sys.path[:0] = %r
import vf
from checks import c22
c = pickle.load(sys.stdin.buffer)
o = pickle.loads(c[0])
out, ok = c22.observe(getattr(c22, c[2])(o, c[1]))
sys.stdout.buffer.write(pickle.dumps(out))
"""


def other_process(o, c, obs="basis_obs"):
    path = [vf.REPO, vf.HERE, vf.VERIF]
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD % (path,)], input=pickle.dumps([pickle.dumps(o), c, obs]), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=120)
    if p.returncode:
        fail("unpickling in another process failed: %s" % p.stderr.decode()[-600:])
    return pickle.loads(p.stdout)


def run_unmade(c):
    spec = c["spec"]
    kw = c04.c03.maps_kw(spec) if "maps" in spec else {}
    a = gen.make_basis(spec, make_basis=False, **kw)
    with quiet():
        x = COPIES[c["way"]](a)
    ref_ = gen.make_basis(spec, **kw)
    before, _ = observe(basis_obs(ref_, c))
    unmade, _ = observe(basis_obs(a, c))
    y, _ = observe(basis_obs(x, c))
    compare(unmade, y, "%s of a basis that is not made" % c["way"])
    x.make()
    y, _ = observe(basis_obs(x, c))
    compare(before, y, "%s of a basis that was not made, then made" % c["way"])
    y, _ = observe(basis_obs(a, c))
    compare(unmade, y, "a basis that is not made, after its copy was made")
    a.make()
    y, _ = observe(basis_obs(a, c))
    compare(before, y, "a basis made after its copy")
    return [spec["kind"], c["way"]], ref_.Ns > 1


# ---------------------------------------------------------------- operators
def nonzero(M):
    """the format in which a vanishing static part is stored is no behaviour"""
    return M.nnz if sp.issparse(M) else True


def ham_obs(H, c):
    n = H.Ns
    rng = np.random.RandomState(c["seed"])
    v = rng.randn(n) + 1j * rng.randn(n)
    V = rng.randn(n, 2)
    fs = [("type", lambda: type(H).__name__), ("dtype", lambda: H.dtype), ("shape", lambda: H.get_shape), ("dense", lambda: H.is_dense), ("dynamic", lambda: len(H.dynamic)),
          ("basis", lambda: str(H.basis)), ("static", lambda: H.static if nonzero(H.static) else None), ("fmt", lambda: [str(type(H.static)) if nonzero(H.static) else None] + [str(type(M)) for M in H.dynamic.values()]),
          ("parts", lambda: [M.toarray() if sp.issparse(M) else M for f, M in sorted(H.dynamic.items(), key=lambda x: (str(x[0](0.3)), str(x[0](1.1))))])]
    for t in hams.TIMES:
        fs += [("toarray %g" % t, lambda t=t: H.toarray(time=t)), ("csr %g" % t, lambda t=t: H.tocsr(time=t)), ("dot %g" % t, lambda t=t: H.dot(v, time=t)),
               ("dot2 %g" % t, lambda t=t: H.dot(V, time=t)), ("expt %g" % t, lambda t=t: H.expt_value(v, time=t)), ("diagonal %g" % t, lambda t=t: H.diagonal(time=t))]
    return fs


def qop_obs(O, c):
    n = O.Ns
    rng = np.random.RandomState(c["seed"])
    v = rng.randn(n) + 1j * rng.randn(n)
    fs = [("type", lambda: type(O).__name__), ("dtype", lambda: O.dtype), ("shape", lambda: O.shape), ("dense", lambda: O.is_dense), ("keys", lambda: sorted(O._quantum_operator))]
    if not c.get("nobasis"):
        fs.append(("basis", lambda: str(O.basis)))
    for k in sorted(O._quantum_operator):
        fs += [("matrix " + k, lambda k=k: O.get_operators(k)), ("format " + k, lambda k=k: str(type(O.get_operators(k)))),
               ("toarray " + k, lambda k=k: O.toarray(pars={k: 0.3})), ("dot " + k, lambda k=k: O.dot(v, pars={k: -2})), ("diag " + k, lambda k=k: O.diagonal(pars={k: 0}))]
    fs += [("toarray", lambda: O.toarray()), ("csr", lambda: O.tocsr()), ("dot", lambda: O.dot(v)), ("ham", lambda: O.tohamiltonian().toarray())]
    return fs


def qlo_obs(O, c):
    n = O.shape[0]
    rng = np.random.RandomState(c["seed"])
    v = rng.randn(n) + 1j * rng.randn(n)
    return [("type", lambda: type(O).__name__), ("dtype", lambda: str(np.dtype(O.dtype))), ("shape", lambda: O.shape), ("basis", lambda: str(O.basis)), ("dot", lambda: O.dot(v)),
            ("rdot", lambda: O.H.dot(v)), ("T", lambda: O.T.dot(v)), ("expt", lambda: O.expt_value(v)), ("list", lambda: str(O.static_list)), ("diagonal", lambda: O.diagonal)]


def exp_obs(E, c):
    n = E.Ns
    rng = np.random.RandomState(c["seed"])
    v = rng.randn(n) + 1j * rng.randn(n)
    return [("type", lambda: type(E).__name__), ("a", lambda: E.a), ("grid", lambda: E.grid), ("step", lambda: E.step), ("iterate", lambda: E.iterate), ("mat", lambda: E.get_mat(dense=True)),
            ("dot", lambda: [norm(x) for x in E.dot(v)] if E.iterate else E.dot(v)), ("O", lambda: E.O.toarray() if hasattr(E.O, "toarray") else np.asarray(E.O))]


def make_op(c):
    w = c["what"]
    if w == "hamiltonian":
        b = hams.basis(c["L"]) if c["L"] else None
        return hams.build(c["spec"], c["n"], b)[0], ham_obs
    if w == "quantum_operator":
        spec = c["spec"]
        spec["keys"] = [[c["names"][i], p] for i, (_, p) in enumerate(spec["keys"])]
        spec["fmts"] = {c["names"][i]: f for i, f in enumerate(c["fmts"]) if f}
        return c14.build(spec, c["n"], c["L"])[0], qop_obs
    if w == "exp_op":
        E = make_exp(c)
        return E, exp_obs
    from quspin.operators import quantum_LinearOperator

    L = c["L"]
    st_ = gen.q_list(c["spec"])
    D = np.random.RandomState(c["seed"]).randn(2 ** L).astype(complex) if c["grid"] else None
    return quantum_LinearOperator(st_, basis=hams.basis(L), dtype=np.complex128, diagonal=D, **gen.NOCHECK), qlo_obs


def make_exp(c):
    from quspin.operators import exp_op

    O = hams.build(c["spec"], c["n"], None)[0]
    kw = {"start": 0.0, "stop": 1.0, "num": 3, "iterate": bool(c["iter"])} if c["grid"] else {}
    return exp_op(O, a=0.3 - 0.1j, **kw)


def mutate(o, what, ops, seed, n):
    """changes in place, through the public interface and in the stored data"""
    rng = np.random.RandomState(seed)
    for op in ops:
        try:
            with quiet():
                if op == "imul":
                    o *= 2
                elif op == "idiv":
                    o /= 4
                elif op == "iadd":
                    o += o.copy()
                elif op == "isub":
                    o -= o.copy() * 0.5
                elif op == "set_a":
                    o.set_a(0.7)
                elif op == "grid":
                    o.set_grid(0.0, 2.0, 4)
                elif op == "iterate":
                    o.set_iterate(not o.iterate)
                elif op == "unset":
                    o.unset_grid()
                elif op == "formats":
                    if what == "hamiltonian":
                        o.update_matrix_formats("csc", {f: "csc" for f in o.dynamic})
                    else:
                        o.update_matrix_formats({k: "csc" for k in o._quantum_operator})
                elif op == "data":
                    ms = [o.static] + list(o.dynamic.values()) if what == "hamiltonian" else list(o._quantum_operator.values()) if what == "quantum_operator" else []
                    if what == "exp_op":
                        ms = [o.O.static] + list(o.O.dynamic.values())
                    for M in ms:
                        (M.data if sp.issparse(M) else M)[...] = 7
                elif op == "operand":
                    o.O.__imul__(3)
                elif op == "basis":
                    o.basis.states[...] = o.basis.states[::-1].copy()
                elif op == "diagonal":
                    o.diagonal[...] = 3
                elif op == "set_diagonal":
                    o.set_diagonal(rng.randn(n))
                elif op == "dynamic":
                    o.dynamic.clear()
        except (TypeError, AttributeError, ValueError, NotImplementedError):
            continue
    return o


def run_operator(c):
    o, obs = make_op(c)
    before, ok = observe(obs(o, c))
    way = c["way"]
    what = c["what"]
    if way == "process":
        compare(before, other_process(o, c, obs.__name__), "a %s unpickled in another process" % what)
        return [what, way], c["n"] > 1
    with quiet():
        x = o.copy() if way == "method" else COPIES[way](o)
    check(x is not o, "copying gives the same object")
    rounding = way == "method" and what == "hamiltonian"
    compare(before, observe(obs(x, c))[0], "%s of a %s" % (way, what), rounding)
    compare(before, observe(obs(o, c))[0], "a %s after it was copied" % what)
    ops = [m for m in c["muts"] if not (m == "basis" and way == "method")]  # bases are shared by operators
    mutate(x, what, ops, c["seed"], c["n"])
    compare(before, observe(obs(o, c))[0], "a %s after changes %s of its copy (%s)" % (what, ops, way))
    if way != "copy":
        with quiet():
            y = o.copy() if way == "method" else COPIES[way](o)
        mutate(o, what, ops, c["seed"], c["n"])
        compare(before, observe(obs(y, c))[0], "the copy (%s) of a %s after changes %s of the original" % (way, what, ops), rounding)
    return [what, way], c["n"] > 1


def run_archive(c):
    from quspin.operators import save_zip, load_zip

    c["what"] = "quantum_operator"
    O, obs = make_op(c)
    c["nobasis"] = not c["save_basis"]
    before, _ = observe(obs(O, c))
    d = tempfile.mkdtemp(prefix="c22-")
    try:
        f = os.path.join(d, c["file"])
        if c["overwrite"]:
            with open(f, "w") as h:
                h.write("old contents" * 50)
        save_zip(f, O, save_basis=c["save_basis"]) if not c["default"] or not c["save_basis"] else save_zip(f, O)
        check(sorted(os.listdir(d)) == [c["file"]], lambda: "save_zip left %s" % os.listdir(d))
        compare(before, observe(obs(O, c))[0], "a quantum_operator after it was saved")
        size = os.path.getsize(f)
        X = load_zip(f)
        compare(before, observe(obs(X, c))[0], "a quantum_operator saved and loaded")
        mutate(X, "quantum_operator", c["muts"], c["seed"], c["n"])
        Y = load_zip(f)
        compare(before, observe(obs(Y, c))[0], "a quantum_operator loaded again")
        compare(before, observe(obs(O, c))[0], "a quantum_operator after its saved copy was changed")
        check(os.path.getsize(f) == size, "loading changed the archive")
        # saved again from the loaded one
        g = os.path.join(d, "second.zip")
        save_zip(g, Y, save_basis=c["save_basis"])
        compare(before, observe(obs(load_zip(g), c))[0], "a quantum_operator saved and loaded twice")
        if c["save_basis"] is False:
            try:
                b = X.basis
            except AttributeError:
                pass
            else:
                fail("a basis was loaded though none was saved")
        for bad in (O.tohamiltonian(), O.toarray(), None):
            try:
                save_zip(os.path.join(d, "bad.zip"), bad)
            except ValueError:
                continue
            fail("save_zip accepted %s" % type(bad).__name__)
    finally:
        shutil.rmtree(d)
    return ["archive", "basis" if c["save_basis"] else "no basis"], c["n"] > 1


# ---------------------------------------------------------------- generators
@st.composite
def basis_case(draw, ways=tuple(COPIES)):
    what = draw(st.sampled_from(["lattice", "lattice", "lattice", "lattice", "tensor", "photon"]))
    seed = draw(st.integers(0, 2**31 - 1))
    c = {"what": what, "seed": seed, "way": draw(st.sampled_from(list(ways))), "remake": draw(st.booleans())}
    ops = []
    if what == "lattice":
        x = draw(c04.cases())
        c.update(spec=x["basis"], how=x["how"])
        for _ in range(2):
            s, ix = draw(gen.op_strings(x["basis"], maxlen=3))
            ops.append([s, list(ix)])
    elif what == "tensor":
        parts = draw(c08.part_lists())
        c.update(spec=parts, nest=draw(st.booleans()))
        for _ in range(2):
            t = draw(c08.product_strings(parts))
            ops.append(["|".join(t["s"]), [i for x in t["ix"] for i in x]])
    else:
        x = draw(c08.photon_specs(maxdim=100))
        c.update(spec=x)
        for _ in range(2):
            t = draw(c08.photon_terms(x["particles"], x["conserved"]))
            ops.append(["|".join(t["s"]), [i for y in t["ix"] for i in y]])
    c["ops"] = ops
    return c


@st.composite
def unmade_case(draw):
    x = draw(c04.cases().filter(lambda x: x["basis"]["kind"] in gen.KINDS_GEN))
    ops = []
    for _ in range(2):
        s, ix = draw(gen.op_strings(x["basis"], maxlen=3))
        ops.append([s, list(ix)])
    return {"spec": x["basis"], "way": draw(st.sampled_from(list(COPIES))), "seed": draw(st.integers(0, 1000)), "ops": ops}


MUTS = {"hamiltonian": ["imul", "idiv", "iadd", "isub", "formats", "data", "basis", "dynamic"], "quantum_operator": ["imul", "idiv", "iadd", "isub", "formats", "data", "basis"],
        "exp_op": ["set_a", "grid", "iterate", "unset", "data", "operand"], "quantum_LinearOperator": ["imul", "idiv", "diagonal", "set_diagonal", "basis"]}
NAMES = ["a", "b", "Jzz", "sparse", "sparse_a", "dense_b", "x.npz", "dense_sparse_", "a/b", "..", "basis.pickle", "key with blanks", "\u03bb", "", "A", ".npz", "matrix"]


@st.composite
def operator_case(draw, ways=None, whats=("hamiltonian", "hamiltonian", "quantum_operator", "quantum_operator", "exp_op", "quantum_LinearOperator")):
    what = draw(st.sampled_from(whats))
    L = draw(st.sampled_from([None, 1, 2, 3])) if what in ("hamiltonian", "quantum_operator") else draw(st.integers(1, 3)) if what == "quantum_LinearOperator" else None
    n = 2 ** L if L else draw(st.integers(1, 6))
    if what == "hamiltonian":
        spec = draw(hams.ham_specs(L))
    elif what == "exp_op":
        spec = draw(hams.ham_specs(None, dynamic=False))
    elif what == "quantum_operator":
        spec = draw(c14.op_specs(L))
    else:
        spec = []
        for _ in range(draw(st.integers(1, 3))):
            s, ix = draw(gen.op_strings({"kind": "spin1d", "N": L, "twoS": 1, "pauli": 1}, maxlen=3))
            spec.append([s, [[draw(gen.amplitudes())] + list(ix)]])
    ways = ways or DEEP + (["method", "method", "method"] if True else [])
    return {"what": what, "L": L, "n": n, "spec": spec, "seed": draw(st.integers(0, 2**31 - 1)), "way": draw(st.sampled_from(ways)), "grid": draw(st.booleans()), "iter": draw(st.booleans()),
            "muts": draw(st.lists(st.sampled_from(MUTS[what]), min_size=1, max_size=6)), "names": draw(st.lists(st.sampled_from(NAMES), min_size=4, max_size=4, unique=True)),
            "fmts": draw(st.lists(st.sampled_from([None, "csr", "csc", "dia", "dense"]), min_size=4, max_size=4))}


@st.composite
def archive_case(draw):
    c = draw(operator_case(whats=("quantum_operator",)))
    c.update(save_basis=draw(st.booleans()), default=draw(st.booleans()), file=draw(st.sampled_from(["a.zip", "archive", "with blank.zip", "x.npz"])), overwrite=draw(st.booleans()))
    return c


FAMILIES = [
    Family("basis", basis_case, run_basis, 2000),
    Family("unmade", unmade_case, run_unmade, 400),
    Family("operator", operator_case, run_operator, 2500),
    Family("archive", archive_case, run_archive, 1200),
    Family("process basis", lambda: basis_case(("process",)), run_basis, 24),
    Family("process operator", lambda: operator_case(["process"]), run_operator, 24),
]
