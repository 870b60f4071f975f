"""User bases with the rules of the built-in ones: compiled callbacks and the construction of a basis from a spec.

The callbacks are written for any number of states per site, with the particulars in their argument arrays; they are compiled
once per process, when first needed."""
import functools

import numpy as np

import ref, symm

@functools.lru_cache(None)
def funcs(bits):
    from numba import carray, cfunc, float64, int32, int64, uint32, uint64
    from quspin.basis import user as qu

    u = uint32 if bits == 32 else uint64
    i_ = int64
    sig = lambda n: getattr(qu, "%s_sig_%d" % (n, bits))

    @cfunc(sig("op"), locals=dict(b=u, d=i_, n=i_, k=i_, sps=i_, kind=i_, pauli=i_, j=i_, s=u, me=float64, sq=float64))
    def op(ptr, ch, site, N, args):
        res = carray(ptr, 1)[0]
        kind = args[0]
        sps = args[1]
        pauli = args[2]
        s = res.state
        b = 1
        for j in range(N - 1 - site):
            b *= args[1]
        d = (s // b) % args[1]
        me = 1.0
        if ch == 73:  # I
            return 0
        if kind == 2 and (ch == 43 or ch == 45):
            k = 0
            n = s % b
            while n:
                k += n & 1
                n >>= 1
            if k & 1:
                me = -1.0
        if ch == 43:  # +
            if d + 1 >= sps:
                me = 0.0
            elif kind == 0:
                if sps == 2:
                    me = 2.0 if pauli == 1 else 1.0
                else:
                    me = np.sqrt(float((sps - 1 - d) * (d + 1)))
            elif kind == 1:
                me = np.sqrt(float(d + 1))
            if d + 1 < sps:
                res.state = s + b
            res.matrix_ele *= me
        elif ch == 45:  # -
            if d == 0:
                me = 0.0
            elif kind == 0:
                if sps == 2:
                    me = 2.0 if pauli == 1 else 1.0
                else:
                    me = np.sqrt(float((sps - d) * d))
            elif kind == 1:
                me = np.sqrt(float(d))
            if d > 0:
                res.state = s - b
            res.matrix_ele *= me
        elif ch == 122:  # z
            me = d - 0.5 * (sps - 1)
            if kind == 0 and sps == 2 and pauli != 0:
                me *= 2
            res.matrix_ele *= me
        elif ch == 110 and kind > 0:  # n
            res.matrix_ele *= float(d)
        elif ch == 120 and kind == 0 and sps == 2:  # x
            res.matrix_ele *= 0.5 if pauli == 0 else 1.0
            res.state = s + b if d == 0 else s - b
        elif ch == 121 and kind == 0 and sps == 2:  # y
            me = 0.5 if pauli == 0 else 1.0
            res.matrix_ele *= -1.0j * me if d == 0 else 1.0j * me
            res.state = s + b if d == 0 else s - b
        else:
            res.matrix_ele = 0
            return -1
        return 0

    @cfunc(sig("map"))
    def table_map(x, N, sign_ptr, args):
        """args: number of states, images, 1 where the sign is negative"""
        if args[1 + args[0] + x]:
            sign_ptr[0] *= -1
        return args[1 + x]

    @cfunc(sig("map"), locals=dict(out=u, w=u, y=u, d=u, i=i_, j=i_))
    def perm_map(x, N, sign_ptr, args):
        """args: sps, weight of the new site of each site (last site first), 1 where the digit is inverted"""
        out = 0
        y = x
        for i in range(N):
            d = y % args[0]
            y = y // args[0]
            if args[1 + N + i]:
                d = args[0] - 1 - d
            out += d * args[1 + i]
        return out

    @cfunc(sig("next_state"))
    def next_table(s, counter, N, args):
        """args: number of states, the states in ascending order"""
        if counter + 1 < args[0]:
            return args[2 + counter]
        return s

    @cfunc(sig("next_state"))
    def next_of(s, counter, N, args):
        """args: the next state of each"""
        return args[s]

    @cfunc(sig("next_state"), locals=dict(t=u, n=u, d=u, e=u, i=i_, j=i_, m=u, w=u))
    def next_comp(s, counter, N, args):
        """args: sps, the weights of the sites from the last; the next state with the same sum of digits"""
        m = args[0] - 1
        n = 0
        for i in range(N - 1):
            d = (s // args[1 + i]) % args[0]
            e = (s // args[2 + i]) % args[0]
            n += d
            if n > 0 and e < m:
                t = s // args[2 + i] + 1
                t *= args[2 + i]
                n -= 1
                for j in range(i + 1):
                    w = m if n > m else n
                    t += w * args[1 + j]
                    n -= w
                return t
        return s

    @cfunc(sig("pre_check_state"), locals=dict(d=u, e=u, i=i_))
    def no_pairs(s, N, args):
        """args: sps, number of pairs, value for true, pairs of weights: not both sites at their highest"""
        for i in range(args[1]):
            d = (s // args[3 + 2 * i]) % args[0]
            e = (s // args[4 + 2 * i]) % args[0]
            if d == args[0] - 1 and e == args[0] - 1:
                return 0
        return args[2]

    @cfunc(sig("count_particles"), locals=dict(y=u, i=i_, j=i_, e=i_))
    def count(s, ptr, args):
        """args: number of sectors, sps, first site (from the last) of each sector, with the number of sites at the end"""
        y = s
        i = 0
        for j in range(args[0]):
            ptr[args[0] - 1 - j] = 0
            e = args[3 + j]
            while i < e:
                ptr[args[0] - 1 - j] += y % args[1]
                y = y // args[1]
                i += 1

    return dict(op=op, table_map=table_map, perm_map=perm_map, next_table=next_table, next_of=next_of, next_comp=next_comp, no_pairs=no_pairs, count=count)


def bounded(N, total, sps):
    """number of ways to place `total` on N sites"""
    p = [1]
    for _ in range(N):
        q = [0] * (len(p) + sps - 1)
        for i, a in enumerate(p):
            for d in range(sps):
                q[i + d] += a
        p = q
    return p[total] if 0 <= total < len(p) else 0


def lowest(N, total, sps):
    s, w = 0, 1
    for _ in range(N):
        d = min(total, sps - 1)
        s += d * w
        total -= d
        w *= sps
    return s


def make(spec, m, extra):
    """the user basis with the rules of the built-in basis of the spec; extra: its maps as the general bases take them, and options.
    With "halves": the sectors are pairs, for the two halves of the lattice.
    Options in spec["user"]: bits (32 or 64), table (maps and next_state from tables), count (count_particles is given), pairs (of sites)"""
    from quspin.basis.user import user_basis

    N, sps, o = m.N, m.sps, spec["user"]
    bits = o["bits"]
    f = funcs(bits)
    dt = np.uint32 if bits == 32 else np.uint64
    kind = 0 if spec["kind"].startswith("spin") else 1 if spec["kind"].startswith("boson") else 2
    arr = lambda x: np.array(x, dtype=dt)
    w = [sps ** i for i in range(N)]  # from the last site
    kw = {}
    for name, v in extra.items():
        if name == "make_basis":
            kw["_make_basis"] = v
            continue
        if not isinstance(v, tuple):
            kw[name] = v
            continue
        mp, q = [int(x) for x in v[0]], v[1]
        g = [t if t >= 0 else -(t + 1) for t in mp], [t < 0 for t in mp]
        per = symm.order(g)
        if o.get("table") or m.jw:
            d = m.all_digits()
            t, ph = symm.unitary(m, d, g)
            ints = m.digits_to_ints(d)
            img, neg = [0] * len(d), [0] * len(d)
            for k, x in enumerate(ints):
                img[x], neg[x] = ints[int(t[k])], int(np.real(ph[k]) < 0)
            kw[name] = (f["table_map"], per, q, arr([len(d)] + img + neg))
        else:
            kw[name] = (f["perm_map"], per, q, arr([sps] + [w[N - 1 - g[0][N - 1 - i]] for i in range(N)] + [int(g[1][N - 1 - i]) for i in range(N)]))
    p = spec.get("pcon")
    if p is not None:
        if spec.get("halves"):
            L = N // 2
            P = [tuple(x) for x in p] if isinstance(p[0], list) else tuple(p)
            n1 = lambda N, Np: bounded(L, Np[0], sps) * bounded(L, Np[1], sps)
            s0 = lambda N, Np: lowest(L, Np[0], sps) * sps ** L + lowest(L, Np[1], sps)
            sec, cargs = 2, [2, sps, 0, L, N]
        else:
            P = list(p) if isinstance(p, list) else p
            n1 = lambda N, Np: bounded(N, Np, sps)
            s0 = lambda N, Np: lowest(N, Np, sps)
            sec, cargs = 1, [1, sps, 0, N]
        pd = {"Np": P, "get_Ns_pcon": n1, "get_s0_pcon": s0}
        if o.get("table") and not (isinstance(p, list) and (not spec.get("halves") or isinstance(p[0], list))):
            d = m.all_digits()
            ok = [x for x, r in zip(m.digits_to_ints(d), d) if (tuple((int(r[:N // 2].sum()), int(r[N // 2:].sum()))) == P if spec.get("halves") else int(r.sum()) == P)]
            pd["next_state"], pd["next_state_args"] = f["next_table"], arr([len(ok)] + sorted(ok))
        elif spec.get("halves"):
            d = m.all_digits()
            secs = {}
            for x, r in zip(m.digits_to_ints(d), d):
                secs.setdefault((int(r[:N // 2].sum()), int(r[N // 2:].sum())), []).append(x)
            nxt = list(range(sps ** N))
            for v in secs.values():
                v.sort()
                for a, b in zip(v, v[1:]):
                    nxt[a] = b
            pd["next_state"], pd["next_state_args"] = f["next_of"], arr(nxt)
        else:
            pd["next_state"], pd["next_state_args"] = f["next_comp"], arr([sps] + w)
        if o.get("count"):
            pd["n_sectors"], pd["count_particles"], pd["count_particles_args"] = sec, f["count"], np.array(cargs, dtype=np.int32)
        kw["pcon_dict"] = pd
    if o.get("pairs"):
        kw["pre_check_state"] = (f["no_pairs"], arr([sps, len(o["pairs"]), o.get("truth", 1)] + [w[N - 1 - i] for pr in o["pairs"] for i in pr]))
    if o.get("allowed"):
        kw["allowed_ops"] = o["allowed"]
    return user_basis(dt, N, dict(op=f["op"], op_args=arr([kind, sps, int(spec.get("pauli", 1)) % 3])), sps=sps, **kw)
