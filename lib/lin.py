"""Linear integer expressions over hash-consed terms and a small polyhedral entailment test
(Fourier-Motzkin with integer tightening).  A linear fact `e` means  e >= 0."""
from array import array
from math import gcd

# A Lin is (const, ((term, coef), ...)) with terms sorted by id and coef != 0.
ZERO = (0, ())


def const(c):
    return (c, ())


def var(t, k=1):
    return (0, ((t, k),))


def add(a, b, kb=1):
    if not b[1]:
        return (a[0] + kb * b[0], a[1])
    if not a[1] and kb == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for t, c in b[1]:
        n = d.get(t, 0) + kb * c
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return (a[0] + kb * b[0], tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return (-a[0], tuple((t, -c) for t, c in a[1]))


def scale(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((t, c * k) for t, c in a[1]))


def addc(a, c):
    return (a[0] + c, a[1])


def is_const(a):
    return not a[1]


def normalize(f):
    """integer tightening of f >= 0"""
    if not f[1]:
        return f
    g = 0
    for _, c in f[1]:
        g = gcd(g, c)
        if g == 1:
            return f
    return (f[0] // g, tuple((t, c // g) for t, c in f[1]))


def subst(a, m):
    """m: term -> Lin (or missing = keep)"""
    hit = False
    for t, _ in a[1]:
        if t in m:
            hit = True
            break
    if not hit:
        return a
    r = (a[0], tuple((t, c) for t, c in a[1] if t not in m))
    for t, c in a[1]:
        if t in m:
            r = add(r, m[t], c)
    return r


LIMIT = 900


_lib = None


def _load():
    global _lib, _reg, _query
    import ctypes
    import ctx
    _lib = ctypes.CDLL(ctx.build_fm())
    _reg = _lib.fm_register
    _reg.restype = ctypes.c_uint32
    _reg.argtypes = [ctypes.c_uint32, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int64]
    _query = _lib.fm_query
    _query.restype = ctypes.c_int32
    _query.argtypes = [ctypes.c_uint32, ctypes.c_char_p]


def infeasible(cons):
    """True if the conjunction of cons (each >= 0) has no rational solution (after integer tightening)"""
    if _lib is None:
        _load()
    ids = []
    for f in cons:
        i = _ids.get(f)
        if i is None:
            i = _register(f)
        if i == -1:
            return True
        if i >= 0:
            ids.append(i)
        elif i == -3:
            return infeasible_py(cons)
    if not ids:
        return False
    return _query(len(ids), array('I', ids).tobytes()) != 0


_ids = {}


def _register(f):
    c0, ts = f
    if not ts:
        i = -1 if c0 < 0 else -2
    else:
        try:
            i = _reg(len(ts), array('I', [t for t, _ in ts]).tobytes(), array('q', [c for _, c in ts]).tobytes(),
                     c0 & 0xffffffffffffffff, c0 >> 64)
        except (OverflowError, TypeError):
            i = -3
    _ids[f] = i
    return i


def infeasible_py(cons):
    """True if the conjunction of cons (each >= 0) has no rational solution (after integer
    tightening). May return False when it gives up."""
    work = set()
    for f in cons:
        f = normalize(f)
        if not f[1]:
            if f[0] < 0:
                return True
            continue
        work.add(f)
    work = list(work)
    steps = 0
    while work:
        # pick variable with fewest product
        pos = {}
        ng = {}
        for f in work:
            for t, c in f[1]:
                if c > 0:
                    pos[t] = pos.get(t, 0) + 1
                else:
                    ng[t] = ng.get(t, 0) + 1
        best = None
        for t in set(pos) | set(ng):
            p, n = pos.get(t, 0), ng.get(t, 0)
            cost = p * n - p - n
            if best is None or (cost, t) < best:
                best = (cost, t)
        t = best[1]
        P = []
        N = []
        R = {}
        for f in work:
            c = dict(f[1]).get(t, 0)
            if c > 0:
                P.append((f, c))
            elif c < 0:
                N.append((f, -c))
            else:
                k = f[1]
                if k not in R or R[k] > f[0]:
                    R[k] = f[0]
        for f, a in P:
            for g, b in N:
                l = gcd(a, b)
                h = add(scale(f, b // l), scale(g, a // l))
                h = normalize(h)
                if not h[1]:
                    if h[0] < 0:
                        return True
                    continue
                k = h[1]
                if k not in R or R[k] > h[0]:
                    R[k] = h[0]
        work = [(c, k) for k, c in R.items()]
        if len(work) > LIMIT:
            return False
        steps += 1
        if steps > 200:
            return False
    return False
