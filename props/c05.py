"""Quadrature tables hold the Gauss nodes and every rule is the integral it names.

The node tables are read as constants off the value graph of `nodes(method, n)` and compared with the roots of the
orthogonal polynomials and the Christoffel weights, refined to 60 digits; the rules are laws over uninterpreted
integrands."""
from decimal import Decimal as D, getcontext
import laws, vn

MAX = 30
TOLX, TOLW = D('4e-15'), D('2e-12')


def pair(kind, n, x):
    """(p_n, p_n', p_{n-1}) at x"""
    p0, d0 = D(1), D(0)
    for k in range(1, n + 1):
        if kind == 'legendre':
            a, b, c = (D(2 * k - 1) / k, D(0), D(k - 1) / k)
        elif kind == 'hermite':
            a, b, c = D(2), D(0), D(2 * (k - 1))
        else:
            a, b, c = D(-1) / k, D(2 * k - 1) / k, D(k - 1) / k
        q0, e0 = (pm, dm) if k > 1 else (D(0), D(0))
        nx = (a * x + b) * p0 - c * q0
        nd = a * p0 + (a * x + b) * d0 - c * e0
        pm, dm, p0, d0 = p0, d0, nx, nd
    return p0, d0, pm


def weight(kind, n, x):
    p, d, q = pair(kind, n, x)
    if kind == 'legendre':
        return 2 / ((1 - x * x) * d * d)
    if kind == 'hermite':
        f = D(1)
        for k in range(1, n):
            f *= k
        return D(2) ** (n - 1) * f * PI.sqrt() / (n * q * q)       # 2^{n-1} n! sqrt(pi) / (n^2 H_{n-1}^2)
    nxt = pair(kind, n + 1, x)[0]
    return x / (D(n + 1) ** 2 * nxt * nxt)


def pi():
    # Machin
    def at(k):
        x = D(1) / k
        s, t, i = x, x, 1
        while abs(t) > D(10) ** -75:
            t = -t * (x * x)
            i += 2
            s += t / i
        return s
    return 4 * (4 * at(5) - at(239))


getcontext().prec = 80
PI = pi()


def const(f):
    if not isinstance(f, vn.F) or f.q is None:
        return None
    return D(f.q.numerator) / D(f.q.denominator)


def tables(rep):
    prog = laws._prog
    und = 0
    for kind in ('legendre', 'hermite', 'laguerre'):
        for n in range(1, MAX + 1):
            rule = 'Gauss node table'
            key = '%s:%d' % (kind, n)
            try:
                r, st, g = vn.Machine(prog, 1 + rep.seed).analyse('laws::quadrature::h_%s_%d' % (kind, n))
            except (vn.Undecided, vn.Retry, KeyError, TypeError, IndexError, AttributeError) as e:
                und += 1
                print('undecided: table %s: %s' % (key, e))
                continue
            if r is vn.UNDEF or g == 0:
                rep.bad(rule, key, 'nodes(%s, %d) fails' % (kind, n))
                continue
            ln, arr = r[1]
            rows = [(const(t[1][0]), const(t[1][1])) for t in arr[1]]
            if any(a is None or b is None for a, b in rows) or not isinstance(ln, int):
                und += 1
                print('undecided: table %s does not fold to constants' % key)
                continue
            if ln != n:
                rep.bad(rule, key, 'nodes(%s, %d) has %d entries' % (kind, n, ln))
                continue
            seen = []
            worst = (D(0), D(0))
            bad = None
            for i, (w, x) in enumerate(rows):
                z = x
                for _ in range(6):
                    p, d, _q = pair(kind, n, z)
                    z = z - p / d
                ex = abs(z - x) / max(abs(z), D(1))
                ww = weight(kind, n, z)
                ew = abs(w / ww - 1)
                worst = (max(worst[0], ex), max(worst[1], ew))
                if ex > TOLX:
                    bad = 'entry %d: abscissa %s is not a root of the %s polynomial of degree %d (nearest %s)' % (i, float(x), kind, n, float(z))
                elif ew > TOLW:
                    bad = 'entry %d: weight %s should be %s' % (i, float(w), float(ww))
                elif any(abs(z - y) < D('1e-20') for y in seen):
                    bad = 'entry %d: abscissa %s appears twice' % (i, float(x))
                if bad:
                    break
                seen.append(z)
            if bad:
                rep.bad(rule, key, 'nodes(%s, %d) ' % (kind, n) + bad, 'crates/multicalc/src/gaussian_tables/%s.rs' % kind)
            else:
                rep.ok(rule, 'nodes(%s, %d): %d entries within %.1e (abscissa) and %.1e (weight)' % (kind, n, n, worst[0], worst[1]))
    rep.cov['undecided_tables'] = und
    rep.floor('Gauss node table', 45)


def check(rep):
    r = laws.decide(rep, 'quadrature', 32, 'quadrature law')
    tables(rep)
    return __doc__ + ' ' + r
