"""Exact multivariate polynomial arithmetic over Q.

A monomial is a tuple of (atom_id, exponent) pairs sorted by atom_id; a
polynomial is a dict {monomial: int | Fraction} without zero coefficients.
Polynomials are treated as immutable once built.
"""
from fractions import Fraction

ONE_M = ()


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = _norm(c)
    return {ONE_M: c} if c != 0 else {}


def var(i):
    return {((i, 1),): 1}


ZERO = {}
ONE = {ONE_M: 1}


def is_const(p):
    return not p or (len(p) == 1 and ONE_M in p)


def const_val(p):
    return p.get(ONE_M, 0)


def add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


def neg(a):
    return {m: -c for m, c in a.items()}


def sub(a, b):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


_mmcache = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mmcache.get(k)
    if r is not None:
        return r
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    if len(_mmcache) > 2000000:
        _mmcache.clear()
    _mmcache[k] = r
    return r


class TooBig(Exception):
    pass


LIMIT = 400000


def mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and ONE_M in a:
        return scale(b, a[ONE_M])
    if len(b) == 1 and ONE_M in b:
        return scale(a, b[ONE_M])
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig("polynomial product too large (%d x %d terms)" % (len(a), len(b)))
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m)
            if v is None:
                r[m] = c1 * c2
            else:
                r[m] = v + c1 * c2
    r = {m: _norm(c) for m, c in r.items() if c != 0}
    if len(r) > LIMIT:
        raise TooBig("polynomial too large (%d terms)" % len(r))
    return r


def powi(a, n):
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def atoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def degree_in(p, a):
    d = 0
    for m in p:
        for x, e in m:
            if x == a and e > d:
                d = e
    return d


def subst(p, a, q):
    """replace atom a by polynomial q"""
    if not any(x == a for m in p for x, _ in m):
        return p
    r = {}
    pw = {0: ONE, 1: q}
    for m, c in p.items():
        e = 0
        rest = []
        for x, k in m:
            if x == a:
                e = k
            else:
                rest.append((x, k))
        if e == 0:
            r = add(r, {m: c})
        else:
            if e not in pw:
                pw[e] = powi(q, e)
            r = add(r, mul({tuple(rest): c}, pw[e]))
    return r


def content(p):
    """positive rational content of p (gcd of coefficients)"""
    from math import gcd
    n = 0
    d = 1
    for c in p.values():
        if type(c) is Fraction:
            n = gcd(n, abs(c.numerator))
            d = d * c.denominator // gcd(d, c.denominator)
        else:
            n = gcd(n, abs(c))
    return _norm(Fraction(n, d)) if n else 0


def mono_content(p):
    """greatest monomial dividing every term"""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        if not g:
            return ()
        d = dict(m)
        for a in list(g):
            e = min(g[a], d.get(a, 0))
            if e:
                g[a] = e
            else:
                del g[a]
    return tuple(sorted(g.items()))


def mono_div(m, d):
    if not d:
        return m
    dd = dict(d)
    out = []
    for a, e in m:
        e2 = e - dd.get(a, 0)
        if e2:
            out.append((a, e2))
    return tuple(out)


def div_mono(p, d):
    if not d:
        return p
    return {mono_div(m, d): c for m, c in p.items()}


def lead(p):
    return max(p)


def key(p):
    return frozenset(p.items())


def canon_sign(p):
    """(q, k): q primitive with positive leading coefficient, p = k*q (k rational, may be <0)"""
    c = content(p)
    if p[lead(p)] < 0:
        c = -c
    if c == 1:
        return p, 1
    return {m: _norm(Fraction(v) / c) if (type(v) is Fraction or type(c) is Fraction or v % c) else v // c
            for m, v in p.items()}, c


def try_div(p, d):
    """exact division p / d or None (multivariate, lex leading terms)"""
    if not d:
        return None
    if not p:
        return {}
    ld = _lexlead(d)
    cd = d[ld]
    q = {}
    r = dict(p)
    n = 0
    while r:
        lr = _lexlead(r)
        m = _mono_try_div(lr, ld)
        if m is None:
            return None
        c = _norm(Fraction(r[lr]) / cd)
        q[m] = c
        for dm, dc in d.items():
            mm = mmul(dm, m)
            v = r.get(mm, 0) - c * dc
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
        n += 1
        if n > 5000:
            return None
    return q


def _lexkey(m):
    # lex order with atoms ascending: larger exponent of smaller atom id is larger
    return m


def _lexcmp_key(m):
    # produce tuple comparable for lex order: use negative ids so small ids dominate
    return tuple((-a, e) for a, e in m)


def _lexlead(p):
    return max(p, key=_lexcmp_key)


def _mono_try_div(m, d):
    dm = dict(m)
    for a, e in d:
        if dm.get(a, 0) < e:
            return None
    return mono_div(m, d)


def sqrt_exact(p):
    """polynomial square root of p, or None.  Leading-term algorithm under lex order."""
    if not p:
        return {}
    l = _lexlead(p)
    for _, e in l:
        if e % 2:
            return None
    c = Fraction(p[l])
    if c < 0:
        return None
    from math import isqrt
    sn, sd = isqrt(c.numerator), isqrt(c.denominator)
    if sn * sn != c.numerator or sd * sd != c.denominator:
        return None
    r0 = {tuple((a, e // 2) for a, e in l): _norm(Fraction(sn, sd))}
    lm = next(iter(r0))
    lc = r0[lm]
    r = dict(r0)
    n = 0
    while True:
        rem = sub(p, mul(r, r))
        if not rem:
            return r
        lr = _lexlead(rem)
        m = _mono_try_div(lr, lm)
        if m is None:
            return None
        c = _norm(Fraction(rem[lr]) / (2 * lc))
        if _lexcmp_key(m) >= _lexcmp_key(lm):
            return None
        r = add(r, {m: c})
        n += 1
        if n > 60:
            return None


def sos_quadratic(p):
    """If p is a quadratic form (homogeneous degree 2, or degree<=2 affine) that is positive
    semidefinite, return (forms, rest) with p = sum c_i*form_i^2 + rest, c_i>0 and rest a
    non-negative constant; else None.  Atoms are treated as independent variables."""
    for m in p:
        if sum(e for _, e in m) > 2:
            return None
    forms = []
    r = p
    for _ in range(64):
        vs = atoms(r)
        if not vs:
            c = const_val(r)
            return (forms, c) if c >= 0 else None
        # choose an atom with a square term
        pick = None
        for a in sorted(vs):
            if ((a, 2),) in r:
                pick = a
                break
        if pick is None:
            return None
        a = pick
        c2 = r[((a, 2),)]
        if c2 < 0:
            return None
        lin = {}
        for m, c in r.items():
            if any(x == a for x, _ in m) and m != ((a, 2),):
                rest = tuple(x for x in m if x[0] != a)
                if len(rest) and sum(e for _, e in rest) > 1:
                    return None
                lin[rest] = _norm(Fraction(c) / (2 * c2))
        form = add(var(a), lin)
        forms.append((c2, form))
        r = sub(r, scale(mul(form, form), c2))
    return None


def eval_num(p, env):
    s = 0
    for m, c in p.items():
        t = c
        for a, e in m:
            t = t * env[a] ** e
        s += t
    return s
