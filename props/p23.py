from matlib import *

META = {
    'title': 'Linear solvers: a reported solution solves the system',
    'statement': 'When TriDiagonal::solve, TriDiagonal::solveCyclic or GaussJordan::solve returns true, the vector it delivers satisfies every equation of the given system, and GaussJordan additionally replaces the matrix by its inverse. A singular matrix is always reported with false; diagonally dominant tridiagonal systems are always solved, GaussJordan solves every regular matrix (checked for one and two unknowns), and TriDiagonal::solve gives up only when a leading principal minor is zero. The documented input arrays are not modified, no array is accessed outside its bounds, and every temporary array is released exactly once on every path.',
    'forall': 'every real coefficient and right-hand side, any pivot order, up to 4 unknowns (tridiagonal, cyclic) and 3 unknowns (Gauss-Jordan, up to 3 right-hand sides), float and double',
    'why': 'tests solve a few float systems of two to four unknowns; pivoting orders, singular periodic systems, the precision of double matrices and the temporary arrays on failing paths are not covered',
    'files': ['linearequations.h', 'impl/linearequations.h'],
    'mech': [('TriDiagonal', 'impl/linearequations.h'), ('GaussJordan', 'impl/linearequations.h')],
}
u = Unit('P23', META['title'])
u.prelude += 'template <class T> struct VA { mathlib::Vec3<T> v[4]; };\ntemplate <class T> struct VB { mathlib::Vec2<T> v[4]; };\n'
u.types['A'] = ('VA<T>', ['v[%d].%s' % (i, c) for i in range(4) for c in 'xyz'])
u.types['B'] = ('VB<T>', ['v[%d].%s' % (i, c) for i in range(4) for c in 'xy'])


def cells(v, o, n, out=False):
    """the first n numbers of an argument array of plain numbers"""
    s = v._s
    ob = s.objs[o]
    sz = 4 if s.sfx == 'f' else 8
    r = []
    for k in range(n):
        nm = '%s[%d]' % (o, k)
        c = s.mem.get(ob, {}).get(k * sz) if out else None
        x = var(nm) if c is None else c[1]
        r.append(q(0) if isinstance(x, N) and x.k == 'ic' and x.a[0] == 0 else x)
    return r


def same(v, **names):
    r = []
    for o, n in names.items():
        r += [Eq('%s[%d] is not modified' % (o, k), x, y) for k, (x, y) in enumerate(zip(cells(v, o, n, True), cells(v, o, n)))]
    return r


def given(c, label, got, want):
    """got == want wherever c holds"""
    return Eq(label, ite(c, got, q(0)), ite(c, want, q(0)))


def tri(a, b, c, n, alpha=None, beta=None):
    m = [[q(0)] * n for _ in range(n)]
    for i in range(n):
        m[i][i] = b[i]
        if i + 1 < n:
            m[i + 1][i] = a[i]
            m[i][i + 1] = c[i]
    if alpha is not None:
        m[n - 1][0] = m[n - 1][0] + alpha
        m[0][n - 1] = m[0][n - 1] + beta
    return m


def times(m, x):
    r = []
    for row in m:
        t = q(0)
        for a, b in zip(row, x):
            t = t + a * b
        r.append(t)
    return r


def det(m):
    if not m:
        return q(1)
    r = q(0)
    for j, e in enumerate(m[0]):
        if e.k == 'q' and e.a[0] == 0:
            continue
        d = e * det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + d if j % 2 == 0 else r - d
    return r


def dominant(n, cyc):
    """a strictly diagonally dominant matrix with negative entries beside the diagonal: slack s, magnitudes o"""
    s, a, c, al, be = ['s%d' % i for i in range(n)], ['oa%d' % i for i in range(n - 1)], ['oc%d' % i for i in range(n - 1)], 'al', 'be'
    row = []
    for i in range(n):
        t = [s[i]] + ([a[i - 1]] if i else []) + ([c[i]] if i < n - 1 else [])
        if cyc and i == 0:
            t.append(be)
        if cyc and i == n - 1:
            t.append(al)
        row.append(' + '.join(t))
    names = s + a + c + ([al, be] if cyc else [])
    lst = lambda l: '{%s}' % ', '.join(l) if l else '{R(0)}'
    body = 'R a[] = %s, b[] = %s, c[] = %s, r[%d] = {}, x[%d]; ' % (lst(['-' + k for k in a]), lst(row), lst(['-' + k for k in c]), n, n)
    call = 'solveCyclic(a, b, c, -al, -be, r, x, %d)' % n if cyc else 'solve(a, b, c, r, x, %d)' % n
    return ' '.join(k + ':R' for k in names), body + 'return mathlib::TriDiagonal<R>::%s;' % call, names, s


def dom_spec(v, names, slack):
    pre = all_(*[v.arg(k) > 0 if k in slack else v.arg(k) >= 0 for k in names])
    return dict(pre=pre, claims=[Eq('a diagonally dominant system is solved', v.ret, T)])


for n in range(1, 5):
    # numbers on the right-hand side
    f = u.fn('tri_%d' % n, 'a:cRp b:cRp c:cRp r:cRp x:Rp', 'return mathlib::TriDiagonal<R>::solve(a, b, c, r, x, %d);' % n, 'bool')

    def solved(v, n=n):
        m = tri(cells(v, 'a', n - 1), cells(v, 'b', n), cells(v, 'c', n - 1), n)
        return [given(v.ret, 'equation %d' % i, g, w) for i, (g, w) in enumerate(zip(times(m, cells(v, 'x', n, True)), cells(v, 'r', n)))]
    u.ob('tri_%d_solved' % n, f, solved)
    minors = lambda v, n: [det([row[:k] for row in tri(cells(v, 'a', n - 1), cells(v, 'b', n), cells(v, 'c', n - 1), n)[:k]]) for k in range(1, n + 1)]
    u.ob('tri_%d_refused' % n, f, lambda v, n=n: [Eq('gives up exactly when a leading principal minor is zero', v.ret, all_(*[d.ne(0) for d in minors(v, n)]))])
    u.ob('tri_%d_inputs' % n, f, lambda v, n=n: same(v, a=n - 1, b=n, c=n - 1, r=n) + v.nofault(a=n - 1, b=n, c=n - 1, r=n, x=n))
    # vectors on the right-hand side
    f = u.fn('tri3_%d' % n, 'a:cRp b:cRp c:cRp r:A x:A', 'return mathlib::TriDiagonal<R>::solve(a, b, c, r.v, x.v, %d);' % n, 'bool')
    for k in 'xyz':
        def solved3(v, n=n, k=k):
            m = tri(cells(v, 'a', n - 1), cells(v, 'b', n), cells(v, 'c', n - 1), n)
            x = [v.cell('x', 'v[%d].%s' % (i, k), 'out') for i in range(n)]
            r = [v.cell('r', 'v[%d].%s' % (i, k), 'in') for i in range(n)]
            return [given(v.ret, 'equation %d.%s' % (i, k), g, w) for i, (g, w) in enumerate(zip(times(m, x), r))]
        u.ob('tri3_%d_solved_%s' % (n, k), f, solved3)
    u.ob('tri3_%d_refused' % n, f, lambda v, n=n: [Eq('gives up exactly when a leading principal minor is zero', v.ret, all_(*[d.ne(0) for d in minors(v, n)]))])
    u.ob('tri3_%d_inputs' % n, f, lambda v, n=n: same(v, a=n - 1, b=n, c=n - 1) + v.nofault(a=n - 1, b=n, c=n - 1, r=3 * n, x=3 * n) +
         sum([v.eqv('r[%d] is not modified' % i, v.v3('r', 'v[%d]' % i, True), v.v3('r', 'v[%d]' % i)) for i in range(n)], []))
    p, body, names, slack = dominant(n, False)
    u.check('tri_%d_dominant' % n, p, body, lambda v, names=names, slack=slack: dom_spec(v, names, slack), 'bool')

for n in (1, 2):
    u.check('cyclic_%d' % n, 'a:cRp b:cRp c:cRp al:R be:R r:cRp x:Rp', 'return mathlib::TriDiagonal<R>::solveCyclic(a, b, c, al, be, r, x, %d);' % n,
            lambda v, n=n: [Eq('refused', v.ret, F)] + same(v, a=0, b=n, c=0, r=n, x=n) + v.nofault(a=n - 1, b=n, c=n - 1, r=n, x=n), 'bool')
for n in (3, 4, 5):
    f = u.fn('cyclic_%d' % n, 'a:cRp b:cRp c:cRp al:R be:R r:cRp x:Rp', 'return mathlib::TriDiagonal<R>::solveCyclic(a, b, c, al, be, r, x, %d);' % n, 'bool')
    mat = lambda v, n: tri(cells(v, 'a', n - 1), cells(v, 'b', n), cells(v, 'c', n - 1), n, v.arg('al'), v.arg('be'))
    for i in range(n):
        u.ob('cyclic_%d_equation_%d' % (n, i), f, lambda v, n=n, i=i: [given(v.ret, 'equation %d' % i, times(mat(v, n), cells(v, 'x', n, True))[i], cells(v, 'r', n)[i])])
    u.ob('cyclic_%d_singular' % n, f, lambda v, n=n: [Holds('a singular system is refused', ~v.ret | det(mat(v, n)).ne(0))])
    u.ob('cyclic_%d_inputs' % n, f, lambda v, n=n: same(v, a=n - 1, b=n, c=n - 1, r=n) + v.nofault(a=n - 1, b=n, c=n - 1, r=n, x=n))
    p, body, names, slack = dominant(n, True)
    u.check('cyclic_%d_dominant' % n, p, body, lambda v, names=names, slack=slack: dom_spec(v, names, slack), 'bool')


def rows(v, n, m, o, out=False):
    if o == 'b' and 'B' in kind_of(v):
        return [[v.cell('b', 'v[%d].%s' % (i, c), 'out' if out else 'in') for c in 'xyz'[:m]] for i in range(n)]
    c = cells(v, o, n * m, out)
    return [c[i * m:(i + 1) * m] for i in range(n)]


def kind_of(v):
    return 'B' if v._s.objs['b'].tname in ('A', 'B') else ''


def gj(v, n, m, what):
    memo = {}
    # above two unknowns the outcome of each pivot comparison is left open: the claims hold for any pivot order
    o = (lambda e: opaque(e, memo)) if n > 2 else (lambda e: e)
    a0, b0 = rows(v, n, n, 'a'), rows(v, n, m, 'b')
    a1, b1 = [[o(e) for e in r] for r in rows(v, n, n, 'a', True)], [[o(e) for e in r] for r in rows(v, n, m, 'b', True)]
    ret = o(v.ret)
    if what == 'solved':
        return [given(ret, 'equation %d, right-hand side %d' % (i, k), g, b0[i][k]) for k in range(m) for i, g in enumerate(times(a0, [b1[j][k] for j in range(n)]))]
    if what == 'inverse':
        return [given(ret, 'A * A^-1 [%d][%d]' % (i, k), g, q(i == k)) for k in range(n) for i, g in enumerate(times(a0, [a1[j][k] for j in range(n)]))]
    if what == 'singular':
        d = det(a0)
        if n > 2:
            return [Holds('a singular matrix is refused', ~ret | d.ne(0))]
        return [Eq('refused exactly when singular', ret, d.ne(0))]
    return v.nofault(a=n * n, b=n * m if not kind_of(v) else n * m)


for n in (1, 2, 3):
    for m in (1, 2, 3):
        f = u.fn('gauss_%d_%d' % (n, m), 'a:Rp b:Rp', 'return mathlib::GaussJordan<R>::solve(a, %d, b, %d);' % (n, m), 'bool')
        for what in ('solved', 'inverse', 'singular', 'memory'):
            u.ob('gauss_%d_%d_%s' % (n, m, what), f, lambda v, n=n, m=m, what=what: gj(v, n, m, what))
    for m, t in ((2, 'B'), (3, 'A')):
        f = u.fn('gaussv%d_%d' % (m, n), 'a:Rp b:' + t, 'return mathlib::GaussJordan<R>::solve(a, %d, b.v);' % n, 'bool')
        for what in ('solved', 'inverse', 'singular', 'memory'):
            u.ob('gaussv%d_%d_%s' % (m, n, what), f, lambda v, n=n, m=m, what=what: gj(v, n, m, what))


# longer systems: fixed regular matrices, every right-hand side; and the arrays for any matrix
COEF = lambda n: ([q(1 + i % 3) for i in range(n)], [q(7 + i % 2) for i in range(n)], [q(2 - i % 4) for i in range(n)])


def long_spec(v, n, m, w, coef, al=None, be=None):
    x, r = cells(v, 'x', n * w, True), cells(v, 'r', n * w)
    res = [Eq('solved', v.ret, T)] + v.nofault(x=n * w, r=n * w) + same(v, r=n * w)
    for k in range(w):
        res += [Eq('equation %d.%d' % (i, k), g, r[i * w + k]) for i, g in enumerate(times(m, x[k::w][:n]))]
    return dict(pre=fixed(v, a=coef[0], b=coef[1], c=coef[2], al=al, be=be), claims=res)


def fixed(v, **given):
    """the named inputs have these values"""
    r = T
    for o, vals in given.items():
        if vals is None:
            continue
        if not isinstance(vals, list):
            r = r & v.arg(o).eq(vals)
        else:
            for x, c in zip(cells(v, o, len(vals)), vals):
                r = r & x.eq(c)
    return r


def anything(v, **arrays):
    """memory claims whatever the comparisons of numbers say"""
    memo = {}
    cl = v.nofault(**arrays)
    for c in cl:
        c.cond = opaque(c.cond, memo, lambda x: True)
    return cl


for n in (5, 8, 12):
    a, b, c = COEF(n)
    co = (a[:n - 1], b, c[:n - 1])
    u.check('tri_%d_long' % n, 'a:cRp b:cRp c:cRp r:cRp x:Rp', 'return mathlib::TriDiagonal<R>::solve(a, b, c, r, x, %d);' % n, lambda v, n=n, m=tri(a, b, c, n), co=co: long_spec(v, n, m, 1, co), 'bool')
    if n < 10:
        u.check('tri3_%d_long' % n, 'a:cRp b:cRp c:cRp r:cRp x:Rp', 'return mathlib::TriDiagonal<R>::solve(a, b, c, (const mathlib::Vec3<R>*)r, (mathlib::Vec3<R>*)x, %d);' % n, lambda v, n=n, m=tri(a, b, c, n), co=co: long_spec(v, n, m, 3, co), 'bool')
    for al, be in ((2, 3), (0, 3), (2, 0), (0, 0)):
        u.check('cyclic_%d_%d%d_long' % (n, al, be), 'a:cRp b:cRp c:cRp al:R be:R r:cRp x:Rp', 'return mathlib::TriDiagonal<R>::solveCyclic(a, b, c, al, be, r, x, %d);' % n, lambda v, n=n, m=tri(a, b, c, n, q(al), q(be)), co=co, al=al, be=be: long_spec(v, n, m, 1, co, al, be), 'bool')
    for w, t in ((1, 'b'), (3, 'Vec3')):
        u.check('%s_%d_memory' % (('tri', 'tri3')[w > 1], n), 'a:cRp b:cRp c:cRp r:cRp x:Rp', 'return mathlib::TriDiagonal<R>::solve(a, b, c, %s, %d);' % ('r, x' if w == 1 else '(const mathlib::Vec3<R>*)r, (mathlib::Vec3<R>*)x', n),
                lambda v, n=n, w=w: anything(v, a=n - 1, b=n, c=n - 1, r=min(32, n * w), x=min(32, n * w)), 'bool') if n * w <= 32 else None
    u.check('cyclic_%d_memory' % n, 'a:cRp b:cRp c:cRp al:R be:R r:cRp x:Rp', 'return mathlib::TriDiagonal<R>::solveCyclic(a, b, c, al, be, r, x, %d);' % n,
            lambda v, n=n: anything(v, a=n - 1, b=n, c=n - 1, r=n, x=n), 'bool')

# regular matrices that need row interchanges, every right-hand side
for n in (3, 4, 5):
    for shift in (0, 1, 2):
        m = [[q((3 * i * i + 5 * j * (i + 1) + 7 * ((i + shift) % n == j) * 9) % 17 - 6) for j in range(n)] for i in range(n)]

        def gspec(v, n=n, m=m):
            x, r = cells(v, 'b', n, True), cells(v, 'b', n)
            inv = cells(v, 'a', n * n, True)
            return dict(pre=fixed(v, a=sum(m, [])), claims=[Eq('solved', v.ret, T)] + v.nofault(b=n, a=n * n) + [Eq('equation %d' % i, g, r[i]) for i, g in enumerate(times(m, x))] + \
                [Eq('A * A^-1 [%d][%d]' % (i, k), g, q(i == k)) for k in range(n) for i, g in enumerate(times(m, inv[k::n]))])
        u.check('gauss_%d_fixed_%d' % (n, shift), 'a:Rp b:Rp', 'return mathlib::GaussJordan<R>::solve(a, %d, b, 1);' % n, gspec, 'bool')


LONG, SQUARE = 70001, 130       # unknowns of a tridiagonal system, of a full one


def long_systems(unit):
    """The solvers with more unknowns than any unrolling reaches: no access leaves its array, every unknown is stored."""
    import scev
    forms = []
    for real, w in (('float', 4), ('double', 8)):
        n = LONG
        tri = {'a': (n - 1) * w, 'b': n * w, 'c': (n - 1) * w}
        abc = 'const %s* a, const %s* b, const %s* c' % (real, real, real)
        forms += [('TriDiagonal::solve(scalars)', real, '%s, const %s* r, %s* u' % (abc, real, real), 'TriDiagonal<%s>::solve(a, b, c, r, u, %d)' % (real, n), dict(tri, r=n * w, u=n * w), {'u': n * w}),
                  ('TriDiagonal::solve(vectors)', real, '%s, const Vec3<%s>* r, Vec3<%s>* u' % (abc, real, real), 'TriDiagonal<%s>::solve(a, b, c, r, u, %d)' % (real, n), dict(tri, r=3 * n * w, u=3 * n * w), {'u': 3 * n * w}),
                  ('TriDiagonal::solveCyclic', real, '%s, %s alpha, %s beta, const %s* r, %s* u' % (abc, real, real, real, real), 'TriDiagonal<%s>::solveCyclic(a, b, c, alpha, beta, r, u, %d)' % (real, n), dict(tri, r=n * w, u=n * w), {'u': n * w})]
        n = SQUARE
        forms += [('GaussJordan::solve(columns)', real, '%s* a, %s* b' % (real, real), 'GaussJordan<%s>::solve(a, %d, b, 2)' % (real, n), {'a': n * n * w, 'b': 2 * n * w}, {})]
        for k in (2, 3):
            forms += [('GaussJordan::solve(Vec%d)' % k, real, '%s* a, Vec%d<%s>* b' % (real, k, real), 'GaussJordan<%s>::solve(a, %d, b)' % (real, n), {'a': n * n * w, 'b': k * n * w}, {})]
    return scev.long_systems(unit, forms, 'linear solvers')


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '', extra_rules=(long_systems,))
