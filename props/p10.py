from matlib import *
from quatlib import *

META = {
    'title': 'Quaternion arithmetic is the Hamilton algebra',
    'statement': 'Quaternion product is the Hamilton product, the quaternion-vector product is the vector part of multiplying by the pure quaternion, the inverse is the conjugate, negation is componentwise, division undoes multiplication for every nonzero divisor, normalising gives length one (the identity for the zero quaternion), construction normalises unless told not to, lerp is the normalised linear blend, log and exp are the quaternion logarithm of a unit and exponential of a pure quaternion, rotating a vector or axis by a quaternion is applying its rotation matrix, products of unit quaternions compose rotations, and equality, copying, casting and data access are componentwise.',
    'forall': 'every quaternion and vector, float and double',
    'why': 'tests use a few axis-aligned rotations where many wrong sign or operand-order choices cancel; division is not tested at all',
    'files': ['quat.h', 'impl/quat.h', 'impl/mat3.h'],
    'mech': [('operator *, operator /, inverse, normalize, log, exp, rotated', 'impl/quat.h'), ('set(const Quat&)', 'impl/mat3.h')],
}
u = Unit('P10', META['title'])
q4 = lambda v, o, out=False: v.v4(o, out=out)


def out(name, params, body, f):
    u.check(name, params, body, lambda v: v.eqv('', q4(v, 'o', True), f(v), 'o'))


A = lambda v: q4(v, 'a')
B = lambda v: q4(v, 'b')
out('mul', 'a:cQ b:cQ o:Q', 'o = a * b;', lambda v: qmul(A(v), B(v)))
out('neg', 'a:cQ o:Q', 'o = -a;', lambda v: -A(v))
out('inverse', 'a:cQ o:Q', 'o = a.inverse();', lambda v: qconj(A(v)))
out('copy', 'a:cQ o:Q', 'o = a;', A)
out('set', 'a:cQ o:Q', 'o.set(a);', A)
out('from', 'a:cQ o:Q', 'o = Q::from(a);', A)
out('identity', 'o:Q', 'o.setIdentity();', lambda v: V(0, 0, 0, 1))
out('one', 'o:Q', 'o = Q::One;', lambda v: V(0, 0, 0, 1))
out('ctor', 'p:R q:R r:R s:R o:Q', 'o = Q(p, q, r, s);', lambda v: qunit(V(*[v.arg(x) for x in 'pqrs'])))
out('ctor_true', 'p:R q:R r:R s:R o:Q', 'o = Q(p, q, r, s, true);', lambda v: qunit(V(*[v.arg(x) for x in 'pqrs'])))
out('ctor_raw', 'p:R q:R r:R s:R o:Q', 'o = Q(p, q, r, s, false);', lambda v: V(*[v.arg(x) for x in 'pqrs']))
out('normalize', 'a:cQ o:Q', 'o.set(a); o.normalize();', lambda v: qunit(A(v)))
u.check('normalize_self', 'a:Q', 'a.normalize();', lambda v: v.eqv('', q4(v, 'a', True), qunit(A(v)), 'a'))
u.check('div', 'a:cQ b:cQ o:Q', 'o = a / b;', lambda v: dict(pre=length(B(v)).ne(0), claims=v.eqv('', q4(v, 'o', True), qmul(A(v), qconj(B(v))) / len2(B(v)), 'o')))
u.check('div_undoes_mul', 'a:cQ b:cQ o:Q', 'o = (a * b) / b;', lambda v: dict(pre=length(B(v)).ne(0), claims=v.eqv('', q4(v, 'o', True), A(v), 'o')))
out('mul_inverse', 'a:cQ o:Q', 'o = a * a.inverse();', lambda v: V(0, 0, 0, len2(A(v))))
out('assoc', 'a:cQ b:cQ c:cQ o:Q', 'o = (a * b) * c;', lambda v: qmul(A(v), qmul(B(v), q4(v, 'c'))))
u.check('mul_vec', 'a:cQ b:cV3 o:V3', 'o = a * b;', lambda v: v.eqv('', v.v3('o', out=True), Vn(qmul(A(v), V(*v.v3('b'), 0))[:3]), 'o'))
u.check('eq', 'a:cQ b:cQ', 'return a == b;', lambda v: [Eq('==', v.ret, all_(*[x.eq(y) for x, y in zip(A(v), B(v))]))], ret='bool')
u.check('ne', 'a:cQ b:cQ', 'return a != b;', lambda v: [Eq('!=', v.ret, ~all_(*[x.eq(y) for x, y in zip(A(v), B(v))]))], ret='bool')
for i, c in enumerate('xyzw'):
    u.check('data_%s' % c, 'a:cQ', 'return a.data()[%d];' % i, lambda v, i=i: [Eq('data', v.ret, A(v)[i])], ret='R')
    u.check('data_w_%s' % c, 'a:Q k:R', 'a.data()[%d] = k;' % i, lambda v, i=i: v.eqv('', q4(v, 'a', True), Vn(v.arg('k') if j == i else A(v)[j] for j in range(4)), 'a'))
for form, b in (('lerp', 'o.lerp(a, b, k);'), ('fromLerp', 'o = Q::fromLerp(a, b, k);')):
    u.check(form, 'a:cQ b:cQ k:R o:Q', b, lambda v: v.eqv('', q4(v, 'o', True), nlerp(A(v), B(v), v.arg('k')), 'o'))


def logs(v):
    a = A(v)
    th = fn('acos', a[3])
    s = sin(th)
    return dict(pre=a[3] * a[3] <= 1, claims=v.eqv('', q4(v, 'o', True), vite(s.eq(0), V(0, 0, 0, 0), V(*[th * a[i] / s for i in range(3)], 0)), 'o'))


def exps(v):
    a = Vn(A(v)[:3])
    l = length(a)
    return v.eqv('', q4(v, 'o', True), vite(l.eq(0), V(0, 0, 0, 1), V(*[sin(l) * x / l for x in a], cos(l))), 'o')


u.check('log', 'a:cQ o:Q', 'o = Q::log(a);', logs)
u.check('exp', 'a:cQ o:Q', 'o = Q::exp(a);', exps)
for i, c in enumerate('XYZ'):
    u.check('rotated_%s' % c, 'a:cQ o:V3', 'o = a.rotated(%s%s);' % (C, c), lambda v, i=i: v.eqv('', v.v3('o', out=True), qmat(A(v)).cols()[i], 'o'))
u.check('rotated', 'a:cQ b:cV3 o:V3', 'o = a.rotated(b);', lambda v: v.eqv('', v.v3('o', out=True), qmat(A(v)) * v.v3('b'), 'o'))
u.check('compose', 'a:cQ b:cQ o:M3', 'Q m(a), n(b); m.normalize(); n.normalize(); o.set(m * n);', lambda v: v.eqm('', v.m3('o', out=True), qmat(qunit(A(v))) * qmat(qunit(B(v))), 'o'))
u.check('inverse_transposes', 'a:cQ o:M3', 'o.set(a.inverse());', lambda v: v.eqm('', v.m3('o', out=True), qmat(A(v)).t(), 'o'))
u.check('neg_same_rotation', 'a:cQ o:M3', 'o.set(-a);', lambda v: v.eqm('', v.m3('o', out=True), qmat(A(v)), 'o'))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
