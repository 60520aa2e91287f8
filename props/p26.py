import re
from apilib import *
import frange

META = {
    'title': 'Every declared operation exists and yields fully initialised results',
    'statement': 'Every public operation the headers declare is defined and can be instantiated for float and double, and every number it returns or writes (all components of the object, every flag word, every output argument it sets, every element of an output array) is computed from its arguments on every path: nothing depends on an uninitialised value, neither a result nor a decision. Default constructors, which leave the components to be filled in, are the only exception; enumeration arguments are those the operation accepts.',
    'forall': 'every public function, constructor and operator (all overloads, with and without default arguments), every accepted enumerator, every input value, float and double',
    'why': 'an uninitialised component often happens to hold the right value in a test; a branch that forgets one component or flag word shows only on the inputs that take it',
    'files': ['vec2.h', 'vec3.h', 'vec4.h', 'quat.h', 'mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'plane.h', 'sphere.h', 'circle.h', 'line2.h', 'line3.h', 'ray2.h', 'ray3.h', 'aabb2.h', 'aabb3.h', 'caabb2.h', 'caabb3.h', 'spline3.h', 'frustum.h', 'tri2.h', 'functions.h', 'interpolation.h', 'colorrgb.h', 'colorrgba.h', 'colorhsv.h'],
    'mech': [('set', 'impl/mat3.h'), ('intersects, hits', 'impl/aabb3.h'), ('constructors', 'impl/quat.h')],
}
u = Unit('P26', META['title'])
skipped = []
DFLT = {}


def und(rg, n, env, path=()):
    """a path of choices on which the value of n depends on something uninitialised, or None"""
    if n.k == 'undef':
        return path
    if not frange.has_undef(n):
        return None
    if n.k == 'ite':
        p = und(rg, n.a[0], env, path)
        if p is not None:
            return p
        for v, e in rg.branches(n, env):
            p = und(rg, v, e, path + ((n.a[0], v is n.a[1]),))
            if p is not None:
                return p
        return None
    if n.k in ('and', 'or'):
        for x in n.a:
            p = und(rg, x, env, path)
            if p is not None:
                return p
            env = rg.refine(x, n.k == 'and', env)
            if env is None:
                return None
        return None
    for x in n.a:
        if isinstance(x, N):
            p = und(rg, x, env, path)
            if p is not None:
                return p
    return None


def reaches(n, memo):
    """the condition on which the value of n depends on something uninitialised"""
    if n.k == 'undef':
        return T
    if not frange.has_undef(n):
        return F
    r = memo.get(n.id)
    if r is None:
        if n.k == 'ite':
            r = or_(reaches(n.a[0], memo), ite(n.a[0], reaches(n.a[1], memo), reaches(n.a[2], memo)))
        elif n.k in ('and', 'or'):
            r = or_(reaches(n.a[0], memo), and_(n.a[0] if n.k == 'and' else not_(n.a[0]), reaches(n.a[1], memo)))
        else:
            r = F
            for x in n.a:
                if isinstance(x, N):
                    r = or_(r, reaches(x, memo))
        memo[n.id] = r
    return r


def spec(v):
    s = v._s
    vals = []
    memo = {}
    for o, cells in s.mem.items():
        if o.kind != 'arg':
            continue
        for off, c in sorted(cells.items()):
            lay = o.layout.get(off)
            if lay is None and s.sfx == 'd' and off % 8:
                continue          # padding after a flag word
            vals.append((lay[0] if lay else '%s+%d' % (o.name, off), c[1], s.builder.last_store.get((o.name, off)), off in o.layout))
    if s.ret is not None:
        vals.append(('result', s.ret, s.ret_dbg, True))
    out = []
    for lab, x, dbg, named in vals:
        if not isinstance(x, N):
            continue
        if not named and x is UNDEF:
            continue          # padding copied along with the object
        p = und(frange.Range(), x, {}) if frange.has_undef(x) else None
        # no path under rounding: initialised; otherwise decided exactly where the path leads
        out.append(Holds(lab + ' is initialised on every path', not_(reaches(x, memo)) if p is not None else T, None, dbg))
    return out or [Holds('no result', T)]


def setup():
    prepare(u)
    ent, sk = entries()
    skipped.extend(sk)
    for n, ps, body, ret, o, kind in ent:
        u.check(n, ps, body, spec, ret)


def declared_operations_are_defined(unit):
    bad = {}
    for d in unit.mod.decls:
        n = d.strip('"')
        if n.startswith('_Z') and 'mathlib' in n:
            bad[n] = n
    import subprocess
    out = []
    for n in sorted(bad):
        h = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip() or n
        out.append({'key': 'undefined/' + re.sub(r'<(float|double)>', '', h), 'inst': 'double' if '<double>' in h else 'float', 'where': h,
                    'text': 'VIOLATED declared operation is defined at %s: it is declared in the headers but has no definition' % h})
    return len(unit.obs), out, 'symbols of the library that the instantiated wrappers need and no header defines'


def declared_type_names_are_complete(unit):
    import subprocess
    import tempfile
    from unit import CLANG, INC
    names = sorted(set(re.findall(r'^\s*typedef\s+[\w<>: ]+\s(\w+)\s*;', open(os.path.join(INC, 'common.h'), encoding='latin-1').read(), re.M)))
    out = []
    with tempfile.NamedTemporaryFile('w', suffix='.cpp') as f:
        f.write('#include "mathlib.h"\n' + ''.join('extern const unsigned long s_%s = sizeof(mathlib::%s);\n' % (n, n) for n in names))
        f.flush()
        r = subprocess.run([CLANG, '-std=c++11', '-w', '-ferror-limit=0', '-fsyntax-only', '-I' + INC, f.name], capture_output=True, text=True)
    for m in re.finditer(r'^[^:\n]*\.cpp:(\d+):\d+: error: (.*)$', r.stderr, re.M):
        n = names[int(m.group(1)) - 2] if 2 <= int(m.group(1)) < len(names) + 2 else '?'
        out.append({'key': 'type/' + n, 'inst': 'double' if n.endswith('d') else 'float', 'where': 'libs/mathlib/include/common.h (%s)' % n,
                    'text': 'VIOLATED declared type is complete at libs/mathlib/include/common.h: %s: %s' % (n, m.group(2))})
    return len(names), out, 'typedefs of common.h name class templates that exist and can be instantiated'


def run(tier, work, a):
    import report
    setup()
    return report.run(u, tier, work, a, '', [declared_operations_are_defined, declared_type_names_are_complete])
