import re
from apilib import *

META = {
    'title': 'Operations change only what they declare; mutators return their object',
    'statement': 'A const operation leaves its object unchanged, every operation leaves the objects it takes by const reference or pointer-to-const unchanged, free and static functions touch nothing but their output arguments, and no operation writes global or static data, cached flags included. Every modifying operation that returns a reference to its own class returns the object it was called on, so that calls can be chained. Output arguments of a query are written only by the query, and an operation on an array writes no element beyond the count.',
    'forall': 'every public function, constructor and operator, all overloads and enumerators, every input value, float and double',
    'why': 'a const operation that updates a cached flag through mutable or a cast, a result returned by reference to a static, or a chained call on a copy is invisible to a test that looks at the result only',
    'files': ['vec2.h', 'vec3.h', 'vec4.h', 'quat.h', 'mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'plane.h', 'sphere.h', 'circle.h', 'line2.h', 'line3.h', 'ray2.h', 'ray3.h', 'aabb2.h', 'aabb3.h', 'caabb2.h', 'caabb3.h', 'spline3.h', 'frustum.h', 'tri2.h', 'functions.h', 'interpolation.h', 'colorrgb.h', 'colorrgba.h', 'colorhsv.h'],
    'mech': [('chained mutators', 'impl/vec3.h'), ('const queries', 'impl/mat4.h')],
}
u = Unit('P27', META['title'])


def make(params, kind, ret, body):
    const = {p.split(':')[0] for p in params.split() if p.split(':')[1].startswith('c')}

    def spec(v):
        s = v._s
        out = []
        for o, cells in s.mem.items():
            if o.kind == 'global':
                if o.name.startswith('@_ZGV') or '@_ZGV' + o.name[3:] in s.builder.m.globals and all(isinstance(c[1], N) and (c[1] is UNDEF or not has_input(c[1])) for c in cells.values()):
                    continue          # a static constant: initialised on first use, by nothing the caller passes
                for off, c in sorted(cells.items()):
                    if True:
                        out.append(Holds('global %s is not written' % o.name, F, None, s.builder.last_store.get((o.name, off))))
                        break
            if o.kind != 'arg':
                continue
            if o.name in const:
                for off, c in sorted(cells.items()):
                    lay = o.layout.get(off)
                    lab = lay[0] if lay else '%s+%d' % (o.name, off)
                    x = c[1]
                    init = None
                    try:
                        init = s.builder.init_cell(o, off, c[0], ('int', 8 * c[0]) if lay is None else None)
                    except Exception:
                        init = var(lab)
                    if x is init:
                        continue
                    if lay is None or not isinstance(x, N):
                        out.append(Holds(lab + ' of a const operand keeps its value', F if x is not init else T, None, s.builder.last_store.get((o.name, off))))
                    else:
                        out.append(Eq(lab + ' of a const operand keeps its value', x, var(lab), (o.name, lab[len(o.name) + 1:])))
            elif getattr(o, 'tname', '').startswith('A'):
                # arrays of eight, used with a count of two
                for off, c in sorted(cells.items()):
                    lay = o.layout.get(off)
                    if lay and int(re.search(r'\[(\d)\]', lay[0]).group(1)) >= 2 and c[1] is not var(lay[0]):
                        out.append(Eq(lay[0] + ' beyond the count keeps its value', c[1], var(lay[0]), (o.name, lay[0][len(o.name) + 1:])))
        if kind == 'class&' and ret == 'bool':
            out.append(Holds('returns the object itself', v.ret if isinstance(v.ret, N) else F))
        return out or [Holds('nothing but the declared results is written', T)]
    return spec


def setup():
    prepare(u)
    for n, ps, body, ret, o, kind in entries()[0]:
        u.check(n, ps, body, make(ps, kind, ret, body), ret)


def no_static_data_is_written(unit):
    import lint
    import tempfile
    import shutil
    n, out = 0, []
    d = tempfile.mkdtemp(prefix='mlv-lint-')
    try:
        api, bad, mod = lint.library(d, 'double')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for f in mod.funcs.values():
        if f.name.startswith('__cxx_global_var_init') or f.name.startswith('_GLOBAL__') or not lint.own(mod, f):
            continue
        n += 1
        args = {p[1] for p in f.params}
        for b in f.blocks.values():
            for i in b.insts:
                if i.dest and set(re.findall(r'%[-\w.$]+', i.text.split(' = ', 1)[-1])) & args:
                    args.add(i.dest)
        for b in f.blocks.values():
            for i in b.insts:
                t = re.sub(r'!.*$', '', i.text or '')
                m = re.match(r'\s*store .*?, ptr (?:getelementptr[^@]*)?@([\w.$]+)', t)
                if m is None and i.op == 'call':
                    # a static local constructed from an argument
                    m = re.search(r'C[12]E\w*\(ptr [^@%,]*@(_ZZ[\w.$]+)', t)
                    m = m if m and '@_ZGV' + m.group(1)[2:] in mod.globals else None
                if m and m.group(1).startswith('_ZGV'):
                    continue
                if m and '@_ZGV' + m.group(1)[2:] in mod.globals and not set(re.findall(r'%[-\w.$]+', t)) & args:
                    continue
                if m:
                    w = lint.where(mod, i.dbg)
                    out.append({'key': 'static/' + w.split('(')[-1].rstrip(')'), 'inst': 'double', 'where': w,
                                'text': 'VIOLATED no static data is written at %s [%s]: %s' % (w, f.name, t.strip()[:120])})
    return n, out, 'stores to static storage (and static locals initialised on first use) in every definition of the library'


def run(tier, work, a):
    import report
    setup()
    return report.run(u, tier, work, a, '', [no_static_data_is_written])
