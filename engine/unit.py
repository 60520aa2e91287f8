"""Analysis units: API entry points of /repo instantiated for float and double, lowered to IR, and the
obligations stated about them."""
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import vg
import norm
import poly
import witness
from vg import *
from algebra import *
from norm import Bad, BadBranch, Unknown, RF

REPO = os.environ.get('MATHLIB_REPO', '/repo')
INC = os.path.join(REPO, 'libs/mathlib/include')
CLANG = 'clang++-18'
OPT = 'opt-18'
for c in (CLANG, OPT):
    pass
PASSES = ('module(cgscc(inline),globaldce,function(sroa,early-cse,simplifycfg,instsimplify,jump-threading,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,'
          'loop-unroll-full),sroa,early-cse,simplifycfg,loop-simplify,loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse,gvn,'
          'simplifycfg,adce,mergereturn,lcssa),globaldce)')

# type name -> (C++ type, leaves [(path, kind)])   kind R real / int
TYPES = {
    'V2': ('mathlib::Vec2<T>', ['x', 'y']),
    'V3': ('mathlib::Vec3<T>', ['x', 'y', 'z']),
    'V4': ('mathlib::Vec4<T>', ['x', 'y', 'z', 'w']),
    'Q': ('mathlib::Quat<T>', ['x', 'y', 'z', 'w']),
    'M2': ('mathlib::Mat2<T>', ['x.x', 'x.y', 'y.x', 'y.y']),
    'M3': ('mathlib::Mat3<T>', ['x.x', 'x.y', 'x.z', 'y.x', 'y.y', 'y.z', 'z.x', 'z.y', 'z.z']),
    'M34': ('mathlib::Mat34<T>', ['rs.' + p for p in ['x.x', 'x.y', 'x.z', 'y.x', 'y.y', 'y.z', 'z.x', 'z.y', 'z.z']] + ['t.x', 't.y', 't.z']),
    'M4': ('mathlib::Mat4<T>', [c + '.' + d for c in 'xyzt' for d in 'xyzw']),
    'L2': ('mathlib::Line2<T>', ['start.x', 'start.y', 'end.x', 'end.y']),
    'L3': ('mathlib::Line3<T>', ['start.x', 'start.y', 'start.z', 'end.x', 'end.y', 'end.z']),
    'R2': ('mathlib::Ray2<T>', ['start.x', 'start.y', 'direction.x', 'direction.y']),
    'R3': ('mathlib::Ray3<T>', ['start.x', 'start.y', 'start.z', 'direction.x', 'direction.y', 'direction.z']),
    'PL': ('mathlib::Plane<T>', ['normal.x', 'normal.y', 'normal.z', 'd']),
    'CI': ('mathlib::Circle<T>', ['center.x', 'center.y', 'radius']),
    'SP': ('mathlib::Sphere<T>', ['center.x', 'center.y', 'center.z', 'radius']),
    'B2': ('mathlib::AABB2<T>', ['inf.x', 'inf.y', 'sup.x', 'sup.y']),
    'B3': ('mathlib::AABB3<T>', ['inf.x', 'inf.y', 'inf.z', 'sup.x', 'sup.y', 'sup.z']),
    'CB2': ('mathlib::CAABB2<T>', ['center.x', 'center.y', 'extents.x', 'extents.y']),
    'CB3': ('mathlib::CAABB3<T>', ['center.x', 'center.y', 'center.z', 'extents.x', 'extents.y', 'extents.z']),
    'RGB': ('mathlib::ColorRGB<T>', ['r', 'g', 'b']),
    'RGBA': ('mathlib::ColorRGBA<T>', ['r', 'g', 'b', 'a']),
    'HS': ('mathlib::HermiteSplineSegment3<T>', [p + '.' + c for p in ('P1', 'P4', 'R1', 'R4') for c in 'xyz']),
    'BZ': ('mathlib::BezierSegment3<T>', [p + '.' + c for p in ('P1', 'P2', 'P3', 'P4') for c in 'xyz']),
    'FR': ('mathlib::Frustum<T>', ['corners[%d].%s' % (i, c) for i in range(8) for c in 'xyz'] + ['planes[%d].%s' % (i, c) for i in range(6) for c in ('normal.x', 'normal.y', 'normal.z', 'd')]),
    'HSV': ('mathlib::ColorHSV<T>', ['h', 's', 'v']),
}


class Fn:
    def __init__(self, name, ret, params, body, api):
        self.name = name
        self.ret = ret
        self.params = params
        self.body = body
        self.api = api


class Ob:
    def __init__(self, name, fn, spec, budget, alias):
        self.name = name
        self.fn = fn
        self.spec = spec
        self.budget = budget
        self.limit = 240
        self.alias = alias


class Eq:
    def __init__(self, label, got, want, cell=None):
        self.label, self.got, self.want, self.cell = label, got, want, cell


class Approx(Eq):
    """equality of normal forms with coefficients compared to a relative tolerance"""

    def __init__(self, label, got, want, tol, cell=None):
        Eq.__init__(self, label, got, want, cell)
        self.tol = tol


class Holds:
    def __init__(self, label, cond, cell=None, dbg=None):
        self.dbg = dbg
        self.label, self.cond, self.cell = label, cond, cell


class AnalysisError(Exception):
    pass


def opaque_uninitialised(t):
    """every local variable starts out with an unknown value of its own (the optimiser may otherwise turn
    'not initialised' into whatever suits it, also into what would have been right)"""
    out, decl, types, n = [], [], {}, 0

    def put(x):
        nonlocal n
        n += 1
        decl.append('declare %s @uninit.%d() nounwind willreturn memory(none)' % (types[x], n))
        out.append('  %%uninit.%d = call %s @uninit.%d()' % (n, types[x], n))
        out.append('  store %s %%uninit.%d, ptr %s' % (types[x], n, x))
    pending = []
    for l in t.split('\n'):
        m = re.match(r'  (%[\w.]+|%"[^"]+") = alloca (.+?), align \d+', l)
        if pending and not m:
            for x in pending:
                put(x)
            pending = []
        if l.startswith('define'):
            types = {}
        out.append(l)
        if m and not re.search(r'(^|[ {,])ptr\b|, i(32|64) ', m.group(2)):
            types[m.group(1)] = m.group(2)
            pending.append(m.group(1))
            continue
        m = re.match(r'  call void @llvm\.lifetime\.start\.p0\(i64 [-\d]+, ptr (%[\w.]+|%"[^"]+")\)', l)
        if m and m.group(1) in types:
            put(m.group(1))
    return '\n'.join(out + decl) + '\n'


class Unit:
    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.fns = {}
        self.obs = []
        self.prelude = ''
        self.types = dict(TYPES)
        self.rules = []        # extra rules: callables(unit, modf) -> (n_instances, [violations], notes)
        self.used = set()
        self.realkinds = ('f', 'd')
        self.keep_undefined = True    # variables not initialised yet hold a value the optimiser knows nothing about
        self.lenient = False   # generated units drop entry points that do not compile
        self.left_out = []
        self.defines = ['-DNDEBUG']

    # params: list of 'name:Type' with Type V3 / cV3 (const) / R / R& / int / raw C++
    def fn(self, name, params, body, ret='void', api=None):
        ps = []
        for p in params.split():
            n, t = p.split(':')
            ps.append((n, t))
        f = Fn(name, ret, ps, body, api or body)
        if name in self.fns:
            raise AnalysisError('duplicate wrapper ' + name)
        self.fns[name] = f
        for n, t in ps:
            t = t.lstrip('c')
            if t in self.types:
                self.used.add(t)
        return f

    def ob(self, name, fn, spec, budget=20000, alias=None):
        self.obs.append(Ob(name, fn, spec, budget, alias))

    def check(self, name, params, body, spec, ret='void', api=None, budget=20000):
        f = self.fn(name, params, body, ret, api)
        self.ob(name, f, spec, budget)
        return f

    # ---------------------------------------------------------------- C++
    def source(self):
        out = ['#include <mathlib.h>', '#include <stddef.h>', self.prelude]
        for sfx, ct in (('f', 'float'), ('d', 'double')):
            out.append('namespace unit_%s {' % sfx)
            out.append('typedef %s T; typedef T R;' % ct)
            for t, (c, leaves) in self.types.items():
                out.append('typedef %s %s;' % (c, t))
            out.append('extern "C" {')
            for t in sorted(self.used):
                c, leaves = self.types[t]
                out.append('extern const size_t sizeof_%s_%s = sizeof(%s);' % (t, sfx, t))
                for l in leaves:
                    if l.endswith('#'):
                        continue
                    out.append('extern const size_t off_%s_%s_%s = __builtin_offsetof(%s, %s);' % (t, _mang(l), sfx, t, l))
            for f in self.fns.values():
                ps = []
                for n, t in f.params:
                    if t == 'R&':
                        ps.append('T& ' + n)
                    elif t == 'Rp':
                        ps.append('T* ' + n)
                    elif t == 'cRp':
                        ps.append('const T* ' + n)
                    elif t in ('R', 'int', 'bool'):
                        ps.append('%s %s' % ('T' if t == 'R' else t, n))
                    elif t.startswith('c') and t[1:] in self.types:
                        ps.append('const %s& %s' % (t[1:], n))
                    elif t in self.types:
                        ps.append('%s& %s' % (t, n))
                    else:
                        ps.append('%s %s' % (t, n))
                out.append('%s %s_%s(%s) {' % (f.ret if f.ret != 'R' else 'T', f.name, sfx, ', '.join(ps)))
                out.append('#line 1 "%s"' % f.name)
                out.append(f.body)
                out.append('}')
            out.append('}}')
        return '\n'.join(out) + '\n'

    def compile(self, workdir):
        src = os.path.join(workdir, self.pid + '.cpp')
        open(src, 'w').write(self.source())
        ll = os.path.join(workdir, self.pid + '.ll')
        ol = os.path.join(workdir, self.pid + '.opt.ll')
        cmd = [CLANG, '-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-fno-math-errno', '-fno-threadsafe-statics',
               '-ffp-contract=off', '-funroll-loops', '-fno-exceptions', '-fno-rtti', '-gline-tables-only', '-fno-access-control', '-w',
               '-I' + INC] + self.defines + ['-S', '-emit-llvm', src, '-o', ll]
        r = subprocess.run(cmd + ['-ferror-limit=0'], capture_output=True, text=True, cwd=workdir)
        if r.returncode and self.lenient:
            # generated entry points the sources do not accept are left out
            bad = {m for m in re.findall(r'^(\w+):\d+:\d+: (?:error|note)', r.stderr, re.M) if m in self.fns}
            if bad and len(bad) < 0.1 * len(self.fns):
                self.left_out = sorted(bad)
                for b in bad:
                    del self.fns[b]
                self.obs = [o for o in self.obs if o.fn.name not in bad]
                open(src, 'w').write(self.source())
                r = subprocess.run(cmd, capture_output=True, text=True, cwd=workdir)
        if r.returncode:
            raise AnalysisError('unit does not compile:\n' + r.stderr[:4000])
        if self.keep_undefined:
            t = opaque_uninitialised(open(ll).read())
            open(ll, 'w').write(t)
        r = subprocess.run([OPT, '-S', '-passes=' + PASSES, '-inline-threshold=100000000', '-inlinecold-threshold=100000000', '-inline-cold-callsite-threshold=100000000', '-unroll-threshold=100000', ll, '-o', ol],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('opt failed:\n' + r.stderr[:2000])
        self.mod = ir.parse_module(open(ol).read())
        self.layouts = {}
        self.init_globals()
        return self.mod

    def const(self, name):
        g = self.mod.globals.get('@' + name)
        if g is None:
            raise AnalysisError('layout constant %s missing' % name)
        return g[2][1] if g[2][0] == 'ci' else 0

    def layout(self, t, sfx, base):
        c, leaves = self.types[t]
        r = {}
        for l in leaves:
            if l.endswith('#'):
                continue
            off = self.const('off_%s_%s_%s' % (t, _mang(l), sfx))
            r[off] = (base + '.' + l, 'R')
        return r

    def init_globals(self):
        """values of dynamically initialised constants (static initialisers), from their own summaries"""
        self.gmem = {}
        for name, f in self.mod.funcs.items():
            if name.startswith('__cxx_global_var_init'):
                txt = ' '.join(i.text for b in f.blocks.values() for i in b.insts)
                is_f = not re.search(r'\bdouble\b', txt) or re.search(r'MatrixToleranceIf|I[Ff]E', txt) is not None and 'IdE' not in txt
                try:
                    b = Builder(self.mod, f, [], bool(is_f), self.gmem, prefix=name, init_mode=True)
                    s = b.run()
                except Unsupported as e:
                    continue
                for o, cells in s.mem.items():
                    if o.kind == 'global' and not o.name.startswith('@_ZGV') and not o.name.startswith('@"_ZGV'):
                        self.gmem[o.name] = cells

    # ---------------------------------------------------------------- summaries
    def summary(self, name, sfx, objs=None, mem0=None, args=None):
        f = self.fns[name]
        irf = self.mod.funcs.get('%s_%s' % (name, sfx))
        if irf is None:
            raise AnalysisError('function %s_%s not in the unit' % (name, sfx))
        av = []
        ob = dict(objs or {})
        argn = {}
        for i, (n, t) in enumerate(f.params):
            if args is not None and n in args:
                av.append(args[n])
                argn[n] = args[n]
                continue
            bt = t[1:] if t.startswith('c') and t[1:] in self.types else t
            if bt in self.types:
                if n not in ob:
                    ob[n] = Obj(n, self.layout(bt, sfx, n), 'arg')
                    ob[n].tname = bt
                av.append(Ptr(ob[n], 0))
            elif t in ('R&', 'Rp', 'cRp'):
                if n not in ob:
                    sz = 4 if sfx == 'f' else 8
                    if t == 'R&':
                        ob[n] = Obj(n, {0: (n, 'R')}, 'arg')
                    else:
                        ob[n] = Obj(n, {k * sz: ('%s[%d]' % (n, k), 'R') for k in range(32)}, 'arg')
                    ob[n].tname = t
                av.append(Ptr(ob[n], 0))
            elif t == 'R':
                av.append(var(n))
                argn[n] = av[-1]
            elif t == 'int':
                av.append(N('ivar', n, 32))
                argn[n] = av[-1]
            elif t == 'bool':
                av.append(N('bvar', n))
                argn[n] = av[-1]
            else:
                raise AnalysisError('parameter type ' + t)
        b = Builder(self.mod, irf, av, sfx == 'f', self.gmem, prefix=name, mem0=mem0)
        s = b.run()
        s.objs = ob
        s.args = argn
        s.fn = f
        s.sfx = sfx
        s.unit = self
        return s


def _mang(l):
    return l.replace('.', '_').replace('[', '_').replace(']', '')


class View:
    """what a specification sees of a summary"""

    def __init__(self, unit, s):
        self._u = unit
        self._s = s

    def cell(self, obj, leaf, which):
        o = self._s.objs[obj]
        path = obj + '.' + leaf if leaf else obj
        for off, (nm, kind) in o.layout.items():
            if nm == path or nm == o.name + ('.' + leaf if leaf else ''):
                if which == 'in':
                    return var(nm)
                cells = self._s.mem.get(o, {})
                c = cells.get(off)
                if c is None:
                    for o2, (sz, x) in cells.items():
                        if o2 < off < o2 + sz:
                            raise Unsupported('%s is written as part of a larger cell' % path)
                    return var(nm)
                v = c[1]
                if isinstance(v, N) and v.k == 'ic' and v.a[0] == 0:
                    return q(0)
                return v
        raise AnalysisError('no cell %s in %s' % (leaf, obj))

    def _vec(self, obj, which, base, names):
        pre = base + '.' if base else ''
        return Vn(self.cell(obj, pre + n, which) for n in names)

    def v2(self, o, b='', out=False):
        return self._vec(o, 'out' if out else 'in', b, 'xy')

    def v3(self, o, b='', out=False):
        return self._vec(o, 'out' if out else 'in', b, 'xyz')

    def v4(self, o, b='', out=False):
        return self._vec(o, 'out' if out else 'in', b, 'xyzw')

    def m2(self, o, out=False):
        return cols(self.v2(o, 'x', out), self.v2(o, 'y', out))

    def m3(self, o, b='', out=False):
        p = b + '.' if b else ''
        return cols(self.v3(o, p + 'x', out), self.v3(o, p + 'y', out), self.v3(o, p + 'z', out))

    def m4(self, o, out=False):
        return cols(*[self.v4(o, c, out) for c in 'xyzt'])

    def r(self, o, out=False, leaf=''):
        return self.cell(o, leaf, 'out' if out else 'in')

    def arg(self, n):
        return self._s.args[n]

    @property
    def ret(self):
        return self._s.ret

    def pred(self, fname, obj, post=False):
        """value of a unary wrapper (its first parameter bound to obj) on the entry or exit state"""
        f = self._u.fns[fname]
        s = self._u.summary(fname, self._s.sfx, objs={f.params[0][0]: self._s.objs[obj]}, mem0=self._s.mem if post else None)
        return s.ret

    def eqv(self, label, got, want, obj=None, base='', names='xyzw'):
        r = []
        for i, (g, x) in enumerate(zip(got, want)):
            cell = None
            if obj:
                cell = (obj, (base + '.' if base else '') + names[i])
            r.append(Eq('%s.%s' % (label, names[i]) if label else names[i], g, w(x), cell))
        return r

    def nofault(self, **reals):
        """every access to an allocated array is inside it and before its release, every array is released
        exactly once; of the named argument arrays only the first so many numbers are read or written"""
        b = self._s.builder
        cells = self._s.mem.get(b.fobj, {})
        r = []
        for (what, dbg), i in b.faults.items():
            if i in cells:
                r.append(Holds('no ' + what, not_(cells[i][1]), dbg=dbg))
        heap = self._s.mem.get(b.hobj, {})
        for k, o in enumerate(b.allocs):
            r.append(Holds('array %d is released exactly once' % k, icmp('eq', heap[o.name][1], ic(1), 32) if o.name in heap else T, dbg=o.dbg))
        sz = 4 if self._s.sfx == 'f' else 8
        for nm, n in reals.items():
            o = self._s.objs[nm]
            out = sorted(set((off, dbg) for ob, off, size, dbg in b.reads + b.stores if ob is o and isinstance(off, int) and (off < 0 or off + size > n * sz)), key=lambda t: t[0])
            r.append(Holds('nothing beyond the end of %s is touched' % nm, F if out else T, dbg=out[0][1] if out else None))
        return r

    def eqm(self, label, got, want, obj=None, base=''):
        r = []
        gc, wc = got.cols(), want.cols()
        n = 'xyzt'
        for j in range(len(gc)):
            r += self.eqv('%s.%s' % (label, n[j]) if label else n[j], gc[j], wc[j], obj, (base + '.' if base else '') + n[j])
        return r


# -------------------------------------------------------------------- running obligations
_UNIT = None


def _where(unit, s, claim):
    """report location: the last store to the offending cell (innermost frame in the repository)"""
    dbg = None
    if claim is not None and claim.cell:
        o, leaf = claim.cell
        ob = s.objs.get(o)
        if ob:
            for off, (nm, kind) in ob.layout.items():
                if nm == o + ('.' + leaf if leaf else ''):
                    dbg = s.builder.last_store.get((ob.name, off))
    cands = [dbg]
    if getattr(claim, 'dbg', None):
        cands = [claim.dbg]
    if claim is not None:
        g = getattr(claim, 'got', None) if isinstance(claim, Eq) else getattr(claim, 'cond', None)
        seen = 0
        st = [g]
        while st and seen < 200:
            n = st.pop(0)
            seen += 1
            if isinstance(n, N):
                if n.dbg:
                    cands.append(n.dbg)
                st.extend(x for x in n.a if isinstance(x, N))
    cands.append(s.ret_dbg)
    best = None
    for d in cands:
        if not d:
            continue
        fr = [x for x in unit.mod.loc(d) if x[0].startswith(REPO)]
        # skip pure accessors: prefer the outermost repository frame's own line and the innermost one
        fr = [x for x in fr if x[1] > 0]
        if fr:
            inner = fr[0]
            outer = fr[-1]
            return '%s:%d (%s)%s' % (os.path.relpath(inner[0], REPO), inner[1], inner[2],
                                     '' if inner == outer else ' via %s:%d (%s)' % (os.path.relpath(outer[0], REPO), outer[1], outer[2]))
    return s.fn.api


def covered_functions(unit, s):
    """repository functions whose bodies were inlined into this summary"""
    r = set()
    for b in [b for f in [s.builder.f] + s.builder.inner for b in f.blocks.values()]:
        for i in b.insts + b.phis + [b.term]:
            if i.dbg:
                for f, l, n in unit.mod.loc(i.dbg):
                    if f.startswith(REPO):
                        r.add((os.path.relpath(f, REPO), n))
    return r


def decide(unit, ob, sfx, cache):
    """-> dict(status, cells, claims, ...)"""
    with time_limit(ob.limit):
        s = unit.summary(ob.fn.name, sfx)
        v = View(unit, s)
        res = ob.spec(v)
    pre = T
    domains = {}
    if isinstance(res, dict):
        pre = res.get('pre', T)
        domains = res.get('domains', {})
        claims = res['claims']
        masks = res.get('masks', {})
        seed = res.get('seed', ())
    else:
        claims, masks, seed = res, {}, ()
    for c in s.builder.assumed:
        pre = pre & c
    key = (pre.id, tuple((c.label, c.got.id if isinstance(c.got, N) else None, c.want.id) if isinstance(c, Eq) else (c.label, c.cond.id) for c in claims))
    out = {'name': ob.name, 'sfx': sfx, 'claims': len(claims), 'insts': s.builder.insts, 'fns': sorted(covered_functions(unit, s)),
           'truncs': len(s.builder.truncs), 'cells': 0, 'viol': [], 'same': False}
    if key in cache:
        out['same'] = True
        out['cells'] = cache[key]['cells']
        for vi in cache[key]['viol']:
            out['viol'].append(vi)
        return out
    # a cell whose computed graph is the expected graph itself needs no partition
    left = [c for c in claims if not (isinstance(c, Eq) and isinstance(c.got, N) and c.got is c.want and clean(c.got))]
    out['identical'] = len(claims) - len(left)
    claims = left
    if not claims:
        out['cells'] = 1
        cache[key] = {'cells': 1, 'viol': []}
        return out
    cut, cutnodes = {}, {}
    for e in (res.get('cut', ()) if isinstance(res, dict) else ()):
        for x in cut_leaves(e):
            cut.setdefault(x.id, 'cell%d' % len(cut))
            cutnodes.setdefault(cut[x.id], x)

    def go(cut, limit):
        nonlocal seed
        for attempt in range(6):
            out.update(cells=0, viol=[], unsure={})
            try:
                with time_limit(limit):
                    _partition(unit, ob, s, claims, pre, masks, domains, seed, out, attempt < 5, cut, cutnodes if cut else {})
                return
            except norm.Reseed as e:
                seed = (e.node,) + tuple(seed)
            except (TimeUp, norm.Budget, poly.TooBig, Unknown, Unsupported):
                if out['viol']:
                    return      # a violation that was established stays one
                raise
    go(cut, ob.limit)
    if cut and out['unsure'] and not out['viol']:
        # forgetting how the cells were computed may be what failed: decide again remembering it
        go({}, 120)
    if out['unsure'] and not out['viol']:
        raise Unconfirmed('%s: the normal forms differ in a region that was not shown to be inhabited: %s' % (', '.join(out['unsure']), list(out['unsure'].values())[0][:200]))
    if out['cells'] == 0:
        raise AnalysisError('%s_%s: precondition is empty: nothing was decided' % (ob.name, sfx))
    cache[key] = {'cells': out['cells'], 'viol': out['viol']}
    return out


def clean(n):
    """no undefined or unreachable value takes part"""
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if not isinstance(x, N) or x.id in seen:
            continue
        seen.add(x.id)
        if x.k in ('undef', 'bot', 'nan'):
            return False
        st.extend(x.a)
    return True


class TimeUp(Exception):
    pass


class Unconfirmed(Exception):
    """computed and specified normal form differ where no point is known"""


DEADLINE = time.time() + float(os.environ.get('VERIF_SECONDS', '640'))     # a check answers within 900 s


class time_limit:
    def __init__(self, secs):
        self.secs = min(secs, max(0.5, DEADLINE - time.time()))

    def __enter__(self):
        def up(*a):
            raise TimeUp('time limit of %.3g s' % self.secs)
        signal.signal(signal.SIGALRM, up)
        signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def cut_leaves(e):
    """the computed alternatives of a gated cell (sign stripped)"""
    out, st, seen = [], [e], set()
    while st:
        n = st.pop()
        if not isinstance(n, N) or n.id in seen:
            continue
        seen.add(n.id)
        if n.k == 'ite':
            st += [n.a[1], n.a[2]]
        elif n.k == 'neg':
            st.append(n.a[0])
        elif n.k in ('+', '-', '*', '/', 'fn'):
            out.append(n)
    return out


def _partition(unit, ob, s, claims, pre, masks, domains, seed, out, reseed, cut={}, cutnodes={}):
    sfx = s.sfx
    sp = norm.Space()
    ctx = norm.Ctx(sp)
    ctx.reseed = reseed
    for nm, m in masks.items():
        sp.var_atom(nm, m)
    ctx.domains = domains
    ctx.cut = cut

    def run(c):
        for e in seed:
            try:
                c.ev(e)
            except BadBranch:
                pass
        try:
            if c.evb(pre) is not True:
                return None
        except BadBranch:
            return None     # the precondition itself has no value here
        rs = []
        for cl in claims:
            try:
                if isinstance(cl, Eq):
                    if isinstance(cl.got, N) and (c.is_bool(cl.got) or c.is_bool(cl.want)):
                        g = c.evb(cl.got)
                        x = c.evb(cl.want)
                        rs.append(g == x if not isinstance(g, Bad) else False)
                    elif isinstance(cl.got, N) and c.is_int(cl.want):
                        try:
                            rs.append(c.evi(cl.got) == c.evi(cl.want))
                        except norm.Unknown:
                            # an integer without a known finite range: compared as a number (signed overflow is undefined)
                            g, x = c.int_real(cl.got), c.int_real(cl.want)
                            rs.append(isinstance(g, RF) and isinstance(x, RF) and c.equal_rf(g, x))
                    else:
                        g = c.ev(cl.got) if isinstance(cl.got, N) else Bad('not a scalar')
                        x = c.ev(cl.want)
                        if isinstance(g, RF) and isinstance(x, RF):
                            rs.append(c.close_rf(g, x, cl.tol) if isinstance(cl, Approx) else c.equal_rf(g, x))
                        elif isinstance(g, Bad) and isinstance(x, Bad):
                            rs.append(True)
                        else:
                            rs.append(g == x and not isinstance(g, Bad))
                else:
                    rs.append(c.evb(cl.cond) is True)
            except BadBranch as e:
                rs.append(('bad', str(e)))
        return rs
    n = 0
    pruned = 0
    seen = set()
    tries = {}
    t_wit = time.time()
    for c, rs in norm.partition(ctx, run, ob.budget):
        n += 1
        if rs is None:
            continue
        out['cells'] += 1
        for cl, ok in zip(claims, rs):
            if ok is True or cl.label in seen:
                continue
            if norm.linear_empty(c):
                pruned += 1
                break
            try:
                tries[cl.label] = tries.get(cl.label, 0) + 1
                if tries[cl.label] > 60 or time.time() - t_wit > 60:
                    continue
                if isinstance(cl, Eq):
                    at = witness.search(c, masks, cutnodes, pre, 'eq', cl.got, cl.want, getattr(cl, 'tol', None))
                else:
                    at = witness.search(c, masks, cutnodes, pre, 'holds', cl.cond, None)
            except witness.Cannot as e:
                at = 'a region of the input space'
                if os.environ.get('WITNESS'):
                    print('   CANNOT', ob.name, cl.label, e)
            if at is None:
                out['unsure'].setdefault(cl.label, '; '.join(c.describe()[:8]))
                continue
            out['unsure'].pop(cl.label, None)
            seen.add(cl.label)
            d = {'claim': cl.label, 'where': _where(unit, s, cl), 'region': c.describe()[:12] + [at], 'inst': 'float' if sfx == 'f' else 'double'}
            if isinstance(ok, tuple):
                d['got'] = 'control depends on ' + ok[1]
            elif isinstance(cl, Eq):
                for nm, e in (('got', cl.got), ('expected', cl.want)):
                    try:
                        x = c.memo.get(e.id) if isinstance(e, N) else e
                        d[nm] = (sp.rfstr(x) if x is not None else show(e))[:400]
                    except Exception:
                        d[nm] = show(e)[:300]
            else:
                d['got'] = 'claim is false here'
            out['viol'].append(d)
    out['pruned'] = pruned


def _run_ob(i):
    unit = _UNIT
    ob = unit.obs[i]
    cache = {}
    res = []
    t0 = time.time()
    for sfx in unit.realkinds:
        try:
            r = decide(unit, ob, sfx, cache)
            r['status'] = 'ok'
        except (Unsupported, Unknown, norm.Budget, poly.TooBig, TimeUp, Unconfirmed) as e:
            r = {'name': ob.name, 'sfx': sfx, 'status': 'undecided', 'why': '%s: %s' % (type(e).__name__, e)}
        except RecursionError as e:
            r = {'name': ob.name, 'sfx': sfx, 'status': 'undecided', 'why': 'recursion'}
        except AnalysisError as e:
            r = {'name': ob.name, 'sfx': sfx, 'status': 'undecided', 'why': str(e)}
        except Exception as e:
            # a construct the analysis does not understand: no answer for this entry point
            r = {'name': ob.name, 'sfx': sfx, 'status': 'undecided', 'why': ' | '.join(traceback.format_exc().strip().split('\n')[-5:])}
        r['t'] = time.time() - t0
        res.append(r)
    return res


def run_unit(unit, workdir, jobs=8, only=None):
    global _UNIT
    unit.compile(workdir)
    _UNIT = unit
    sys.setrecursionlimit(20000)
    idx = [i for i, o in enumerate(unit.obs) if only is None or re.search(only, o.name)]
    if jobs == 1 or len(idx) < 2:
        return [r for i in idx for r in _run_ob(i)]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(jobs, maxtasksperchild=20) as pool:
        out = []
        for rs in pool.imap(_run_ob, idx, chunksize=1):
            out.extend(rs)
    return out
